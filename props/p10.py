from .common import *
META = dict(
 title='STUN message integrity is exactly HMAC-SHA1 with RFC 2104 padding',
 statement='For every key and text the digest is H((K xor opad) || H((K xor ipad) || text)), with K zero-padded to 64 bytes or hashed first when longer; a failing hash is reported, never replaced. The short-term key is exactly the password bytes.',
 text='all keys of length 0-64 and any longer length, all texts of 0, 1 and 3 views',
 why='tests use one or two RFC vectors; block-size boundaries, long keys and hash failures need other inputs',
 files=['src/crypto/crypto_hmac.hpp', 'src/crypto/crypto_hash.hpp', 'src/stun/stun_password.cpp'],
 mechanism=[('HMAC construction', 'src/crypto/crypto_hmac.hpp'), ('short-term key', 'src/stun/stun_password.cpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of pad-key construction (each key length, symbolic bytes), of digest composition over an uninterpreted hash function, and of the password to key mapping.'
F = ['p10.cpp']
def run(c):
    c.sizes = {"freewebrtc::stun::AttributeType": 2}
    c.all(F, {'pad': 'crypto::hmac PadKey', 'mac': 'crypto::hmac::digest', 'pw': 'stun::Password'})
