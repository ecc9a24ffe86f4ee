from .common import *
META = dict(
 title='STUN integrity check: exactly the received bytes are authenticated',
 statement='Message::is_valid computes HMAC-SHA1 over the received message up to MESSAGE-INTEGRITY with the header length adjusted to end at it, whatever follows, and reports authentic exactly when all 20 digest bytes agree; a failing hash is an error, never a verdict; a message without MESSAGE-INTEGRITY gets no verdict. Signing (build) and checking hash the same bytes, so a built message is authentic under its own key.',
 text='all contents, ids, keys and digests of messages with any number of attribute bytes before MESSAGE-INTEGRITY, trailing ignored attributes or FINGERPRINT after it, both header forms',
 why='tests check known vectors; a byte left out of the digest or an ignored tail included shows only under forgery',
 files=['src/stun/stun_message.cpp', 'src/crypto/crypto_hmac.hpp', 'src/stun/stun_password.cpp', 'src/stun/stun_attribute_set.cpp'],
 mechanism=[('integrity verification', 'src/stun/stun_message.cpp'), ('HMAC', 'src/crypto/crypto_hmac.hpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of Message::parse followed by is_valid with a recording hash stand-in that may fail and returns arbitrary digests; every hashed byte and the verdict are compared with the message, and build followed by parse and is_valid is compared byte for byte.'
F = ['p09.cpp']
def run(c):
    c.bounds = True; c.variant = "ref"
    c.sizes = {"freewebrtc::stun::AttributeType": 2}
    c.all(F, 'stun::Message::is_valid')
