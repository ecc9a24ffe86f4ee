from .common import *
META = dict(
 title='STUN building: exact bytes, padding, HMAC input and CRC coverage',
 statement='Message::build writes the RFC 8489 bytes: header with class, method, cookie, transaction id and final length; each attribute once with unpadded length, its value in wire form, zero padding. With integrity, HMAC-SHA1 (key padded to a block, inner/outer pads) covers the preceding message with a header length counting MESSAGE-INTEGRITY but nothing after; FINGERPRINT is last, CRC over all preceding bytes. Building fails exactly when hashing does.',
 text='every attribute type with all values, every text and unknown value length, sets of three attributes of all kinds in every container order, all ids, keys and digests, both header forms',
 why='tests build a few vectors; padding, lengths and digest coverage depend on sizes and on container iteration order',
 files=['src/stun/stun_message.cpp', 'src/stun/stun_attribute_set.cpp', 'src/stun/stun_attribute.cpp', 'src/stun/stun_header.cpp', 'src/stun/stun_password.cpp', 'src/crypto/crypto_hmac.hpp', 'src/stun/details/stun_fingerprint.cpp'],
 mechanism=[('message and attribute serialisation', 'src/stun/stun_attribute_set.cpp'), ('HMAC', 'src/crypto/crypto_hmac.hpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of Message::build over reference containers with symbolic values, ids, keys and hash results (the hash is a recording stand-in that may fail); the produced bytes and every byte hashed are compared with the RFC layout on every path and container order.'
F = ['p08.cpp']
def run(c):
    c.variant = "ref"; c.orders = True; c.bounds = True
    c.sizes = {"freewebrtc::stun::AttributeType": 2}
    c.all(F, 'stun::Message::build')
