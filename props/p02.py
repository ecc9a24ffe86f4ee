from .common import *
META = dict(
 title='STUN attributes: TLV walk, integrity and fingerprint positions',
 statement='Attributes are read in order, each starting after the 4-byte padding of the one before, and a message is refused if one leaves it. Attributes after MESSAGE-INTEGRITY other than FINGERPRINT are ignored; FINGERPRINT must be last and equal CRC-32 of all preceding bytes xor 0x5354554E. The first attribute of a type counts; unknown ones are kept and those below 0x8000 reported as comprehension-required, in order.',
 text='every division of up to 24 attribute bytes, all types and contents; every known type after MESSAGE-INTEGRITY; fixed multi-attribute layouts with all contents; a first attribute of every length with another one, MESSAGE-INTEGRITY or nothing behind it',
 why='tests parse captured packets; padding, ordering and trailing-attribute rules break on packets nobody captured',
 files=['src/stun/stun_message.cpp', 'src/stun/stun_attribute_set.cpp', 'src/stun/stun_attribute_set.hpp', 'src/stun/details/stun_fingerprint.cpp'],
 mechanism=[('attribute walk, integrity and fingerprint handling', 'src/stun/stun_message.cpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of Message::parse over messages with every division into attributes (one path per division, bytes unconstrained) and over integrity/fingerprint layouts; acceptance, order, ignored attributes, CRC coverage and lookups are compared with RFC 8489 on every path.'
F = ['p02.cpp']
def run(c):
    c.variant = "ref"; c.bytesyms = True
    c.all(F, 'stun::Message::parse')
