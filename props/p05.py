from .common import *
META = dict(
 title='STUN attribute values are encoded as the RFCs lay them out',
 statement='Every attribute the library can build serialises to exactly the bytes the RFC prescribes (reserved byte zero, family, port, address, error class/number, list of types), and a built value parses back to the same attribute, whatever its contents.',
 text='all addresses, ports, error codes and list entries; lists of any number of entries',
 why='tests build a few attributes with friendly values; an encoding slip shows only for other values',
 files=['src/stun/stun_attribute.cpp'],
 mechanism=[('attribute value encoding', 'src/stun/stun_attribute.cpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Bit-provenance abstract interpretation of every attribute builder, and of build followed by parse, for all field values.'
F = ['p05.cpp']
def run(c):
    c.variant = "ref"
    c.sizes = {"freewebrtc::stun::AttributeType": 2}
    c.all(F, {'b_': 'stun::Attribute build', 'r_': 'stun attribute round trip'})
