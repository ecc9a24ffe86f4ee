from .common import *
META = dict(
 title='XOR-MAPPED-ADDRESS hides and recovers any address and port exactly',
 statement="The encoded x-address is the address xor the magic cookie followed by the transaction id (IPv6), the port xor the cookie's high half; decoding with the same transaction id returns the same address for every address, port and transaction id, including RFC 3489 ids.",
 text='all IPv4 and IPv6 addresses, all ports, all transaction ids',
 why='tests use a few addresses; IPv6 and particular id bytes need other inputs',
 files=['src/stun/stun_address.cpp', 'src/stun/stun_address.hpp', 'src/stun/stun_attribute.cpp'],
 mechanism=[('xor address encoding and decoding', 'src/stun/stun_address.cpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Bit-provenance abstract interpretation of XOR encoding, decoding, and their composition.'
F = ['p12.cpp']
def run(c):
    c.sizes = {"freewebrtc::stun::AttributeType": 2}
    c.all(F, {'x_v': 'stun::XoredAddress::from_address', 'x_': 'stun::XoredAddress::to_address'})
