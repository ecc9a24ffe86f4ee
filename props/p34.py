from .common import *
META = dict(
 title='STUN client: the reported outcome is what the response says',
 statement='A success response yields the endpoint of XOR-MAPPED-ADDRESS (preferred) or MAPPED-ADDRESS and the round trip, measured only when the request was not retransmitted; every other response that ends a transaction yields the failure it describes: unknown comprehension-required attributes listed, the error code with its reason, the attributes reported by 420, the alternate server of 300, or its own error when the address, the code or the alternate server is missing.',
 text='all addresses, ports, codes 300-599, reason texts, attribute lists and orders, all times',
 over=['inputs', 'histories'],
 why='tests check one address and a handful of codes; the mapping must hold for every code and content',
 files=['src/stun/stun_client_udp.cpp', 'src/stun/stun_client_udp_effects.hpp', 'src/stun/stun_attribute_set.cpp', 'src/stun/stun_address.cpp'],
 mechanism=[('success and error dispatch', 'src/stun/stun_client_udp.cpp'), ('attribute access', 'src/stun/stun_attribute_set.cpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of ClientUDP::response and next over reference containers; the effect is compared with the response octets on every path.'
F = ['p34.cpp']
def run(c):
    c.variant = "ref"
    c.sizes = {"freewebrtc::stun::AttributeType": 2}
    c.all(F, 'stun::ClientUDP::response')
