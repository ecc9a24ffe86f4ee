from .common import *
META = dict(
 title='STUN server: what it answers to every datagram',
 statement='A binding request is answered with a success response under its id that carries the source address of the datagram as XOR-MAPPED-ADDRESS (MAPPED-ADDRESS and no fingerprint for RFC 3489 requests) and nothing else but the configured fingerprint; unknown comprehension-required attributes get 420 listing them, half credentials 400, unknown users and wrong digests 401, a failing hash an error; authentic requests are answered with their own credentials to sign with. Anything that is not a request, not binding, or not STUN is ignored; no earlier datagram changes an answer.',
 text='all request contents, ids, both formats, all source addresses and ports over UDP and TCP, all attribute types, two users with any names, passwords and digests, failing hashes, and any earlier datagram of several kinds',
 over=['inputs', 'histories'],
 why='tests send one request per error; that no other input is answered, leaks an address or is signed needs every content',
 files=['src/stun/stun_server_stateless.cpp', 'src/stun/stun_server_stateless.hpp', 'src/stun/stun_message.cpp', 'src/net/net_endpoint.hpp'],
 mechanism=[('request processing', 'src/stun/stun_server_stateless.cpp'), ('credential lookup and check', 'src/stun/stun_server_stateless.cpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of Stateless::process over reference containers with a recording hash; the answer is built and its octets compared with the layout of RFC 8489, and refusals with their cause, on every path.'
F = ['p18.cpp']
def run(c):
    c.bounds = True; c.variant = "ref"
    c.sizes = {"freewebrtc::stun::AttributeType": 2}
    c.all(F, 'stun::server::Stateless::process')
