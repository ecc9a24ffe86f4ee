from .common import *
META = dict(
 title='STUN client: a new transaction sends exactly the request it was asked for',
 statement='create() yields a binding request with a transaction id not in use (drawn again on a clash), carrying the given attributes once each, USERNAME and MESSAGE-INTEGRITY over the request exactly when credentials are given, FINGERPRINT last exactly when configured; next() first returns it once under the returned handle, in order of creation, then sleeps for the RTO. Handles and ids of concurrent transactions differ; a failed hash creates nothing.',
 text='all random bits (including repeated ids), times, RTOs, attribute values, names and digests; with and without credentials, attributes, fingerprint; one and two transactions',
 over=['inputs', 'histories'],
 why='tests use one fixed random source and decode with the same library',
 files=['src/stun/stun_client_udp.cpp', 'src/stun/stun_client_udp.hpp', 'src/stun/stun_attribute_set.cpp', 'src/stun/stun_transaction_id.hpp'],
 mechanism=[('transaction creation', 'src/stun/stun_client_udp.cpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of create followed by next() on a fresh ClientUDP over reference containers; the bytes of the view returned, handles, ids and the following Sleep are compared with the request and settings on every path.'
F = ['p15.cpp']
def run(c):
    c.variant = "ref"
    c.sizes = {"freewebrtc::stun::AttributeType": 2}
    c.all(F, 'stun::ClientUDP::create')
