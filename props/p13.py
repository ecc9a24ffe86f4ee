from .common import *
META = dict(
 title='STUN client: only authentic responses affect an authenticated transaction',
 statement='For a request created with credentials, a response has an effect exactly when its MESSAGE-INTEGRITY equals the HMAC under those credentials; a wrong digest, a failing hash or a missing MESSAGE-INTEGRITY is refused with its own error, except an unsigned 300 response when allow_unauthenticated_alternate is set. A refused response changes nothing: no effect, same pending timeout, and the authentic response is still accepted afterwards.',
 text='all response contents and digests, success and all error codes, signed or not, both settings, parsed by the client or by the caller, at any time; followed by a second response',
 over=['inputs', 'histories'],
 why='tests forge one or two responses; whether any other forged response can end a transaction needs every digest, code and setting',
 files=['src/stun/stun_client_udp.cpp', 'src/stun/stun_client_udp.hpp', 'src/stun/stun_message.cpp'],
 mechanism=[('response authentication before dispatch', 'src/stun/stun_client_udp.cpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of create/next/response/next histories of ClientUDP over reference containers, with a recording hash that may fail and returns arbitrary digests; acceptance, the reported error and the next effect are compared with the digest comparison on every path.'
F = ['p13.cpp']
def run(c):
    c.variant = "ref"
    c.sizes = {"freewebrtc::stun::AttributeType": 2}
    c.all(F, 'stun::ClientUDP::response')
