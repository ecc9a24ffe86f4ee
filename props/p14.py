from .common import *
META = dict(
 title='STUN client: every transaction ends exactly once',
 statement='Each created transaction produces exactly one final effect (success or failure) under its own handle, whether it ends by an answer, an error, a timeout or a race of them; after that it sends nothing, wakes nothing up, refuses further responses as unknown, and its transaction id may be used again. Responses that end nothing (other ids, other classes, unexpected codes, garbage) leave it able to accept its answer.',
 text='all response contents for every kind of answer, all times between answer, poll and timeout, repeated answers, two interleaved transactions in either order, reuse of an id after its end',
 over=['inputs', 'histories'],
 why='tests replay single response sequences; a second effect or a lost one appears only for particular orders of answer, poll, timeout and duplicate',
 files=['src/stun/stun_client_udp.cpp', 'src/stun/stun_client_udp.hpp', 'src/stun/stun_client_udp_effects.hpp'],
 mechanism=[('transaction life cycle', 'src/stun/stun_client_udp.cpp'), ('handle and id tables', 'src/stun/stun_client_udp.cpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of create/next/response histories of ClientUDP over reference containers, for every kind of ending; the effects after it, the reactions to repeated answers and the wake-ups are checked on every path, as is use of storage already released.'
F = ['p14.cpp']
def run(c):
    c.variant = "ref"
    c.sizes = {"freewebrtc::stun::AttributeType": 2}
    c.all(F, 'stun::ClientUDP')
