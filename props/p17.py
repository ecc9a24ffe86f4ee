from .common import *
META = dict(
 title='STUN client: retransmission timeouts follow RFC 6298 per network path',
 statement='A path without history has the configured initial RTO; the first round trip R gives R + 4*(R/2), every further one is smoothed with weights 7/8 and 3/4 into SRTT + 4*RTTVAR; a back-off overrides that until the next measurement and leaves the smoothed values alone. Retransmitted requests are never measured (Karn); paths (source and target) never influence each other; history is forgotten at the next update after history_duration, and not before.',
 text='all paths, round trips, back-offs, times and history durations, for histories of up to three updates over two paths, driven directly and through the client',
 over=['inputs', 'histories'],
 why='tests check a few round trips on one path; independence, smoothing and aging must hold for every value and order',
 files=['src/stun/details/stun_client_udp_rto.cpp', 'src/stun/details/stun_client_udp_rto.hpp', 'src/stun/stun_client_udp.cpp', 'src/net/net_path_hash.hpp'],
 mechanism=[('RTO calculator', 'src/stun/details/stun_client_udp_rto.cpp'), ('feeding it from responses', 'src/stun/stun_client_udp.cpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of ClientUDPRtoCalculator over a reference hash map, and of the client feeding it; the RTO is compared with the integer form of RFC 6298 section 2 on every path.'
F = ['p17.cpp']
def run(c):
    c.variant = "ref"
    c.sizes = {"freewebrtc::stun::AttributeType": 2}
    c.all(F, 'stun::details::ClientUDPRtoCalculator')
