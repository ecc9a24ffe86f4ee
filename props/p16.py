from .common import *
META = dict(
 title='STUN client: the retransmission schedule is the configured one',
 statement='An unanswered request is sent again, unchanged, exactly at its timeout and never before; timeouts start at the RTO of the path, double each time, the last is Rm times the RTO, none after the first exceeds max_rto, Rc requests are sent in all, and the transaction fails after the last timeout. A 5xx response is retried after server_error_timeout at most server_error_max_retransmits times, without using up the Rc requests; otherwise it is final. The client never sleeps beyond the earliest timeout of its transactions.',
 text='all RTOs, start times, polling delays and early polls, for request counts 2-7 and several multipliers, all max_rto, all 5xx timeouts and answer times for up to 3 retries, and two interleaved transactions',
 over=['inputs', 'schedules', 'histories'],
 why='tests poll at the exact deadlines of one schedule; late and early polls, caps and interleavings need every time value',
 files=['src/stun/stun_client_udp.cpp', 'src/stun/stun_client_udp_settings.hpp'],
 mechanism=[('retransmission algorithm', 'src/stun/stun_client_udp.cpp'), ('timeline queue', 'src/stun/stun_client_udp.cpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of ClientUDP::next and response over reference containers with arbitrary times; the effect at, before and after every deadline is compared with the schedule of the settings on every path.'
F = ['p16.cpp']
def run(c):
    c.variant = "ref"
    c.sizes = {"freewebrtc::stun::AttributeType": 2}
    c.all(F, 'stun::ClientUDP::next')
