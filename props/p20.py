from .common import *
META = dict(
 title='RTP value types and the payload map',
 statement='A payload type is any value 0-127 and nothing else; sequence numbers, SSRCs, timestamps, clock rates and the marker keep the value they were built from, and payload types and SSRCs compare equal exactly when their values do. A payload map answers the clock rate a payload type was (first) listed with, and nothing for a type that was not listed. Counters start at zero and count one by one.',
 text='every value of every type; every map of up to three entries with any payload types (equal ones included), any rates and any queried type, in any order of the underlying hash table',
 over=['inputs', 'configurations'],
 why='tests use one or two payload types; limits, truncation and wrong entries show for particular values only',
 files=['src/rtp/rtp_payload_map.cpp', 'src/rtp/rtp_payload_map.hpp', 'src/rtp/rtp_payload_type.hpp', 'src/rtp/rtp_sequence.hpp', 'src/rtp/rtp_ssrc.hpp', 'src/rtp/rtp_timestamp.hpp', 'src/rtp/rtp_clock_rate.hpp', 'src/util/util_typed_bool.hpp', 'src/stat/stat_counter.hpp'],
 mechanism=[('payload map', 'src/rtp/rtp_payload_map.cpp'), ('payload type limits', 'src/rtp/rtp_payload_type.hpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of the RTP value types on symbolic values and of PayloadMap over a reference hash map with unspecified order.'
F = ['p20.cpp']
def run(c):
    c.variant = "ref"; c.orders = True
    c.all(F, 'rtp value types and PayloadMap')
