from .common import *
META = dict(
 title='STUN framing: well-formed datagrams only, header bits kept, each parse counted',
 statement='For every byte string, Message::parse applies the RFC 8489 framing rules (20-byte minimum, zero top bits, multiple-of-4 length equal to the bytes present, magic cookie unless an RFC 3489 request), reports the matching error, and on success returns class, method, transaction id and rfc3489 flag exactly as encoded. Each call increments success or error once, with exactly one cause per error.',
 text='all byte strings of all lengths',
 why='tests parse a handful of captured packets; framing must hold for every datagram an attacker can send',
 files=['src/stun/stun_message.cpp', 'src/stun/stun_header.cpp', 'src/stun/stun_class.hpp', 'src/stun/stun_method.cpp', 'src/stun/stun_parse_stat.hpp'],
 mechanism=[('header parsing, framing checks and parse statistics', 'src/stun/stun_message.cpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of Message::parse for a datagram of any length and content (and of a bare 20-byte header in full); every framing decision, error code, counter and decoded header field is compared with the RFC layout on every abstract path.'
F = ['p01.cpp']
def run(c):
    c.variant = "ref"
    c.sizes = {"freewebrtc::stun::AttributeType": 2}
    c.all(F, 'stun::Message::parse', aborts=['f_any'])
