from .common import *
META = dict(
 title='STUN parse: a refused attribute is reported and counted under its own cause',
 statement='Whatever the bytes of an attribute, refusing it yields the error code belonging to its type (or, for addresses, to what is wrong with them), and exactly one counter besides the total error counter is incremented, the one of that type; accepted attributes change no counter. A whole message with a bad attribute counts exactly one error and one cause; text attributes and unknown types are never refused.',
 text='every attribute type with values of every length and content; whole messages with one attribute of every short length',
 why='tests provoke a few failures and look at one counter; double counting or counting under another cause needs every type times every failure',
 files=['src/stun/stun_attribute.cpp', 'src/stun/stun_message.cpp', 'src/stun/stun_parse_stat.hpp', 'src/stun/stun_error.hpp'],
 mechanism=[('attribute parsers and their statistics', 'src/stun/stun_attribute.cpp'), ('attribute walk', 'src/stun/stun_message.cpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of Attribute::parse for every type over a value of any length, and of Message::parse over one-attribute messages; the change of every counter and the error code are compared with the type on every path.'
F = ['p03.cpp']
def run(c):
    c.variant = "ref"
    c.sizes = {"freewebrtc::stun::AttributeType": 2}
    c.all(F, {'c_': 'stun::Attribute::parse', 'm_': 'stun::Message::parse'})
