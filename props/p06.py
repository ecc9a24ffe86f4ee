from .common import *
META = dict(
 title='STUN attribute set: lookups by type, first of a type, unknown order',
 statement='An AttributeSet reports each attribute through the accessor of its own type and no other, with the value it was given and the type number of RFC 8489/8445; of several attributes of one type the first is kept; copies and moves hold the same attributes. Unknown attributes are reported by no accessor, and exactly those whose type is below 0x8000 are listed as comprehension-required, in order.',
 text='every attribute type and value; pairs of attributes of one type; up to three unknown attributes of all types',
 why='tests look up what they put in; cross-talk between accessors and ordering depend on every type pair',
 files=['src/stun/stun_attribute_set.hpp', 'src/stun/stun_attribute_set.cpp', 'src/stun/stun_attribute.cpp', 'src/stun/stun_attribute.hpp', 'src/stun/details/stun_attr_registry.hpp'],
 mechanism=[('attribute set construction and lookups', 'src/stun/stun_attribute_set.cpp'), ('type numbers', 'src/stun/details/stun_attr_registry.hpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of AttributeSet::create, its accessors and its copies over reference containers with symbolic attribute values; presence through every accessor, value, type number and order of unknown attributes are compared with what was put in.'
F = ['p06.cpp']
def run(c):
    c.variant = "ref"
    c.sizes = {"freewebrtc::stun::AttributeType": 2}
    c.all(F, 'stun::AttributeSet')
