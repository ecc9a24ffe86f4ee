from .common import *
META = dict(
 title='STUN attribute values decode exactly as the RFCs lay them out',
 statement='For every attribute value of any length, each known attribute is accepted exactly when its length and fixed fields are legal, and every decoded field (family, port, address, error class/number, reason, text, digest, priority, tie-breaker, list) equals the bytes the RFC assigns. Unknown types keep their bytes unchanged.',
 text='all attribute types, all value lengths and contents; lists of any number of entries',
 why='tests decode a handful of captured attributes; a wrong mask, offset or length bound shows only for other bytes',
 files=['src/stun/stun_attribute.cpp', 'src/stun/details/stun_attr_registry.hpp', 'src/stun/stun_address.cpp'],
 mechanism=[('attribute dispatch and value decoding', 'src/stun/stun_attribute.cpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of Attribute::parse for every value length and content per attribute type; acceptance and each decoded field are compared with the RFC layout on every abstract path.'
F = ['p04.cpp']
def run(c):
    c.variant = "ref"
    c.sizes = {"freewebrtc::stun::AttributeType": 2}
    c.all(F, {'a_mapped': 'stun::MappedAddressAttribute::parse', 'a_alternate': 'stun::AlternateServerAttribute::parse', 'a_xor': 'stun::XorMappedAddressAttribute::parse', 'a_text': 'stun::SoftwareAttribute/UsernameAttribute::parse', 'a_error': 'stun::ErrorCodeAttribute::parse', 'a_integrity': 'stun::MessageIntegityAttribute::parse', 'a_fingerprint': 'stun::FingerprintAttribute::parse', 'a_priority': 'stun::PriorityAttribute::parse', 'a_contr': 'stun::IceController attributes', 'a_use': 'stun::UseCandidateAttribute::parse', 'a_unknown_list': 'stun::UnknownAttributesAttribute::parse', 'a_list': 'stun::UnknownAttributesAttribute::parse', 'a_': 'stun::Attribute::parse'}, optional=['a reason phrase that is present is reported'])
