// attribute sets: what was put in is found under its own accessor, the first of a type counts
#include "stunref.hpp"
using Val = Attribute::Value;
static inline __attribute__((always_inline)) unsigned present(const AttributeSet& s) {
    return s.integrity().is_some() + s.username().is_some() + s.software().is_some() + s.xor_mapped().is_some() + s.mapped().is_some() + s.priority().is_some()
        + s.ice_controlling().is_some() + s.ice_controlled().is_some() + s.has_use_candidate() + s.error_code().is_some() + s.unknown_attributes().is_some()
        + s.alternate_server().is_some() + s.has_fingerprint();
}
template<typename A> static inline __attribute__((always_inline)) AttributeSet one(A&& a) {
    std::vector<Val> v; v.emplace_back(std::move(a));
    return AttributeSet::create(std::move(v));
}
#define ONLY fw_prove("an attribute is reported by its own accessor and no other", present(s) == 1)
FW_ENTRY void fw_e_s_none() { fw_prove("an empty set reports nothing", present(AttributeSet{}) == 0 && AttributeSet{}.unknown_comprehension_required().empty()); }
FW_ENTRY void fw_e_s_priority(uint32_t x) { auto s = one(PriorityAttribute{x}); ONLY; fw_prove("PRIORITY is found with its value", s.priority().is_some() && s.priority().unwrap().get() == x);
    fw_prove("PRIORITY is type 0x0024", Attribute::create(PriorityAttribute{x}).type().value() == T_PRIORITY); }
FW_ENTRY void fw_e_s_controlling(uint64_t x) { auto s = one(IceControllingAttribute{x}); ONLY; fw_prove("ICE-CONTROLLING is found with its value", s.ice_controlling().is_some() && s.ice_controlling().unwrap().get() == x);
    fw_prove("ICE-CONTROLLING is type 0x802A", Attribute::create(IceControllingAttribute{x}).type().value() == T_CONTROLLING); }
FW_ENTRY void fw_e_s_controlled(uint64_t x) { auto s = one(IceControlledAttribute{x}); ONLY; fw_prove("ICE-CONTROLLED is found with its value", s.ice_controlled().is_some() && s.ice_controlled().unwrap().get() == x);
    fw_prove("ICE-CONTROLLED is type 0x8029", Attribute::create(IceControlledAttribute{x}).type().value() == T_CONTROLLED); }
FW_ENTRY void fw_e_s_use() { auto s = one(UseCandidateAttribute{}); ONLY; fw_prove("USE-CANDIDATE is found", s.has_use_candidate());
    fw_prove("USE-CANDIDATE is type 0x0025", Attribute::create(UseCandidateAttribute{}).type().value() == T_USE); }
FW_ENTRY void fw_e_s_fingerprint(uint32_t x) { auto s = one(FingerprintAttribute{x}); ONLY; fw_prove("FINGERPRINT is found", s.has_fingerprint());
    fw_prove("FINGERPRINT is type 0x8028", Attribute::create(FingerprintAttribute{x}).type().value() == T_FINGERPRINT); }
FW_ENTRY void fw_e_s_integrity(const MessageIntegityAttribute& a) { auto s = one(MessageIntegityAttribute(a)); ONLY;
    fw_prove("MESSAGE-INTEGRITY is found with its digest", s.integrity().is_some() && same<20>(s.integrity().unwrap().get().value.view().data(), a.digest.value.view().data()));
    fw_prove("MESSAGE-INTEGRITY is type 0x0008", Attribute::create(MessageIntegityAttribute(a)).type().value() == T_INTEGRITY); }
FW_ENTRY void fw_e_s_username(const UsernameAttribute& a, size_t i) { auto s = one(UsernameAttribute(a)); ONLY;
    fw_prove("USERNAME is found with its text", s.username().is_some() && s.username().unwrap().get().value.size() == a.name.value.size());
    if (s.username().is_some() && i < a.name.value.size()) fw_prove("USERNAME keeps every character", s.username().unwrap().get().value[i] == a.name.value[i]);
    fw_prove("USERNAME is type 0x0006", Attribute::create(UsernameAttribute(a)).type().value() == T_USERNAME); }
FW_ENTRY void fw_e_s_software(const SoftwareAttribute& a, size_t i) { auto s = one(SoftwareAttribute(a)); ONLY;
    fw_prove("SOFTWARE is found with its text", s.software().is_some() && s.software().unwrap().get().size() == a.name.size());
    if (s.software().is_some() && i < a.name.size()) fw_prove("SOFTWARE keeps every character", s.software().unwrap().get()[i] == a.name[i]);
    fw_prove("SOFTWARE is type 0x8022", Attribute::create(SoftwareAttribute(a)).type().value() == T_SOFTWARE); }
FW_ENTRY void fw_e_s_xor(const XorMappedAddressAttribute& a) { auto s = one(XorMappedAddressAttribute(a)); ONLY;
    fw_prove("XOR-MAPPED-ADDRESS is found with its port", s.xor_mapped().is_some() && s.xor_mapped().unwrap().get().port.value() == a.port.value());
    fw_prove("XOR-MAPPED-ADDRESS is type 0x0020", Attribute::create(XorMappedAddressAttribute(a)).type().value() == T_XOR); }
FW_ENTRY void fw_e_s_mapped(const MappedAddressAttribute& a) { auto s = one(MappedAddressAttribute(a)); ONLY;
    fw_prove("MAPPED-ADDRESS is found with its port", s.mapped().is_some() && s.mapped().unwrap().get().port.value() == a.port.value());
    fw_prove("MAPPED-ADDRESS is type 0x0001", Attribute::create(MappedAddressAttribute(a)).type().value() == T_MAPPED); }
FW_ENTRY void fw_e_s_alternate(const AlternateServerAttribute& a) { auto s = one(AlternateServerAttribute(a)); ONLY;
    fw_prove("ALTERNATE-SERVER is found with its port", s.alternate_server().is_some() && s.alternate_server().unwrap().get().port.value() == a.port.value());
    fw_prove("ALTERNATE-SERVER is type 0x8023", Attribute::create(AlternateServerAttribute(a)).type().value() == T_ALTERNATE); }
FW_ENTRY void fw_e_s_error(uint16_t x) { auto s = one(ErrorCodeAttribute{.code = x, .reason_phrase = none()}); ONLY; fw_prove("ERROR-CODE is found with its code", s.error_code().is_some() && s.error_code().unwrap().get().code == x);
    fw_prove("ERROR-CODE is type 0x0009", Attribute::create(ErrorCodeAttribute{.code = x, .reason_phrase = none()}).type().value() == T_ERROR); }
FW_ENTRY void fw_e_s_unknown(uint16_t x, uint16_t y) {
    auto mk = [&] { UnknownAttributesAttribute a; a.types.emplace_back(AttributeType::from_uint16(x)); a.types.emplace_back(AttributeType::from_uint16(y)); return a; };
    auto s = one(mk()); ONLY;
    fw_prove("UNKNOWN-ATTRIBUTES is found with its list", s.unknown_attributes().is_some() && s.unknown_attributes().unwrap().get().types.size() == 2 && s.unknown_attributes().unwrap().get().types[0].value() == x && s.unknown_attributes().unwrap().get().types[1].value() == y);
    fw_prove("UNKNOWN-ATTRIBUTES is type 0x000A", Attribute::create(mk()).type().value() == T_UNKNOWN);
}
// several: the first of a type counts, different types do not hide each other
FW_ENTRY void fw_e_s_first(uint32_t x, uint32_t y) {
    AttributeSet s;
    s.emplace(Attribute::create(PriorityAttribute{x})); s.emplace(Attribute::create(PriorityAttribute{y}));
    fw_prove("the first attribute of a type is kept", s.priority().is_some() && s.priority().unwrap().get() == x);
    ONLY;
}
FW_ENTRY void fw_e_s_many(uint32_t p, uint64_t c, uint16_t e) {
    std::vector<Val> v;
    v.emplace_back(PriorityAttribute{p}); v.emplace_back(IceControllingAttribute{c}); v.emplace_back(UseCandidateAttribute{}); v.emplace_back(ErrorCodeAttribute{.code = e, .reason_phrase = none()});
    const auto s = AttributeSet::create(std::move(v));
    fw_prove("attributes of different types do not hide each other", present(s) == 4 && s.priority().is_some() && s.priority().unwrap().get() == p && s.ice_controlling().is_some() && s.ice_controlling().unwrap().get() == c && s.has_use_candidate()
        && s.error_code().is_some() && s.error_code().unwrap().get().code == e);
    AttributeSet t(s);
    fw_prove("a copy of a set holds the same attributes", present(t) == 4 && t.priority().unwrap().get() == p && t.ice_controlling().unwrap().get() == c && t.error_code().unwrap().get().code == e);
    AttributeSet u(std::move(t));
    fw_prove("a moved set holds the same attributes", present(u) == 4 && u.priority().unwrap().get() == p && u.ice_controlling().unwrap().get() == c && u.error_code().unwrap().get().code == e);
}
FW_ENTRY void fw_e_s_unknowns(uint16_t a, uint16_t b, uint16_t c, const uint8_t* d) {
    std::vector<UnknownAttribute> v;
    v.emplace_back(AttributeType::from_uint16(a), util::ConstBinaryView(d, 3)); v.emplace_back(AttributeType::from_uint16(b), util::ConstBinaryView(d, 0)); v.emplace_back(AttributeType::from_uint16(c), util::ConstBinaryView(d, 1));
    const auto s = AttributeSet::create({}, std::move(v));
    fw_prove("unknown attributes are reported by no accessor", present(s) == 0);
    uint16_t want[3]; unsigned n = 0;
    if (a < 0x8000) want[n++] = a;
    if (b < 0x8000) want[n++] = b;
    if (c < 0x8000) want[n++] = c;
    const auto u = s.unknown_comprehension_required();
    fw_prove("exactly the unknown attributes below 0x8000 need comprehension", u.size() == n);
    if (u.size() == n) for (unsigned i = 0; i < n; ++i) fw_prove("they are listed in order, repeats included", u[i].value() == want[i]);
}
FW_ENTRY void fw_e_s_required(uint16_t a) {
    const auto t = AttributeType::from_uint16(a);
    fw_prove("a type below 0x8000 is comprehension-required", t.is_comprehension_required() == (a < 0x8000));
    fw_prove("an attribute type keeps its value", t.value() == a);
}
