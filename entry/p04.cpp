// STUN attribute values as RFC 8489 section 14 and RFC 8445 section 7.1 lay them out
#include "stunref.hpp"
template<typename A> struct RuleName;
template<typename A> static inline __attribute__((always_inline)) void addr_rules(const util::ConstBinaryView& v, ParseStat& st, uint16_t type) {
    const uint8_t* b = v.data(); const size_t n = v.size();
    auto r = Attribute::parse(v, AttributeType::from_uint16(type), st);
    const bool ok4 = n == 8 && b[1] == 1, ok6 = n == 20 && b[1] == 2;
    fw_prove("an address attribute is accepted exactly for 8 bytes of family 1 or 20 bytes of family 2", r.is_ok() == (ok4 || ok6));
    if (!r.is_ok()) return;
    const A* a = parsed<A>(r);
    fw_prove("the attribute is reported under its own type", a != nullptr);
    if (!a) return;
    fw_prove("the port is the second half word, big-endian", a->port.value() == be16(b + 2));
    const net::ip::AddressV4* v4 = std::get_if<net::ip::AddressV4>(&a->addr.value());
    const net::ip::AddressV6* v6 = std::get_if<net::ip::AddressV6>(&a->addr.value());
    if (b[1] == 1) {
        fw_prove("family 1 is IPv4", v4 != nullptr);
        if (v4) { auto w = v4->view(); fw_prove("an IPv4 address has four bytes", w.size() == 4); fw_prove("the address bytes are those of the value", same<4>(w.data(), b + 4)); }
    } else {
        fw_prove("family 2 is IPv6", v6 != nullptr);
        if (v6) { auto w = v6->view(); fw_prove("an IPv6 address has sixteen bytes", w.size() == 16); fw_prove("the address bytes are those of the value", same<16>(w.data(), b + 4)); }
    }
}
FW_ENTRY void fw_e_a_mapped(const util::ConstBinaryView& v, ParseStat& st) { addr_rules<MappedAddressAttribute>(v, st, T_MAPPED); }
FW_ENTRY void fw_e_a_alternate(const util::ConstBinaryView& v, ParseStat& st) { addr_rules<AlternateServerAttribute>(v, st, T_ALTERNATE); }
FW_ENTRY void fw_e_a_xor(const util::ConstBinaryView& v, ParseStat& st) {
    const uint8_t* b = v.data(); const size_t n = v.size();
    auto r = Attribute::parse(v, AttributeType::from_uint16(T_XOR), st);
    const bool ok4 = n == 8 && b[1] == 1, ok6 = n == 20 && b[1] == 2;
    fw_prove("XOR-MAPPED-ADDRESS is accepted exactly for 8 bytes of family 1 or 20 bytes of family 2", r.is_ok() == (ok4 || ok6));
    if (!r.is_ok()) return;
    const auto* a = parsed<XorMappedAddressAttribute>(r);
    fw_prove("the attribute is reported under its own type", a != nullptr);
    if (!a) return;
    fw_prove("the port is the x-port xor the high half of the magic cookie", a->port.value() == (be16(b + 2) ^ 0x2112));
    auto w = a->addr.view();
    if (b[1] == 1) { fw_prove("family 1 holds four bytes", w.size() == 4 && a->addr.family().type() == Family::IPv4); fw_prove("the x-address bytes are those of the value", same<4>(w.data(), b + 4)); }
    else { fw_prove("family 2 holds sixteen bytes", w.size() == 16 && a->addr.family().type() == Family::IPv6); fw_prove("the x-address bytes are those of the value", same<16>(w.data(), b + 4)); }
}
FW_ENTRY void fw_e_a_text(const util::ConstBinaryView& v, ParseStat& st, size_t i) {
    const uint8_t* b = v.data(); const size_t n = v.size();
    {
        auto r = Attribute::parse(v, AttributeType::from_uint16(T_SOFTWARE), st);
        const auto* a = parsed<SoftwareAttribute>(r);
        fw_prove("SOFTWARE is accepted for every value", a != nullptr);
        if (a) {
            fw_prove("SOFTWARE text has the length of the value", a->name.size() == n);
            if (i < n) fw_prove("SOFTWARE text is the value", (uint8_t)a->name[i] == b[i]);
        }
    }
    {
        auto r = Attribute::parse(v, AttributeType::from_uint16(T_USERNAME), st);
        const auto* a = parsed<UsernameAttribute>(r);
        fw_prove("USERNAME is accepted for every value", a != nullptr);
        if (a) {
            fw_prove("USERNAME text has the length of the value", a->name.value.size() == n);
            if (i < n) fw_prove("USERNAME text is the value", (uint8_t)a->name.value[i] == b[i]);
        }
    }
}
FW_ENTRY void fw_e_a_error(const util::ConstBinaryView& v, ParseStat& st, size_t i) {
    const uint8_t* b = v.data(); const size_t n = v.size();
    auto r = Attribute::parse(v, AttributeType::from_uint16(T_ERROR), st);
    fw_prove("ERROR-CODE is accepted exactly when it holds its fixed word", r.is_ok() == (n >= 4));
    if (!r.is_ok()) return;
    const auto* a = parsed<ErrorCodeAttribute>(r);
    fw_prove("the attribute is reported under its own type", a != nullptr);
    if (!a) return;
    fw_prove("the error code is class times 100 plus number", a->code == (b[2] & 7) * 100u + b[3]);
    if (a->reason_phrase.is_some()) {
        const auto& s = a->reason_phrase.unwrap();
        fw_prove("the reason phrase is what follows the fixed word", s.size() == n - 4);
        if (i < s.size()) fw_prove("the reason phrase bytes are those of the value", (uint8_t)s[i] == b[4 + i]);
    } else fw_prove("a reason phrase that is present is reported", n == 4);
}
FW_ENTRY void fw_e_a_integrity(const util::ConstBinaryView& v, ParseStat& st) {
    const uint8_t* b = v.data(); const size_t n = v.size();
    auto r = Attribute::parse(v, AttributeType::from_uint16(T_INTEGRITY), st);
    fw_prove("MESSAGE-INTEGRITY is accepted exactly for 20 bytes", r.is_ok() == (n == 20));
    if (!r.is_ok()) return;
    const auto* a = parsed<MessageIntegityAttribute>(r);
    fw_prove("the attribute is reported under its own type", a != nullptr);
    if (a) { auto w = a->digest.value.view(); fw_prove("the digest is the value", w.size() == 20 && same<20>(w.data(), b)); }
}
FW_ENTRY void fw_e_a_fingerprint(const util::ConstBinaryView& v, ParseStat& st) {
    const uint8_t* b = v.data(); const size_t n = v.size();
    auto r = Attribute::parse(v, AttributeType::from_uint16(T_FINGERPRINT), st);
    fw_prove("a FINGERPRINT shorter than four bytes is refused and four bytes are accepted", n < 4 ? !r.is_ok() : n > 4 || r.is_ok());
    if (!r.is_ok()) return;
    const auto* a = parsed<FingerprintAttribute>(r);
    fw_prove("the attribute is reported under its own type", a != nullptr);
    if (a) fw_prove("the checksum is the big-endian word xor 0x5354554E", a->crc32 == (be32(b) ^ 0x5354554Eu));
}
FW_ENTRY void fw_e_a_priority(const util::ConstBinaryView& v, ParseStat& st) {
    const uint8_t* b = v.data(); const size_t n = v.size();
    auto r = Attribute::parse(v, AttributeType::from_uint16(T_PRIORITY), st);
    fw_prove("a PRIORITY shorter than four bytes is refused and four bytes are accepted", n < 4 ? !r.is_ok() : n > 4 || r.is_ok());
    if (!r.is_ok()) return;
    const auto* a = parsed<PriorityAttribute>(r);
    fw_prove("the attribute is reported under its own type", a != nullptr);
    if (a) fw_prove("the priority is the big-endian word", a->priority == be32(b));
}
template<typename A> static inline __attribute__((always_inline)) void ice_rules(const util::ConstBinaryView& v, ParseStat& st, uint16_t type) {
    const uint8_t* b = v.data(); const size_t n = v.size();
    auto r = Attribute::parse(v, AttributeType::from_uint16(type), st);
    fw_prove("an ICE role attribute shorter than eight bytes is refused and eight bytes are accepted", n < 8 ? !r.is_ok() : n > 8 || r.is_ok());
    if (!r.is_ok()) return;
    const auto* a = parsed<A>(r);
    fw_prove("the attribute is reported under its own type", a != nullptr);
    if (a) fw_prove("the tiebreaker is the 64-bit big-endian word", a->tiebreaker == be64(b));
}
FW_ENTRY void fw_e_a_controlling(const util::ConstBinaryView& v, ParseStat& st) { ice_rules<IceControllingAttribute>(v, st, T_CONTROLLING); }
FW_ENTRY void fw_e_a_controlled(const util::ConstBinaryView& v, ParseStat& st) { ice_rules<IceControlledAttribute>(v, st, T_CONTROLLED); }
FW_ENTRY void fw_e_a_use(const util::ConstBinaryView& v, ParseStat& st) {
    auto r = Attribute::parse(v, AttributeType::from_uint16(T_USE), st);
    fw_prove("USE-CANDIDATE is accepted exactly when empty", r.is_ok() == (v.size() == 0));
    if (r.is_ok()) fw_prove("the attribute is reported under its own type", parsed<UseCandidateAttribute>(r) != nullptr);
}
FW_ENTRY void fw_e_a_unknown_list(const util::ConstBinaryView& v, ParseStat& st) {
    const size_t n = v.size();
    fw_assume(n <= 65535);
    auto r = Attribute::parse(v, AttributeType::from_uint16(T_UNKNOWN), st);
    fw_prove("UNKNOWN-ATTRIBUTES is accepted exactly for whole half words", r.is_ok() == (n % 2 == 0));
    if (!r.is_ok()) return;
    const auto* a = parsed<UnknownAttributesAttribute>(r);
    fw_prove("the attribute is reported under its own type", a != nullptr);
}
// lists of every length n, at an arbitrary place i
static inline __attribute__((always_inline)) void anylist(const util::ConstBinaryView& v, ParseStat& st, size_t n, size_t i) {
    const uint8_t* b = v.data();
    auto r = Attribute::parse(v, AttributeType::from_uint16(T_UNKNOWN), st);
    const auto* a = parsed<UnknownAttributesAttribute>(r);
    fw_prove("as many types are listed as there are half words, whatever their number", a != nullptr && a->types.size() == n);
    if (a && i < n) fw_prove("every listed type is the big-endian half word at its place, whatever their number", a->types[i].value() == be16(b + 2 * i));
}
FW_ENTRY void fw_e_a_anylist(const util::ConstBinaryView& v, ParseStat& st, size_t i) { fw_assume(v.size() <= 65535); fw_assume((v.size() & 1) == 0); anylist(v, st, v.size() / 2, i); }
#define ANY(N) FW_ENTRY void fw_e_inst_a_anylist_##N(const util::ConstBinaryView& v, ParseStat& st) { fw_assume(v.size() == 2 * N); anylist(v, st, N, 0); anylist(v, st, N, N - 1); }
ANY(127) ANY(128) ANY(255) ANY(256) ANY(300) ANY(2000)
template<unsigned K> static inline __attribute__((always_inline)) void list_rules(const util::ConstBinaryView& v, ParseStat& st) {
    const uint8_t* b = v.data();
    fw_assume(v.size() == 2 * K);
    auto r = Attribute::parse(v, AttributeType::from_uint16(T_UNKNOWN), st);
    const auto* a = parsed<UnknownAttributesAttribute>(r);
    fw_prove("the listed types are as many as the half words", a != nullptr && a->types.size() == K);
    if (a) for (unsigned i = 0; i < K; ++i) fw_prove("the listed types are the big-endian half words in order", a->types[i].value() == be16(b + 2 * i));
}
FW_ENTRY void fw_e_a_list0(const util::ConstBinaryView& v, ParseStat& st) { list_rules<0>(v, st); }
FW_ENTRY void fw_e_a_list1(const util::ConstBinaryView& v, ParseStat& st) { list_rules<1>(v, st); }
FW_ENTRY void fw_e_a_list2(const util::ConstBinaryView& v, ParseStat& st) { list_rules<2>(v, st); }
FW_ENTRY void fw_e_a_list9(const util::ConstBinaryView& v, ParseStat& st) { list_rules<9>(v, st); }
FW_ENTRY void fw_e_a_list40(const util::ConstBinaryView& v, ParseStat& st) { list_rules<40>(v, st); }
static inline bool known(uint16_t t) {
    switch (t) { case T_MAPPED: case T_USERNAME: case T_INTEGRITY: case T_ERROR: case T_UNKNOWN: case T_XOR: case T_PRIORITY: case T_USE:
        case T_SOFTWARE: case T_ALTERNATE: case T_FINGERPRINT: case T_CONTROLLED: case T_CONTROLLING: return true; }
    return false;
}
FW_ENTRY void fw_e_a_other(const util::ConstBinaryView& v, uint16_t type, ParseStat& st, size_t i) {
    fw_assume(!known(type));
    auto r = Attribute::parse(v, AttributeType::from_uint16(type), st);
    fw_prove("an attribute of any other type is never refused", r.is_ok());
    if (!r.is_ok()) return;
    const UnknownAttribute* u = std::get_if<UnknownAttribute>(&r.unwrap());
    fw_prove("an attribute of any other type is reported as unknown", u != nullptr);
    if (!u) return;
    fw_prove("an unknown attribute keeps its type", u->type.value() == type);
    fw_prove("an unknown attribute keeps its length", u->data.size() == v.size());
    if (i < v.size()) fw_prove("an unknown attribute keeps its value", u->data[i] == v.data()[i]);
}
