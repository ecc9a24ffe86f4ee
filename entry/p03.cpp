// every refused attribute is reported under its own error code and counted under its own counter
#include "stunref.hpp"
static inline bool code(const craftpp::error::Error& e, ParseError c) { return e == stun::make_error_code(c); }
static inline __attribute__((always_inline)) unsigned causes(const ParseStat& st, const ParseStat& was, bool& over) {
    unsigned sum = 0; over = false;
    const auto* c = (const stat::Counter*)&st; const auto* p = (const stat::Counter*)&was;
    for (unsigned i = 0; i < sizeof(ParseStat) / sizeof(stat::Counter); ++i) {
        if (&c[i] == &st.success || &c[i] == &st.error) continue;
        const unsigned d = c[i].count() - p[i].count(); sum += d; over = over | (d > 1);
    }
    return sum;
}
#define D(F) (st.F.count() - was.F.count())
static inline __attribute__((always_inline)) void counted(bool ok, const ParseStat& st, const ParseStat& was) {
    bool over; const unsigned n = causes(st, was, over);
    if (ok) fw_prove("an accepted attribute changes no counter", n == 0 && !over && D(error) == 0 && D(success) == 0);
    else fw_prove("a refused attribute counts one error and one cause", n == 1 && !over && D(error) == 1 && D(success) == 0);
}
#define ATTR(NAME, T, COUNTER, CODE) FW_ENTRY void fw_e_c_##NAME(const util::ConstBinaryView& v, ParseStat& st) { \
    const ParseStat was(st); \
    auto r = Attribute::parse(v, AttributeType::from_uint16(T), st); \
    counted(r.is_ok(), st, was); \
    if (r.is_ok()) return; \
    fw_prove("a refused attribute is counted under the counter of its type", D(COUNTER) == 1); \
    fw_prove("a refused attribute reports the error of its type", code(r.unwrap_err(), ParseError::CODE)); }
ATTR(integrity, T_INTEGRITY, invalid_message_integrity, integrity_digest_size)
ATTR(fingerprint, T_FINGERPRINT, invalid_fingerprint_size, fingerprint_crc_size)
ATTR(priority, T_PRIORITY, invalid_priority_size, priority_attribute_size)
ATTR(controlling, T_CONTROLLING, invalid_ice_controlling_size, ice_controlling_size)
ATTR(controlled, T_CONTROLLED, invalid_ice_controlled_size, ice_controlled_size)
ATTR(use, T_USE, invalid_use_candidate_size, use_candidate_size)
ATTR(unknown, T_UNKNOWN, invalid_unknown_attributes_attr_size, unknown_attributes_attribute_size)
ATTR(error, T_ERROR, invalid_error_code_size, error_code_attribute_size)
// addresses may be refused for several reasons
#define ADDR(NAME, T) FW_ENTRY void fw_e_c_##NAME(const util::ConstBinaryView& v, ParseStat& st) { \
    const ParseStat was(st); \
    auto r = Attribute::parse(v, AttributeType::from_uint16(T), st); \
    counted(r.is_ok(), st, was); \
    if (r.is_ok()) return; \
    fw_prove("a refused address is counted under an address counter", D(invalid_ip_address) + D(invalid_mapped_address) + D(invalid_xor_mapped_address) == 1); }
ADDR(mapped, T_MAPPED) ADDR(xor, T_XOR) ADDR(alternate, T_ALTERNATE)
// and nothing else refuses
FW_ENTRY void fw_e_c_free(const util::ConstBinaryView& v, ParseStat& st, uint16_t type) {
    fw_assume(type != T_MAPPED && type != T_XOR && type != T_ALTERNATE && type != T_INTEGRITY && type != T_FINGERPRINT && type != T_PRIORITY && type != T_CONTROLLING && type != T_CONTROLLED && type != T_USE && type != T_UNKNOWN && type != T_ERROR);
    const ParseStat was(st);
    auto r = Attribute::parse(v, AttributeType::from_uint16(type), st);
    fw_prove("text attributes and unknown types are never refused", r.is_ok());
    counted(r.is_ok(), st, was);
}
// within a whole message
static inline __attribute__((always_inline)) void head(uint8_t* w, size_t n) {
    w[0] = 0x01; w[1] = 0x01; w[2] = (uint8_t)((n - 20) >> 8); w[3] = (uint8_t)(n - 20);
    w[4] = 0x21; w[5] = 0x12; w[6] = 0xA4; w[7] = 0x42;
}
template<unsigned Len> static inline __attribute__((always_inline)) void msg(const uint8_t* b, ParseStat& st, uint16_t type) {
    constexpr unsigned N = 24 + (Len + 3) / 4 * 4 + 4;
    uint8_t* w = const_cast<uint8_t*>(b);
    head(w, N); w[20] = type >> 8; w[21] = (uint8_t)type; w[22] = 0; w[23] = Len;
    w[N - 4] = 0x7F; w[N - 3] = 0; w[N - 2] = 0; w[N - 1] = 0;
    const ParseStat was(st);
    const bool legal = Attribute::parse(util::ConstBinaryView(b + 24, Len), AttributeType::from_uint16(type), st).is_ok();
    const ParseStat mid(st);
    auto r = Message::parse(util::ConstBinaryView(b, N), st);
    fw_prove("a message is accepted only if its attributes are", r.is_ok() == legal);
    const auto* c = (const stat::Counter*)&st; const auto* p = (const stat::Counter*)&mid; const auto* q = (const stat::Counter*)&was;
    bool eq = true;
    for (unsigned i = 0; i < sizeof(ParseStat) / sizeof(stat::Counter); ++i) {
        if (&c[i] == &st.success || &c[i] == &st.error) continue;
        eq = eq & (c[i].count() - p[i].count() == p[i].count() - q[i].count());
    }
    fw_prove("a message counts the failure of its attribute and nothing else", eq);
    fw_prove("a message with an illegal attribute is one error", st.error.count() - mid.error.count() == (legal ? 0 : 1) && st.success.count() - mid.success.count() == (legal ? 1 : 0));
}
#define MSG(NAME, T, L) FW_ENTRY void fw_e_m_##NAME(const uint8_t* b, ParseStat& st) { msg<L>(b, st, T); }
MSG(priority, T_PRIORITY, 3) MSG(priority4, T_PRIORITY, 4) MSG(controlling, T_CONTROLLING, 7) MSG(controlling8, T_CONTROLLING, 8) MSG(controlled, T_CONTROLLED, 4) MSG(controlled8, T_CONTROLLED, 8)
MSG(integrity, T_INTEGRITY, 19) MSG(integrity20, T_INTEGRITY, 20) MSG(integrity32, T_INTEGRITY, 32) MSG(use, T_USE, 1) MSG(use0, T_USE, 0) MSG(unknown, T_UNKNOWN, 3) MSG(unknown4, T_UNKNOWN, 4)
MSG(error, T_ERROR, 2) MSG(error4, T_ERROR, 4) MSG(mapped, T_MAPPED, 4) MSG(mapped8, T_MAPPED, 8) MSG(mapped20, T_MAPPED, 20) MSG(xor, T_XOR, 3) MSG(xor8, T_XOR, 8) MSG(xor20, T_XOR, 20) MSG(alternate, T_ALTERNATE, 0) MSG(alternate8, T_ALTERNATE, 8)
