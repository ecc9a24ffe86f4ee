// STUN attribute walk (RFC 8489 section 14: TLV layout and padding, 14.5 MESSAGE-INTEGRITY, 14.7 FINGERPRINT)
#include "stunref.hpp"
#include "stun/details/stun_fingerprint.hpp"
static inline bool code(const craftpp::error::Error& e, ParseError c) { return e == stun::make_error_code(c); }
static inline __attribute__((always_inline)) void head(uint8_t* w, size_t n) {
    w[0] = 0x01; w[1] = 0x01; w[2] = (uint8_t)((n - 20) >> 8); w[3] = (uint8_t)(n - 20);
    w[4] = 0x21; w[5] = 0x12; w[6] = 0xA4; w[7] = 0x42;
}
static inline __attribute__((always_inline)) void attr(uint8_t* w, uint16_t type, uint16_t len) { w[0] = type >> 8; w[1] = (uint8_t)type; w[2] = len >> 8; w[3] = (uint8_t)len; }
// every division of N bytes into attributes: one path per division, plus the ones that leave the message
static __attribute__((noinline)) void walked(const uint8_t* b, unsigned N, ParseStat& st, bool ok) {
    uint16_t types[12]; unsigned k = 0;
    if (ok) for (unsigned off = 20; off < N; off += 4 + (b[off + 3] + 3) / 4 * 4) types[k++] = be16(b + off);
    auto r = Message::parse(util::ConstBinaryView(b, N), st);
    fw_prove("attributes are accepted exactly when every one lies inside the message", r.is_ok() == ok);
    if (!r.is_ok()) { fw_prove("an attribute that leaves the message reports invalid_attr_size", code(r.unwrap_err(), ParseError::invalid_attr_size)); return; }
    const auto u = r.unwrap().attribute_set.unknown_comprehension_required();
    fw_prove("every unknown comprehension-required attribute is listed once", u.size() == k);
    if (u.size() == k)
        for (unsigned i = 0; i < k; ++i) fw_prove("unknown attributes are listed in message order, each starting after the padding of the one before", u[i].value() == types[i]);
}
template<unsigned N, unsigned O, unsigned L> static inline __attribute__((always_inline)) void divide(uint8_t* w, ParseStat& st) {
    if constexpr (O >= N) walked(w, N, st, true);
    else if constexpr (O + 4 + L > N) walked(w, N, st, false);
    else if (w[O + 2] == 0 && w[O + 3] == L) { w[O + 2] = 0; w[O + 3] = L; divide<N, O + 4 + (L + 3) / 4 * 4, 0>(w, st); }
    else divide<N, O, L + 1>(w, st);
}
template<unsigned N> static inline __attribute__((always_inline)) void walk(const uint8_t* b, ParseStat& st) {
    uint8_t* w = const_cast<uint8_t*>(b);
    head(w, N);
    for (unsigned o = 20; o < N; o += 4) w[o] = 0x7F;      // whatever the division, types are comprehension-required and assigned to nothing
    divide<N, 20, 0>(w, st);
}
FW_ENTRY void fw_e_w_walk24(const uint8_t* b, ParseStat& st) { walk<24>(b, st); }
FW_ENTRY void fw_e_w_walk28(const uint8_t* b, ParseStat& st) { walk<28>(b, st); }
FW_ENTRY void fw_e_w_walk32(const uint8_t* b, ParseStat& st) { walk<32>(b, st); }
FW_ENTRY void fw_e_w_walk36(const uint8_t* b, ParseStat& st) { walk<36>(b, st); }
FW_ENTRY void fw_e_w_walk40(const uint8_t* b, ParseStat& st) { walk<40>(b, st); }
FW_ENTRY void fw_e_w_walk44(const uint8_t* b, ParseStat& st) { walk<44>(b, st); }
// which unknown types need comprehension
FW_ENTRY void fw_e_w_required(const uint8_t* b, ParseStat& st) {
    uint8_t* w = const_cast<uint8_t*>(b);
    head(w, 28); attr(w + 20, 0, 4); w[20] = b[8]; w[21] = 0xFE;     // type 0x??FE is assigned to nothing
    auto r = Message::parse(util::ConstBinaryView(b, 28), st);
    fw_prove("an attribute of unknown type does not make the message invalid", r.is_ok());
    if (!r.is_ok()) return;
    const auto u = r.unwrap().attribute_set.unknown_comprehension_required();
    fw_prove("an unknown attribute needs comprehension exactly when its type is below 0x8000", u.size() == (b[20] < 0x80 ? 1 : 0));
}
// MESSAGE-INTEGRITY: what follows is ignored, except FINGERPRINT
template<unsigned Before, unsigned Len> static inline __attribute__((always_inline)) void integrity(const uint8_t* b, ParseStat& st) {
    // [unknown attributes]* MI [unknown of Len bytes] 
    constexpr unsigned mi = 20 + 4 * Before, nx = mi + 24, N = nx + 4 + (Len + 3) / 4 * 4;
    uint8_t* w = const_cast<uint8_t*>(b);
    head(w, N);
    for (unsigned i = 0; i < Before; ++i) { attr(w + 20 + 4 * i, 0x7F00, 0); w[20 + 4 * i + 1] = b[8 + i]; }
    attr(w + mi, T_INTEGRITY, 20);
    attr(w + nx, 0x7F00, Len); w[nx + 1] = b[9];
    auto r = Message::parse(util::ConstBinaryView(b, N), st);
    fw_prove("attributes after MESSAGE-INTEGRITY do not make a message invalid", r.is_ok());
    if (!r.is_ok()) return;
    const Message& m = r.unwrap();
    const auto d = m.attribute_set.integrity();
    fw_prove("MESSAGE-INTEGRITY is reported", d.is_some());
    if (d.is_some()) { const auto x = d.unwrap().get().value.view(); fw_prove("the digest is the value of MESSAGE-INTEGRITY", x.size() == 20 && same<20>(x.data(), b + mi + 4)); }
    fw_prove("the integrity interval is known", m.integrity_interval.is_some());
    if (m.integrity_interval.is_some()) {
        const auto& i = m.integrity_interval.unwrap();
        fw_prove("the integrity interval is the message up to MESSAGE-INTEGRITY", i.offset == 0 && i.count == mi);
    }
    const auto u = m.attribute_set.unknown_comprehension_required();
    fw_prove("attributes after MESSAGE-INTEGRITY are ignored", u.size() == Before);
}
FW_ENTRY void fw_e_w_mi0(const uint8_t* b, ParseStat& st) { integrity<0, 0>(b, st); }
FW_ENTRY void fw_e_w_mi1(const uint8_t* b, ParseStat& st) { integrity<1, 3>(b, st); }
FW_ENTRY void fw_e_w_mi2(const uint8_t* b, ParseStat& st) { integrity<2, 8>(b, st); }
// attributes of known types after MESSAGE-INTEGRITY
template<unsigned Len> static inline __attribute__((always_inline)) void after(const uint8_t* b, ParseStat& st, uint16_t type) {
    constexpr unsigned mi = 20, nx = mi + 24, N = nx + 4 + (Len + 3) / 4 * 4;
    uint8_t* w = const_cast<uint8_t*>(b);
    head(w, N); attr(w + mi, T_INTEGRITY, 20); attr(w + nx, type, Len);
    auto r = Message::parse(util::ConstBinaryView(b, N), st);
    fw_prove("a known attribute after MESSAGE-INTEGRITY is not validated", r.is_ok());
    if (!r.is_ok()) return;
    const auto& s = r.unwrap().attribute_set;
    fw_prove("a known attribute after MESSAGE-INTEGRITY is ignored", s.username().is_none() && s.software().is_none() && s.xor_mapped().is_none() && s.mapped().is_none() && s.priority().is_none()
        && s.ice_controlling().is_none() && s.ice_controlled().is_none() && !s.has_use_candidate() && s.error_code().is_none() && s.unknown_attributes().is_none() && s.alternate_server().is_none());
}
#define AFTER(NAME, T) FW_ENTRY void fw_e_w_after_##NAME(const uint8_t* b, ParseStat& st) { after<4>(b, st, T); } \
    FW_ENTRY void fw_e_w_after8_##NAME(const uint8_t* b, ParseStat& st) { after<8>(b, st, T); }
AFTER(mapped, T_MAPPED) AFTER(username, T_USERNAME) AFTER(error, T_ERROR) AFTER(unknown, T_UNKNOWN) AFTER(xor, T_XOR) AFTER(priority, T_PRIORITY)
AFTER(use, T_USE) AFTER(software, T_SOFTWARE) AFTER(alternate, T_ALTERNATE) AFTER(controlled, T_CONTROLLED) AFTER(controlling, T_CONTROLLING)
// a second MESSAGE-INTEGRITY, whatever its size
template<unsigned Len> static inline __attribute__((always_inline)) void twice(const uint8_t* b, ParseStat& st) {
    constexpr unsigned mi = 20, nx = mi + 24, N = nx + 4 + (Len + 3) / 4 * 4;
    uint8_t* w = const_cast<uint8_t*>(b);
    head(w, N); attr(w + mi, T_INTEGRITY, 20); attr(w + nx, T_INTEGRITY, Len);
    auto r = Message::parse(util::ConstBinaryView(b, N), st);
    fw_prove("a second MESSAGE-INTEGRITY is ignored", r.is_ok());
    if (!r.is_ok()) return;
    const Message& m = r.unwrap();
    const auto d = m.attribute_set.integrity();
    fw_prove("the first MESSAGE-INTEGRITY counts", d.is_some() && same<20>(d.unwrap().get().value.view().data(), b + mi + 4));
    fw_prove("the interval ends at the first MESSAGE-INTEGRITY", m.integrity_interval.is_some() && m.integrity_interval.unwrap().count == mi);
}
FW_ENTRY void fw_e_w_twice4(const uint8_t* b, ParseStat& st) { twice<4>(b, st); }
FW_ENTRY void fw_e_w_twice20(const uint8_t* b, ParseStat& st) { twice<20>(b, st); }
// FINGERPRINT: last, and the CRC of everything before it
template<unsigned Before> static inline __attribute__((always_inline)) void fingerprint(const uint8_t* b, ParseStat& st) {
    constexpr unsigned fp = 20 + 4 * Before, N = fp + 8;
    uint8_t* w = const_cast<uint8_t*>(b);
    head(w, N);
    for (unsigned i = 0; i < Before; ++i) attr(w + 20 + 4 * i, 0xFF00, 0);
    attr(w + fp, T_FINGERPRINT, 4);
    auto r = Message::parse(util::ConstBinaryView(b, N), st);
    const bool good = (crc32(util::ConstBinaryView(b, fp)) ^ 0x5354554Eu) == be32(b + fp + 4);
    fw_prove("a message with FINGERPRINT is accepted exactly when it is the CRC of all bytes before it xor 0x5354554E", r.is_ok() == good);
    if (r.is_ok()) fw_prove("a valid FINGERPRINT is reported", r.unwrap().attribute_set.has_fingerprint());
    else fw_prove("a wrong FINGERPRINT reports fingerprint_not_valid", code(r.unwrap_err(), ParseError::fingerprint_not_valid));
}
FW_ENTRY void fw_e_w_fp0(const uint8_t* b, ParseStat& st) { fingerprint<0>(b, st); }
FW_ENTRY void fw_e_w_fp2(const uint8_t* b, ParseStat& st) { fingerprint<2>(b, st); }
FW_ENTRY void fw_e_w_fp_mi(const uint8_t* b, ParseStat& st) {
    uint8_t* w = const_cast<uint8_t*>(b);
    head(w, 52); attr(w + 20, T_INTEGRITY, 20); attr(w + 44, T_FINGERPRINT, 4);
    auto r = Message::parse(util::ConstBinaryView(b, 52), st);
    const bool good = (crc32(util::ConstBinaryView(b, 44)) ^ 0x5354554Eu) == be32(b + 48);
    fw_prove("a FINGERPRINT after MESSAGE-INTEGRITY is checked over everything before it", r.is_ok() == good);
    if (!r.is_ok()) return;
    const Message& m = r.unwrap();
    fw_prove("MESSAGE-INTEGRITY and FINGERPRINT are both reported", m.attribute_set.integrity().is_some() && m.attribute_set.has_fingerprint());
    fw_prove("the integrity interval does not cover FINGERPRINT", m.integrity_interval.is_some() && m.integrity_interval.unwrap().count == 20);
}
FW_ENTRY void fw_e_w_fp_ignored(const uint8_t* b, ParseStat& st) {
    // unknown attributes between MESSAGE-INTEGRITY and FINGERPRINT are still covered by the CRC
    uint8_t* w = const_cast<uint8_t*>(b);
    head(w, 56); attr(w + 20, T_INTEGRITY, 20); attr(w + 44, 0x7F01, 0); attr(w + 48, T_FINGERPRINT, 4);
    auto r = Message::parse(util::ConstBinaryView(b, 56), st);
    const bool good = (crc32(util::ConstBinaryView(b, 48)) ^ 0x5354554Eu) == be32(b + 52);
    fw_prove("a FINGERPRINT after ignored attributes is checked over everything before it", r.is_ok() == good);
}
template<unsigned Len> static inline __attribute__((always_inline)) void notlast(const uint8_t* b, ParseStat& st) {
    constexpr unsigned N = 28 + 4 + (Len + 3) / 4 * 4;
    uint8_t* w = const_cast<uint8_t*>(b);
    const uint8_t t0 = b[32 - 4], t1 = b[32 - 3];
    head(w, N); attr(w + 20, T_FINGERPRINT, 4); attr(w + 28, 0, Len); w[28] = t0; w[29] = t1;
    auto r = Message::parse(util::ConstBinaryView(b, N), st);
    fw_prove("a FINGERPRINT that is not the last attribute is refused", r.is_err());
    if (r.is_err()) fw_prove("a FINGERPRINT that is not last reports fingerprint_is_not_last", code(r.unwrap_err(), ParseError::fingerprint_is_not_last));
}
FW_ENTRY void fw_e_w_fp_then0(const uint8_t* b, ParseStat& st) { notlast<0>(b, st); }
FW_ENTRY void fw_e_w_fp_then4(const uint8_t* b, ParseStat& st) { notlast<4>(b, st); }
// two attributes of one type: the first counts (RFC 8489 section 14)
FW_ENTRY void fw_e_w_repeat(const uint8_t* b, ParseStat& st) {
    uint8_t* w = const_cast<uint8_t*>(b);
    head(w, 36); attr(w + 20, T_PRIORITY, 4); attr(w + 28, T_PRIORITY, 4);
    auto r = Message::parse(util::ConstBinaryView(b, 36), st);
    fw_prove("a repeated attribute does not make the message invalid", r.is_ok());
    if (!r.is_ok()) return;
    const auto p = r.unwrap().attribute_set.priority();
    fw_prove("the first of several attributes of one type counts", p.is_some() && p.unwrap().get() == be32(b + 24));
}
// several known attributes
FW_ENTRY void fw_e_w_known(const uint8_t* b, ParseStat& st) {
    uint8_t* w = const_cast<uint8_t*>(b);
    head(w, 60); attr(w + 20, T_PRIORITY, 4); attr(w + 28, T_CONTROLLING, 8); attr(w + 40, T_USE, 0); attr(w + 44, T_XOR, 8); w[49] = 1; attr(w + 56, 0x7F77, 0);
    auto r = Message::parse(util::ConstBinaryView(b, 60), st);
    fw_prove("a message with several known attributes is accepted", r.is_ok());
    if (!r.is_ok()) return;
    const auto& s = r.unwrap().attribute_set;
    fw_prove("PRIORITY is found among other attributes", s.priority().is_some() && s.priority().unwrap().get() == be32(b + 24));
    fw_prove("ICE-CONTROLLING is found among other attributes", s.ice_controlling().is_some() && s.ice_controlling().unwrap().get() == be64(b + 32));
    fw_prove("USE-CANDIDATE is found among other attributes", s.has_use_candidate());
    fw_prove("XOR-MAPPED-ADDRESS is found among other attributes", s.xor_mapped().is_some() && s.xor_mapped().unwrap().get().port.value() == (be16(b + 50) ^ 0x2112));
    fw_prove("attributes that are not in the message are not reported", s.username().is_none() && s.software().is_none() && s.mapped().is_none() && s.ice_controlled().is_none() && s.error_code().is_none()
        && s.unknown_attributes().is_none() && s.alternate_server().is_none() && s.integrity().is_none() && !s.has_fingerprint());
}
// attributes of every length 4 * q + R: a long one, and what comes behind it
struct LongMsg { uint8_t* w; size_t off, n; };
template<unsigned R> static inline __attribute__((always_inline)) LongMsg longmsg(const uint8_t* b, size_t q, size_t rest) {
    LongMsg m; m.w = const_cast<uint8_t*>(b);
    q &= 0x3FFF; fw_assume(q < 16370);
    m.off = 24 + 4 * q + (R ? 4 : 0); m.n = m.off + rest;
    fw_extent(b, m.n);
    head(m.w, m.n); attr(m.w + 20, 0x7F01, (uint16_t)(4 * q + R));
    return m;
}
static inline __attribute__((always_inline)) void behind(const uint8_t* b, size_t off, uint16_t t, uint16_t len) {
    uint8_t* w = const_cast<uint8_t*>(b) + off;
    w[0] = t >> 8; w[1] = (uint8_t)t; w[2] = len >> 8; w[3] = (uint8_t)len;
}
template<unsigned R> static inline __attribute__((always_inline)) void long_alone(const uint8_t* b, ParseStat& st, size_t q) {
    auto m = longmsg<R>(b, q, 0);
    auto r = Message::parse(util::ConstBinaryView(b, m.n), st);
    fw_prove("a message with one attribute of any length is accepted", r.is_ok());
    if (!r.is_ok()) return;
    const auto u = r.unwrap().attribute_set.unknown_comprehension_required();
    fw_prove("a long unknown attribute is the only one listed", u.size() == 1 && u[0].value() == 0x7F01);
}
template<unsigned R> static inline __attribute__((always_inline)) void long_then(const uint8_t* b, ParseStat& st, size_t q) {
    auto m = longmsg<R>(b, q, 8);
    behind(b, m.off, T_PRIORITY, 4);
    auto r = Message::parse(util::ConstBinaryView(b, m.n), st);
    fw_prove("an attribute behind one of any length is accepted", r.is_ok());
    if (!r.is_ok()) return;
    const auto p = r.unwrap().attribute_set.priority();
    fw_prove("an attribute starts after the padding of the one before, whatever its length", p.is_some() && p.unwrap().get() == be32(b + m.off + 4));
}
template<unsigned R> static inline __attribute__((always_inline)) void long_mi(const uint8_t* b, ParseStat& st, size_t q) {
    auto m = longmsg<R>(b, q, 24);
    behind(b, m.off, T_INTEGRITY, 20);
    auto r = Message::parse(util::ConstBinaryView(b, m.n), st);
    fw_prove("MESSAGE-INTEGRITY behind an attribute of any length is accepted", r.is_ok());
    if (!r.is_ok()) return;
    const auto& x = r.unwrap();
    fw_prove("the integrity interval ends where MESSAGE-INTEGRITY starts, whatever precedes it", x.integrity_interval.is_some() && x.integrity_interval.unwrap().offset == 0 && x.integrity_interval.unwrap().count == m.off);
    const auto d = x.attribute_set.integrity();
    fw_prove("the digest is the value of MESSAGE-INTEGRITY, wherever it is", d.is_some() && d.unwrap().get().value.view().size() == 20 && same<20>(d.unwrap().get().value.view().data(), b + m.off + 4));
}
template<unsigned R> static inline __attribute__((always_inline)) void long_ignored(const uint8_t* b, ParseStat& st, size_t q) {
    // MESSAGE-INTEGRITY first, then an ignored attribute of any length
    q &= 0x3FFF; fw_assume(q < 16370);
    const size_t n = 20 + 24 + 4 + 4 * q + (R ? 4 : 0);
    fw_extent(b, n);
    uint8_t* w = const_cast<uint8_t*>(b);
    head(w, n); attr(w + 20, T_INTEGRITY, 20); attr(w + 44, 0x7F01, (uint16_t)(4 * q + R));
    auto r = Message::parse(util::ConstBinaryView(b, n), st);
    fw_prove("an ignored attribute of any length is accepted", r.is_ok());
    if (!r.is_ok()) return;
    fw_prove("an ignored attribute of any length is not listed", r.unwrap().attribute_set.unknown_comprehension_required().empty());
}
#define LONG1(NAME, R) FW_ENTRY void fw_e_w_##NAME##_##R(const uint8_t* b, ParseStat& st, size_t q) { long_##NAME<R>(b, st, q); } \
    LONG2(NAME, R, 63) LONG2(NAME, R, 64) LONG2(NAME, R, 16369)
#define LONG2(NAME, R, Q) FW_ENTRY void fw_e_inst_w_##NAME##_##R##_##Q(const uint8_t* b, ParseStat& st) { long_##NAME<R>(b, st, Q); }
#define LONG(R) LONG1(alone, R) LONG1(then, R) LONG1(mi, R) LONG1(ignored, R)
LONG(0) LONG(1) LONG(2) LONG(3)
