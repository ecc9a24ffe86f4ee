// Building STUN messages: the bytes of Message::build for every attribute, text length, integrity and fingerprint
#include "stunref.hpp"
#include "stun/details/stun_fingerprint.hpp"
#include "mac.hpp"
#include "wire.hpp"
static inline __attribute__((always_inline)) void plain(Message&& m, uint16_t msgtype, const uint8_t* tid, unsigned tidlen, Wants& ws) {
    auto r = m.build();
    fw_prove("building without integrity does not fail", r.is_ok());
    if (!r.is_ok()) return;
    const auto& b = r.unwrap();
    layout(b.data(), b.size(), b.size(), msgtype, tid, tidlen, ws);
}
static inline __attribute__((always_inline)) Message msg(const uint8_t* tid, unsigned n, std::vector<Val>&& v, std::vector<UnknownAttribute>&& u = {}, Class c = Class::request()) {
    return Message{Header{c, Method::binding(), TransactionId(View(tid, n))}, AttributeSet::create(std::move(v), std::move(u)), IsRFC3489{n == 16}, none()};
}
// header
#define HDR(NAME, CLS, TYPE) FW_ENTRY void fw_e_b_hdr_##NAME(const uint8_t* b) { Wants w; plain(msg(b, 12, {}, {}, Class::CLS()), TYPE, b, 12, w); } \
    FW_ENTRY void fw_e_b_old_##NAME(const uint8_t* b) { Wants w; plain(msg(b, 16, {}, {}, Class::CLS()), TYPE, b, 16, w); }
HDR(request, request, 0x0001) HDR(indication, indication, 0x0011) HDR(success, success_response, 0x0101) HDR(error, error_response, 0x0111)
// one attribute of each type
#define ONE(X) std::vector<Val> v; v.emplace_back(X); plain(msg(b, 12, std::move(v)), 0x0001, b, 12, w)
FW_ENTRY void fw_e_b_priority(const uint8_t* b, uint32_t x) { Wants w; put32(w.add(T_PRIORITY, 4).v, x); ONE(PriorityAttribute{x}); }
FW_ENTRY void fw_e_b_controlling(const uint8_t* b, uint64_t x) { Wants w; put64(w.add(T_CONTROLLING, 8).v, x); ONE(IceControllingAttribute{x}); }
FW_ENTRY void fw_e_b_controlled(const uint8_t* b, uint64_t x) { Wants w; put64(w.add(T_CONTROLLED, 8).v, x); ONE(IceControlledAttribute{x}); }
FW_ENTRY void fw_e_b_use(const uint8_t* b) { Wants w; w.add(T_USE, 0); ONE(UseCandidateAttribute{}); }
template<unsigned N> static inline __attribute__((always_inline)) net::ip::Address addr(const uint8_t* p) {
    if constexpr (N == 4) return net::ip::Address::move_from_v4(net::ip::AddressV4::from_view(View(p, 4)).unwrap());
    else return net::ip::Address::move_from_v6(net::ip::AddressV6::from_view(View(p, 16)).unwrap());
}
template<typename A, unsigned N> static inline __attribute__((always_inline)) void mapped(const uint8_t* b, uint16_t t, uint16_t port) {
    Wants w; auto& x = w.add(t, 4 + N); x.v[0] = 0; x.v[1] = N == 4 ? 1 : 2; x.v[2] = port >> 8; x.v[3] = (uint8_t)port;
    for (unsigned i = 0; i < N; ++i) x.v[4 + i] = b[32 + i];
    ONE((A{addr<N>(b + 32), net::Port::from_uint16(port)}));
}
FW_ENTRY void fw_e_b_mapped4(const uint8_t* b, uint16_t port) { mapped<MappedAddressAttribute, 4>(b, T_MAPPED, port); }
FW_ENTRY void fw_e_b_mapped6(const uint8_t* b, uint16_t port) { mapped<MappedAddressAttribute, 16>(b, T_MAPPED, port); }
FW_ENTRY void fw_e_b_alternate4(const uint8_t* b, uint16_t port) { mapped<AlternateServerAttribute, 4>(b, T_ALTERNATE, port); }
FW_ENTRY void fw_e_b_alternate6(const uint8_t* b, uint16_t port) { mapped<AlternateServerAttribute, 16>(b, T_ALTERNATE, port); }
template<unsigned N> static inline __attribute__((always_inline)) void xored(const uint8_t* b, uint16_t port) {
    Wants w; auto& x = w.add(T_XOR, 4 + N); const uint16_t xp = port ^ 0x2112;
    x.v[0] = 0; x.v[1] = N == 4 ? 1 : 2; x.v[2] = xp >> 8; x.v[3] = (uint8_t)xp;
    const uint8_t key[4] = {0x21, 0x12, 0xA4, 0x42};
    for (unsigned i = 0; i < N; ++i) x.v[4 + i] = b[32 + i] ^ (i < 4 ? key[i] : b[i - 4]);
    ONE((XorMappedAddressAttribute{XoredAddress::from_address(addr<N>(b + 32), TransactionId(View(b, 12))), net::Port::from_uint16(port)}));
}
FW_ENTRY void fw_e_b_xor4(const uint8_t* b, uint16_t port) { xored<4>(b, port); }
FW_ENTRY void fw_e_b_xor6(const uint8_t* b, uint16_t port) { xored<16>(b, port); }
FW_ENTRY void fw_e_b_error(const uint8_t* b, uint16_t c) { fw_assume(c < 700); Wants w; auto& x = w.add(T_ERROR, 4); x.v[0] = x.v[1] = 0; x.v[2] = c / 100; x.v[3] = c % 100; ONE((ErrorCodeAttribute{.code = c, .reason_phrase = none()})); }
template<unsigned N> static inline __attribute__((always_inline)) void reason(const uint8_t* b, uint16_t c) {
    Wants w; auto& x = w.add(T_ERROR, 4 + N); x.v[0] = x.v[1] = 0; x.v[2] = c / 100; x.v[3] = c % 100;
    for (unsigned i = 0; i < N; ++i) x.v[4 + i] = b[32 + i];
    const char* s = (const char*)b + 32;
    ONE((ErrorCodeAttribute{.code = c, .reason_phrase = std::string(s, s + N)}));
}
FW_ENTRY void fw_e_b_reason0(const uint8_t* b, uint16_t c) { fw_assume(c < 700); reason<0>(b, c); }
FW_ENTRY void fw_e_b_reason1(const uint8_t* b, uint16_t c) { fw_assume(c < 700); reason<1>(b, c); }
FW_ENTRY void fw_e_b_reason8(const uint8_t* b, uint16_t c) { fw_assume(c < 700); reason<8>(b, c); }
FW_ENTRY void fw_e_b_reason11(const uint8_t* b, uint16_t c) { fw_assume(c < 700); reason<11>(b, c); }
template<unsigned N> static inline __attribute__((always_inline)) void list(const uint8_t* b) {
    Wants w; auto& x = w.add(T_UNKNOWN, 2 * N); UnknownAttributesAttribute a;
    for (unsigned i = 0; i < N; ++i) { a.types.emplace_back(AttributeType::from_uint16(be16(b + 32 + 2 * i))); x.v[2 * i] = b[32 + 2 * i]; x.v[2 * i + 1] = b[33 + 2 * i]; }
    ONE(std::move(a));
}
FW_ENTRY void fw_e_b_list0(const uint8_t* b) { list<0>(b); }
FW_ENTRY void fw_e_b_list1(const uint8_t* b) { list<1>(b); }
FW_ENTRY void fw_e_b_list2(const uint8_t* b) { list<2>(b); }
FW_ENTRY void fw_e_b_list5(const uint8_t* b) { list<5>(b); }
// text of every length modulo four
template<unsigned N> static inline __attribute__((always_inline)) void text(const uint8_t* b) {
    const char* s = (const char*)b + 32;
    { Wants w; auto& x = w.add(T_USERNAME, N); for (unsigned i = 0; i < N; ++i) x.v[i] = b[32 + i]; ONE(UsernameAttribute{precis::OpaqueString{std::string(s, s + N)}}); }
    { Wants w; auto& x = w.add(T_SOFTWARE, N); for (unsigned i = 0; i < N; ++i) x.v[i] = b[32 + i]; ONE(SoftwareAttribute{std::string(s, s + N)}); }
}
#define TEXT(N) FW_ENTRY void fw_e_b_text##N(const uint8_t* b) { text<N>(b); }
TEXT(0) TEXT(1) TEXT(2) TEXT(3) TEXT(4) TEXT(5) TEXT(9) TEXT(14) TEXT(32) TEXT(47)
// unknown attributes keep type and value
template<unsigned N> static inline __attribute__((always_inline)) void opaque(const uint8_t* b) {
    Wants w; auto& x = w.add(be16(b + 40), N); for (unsigned i = 0; i < N; ++i) x.v[i] = b[44 + i];
    std::vector<UnknownAttribute> u; u.emplace_back(AttributeType::from_uint16(be16(b + 40)), View(b + 44, N));
    plain(msg(b, 12, {}, std::move(u)), 0x0001, b, 12, w);
}
FW_ENTRY void fw_e_b_opaque0(const uint8_t* b) { opaque<0>(b); }
FW_ENTRY void fw_e_b_opaque1(const uint8_t* b) { opaque<1>(b); }
FW_ENTRY void fw_e_b_opaque4(const uint8_t* b) { opaque<4>(b); }
FW_ENTRY void fw_e_b_opaque6(const uint8_t* b) { opaque<6>(b); }
// several attributes, in whatever order the container yields them
static inline __attribute__((always_inline)) std::vector<Val> several(const uint8_t* b, Wants& w) {
    const char* s = (const char*)b + 32; std::vector<Val> v;
    auto& x = w.add(T_USERNAME, 5); for (unsigned i = 0; i < 5; ++i) x.v[i] = b[32 + i];
    v.emplace_back(UsernameAttribute{precis::OpaqueString{std::string(s, s + 5)}});
    put32(w.add(T_PRIORITY, 4).v, be32(b + 40)); v.emplace_back(PriorityAttribute{be32(b + 40)});
    w.add(T_USE, 0); v.emplace_back(UseCandidateAttribute{});
    return v;
}
FW_ENTRY void fw_e_b_several(const uint8_t* b) {
    Wants w; auto v = several(b, w);
    { auto& x = w.add(0x7F01, 3); for (unsigned i = 0; i < 3; ++i) x.v[i] = b[44 + i]; }
    std::vector<UnknownAttribute> u; u.emplace_back(AttributeType::from_uint16(0x7F01), View(b + 44, 3));
    plain(msg(b, 12, std::move(v), std::move(u)), 0x0001, b, 12, w);
}
// two or three attributes of kinds that share their way through the builder
template<unsigned K> static inline __attribute__((always_inline)) void kind(const uint8_t* b, Wants& w, std::vector<Val>& v) {
    const uint8_t* q = b + 48 + 24 * K; const char* s = (const char*)q;
    if constexpr (K == 0) { auto& x = w.add(T_MAPPED, 8); x.v[0] = 0; x.v[1] = 1; for (unsigned i = 0; i < 6; ++i) x.v[2 + i] = q[i]; v.emplace_back(MappedAddressAttribute{addr<4>(q + 2), net::Port::from_uint16(be16(q))}); }
    if constexpr (K == 1) { auto& x = w.add(T_ALTERNATE, 20); x.v[0] = 0; x.v[1] = 2; for (unsigned i = 0; i < 18; ++i) x.v[2 + i] = q[i]; v.emplace_back(AlternateServerAttribute{addr<16>(q + 2), net::Port::from_uint16(be16(q))}); }
    if constexpr (K == 2) { auto& x = w.add(T_XOR, 8); x.v[0] = 0; x.v[1] = 1; x.v[2] = q[0] ^ 0x21; x.v[3] = q[1] ^ 0x12; x.v[4] = q[2] ^ 0x21; x.v[5] = q[3] ^ 0x12; x.v[6] = q[4] ^ 0xA4; x.v[7] = q[5] ^ 0x42;
        v.emplace_back(XorMappedAddressAttribute{XoredAddress::from_address(addr<4>(q + 2), TransactionId(View(b, 12))), net::Port::from_uint16(be16(q))}); }
    if constexpr (K == 3) { auto& x = w.add(T_ERROR, 7); x.v[0] = x.v[1] = 0; x.v[2] = 4; x.v[3] = 1; for (unsigned i = 0; i < 3; ++i) x.v[4 + i] = q[i]; v.emplace_back(ErrorCodeAttribute{.code = 401, .reason_phrase = std::string(s, s + 3)}); }
    if constexpr (K == 4) { auto& x = w.add(T_UNKNOWN, 6); UnknownAttributesAttribute a; for (unsigned i = 0; i < 6; ++i) x.v[i] = q[i]; for (unsigned i = 0; i < 3; ++i) a.types.emplace_back(AttributeType::from_uint16(be16(q + 2 * i))); v.emplace_back(std::move(a)); }
    if constexpr (K == 5) { put64(w.add(T_CONTROLLING, 8).v, (uint64_t)be32(q) << 32 | be32(q + 4)); v.emplace_back(IceControllingAttribute{(uint64_t)be32(q) << 32 | be32(q + 4)}); }
    if constexpr (K == 6) { put64(w.add(T_CONTROLLED, 8).v, (uint64_t)be32(q) << 32 | be32(q + 4)); v.emplace_back(IceControlledAttribute{(uint64_t)be32(q) << 32 | be32(q + 4)}); }
    if constexpr (K == 7) { put32(w.add(T_PRIORITY, 4).v, be32(q)); v.emplace_back(PriorityAttribute{be32(q)}); }
    if constexpr (K == 8) { auto& x = w.add(T_SOFTWARE, 2); x.v[0] = q[0]; x.v[1] = q[1]; v.emplace_back(SoftwareAttribute{std::string(s, s + 2)}); }
    if constexpr (K == 9) { auto& x = w.add(T_USERNAME, 5); for (unsigned i = 0; i < 5; ++i) x.v[i] = q[i]; v.emplace_back(UsernameAttribute{precis::OpaqueString{std::string(s, s + 5)}}); }
}
template<unsigned... K> static inline __attribute__((always_inline)) void kinds(const uint8_t* b) {
    Wants w; std::vector<Val> v; (kind<K>(b, w, v), ...);
    plain(msg(b, 12, std::move(v)), 0x0001, b, 12, w);
}
FW_ENTRY void fw_e_b_addresses(const uint8_t* b) { kinds<0, 1, 2>(b); }
FW_ENTRY void fw_e_b_replies(const uint8_t* b) { kinds<3, 4, 1>(b); }
FW_ENTRY void fw_e_b_roles(const uint8_t* b) { kinds<5, 6, 7>(b); }
FW_ENTRY void fw_e_b_texts(const uint8_t* b) { kinds<8, 9, 3>(b); }
FW_ENTRY void fw_e_b_mixed(const uint8_t* b) { kinds<2, 4, 5>(b); }
// FINGERPRINT is last and covers everything before it, with the final length in the header
static inline __attribute__((always_inline)) void tail(const uint8_t* d, size_t n) {
    fw_prove("FINGERPRINT is the last attribute", be16(d + n - 8) == T_FINGERPRINT && be16(d + n - 6) == 4);
    fw_prove("FINGERPRINT is the CRC of everything before it xor 0x5354554E", be32(d + n - 4) == (crc32(View(d, n - 8)) ^ 0x5354554Eu));
}
FW_ENTRY void fw_e_b_fp(const uint8_t* b, uint32_t any) {
    std::vector<Val> v; v.emplace_back(FingerprintAttribute{any});
    auto r = msg(b, 12, std::move(v)).build();
    fw_prove("building without integrity does not fail", r.is_ok());
    if (!r.is_ok()) return;
    const auto& d = r.unwrap(); Wants w;
    fw_prove("FINGERPRINT adds eight bytes", d.size() == 28);
    if (d.size() != 28) return;
    layout(d.data(), 28, 20, 0x0001, b, 12, w); tail(d.data(), 28);
}
FW_ENTRY void fw_e_b_fp_more(const uint8_t* b, uint32_t any) {
    Wants w; auto v = several(b, w); v.emplace_back(FingerprintAttribute{any});
    auto r = msg(b, 12, std::move(v)).build();
    fw_prove("building without integrity does not fail", r.is_ok());
    if (!r.is_ok()) return;
    const auto& d = r.unwrap();
    fw_prove("FINGERPRINT adds eight bytes", d.size() == 20 + 12 + 8 + 4 + 8);
    if (d.size() != 52) return;
    layout(d.data(), 52, 44, 0x0001, b, 12, w); tail(d.data(), 52);
}
// MESSAGE-INTEGRITY: HMAC over the message so far, its header counting MESSAGE-INTEGRITY but nothing after it
static inline __attribute__((always_inline)) void signed_(const uint8_t* b, const uint8_t* out, Message&& m, Wants& ws, unsigned body, bool fp, unsigned tidlen) {
    Mac mac; mac.out = out;
    SHA1Hash::Func h = MacFn{&mac};
    const char* key = (const char*)b + 80;
    auto pw = Password::short_term(precis::OpaqueString{std::string(key, key + 16)}, h);
    fw_prove("a short password needs no hashing", pw.is_ok() && mac.calls == 0);
    if (!pw.is_ok()) return;
    auto r = m.build(MaybeIntegrity{IntegrityData{pw.unwrap(), h}});
    fw_prove("building with integrity hashes twice unless the first fails", mac.calls == (mac.failed[0] ? 1 : 2));
    fw_prove("building with integrity fails exactly when the hash does", r.is_ok() == !(mac.failed[0] || mac.failed[1]));
    if (!r.is_ok()) return;
    const auto& d = r.unwrap();
    const unsigned mi = 20 + body, N = mi + 24 + (fp ? 8 : 0);
    fw_prove("MESSAGE-INTEGRITY adds 24 bytes", d.size() == N);
    if (d.size() != N) return;
    layout(d.data(), N, mi, 0x0001, b, tidlen, ws);
    fw_prove("MESSAGE-INTEGRITY follows all other attributes except FINGERPRINT", be16(d.data() + mi) == T_INTEGRITY && be16(d.data() + mi + 2) == 20);
    fw_prove("the digest is the result of the outer hash", same<20>(d.data() + mi + 4, out + 20));
    fw_prove("the inner hash covers one pad block and the message before MESSAGE-INTEGRITY", mac.n[0] == 64 + mi);
    fw_prove("the outer hash covers one pad block and the inner digest", mac.n[1] == 84);
    if (mac.n[0] == 64 + mi) {
        bool k = true, body_ = true;
        for (unsigned i = 0; i < 64; ++i) k = k & (mac.in[0][i] == ((i < 16 ? b[80 + i] : 0) ^ 0x36));
        fw_prove("the inner pad is the key xor 0x36", k);
        fw_prove("the hashed header counts MESSAGE-INTEGRITY and nothing after it", mac.in[0][64] == d[0] && mac.in[0][65] == d[1] && mac.in[0][66] == (uint8_t)((mi + 4) >> 8) && mac.in[0][67] == (uint8_t)(mi + 4));
        for (unsigned i = 4; i < mi; ++i) body_ = body_ & (mac.in[0][64 + i] == d[i]);
        fw_prove("the hashed bytes are those of the message", body_);
    }
    if (mac.n[1] == 84) {
        bool k = true;
        for (unsigned i = 0; i < 64; ++i) k = k & (mac.in[1][i] == ((i < 16 ? b[80 + i] : 0) ^ 0x5C));
        fw_prove("the outer pad is the key xor 0x5C", k);
        fw_prove("the outer hash covers the inner digest", same<20>(mac.in[1] + 64, out));
    }
    if (fp) tail(d.data(), N);
}
FW_ENTRY void fw_e_b_mi(const uint8_t* b, const uint8_t* out) { Wants w; signed_(b, out, msg(b, 12, {}), w, 0, false, 12); }
FW_ENTRY void fw_e_b_mi_old(const uint8_t* b, const uint8_t* out) { Wants w; signed_(b, out, msg(b, 16, {}), w, 0, false, 16); }
FW_ENTRY void fw_e_b_mi_more(const uint8_t* b, const uint8_t* out) { Wants w; auto v = several(b, w); signed_(b, out, msg(b, 12, std::move(v)), w, 24, false, 12); }
FW_ENTRY void fw_e_b_mi_fp(const uint8_t* b, const uint8_t* out) { Wants w; std::vector<Val> v; v.emplace_back(FingerprintAttribute{0}); signed_(b, out, msg(b, 12, std::move(v)), w, 0, true, 12); }
FW_ENTRY void fw_e_b_mi_fp_more(const uint8_t* b, const uint8_t* out) { Wants w; auto v = several(b, w); v.emplace_back(FingerprintAttribute{0}); signed_(b, out, msg(b, 12, std::move(v)), w, 24, true, 12); }
// text and opaque values of every length 4 * q + R
template<unsigned R> static inline __attribute__((always_inline)) void longvalue(const uint8_t* b, size_t q, size_t i, Message&& m, uint16_t type) {
    const size_t n = 4 * q + R;
    auto r = m.build();
    fw_prove("building without integrity does not fail", r.is_ok());
    if (!r.is_ok()) return;
    const auto& d = r.unwrap();
    const size_t body = 4 + 4 * q + (R ? 4 : 0);
    fw_prove("a value of any length is padded to a multiple of four and no further", d.size() == 20 + body);
    if (d.size() != 20 + body) return;
    fw_prove("the header of a message with a value of any length counts the padded attribute", be16(d.data() + 2) == (uint16_t)body);
    fw_prove("the attribute header of a value of any length carries its type and exact length", be16(d.data() + 20) == type && be16(d.data() + 22) == n);
    fw_prove("every byte of a value of any length is written", d[24 + i] == b[32 + i]);
    bool z = true; for (unsigned k = R; k & 3; ++k) z = z & (d[24 + 4 * q + k] == 0);
    fw_prove("a value of any length is padded with zeroes", z);
}
#define ANYLEN q &= 0x3FFF; fw_assume(q < 16370); fw_assume(i < 4 * q + R); const size_t n = 4 * q + R; const char* s = (const char*)b + 32; (void)s
template<unsigned R> static inline __attribute__((always_inline)) void long_user(const uint8_t* b, size_t q, size_t i) {
    ANYLEN;
    std::vector<Val> v; v.emplace_back(UsernameAttribute{precis::OpaqueString{std::string(s, s + n)}});
    longvalue<R>(b, q, i, msg(b, 12, std::move(v)), T_USERNAME);
}
template<unsigned R> static inline __attribute__((always_inline)) void long_soft(const uint8_t* b, size_t q, size_t i) {
    ANYLEN;
    std::vector<Val> v; v.emplace_back(SoftwareAttribute{std::string(s, s + n)});
    longvalue<R>(b, q, i, msg(b, 12, std::move(v)), T_SOFTWARE);
}
template<unsigned R> static inline __attribute__((always_inline)) void long_unknown(const uint8_t* b, size_t q, size_t i, uint16_t t) {
    ANYLEN;
    std::vector<UnknownAttribute> u; u.emplace_back(AttributeType::from_uint16(t), View(b + 32, n));
    longvalue<R>(b, q, i, msg(b, 12, {}, std::move(u)), t);
}
// what is hashed to sign a message with a value of any length, at an arbitrary place i
struct Sign { unsigned calls = 0; const uint8_t* b; size_t mi; size_t i; const uint8_t* out; };
struct SignFn {
    Sign* m;
    static inline __attribute__((always_inline)) int at(const std::vector<View>& vv, size_t k) {
        for (const auto& v : vv) { if (k < v.size()) return v.data()[k]; k -= v.size(); }
        return -1;
    }
    SHA1Hash::Result operator()(const std::vector<View>& vv) const {
        const unsigned c = m->calls++;
        if (c == 0) {
            size_t n = 0; for (const auto& v : vv) n += v.size();
            fw_prove("the inner hash of a long message covers one pad block and the message before MESSAGE-INTEGRITY", n == 64 + m->mi);
            fw_prove("the hashed length of a long message counts MESSAGE-INTEGRITY and nothing after it", at(vv, 66) == (uint8_t)((m->mi + 4) >> 8) && at(vv, 67) == (uint8_t)(m->mi + 4));
            fw_prove("every byte of a long value is hashed", at(vv, 64 + 24 + m->i) == m->b[32 + m->i]);
        }
        if (c >= 2) return make_error_code(ParseError::invalid_message_size);
        SHA1Hash::Value o;
        for (unsigned k = 0; k < 20; ++k) o[k] = m->out[20 * c + k];
        return SHA1Hash(std::move(o));
    }
};
template<unsigned R> static inline __attribute__((always_inline)) void long_signed(const uint8_t* b, const uint8_t* out, size_t q, size_t i) {
    ANYLEN;
    std::vector<Val> v; v.emplace_back(UsernameAttribute{precis::OpaqueString{std::string(s, s + n)}});
    const size_t mi = 24 + 4 * q + (R ? 4 : 0);
    Sign l; l.b = b; l.mi = mi; l.i = i; l.out = out;
    SHA1Hash::Func h = SignFn{&l};
    auto pw = Password::short_term(precis::OpaqueString{std::string("p")}, h);
    if (!pw.is_ok()) return;
    auto r = msg(b, 12, std::move(v)).build(MaybeIntegrity{IntegrityData{pw.unwrap(), h}});
    fw_prove("signing a long message succeeds when hashing does", r.is_ok() && l.calls == 2);
    if (!r.is_ok()) return;
    const auto& d = r.unwrap();
    fw_prove("MESSAGE-INTEGRITY adds 24 bytes to a long message", d.size() == mi + 24 && be16(d.data() + 2) == (uint16_t)(mi + 4));
    if (d.size() != mi + 24) return;
    fw_prove("MESSAGE-INTEGRITY follows a value of any length", be16(d.data() + mi) == T_INTEGRITY && be16(d.data() + mi + 2) == 20 && same<20>(d.data() + mi + 4, out + 20));
}
#define LONG(R) FW_ENTRY void fw_e_w_signed_##R(const uint8_t* b, const uint8_t* out, size_t q, size_t i) { long_signed<R>(b, out, q, i); } \
    FW_ENTRY void fw_e_w_user_##R(const uint8_t* b, size_t q, size_t i) { long_user<R>(b, q, i); } \
    FW_ENTRY void fw_e_w_soft_##R(const uint8_t* b, size_t q, size_t i) { long_soft<R>(b, q, i); } \
    FW_ENTRY void fw_e_w_unknown_##R(const uint8_t* b, size_t q, size_t i, uint16_t t) { long_unknown<R>(b, q, i, t); }
// what is built is read back, whatever its length
template<unsigned R> static inline __attribute__((always_inline)) void long_back(const uint8_t* b, size_t q, size_t i, ParseStat& st) {
    ANYLEN;
    std::vector<Val> v; v.emplace_back(SoftwareAttribute{std::string(s, s + n)});
    auto r = msg(b, 12, std::move(v)).build();
    if (!r.is_ok()) return;
    const auto& d = r.unwrap();
    auto p = Message::parse(View(d), st);
    fw_prove("a built message with a text of any length is accepted", p.is_ok());
    if (!p.is_ok()) return;
    const auto x = p.unwrap().attribute_set.software();
    fw_prove("a text of any length is read back", x.is_some());
    if (!x.is_some()) return;
    const std::string& y = x.unwrap().get();
    fw_prove("a text of any length is read back whole", y.size() == n);
    fw_prove("every byte of a text of any length is read back", (uint8_t)y[i] == b[32 + i]);
}
#define BACK(R) FW_ENTRY void fw_e_x_back_##R(const uint8_t* b, size_t q, size_t i, ParseStat& st) { long_back<R>(b, q, i, st); }
#define INST1(NAME, R, Q) FW_ENTRY void fw_e_inst_w_##NAME##_##R##_##Q(const uint8_t* b) { long_##NAME<R>(b, Q, 0); long_##NAME<R>(b, Q, 4 * Q + R - 1); }
#define INST2(R, Q) INST1(user, R, Q) INST1(soft, R, Q) FW_ENTRY void fw_e_inst_w_unknown_##R##_##Q(const uint8_t* b, uint16_t t) { long_unknown<R>(b, Q, 0, t); long_unknown<R>(b, Q, 4 * Q + R - 1, t); } \
    FW_ENTRY void fw_e_inst_w_signed_##R##_##Q(const uint8_t* b, const uint8_t* out) { long_signed<R>(b, out, Q, 0); long_signed<R>(b, out, Q, 4 * Q + R - 1); } \
    FW_ENTRY void fw_e_inst_x_back_##R##_##Q(const uint8_t* b, ParseStat& st) { long_back<R>(b, Q, 0, st); long_back<R>(b, Q, 4 * Q + R - 1, st); }
#define INST(R) INST2(R, 63) INST2(R, 64) INST2(R, 16369)
INST(0) INST(1) INST(2) INST(3)
BACK(0) BACK(1) BACK(2) BACK(3)
LONG(0) LONG(1) LONG(2) LONG(3)
