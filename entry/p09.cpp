// Verifying MESSAGE-INTEGRITY: what is hashed, and the verdict
#include "mac.hpp"
#include "stun/details/stun_fingerprint.hpp"
#define AI static inline __attribute__((always_inline))
// a success response: `Body` bytes of attributes (one opaque attribute each), MESSAGE-INTEGRITY, `After` ignored bytes, FINGERPRINT or not
template<unsigned Body, unsigned After> AI Maybe<Message> received(const uint8_t* b, bool old) {
    constexpr unsigned mi = 20 + Body, N = mi + 24 + After;
    uint8_t* w = const_cast<uint8_t*>(b);
    w[0] = old ? 0x00 : 0x01; w[1] = 0x01; w[2] = (N - 20) >> 8; w[3] = (uint8_t)(N - 20);
    if (!old) { w[4] = 0x21; w[5] = 0x12; w[6] = 0xA4; w[7] = 0x42; } else fw_assume(w[4] != 0x21);
    if (Body) { w[20] = 0x7F; w[21] = 0x01; w[22] = 0; w[23] = Body - 4; }
    w[mi] = 0; w[mi + 1] = T_INTEGRITY; w[mi + 2] = 0; w[mi + 3] = 20;
    if (After) { w[mi + 24] = 0x7F; w[mi + 25] = 0x02; w[mi + 26] = 0; w[mi + 27] = After - 4; }
    ParseStat st;
    auto r = Message::parse(View(b, N), st);
    fw_prove("a message with MESSAGE-INTEGRITY parses", r.is_ok());
    if (!r.is_ok()) return none();
    return std::move(r.unwrap());
}
AI void verdict(const Message& m, const uint8_t* b, const uint8_t* out, unsigned mi, size_t n) {
    Mac mac; mac.out = out;
    SHA1Hash::Func h = MacFn{&mac};
    const char* key = (const char*)b + 200;
    auto pw = Password::short_term(precis::OpaqueString{std::string(key, key + 16)}, h);
    if (!pw.is_ok()) return;
    auto v = m.is_valid(View(b, n), IntegrityData{pw.unwrap(), h});
    fw_prove("checking hashes twice unless the first hash fails", mac.calls == (mac.failed[0] ? 1 : 2));
    fw_prove("checking fails exactly when the hash does", v.is_ok() == !(mac.failed[0] || mac.failed[1]));
    fw_prove("the inner hash covers one pad block and the message before MESSAGE-INTEGRITY", mac.n[0] == 64 + mi);
    if (mac.n[0] == 64 + mi) {
        bool k = true, body = true;
        for (unsigned i = 0; i < 64; ++i) k = k & (mac.in[0][i] == ((i < 16 ? b[200 + i] : 0) ^ 0x36));
        fw_prove("the inner pad is the key xor 0x36", k);
        fw_prove("the hashed message type is the received one", mac.in[0][64] == b[0] && mac.in[0][65] == b[1]);
        fw_prove("the hashed length counts MESSAGE-INTEGRITY and nothing after it", mac.in[0][66] == (uint8_t)((mi + 4) >> 8) && mac.in[0][67] == (uint8_t)(mi + 4));
        for (unsigned i = 4; i < mi; ++i) body = body & (mac.in[0][64 + i] == b[i]);
        fw_prove("every received byte before MESSAGE-INTEGRITY is hashed", body);
    }
    if (!v.is_ok()) return;
    fw_prove("the outer hash covers one pad block and the inner digest", mac.n[1] == 84);
    if (mac.n[1] == 84) {
        bool k = true;
        for (unsigned i = 0; i < 64; ++i) k = k & (mac.in[1][i] == ((i < 16 ? b[200 + i] : 0) ^ 0x5C));
        fw_prove("the outer pad is the key xor 0x5C", k);
        fw_prove("the outer hash covers the inner digest", same<20>(mac.in[1] + 64, out));
    }
    fw_prove("a signed message gets a verdict", v.unwrap().is_some());
    if (v.unwrap().is_some()) fw_prove("a message is authentic exactly when all 20 digest bytes agree", v.unwrap().unwrap() == same<20>(b + mi + 4, out + 20));
}
template<unsigned Body, unsigned After> AI void check(const uint8_t* b, const uint8_t* out, bool old) {
    auto m = received<Body, After>(b, old);
    if (m.is_none()) return;
    verdict(m.unwrap(), b, out, 20 + Body, 44 + Body + After);
}
#define CHECK(B, A) FW_ENTRY void fw_e_v_##B##_##A(const uint8_t* b, const uint8_t* out) { check<B, A>(b, out, false); } FW_ENTRY void fw_e_o_##B##_##A(const uint8_t* b, const uint8_t* out) { check<B, A>(b, out, true); }
CHECK(0, 0) CHECK(4, 0) CHECK(8, 0) CHECK(24, 0) CHECK(96, 0) CHECK(0, 4) CHECK(8, 12)
// with FINGERPRINT after it
template<unsigned Body> AI void fingerprinted(const uint8_t* b, const uint8_t* out) {
    constexpr unsigned mi = 20 + Body, N = mi + 32;
    uint8_t* w = const_cast<uint8_t*>(b);
    w[0] = 0x01; w[1] = 0x01; w[2] = 0; w[3] = N - 20; w[4] = 0x21; w[5] = 0x12; w[6] = 0xA4; w[7] = 0x42;
    if (Body) { w[20] = 0x7F; w[21] = 0x01; w[22] = 0; w[23] = Body - 4; }
    w[mi] = 0; w[mi + 1] = T_INTEGRITY; w[mi + 2] = 0; w[mi + 3] = 20;
    w[mi + 24] = 0x80; w[mi + 25] = 0x28; w[mi + 26] = 0; w[mi + 27] = 4;
    ParseStat st;
    auto r = Message::parse(View(b, N), st);
    if (!r.is_ok()) return;
    verdict(r.unwrap(), b, out, mi, N);
}
FW_ENTRY void fw_e_f_0(const uint8_t* b, const uint8_t* out) { fingerprinted<0>(b, out); }
FW_ENTRY void fw_e_f_8(const uint8_t* b, const uint8_t* out) { fingerprinted<8>(b, out); }
// unsigned messages are not vouched for, and nothing is hashed
AI void unsigned_(const uint8_t* b, unsigned n, const uint8_t* out) {
    uint8_t* w = const_cast<uint8_t*>(b);
    w[0] = 0x01; w[1] = 0x01; w[2] = 0; w[3] = n - 20; w[4] = 0x21; w[5] = 0x12; w[6] = 0xA4; w[7] = 0x42;
    if (n > 20) { w[20] = 0x7F; w[21] = 0x01; w[22] = 0; w[23] = n - 24; }
    ParseStat st;
    auto r = Message::parse(View(b, n), st);
    if (!r.is_ok()) return;
    Mac mac; mac.out = out;
    SHA1Hash::Func h = MacFn{&mac};
    auto pw = Password::short_term(precis::OpaqueString{std::string("p")}, h);
    if (!pw.is_ok()) return;
    auto v = r.unwrap().is_valid(View(b, n), IntegrityData{pw.unwrap(), h});
    fw_prove("a message without MESSAGE-INTEGRITY gets no verdict", v.is_ok() && v.unwrap().is_none() && mac.calls == 0);
}
FW_ENTRY void fw_e_u_0(const uint8_t* b, const uint8_t* out) { unsigned_(b, 20, out); }
FW_ENTRY void fw_e_u_1(const uint8_t* b, const uint8_t* out) { unsigned_(b, 24, out); }
FW_ENTRY void fw_e_u_9(const uint8_t* b, const uint8_t* out) { unsigned_(b, 32, out); }
// whatever is built with integrity is hashed the same way when it is verified
AI void agree(const uint8_t* b, const uint8_t* out, Message&& m) {
    Mac mac; mac.out = out;
    SHA1Hash::Func h = MacFn{&mac};
    const char* key = (const char*)b + 80;
    auto pw = Password::short_term(precis::OpaqueString{std::string(key, key + 9)}, h);
    if (!pw.is_ok()) return;
    auto r = m.build(MaybeIntegrity{IntegrityData{pw.unwrap(), h}});
    if (!r.is_ok()) return;
    const auto& d = r.unwrap();
    ParseStat st;
    auto p = Message::parse(View(d), st);
    fw_prove("a built message parses", p.is_ok());
    if (!p.is_ok()) return;
    Mac again; again.out = out;
    SHA1Hash::Func h2 = MacFn{&again};
    auto v = p.unwrap().is_valid(View(d), IntegrityData{pw.unwrap(), h2});
    fw_prove("signing and verifying hash the same number of bytes", again.n[0] == mac.n[0]);
    if (again.n[0] == mac.n[0]) {
        bool k = true;
        for (size_t i = 0; i < mac.n[0]; ++i) k = k & (mac.in[0][i] == again.in[0][i]);
        fw_prove("signing and verifying hash the same bytes", k);
    }
    if (v.is_ok()) fw_prove("a built message is authentic under the same key", v.unwrap().is_some() && v.unwrap().unwrap());
}
AI Message mk(const uint8_t* b, unsigned tid, std::vector<Attribute::Value>&& v) {
    return Message{Header{Class::request(), Method::binding(), TransactionId(View(b, tid))}, AttributeSet::create(std::move(v), {}), IsRFC3489{tid == 16}, none()};
}
FW_ENTRY void fw_e_a_bare(const uint8_t* b, const uint8_t* out) { agree(b, out, mk(b, 12, {})); }
FW_ENTRY void fw_e_a_old(const uint8_t* b, const uint8_t* out) { fw_assume(b[0] != 0x21); agree(b, out, mk(b, 16, {})); }
FW_ENTRY void fw_e_a_user(const uint8_t* b, const uint8_t* out) {
    std::vector<Attribute::Value> v; const char* s = (const char*)b + 32;
    v.emplace_back(UsernameAttribute{precis::OpaqueString{std::string(s, s + 7)}}); v.emplace_back(PriorityAttribute{be32(b + 40)});
    agree(b, out, mk(b, 12, std::move(v)));
}
// messages of every length: what is hashed, at an arbitrary place i
struct Long { unsigned calls = 0; const uint8_t* b; size_t mi; size_t i; const uint8_t* out; };
struct LongFn {
    Long* m;
    // the byte of the hashed data at place k
    static inline __attribute__((always_inline)) int at(const std::vector<View>& vv, size_t k) {
        for (const auto& v : vv) { if (k < v.size()) return v.data()[k]; k -= v.size(); }
        return -1;
    }
    SHA1Hash::Result operator()(const std::vector<View>& vv) const {
        const unsigned c = m->calls++;
        if (c == 0) {
            size_t n = 0; for (const auto& v : vv) n += v.size();
            fw_prove("the inner hash covers one pad block and the whole message before MESSAGE-INTEGRITY, whatever its length", n == 64 + m->mi);
            fw_prove("the hashed message type of a long message is the received one", at(vv, 64) == m->b[0] && at(vv, 65) == m->b[1]);
            fw_prove("the hashed length of a long message counts MESSAGE-INTEGRITY and nothing after it", at(vv, 66) == (uint8_t)((m->mi + 4) >> 8) && at(vv, 67) == (uint8_t)(m->mi + 4));
            fw_prove("every byte of a long message before MESSAGE-INTEGRITY is hashed", at(vv, 64 + m->i) == m->b[m->i]);
        }
        if (c >= 2) return make_error_code(ParseError::invalid_message_size);
        SHA1Hash::Value o;
        for (unsigned i = 0; i < 20; ++i) o[i] = m->out[20 * c + i];
        return SHA1Hash(std::move(o));
    }
};
static inline __attribute__((always_inline)) void anylong(const uint8_t* b, const uint8_t* out, const uint8_t* dig, size_t n, size_t mi, size_t i) {
    fw_assume(n < 65556); fw_assume(mi >= 20); fw_assume(mi < 65536); fw_assume(mi + 24 <= n); fw_assume(i >= 4); fw_assume(i < mi);
    fw_extent(b, n);
    Long l; l.b = b; l.mi = mi; l.i = i; l.out = out;
    SHA1Hash::Func h = LongFn{&l};
    auto pw = Password::short_term(precis::OpaqueString{std::string("p")}, h);
    if (!pw.is_ok()) return;
    SHA1Hash::Value x;
    for (unsigned k = 0; k < 20; ++k) x[k] = dig[k];
    std::vector<Attribute::Value> v; v.emplace_back(MessageIntegityAttribute{MessageIntegityAttribute::Digest(SHA1Hash(std::move(x)))});
    Message m{Header{Class::request(), Method::binding(), TransactionId(View(b + 8, 12))}, AttributeSet::create(std::move(v), {}), IsRFC3489{false}, View::Interval{0, mi}};
    auto r = m.is_valid(View(b, n), IntegrityData{pw.unwrap(), h});
    fw_prove("a long signed message gets a verdict", r.is_ok() && r.unwrap().is_some());
    if (r.is_ok() && r.unwrap().is_some()) fw_prove("a long message is authentic exactly when all 20 digest bytes agree", r.unwrap().unwrap() == same<20>(dig, out + 20));
}
FW_ENTRY void fw_e_l_long(const uint8_t* b, const uint8_t* out, const uint8_t* dig, size_t n, size_t mi, size_t i) { anylong(b, out, dig, n, mi, i); }
#define ANY(N, MI) FW_ENTRY void fw_e_inst_l_long_##N##_##MI(const uint8_t* b, const uint8_t* out, const uint8_t* dig) { anylong(b, out, dig, N, MI, 4); anylong(b, out, dig, N, MI, MI - 1); }
ANY(280, 252) ANY(280, 256) ANY(280, 64) ANY(65552, 65528) ANY(65552, 128)
