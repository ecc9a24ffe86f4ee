// HMAC (RFC 2104) over an arbitrary hash function
#include "stunref.hpp"
#include "crypto/crypto_hmac.hpp"
#include "stun/stun_password.hpp"
using crypto::SHA1Hash; using crypto::hmac::IPadKey; using crypto::hmac::OPadKey;
using View = util::ConstBinaryView; using In = std::vector<View>;
extern "C" bool fw_hash_fails(unsigned call);
extern "C" void fw_hash_value(unsigned call, uint8_t* out);
// an arbitrary hash function: the first call's input is checked by the rule, its result is unconstrained
static inline __attribute__((always_inline)) SHA1Hash::Result any_hash(unsigned call) {
    if (fw_hash_fails(call)) return make_error_code(ParseError::invalid_message_size);
    SHA1Hash::Value v;
    fw_hash_value(call, v.data());
    return SHA1Hash(std::move(v));
}
struct NoHash {
    using result_type = SHA1Hash::Result;
    unsigned* calls;
    SHA1Hash::Result operator()(const In&) const { ++*calls; return any_hash(99); }
};
template<uint8_t X, unsigned N> static inline __attribute__((always_inline)) void short_key(const uint8_t* b) {
    unsigned calls = 0;
    auto r = crypto::hmac::PadKey<X>::from_key(View(b, N), NoHash{&calls});
    fw_prove("a key of at most 64 bytes is used as it is", calls == 0 && r.is_ok());
    if (!r.is_ok()) return;
    const auto v = r.unwrap().view();
    fw_prove("a pad key is one block", v.size() == 64);
    bool k = true;
    for (unsigned i = 0; i < 64; ++i) k = k & (v.data()[i] == (uint8_t)((i < N ? b[i] : 0) ^ X));
    fw_prove("a pad key is the zero-padded key xor the pad byte", k);
}
#define KEY(N) FW_ENTRY void fw_e_pad_##N(const uint8_t* b) { short_key<0x36, N>(b); short_key<0x5C, N>(b); }
KEY(0) KEY(1) KEY(2) KEY(7) KEY(16) KEY(20) KEY(31) KEY(33) KEY(63) KEY(64)
struct KeyHash {
    using result_type = SHA1Hash::Result;
    unsigned* calls; const uint8_t* key; size_t n; uint8_t* digest; bool* failed;
    SHA1Hash::Result operator()(const In& in) const {
        ++*calls;
        fw_prove("a long key is hashed whole", in.size() == 1 && in[0].data() == key && in[0].size() == n);
        *failed = fw_hash_fails(1);
        if (*failed) return make_error_code(ParseError::invalid_message_size);
        SHA1Hash::Value v;
        fw_hash_value(1, v.data());
        for (unsigned i = 0; i < 20; ++i) digest[i] = v[i];
        return SHA1Hash(std::move(v));
    }
};
template<uint8_t X> static inline __attribute__((always_inline)) void long_key(const uint8_t* b, size_t n) {
    fw_assume(n > 64);
    unsigned calls = 0; bool failed = false; uint8_t d[20];
    auto r = crypto::hmac::PadKey<X>::from_key(View(b, n), KeyHash{&calls, b, n, d, &failed});
    fw_prove("a long key is hashed once", calls == 1);
    fw_prove("a failure of the hash function is reported", r.is_ok() == !failed);
    if (!r.is_ok()) return;
    const auto v = r.unwrap().view();
    fw_prove("a pad key is one block", v.size() == 64);
    bool k = true;
    for (unsigned i = 0; i < 64; ++i) k = k & (v.data()[i] == (uint8_t)((i < 20 ? d[i] : 0) ^ X));
    fw_prove("a pad key of a long key is the zero-padded key digest xor the pad byte", k);
}
FW_ENTRY void fw_e_pad_long_i(const uint8_t* b, size_t n) { long_key<0x36>(b, n); }
FW_ENTRY void fw_e_pad_long_o(const uint8_t* b, size_t n) { long_key<0x5C>(b, n); }
template<unsigned N> struct MacHash {
    using result_type = SHA1Hash::Result;
    unsigned* calls; const uint8_t* ip; const uint8_t* op; const View* data; uint8_t* inner; uint8_t* outer; bool* failed;
    SHA1Hash::Result operator()(const In& in) const {
        const unsigned c = ++*calls;
        SHA1Hash::Value v;
        if (c == 1) {
            fw_prove("the inner hash covers the inner pad key and the data", in.size() == N + 1);
            if (in.size() == N + 1) {
                fw_prove("the inner hash starts with the inner pad key", in[0].size() == 64 && same<64>(in[0].data(), ip));
                bool k = true;
                for (unsigned i = 0; i < N; ++i) k = k & (in[i + 1].data() == data[i].data()) & (in[i + 1].size() == data[i].size());
                fw_prove("the inner hash continues with all the data in order", k);
            }
        } else {
            fw_prove("the outer hash covers the outer pad key and the inner digest", in.size() == 2);
            if (in.size() == 2) {
                fw_prove("the outer hash starts with the outer pad key", in[0].size() == 64 && same<64>(in[0].data(), op));
                fw_prove("the outer hash ends with the inner digest", in[1].size() == 20 && same<20>(in[1].data(), inner));
            }
        }
        *failed = fw_hash_fails(c);
        if (*failed) return make_error_code(ParseError::invalid_message_size);
        fw_hash_value(c, v.data());
        for (unsigned i = 0; i < 20; ++i) (c == 1 ? inner : outer)[i] = v[i];
        return SHA1Hash(std::move(v));
    }
};
template<unsigned N> static inline __attribute__((always_inline)) void mac(const OPadKey& o, const IPadKey& i, const View& a, const View& b) {
    unsigned calls = 0; bool failed = false; uint8_t inner[20], outer[20];
    const View d[3] = {a, b, a};
    In data; for (unsigned j = 0; j < N; ++j) data.push_back(d[j]);
    auto r = crypto::hmac::digest(data, o, i, MacHash<N>{&calls, i.view().data(), o.view().data(), d, inner, outer, &failed});
    fw_prove("an HMAC succeeds exactly when both hashes do", r.is_ok() == !failed);
    fw_prove("an HMAC takes two hashes, or one when the first fails", calls == 2 || (calls == 1 && failed));
    if (r.is_ok()) fw_prove("an HMAC is the outer digest", calls == 2 && same<20>(r.unwrap().value.view().data(), outer));
}
FW_ENTRY void fw_e_mac_0(const OPadKey& o, const IPadKey& i, const View& a, const View& b) { mac<0>(o, i, a, b); }
FW_ENTRY void fw_e_mac_1(const OPadKey& o, const IPadKey& i, const View& a, const View& b) { mac<1>(o, i, a, b); }
FW_ENTRY void fw_e_mac_3(const OPadKey& o, const IPadKey& i, const View& a, const View& b) { mac<3>(o, i, a, b); }
template<unsigned N> static inline __attribute__((always_inline)) void password(const precis::OpaqueString& s, SHA1Hash::Func h) {
    fw_assume(s.value.size() == N);
    auto r = Password::short_term(s, h);
    fw_prove("a short-term key of at most 64 bytes needs no hash", r.is_ok());
    if (!r.is_ok()) return;
    const auto iv = r.unwrap().ipad().view(), ov = r.unwrap().opad().view();
    bool k = true;
    for (unsigned i = 0; i < 64; ++i) { const uint8_t c = i < N ? (uint8_t)s.value.data()[i] : 0; k = k & (iv.data()[i] == (uint8_t)(c ^ 0x36)) & (ov.data()[i] == (uint8_t)(c ^ 0x5C)); }
    fw_prove("a short-term key is the password", k);
}
#define PW(N) FW_ENTRY void fw_e_pw_##N(const precis::OpaqueString& s, const SHA1Hash::Func& h) { password<N>(s, h); }
PW(0) PW(1) PW(22) PW(64)
