// the same of the parts that keep state or call a hash
#include "client.hpp"
#include "crypto/crypto_hmac.hpp"
#include "stun/stun_server_stateless.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#define RULE "a result is given, whatever the bytes"
#define SIZED(b, n) fw_extent(b, n); fw_assume(n < (1u << 30))
#define GIVEN(b, n) SIZED(b, n); const View v(b, n)
#define TEXT(b, n) SIZED(b, n); const std::string_view v((const char*)b, n)
// a hash that reads all it is given
struct Gulp {
    const uint8_t* out;
    SHA1Hash::Result operator()(const std::vector<View>& vv) const {
        for (const auto& v : vv) fw_reads(v.data(), v.size());
        SHA1Hash::Value o; for (unsigned i = 0; i < 20; ++i) o[i] = out[i];
        return SHA1Hash(std::move(o));
    }
};
FW_ENTRY void fw_e_hmac_key(const uint8_t* b, size_t n, const uint8_t* out) {
    GIVEN(b, n); const SHA1Hash::Func h = Gulp{out};
    auto r = crypto::hmac::IPadKey::from_key(v, h); fw_mark("result", &r); fw_prove(RULE, r.is_ok());
    if (r.is_ok()) fw_reads(r.unwrap().view().data(), r.unwrap().view().size());
}
FW_ENTRY void fw_e_server(const uint8_t* b, size_t n, const uint8_t* a, const uint8_t* out) {
    GIVEN(b, n);
    server::Stateless s(Gulp{out}, server::Stateless::Settings{});
    auto r = s.process(net::Endpoint(net::UdpEndpoint{v4(a), net::Port::from_uint16(be16(a + 4))}), v);
    fw_mark("result", &r); fw_prove(RULE, true);
}
static void answered(const uint8_t* b, size_t n, const uint8_t* x, int64_t t, int64_t d) {
    GIVEN(b, n); fw_assume(0 <= d && d < 500000);
    Client c{Client::Settings{}}; Rand q{x};
    auto p = c.create(q, at(t), Client::Request{path(x + 64), {}, {}});
    if (!p.is_ok() || !sends(c.next(at(t)))) return;
    auto r = c.response(at(t + d), v);
    fw_mark("result", &r); fw_prove(RULE, r.is_ok() != r.is_err());
    auto e = c.next(at(t + d)); fw_mark("effect", &e);
}
FW_ENTRY void fw_e_client_bare(const uint8_t* b, const uint8_t* x, int64_t t, int64_t d) { answered(b, 20, x, t, d); }
FW_ENTRY void fw_e_client_v4(const uint8_t* b, const uint8_t* x, int64_t t, int64_t d) { fw_assume(b[22] == 0); fw_assume(b[23] == 8); answered(b, 32, x, t, d); }
FW_ENTRY void fw_e_client_v6(const uint8_t* b, const uint8_t* x, int64_t t, int64_t d) { fw_assume(b[22] == 0); fw_assume(b[23] == 20); answered(b, 44, x, t, d); }
