// The stateless server: what it answers to every datagram
#include "wire.hpp"
#include "stun/stun_server_stateless.hpp"
#include "stun/details/stun_fingerprint.hpp"
#define AI static inline __attribute__((always_inline))
using Server = server::Stateless; using Set = Server::Settings;
template<unsigned N> AI net::ip::Address addr(const uint8_t* p) {
    if constexpr (N == 4) return net::ip::Address::move_from_v4(net::ip::AddressV4::from_view(View(p, 4)).unwrap());
    else return net::ip::Address::move_from_v6(net::ip::AddressV6::from_view(View(p, 16)).unwrap());
}
template<unsigned N> AI net::Endpoint ep(const uint8_t* p, bool udp = true) {
    const auto port = net::Port::from_uint16(be16(p + 16));
    if (udp) return net::Endpoint(net::UdpEndpoint{addr<N>(p), port});
    return net::Endpoint(net::TcpEndpoint{addr<N>(p), port});
}
// a request being written into a buffer of unconstrained bytes
struct Ask {
    uint8_t* w; unsigned n = 20; unsigned mi = 0;
    explicit Ask(const uint8_t* b) : w(const_cast<uint8_t*>(b)) {}
    uint8_t* attr(uint16_t t, unsigned len) { uint8_t* v = w + n + 4; w[n] = t >> 8; w[n + 1] = (uint8_t)t; w[n + 2] = len >> 8; w[n + 3] = (uint8_t)len; n += 4 + (len + 3) / 4 * 4; return v; }
    void sign() { mi = n; attr(T_INTEGRITY, 20); }
    View close(uint16_t type = 0x0001, bool old = false) {
        w[0] = type >> 8; w[1] = (uint8_t)type; w[2] = (n - 20) >> 8; w[3] = (uint8_t)(n - 20);
        if (!old) { w[4] = 0x21; w[5] = 0x12; w[6] = 0xA4; w[7] = 0x42; } else fw_assume(w[4] != 0x21);
        return View(w, n);
    }
};
struct Mute { unsigned* n; SHA1Hash::Result operator()(const std::vector<View>&) const { ++*n; return make_error_code(ParseError::invalid_message_size); } };
static unsigned ignored;
AI Server plain(bool fp, unsigned* n = &ignored) { return Server(Mute{n}, Set{.use_fingerprint = fp}); }
AI const Server::Respond* responds(const Server::ProcessResult& r) { return std::get_if<Server::Respond>(&r); }
// success, on the wire
template<unsigned N> AI void answer(const Server::Respond& a, const uint8_t* q, bool old, bool fp, const uint8_t* e) {
    const uint8_t* tid = old ? q + 4 : q + 8; const unsigned tl = old ? 16 : 12;
    fw_prove("the request is handed over with the answer", a.request.header.cls == Class::request() && a.request.header.transaction_id == TransactionId(View(tid, tl)));
    fw_prove("the answer of an unauthenticated request is not signed", a.maybe_integrity.is_none());
    fw_prove("the answer is in the format of the request", bool(a.response.is_rfc3489) == old);
    Message m(a.response);
    auto r = m.build(a.maybe_integrity);
    fw_prove("the answer can be sent", r.is_ok());
    if (!r.is_ok()) return;
    const auto& d = r.unwrap();
    Wants w; auto& x = w.add(old ? T_MAPPED : T_XOR, 4 + N); x.v[0] = 0; x.v[1] = N == 4 ? 1 : 2;
    static const uint8_t key[4] = {0x21, 0x12, 0xA4, 0x42};
    for (unsigned i = 0; i < 2; ++i) x.v[2 + i] = e[16 + i] ^ (old ? 0 : key[i]);
    for (unsigned i = 0; i < N; ++i) x.v[4 + i] = e[i] ^ (old ? 0 : i < 4 ? key[i] : tid[i - 4]);
    const bool f = fp && !old;
    const size_t end = 28 + N, size = end + (f ? 8 : 0);
    fw_prove("the answer carries the reflexive address and nothing else", d.size() == size);
    if (d.size() != size) return;
    layout(d.data(), size, end, 0x0101, tid, tl, w);
    if (f) fw_prove("the answer has a fingerprint when configured", be16(d.data() + end) == T_FINGERPRINT && be32(d.data() + end + 4) == (crc32(View(d.data(), end)) ^ 0x5354554Eu));
}
template<unsigned N> AI void binding(const uint8_t* q, const uint8_t* e, bool old, bool fp, bool udp) {
    unsigned hashed = 0; Ask a(q); Server s = plain(fp, &hashed);
    const View v = a.close(1, old);
    auto r = s.process(ep<N>(e, udp), v);
    fw_prove("a request without credentials is not hashed", hashed == 0);
    const auto* p = responds(r);
    fw_prove("a binding request is answered", p != nullptr);
    if (p) answer<N>(*p, q, old, fp, e);
}
#define B const uint8_t *q, const uint8_t *e
FW_ENTRY void fw_e_b4(B, bool fp, bool udp) { binding<4>(q, e, false, fp, udp); }
FW_ENTRY void fw_e_b6(B, bool fp, bool udp) { binding<16>(q, e, false, fp, udp); }
FW_ENTRY void fw_e_o4(B, bool fp) { binding<4>(q, e, true, fp, true); }
FW_ENTRY void fw_e_o6(B, bool fp) { binding<16>(q, e, true, fp, true); }
FW_ENTRY void fw_e_default(B) {
    Ask a(q); unsigned n = 0; Server s(Mute{&n}); auto r = s.process(ep<4>(e), a.close());
    const auto* p = responds(r);
    fw_prove("by default answers have a fingerprint", p && p->response.attribute_set.has_fingerprint());
}
// attributes that do not matter do not matter
FW_ENTRY void fw_e_noise(B, bool fp) {
    Ask a(q); Server s = plain(fp);
    a.attr(be16(q + 100) | 0x8000, 0); fw_assume(be16(q + 20) != T_FINGERPRINT);
    a.attr(T_PRIORITY, 4); a.attr(T_USE, 0);
    auto r = s.process(ep<4>(e), a.close());
    const auto* p = responds(r);
    if (p) answer<4>(*p, q, false, fp, e);
    else fw_prove("only refused optional attributes lose the request", std::holds_alternative<Server::Ignore>(r) && std::get<Server::Ignore>(r).message.is_none());
}
// what is not a request is not answered
FW_ENTRY void fw_e_class(B, uint8_t c) {
    Ask a(q); Server s = plain(false); fw_assume(1 <= c && c <= 3);
    auto r = s.process(ep<4>(e), a.close(c == 1 ? 0x0011 : c == 2 ? 0x0101 : 0x0111));
    const auto* i = std::get_if<Server::Ignore>(&r);
    fw_prove("indications and responses are ignored, and handed over", i && i->message.is_some() && i->message.unwrap().header.transaction_id == TransactionId(View(q + 8, 12)));
}
FW_ENTRY void fw_e_method(B, uint16_t t) {
    Ask a(q); Server s = plain(false); fw_assume((t & 0xC110) == 0 && ((t & 0xF) | (t >> 1 & 0x70) | (t >> 2 & 0xF80)) != 1);
    auto r = s.process(ep<4>(e), a.close(t));
    const auto* i = std::get_if<Server::Ignore>(&r);
    fw_prove("requests of other methods are ignored, and handed over", i && i->message.is_some() && i->message.unwrap().header.transaction_id == TransactionId(View(q + 8, 12)));
}
FW_ENTRY void fw_e_garbage(B, size_t n) {
    fw_assume(n < 24); Server s = plain(false); fw_assume(n != 20);
    auto r = s.process(ep<4>(e), View(q, n));
    const auto* i = std::get_if<Server::Ignore>(&r);
    fw_prove("what is not STUN is ignored", i && i->message.is_none());
}
// errors
AI bool error(const Server::ProcessResult& r, unsigned code, const uint8_t* q, bool old, uint16_t type = 0x0001) {
    const auto* p = responds(r);
    fw_prove("a refused request is answered", p != nullptr);
    if (!p) return false;
    const auto& m = p->response;
    const auto c = m.attribute_set.error_code();
    fw_prove("with the error code of the cause", m.header.cls == Class::error_response() && c.is_some() && c.unwrap().get().code == code);
    fw_prove("an error is sent under the id and in the format of its request", m.header.transaction_id == TransactionId(old ? View(q + 4, 16) : View(q + 8, 12)) && bool(m.is_rfc3489) == old && m.header.method == p->request.header.method);
    fw_prove("an error reveals no address and is not signed", m.attribute_set.xor_mapped().is_none() && m.attribute_set.mapped().is_none() && p->maybe_integrity.is_none() && m.attribute_set.integrity().is_none());
    Message copy(m);
    fw_prove("an error can be sent", copy.build(p->maybe_integrity).is_ok());
    return true;
}
template<bool Old, bool User> AI void unknown(B) {
    Ask a(q); Server s = plain(true);
    const uint16_t t1 = be16(q + 200) | 0x4000, t2 = be16(q + 202) | 0x4000, t3 = be16(q + 204) | 0xC000;
    fw_assume(t1 < 0x8000 && t2 < 0x8000);
    if (User) a.attr(T_USERNAME, 4);
    a.attr(t1, 0); a.attr(t3, 4); a.attr(t2, 2);
    auto r = s.process(ep<4>(e), a.close(1, Old));
    if (!error(r, 420, q, Old)) return;
    const auto u = responds(r)->response.attribute_set.unknown_attributes();
    fw_prove("420 lists the attributes it did not understand", u.is_some() && u.unwrap().get().types.size() == 2 && u.unwrap().get().types[0].value() == t1 && u.unwrap().get().types[1].value() == t2);
}
FW_ENTRY void fw_e_420(B) { unknown<false, false>(q, e); }
FW_ENTRY void fw_e_420_old(B) { unknown<true, false>(q, e); }
FW_ENTRY void fw_e_420_user(B) { unknown<false, true>(q, e); }
FW_ENTRY void fw_e_400_user(B, bool old) { Ask a(q); Server s = plain(true); a.attr(T_USERNAME, 6); error(s.process(ep<4>(e), a.close(1, old)), 400, q, old); }
FW_ENTRY void fw_e_400_mi(B, bool old) { Ask a(q); Server s = plain(true); a.sign(); error(s.process(ep<4>(e), a.close(1, old)), 400, q, old); }
FW_ENTRY void fw_e_401_nobody(B, bool old) { Ask a(q); Server s = plain(true); a.attr(T_USERNAME, 6); a.sign(); error(s.process(ep<4>(e), a.close(1, old)), 401, q, old); }
// credentials: two users
AI std::string text(const uint8_t* p, unsigned n) { const char* s = (const char*)p; return std::string(s, s + n); }
AI bool key(const Mac& m, unsigned c, const uint8_t* k, unsigned n, uint8_t pad) { bool r = true; for (unsigned i = 0; i < 64; ++i) r = r & (m.in[c][i] == ((i < n ? k[i] : 0) ^ pad)); return r; }
template<unsigned U, bool Old, bool Method> AI void signed_(B, const uint8_t* k, const uint8_t* out) {
    Mac mac; mac.out = out; SHA1Hash::Func h = MacFn{&mac};
    Server s(h, Set{.use_fingerprint = false});
    auto p1 = Password::short_term(precis::OpaqueString{text(k + 16, 8)}, h), p2 = Password::short_term(precis::OpaqueString{text(k + 32, 12)}, h);
    if (!p1.is_ok() || !p2.is_ok()) return;
    fw_assume(!same<4>(k, k + 4));
    s.add_user(precis::OpaqueString{text(k, 4)}, p1.unwrap());
    s.add_user(precis::OpaqueString{text(k + 4, 4)}, p2.unwrap());
    Ask a(q);
    uint8_t* n = a.attr(T_USERNAME, 4);
    if (U < 2) { for (unsigned i = 0; i < 4; ++i) n[i] = k[4 * U + i]; }
    else fw_assume(!same<4>(n, k) && !same<4>(n, k + 4));
    a.sign();
    auto r = s.process(ep<4>(e), a.close(Method ? 3 : 1, Old));
    if (U == 2) { fw_prove("an unknown user is not hashed for", mac.calls == 0); error(r, 401, q, Old); return; }
    fw_prove("checking credentials takes a keyed hash", mac.calls == (mac.failed[0] ? 1 : 2));
    fw_prove("credentials are checked with the password of their user", U == 0 ? key(mac, 0, k + 16, 8, 0x36) : key(mac, 0, k + 32, 12, 0x36));
    if (mac.failed[0] || mac.failed[1]) {
        fw_prove("a failing hash is reported, not answered", std::holds_alternative<Server::Error>(r));
        return;
    }
    fw_prove("and with that password only", U == 0 ? key(mac, 1, k + 16, 8, 0x5C) : key(mac, 1, k + 32, 12, 0x5C));
    if (!same<20>(q + a.mi + 4, out + 20)) { error(r, 401, q, Old); return; }
    if (Method) { fw_prove("authentic requests of other methods are ignored", std::holds_alternative<Server::Ignore>(r)); return; }
    const auto* p = responds(r);
    fw_prove("an authentic request is answered", p != nullptr && p->response.header.cls == Class::success_response());
    if (!p) return;
    fw_prove("the answer is to be signed with the credentials of the request", p->maybe_integrity.is_some() && p->maybe_integrity.unwrap().password == (U == 0 ? p1 : p2).unwrap());
    const auto& m = p->response; const auto v = addr<4>(e);
    if (Old) { auto x = m.attribute_set.mapped(); fw_prove("an authentic request learns its address", x.is_some() && x.unwrap().get().addr == v && x.unwrap().get().port.value() == be16(e + 16)); }
    else { auto x = m.attribute_set.xor_mapped(); fw_prove("an authentic request learns its address", x.is_some() && x.unwrap().get().addr.to_address(m.header.transaction_id) == v && x.unwrap().get().port.value() == be16(e + 16)); }
}
#define S B, const uint8_t *k, const uint8_t *out
FW_ENTRY void fw_e_s0(S) { signed_<0, false, false>(q, e, k, out); }
FW_ENTRY void fw_e_s1(S) { signed_<1, false, false>(q, e, k, out); }
FW_ENTRY void fw_e_s2(S) { signed_<2, false, false>(q, e, k, out); }
FW_ENTRY void fw_e_s0_old(S) { signed_<0, true, false>(q, e, k, out); }
FW_ENTRY void fw_e_s1_method(S) { signed_<1, false, true>(q, e, k, out); }
// no memory: what came before does not matter
FW_ENTRY void fw_e_again(B, const uint8_t* z, bool fp, uint8_t kind) {
    Ask a(q); Server s = plain(fp); Ask o(z);
    fw_assume(kind < 4);
    if (kind == 1) o.attr(T_USERNAME, 4);
    if (kind == 2) o.attr(0x7F00, 0);
    if (kind == 3) o.sign();
    (void)s.process(ep<4>(z + 64), o.close());
    auto r = s.process(ep<4>(e), a.close());
    const auto* p = responds(r);
    fw_prove("a request is answered whatever came before", p != nullptr);
    if (p) answer<4>(*p, q, false, fp, e);
}
