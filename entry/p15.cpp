// Creating transactions: the request on the wire, its identity, and what next() yields
#include "client.hpp"
#include "wire.hpp"
#include "stun/details/stun_fingerprint.hpp"
AI Client::Settings settings(bool fp, int64_t rto) { Client::Settings s; s.use_fingerprint = Client::Settings::UseFingerprint{fp}; s.rto_settings.initial_rto = us(rto); return s; }
AI void wire(const uint8_t* d, size_t n, unsigned body, unsigned mi, bool fp, const uint8_t* tid, Wants& ws) {
    const size_t N = 20 + body + mi + (fp ? 8 : 0);
    fw_prove("the request has exactly its attributes", n == N);
    if (n != N) return;
    layout(d, n, 20 + body, 0x0001, tid, 12, ws);
    if (mi) fw_prove("MESSAGE-INTEGRITY follows the attributes", be16(d + 20 + body) == T_INTEGRITY && be16(d + 22 + body) == 20);
    if (fp) {
        fw_prove("FINGERPRINT is last", be16(d + n - 8) == T_FINGERPRINT && be16(d + n - 6) == 4);
        fw_prove("FINGERPRINT covers the request", be32(d + n - 4) == (crc32(View(d, n - 8)) ^ 0x5354554Eu));
    }
}
struct Made { bool ok = false; unsigned hnd = 0; };
AI Made first(Client& c, int64_t t, int64_t rto, const Result<Client::Handle>& h, unsigned body, unsigned mi, bool fp, const uint8_t* tid, Wants& ws) {
    fw_prove("a transaction is created", h.is_ok());
    if (!h.is_ok()) return {};
    auto e = c.next(at(t));
    const auto* s = std::get_if<Client::SendData>(&e);
    fw_prove("the first step of a new transaction is to send its request", s != nullptr && s->handle == h.unwrap());
    if (!s) return {};
    wire(s->message_view.data(), s->message_view.size(), body, mi, fp, tid, ws);
    auto z = c.next(at(t));
    const auto* sl = std::get_if<Client::Sleep>(&z);
    fw_prove("then the client sleeps for the retransmission timeout", sl != nullptr && sl->sleep == us(rto));
    return {true, h.unwrap().value};
}
#define RTO fw_assume(0 < rto && rto < 3600000000ll)
FW_ENTRY void fw_e_bare(const uint8_t* b, int64_t t, int64_t rto) {
    RTO;
    for (int fp = 0; fp < 2; ++fp) {
        Client c{settings(fp, rto)}; Rand r{b}; Wants w;
        first(c, t, rto, c.create(r, at(t), Client::Request{path(b + 64), {}, {}}), 0, 0, fp, b, w);
    }
}
AI std::vector<Attribute::Value> attrs(const uint8_t* b, Wants& w) {
    std::vector<Attribute::Value> v;
    put32(w.add(T_PRIORITY, 4).v, be32(b + 40)); v.emplace_back(PriorityAttribute{be32(b + 40)});
    w.add(T_USE, 0); v.emplace_back(UseCandidateAttribute{});
    put64(w.add(T_CONTROLLING, 8).v, be64(b + 44)); v.emplace_back(IceControllingAttribute{be64(b + 44)});
    return v;
}
FW_ENTRY void fw_e_attrs(const uint8_t* b, int64_t t, int64_t rto) {
    RTO;
    Client c{settings(true, rto)}; Rand r{b}; Wants w;
    auto v = attrs(b, w);
    auto& x = w.add(0x7F01, 5); for (unsigned i = 0; i < 5; ++i) x.v[i] = b[56 + i];
    std::vector<UnknownAttribute> u; u.emplace_back(AttributeType::from_uint16(0x7F01), View(b + 56, 5));
    first(c, t, rto, c.create(r, at(t), Client::Request{path(b + 64), std::move(v), std::move(u)}), 8 + 4 + 12 + 12, 0, true, b, w);
}
template<bool More> AI void authed(const uint8_t* b, const uint8_t* out, int64_t t, int64_t rto, bool fp) {
    Mac mac; mac.out = out;
    SHA1Hash::Func h = MacFn{&mac};
    auto pw = Password::short_term(precis::OpaqueString{std::string("pw")}, h);
    if (!pw.is_ok()) return;
    Client c{settings(fp, rto)}; Rand r{b}; Wants w;
    std::vector<Attribute::Value> v;
    if (More) v = attrs(b, w);
    auto& x = w.add(T_USERNAME, 6); for (unsigned i = 0; i < 6; ++i) x.v[i] = b[100 + i];
    const char* name = (const char*)b + 100;
    const unsigned body = More ? 12 + 24 : 12;
    auto res = c.create(r, at(t), Client::Request{path(b + 64), std::move(v), {}, Client::Auth{precis::OpaqueString{std::string(name, name + 6)}, IntegrityData{pw.unwrap(), h}}});
    const bool hashed = !mac.failed[0] && !mac.failed[1];
    fw_prove("a request with credentials fails exactly when the hash does", res.is_ok() == hashed);
    if (!res.is_ok()) {
        fw_prove("a failed creation leaves nothing behind", std::holds_alternative<Client::Idle>(c.next(at(t))));
        return;
    }
    fw_prove("the digest covers the request up to MESSAGE-INTEGRITY", mac.calls == 2 && mac.n[0] == 64 + 20 + body);
    auto e = c.next(at(t));
    const auto* s = std::get_if<Client::SendData>(&e);
    fw_prove("the first step of a new transaction is to send its request", s != nullptr && s->handle == res.unwrap());
    if (!s) return;
    const uint8_t* d = s->message_view.data();
    wire(d, s->message_view.size(), body, 24, fp, b, w);
    if (s->message_view.size() < 20 + body + 24) return;
    fw_prove("the digest sent is the one computed", same<20>(d + 24 + body, out + 20));
    if (mac.n[0] == 64 + 20 + body) {
        bool k = true;
        for (unsigned i = 4; i < 20 + body; ++i) k = k & (mac.in[0][64 + i] == d[i]);
        fw_prove("the digest is computed over what is sent", k);
    }
}
FW_ENTRY void fw_e_auth(const uint8_t* b, const uint8_t* out, int64_t t, int64_t rto) { RTO; authed<false>(b, out, t, rto, true); }
FW_ENTRY void fw_e_auth_nofp(const uint8_t* b, const uint8_t* out, int64_t t, int64_t rto) { RTO; authed<false>(b, out, t, rto, false); }
FW_ENTRY void fw_e_auth_more(const uint8_t* b, const uint8_t* out, int64_t t, int64_t rto) { RTO; authed<true>(b, out, t, rto, true); }
// identities
FW_ENTRY void fw_e_two(const uint8_t* b, int64_t t) {
    Client c{settings(true, 500000)}; Rand r{b};
    auto x = c.create(r, at(t), Client::Request{path(b + 64), {}, {}});
    auto y = c.create(r, at(t), Client::Request{path(b + 64), {}, {}});
    if (!x.is_ok() || !y.is_ok()) return;
    fw_prove("concurrent transactions have different handles", !(x.unwrap() == y.unwrap()));
    auto e = c.next(at(t)); auto f = c.next(at(t));
    const auto* s = std::get_if<Client::SendData>(&e); const auto* z = std::get_if<Client::SendData>(&f);
    fw_prove("requests are sent in the order of creation", s && z && s->handle == x.unwrap() && z->handle == y.unwrap());
    if (s && z) fw_prove("concurrent transactions have different transaction ids", !same<12>(s->message_view.data() + 8, z->message_view.data() + 8));
}
// the same random bytes twice: another id is drawn
FW_ENTRY void fw_e_clash(const uint8_t* b, int64_t t) {
    Client c{settings(true, 500000)};
    Rand r{b}; auto x = c.create(r, at(t), Client::Request{path(b + 64), {}, {}});
    for (unsigned i = 0; i < 12; ++i) const_cast<uint8_t*>(b)[100 + i] = b[i];
    fw_assume(!same<12>(b + 112, b));
    Rand q{b + 100}; auto y = c.create(q, at(t), Client::Request{path(b + 64), {}, {}});
    if (!x.is_ok() || !y.is_ok()) return;
    (void)c.next(at(t)); auto f = c.next(at(t));
    const auto* z = std::get_if<Client::SendData>(&f);
    fw_prove("an id in use is not drawn again", z && same<12>(z->message_view.data() + 8, b + 112));
}
