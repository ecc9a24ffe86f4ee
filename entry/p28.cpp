// Values outlive what they were made from: inputs are destroyed, then the results are used
#include <memory>
#include <optional>
#include "client.hpp"
#include "wire.hpp"
#include "crypto/crypto_hmac.hpp"
#include "net/net_fqdn.hpp"
#include "rtp/rtp_packet.hpp"
#include "stun/stun_server_stateless.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
using Bytes = std::vector<uint8_t>;
using Ext = ice::candidate::Supported::Extension;
// a buffer with n of the bytes at b
AI Bytes filled(const uint8_t* b, unsigned n) { Bytes v(n); for (unsigned i = 0; i < n; ++i) v[i] = b[i]; return v; }
AI std::string line(const char* s, unsigned n) { return std::string(s, n); }
AI bool all(const uint8_t* p, const uint8_t* b, unsigned n) { bool r = true; for (unsigned i = 0; i < n; ++i) r = r & (p[i] == b[i]); return r; }
AI bool all(const std::string& s, const uint8_t* b, unsigned n) { return s.size() == n && all((const uint8_t*)s.data(), b, n); }
AI bool all(View v, const uint8_t* b, unsigned n) { return v.size() == n && all(v.data(), b, n); }
// a message of a given buffer: header, then what the caller wants
struct Msg {
    Bytes d; unsigned n = 20;
    Msg(const uint8_t* b, unsigned len, uint16_t type, bool old = false) : d(filled(b, len)) {
        d[0] = type >> 8; d[1] = (uint8_t)type; d[2] = (len - 20) >> 8; d[3] = (uint8_t)(len - 20);
        if (!old) { d[4] = 0x21; d[5] = 0x12; d[6] = 0xA4; d[7] = 0x42; } else d[4] = 0;
    }
    void attr(uint16_t t, unsigned len) { d[n] = t >> 8; d[n + 1] = (uint8_t)t; d[n + 2] = len >> 8; d[n + 3] = (uint8_t)len; n += 4 + (len + 3) / 4 * 4; }
    View view() const { return View(d.data(), d.size()); }
};
AI Result<Message> given(std::optional<Msg>& m) { ParseStat st; auto r = Message::parse(m->view(), st); m.reset(); return r; }
AI const Message* parsed(const Result<Message>& r) { fw_prove("the message is accepted", r.is_ok()); return r.is_ok() ? &r.unwrap() : nullptr; }
// ---- STUN messages
template<unsigned N> AI void text(const uint8_t* b) {
    std::optional<Msg> m(std::in_place, b, 20 + 8 + 2 * (4 + (N + 3) / 4 * 4), 0x0001);
    m->attr(T_USERNAME, N); m->attr(T_SOFTWARE, N); m->attr(T_PRIORITY, 4);
    auto r = given(m); const auto* p = parsed(r);
    if (!p) return;
    fw_prove("the transaction id is read after what it was made from is gone", all(p->header.transaction_id.view(), b + 8, 12));
    const auto u = p->attribute_set.username(); const auto s = p->attribute_set.software();
    fw_prove("a text attribute is read after what it was made from is gone", u.is_some() && s.is_some() && all(u.unwrap().get().value, b + 24, N) && all(s.unwrap().get(), b + 28 + (N + 3) / 4 * 4, N));
}
FW_ENTRY void fw_e_text1(const uint8_t* b) { text<1>(b); }
FW_ENTRY void fw_e_text6(const uint8_t* b) { text<6>(b); }
FW_ENTRY void fw_e_text17(const uint8_t* b) { text<17>(b); }
FW_ENTRY void fw_e_text40(const uint8_t* b) { text<40>(b); }
template<unsigned N> AI void opaque(const uint8_t* b) {
    const unsigned pad = (N + 3) / 4 * 4;
    std::optional<Msg> m(std::in_place, b, 20 + 2 * (4 + pad), 0x0101);
    m->attr(0xC001, N); m->attr(0xC002, N);
    auto r = given(m); auto* p = parsed(r);
    if (!p) return;
    auto copy = std::make_unique<Message>(*p);
    for (unsigned round = 0; round < 2; ++round) {
        auto d = round ? copy->build() : p->build();
        fw_prove("a parsed message is built again after the datagram is gone", d.is_ok() && d.unwrap().size() == 20 + 2 * (4 + pad));
        if (d.is_ok() && d.unwrap().size() == 20 + 2 * (4 + pad)) fw_prove("the value of an unknown attribute is read after what it was made from is gone", all(d.unwrap().data() + 24, b + 24, N) && all(d.unwrap().data() + 28 + pad, b + 28 + pad, N));
        r = make_error_code(ParseError::invalid_message_size);      // the original is destroyed, the copy is left
    }
}
FW_ENTRY void fw_e_opaque1(const uint8_t* b) { opaque<1>(b); }
FW_ENTRY void fw_e_opaque8(const uint8_t* b) { opaque<8>(b); }
FW_ENTRY void fw_e_opaque21(const uint8_t* b) { opaque<21>(b); }
FW_ENTRY void fw_e_error(const uint8_t* b) {
    std::optional<Msg> m(std::in_place, b, 20 + 4 + 4 + 20 + 4 + 8, 0x0111);
    m->attr(T_ERROR, 24); m->attr(T_UNKNOWN, 8); m->d[24] = m->d[25] = 0; m->d[26] = 4; m->d[27] = 20;
    auto r = given(m); const auto* p = parsed(r);
    if (!p) return;
    const auto e = p->attribute_set.error_code(); const auto u = p->attribute_set.unknown_attributes();
    fw_prove("a reason phrase is read after what it was made from is gone", e.is_some() && e.unwrap().get().reason_phrase.is_some() && all(e.unwrap().get().reason_phrase.unwrap(), b + 28, 20));
    fw_prove("a list of attribute types is read after what it was made from is gone", u.is_some() && u.unwrap().get().types.size() == 4 && u.unwrap().get().types[3].value() == be16(b + 58));
}
FW_ENTRY void fw_e_integrity(const uint8_t* b) {
    std::optional<Msg> m(std::in_place, b, 44, 0x0001); m->attr(T_INTEGRITY, 20);
    auto r = given(m); const auto* p = parsed(r);
    if (!p) return;
    const auto i = p->attribute_set.integrity();
    fw_prove("a digest is read after what it was made from is gone", i.is_some() && all(i.unwrap().get().value.view(), b + 24, 20));
}
FW_ENTRY void fw_e_address(const uint8_t* b) {
    std::optional<Msg> m(std::in_place, b, 44, 0x0101); m->attr(T_XOR, 20); m->d[25] = 2;
    auto r = given(m); const auto* p = parsed(r);
    if (!p) return;
    const auto x = p->attribute_set.xor_mapped();
    fw_prove("an address is read after what it was made from is gone", x.is_some());
    if (!x.is_some()) return;
    const auto a = x.unwrap().get().addr.to_address(p->header.transaction_id);
    const auto v = a.view();
    bool same = v.size() == 16;
    const uint8_t key[4] = {0x21, 0x12, 0xA4, 0x42};
    for (unsigned i = 0; same && i < 16; ++i) same = v.data()[i] == (uint8_t)(b[28 + i] ^ (i < 4 ? key[i] : b[4 + i]));
    fw_prove("an address is read after what it was made from is gone", same);
}
// what is given to a message being built is no longer needed once it is built
FW_ENTRY void fw_e_built(const uint8_t* b) {
    Result<util::ByteVec> r = make_error_code(ParseError::invalid_message_size);
    {
        Bytes id = filled(b, 12), u = filled(b + 12, 5); const std::string s = line((const char*)b + 20, 20);
        std::vector<Val> v; v.emplace_back(SoftwareAttribute{s});
        std::vector<UnknownAttribute> uv; uv.emplace_back(AttributeType::from_uint16(0xC003), View(u.data(), 5));
        Message m{Header{Class::request(), Method::binding(), TransactionId(View(id.data(), 12))}, AttributeSet::create(std::move(v), std::move(uv)), IsRFC3489{false}, none()};
        { Bytes gone(std::move(u)); Bytes none_left(std::move(id)); }
        r = m.build();
    }
    fw_prove("built bytes are independent of their message", r.is_ok() && r.unwrap().size() == 56);
    if (r.is_ok() && r.unwrap().size() == 56) fw_prove("built bytes hold what the message held", all(r.unwrap().data() + 8, b, 12) && all(r.unwrap().data() + 24, b + 20, 20) && all(r.unwrap().data() + 48, b + 12, 5));
}
// ---- text
FW_ENTRY void fw_e_fqdn() {
    auto s = std::make_unique<std::string>("a-host.example-domain.org");
    auto r = net::Fqdn::from_string(*s); s.reset();
    fw_prove("a domain name is read after what it was made from is gone", r.is_ok() && r.unwrap().to_string().size() == 25);
    if (r.is_ok()) fw_reads(r.unwrap().to_string().data(), 25);
}
FW_ENTRY void fw_e_sdp(const uint8_t* b) {
    static const char L[] = "candidate:0123456789abcdefABCDEF/+ 1 UDP 2130706431 a-long-host.example.org 8998 typ srflx raddr related-host.example.net rport 4711 a-long-extension-name value-of-the-extension generation 0";
    auto s = std::make_unique<std::string>(L, sizeof L - 1);
    auto r = ice::candidate::parse_sdp_attr(*s); s.reset();
    const auto* p = r.is_ok() ? std::get_if<ice::candidate::Supported>(&r.unwrap()) : nullptr;
    fw_prove("the candidate line is accepted", p != nullptr);
    if (!p) return;
    const auto& c = p->candidate;
    const auto f = c.foundation.to_string();
    fw_prove("the foundation of a candidate is read after what it was made from is gone", f.size() == 24 && f[0] == '0' && f[23] == '+');
    const auto a = c.address.as_fqdn(); 
    fw_prove("the host of a candidate is read after what it was made from is gone", !a.is_some() || (a.unwrap().get().to_string().size() == 23 && a.unwrap().get().to_string()[22] == 'g'));
    const auto ra = c.maybe_related_address.is_some() ? c.maybe_related_address.unwrap().as_fqdn() : ice::candidate::Address::MaybeFqdnCRef(None{});
    fw_prove("the related host of a candidate is read after what it was made from is gone", !ra.is_some() || (ra.unwrap().get().to_string().size() == 24 && ra.unwrap().get().to_string()[23] == 't'));
    fw_prove("the extensions of a candidate is read after what it was made from is gone", p->extensions.size() == 2 && p->extensions[0].att_name.size() == 21 && p->extensions[0].att_name[20] == 'e' && p->extensions[0].att_value.size() == 22 && p->extensions[0].att_value[21] == 'n');
}
FW_ENTRY void fw_e_sdp_other() {
    static const char L[] = "candidate:1 1 a-transport-unknown-to-us 1 10.0.0.1 1 typ host";
    auto s = std::make_unique<std::string>(L, sizeof L - 1);
    auto r = ice::candidate::parse_sdp_attr(*s); s.reset();
    const auto* p = r.is_ok() ? std::get_if<ice::candidate::Unsupported>(&r.unwrap()) : nullptr;
    fw_prove("the line of an unsupported candidate is accepted", p != nullptr);
    if (p) fw_reads(p->value.data(), p->value.size());
}
// ---- keys
struct Gulp {
    const uint8_t* out;
    SHA1Hash::Result operator()(const std::vector<View>& vv) const {
        for (const auto& v : vv) fw_reads(v.data(), v.size());
        SHA1Hash::Value o; for (unsigned i = 0; i < 20; ++i) o[i] = out[i];
        return SHA1Hash(std::move(o));
    }
};
template<unsigned N> AI void key(const uint8_t* b, const uint8_t* out) {
    const SHA1Hash::Func h = Gulp{out};
    auto pw = std::make_unique<precis::OpaqueString>(precis::OpaqueString{line((const char*)b, N)});
    auto r = Password::short_term(*pw, h); pw.reset();
    fw_prove("a password is made", r.is_ok());
    if (!r.is_ok()) return;
    const auto v = r.unwrap().ipad().view();
    bool ok = v.size() == 64;
    for (unsigned i = 0; ok && i < 64; ++i) ok = v.data()[i] == (uint8_t)(0x36 ^ (N > 64 ? (i < 20 ? out[i] : 0) : (i < N ? b[i] : 0)));
    fw_prove("the key of a password is read after what it was made from is gone", ok);
}
FW_ENTRY void fw_e_key20(const uint8_t* b, const uint8_t* out) { key<20>(b, out); }
FW_ENTRY void fw_e_key80(const uint8_t* b, const uint8_t* out) { key<80>(b, out); }
FW_ENTRY void fw_e_digest(const uint8_t* b, const uint8_t* out) {
    const SHA1Hash::Func h = Gulp{out};
    auto d = std::make_unique<Bytes>(filled(b, 30)); auto k = std::make_unique<Bytes>(filled(b + 30, 20));
    auto o = crypto::hmac::OPadKey::from_key(View(k->data(), 20), h); auto i = crypto::hmac::IPadKey::from_key(View(k->data(), 20), h);
    k.reset();
    if (!o.is_ok() || !i.is_ok()) return;
    auto r = crypto::hmac::digest({View(d->data(), 30)}, o.unwrap(), i.unwrap(), h); d.reset();
    fw_prove("a digest is computed after its key bytes are gone", r.is_ok() && all(r.unwrap().value.view(), out, 20));
}
// ---- server
using Srv = server::Stateless;
FW_ENTRY void fw_e_server(const uint8_t* b, const uint8_t* a, const uint8_t* out) {
    fw_assume(b[4] == 0x21); fw_assume(b[5] == 0x12);
    auto s = std::make_unique<Srv>(Gulp{out}, Srv::Settings{});
    std::optional<Msg> m(std::in_place, b, 20 + 4 + 12, 0x0001); m->attr(0xC001, 9);
    auto r = s->process(net::Endpoint(net::UdpEndpoint{v4(a), net::Port::from_uint16(be16(a + 4))}), m->view());
    m.reset(); s.reset();
    const auto* p = std::get_if<Srv::Respond>(&r);
    fw_prove("a request is answered", p != nullptr);
    if (!p) return;
    fw_prove("a reply is read after what it was made from is gone", all(p->response.header.transaction_id.view(), b + 8, 12) && all(p->request.header.transaction_id.view(), b + 8, 12));
    auto d = p->response.build(p->maybe_integrity); auto q = p->request.build();
    fw_prove("a reply is built after datagram and server are gone", d.is_ok() && all(d.unwrap().data() + 8, b + 8, 12));
    fw_prove("the request of a reply is read after what it was made from is gone", q.is_ok() && q.unwrap().size() == 36 && all(q.unwrap().data() + 24, b + 24, 9));
}
// users are copied; what authenticates a reply does not depend on the server
FW_ENTRY void fw_e_user(const uint8_t* b, const uint8_t* a, const uint8_t* out) {
    auto s = std::make_unique<Srv>(Gulp{out}, Srv::Settings{});
    {
        auto name = std::make_unique<precis::OpaqueString>(precis::OpaqueString{line((const char*)b + 24, 20)});
        auto pw = Password::short_term(precis::OpaqueString{line((const char*)b, 20)}, Gulp{out});
        if (!pw.is_ok()) return;
        s->add_user(*name, pw.unwrap());
    }
    std::optional<Msg> m(std::in_place, b, 20 + 24 + 24, 0x0001); m->attr(T_USERNAME, 20); m->attr(T_INTEGRITY, 20);
    auto r = s->process(net::Endpoint(net::UdpEndpoint{v4(a), net::Port::from_uint16(be16(a + 4))}), m->view());
    m.reset(); s.reset();
    const auto* p = std::get_if<Srv::Respond>(&r);
    if (!p) return;
    auto d = p->response.build(p->maybe_integrity);
    fw_prove("a reply is authenticated after datagram and server are gone", d.is_ok());
    if (d.is_ok()) fw_reads(d.unwrap().data(), d.unwrap().size());
}
// ---- client
// the bytes to send stay as they are while the transaction lives, whatever happens to others
AI unsigned make(Client& c, Rand& r, int64_t t, const uint8_t* x) {
    auto h = c.create(r, at(t), Client::Request{path(x), {}, {}});
    return h.is_ok() ? h.unwrap().value : 99;
}
FW_ENTRY void fw_e_send(const uint8_t* b, const uint8_t* x, int64_t t) {
    Client c{Client::Settings{}}; Rand r{b};
    make(c, r, t, x);
    auto e = c.next(at(t)); const auto* s = std::get_if<Client::SendData>(&e);
    if (!s || s->message_view.size() != 28) return;
    make(c, r, t, x); make(c, r, t, x);
    fw_prove("the bytes to send stay valid while other transactions are created", all(View(s->message_view.data() + 8, 12), b, 12));
    auto f = c.next(at(t)); const auto* q = std::get_if<Client::SendData>(&f);
    fw_prove("the bytes to send stay valid while other requests are sent", all(View(s->message_view.data() + 8, 12), b, 12) && q && !(q->handle == s->handle));
}
FW_ENTRY void fw_e_request(const uint8_t* b, const uint8_t* x, int64_t t) {
    Client c{Client::Settings{}}; Rand r{b};
    {
        auto u = std::make_unique<Bytes>(filled(b + 64, 20)); auto s = std::make_unique<std::string>((const char*)b + 84, 20);
        std::vector<Val> v; v.emplace_back(SoftwareAttribute{*s});
        std::vector<UnknownAttribute> uv; uv.emplace_back(AttributeType::from_uint16(0xC003), View(u->data(), 20));
        auto p = std::make_unique<net::Path>(path(x));
        auto h = c.create(r, at(t), Client::Request{*p, std::move(v), std::move(uv)});
        if (!h.is_ok()) return;
    }
    auto e = c.next(at(t)); const auto* s = std::get_if<Client::SendData>(&e);
    fw_prove("a request is sent after what it was made of is gone", s && s->message_view.size() == 20 + 8 + 24 + 24);
    if (!s || s->message_view.size() != 76) return;
    const uint8_t* d = s->message_view.data();
    fw_prove("a request keeps what it was made of", all(View(d + 24, 20), b + 84, 20) && all(View(d + 48, 20), b + 64, 20));
}
// end a transaction with a reply whose bytes, and then whose client, are gone
template<typename F> AI void ended(const uint8_t* b, const uint8_t* x, int64_t t, unsigned len, bool ok, F&& fill, void (*check)(const uint8_t*, const Client::Effect&)) {
    auto c = std::make_unique<Client>(Client::Settings{}); Rand r{b};
    make(*c, r, t, x);
    if (!sends(c->next(at(t)))) return;
    Client::Effect e = Client::Idle{};
    {
        auto w = std::make_unique<Bytes>(filled(b + 64, len));
        Reply q(w->data()); fill(q);
        auto v = q.close(ok, b);
        const bool taken = c->response(at(t + 1), v).is_ok();
        fw_prove("the reply is accepted", taken);
        if (!taken) return;
    }
    e = c->next(at(t + 1)); c.reset();
    check(b, e);
}
FW_ENTRY void fw_e_success(const uint8_t* b, const uint8_t* x, int64_t t) {
    ended(b, x, t, 32 + 28, true, [](Reply& q) { q.address(T_MAPPED); q.attr(T_SOFTWARE, 21); }, [](const uint8_t* b, const Client::Effect& e) {
        const auto* o = std::get_if<Client::TransactionOk>(&e);
        fw_prove("the transaction succeeds", o != nullptr);
        if (!o) return;
        const auto s = o->response.attribute_set.software();
        fw_prove("the result of a transaction outlives reply and client", s.is_some() && all(s.unwrap().get(), b + 64 + 36, 21) && all(o->response.header.transaction_id.view(), b, 12));
        fw_prove("the address found by a transaction outlives reply and client", all(o->result.address.view(), b + 64 + 28, 4));
    });
}
FW_ENTRY void fw_e_failure(const uint8_t* b, const uint8_t* x, int64_t t) {
    ended(b, x, t, 20 + 4 + 4 + 20, false, [](Reply& q) { q.attr(T_ERROR, 24); q.w[24] = q.w[25] = 0; q.w[26] = 4; q.w[27] = 1; }, [](const uint8_t* b, const Client::Effect& e) {
        const auto* o = std::get_if<Failed>(&e);
        const auto* c = o ? std::get_if<Failed::ErrorCode>(&o->reason) : nullptr;
        fw_prove("the transaction fails", c != nullptr);
        if (c) fw_prove("the error of a transaction outlives reply and client", c->attr.reason_phrase.is_some() && all(c->attr.reason_phrase.unwrap(), b + 64 + 28, 20));
    });
}
FW_ENTRY void fw_e_unknown(const uint8_t* b, const uint8_t* x, int64_t t) {
    ended(b, x, t, 32 + 8, true, [](Reply& q) { q.address(T_MAPPED); q.attr(0x7F01, 3); }, [](const uint8_t* b, const Client::Effect& e) {
        const auto* o = std::get_if<Failed>(&e);
        const auto* c = o ? std::get_if<Failed::UnknownComprehensionRequiredAttribute>(&o->reason) : nullptr;
        fw_prove("the attribute types of a failed transaction outlive reply and client", c && c->attrs.size() == 1 && c->attrs[0].value() == 0x7F01);
    });
}
FW_ENTRY void fw_e_reported(const uint8_t* b, const uint8_t* x, int64_t t) {
    ended(b, x, t, 20 + 8 + 8, false, [](Reply& q) { q.error(4, 20); q.attr(T_UNKNOWN, 4); }, [](const uint8_t* b, const Client::Effect& e) {
        const auto* o = std::get_if<Failed>(&e);
        const auto* c = o ? std::get_if<Failed::UnknownAttributeReported>(&o->reason) : nullptr;
        fw_prove("the attribute types reported by a server outlive reply and client", c && c->attrs.size() == 2 && c->attrs[1].value() == be16(b + 64 + 34));
    });
}
// another transaction ends: the bytes of this one are untouched
FW_ENTRY void fw_e_beside(const uint8_t* b, const uint8_t* x, int64_t t) {
    Client c{Client::Settings{}}; Rand r{b}; r.end = 2 * 3;
    make(c, r, t, x);
    auto e = c.next(at(t)); const auto* s = std::get_if<Client::SendData>(&e);
    if (!s || s->message_view.size() != 28) return;
    make(c, r, t, x);
    if (!sends(c.next(at(t)))) return;
    {
        auto w = std::make_unique<Bytes>(filled(b + 64, 32)); Reply q(w->data()); q.address(T_MAPPED);
        if (c.response(at(t + 1), q.close(true, b + 12)).is_err()) return;
    }
    auto o = c.next(at(t + 1));
    fw_prove("the bytes to send stay valid while other transactions end", ends(o) && all(View(s->message_view.data() + 8, 12), b, 12));
}
// the bytes of a retransmission are those of the request, and stay valid as well
FW_ENTRY void fw_e_again(const uint8_t* b, const uint8_t* x, int64_t t, int64_t late) {
    fw_assume(0 <= late && late < 3600000000ll);
    Client c{Client::Settings{}}; Rand r{b}; r.end = 2 * 3;
    make(c, r, t, x);
    if (!sends(c.next(at(t)))) return;
    auto e = c.next(at(t + 500000 + late)); const auto* s = std::get_if<Client::SendData>(&e);
    if (!s || s->message_view.size() != 28) return;
    fw_prove("the bytes to send again are there", all(View(s->message_view.data() + 8, 12), b, 12));
    make(c, r, t, x);
    auto f = c.next(at(t + 500000 + late));
    fw_prove("the bytes to send again stay valid while other requests are sent", sends(f) && all(View(s->message_view.data() + 8, 12), b, 12));
}
