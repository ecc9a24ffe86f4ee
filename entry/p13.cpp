// Authenticated transactions: nothing but an authentic response has any effect
#include "client.hpp"
enum Kind { Success, ErrorAny, Alternate, NotAlternate };
template<Kind K> AI View reply(Reply& r, bool sign, const uint8_t* tid) {
    if (K == Success) r.address(T_XOR);
    else {
        r.error(K == ErrorAny ? r.w[200] & 7 : 3, K == Alternate ? 0 : r.w[201]);
        if (K == Alternate || K == NotAlternate) r.address(T_ALTERNATE);
    }
    if (sign) r.sign();
    return r.close(K == Success, tid);
}
struct World {
    Mac mac; Client c; Rand rnd; int64_t t0; const uint8_t* b; unsigned hnd = 0; bool ok = false;
    World(const uint8_t* b_, const uint8_t* out, int64_t t, const Client::Settings& s) : c(s), rnd{b_}, t0(t), b(b_) {
        mac.out = out;
        SHA1Hash::Func h = MacFn{&mac};
        auto pw = Password::short_term(precis::OpaqueString{std::string("pw")}, h);
        if (!pw.is_ok()) return;
        Client::Request rq{path(b + 64), {}, {}, Client::Auth{precis::OpaqueString{std::string("u")}, IntegrityData{pw.unwrap(), h}}};
        auto r = c.create(rnd, at(t), std::move(rq));
        if (!r.is_ok()) return;
        hnd = r.unwrap().value;
        auto e = c.next(at(t));
        ok = sends(e);
        mac.calls = 0; mac.failed[0] = mac.failed[1] = false;
    }
};
AI Client::Settings settings(bool allow) { Client::Settings s; s.allow_unauthenticated_alternate = allow; return s; }
template<Kind K, bool Pre> AI MaybeError deliver(World& w, View v, int64_t t) {
    if (!Pre) return w.c.response(at(t), v);
    ParseStat st;
    auto m = Message::parse(v, st);
    fw_prove("the response parses", m.is_ok());
    if (!m.is_ok()) return stun::make_error_code(ParseError::invalid_message_size);
    return w.c.response(at(t), v, std::move(m.unwrap()));
}
template<Kind K, bool Pre> AI void signed_(const uint8_t* b, const uint8_t* out, const uint8_t* wire, int64_t t0, int64_t d, bool allow) {
    fw_assume(0 <= d && d < 400000);
    World w(b, out, t0, settings(allow));
    if (!w.ok) return;
    w.mac.out = out + 40;
    Reply r(wire);
    const View v = reply<K>(r, true, b);
    const MaybeError e = deliver<K, Pre>(w, v, t0 + d);
    const bool good = !w.mac.failed[0] && !w.mac.failed[1] && w.mac.calls == 2 && same<20>(wire + r.mi + 4, out + 60);
    fw_prove("the digest of a response to an authenticated request is checked", w.mac.calls == 2 || w.mac.failed[0]);
    fw_prove("an authenticated transaction accepts a response exactly when its digest is right", e.is_ok() == good);
    if (e.is_err() && !w.mac.failed[0] && !w.mac.failed[1]) fw_prove("a wrong digest is reported as such", is(e, ClientError::digest_is_not_valid));
    const auto n = w.c.next(at(t0 + d));
    if (e.is_err()) {
        const auto* s = std::get_if<Client::Sleep>(&n);
        fw_prove("a refused response changes nothing", s != nullptr && s->sleep == us(500000) - us(d));
    } else fw_prove("an authentic response has its effect", K == ErrorAny ? ends(n) || quiet(n) : ends(n));
}
template<Kind K, bool Pre> AI void unsigned_(const uint8_t* b, const uint8_t* out, const uint8_t* wire, int64_t t0, int64_t d, bool allow) {
    fw_assume(0 <= d && d < 400000);
    World w(b, out, t0, settings(allow));
    if (!w.ok) return;
    Reply r(wire);
    const View v = reply<K>(r, false, b);
    const MaybeError e = deliver<K, Pre>(w, v, t0 + d);
    fw_prove("an unsigned response is not hashed", w.mac.calls == 0);
    if (K == Success) fw_prove("an unsigned success response is refused", is(e, ClientError::no_integrity_attribute_in_response));
    else if (K == Alternate) fw_prove("an unsigned alternate-server response is accepted only when allowed", allow ? e.is_ok() : is(e, ClientError::no_integrity_attribute_in_response));
    else {
        const unsigned code = (K == ErrorAny ? (wire[200] & 7) : 3) * 100 + wire[201];
        if (!(allow && code == 300)) fw_prove("an unsigned error response is refused unless it is an allowed 300", is(e, ClientError::no_integrity_attribute_in_response));
    }
    const auto n = w.c.next(at(t0 + d));
    if (e.is_err()) {
        const auto* s = std::get_if<Client::Sleep>(&n);
        fw_prove("a refused response changes nothing", s != nullptr && s->sleep == us(500000) - us(d));
    } else fw_prove("an accepted alternate-server response ends the transaction", ends(n));
}
#define BOTH(NAME, K) \
    FW_ENTRY void fw_e_sig_##NAME(const uint8_t* b, const uint8_t* out, const uint8_t* w, int64_t t, int64_t d, bool allow) { signed_<K, false>(b, out, w, t, d, allow); } \
    FW_ENTRY void fw_e_uns_##NAME(const uint8_t* b, const uint8_t* out, const uint8_t* w, int64_t t, int64_t d, bool allow) { unsigned_<K, false>(b, out, w, t, d, allow); } \
    FW_ENTRY void fw_e_psig_##NAME(const uint8_t* b, const uint8_t* out, const uint8_t* w, int64_t t, int64_t d, bool allow) { signed_<K, true>(b, out, w, t, d, allow); } \
    FW_ENTRY void fw_e_puns_##NAME(const uint8_t* b, const uint8_t* out, const uint8_t* w, int64_t t, int64_t d, bool allow) { unsigned_<K, true>(b, out, w, t, d, allow); }
BOTH(ok, Success) BOTH(any, ErrorAny) BOTH(alt, Alternate) BOTH(near, NotAlternate)
// a forgery does not end the transaction: the authentic response still does
FW_ENTRY void fw_e_after_forgery(const uint8_t* b, const uint8_t* out, const uint8_t* w1, const uint8_t* w2, int64_t t0) {
    World w(b, out, t0, settings(false));
    if (!w.ok) return;
    w.mac.out = out + 40;
    Reply r(w1); r.address(T_XOR); r.sign();
    const MaybeError e = w.c.response(at(t0), r.close(true, b));
    if (e.is_ok()) return;
    w.mac.calls = 0; w.mac.failed[0] = w.mac.failed[1] = false; w.mac.out = out + 80;
    Reply g(w2); g.address(T_XOR); g.sign();
    const MaybeError f = w.c.response(at(t0), g.close(true, b));
    if (w.mac.failed[0] || w.mac.failed[1]) return;
    fw_prove("after a forgery the authentic response is accepted", f.is_ok() == same<20>(w2 + g.mi + 4, out + 100));
    const auto n = w.c.next(at(t0));
    if (f.is_ok()) fw_prove("after a forgery the authentic response completes the transaction", std::holds_alternative<Client::TransactionOk>(n));
}
// a transaction without authentication asks for none
FW_ENTRY void fw_e_open(const uint8_t* b, const uint8_t* w, int64_t t0) {
    Client c{Client::Settings{}}; Rand rnd{b};
    auto h = c.create(rnd, at(t0), Client::Request{path(b + 64), {}, {}});
    if (!h.is_ok() || !sends(c.next(at(t0)))) return;
    Reply r(w); r.address(T_XOR);
    fw_prove("a transaction without credentials accepts unsigned responses", c.response(at(t0), r.close(true, b)).is_ok());
    fw_prove("a transaction without credentials completes", std::holds_alternative<Client::TransactionOk>(c.next(at(t0))));
}
