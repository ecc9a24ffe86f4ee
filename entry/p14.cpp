// Every transaction ends once: one final effect, under its own handle, and nothing after it
#include "client.hpp"
struct World {
    Client c; Rand rnd; const uint8_t* b; int64_t t0; unsigned hnd = 0; bool ok = false;
    World(const uint8_t* b_, int64_t t, const Client::Settings& s = {}) : c(s), rnd{b_}, b(b_), t0(t) {
        auto r = c.create(rnd, at(t), Client::Request{path(b + 64), {}, {}});
        if (!r.is_ok()) return;
        hnd = r.unwrap().value;
        ok = sends(c.next(at(t)));
    }
};
// is this the end of the transaction, and under its handle?
AI bool final_(const Client::Effect& e, unsigned h) {
    if (const auto* ok = std::get_if<Client::TransactionOk>(&e)) return ok->handle.value == h;
    if (const auto* f = std::get_if<Failed>(&e)) return f->handle.value == h;
    return false;
}
// after the answer: exactly one final effect, then silence for good
AI void over(World& w, View v, int64_t t1, int64_t late) {
    fw_prove("an answer is accepted", w.c.response(at(t1), v).is_ok());
    fw_prove("a second answer before the effect is taken is refused", is(w.c.response(at(t1), v), ClientError::transaction_not_found));
    fw_prove("an answered transaction yields its final effect, even after its timeout", final_(w.c.next(at(late)), w.hnd));
    fw_prove("an answer after the end is refused", is(w.c.response(at(late), v), ClientError::transaction_not_found));
    fw_prove("a finished transaction yields nothing more", quiet(w.c.next(at(late))));
    fw_prove("a finished transaction never wakes up again", quiet(w.c.next(at(late + 40000000))));
    fw_prove("a client without transactions idles", std::holds_alternative<Client::Idle>(w.c.next(at(late + 80000000))));
}
#define T0 fw_assume(0 <= d && d < 500000 && 0 <= k && k < 3600000000ll)
#define OVER(NAME, OKCLS, BODY) FW_ENTRY void fw_e_o_##NAME(const uint8_t* b, const uint8_t* x, int64_t t, int64_t d, int64_t k) { \
    T0; World w(b, t); if (!w.ok) return; Reply r(x); BODY; over(w, r.close(OKCLS, b), t + d, t + d + k); }
OVER(xor, true, r.address(T_XOR))
OVER(mapped, true, r.address(T_MAPPED))
OVER(noaddr, true, )
OVER(unknown_ok, true, r.address(T_XOR); r.attr(0x7F00, 0))
OVER(unknown_err, false, r.error(4, 0); r.attr(0x7F00, 0))
OVER(nocode, false, )
OVER(alt, false, r.error(3, 0); r.address(T_ALTERNATE))
OVER(noalt, false, r.error(3, 0))
OVER(e3, false, r.error(3, 7))
OVER(e4, false, r.error(4, 1))
OVER(e420, false, r.error(4, 20); r.attr(T_UNKNOWN, 4))
OVER(e5, false, r.error(5, 0))
// a response of an unexpected kind does not end it
AI void still(World& w, View v, int64_t t1) {
    (void)w.c.response(at(t1), v);
    fw_prove("requests, indications and unexpected codes end nothing", quiet(w.c.next(at(t1))));
    uint8_t x[64]; Reply r(x); r.address(T_XOR);
    fw_prove("the transaction still accepts its answer", w.c.response(at(t1), r.close(true, w.b)).is_ok());
    fw_prove("and ends with it", final_(w.c.next(at(t1)), w.hnd));
}
FW_ENTRY void fw_e_s_request(const uint8_t* b, const uint8_t* x, int64_t t, int64_t d) { fw_assume(0 <= d && d < 500000); World w(b, t); if (!w.ok) return; Reply r(x); r.close(true, b); r.w[0] = 0; still(w, View(r.w, r.n), t + d); }
FW_ENTRY void fw_e_s_indication(const uint8_t* b, const uint8_t* x, int64_t t, int64_t d) { fw_assume(0 <= d && d < 500000); World w(b, t); if (!w.ok) return; Reply r(x); r.close(true, b); r.w[0] = 0; r.w[1] = 0x11; still(w, View(r.w, r.n), t + d); }
template<uint8_t C> AI void code(const uint8_t* b, const uint8_t* x, int64_t t, int64_t d) { fw_assume(0 <= d && d < 500000); World w(b, t); if (!w.ok) return; Reply r(x); fw_assume(x[101] < 100); r.error(C, x[101]); still(w, r.close(false, b), t + d); }
#define CODE(C) FW_ENTRY void fw_e_s_code##C(const uint8_t* b, const uint8_t* x, int64_t t, int64_t d) { code<C>(b, x, t, d); }
CODE(0) CODE(1) CODE(2) CODE(6) CODE(7)
FW_ENTRY void fw_e_s_garbage(const uint8_t* b, const uint8_t* x, size_t n, int64_t t, int64_t d) { fw_assume(0 <= d && d < 500000 && n < 20); World w(b, t); if (!w.ok) return; still(w, View(x, n), t + d); }
// a response that belongs to no transaction
FW_ENTRY void fw_e_s_other(const uint8_t* b, const uint8_t* x, int64_t t, int64_t d) {
    fw_assume(0 <= d && d < 500000 && !same<12>(b, b + 120));
    World w(b, t); if (!w.ok) return;
    Reply r(x); r.address(T_XOR);
    fw_prove("a response with another id is refused", is(w.c.response(at(t + d), r.close(true, b + 120)), ClientError::transaction_not_found));
    still(w, View(r.w, 0), t + d);
}
// timeout: after the last wait, once
FW_ENTRY void fw_e_timeout(const uint8_t* b, const uint8_t* x, int64_t t, int64_t k) {
    fw_assume(0 <= k && k < 3600000000ll);
    Client::Settings s; s.retransmit = Client::Settings::RetransmitDefault{.max_rto = none(), .request_count = 2, .retransmission_multiplier = 4};
    World w(b, t, s); if (!w.ok) return;
    fw_prove("an unanswered request is sent again", sends(w.c.next(at(t + 500000))));
    const int64_t end = t + 500000 + 2000000 + k;
    auto e = w.c.next(at(end));
    const auto* f = std::get_if<Failed>(&e);
    fw_prove("an unanswered transaction fails with a timeout", f && f->handle.value == w.hnd && std::holds_alternative<Failed::Timeout>(f->reason));
    fw_prove("a timed-out transaction yields nothing more", std::holds_alternative<Client::Idle>(w.c.next(at(end + 3600000000ll))));
    Reply r(x); r.address(T_XOR);
    fw_prove("an answer after the timeout is refused", is(w.c.response(at(end), r.close(true, b)), ClientError::transaction_not_found));
    fw_prove("and has no effect", std::holds_alternative<Client::Idle>(w.c.next(at(end))));
}
// answer and timeout race: whichever comes first ends it, the other has no effect
FW_ENTRY void fw_e_race(const uint8_t* b, const uint8_t* x, int64_t t) {
    Client::Settings s; s.retransmit = Client::Settings::RetransmitDefault{.max_rto = none(), .request_count = 1, .retransmission_multiplier = 4};
    World w(b, t, s); if (!w.ok) return;
    Reply r(x); r.address(T_XOR); const View v = r.close(true, b);
    if (x[200] & 1) {
        fw_prove("an answer before the timeout is taken wins", w.c.response(at(t + 3000000), v).is_ok());
        auto e = w.c.next(at(t + 3000000));
        fw_prove("and completes the transaction", std::holds_alternative<Client::TransactionOk>(e) && final_(e, w.hnd));
    } else {
        auto e = w.c.next(at(t + 3000000));
        fw_prove("without an answer it fails", std::holds_alternative<Failed>(e) && final_(e, w.hnd));
        fw_prove("then the answer is refused", is(w.c.response(at(t + 3000000), v), ClientError::transaction_not_found));
    }
    fw_prove("and nothing else happens", std::holds_alternative<Client::Idle>(w.c.next(at(t + 9000000))));
}
// two transactions end independently, in either order
FW_ENTRY void fw_e_two(const uint8_t* b, const uint8_t* x, const uint8_t* y, int64_t t, bool swap, bool fail) {
    Client c{Client::Settings{}}; Rand rnd{b};
    fw_assume(!same<12>(b, b + 12));
    auto p = c.create(rnd, at(t), Client::Request{path(b + 64), {}, {}});
    auto q = c.create(rnd, at(t), Client::Request{path(b + 72), {}, {}});
    if (!p.is_ok() || !q.is_ok()) return;
    (void)c.next(at(t)); (void)c.next(at(t));
    const uint8_t* ta = swap ? b + 12 : b; const uint8_t* tb = swap ? b : b + 12;
    const auto ha = swap ? q.unwrap() : p.unwrap(); const auto hb = swap ? p.unwrap() : q.unwrap();
    Reply r(x); if (fail) r.error(4, 0); else r.address(T_XOR);
    fw_prove("an answer is accepted", c.response(at(t), r.close(!fail, ta)).is_ok());
    Reply g(y); g.address(T_XOR);
    fw_prove("an answer is accepted", c.response(at(t), g.close(true, tb)).is_ok());
    fw_prove("each transaction ends under its own handle", final_(c.next(at(t)), ha.value));
    auto e = c.next(at(t));
    fw_prove("each transaction ends under its own handle", final_(e, hb.value) && std::holds_alternative<Client::TransactionOk>(e));
    fw_prove("two transactions have two ends", quiet(c.next(at(t + 100000000))));
    fw_prove("a client without transactions idles", std::holds_alternative<Client::Idle>(c.next(at(t + 100000000))));
}
// one ends, the other goes on
FW_ENTRY void fw_e_survivor(const uint8_t* b, const uint8_t* x, int64_t t, bool swap) {
    Client c{Client::Settings{}}; Rand rnd{b};
    fw_assume(!same<12>(b, b + 12));
    auto p = c.create(rnd, at(t), Client::Request{path(b + 64), {}, {}});
    auto q = c.create(rnd, at(t), Client::Request{path(b + 72), {}, {}});
    if (!p.is_ok() || !q.is_ok()) return;
    (void)c.next(at(t)); (void)c.next(at(t));
    Reply r(x); r.address(T_XOR);
    (void)c.response(at(t), r.close(true, swap ? b + 12 : b));
    (void)c.next(at(t));
    const auto left = swap ? p.unwrap() : q.unwrap();
    auto e = c.next(at(t + 500000));
    const auto* s = std::get_if<Client::SendData>(&e);
    fw_prove("the other transaction goes on under its own handle and id", s && s->handle == left && same<12>(s->message_view.data() + 8, swap ? b : b + 12));
    fw_prove("only the other transaction goes on", quiet(c.next(at(t + 500000))));
}
// identity is free again after the end, with a new handle
FW_ENTRY void fw_e_again(const uint8_t* b, const uint8_t* x, int64_t t) {
    World w(b, t); if (!w.ok) return;
    Reply r(x); r.address(T_XOR);
    (void)w.c.response(at(t + 400000), r.close(true, b)); (void)w.c.next(at(t + 400000)); t += 450000;
    Rand rnd{b};
    auto h = w.c.create(rnd, at(t), Client::Request{path(b + 64), {}, {}});
    fw_prove("an id may be used again after the end", h.is_ok() && rnd.i == 3);
    if (!h.is_ok()) return;
    (void)w.c.next(at(t));
    // the wake-up left behind by the finished one must not touch it
    fw_prove("the new transaction is sent again only when due", [&] { auto e = w.c.next(at(t + 1200000)); const auto* s = std::get_if<Client::SendData>(&e); return s && s->handle == h.unwrap(); }());
    fw_prove("and only once", quiet(w.c.next(at(t + 1200000))));
    fw_prove("the same answer ends the new one", w.c.response(at(t + 1200000), View(r.w, r.n)).is_ok() && final_(w.c.next(at(t + 1200000)), h.unwrap().value));
}
