// Retransmission: when the request is sent again, how often, and when the client gives up
#include "client.hpp"
#define RTO fw_assume(0 < rto && rto < 3600000000ll)
#define LATE(d) fw_assume(0 <= d && d < 3600000000ll)
#define SPAN(d, m) fw_assume(0 < d && d < m)
using Rd = Client::Settings::RetransmitDefault;
AI Client::Settings settings(Rd rd, int64_t rto) { Client::Settings s; s.retransmit = rd; s.rto_settings.initial_rto = us(rto); return s; }
AI bool sleeps(const Client::Effect& e, int64_t d) { const auto* s = std::get_if<Client::Sleep>(&e); return s && s->sleep == us(d); }
AI bool same_request(const Client::Effect& e, unsigned h, const uint8_t* tid) { const auto* s = std::get_if<Client::SendData>(&e); return s && s->handle.value == h && s->message_view.size() == 28 && same<12>(s->message_view.data() + 8, tid); }
// request_count Rc, multiplier Rm: the client is polled `late` after each deadline and once just before it
template<unsigned Rc, unsigned Rm> AI void schedule(const uint8_t* b, int64_t t, int64_t rto, int64_t late, int64_t early) {
    RTO; LATE(late); fw_assume(0 < early && early <= rto);
    Client c{settings(Rd{.max_rto = none(), .request_count = Rc, .retransmission_multiplier = Rm}, rto)}; Rand r{b};
    auto h = c.create(r, at(t), Client::Request{path(b + 64), {}, {}});
    if (!h.is_ok() || !sends(c.next(at(t)))) return;
    int64_t wait = rto, now = t;
    for (unsigned sent = 1; sent < Rc; ++sent) {
        fw_prove("before its timeout a request is not sent again", sleeps(c.next(at(now + wait - early)), early));
        now += wait + late;
        fw_prove("at its timeout the same request is sent again", same_request(c.next(at(now)), h.unwrap().value, b));
        wait = sent + 1 == Rc ? rto * Rm : wait * 2;
        fw_prove("timeouts double, and the last is Rm times the first", sleeps(c.next(at(now)), wait));
    }
    fw_prove("before the last timeout the transaction is alive", sleeps(c.next(at(now + wait - early)), early));
    auto e = c.next(at(now + wait + late));
    const auto* f = std::get_if<Failed>(&e);
    fw_prove("after Rc requests and the last timeout the transaction fails", f && f->handle == h.unwrap() && std::holds_alternative<Failed::Timeout>(f->reason));
    fw_prove("a failed transaction sends nothing", std::holds_alternative<Client::Idle>(c.next(at(now + wait + late))));
}
#define SCHED(RC, RM) FW_ENTRY void fw_e_rc##RC##_##RM(const uint8_t* b, int64_t t, int64_t rto, int64_t late, int64_t early) { schedule<RC, RM>(b, t, rto, late, early); }
SCHED(2, 16) SCHED(3, 8) SCHED(4, 16) SCHED(7, 16) SCHED(5, 1)
// the defaults are those of the RFC
FW_ENTRY void fw_e_default(const uint8_t* b, int64_t t) {
    Client c{Client::Settings{}}; Rand r{b};
    auto h = c.create(r, at(t), Client::Request{path(b + 64), {}, {}});
    if (!h.is_ok() || !sends(c.next(at(t)))) return;
    static const int64_t due[6] = {500000, 1500000, 3500000, 7500000, 15500000, 31500000};
    for (int64_t d : due) {
        fw_prove("by default requests are sent at 0, 0.5, 1.5, 3.5, 7.5, 15.5 and 31.5 seconds", quiet(c.next(at(t + d - 1))) && sends(c.next(at(t + d))));
    }
    fw_prove("by default the transaction fails at 39.5 seconds", quiet(c.next(at(t + 39499999))) && std::holds_alternative<Failed>(c.next(at(t + 39500000))));
}
// max_rto caps every later timeout
FW_ENTRY void fw_e_cap(const uint8_t* b, int64_t t, int64_t rto, int64_t cap) {
    RTO; fw_assume(rto <= cap && cap < 7200000000ll);
    Client c{settings(Rd{.max_rto = us(cap), .request_count = 4, .retransmission_multiplier = 16}, rto)}; Rand r{b};
    auto h = c.create(r, at(t), Client::Request{path(b + 64), {}, {}});
    if (!h.is_ok() || !sends(c.next(at(t)))) return;
    int64_t wait = rto, now = t;
    for (unsigned sent = 1; sent < 4; ++sent) {
        now += wait;
        fw_prove("at its timeout the request is sent again", sends(c.next(at(now))));
        const int64_t full = sent == 3 ? rto * 16 : wait * 2;
        auto e = c.next(at(now));
        const auto* z = std::get_if<Client::Sleep>(&e);
        fw_prove("the client waits for the next timeout", z != nullptr);
        if (!z) return;
        fw_prove("a timeout above max_rto is cut to max_rto, any other is kept", z->sleep == us(full) ? full <= cap : z->sleep == us(cap) && cap <= full);
        wait = z->sleep == us(full) ? full : cap;
    }
    fw_prove("after the capped last timeout the transaction fails", std::holds_alternative<Failed>(c.next(at(now + wait))));
}
// 5xx: tried again after its own timeout, a limited number of times
template<unsigned Max> AI void retry5(const uint8_t* b, const uint8_t* x, int64_t t, int64_t d, int64_t wait) {
    fw_assume(0 <= d && d < 500000 && 0 < wait && wait < 3600000000ll && x[200] < 100);
    Client c{settings(Rd{.server_error_timeout = us(wait), .server_error_max_retransmits = Max}, 500000)}; Rand r{b};
    auto h = c.create(r, at(t), Client::Request{path(b + 64), {}, {}});
    if (!h.is_ok() || !sends(c.next(at(t)))) return;
    int64_t now = t + d;
    for (unsigned i = 0; i < Max; ++i) {
        Reply g(x); g.error(5, x[200]);
        fw_prove("a 5xx response is accepted", c.response(at(now), g.close(false, b)).is_ok());
        fw_prove("a 5xx response to be retried ends nothing", quiet(c.next(at(now))));
        fw_prove("before server_error_timeout the request is not sent again", quiet(c.next(at(now + wait - 1))));
        now += wait;
        fw_prove("after server_error_timeout the same request is sent again", same_request(c.next(at(now)), h.unwrap().value, b));
        fw_prove("once", quiet(c.next(at(now))));
    }
    Reply g(x); g.error(5, x[200]);
    fw_prove("a 5xx response is accepted", c.response(at(now), g.close(false, b)).is_ok());
    auto e = c.next(at(now));
    const auto* f = std::get_if<Failed>(&e);
    fw_prove("after server_error_max_retransmits retries a 5xx response is final", f && std::holds_alternative<Failed::ErrorCode>(f->reason) && std::get<Failed::ErrorCode>(f->reason).attr.code == 500 + x[200]);
}
#define FIVE(M) FW_ENTRY void fw_e_five##M(const uint8_t* b, const uint8_t* x, int64_t t, int64_t d, int64_t wait) { retry5<M>(b, x, t, d, wait); }
FIVE(0) FIVE(1) FIVE(2) FIVE(3)
// a 5xx retry is not counted as one of the Rc requests
FW_ENTRY void fw_e_five_rc(const uint8_t* b, const uint8_t* x, int64_t t, int64_t d, int64_t wait) {
    fw_assume(0 <= d && d < 500000 && 0 < wait && wait < 3600000000ll);
    Client c{settings(Rd{.request_count = 2, .retransmission_multiplier = 4, .server_error_timeout = us(wait)}, 500000)}; Rand r{b};
    auto h = c.create(r, at(t), Client::Request{path(b + 64), {}, {}});
    if (!h.is_ok() || !sends(c.next(at(t)))) return;
    Reply g(x); g.error(5, 0);
    (void)c.response(at(t + d), g.close(false, b));
    int64_t now = t + d + wait;
    fw_prove("after server_error_timeout the request is sent again", sends(c.next(at(now))));
    now += 1000000;
    fw_prove("a 5xx retry leaves the number of requests that may go unanswered", sends(c.next(at(now))));
    fw_prove("and then the transaction fails", quiet(c.next(at(now + 1999999))) && std::holds_alternative<Failed>(c.next(at(now + 2000000))));
}
// several transactions keep their own schedules
FW_ENTRY void fw_e_two(const uint8_t* b, int64_t t, int64_t d) {
    fw_assume(0 < d && d < 500000 && !same<12>(b, b + 12));
    Client c{Client::Settings{}}; Rand r{b};
    auto p = c.create(r, at(t), Client::Request{path(b + 64), {}, {}});
    if (!p.is_ok() || !sends(c.next(at(t)))) return;
    auto q = c.create(r, at(t + d), Client::Request{path(b + 72), {}, {}});
    if (!q.is_ok() || !sends(c.next(at(t + d)))) return;
    fw_prove("the client sleeps until the earliest timeout", sleeps(c.next(at(t + d)), 500000 - d));
    fw_prove("the first due is sent first", same_request(c.next(at(t + 500000)), p.unwrap().value, b));
    fw_prove("the client sleeps until the earliest timeout", sleeps(c.next(at(t + 500000)), d));
    fw_prove("the other one is sent when it is due", same_request(c.next(at(t + 500000 + d)), q.unwrap().value, b + 12));
    fw_prove("each keeps its own timeout", sleeps(c.next(at(t + 500000 + d)), 1000000 - d));
}
// polled late, with the timers of several transactions behind: everything that is due is done before the client sleeps
#define WITHOUT "what is due is done before the client sleeps"
FW_ENTRY void fw_e_two_late(const uint8_t* b, int64_t t, int64_t d, int64_t late) {
    fw_assume(!same<12>(b, b + 12)); SPAN(d, 500000); LATE(late);
    Client c{Client::Settings{}}; Rand r{b};
    auto p = c.create(r, at(t), Client::Request{path(b + 64), {}, {}});
    if (!p.is_ok() || !sends(c.next(at(t)))) return;
    auto q = c.create(r, at(t + d), Client::Request{path(b + 72), {}, {}});
    if (!q.is_ok() || !sends(c.next(at(t + d)))) return;
    const int64_t now = t + d + 500000 + late;
    fw_prove(WITHOUT, same_request(c.next(at(now)), p.unwrap().value, b));
    fw_prove(WITHOUT, same_request(c.next(at(now)), q.unwrap().value, b + 12));
    fw_prove("a late retransmission starts its timeout when it is sent", sleeps(c.next(at(now)), 1000000));
}
FW_ENTRY void fw_e_stale(const uint8_t* b, const uint8_t* x, int64_t t, int64_t d, int64_t a, int64_t n) {
    fw_assume(!same<12>(b, b + 12)); SPAN(d, 500000); SPAN(a, 500000); LATE(n); fw_assume(d <= a); fw_assume(d + 500000 <= n);
    Client c{Client::Settings{}}; Rand r{b};
    auto p = c.create(r, at(t), Client::Request{path(b + 64), {}, {}});
    if (!p.is_ok() || !sends(c.next(at(t)))) return;
    auto q = c.create(r, at(t + d), Client::Request{path(b + 72), {}, {}});
    if (!q.is_ok() || !sends(c.next(at(t + d)))) return;
    Reply g(x); g.address(T_XOR);
    if (!c.response(at(t + a), g.close(true, b)).is_ok() || !ends(c.next(at(t + a)))) return;
    const int64_t now = t + n;
    fw_prove(WITHOUT, same_request(c.next(at(now)), q.unwrap().value, b + 12));
    fw_prove("a late retransmission starts its timeout when it is sent", sleeps(c.next(at(now)), 1000000));
}
FW_ENTRY void fw_e_stale5xx(const uint8_t* b, const uint8_t* x, int64_t t, int64_t d, int64_t a, int64_t n, int64_t until) {
    fw_assume(!same<12>(b, b + 12)); SPAN(d, 500000); SPAN(a, 500000); LATE(n); LATE(until);
    fw_assume(d <= a); fw_assume(d + 500000 <= n); fw_assume(n < until);
    Client c{settings(Rd{.server_error_timeout = us(until - a)}, 500000)}; Rand r{b};
    auto p = c.create(r, at(t), Client::Request{path(b + 64), {}, {}});
    if (!p.is_ok() || !sends(c.next(at(t)))) return;
    auto q = c.create(r, at(t + d), Client::Request{path(b + 72), {}, {}});
    if (!q.is_ok() || !sends(c.next(at(t + d)))) return;
    Reply g(x); g.error(5, 0);
    if (!c.response(at(t + a), g.close(false, b)).is_ok()) return;
    const int64_t now = t + n;
    fw_prove(WITHOUT, same_request(c.next(at(now)), q.unwrap().value, b + 12));
    fw_prove("a retransmission put off by a 5xx response is not sent before", quiet(c.next(at(now))));
}
FW_ENTRY void fw_e_two_fail(const uint8_t* b, int64_t t, int64_t d, int64_t late) {
    fw_assume(!same<12>(b, b + 12)); SPAN(d, 500000); LATE(late);
    Client c{settings(Rd{.request_count = 2, .retransmission_multiplier = 1}, 500000)}; Rand r{b};
    auto p = c.create(r, at(t), Client::Request{path(b + 64), {}, {}});
    if (!p.is_ok() || !sends(c.next(at(t)))) return;
    auto q = c.create(r, at(t + d), Client::Request{path(b + 72), {}, {}});
    if (!q.is_ok() || !sends(c.next(at(t + d)))) return;
    if (!sends(c.next(at(t + d + 500000))) || !sends(c.next(at(t + d + 500000)))) return;
    const int64_t now = t + d + 1000000 + late;
    auto e = c.next(at(now)), f = c.next(at(now));
    const auto* e1 = std::get_if<Failed>(&e); const auto* f1 = std::get_if<Failed>(&f);
    fw_prove("transactions that time out together all fail", e1 && f1 && ((e1->handle == p.unwrap() && f1->handle == q.unwrap()) || (e1->handle == q.unwrap() && f1->handle == p.unwrap())));
    fw_prove("a failed transaction sends nothing", std::holds_alternative<Client::Idle>(c.next(at(now))));
}
