// Retransmission timeout estimation per network path
#include "client.hpp"
#include "stun/details/stun_client_udp_rto.hpp"
using Rto = details::ClientUDPRtoCalculator;
constexpr int64_t HOUR = 3600000000ll;
AI Rto::Settings settings(int64_t rto, int64_t keep) { Rto::Settings s; s.initial_rto = us(rto); s.history_duration = us(keep); return s; }
#define D(X) fw_assume(0 <= X && X < HOUR)
#define OTHER fw_assume(!same<8>(b, b + 8))
AI bool is(const Rto& c, const net::Path& p, int64_t d) { return c.rto(p) == us(d); }
AI int64_t dist(int64_t a, int64_t b) { return a < b ? b - a : a - b; }
// nothing known about a path
FW_ENTRY void fw_e_initial(const uint8_t* b, int64_t rto) {
    D(rto); Rto c{settings(rto, HOUR)};
    fw_prove("a path without history has the initial RTO", is(c, path(b), rto));
}
// RFC 6298 2.2: SRTT <- R, RTTVAR <- R/2, RTO <- SRTT + 4 * RTTVAR
FW_ENTRY void fw_e_first(const uint8_t* b, int64_t t, int64_t rto, int64_t rtt) {
    D(rtt); Rto c{settings(500000, HOUR)};
    c.new_rtt(at(t), path(b), us(rtt));
    fw_prove("the first RTT gives RTT + 4 * RTT/2", is(c, path(b), rtt + 4 * (rtt / 2)));
}
// RFC 6298 2.3
FW_ENTRY void fw_e_smooth(const uint8_t* b, int64_t t, int64_t d, int64_t r1, int64_t r2) {
    D(r1); D(r2); D(d); Rto c{settings(500000, HOUR)};
    c.new_rtt(at(t), path(b), us(r1));
    c.new_rtt(at(t + d), path(b), us(r2));
    const int64_t var = (3 * (r1 / 2) + dist(r1, r2)) / 4, srtt = (7 * r1 + r2) / 8;
    fw_prove("the second RTT is smoothed: 3/4 and 1/4 of the deviation, 7/8 and 1/8 of the RTT", is(c, path(b), srtt + 4 * var));
}
FW_ENTRY void fw_e_smooth3(const uint8_t* b, int64_t t, int64_t d, int64_t r1, int64_t r2, int64_t r3) {
    D(r1); D(r2); D(r3); D(d); Rto c{settings(500000, HOUR)};
    c.new_rtt(at(t), path(b), us(r1));
    c.new_rtt(at(t), path(b), us(r2));
    c.new_rtt(at(t + d), path(b), us(r3));
    int64_t var = (3 * (r1 / 2) + dist(r1, r2)) / 4, srtt = (7 * r1 + r2) / 8;
    var = (3 * var + dist(srtt, r3)) / 4; srtt = (7 * srtt + r3) / 8;
    fw_prove("every further RTT is smoothed with the values before it", is(c, path(b), srtt + 4 * var));
}
// Karn: a backed-off timeout is kept until the next measurement
FW_ENTRY void fw_e_backoff(const uint8_t* b, int64_t t, int64_t d, int64_t off, int64_t off2) {
    D(d); Rto c{settings(500000, HOUR)};
    c.backoff(at(t), path(b), us(off));
    fw_prove("a back-off is the RTO of its path", is(c, path(b), off));
    c.backoff(at(t + d), path(b), us(off2));
    fw_prove("the last back-off counts", is(c, path(b), off2));
}
FW_ENTRY void fw_e_karn(const uint8_t* b, int64_t t, int64_t d, int64_t r1, int64_t r2, int64_t off) {
    D(d); D(r1); D(r2); Rto c{settings(500000, HOUR)};
    c.new_rtt(at(t), path(b), us(r1));
    c.backoff(at(t + d), path(b), us(off));
    fw_prove("a back-off overrides what was measured", is(c, path(b), off));
    c.new_rtt(at(t + d), path(b), us(r2));
    const int64_t var = (3 * (r1 / 2) + dist(r1, r2)) / 4, srtt = (7 * r1 + r2) / 8;
    fw_prove("a measurement ends the back-off and is smoothed with what was measured before it", is(c, path(b), srtt + 4 * var));
}
FW_ENTRY void fw_e_karn0(const uint8_t* b, int64_t t, int64_t r1, int64_t off) {
    D(r1); Rto c{settings(500000, HOUR)};
    c.backoff(at(t), path(b), us(off));
    c.new_rtt(at(t), path(b), us(r1));
    fw_prove("the first RTT after a back-off counts as the first", is(c, path(b), r1 + 4 * (r1 / 2)));
}
// paths do not influence each other
FW_ENTRY void fw_e_paths(const uint8_t* b, int64_t t, int64_t d, int64_t r1, int64_t off, bool first) {
    OTHER; D(r1); D(d); Rto c{settings(500000, HOUR)};
    const auto p = path(b), q = path(b + 8);
    if (first) { c.new_rtt(at(t), p, us(r1)); fw_prove("another path is not affected", is(c, q, 500000)); c.backoff(at(t + d), q, us(off)); }
    else { c.backoff(at(t), q, us(off)); fw_prove("another path is not affected", is(c, p, 500000)); c.new_rtt(at(t + d), p, us(r1)); }
    fw_prove("each path keeps its own RTO", is(c, p, r1 + 4 * (r1 / 2)) && is(c, q, off));
}
// source and target make the path
FW_ENTRY void fw_e_reverse(const uint8_t* b, int64_t t, int64_t off) {
    fw_assume(!same<4>(b, b + 4)); Rto c{settings(500000, HOUR)};
    const auto p = path(b);
    c.backoff(at(t), p, us(off));
    fw_prove("the reverse path is another path", is(c, net::Path{p.target, p.source}, 500000));
    fw_prove("a path with another target is another path", is(c, net::Path{p.source, p.source}, 500000));
}
// history older than history_duration is forgotten at the next update, and nothing else
template<bool Rtt, bool Refresh> AI void aging(const uint8_t* b, int64_t t, int64_t d, int64_t e, int64_t keep, int64_t off) {
    OTHER; D(d); D(e); D(keep); Rto c{settings(500000, keep)};
    const auto p = path(b), q = path(b + 8);
    c.backoff(at(t), p, us(off));
    c.new_rtt(at(t), q, us(1000));
    int64_t last = 0;
    if (Refresh) { if (Rtt) c.new_rtt(at(t + d), p, us(2000)); else c.backoff(at(t + d), p, us(off)); last = d; }
    const int64_t rto = Refresh && Rtt ? 6000 : off;
    if (!Refresh || d <= keep) { c.new_rtt(at(t + d + e), q, us(1000));
        fw_prove("the updated path keeps its history", is(c, q, 1000 + 4 * 375) || !Refresh || d + e > keep);
        if (d + e - last > keep) fw_prove("history older than history_duration is forgotten", is(c, p, 500000));
        else fw_prove("history up to history_duration old is kept", is(c, p, rto)); }
}
#define A const uint8_t *b, int64_t t, int64_t d, int64_t e, int64_t keep, int64_t off
FW_ENTRY void fw_e_age(A) { aging<false, false>(b, t, d, e, keep, off); }
FW_ENTRY void fw_e_age_backoff(A) { aging<false, true>(b, t, d, e, keep, off); }
FW_ENTRY void fw_e_age_rtt(A) { aging<true, true>(b, t, d, e, keep, off); }
// addresses of either family make paths
AI net::ip::Address v6(const uint8_t* p) { return net::ip::Address::move_from_v6(net::ip::AddressV6::from_view(View(p, 16)).unwrap()); }
FW_ENTRY void fw_e_v6(const uint8_t* b, int64_t t, int64_t off) {
    Rto c{settings(500000, HOUR)};
    const net::Path p{v6(b), v6(b + 16)}, q{v6(b), v6(b + 32)}, o{v4(b), v4(b + 16)};
    fw_assume(!same<16>(b + 16, b + 32));
    c.backoff(at(t), p, us(off));
    fw_prove("an IPv6 path has its own RTO", is(c, p, off) && is(c, q, 500000) && is(c, o, 500000));
}
// the client feeds it
struct World {
    Client c; Rand r; const uint8_t* b; int64_t t;
    World(const uint8_t* b_, int64_t t_) : c(Client::Settings{}), r{b_}, b(b_), t(t_) {}
    bool start(const net::Path& p) { auto h = c.create(r, at(t), Client::Request{p, {}, {}}); return h.is_ok() && sends(c.next(at(t))); }
    bool waits(int64_t d) { return quiet(c.next(at(t + d - 1))) && sends(c.next(at(t + d))); }
    bool end(const uint8_t* x, unsigned id) { Reply g(x); g.address(T_XOR); return c.response(at(t), g.close(true, b + 12 * id)).is_ok() && std::holds_alternative<Client::TransactionOk>(c.next(at(t))); }
};
#define SOON fw_assume(0 < d && d < 500000 && !same<12>(b, b + 12))
FW_ENTRY void fw_e_c_rtt(const uint8_t* b, const uint8_t* x, int64_t t, int64_t d, bool other) {
    SOON; fw_assume(!same<8>(b + 64, b + 72)); World w(b, t); if (!w.start(path(b + 64))) return;
    w.t += d; if (!w.end(x, 0)) return;
    if (!w.start(path(other ? b + 72 : b + 64))) return;
    fw_prove("an answered request sets the RTO of the next one on its path only", w.waits(other ? 500000 : d + 4 * (d / 2)));
}
FW_ENTRY void fw_e_c_backoff(const uint8_t* b, const uint8_t* x, int64_t t, int64_t d, bool other) {
    SOON; fw_assume(!same<8>(b + 64, b + 72)); World w(b, t); if (!w.start(path(b + 64))) return;
    w.t += 500000; if (!sends(w.c.next(at(w.t)))) return;
    w.t += d; if (!w.end(x, 0)) return;
    if (!w.start(path(other ? b + 72 : b + 64))) return;
    fw_prove("a retransmitted request leaves its backed-off timeout to the next one on its path only, not a measurement", w.waits(other ? 500000 : 1000000));
}
FW_ENTRY void fw_e_c_fail(const uint8_t* b, const uint8_t* x, int64_t t, int64_t d) {
    SOON; World w(b, t); if (!w.start(path(b + 64))) return;
    w.t += d;
    Reply g(x); g.address(T_XOR);
    if (w.c.response(at(w.t), g.close(true, b + 12)).is_ok()) return;
    fw_prove("a refused response measures nothing", [&] { return sends(w.c.next(at(t + 500000))) && (w.t = t + 500000, w.start(path(b + 64))) && w.waits(500000); }());
}
