// timeline arithmetic
#include "fwentry.hpp"
#include <limits>
#include "clock/clock_timepoint.hpp"
using namespace freewebrtc::clock;
using namespace std::chrono;
using US = Timepoint::Duration;
static constexpr int64_t MIN = std::numeric_limits<int64_t>::min();

FW_ENTRY void fw_e_tp_sub(const Timepoint& t, int64_t d) {
    fw_prove("advancing by d makes the difference d (all t, all d, including wrap-around)", (t.advance(US(d)) - t).count() == d);
    fw_prove("subtraction from itself is zero", (t - t).count() == 0);
}
FW_ENTRY void fw_e_tp_order(const Timepoint& t, int64_t d) {
    fw_assume(d != MIN);
    const Timepoint u = t.advance(US(d));
    if (d > 0) {
        fw_prove("a later timepoint is after", u.is_after(t) && !t.is_after(u));
        fw_prove("an earlier timepoint is before", t.is_before(u) && !u.is_before(t));
        fw_prove("different timepoints are not equal", !(u == t));
    } else if (d < 0) {
        fw_prove("a later timepoint is after", t.is_after(u) && !u.is_after(t));
        fw_prove("an earlier timepoint is before", u.is_before(t) && !t.is_before(u));
        fw_prove("different timepoints are not equal", !(u == t));
    } else {
        fw_prove("equal timepoints are neither before nor after", u == t && !u.is_after(t) && !u.is_before(t) && !t.is_after(u) && !t.is_before(u));
    }
}
FW_ENTRY void fw_e_tp_compose(const Timepoint& t, int64_t a, int64_t b) {
    fw_prove("advances compose additively", t.advance(US(a)).advance(US(b)) == t.advance(US((int64_t)((uint64_t)a + (uint64_t)b))));
    fw_prove("an advance of zero changes nothing", t.advance(US(0)) == t);
}
FW_ENTRY void fw_e_tp_units(const Timepoint& t, int64_t x) {
    fw_assume(x >= -9000000000000LL && x <= 9000000000000LL);
    fw_prove("milliseconds advance by 1000 microseconds each", t.advance(milliseconds(x)) == t.advance(US(x * 1000)));
    fw_prove("seconds advance by 1000000 microseconds each", t.advance(seconds(x)) == t.advance(US(x * 1000000)));
    fw_prove("microseconds advance one by one", t.advance(microseconds(x)) == t.advance(US(x)));
}
FW_ENTRY void fw_e_tp_from_us(const Timepoint& t, int64_t d) {
    microseconds du(d);
    const Timepoint u = t.advance_from(du);
    fw_prove("advance_from consumes a native duration entirely", u == t.advance(US(d)) && du.count() == 0);
    milliseconds dm(d);
    fw_assume(d >= -9000000000000000LL && d <= 9000000000000000LL);
    const Timepoint m = t.advance_from(dm);
    fw_prove("advance_from consumes a coarser duration entirely", m == t.advance(US(d * 1000)) && dm.count() == 0);
}
FW_ENTRY void fw_e_tp_from_ns(const Timepoint& t, int64_t d) {
    fw_assume(d >= 0);
    nanoseconds dn(d);
    const Timepoint u = t.advance_from(dn);
    fw_prove("advance_from moves by the whole microseconds of a finer duration", u == t.advance(US(d / 1000)));
    fw_prove("advance_from leaves exactly the sub-microsecond remainder", dn.count() == d % 1000);
}
FW_ENTRY void fw_e_tp_from_ns_neg(const Timepoint& t, int64_t d) {
    fw_assume(d < 0);
    nanoseconds dn(d);
    const Timepoint u = t.advance_from(dn);
    fw_prove("advance_from of a negative finer duration moves backwards", u == t.advance(US(d / 1000)));
    fw_prove("advance_from of a negative finer duration leaves its remainder", dn.count() == d % 1000);
}
FW_ENTRY void fw_e_tp_epoch(int64_t d) {
    fw_prove("the epoch is one fixed point", Timepoint::epoch() == Timepoint::epoch());
    fw_prove("distance from the epoch is the total advance", (Timepoint::epoch().advance(US(d)) - Timepoint::epoch()).count() == d);
}
// a clock of the standard library's kind, read at times of its own
template<typename D>
struct Fake {
    using duration = D; using rep = typename D::rep; using period = typename D::period;
    using time_point = std::chrono::time_point<Fake>;
    static constexpr bool is_steady = true;
    static inline int64_t t = 0;
    static time_point now() noexcept { return time_point(D(t)); }
};
#include "clock/clock_std.hpp"
// the clock of the running thread (its state is examined by P31)
FW_ENTRY int64_t fw_e_k_steady() { return (steady_clock_now() - Timepoint::epoch()).count(); }
#define SINCE(x) ((x) - Timepoint::epoch()).count()
FW_ENTRY void fw_e_tp_std_ns(int64_t a, int64_t b, int64_t c) {
    fw_assume(0 <= a && a <= 9000000000000000000ll); fw_assume(a <= b && b <= 9000000000000000000ll); fw_assume(b <= c && c <= 9000000000000000000ll);
    using F = Fake<nanoseconds>;
    F::t = a; ChronoClockConverter<F> k;
    F::t = b; const Timepoint x = k.now();
    fw_prove("a converted clock shows the whole microseconds of the clock it converts", SINCE(x) == b / 1000);
    F::t = c; const Timepoint y = k.now();
    fw_prove("and loses nothing between two readings", SINCE(y) == c / 1000);
    fw_prove("a converted clock never goes back", !y.is_before(x));
}
FW_ENTRY void fw_e_tp_std_us(int64_t a, int64_t b) {
    fw_assume(0 <= a && a <= 9000000000000000000ll); fw_assume(a <= b && b <= 9000000000000000000ll);
    using F = Fake<microseconds>;
    F::t = a; ChronoClockConverter<F> k;
    F::t = b; fw_prove("a converted clock of microseconds shows its very time", SINCE(k.now()) == b);
    fw_prove("and stands still while the clock does", SINCE(k.now()) == b);
}
FW_ENTRY void fw_e_tp_std_ms(int64_t a, int64_t b) {
    fw_assume(0 <= a && a <= 9000000000000000ll); fw_assume(a <= b && b <= 9000000000000000ll);
    using F = Fake<milliseconds>;
    F::t = a; ChronoClockConverter<F> k;
    F::t = b; fw_prove("a converted clock of milliseconds shows its very time", SINCE(k.now()) == 1000 * b);
}
