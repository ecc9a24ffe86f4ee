// RTP value types and the payload map
#include "fwentry.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "rtp/rtp_header.hpp"
#include "stat/stat_counter.hpp"
#include <bit>
#define AI static inline __attribute__((always_inline))
using namespace freewebrtc; using namespace freewebrtc::rtp;
FW_ENTRY void fw_e_payload_type(uint8_t v, uint8_t w) {
    auto a = PayloadType::from_uint8(v), b = PayloadType::from_uint8(w);
    fw_prove("a payload type is any value up to 127 and no other", a.is_some() == (v < 128));
    if (!a.is_some() || !b.is_some()) return;
    fw_prove("a payload type keeps its value", a.unwrap().value() == v);
    fw_prove("payload types are equal exactly when their values are", (a.unwrap() == b.unwrap()) == (v == w));
    if (v == w) fw_prove("equal payload types hash alike", std::hash<PayloadType>()(a.unwrap()) == std::hash<PayloadType>()(b.unwrap()));
}
FW_ENTRY void fw_e_values(uint16_t s, uint32_t r, uint32_t q, uint32_t t, unsigned c, bool m) {
    fw_prove("a sequence number keeps its value", SequenceNumber::from_uint16(s).value() == s);
    fw_prove("an SSRC keeps its value", SSRC::from_uint32(r).value() == r);
    fw_prove("SSRCs are equal exactly when their values are", (SSRC::from_uint32(r) == SSRC::from_uint32(q)) == (r == q));
    fw_prove("a timestamp keeps its value", Timestamp::from_uint32(t, ClockRate(c)).value() == t);
    fw_prove("a clock rate keeps its value", ClockRate(c).count() == c);
    fw_prove("a marker bit keeps its value", (bool)MarkerBit(m) == m);
}
FW_ENTRY void fw_e_counter(stat::Counter c) {
    auto n = c.count(); c.inc();
    fw_prove("counting adds one", c.count() == n + 1);
    fw_prove("counters start at zero", stat::Counter{}.count() == 0);
}
AI bool gives(const PayloadMap& m, uint8_t p, unsigned rate) { auto r = m.rtp_clock_rate(PayloadType::from_uint8(p).unwrap()); return r.is_some() && r.unwrap().count() == rate; }
AI PayloadMap::InitPair item(uint8_t p, unsigned rate) { return PayloadMap::InitPair(PayloadType::from_uint8(p).unwrap(), PayloadMapItem{ClockRate(rate)}); }
FW_ENTRY void fw_e_map_empty(uint8_t q) {
    fw_assume(q < 128);
    PayloadMap m({});
    fw_prove("a payload type that was not listed has no clock rate", m.rtp_clock_rate(PayloadType::from_uint8(q).unwrap()).is_none());
}
FW_ENTRY void fw_e_map(uint8_t a, uint8_t b, uint8_t c, uint8_t q, unsigned x, unsigned y, unsigned z) {
    fw_assume((a < 128) & (b < 128) & (c < 128) & (q < 128));
    PayloadMap m({item(a, x), item(b, y), item(c, z)});
    if (q == a) fw_prove("a listed payload type has the clock rate it was first listed with", gives(m, q, x));
    else if (q == b) fw_prove("a listed payload type has the clock rate it was first listed with", gives(m, q, y));
    else if (q == c) fw_prove("a listed payload type has the clock rate it was first listed with", gives(m, q, z));
    else fw_prove("a payload type that was not listed has no clock rate", m.rtp_clock_rate(PayloadType::from_uint8(q).unwrap()).is_none());
    PayloadMap n(m);
    fw_prove("a copied map answers alike", n.rtp_clock_rate(PayloadType::from_uint8(q).unwrap()).is_some() == m.rtp_clock_rate(PayloadType::from_uint8(q).unwrap()).is_some());
}
