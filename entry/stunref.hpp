// reference vocabulary shared by the STUN harnesses: literals are those of RFC 8489 / RFC 8445
#pragma once
#include "fwentry.hpp"
#include "stun/stun_message.hpp"
#include "stun/stun_error.hpp"
#include "stun/stun_attribute.hpp"
#include "stun/stun_attribute_set.hpp"
using namespace freewebrtc;
using namespace freewebrtc::stun;
static inline uint16_t be16(const uint8_t* b) { return (uint16_t)(b[0] << 8 | b[1]); }
static inline uint32_t be32(const uint8_t* b) { return (uint32_t)b[0] << 24 | (uint32_t)b[1] << 16 | (uint32_t)b[2] << 8 | b[3]; }
static inline uint64_t be64(const uint8_t* b) { return (uint64_t)be32(b) << 32 | be32(b + 4); }
template<unsigned N> static inline __attribute__((always_inline)) bool same(const uint8_t* a, const uint8_t* b) {
    bool r = true;
    for (unsigned i = 0; i < N; ++i) r = r & (a[i] == b[i]);
    return r;
}
enum : uint16_t { T_MAPPED = 0x0001, T_USERNAME = 0x0006, T_INTEGRITY = 0x0008, T_ERROR = 0x0009, T_UNKNOWN = 0x000A, T_XOR = 0x0020,
    T_PRIORITY = 0x0024, T_USE = 0x0025, T_SOFTWARE = 0x8022, T_ALTERNATE = 0x8023, T_FINGERPRINT = 0x8028, T_CONTROLLED = 0x8029, T_CONTROLLING = 0x802A };
template<typename A> static inline const A* parsed(const Result<Attribute::ParseResult>& r) {
    if (!r.is_ok()) return nullptr;
    const Attribute* a = std::get_if<Attribute>(&r.unwrap());
    return a ? a->as<A>() : nullptr;
}
