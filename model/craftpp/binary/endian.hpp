// Stand-in for the craftpp dependency (missing offline). See DESIGN.md.
#pragma once
#include <cstdint>
namespace craftpp::binary {
inline uint16_t network_to_host_u16(uint16_t v) noexcept { return __builtin_bswap16(v); }
inline uint32_t network_to_host_u32(uint32_t v) noexcept { return __builtin_bswap32(v); }
inline uint64_t network_to_host_u64(uint64_t v) noexcept { return __builtin_bswap64(v); }
inline uint16_t host_to_network_u16(uint16_t v) noexcept { return __builtin_bswap16(v); }
inline uint32_t host_to_network_u32(uint32_t v) noexcept { return __builtin_bswap32(v); }
inline uint64_t host_to_network_u64(uint64_t v) noexcept { return __builtin_bswap64(v); }
}
