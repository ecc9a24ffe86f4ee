// FINGERPRINT checksum: CRC-32 of ITU V.42 (ISO 3309), reflected polynomial 0xEDB88320
#include "stunref.hpp"
#include "stun/details/stun_fingerprint.hpp"
// reference: one bit of the polynomial division at a time
static inline __attribute__((always_inline)) uint32_t ref_step(uint32_t c, uint8_t byte) {
    c ^= byte;
    for (int i = 0; i < 8; ++i) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1u)));
    return c;
}
template<unsigned K> static inline __attribute__((always_inline)) uint32_t ref(const uint8_t* b) {
    uint32_t c = 0xFFFFFFFFu;
    for (unsigned i = 0; i < K; ++i) c = ref_step(c, b[i]);
    return ~c;
}
template<unsigned K> static inline __attribute__((always_inline)) void one(const uint8_t* b) {
    fw_prove("the checksum of a view is the CRC-32 polynomial division of its bytes", crc32(util::ConstBinaryView(b, K)) == ref<K>(b));
}
template<unsigned A, unsigned B, unsigned D> static inline __attribute__((always_inline)) void split(const uint8_t* b) {
    std::vector<util::ConstBinaryView> v{util::ConstBinaryView(b, A), util::ConstBinaryView(b + A, B), util::ConstBinaryView(b + A + B, D)};
    fw_prove("the checksum of several views is that of their concatenation", crc32(v) == ref<A + B + D>(b));
}
FW_ENTRY void fw_e_crc_0(const uint8_t* b) { one<0>(b); }
FW_ENTRY void fw_e_crc_1(const uint8_t* b) { one<1>(b); }
FW_ENTRY void fw_e_crc_2(const uint8_t* b) { one<2>(b); }
FW_ENTRY void fw_e_crc_5(const uint8_t* b) { one<5>(b); }
FW_ENTRY void fw_e_crc_9(const uint8_t* b) { one<9>(b); }
FW_ENTRY void fw_e_crc_32(const uint8_t* b) { one<32>(b); }
FW_ENTRY void fw_e_crc_split1(const uint8_t* b) { split<1, 1, 1>(b); }
FW_ENTRY void fw_e_crc_split2(const uint8_t* b) { split<3, 0, 4>(b); }
FW_ENTRY void fw_e_crc_split3(const uint8_t* b) { split<0, 5, 0>(b); }
FW_ENTRY void fw_e_crc_empty() { fw_prove("the checksum of no views is that of nothing", crc32(std::vector<util::ConstBinaryView>{}) == 0); }
