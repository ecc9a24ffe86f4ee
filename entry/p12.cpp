// XOR-MAPPED-ADDRESS obfuscation, RFC 8489 section 14.2
#include "stunref.hpp"
#include "stun/stun_transaction_id.hpp"
using net::ip::Address; using net::ip::AddressV4; using net::ip::AddressV6;
static constexpr uint8_t COOKIE[4] = {0x21, 0x12, 0xA4, 0x42};
FW_ENTRY void fw_e_x_v4(const AddressV4& ip, const TransactionId& tid) {
    const auto x = XoredAddress::from_address(Address(ip), tid);
    const auto w = x.view();
    fw_prove("an IPv4 x-address has four bytes", w.size() == 4 && x.family().type() == Family::IPv4);
    bool k = true;
    for (unsigned i = 0; i < 4; ++i) k = k & (w.data()[i] == (uint8_t)(ip.view().data()[i] ^ COOKIE[i]));
    fw_prove("an IPv4 x-address is the address xor the magic cookie in network order", k);
    const Address back = x.to_address(tid);
    const auto* b = std::get_if<AddressV4>(&back.value());
    fw_prove("an IPv4 x-address decodes to IPv4", b != nullptr);
    if (b) fw_prove("decoding an IPv4 x-address gives the address back", same<4>(b->view().data(), ip.view().data()));
}
template<unsigned T> static inline __attribute__((always_inline)) void v6(const AddressV6& ip, const uint8_t* t) {
    const TransactionId tid{util::ConstBinaryView(t, T)};
    const auto x = XoredAddress::from_address(Address(ip), tid);
    const auto w = x.view();
    fw_prove("an IPv6 x-address has sixteen bytes", w.size() == 16 && x.family().type() == Family::IPv6);
    bool k = true;
    for (unsigned i = 0; i < 16; ++i) k = k & (w.data()[i] == (uint8_t)(ip.view().data()[i] ^ (i < 4 ? COOKIE[i] : t[i - 4])));
    fw_prove("an IPv6 x-address is the address xor the magic cookie and the transaction id", k);
    const Address back = x.to_address(tid);
    const auto* b = std::get_if<AddressV6>(&back.value());
    fw_prove("an IPv6 x-address decodes to IPv6", b != nullptr);
    if (b) fw_prove("decoding an IPv6 x-address gives the address back", same<16>(b->view().data(), ip.view().data()));
}
FW_ENTRY void fw_e_x_v6(const AddressV6& ip, const uint8_t* t) { v6<12>(ip, t); }
FW_ENTRY void fw_e_x_v6_rfc3489(const AddressV6& ip, const uint8_t* t) { v6<16>(ip, t); }
// decoding what an arbitrary peer sent
FW_ENTRY void fw_e_x_decode4(const uint8_t* b, const TransactionId& tid) {
    auto r = XoredAddress::from_view(Family::ipv4(), util::ConstBinaryView(b, 4));
    fw_prove("four bytes are an IPv4 x-address", r.is_ok());
    if (!r.is_ok()) return;
    const Address a = r.unwrap().to_address(tid);
    const auto* p = std::get_if<AddressV4>(&a.value());
    fw_prove("it decodes to IPv4", p != nullptr);
    if (!p) return;
    bool k = true;
    for (unsigned i = 0; i < 4; ++i) k = k & (p->view().data()[i] == (uint8_t)(b[i] ^ COOKIE[i]));
    fw_prove("a received IPv4 x-address decodes by xor with the magic cookie", k);
}
FW_ENTRY void fw_e_x_decode6(const uint8_t* b, const uint8_t* t) {
    const TransactionId tid{util::ConstBinaryView(t, 12)};
    auto r = XoredAddress::from_view(Family::ipv6(), util::ConstBinaryView(b, 16));
    fw_prove("sixteen bytes are an IPv6 x-address", r.is_ok());
    if (!r.is_ok()) return;
    const Address a = r.unwrap().to_address(tid);
    const auto* p = std::get_if<AddressV6>(&a.value());
    fw_prove("it decodes to IPv6", p != nullptr);
    if (!p) return;
    bool k = true;
    for (unsigned i = 0; i < 16; ++i) k = k & (p->view().data()[i] == (uint8_t)(b[i] ^ (i < 4 ? COOKIE[i] : t[i - 4])));
    fw_prove("a received IPv6 x-address decodes by xor with the magic cookie and the transaction id", k);
}
FW_ENTRY void fw_e_x_sizes(const util::ConstBinaryView& v) {
    fw_prove("IPv4 x-addresses of any other size are refused", XoredAddress::from_view(Family::ipv4(), v).is_ok() == (v.size() == 4));
    fw_prove("IPv6 x-addresses of any other size are refused", XoredAddress::from_view(Family::ipv6(), v).is_ok() == (v.size() == 16));
}
FW_ENTRY void fw_e_x_family(uint8_t f) {
    auto r = Family::from_uint8(f);
    fw_prove("family numbers are 1 for IPv4 and 2 for IPv6 and nothing else", r.is_ok() == (f == 1 || f == 2));
    if (r.is_ok()) fw_prove("a family number reads and writes as itself", r.unwrap().to_uint8() == f && (r.unwrap().type() == Family::IPv4) == (f == 1));
}
