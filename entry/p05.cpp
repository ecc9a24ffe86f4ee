// STUN attribute values as they are built, and the round trip through the parser
#include "stunref.hpp"
template<typename A> static inline __attribute__((always_inline)) void addr4(const net::ip::AddressV4& ip, net::Port port) {
    const A a{net::ip::Address(ip), port};
    const util::ByteVec v = a.build();
    fw_prove("an IPv4 address attribute has eight bytes", v.size() == 8);
    if (v.size() != 8) return;
    const uint8_t* b = v.data();
    fw_prove("the first byte is zero", b[0] == 0);
    fw_prove("IPv4 is family 1", b[1] == 1);
    fw_prove("the port is written big-endian", be16(b + 2) == port.value());
    fw_prove("the address is written in network order", same<4>(b + 4, ip.view().data()));
}
template<typename A> static inline __attribute__((always_inline)) void addr6(const net::ip::AddressV6& ip, net::Port port) {
    const A a{net::ip::Address(ip), port};
    const util::ByteVec v = a.build();
    fw_prove("an IPv6 address attribute has twenty bytes", v.size() == 20);
    if (v.size() != 20) return;
    const uint8_t* b = v.data();
    fw_prove("the first byte is zero", b[0] == 0);
    fw_prove("IPv6 is family 2", b[1] == 2);
    fw_prove("the port is written big-endian", be16(b + 2) == port.value());
    fw_prove("the address is written in network order", same<16>(b + 4, ip.view().data()));
}
FW_ENTRY void fw_e_b_mapped4(const net::ip::AddressV4& ip, uint16_t p) { addr4<MappedAddressAttribute>(ip, net::Port(p)); }
FW_ENTRY void fw_e_b_mapped6(const net::ip::AddressV6& ip, uint16_t p) { addr6<MappedAddressAttribute>(ip, net::Port(p)); }
FW_ENTRY void fw_e_b_alternate4(const net::ip::AddressV4& ip, uint16_t p) { addr4<AlternateServerAttribute>(ip, net::Port(p)); }
FW_ENTRY void fw_e_b_alternate6(const net::ip::AddressV6& ip, uint16_t p) { addr6<AlternateServerAttribute>(ip, net::Port(p)); }
FW_ENTRY void fw_e_b_xor(const XorMappedAddressAttribute& a) {
    const auto w = a.addr.view();
    const bool v4 = a.addr.family().type() == Family::IPv4;
    fw_prove("an x-address has the size of its family", w.size() == (v4 ? 4u : 16u));
    const util::ByteVec v = a.build();
    fw_prove("XOR-MAPPED-ADDRESS has a fixed word and the x-address", v.size() == (v4 ? 8u : 20u));
    const uint8_t* b = v.data();
    fw_prove("the first byte is zero", b[0] == 0);
    fw_prove("the family is 1 for IPv4 and 2 for IPv6", b[1] == (v4 ? 1 : 2));
    fw_prove("the x-port is the port xor the high half of the magic cookie", be16(b + 2) == (a.port.value() ^ 0x2112));
    if (v4) fw_prove("the x-address bytes follow", same<4>(b + 4, w.data()));
    else fw_prove("the x-address bytes follow", same<16>(b + 4, w.data()));
}
FW_ENTRY void fw_e_b_error(const ErrorCodeAttribute& a, size_t i) {
    fw_assume(a.code >= 300 && a.code <= 699);
    const size_t n = a.reason_phrase.is_some() ? a.reason_phrase.unwrap().size() : 0;
    fw_assume(n <= 65531);
    const util::ByteVec v = a.build();
    fw_prove("ERROR-CODE has a fixed word and the reason phrase", v.size() == 4 + n);
    const uint8_t* b = v.data();
    fw_prove("the reserved bytes are zero", b[0] == 0 && b[1] == 0);
    fw_prove("the class is the hundreds digit", b[2] == a.code / 100);
    fw_prove("the number is the code modulo 100", b[3] == a.code % 100);
    if (i < n) fw_prove("the reason phrase follows", b[4 + i] == (uint8_t)a.reason_phrase.unwrap()[i]);
}
template<unsigned K> static inline __attribute__((always_inline)) void list_rules(uint16_t t0, uint16_t t1, uint16_t t2, uint16_t t3) {
    UnknownAttributesAttribute a;
    const uint16_t t[4] = {t0, t1, t2, t3};
    for (unsigned i = 0; i < K; ++i) a.types.push_back(AttributeType::from_uint16(t[i % 4]));
    const util::ByteVec v = a.build();
    fw_prove("UNKNOWN-ATTRIBUTES has one half word per type", v.size() == 2 * K);
    if (v.size() == 2 * K) for (unsigned i = 0; i < K; ++i) fw_prove("the types are big-endian half words in order", be16(v.data() + 2 * i) == t[i % 4]);
}
FW_ENTRY void fw_e_b_list0(uint16_t a, uint16_t b, uint16_t c, uint16_t d) { list_rules<0>(a, b, c, d); }
FW_ENTRY void fw_e_b_list1(uint16_t a, uint16_t b, uint16_t c, uint16_t d) { list_rules<1>(a, b, c, d); }
FW_ENTRY void fw_e_b_list3(uint16_t a, uint16_t b, uint16_t c, uint16_t d) { list_rules<3>(a, b, c, d); }
FW_ENTRY void fw_e_b_list17(uint16_t a, uint16_t b, uint16_t c, uint16_t d) { list_rules<17>(a, b, c, d); }
static inline __attribute__((always_inline)) void anylist(const AttributeType* t, size_t n, size_t i) {
    fw_assume(n <= 32767);
    UnknownAttributesAttribute a; a.types = std::vector<AttributeType>(t, t + n);
    const util::ByteVec v = a.build();
    fw_prove("UNKNOWN-ATTRIBUTES has one half word per type, whatever their number", v.size() == 2 * n);
    if (i < n) fw_prove("every type is a big-endian half word at its place, whatever their number", be16(v.data() + 2 * i) == t[i].value());
}
FW_ENTRY void fw_e_b_anylist(const AttributeType* t, size_t n, size_t i) { anylist(t, n, i); }
#define ANY(N) FW_ENTRY void fw_e_inst_b_anylist_##N(const AttributeType* t) { anylist(t, N, 0); anylist(t, N, N - 1); }
ANY(127) ANY(128) ANY(255) ANY(256) ANY(300) ANY(2000)
// round trips: what is built is read back as the same value
template<typename A, typename IP, unsigned N> static inline __attribute__((always_inline)) void back_addr(const IP& ip, net::Port port, uint16_t type, ParseStat& st) {
    const A a{net::ip::Address(ip), port};
    const util::ByteVec v = a.build();
    auto r = Attribute::parse(util::ConstBinaryView(v.data(), v.size()), AttributeType::from_uint16(type), st);
    const A* p = parsed<A>(r);
    fw_prove("a built address attribute parses", p != nullptr);
    if (!p) return;
    const IP* q = std::get_if<IP>(&p->addr.value());
    fw_prove("the round trip keeps the family", q != nullptr);
    if (q) fw_prove("the round trip keeps the address", same<N>(q->view().data(), ip.view().data()));
    fw_prove("the round trip keeps the port", p->port.value() == port.value());
}
FW_ENTRY void fw_e_r_mapped4(const net::ip::AddressV4& ip, uint16_t p, ParseStat& st) { back_addr<MappedAddressAttribute, net::ip::AddressV4, 4>(ip, net::Port(p), T_MAPPED, st); }
FW_ENTRY void fw_e_r_mapped6(const net::ip::AddressV6& ip, uint16_t p, ParseStat& st) { back_addr<MappedAddressAttribute, net::ip::AddressV6, 16>(ip, net::Port(p), T_MAPPED, st); }
FW_ENTRY void fw_e_r_alternate4(const net::ip::AddressV4& ip, uint16_t p, ParseStat& st) { back_addr<AlternateServerAttribute, net::ip::AddressV4, 4>(ip, net::Port(p), T_ALTERNATE, st); }
FW_ENTRY void fw_e_r_alternate6(const net::ip::AddressV6& ip, uint16_t p, ParseStat& st) { back_addr<AlternateServerAttribute, net::ip::AddressV6, 16>(ip, net::Port(p), T_ALTERNATE, st); }
FW_ENTRY void fw_e_r_xor(const XorMappedAddressAttribute& a, ParseStat& st) {
    const util::ByteVec v = a.build();
    auto r = Attribute::parse(util::ConstBinaryView(v.data(), v.size()), AttributeType::from_uint16(T_XOR), st);
    const auto* p = parsed<XorMappedAddressAttribute>(r);
    fw_prove("a built XOR-MAPPED-ADDRESS parses", p != nullptr);
    if (!p) return;
    const auto w = a.addr.view(), q = p->addr.view();
    fw_prove("the round trip keeps the port", p->port.value() == a.port.value());
    fw_prove("the round trip keeps the x-address length", w.size() == q.size());
    if (a.addr.family().type() == Family::IPv4) fw_prove("the round trip keeps the x-address", same<4>(w.data(), q.data()));
    else fw_prove("the round trip keeps the x-address", same<16>(w.data(), q.data()));
}
FW_ENTRY void fw_e_r_error(unsigned code, ParseStat& st) {
    fw_assume(code >= 300 && code <= 699);
    ErrorCodeAttribute a{code, none()};
    const util::ByteVec v = a.build();
    auto r = Attribute::parse(util::ConstBinaryView(v.data(), v.size()), AttributeType::from_uint16(T_ERROR), st);
    const auto* p = parsed<ErrorCodeAttribute>(r);
    fw_prove("a built ERROR-CODE parses", p != nullptr);
    if (p) fw_prove("the round trip keeps the code", p->code == code);
}
