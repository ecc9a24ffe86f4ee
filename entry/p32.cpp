// IP addresses: binary form, text form, equality, hashing, endpoints
#include "fwentry.hpp"
#include <arpa/inet.h>
#include <string_view>
#include "net/ip/ip_address.hpp"
#include "net/ip/ip_address_hash.hpp"
#include "net/net_path_hash.hpp"
#include "net/net_endpoint.hpp"
#include "net/net_error.hpp"
#define AI static inline __attribute__((always_inline))
using namespace freewebrtc; using net::ip::Address; using net::ip::AddressV4; using net::ip::AddressV6; using NE = net::Error;
template<typename R> AI bool is(const R& r, NE e) { return r.is_err() && r.unwrap_err() == make_error_code(e); }
template<unsigned N> AI bool same(const uint8_t* a, const uint8_t* b) { bool r = true; for (unsigned i = 0; i < N; ++i) r = r & (a[i] == b[i]); return r; }
// -- binary form
FW_ENTRY void fw_e_v4(const uint8_t* b) {
    auto r = AddressV4::from_view(util::ConstBinaryView(b, 4));
    fw_prove("four bytes are an IPv4 address", r.is_ok() && r.unwrap().view().size() == 4);
    fw_prove("an address keeps its bytes", same<4>(r.unwrap().view().data(), b));
    fw_prove("four bytes are no IPv6 address", is(AddressV6::from_view(util::ConstBinaryView(b, 4)), NE::invalid_address_size));
}
FW_ENTRY void fw_e_v6(const uint8_t* b) {
    auto r = AddressV6::from_view(util::ConstBinaryView(b, 16));
    fw_prove("sixteen bytes are an IPv6 address", r.is_ok() && r.unwrap().view().size() == 16);
    fw_prove("an address keeps its bytes", same<16>(r.unwrap().view().data(), b));
    fw_prove("sixteen bytes are no IPv4 address", is(AddressV4::from_view(util::ConstBinaryView(b, 16)), NE::invalid_address_size));
}
FW_ENTRY void fw_e_size(const uint8_t* b, size_t n) {
    fw_assume((n != 4) & (n != 16));
    fw_prove("any other size is no address", is(AddressV4::from_view(util::ConstBinaryView(b, n)), NE::invalid_address_size) && is(AddressV6::from_view(util::ConstBinaryView(b, n)), NE::invalid_address_size));
}
// -- equality and hashing
FW_ENTRY void fw_e_eq4(const AddressV4& a, const AddressV4& b) {
    const Address x(a), y(b);
    const bool k = same<4>(a.view().data(), b.view().data());
    fw_prove("addresses are equal exactly when family and bytes are", (x == y) == k);
    fw_prove("an address shows its own bytes", x.view().size() == 4 && same<4>(x.view().data(), a.view().data()));
    if (x == y) fw_prove("equal addresses hash alike", net::ip::AddressHash{}(x) == net::ip::AddressHash{}(y));
}
FW_ENTRY void fw_e_eq6(const AddressV6& a, const AddressV6& b) {
    const Address x(a), y(b);
    const bool k = same<16>(a.view().data(), b.view().data());
    fw_prove("addresses are equal exactly when family and bytes are", (x == y) == k);
    fw_prove("an address shows its own bytes", x.view().size() == 16 && same<16>(x.view().data(), a.view().data()));
    if (x == y) fw_prove("equal addresses hash alike", net::ip::AddressHash{}(x) == net::ip::AddressHash{}(y));
}
FW_ENTRY void fw_e_mixed(const AddressV4& a, const AddressV6& b) { fw_prove("an IPv4 address never equals an IPv6 address", !(Address(a) == Address(b)) && !(Address(b) == Address(a))); }
FW_ENTRY void fw_e_convert(const AddressV4& a, const AddressV6& b) {
    fw_prove("copying or moving keeps the address", Address::copy_from_v4(a) == Address(a) && Address::move_from_v4(AddressV4(a)) == Address(a) && Address::copy_from_v6(b) == Address(b) && Address::move_from_v6(AddressV6(b)) == Address(b));
}
FW_ENTRY void fw_e_path4(const AddressV4& a, const AddressV4& b, const AddressV4& c, const AddressV4& d) {
    const net::Path p{Address(a), Address(b)}, q{Address(c), Address(d)};
    const bool k = same<4>(a.view().data(), c.view().data()) & same<4>(b.view().data(), d.view().data());
    fw_prove("paths are equal exactly when source and target are", (p == q) == k);
    if (p == q) fw_prove("equal paths hash alike", net::PathHash{}(p) == net::PathHash{}(q));
}
FW_ENTRY void fw_e_path6(const AddressV6& a, const AddressV6& b, const AddressV6& c, const AddressV6& d) {
    const net::Path p{Address(a), Address(b)}, q{Address(c), Address(d)};
    const bool k = same<16>(a.view().data(), c.view().data()) & same<16>(b.view().data(), d.view().data());
    fw_prove("paths are equal exactly when source and target are", (p == q) == k);
    if (p == q) fw_prove("equal paths hash alike", net::PathHash{}(p) == net::PathHash{}(q));
}
FW_ENTRY void fw_e_pathmix(const AddressV4& a, const AddressV6& b) {
    const net::Path p{Address(a), Address(b)}, q{Address(b), Address(a)}, r{Address(a), Address(a)};
    fw_prove("paths of different families differ", !(p == q) && !(p == r) && !(q == r));
    const net::Path s(p);
    fw_prove("equal paths hash alike", s == p && net::PathHash{}(p) == net::PathHash{}(s));
}
// -- endpoints
FW_ENTRY void fw_e_endpoint(const AddressV4& a, const AddressV6& b, uint16_t p, uint16_t q) {
    const net::Endpoint u(net::UdpEndpoint{Address(a), net::Port(p)}), t(net::TcpEndpoint{Address(b), net::Port(q)});
    fw_prove("an endpoint is UDP exactly when built from one", u.is_udp() && !t.is_udp());
    fw_prove("an endpoint keeps address and port", u.address() == Address(a) && u.port() == net::Port(p) && t.address() == Address(b) && t.port() == net::Port(q));
}
// -- text form
template<unsigned N> AI void text(const uint8_t* b) {
    auto r = Address::from_string(std::string_view((const char*)b, N));
    char c[N + 1]; bool nul = false; for (unsigned i = 0; i < N; ++i) { c[i] = (char)b[i]; nul = nul | (b[i] == 0); } c[N] = 0;
    if (nul) { fw_prove("a text with a NUL character is no address", is(r, NE::ip_address_parse_error)); return; }
    uint8_t v[16];
    if (::inet_pton(AF_INET, c, v) == 1) {
        fw_prove("a text that reads as IPv4 gives that IPv4 address", r.is_ok());
        auto* p = std::get_if<AddressV4>(&r.unwrap().value());
        fw_prove("a text that reads as IPv4 gives that IPv4 address", p != nullptr && same<4>(p->view().data(), v));
    } else if (::inet_pton(AF_INET6, c, v) == 1) {
        fw_prove("a text that reads as IPv6 gives that IPv6 address", r.is_ok());
        auto* p = std::get_if<AddressV6>(&r.unwrap().value());
        fw_prove("a text that reads as IPv6 gives that IPv6 address", p != nullptr && same<16>(p->view().data(), v));
    } else fw_prove("any other text is no address", is(r, NE::ip_address_parse_error));
}
#define TEXT(N) FW_ENTRY void fw_e_text##N(const uint8_t* b) { text<N>(b); }
TEXT(1) TEXT(2) TEXT(7) TEXT(15) TEXT(16) TEXT(17) TEXT(39) TEXT(40) TEXT(45) TEXT(46) TEXT(47) TEXT(64) TEXT(100)
FW_ENTRY void fw_e_text0() { (void)Address::from_string(std::string_view()); fw_prove("an empty text is read without trouble", true); }
template<unsigned M> AI bool written(const Result<std::string>& r, int af, const uint8_t* b) {
    char e[64]; const char* t = ::inet_ntop(af, b, e, sizeof e);
    if (t == nullptr) return false;
    if (!r.is_ok()) return false;
    const std::string& s = r.unwrap();
    bool k = s.size() == ::__builtin_strlen(e); for (unsigned i = 0; i < M; ++i) k = k & (s.data()[i] == e[i]);
    return k;
}
FW_ENTRY void fw_e_write4(const AddressV4& a) { fw_prove("an IPv4 address is written in its standard form", written<15>(Address(a).to_string(), AF_INET, a.view().data())); }
FW_ENTRY void fw_e_write6(const AddressV6& a) { fw_prove("an IPv6 address is written in its standard form", written<45>(Address(a).to_string(), AF_INET6, a.view().data())); }
