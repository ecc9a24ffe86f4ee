// Integers in text: ports, priorities and component ids
#include "fwentry.hpp"
#include <string_view>
#include "net/net_port.hpp"
#include "net/net_error.hpp"
#include "ice/candidate/ice_candidate_priority.hpp"
#include "ice/candidate/ice_candidate_component_id.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
#define AI static inline __attribute__((always_inline))
using namespace freewebrtc;
using ice::candidate::Priority; using ice::candidate::ComponentId; using IE = ice::candidate::Error;
AI std::string_view text(const uint8_t* b, size_t n) { return std::string_view((const char*)b, n); }
template<unsigned N> AI bool digits(const uint8_t* b) { bool r = true; for (unsigned i = 0; i < N; ++i) r = r & ((uint8_t)(b[i] - '0') < 10); return r; }
template<unsigned N> AI uint64_t value(const uint8_t* b) { uint64_t v = 0; for (unsigned i = 0; i < N; ++i) v = 10 * v + (uint64_t)(b[i] - '0'); return v; }
template<typename R, typename E> AI bool is(const R& r, E e) { return r.is_err() && r.unwrap_err() == make_error_code(e); }
template<unsigned N> AI void port(const uint8_t* b) {
    auto r = net::Port::from_string(text(b, N));
    if (!digits<N>(b)) { fw_prove("a port with anything but digits is refused", is(r, net::Error::invalid_port_value)); return; }
    const uint64_t v = value<N>(b);
    if (v > 65535) { fw_prove("a port above 65535 is refused", is(r, net::Error::invalid_port_value)); return; }
    fw_prove("any other port is its decimal value", r.is_ok() && r.unwrap().value() == v);
}
#define PORT(N) FW_ENTRY void fw_e_port##N(const uint8_t* b) { port<N>(b); }
PORT(1) PORT(2) PORT(3) PORT(4) PORT(5)
FW_ENTRY void fw_e_port_len(const uint8_t* b, size_t n) { fw_assume((n == 0) | (n > 5)); fw_prove("a port has one to five digits", is(net::Port::from_string(text(b, n)), net::Error::invalid_port_value)); }
FW_ENTRY void fw_e_port_u16(uint16_t v) { fw_prove("a port holds any 16-bit value", net::Port::from_uint16(v).value() == v && net::Port(v) == net::Port::from_uint16(v)); }
template<unsigned N> AI void priority(const uint8_t* b) {
    auto r = Priority::from_string(text(b, N));
    if (!digits<N>(b)) { fw_prove("a priority with anything but digits is refused", is(r, IE::invalid_priority_value)); return; }
    const uint64_t v = value<N>(b);
    if (v == 0) { fw_prove("a priority of zero is refused", is(r, IE::invalid_priority_value)); return; }
    if (v > 0xFFFFFFFFull) { fw_prove("a priority that does not fit 32 bits is refused", is(r, IE::invalid_priority_value)); return; }
    auto w = Priority::from_uint32((uint32_t)v);
    fw_prove("any other priority is its decimal value", r.is_ok() && w.is_ok() && r.unwrap() == w.unwrap());
}
#define PRIO(N) FW_ENTRY void fw_e_priority##N(const uint8_t* b) { priority<N>(b); }
PRIO(1) PRIO(2) PRIO(3) PRIO(4) PRIO(5) PRIO(6) PRIO(7) PRIO(8) PRIO(9) PRIO(10)
FW_ENTRY void fw_e_priority_len(const uint8_t* b, size_t n) { fw_assume((n == 0) | (n > 10)); fw_prove("a priority has one to ten digits", is(Priority::from_string(text(b, n)), IE::invalid_priority_length)); }
FW_ENTRY void fw_e_priority_u32(uint32_t v, uint32_t w) {
    auto r = Priority::from_uint32(v), s = Priority::from_uint32(w);
    fw_prove("a priority is any positive 32-bit value", r.is_ok() == (v != 0));
    if (!r.is_ok()) { fw_prove("a priority of zero is refused", is(r, IE::invalid_priority_value)); return; }
    if (s.is_ok()) fw_prove("priorities are equal exactly when their values are", (r.unwrap() == s.unwrap()) == (v == w));
}
template<unsigned N> AI void component(const uint8_t* b) {
    auto r = ComponentId::from_string(text(b, N));
    if (!digits<N>(b)) { fw_prove("a component id with anything but digits is refused", is(r, IE::invalid_component_id_char)); return; }
    const uint64_t v = value<N>(b);
    if (v <= 256) fw_prove("a component id up to 256 is its decimal value", r.is_ok() && r.unwrap().value() == v);
    else fw_prove("a component id is never taken for another", r.is_err() || r.unwrap().value() == v);
}
#define COMP(N) FW_ENTRY void fw_e_component##N(const uint8_t* b) { component<N>(b); }
COMP(1) COMP(2) COMP(3)
FW_ENTRY void fw_e_component_len(const uint8_t* b, size_t n) { fw_assume((n == 0) | (n > 3)); fw_prove("a component id has one to three digits", is(ComponentId::from_string(text(b, n)), IE::invalid_component_id_length)); }
FW_ENTRY void fw_e_component_u(unsigned v) {
    auto r = ComponentId::from_unsigned(v);
    fw_prove("a component id is 1 to 256", r.is_ok() == (1 <= v && v <= 256));
    if (r.is_ok()) fw_prove("a component id keeps its value", r.unwrap().value() == v);
    else fw_prove("other component ids are refused", is(r, IE::invalid_component_id_value));
}
