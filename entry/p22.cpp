// ICE preferences, candidate types and foundations
#include "fwentry.hpp"
#include <string_view>
#include "ice/candidate/ice_candidate_preference.hpp"
#include "ice/candidate/ice_candidate_transport_type.hpp"
#include "ice/candidate/ice_candidate_foundation.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
#define AI static inline __attribute__((always_inline))
using namespace freewebrtc; using namespace freewebrtc::ice::candidate; using IE = ice::candidate::Error;
AI std::string_view text(const uint8_t* b, size_t n) { return std::string_view((const char*)b, n); }
template<typename R> AI bool is(const R& r, IE e) { return r.is_err() && r.unwrap_err() == make_error_code(e); }
// -- preferences
FW_ENTRY void fw_e_pref_ranges(unsigned v) {
    auto t = TypePreference::from_unsigned(v); auto l = LocalPreference::from_unsigned(v); auto c = ComponentPreference::from_unsigned(v);
    fw_prove("a type preference is 0 to 126", t.is_ok() == (v <= 126));
    fw_prove("a local preference is 0 to 65535", l.is_ok() == (v <= 65535));
    fw_prove("a component preference is 0 to 255", c.is_ok() == (v <= 255));
    if (t.is_ok()) fw_prove("a preference keeps its value", t.unwrap().value() == v); else fw_prove("other preferences are refused with their own error", is(t, IE::invalid_type_preference_value));
    if (l.is_ok()) fw_prove("a preference keeps its value", l.unwrap().value() == v); else fw_prove("other preferences are refused with their own error", is(l, IE::invalid_local_preference_value));
    if (c.is_ok()) fw_prove("a preference keeps its value", c.unwrap().value() == v); else fw_prove("other preferences are refused with their own error", is(c, IE::invalid_component_preference_value));
}
FW_ENTRY void fw_e_pref_recommended(unsigned id) {
    const unsigned h = TypePreference::recommended_for(Type::host()).value(), p = TypePreference::recommended_for(Type::peer_reflexive()).value(),
        s = TypePreference::recommended_for(Type::server_reflexive()).value(), r = TypePreference::recommended_for(Type::relayed()).value();
    fw_prove("the recommended type preferences are 126, 110, 100 and 0", h == 126 && p == 110 && s == 100 && r == 0);
    auto c = ComponentId::from_unsigned(id);
    if (c.is_ok()) fw_prove("the recommended component preference is 256 minus the component id", ComponentPreference::recommended_for(c.unwrap()).value() == 256 - id);
}
AI bool preference(unsigned t, unsigned l, unsigned c, Maybe<Preference>& out) {
    auto tp = TypePreference::from_unsigned(t); auto lp = LocalPreference::from_unsigned(l); auto cp = ComponentPreference::from_unsigned(c);
    if (!tp.is_ok() || !lp.is_ok() || !cp.is_ok()) return false;
    out = Preference{tp.unwrap(), lp.unwrap(), cp.unwrap()}; return true;
}
FW_ENTRY void fw_e_pref_priority(unsigned t, unsigned l, unsigned c) {
    Maybe<Preference> m = none();
    if (!preference(t, l, c, m)) return;
    auto p = m.unwrap().to_priority();
    const uint32_t v = (t << 24) + (l << 8) + c;
    fw_prove("preferences that are all zero have no priority", p.is_ok() == (v != 0));
    if (p.is_ok()) fw_prove("the priority is 2^24 type + 2^8 local + component preference", p.unwrap() == Priority::from_uint32(v).unwrap());
}
FW_ENTRY void fw_e_pref_distinct(unsigned t, unsigned l, unsigned c, unsigned t2, unsigned l2, unsigned c2) {
    Maybe<Preference> m = none(), n = none();
    if (!preference(t, l, c, m) || !preference(t2, l2, c2, n)) return;
    auto p = m.unwrap().to_priority(), q = n.unwrap().to_priority();
    if (p.is_ok() && q.is_ok()) fw_prove("different preferences have different priorities", (p.unwrap() == q.unwrap()) == ((t == t2) & (l == l2) & (c == c2)));
}
// -- names
AI bool letter(uint8_t b, char c) { return (b == (uint8_t)c) | (b == (uint8_t)(c - 32)); }
template<unsigned N> AI bool word(const uint8_t* b, const char (&w)[N]) { bool r = true; for (unsigned i = 0; i + 1 < N; ++i) r = r & letter(b[i], w[i]); return r; }
template<unsigned N> AI void type(const uint8_t* b) {
    auto r = Type::from_string(text(b, N));
    if constexpr (N == 4) if (word(b, "host")) { fw_prove("candidate types are read by their names, in any case", r.is_ok() && r.unwrap() == Type::host()); return; }
    if constexpr (N == 5) {
        if (word(b, "srflx")) { fw_prove("candidate types are read by their names, in any case", r.is_ok() && r.unwrap() == Type::server_reflexive()); return; }
        if (word(b, "prflx")) { fw_prove("candidate types are read by their names, in any case", r.is_ok() && r.unwrap() == Type::peer_reflexive()); return; }
        if (word(b, "relay")) { fw_prove("candidate types are read by their names, in any case", r.is_ok() && r.unwrap() == Type::relayed()); return; }
    }
    fw_prove("any other candidate type is unknown", is(r, IE::unknown_candidate_type));
}
FW_ENTRY void fw_e_type4(const uint8_t* b) { type<4>(b); }
FW_ENTRY void fw_e_type5(const uint8_t* b) { type<5>(b); }
FW_ENTRY void fw_e_type_len(const uint8_t* b, size_t n) { fw_assume((n != 4) & (n != 5)); fw_prove("any other candidate type is unknown", is(Type::from_string(text(b, n)), IE::unknown_candidate_type)); }
AI void named(const Type& t, Type::Value v, std::string_view w) {
    const std::string& s = t.to_string();
    fw_prove("a candidate type's name is the one of RFC 8839", s.size() == w.size());
    bool k = true; for (size_t i = 0; i < w.size(); ++i) k = k & (s.data()[i] == w[i]);
    fw_prove("a candidate type's name is the one of RFC 8839", k);
    fw_prove("a candidate type is the one asked for", t.value() == v);
    auto r = Type::from_string(s);
    fw_prove("a candidate type is read back from its name", r.is_ok() && r.unwrap() == t);
}
FW_ENTRY void fw_e_type_host() { named(Type::host(), Type::HOST, "host"); }
FW_ENTRY void fw_e_type_srflx() { named(Type::server_reflexive(), Type::SERVER_REFLEXIVE, "srflx"); }
FW_ENTRY void fw_e_type_prflx() { named(Type::peer_reflexive(), Type::PEER_REFLEXIVE, "prflx"); }
FW_ENTRY void fw_e_type_relay() { named(Type::relayed(), Type::RELAYED, "relay"); }
FW_ENTRY void fw_e_transport3(const uint8_t* b) {
    auto r = TransportType::from_string(text(b, 3));
    if (word(b, "udp")) fw_prove("the transport type udp is read in any case", r.is_ok() && r.unwrap() == TransportType::udp());
    else fw_prove("any other transport type is unknown", is(r, IE::unknown_transport_type));
}
FW_ENTRY void fw_e_transport_len(const uint8_t* b, size_t n) { fw_assume(n != 3); fw_prove("any other transport type is unknown", is(TransportType::from_string(text(b, n)), IE::unknown_transport_type)); }
FW_ENTRY void fw_e_transport_name() {
    const std::string& s = TransportType::udp().to_string();
    fw_prove("the transport type udp is written udp", s.size() == 3 && (s.data()[0] == 'u') & (s.data()[1] == 'd') & (s.data()[2] == 'p'));
}
// -- foundations
AI bool icechar(uint8_t c) { return ((uint8_t)(c - '0') < 10) | ((uint8_t)((c | 32) - 'a') < 26) | (c == '+') | (c == '/'); }
template<unsigned N> AI void foundation(const uint8_t* b) {
    auto r = Foundation::from_string(text(b, N));
    bool ok = true; for (unsigned i = 0; i < N; ++i) ok = ok & icechar(b[i]);
    if (!ok) { fw_prove("a foundation has only ice characters", is(r, IE::invalid_foundation_char)); return; }
    fw_prove("a foundation of up to 32 ice characters is accepted", r.is_ok());
    const std::string& s = r.unwrap().to_string();
    bool same = s.size() == N; for (unsigned i = 0; i < N; ++i) same = same & ((uint8_t)s.data()[i] == b[i]);
    fw_prove("a foundation keeps its text", same);
}
#define FOUND(N) FW_ENTRY void fw_e_foundation##N(const uint8_t* b) { foundation<N>(b); }
FOUND(1) FOUND(2) FOUND(3) FOUND(4) FOUND(5) FOUND(6) FOUND(7) FOUND(8) FOUND(9) FOUND(10) FOUND(11) FOUND(12) FOUND(13) FOUND(14) FOUND(15) FOUND(16) FOUND(17) FOUND(18) FOUND(19) FOUND(20) FOUND(21) FOUND(22) FOUND(23) FOUND(24) FOUND(25) FOUND(26) FOUND(27) FOUND(28) FOUND(29) FOUND(30) FOUND(31) FOUND(32)
FW_ENTRY void fw_e_foundation_len(const uint8_t* b, size_t n) { fw_assume((n == 0) | (n > 32)); fw_prove("a foundation has 1 to 32 characters", is(Foundation::from_string(text(b, n)), IE::invalid_foundation_length)); }
FW_ENTRY void fw_e_foundation_eq(const uint8_t* a, const uint8_t* b) {
    auto r = Foundation::from_string(text(a, 3)), s = Foundation::from_string(text(b, 3)), t = Foundation::from_string(text(b, 2));
    if (!r.is_ok() || !s.is_ok()) return;
    fw_prove("foundations are equal exactly when their texts are", (r.unwrap() == s.unwrap()) == ((a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2])));
    fw_prove("foundations of different lengths differ", t.is_ok() && !(r.unwrap() == t.unwrap()));
}
