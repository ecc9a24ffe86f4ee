// the candidate line of SDP: splitting, tokens, the order and kind of its parts
#include "fwentry.hpp"
#include <string_view>
#include <variant>
#include "ice/candidate/ice_candidate_sdp.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
#include "util/util_string_view.hpp"
#include "util/util_token_stream.hpp"
#define AI static inline __attribute__((always_inline))
using namespace freewebrtc; namespace ic = freewebrtc::ice::candidate; using IE = ic::Error; using TS = util::TokenStream; using SV = std::string_view;
AI SV sv(const uint8_t* b, size_t n) { return SV((const char*)b, n); }
// -- splitting a text into tokens
template<unsigned N> AI void split(const uint8_t* b, uint8_t sep) {
    auto v = util::string_view::split_all(sv(b, N), (char)sep);
    size_t k = 0; unsigned from = 0;
    for (unsigned i = 0; i < N; ++i) {
        if (b[i] != sep) continue;
        fw_prove("every separator ends a token", k < v.size() && v.data()[k].data() == (const char*)b + from && v.data()[k].size() == i - from);
        k++; from = i + 1;
    }
    if (from < N) { fw_prove("what follows the last separator is a token", k < v.size() && v.data()[k].data() == (const char*)b + from && v.data()[k].size() == N - from); k++; }
    fw_prove("there are no further tokens", v.size() == k);
}
#define SPLIT(N) FW_ENTRY void fw_e_split##N(const uint8_t* b, uint8_t sep) { split<N>(b, sep); }
SPLIT(1) SPLIT(2) SPLIT(3) SPLIT(4) SPLIT(5) SPLIT(6)
FW_ENTRY void fw_e_split0(uint8_t sep) { fw_prove("an empty text has no tokens", util::string_view::split_all(SV{}, (char)sep).empty()); }
template<unsigned N> AI void once(const uint8_t* b, uint8_t sep) {
    auto r = util::string_view::split(sv(b, N), (char)sep);
    unsigned at = N; for (unsigned i = N; i-- > 0;) at = b[i] == sep ? i : at;
    if (at == N) { fw_prove("a text without the separator is not split", r.is_none()); return; }
    fw_prove("a text is split at the first separator", r.is_some() && r.unwrap().first.data() == (const char*)b && r.unwrap().first.size() == at && r.unwrap().second.data() == (const char*)b + at + 1 && r.unwrap().second.size() == N - at - 1);
}
FW_ENTRY void fw_e_once1(const uint8_t* b, uint8_t sep) { once<1>(b, sep); }
FW_ENTRY void fw_e_once5(const uint8_t* b, uint8_t sep) { once<5>(b, sep); }
FW_ENTRY void fw_e_prefix(const uint8_t* b, size_t n, size_t k) {
    auto r = util::string_view::remove_prefix(sv(b, n), k);
    if (k > n) fw_prove("more than there is cannot be removed", r.is_none());
    else fw_prove("removing a prefix leaves the rest", r.is_some() && r.unwrap().data() == (const char*)b + k && r.unwrap().size() == n - k);
}
// -- token stream: each token once, in order
FW_ENTRY void fw_e_stream(const uint8_t* a, size_t n, const uint8_t* b, size_t m) {
    TS::Container c; c.emplace_back(sv(a, n)); c.emplace_back(sv(b, m));
    TS t(std::move(c));
    auto x = t.required(); auto y = t.optional(); auto z = t.optional(); auto w = t.required();
    fw_prove("tokens are delivered once, in order", x.is_ok() && x.unwrap().data() == (const char*)a && x.unwrap().size() == n && y.is_some() && y.unwrap().data() == (const char*)b && y.unwrap().size() == m);
    fw_prove("behind the last token there is none", z.is_none() && w.is_err());
}
FW_ENTRY void fw_e_expect(const uint8_t* a) {
    TS::Container c; c.emplace_back(sv(a, 3)); c.emplace_back(SV("x", 1));
    TS t(c);
    auto r = t.required("typ");
    fw_prove("an expected token must be the very text", r.is_ok() == ((a[0] == 't') & (a[1] == 'y') & (a[2] == 'p')));
    auto y = t.optional();
    fw_prove("an expected token is consumed", y.is_some() && y.unwrap().size() == 1 && y.unwrap().data()[0] == 'x');
    fw_prove("an expected token may not be missing", t.required("typ").is_err());
}
// -- the line
AI bool same(const ic::Address& a, const ic::Address& b) {
    if (a.as_ip_address().is_some()) return b.as_ip_address().is_some() && a.as_ip_address().unwrap().get() == b.as_ip_address().unwrap().get();
    return b.as_fqdn().is_some() && a.as_fqdn().unwrap().get() == b.as_fqdn().unwrap().get();
}
template<unsigned N> AI void put(uint8_t*& p, const char (&s)[N]) { for (unsigned i = 0; i + 1 < N; ++i) *p++ = (uint8_t)s[i]; }
AI SV lit(const char* s) { return SV(s, __builtin_strlen(s)); }
struct Line { SV f, c, t, p, a, o, y; };   // the seven parts (o: port, y: type)
AI void raise(bool& some, std::error_code& e, const std::error_code& x) { if (!some) { some = true; e = x; } }
// what the line must come to, from its parts (all there) and an optional related address and port
AI void line(const Result<ic::SDPAttrParseResult>& r, const Line& l, const SV* raddr, const SV* rport) {
    auto f = ic::Foundation::from_string(l.f); auto c = ic::ComponentId::from_string(l.c); auto t = ic::TransportType::from_string(l.t);
    auto p = ic::Priority::from_string(l.p); auto a = ic::Address::from_string(l.a); auto o = net::Port::from_string(l.o); auto y = ic::Type::from_string(l.y);
    if (a.is_err() || y.is_err() || t.is_err()) {
        fw_prove("a line with an address, type or transport that is not known is to be ignored", r.is_ok() && std::get_if<ic::Unsupported>(&r.unwrap()) != nullptr);
        return;
    }
    bool some = false; std::error_code e;
    if (f.is_err()) raise(some, e, f.unwrap_err());
    if (c.is_err()) raise(some, e, c.unwrap_err());
    if (p.is_err()) raise(some, e, p.unwrap_err());
    if (o.is_err()) raise(some, e, o.unwrap_err());
    if (raddr) { auto x = ic::Address::from_string(*raddr); if (x.is_err()) raise(some, e, x.unwrap_err()); }
    if (rport) { auto x = net::Port::from_string(*rport); if (x.is_err()) raise(some, e, x.unwrap_err()); }
    if (some) { fw_prove("a malformed part makes the line malformed, with the error of the first such part", r.is_err() && r.unwrap_err() == e); return; }
    fw_prove("a line of good parts is a candidate", r.is_ok());
    auto* s = std::get_if<ic::Supported>(&r.unwrap());
    fw_prove("a line of good parts is a candidate", s != nullptr);
    const ic::Candidate& k = s->candidate;
    fw_prove("the foundation is the first part", k.foundation == f.unwrap());
    fw_prove("the component is the second part", k.component == c.unwrap());
    fw_prove("the transport is the third part", k.transport_type == t.unwrap());
    fw_prove("the priority is the fourth part", k.priority == p.unwrap());
    fw_prove("the address is the fifth part", same(k.address, a.unwrap()));
    fw_prove("the port is the sixth part", k.port == o.unwrap());
    fw_prove("the type is the part behind typ", k.type == y.unwrap());
    fw_prove("a related address is there exactly when given", k.maybe_related_address.is_some() == (raddr != nullptr));
    fw_prove("a related port is there exactly when given", k.maybe_related_port.is_some() == (rport != nullptr));
    if (raddr) fw_prove("the related address is the one given", same(k.maybe_related_address.unwrap(), ic::Address::from_string(*raddr).unwrap()));
    if (rport) fw_prove("the related port is the one given", k.maybe_related_port.unwrap() == net::Port::from_string(*rport).unwrap());
}
AI const ic::Supported* supported(const Result<ic::SDPAttrParseResult>& r) { return r.is_ok() ? std::get_if<ic::Supported>(&r.unwrap()) : nullptr; }
// one part is any text of N bytes, the others are fixed
enum Part { FOUNDATION, COMPONENT, TRANSPORT, PRIORITY, ADDRESS, PORT, TYPE };
template<Part W, unsigned N> AI void slot(const uint8_t* b) {
    uint8_t buf[64], *q = buf; const uint8_t* at; Line l;
    for (unsigned i = 0; i < N; ++i) fw_assume(b[i] != ' ');
#define PART(w, m, s) at = q; if constexpr (W == w) { for (unsigned i = 0; i < N; ++i) *q++ = b[i]; } else put(q, s); l.m = sv(at, q - at);
    put(q, "candidate:");
    PART(FOUNDATION, f, "7") put(q, " "); PART(COMPONENT, c, "2") put(q, " "); PART(TRANSPORT, t, "UDP") put(q, " "); PART(PRIORITY, p, "65") put(q, " ");
    PART(ADDRESS, a, "1.2.3.4") put(q, " "); PART(PORT, o, "9") put(q, " typ "); PART(TYPE, y, "host")
    auto r = ic::parse_sdp_attr(sv(buf, q - buf));
    line(r, l, nullptr, nullptr);
    if (auto* s = supported(r)) fw_prove("nothing behind the type, no extensions", s->extensions.empty());
}
#define SLOT(w, N) FW_ENTRY void fw_e_slot_##w##N(const uint8_t* b) { slot<w, N>(b); }
SLOT(FOUNDATION, 0) SLOT(FOUNDATION, 1) SLOT(FOUNDATION, 2) SLOT(COMPONENT, 1) SLOT(COMPONENT, 2) SLOT(TRANSPORT, 2) SLOT(TRANSPORT, 3) SLOT(PRIORITY, 1) SLOT(PRIORITY, 2)
SLOT(ADDRESS, 1) SLOT(ADDRESS, 2) SLOT(ADDRESS, 3) SLOT(PORT, 1) SLOT(PORT, 2) SLOT(TYPE, 4) SLOT(TYPE, 5)
// every part (one byte each; three of transport and type) is any text
FW_ENTRY void fw_e_parts(const uint8_t* b) {
    uint8_t buf[64], *q = buf; const uint8_t* at; Line l;
    for (unsigned i = 0; i < 8; ++i) fw_assume(b[i] != ' ');
#define ANY(m, pre, i, post) at = q; put(q, pre); *q++ = b[i]; put(q, post); l.m = sv(at, q - at);
    put(q, "candidate:");
    ANY(f, "", 0, "") put(q, " "); ANY(c, "", 1, "") put(q, " "); ANY(t, "u", 2, "p") put(q, " "); ANY(p, "", 3, "") put(q, " ");
    ANY(a, "", 4, "") put(q, " "); ANY(o, "", 5, "") put(q, " typ "); ANY(y, "hos", 6, "")
    line(ic::parse_sdp_attr(sv(buf, q - buf)), l, nullptr, nullptr);
}
// related address and port, in either order, given twice, or missing
AI uint8_t* fixed(uint8_t* q, Line& l) {
    const uint8_t* at;
#define FIX(m, s) at = q; put(q, s); l.m = sv(at, q - at);
    put(q, "candidate:"); FIX(f, "7") put(q, " "); FIX(c, "2") put(q, " "); FIX(t, "udp") put(q, " "); FIX(p, "65") put(q, " ");
    FIX(a, "1.2.3.4") put(q, " "); FIX(o, "9") put(q, " typ "); FIX(y, "srflx")
    return q;
}
AI void spaceless(const uint8_t* b, unsigned n) { for (unsigned i = 0; i < n; ++i) fw_assume(b[i] != ' '); }
AI SV add(uint8_t*& q, const uint8_t* b, unsigned n) { const uint8_t* at = q; for (unsigned i = 0; i < n; ++i) *q++ = b[i]; return sv(at, n); }
FW_ENTRY void fw_e_raddr(const uint8_t* b) {
    uint8_t buf[80]; Line l; uint8_t* q = fixed(buf, l); spaceless(b, 2);
    put(q, " raddr "); SV ra = add(q, b, 2);
    line(ic::parse_sdp_attr(sv(buf, q - buf)), l, &ra, nullptr);
}
FW_ENTRY void fw_e_rport(const uint8_t* b) {
    uint8_t buf[80]; Line l; uint8_t* q = fixed(buf, l); spaceless(b, 2);
    put(q, " rport "); SV rp = add(q, b, 2);
    line(ic::parse_sdp_attr(sv(buf, q - buf)), l, nullptr, &rp);
}
FW_ENTRY void fw_e_related(const uint8_t* b) {
    uint8_t buf[80]; Line l; uint8_t* q = fixed(buf, l); spaceless(b, 3);
    put(q, " raddr "); SV ra = add(q, b, 1); put(q, " rport "); SV rp = add(q, b + 1, 2);
    line(ic::parse_sdp_attr(sv(buf, q - buf)), l, &ra, &rp);
}
FW_ENTRY void fw_e_related_swapped(const uint8_t* b) {
    uint8_t buf[80]; Line l; uint8_t* q = fixed(buf, l); spaceless(b, 3);
    put(q, " rport "); SV rp = add(q, b + 1, 2); put(q, " raddr "); SV ra = add(q, b, 1);
    line(ic::parse_sdp_attr(sv(buf, q - buf)), l, &ra, &rp);
}
FW_ENTRY void fw_e_related_twice(const uint8_t* b) {
    uint8_t buf[80]; Line l; uint8_t* q = fixed(buf, l); spaceless(b, 2);
    put(q, " rport 77 rport "); SV rp = add(q, b, 2);
    line(ic::parse_sdp_attr(sv(buf, q - buf)), l, nullptr, &rp);
}
// extensions: name and value pairs, kept in order
template<unsigned N, unsigned M> AI void extension(const uint8_t* b) {
    uint8_t buf[80]; Line l; uint8_t* q = fixed(buf, l); spaceless(b, N + M);
    put(q, " "); SV n = add(q, b, N); put(q, " "); SV v = add(q, b + N, M);
    fw_assume(!(n == lit("raddr")) && !(n == lit("rport")));
    auto r = ic::parse_sdp_attr(sv(buf, q - buf));
    line(r, l, nullptr, nullptr);
    if (auto* s = supported(r)) fw_prove("an extension keeps its name and value", s->extensions.size() == 1 && SV(s->extensions.data()[0].att_name) == n && SV(s->extensions.data()[0].att_value) == v);
}
FW_ENTRY void fw_e_ext_1_1(const uint8_t* b) { extension<1, 1>(b); }
FW_ENTRY void fw_e_ext_5_1(const uint8_t* b) { extension<5, 1>(b); }
FW_ENTRY void fw_e_ext_0_2(const uint8_t* b) { extension<0, 2>(b); }
FW_ENTRY void fw_e_ext_10_5(const uint8_t* b) { extension<10, 5>(b); }
FW_ENTRY void fw_e_ext_two(const uint8_t* b) {
    uint8_t buf[96]; Line l; uint8_t* q = fixed(buf, l); spaceless(b, 6);
    put(q, " "); SV n = add(q, b, 1); put(q, " "); SV v = add(q, b + 1, 1); put(q, " rport 5 "); SV m = add(q, b + 2, 2); put(q, " "); SV w = add(q, b + 4, 2);
    SV rp("5", 1);
    auto r = ic::parse_sdp_attr(sv(buf, q - buf));
    line(r, l, nullptr, &rp);
    if (auto* s = supported(r)) {
        fw_prove("extensions are kept in their order", s->extensions.size() == 2 && SV(s->extensions.data()[0].att_name) == n && SV(s->extensions.data()[0].att_value) == v);
        fw_prove("extensions are kept in their order", SV(s->extensions.data()[1].att_name) == m && SV(s->extensions.data()[1].att_value) == w);
    }
}
// lines cut short
AI void cut(const char* s, const char* why) {
    auto r = ic::parse_sdp_attr(lit(s));
    if (r.is_ok()) fw_prove("a line that is cut short is no candidate", std::get_if<ic::Supported>(&r.unwrap()) == nullptr);
    else fw_prove("a line that is cut short is no candidate", true);
}
#define CUT(n, s) FW_ENTRY void fw_e_cut_##n() { cut(s, ""); }
CUT(empty, "candidate:") CUT(foundation, "candidate:7") CUT(component, "candidate:7 2") CUT(transport, "candidate:7 2 udp") CUT(priority, "candidate:7 2 udp 65")
CUT(address, "candidate:7 2 udp 65 1.2.3.4") CUT(port, "candidate:7 2 udp 65 1.2.3.4 9") CUT(typ, "candidate:7 2 udp 65 1.2.3.4 9 typ")
CUT(raddr, "candidate:7 2 udp 65 1.2.3.4 9 typ srflx raddr") CUT(rport, "candidate:7 2 udp 65 1.2.3.4 9 typ srflx raddr 1.1.1.1 rport") CUT(name, "candidate:7 2 udp 65 1.2.3.4 9 typ host generation")
FW_ENTRY void fw_e_cut_error() {
    fw_prove("a missing port makes the line malformed", ic::parse_sdp_attr(lit("candidate:7 2 udp 65 1.example 9")).is_err());
    fw_prove("a missing related port makes the line malformed", ic::parse_sdp_attr(lit("candidate:7 2 udp 65 1.example 9 typ srflx rport")).is_err());
    fw_prove("an extension without value makes the line malformed", ic::parse_sdp_attr(lit("candidate:7 2 udp 65 1.example 9 typ host generation")).is_err());
}
// the word typ
FW_ENTRY void fw_e_typ(const uint8_t* b) {
    uint8_t buf[64], *q = buf; Line l; spaceless(b, 3); const uint8_t* at;
    put(q, "candidate:"); FIX(f, "7") put(q, " "); FIX(c, "2") put(q, " "); FIX(t, "udp") put(q, " "); FIX(p, "65") put(q, " ");
    FIX(a, "a.example") put(q, " "); FIX(o, "9") put(q, " "); add(q, b, 3); put(q, " "); FIX(y, "host")
    auto r = ic::parse_sdp_attr(sv(buf, q - buf));
    if ((b[0] == 't') & (b[1] == 'y') & (b[2] == 'p')) line(r, l, nullptr, nullptr);
    else fw_prove("the type is announced by typ", r.is_err() && !(r.unwrap_err() == make_error_code(IE::unknown_candidate_type)));
}
// the prefix
FW_ENTRY void fw_e_prefix_any(const uint8_t* b) {
    uint8_t buf[64], *q = buf; add(q, b, 10);
    put(q, "7 2 udp 65 a.example 9 typ host");
    auto r = ic::parse_sdp_attr(sv(buf, q - buf));
    const bool k = (b[0] == 'c') & (b[1] == 'a') & (b[2] == 'n') & (b[3] == 'd') & (b[4] == 'i') & (b[5] == 'd') & (b[6] == 'a') & (b[7] == 't') & (b[8] == 'e') & (b[9] == ':');
    if (k) fw_prove("a candidate line starts with candidate:", r.is_ok());
    else fw_prove("any other line is refused", r.is_err() && r.unwrap_err() == make_error_code(IE::invalid_attr_prefix));
}
FW_ENTRY void fw_e_prefix_short(const uint8_t* b, size_t n) {
    fw_assume(n < 10);
    auto r = ic::parse_sdp_attr(sv(b, n));
    fw_prove("any other line is refused", r.is_err() && r.unwrap_err() == make_error_code(IE::invalid_attr_prefix));
}
// any short line at all
template<unsigned N> AI void wild(const uint8_t* b) {
    uint8_t buf[64], *q = buf; put(q, "candidate:"); add(q, b, N);
    auto r = ic::parse_sdp_attr(sv(buf, q - buf));
    if (r.is_ok()) fw_prove("seven parts are needed for a candidate", std::get_if<ic::Supported>(&r.unwrap()) == nullptr);
    else fw_prove("seven parts are needed for a candidate", true);
}
FW_ENTRY void fw_e_wild1(const uint8_t* b) { wild<1>(b); }
FW_ENTRY void fw_e_wild3(const uint8_t* b) { wild<3>(b); }
FW_ENTRY void fw_e_wild5(const uint8_t* b) { wild<5>(b); }
