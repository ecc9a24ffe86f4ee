// character classes, case-insensitive names, domain names
#include "fwentry.hpp"
#include <string_view>
#include "abnf/abnf.hpp"
#include "ice/ice_abnf.hpp"
#include "net/net_fqdn.hpp"
#include "net/net_error.hpp"
#define AI static inline __attribute__((always_inline))
using namespace freewebrtc; using net::Fqdn; using NE = net::Error;
AI std::string_view text(const uint8_t* b, size_t n) { return std::string_view((const char*)b, n); }
template<typename R> AI bool is(const R& r, NE e) { return r.is_err() && r.unwrap_err() == make_error_code(e); }
AI bool alpha(uint8_t c) { return (uint8_t)((c | 32) - 'a') < 26; }
AI bool digit(uint8_t c) { return (uint8_t)(c - '0') < 10; }
FW_ENTRY void fw_e_classes(uint8_t c) {
    fw_prove("ALPHA is A-Z and a-z", abnf::is_ALPHA((char)c) == alpha(c));
    fw_prove("DIGIT is 0-9", abnf::is_DIGIT((char)c) == digit(c));
    fw_prove("an ice character is a letter, a digit, + or /", ice::abnf::is_ice_char((char)c) == (alpha(c) | digit(c) | (c == '+') | (c == '/')));
}
AI uint8_t low(uint8_t c) { return (uint8_t)(c - 'A') < 26 ? c + 32 : c; }
template<unsigned N> AI void eqs(const uint8_t* a, const uint8_t* b) {
    bool k = true; for (unsigned i = 0; i < N; ++i) k = k & (low(a[i]) == low(b[i]));
    fw_prove("names are compared letter by letter, ignoring case", abnf::eq_string(text(a, N), text(b, N)) == k);
}
FW_ENTRY void fw_e_eqs0(const uint8_t* a, const uint8_t* b) { fw_prove("empty names are equal", abnf::eq_string(text(a, 0), text(b, 0))); }
FW_ENTRY void fw_e_eqs1(const uint8_t* a, const uint8_t* b) { eqs<1>(a, b); }
FW_ENTRY void fw_e_eqs2(const uint8_t* a, const uint8_t* b) { eqs<2>(a, b); }
FW_ENTRY void fw_e_eqs3(const uint8_t* a, const uint8_t* b) { eqs<3>(a, b); }
FW_ENTRY void fw_e_eqs_len(const uint8_t* a, const uint8_t* b, size_t n, size_t m) { fw_assume(n != m); fw_prove("names of different lengths differ", !abnf::eq_string(text(a, n), text(b, m))); }
// domain names: labels of letters, digits, _ and inner hyphens, joined by dots
AI bool ld(uint8_t c) { return alpha(c) | digit(c) | (c == '_'); }
// the shortest-match-free reading: length of the longest prefix that is a domain name (0: none)
template<unsigned N> AI unsigned prefix(const uint8_t* b) {
    unsigned end = 0; bool start = true;      // start: a label may begin here
    for (unsigned i = 0; i < N; ++i) {
        const uint8_t c = b[i];
        if (ld(c)) { end = i + 1; start = false; }
        else if (start) return end;
        else if (c == '-') continue;
        else if (c == '.' && end == i) { end = i + 1; start = true; }
        else return end;
    }
    return end;
}
template<unsigned N> AI void fqdn(const uint8_t* b) {
    const unsigned n = prefix<N>(b);
    auto p = Fqdn::parse(text(b, N)); auto r = Fqdn::from_string(text(b, N));
    if (n == 0) {
        fw_prove("a domain name starts with a letter, digit or underscore", is(p, NE::fqdn_invalid_label_expect_letter) && is(r, NE::fqdn_invalid_label_expect_letter));
        return;
    }
    fw_prove("a text that starts with a domain name is parsed", p.is_ok());
    const std::string& s = p.unwrap().value.to_string();
    bool same = s.size() == n; for (unsigned i = 0; i < n; ++i) same = same & ((uint8_t)s.data()[i] == b[i]);
    fw_prove("the domain name is the longest prefix of labels joined by dots", same);
    fw_prove("the rest is what follows the domain name", p.unwrap().rest.size() == N - n && p.unwrap().rest.data() == (const char*)b + n);
    if (n != N) { fw_prove("a domain name with anything behind it is refused", is(r, NE::fqdn_not_fully_parsed)); return; }
    fw_prove("a complete domain name is accepted", r.is_ok());
    const std::string& t = r.unwrap().to_string();
    bool all = t.size() == N; for (unsigned i = 0; i < N; ++i) all = all & ((uint8_t)t.data()[i] == b[i]);
    fw_prove("an accepted domain name keeps its text", all);
}
#define FQDN(N) FW_ENTRY void fw_e_fqdn##N(const uint8_t* b) { fqdn<N>(b); }
FQDN(1) FQDN(2) FQDN(3) FQDN(4) FQDN(5)
FW_ENTRY void fw_e_fqdn0() { fw_prove("an empty text is no domain name", is(Fqdn::from_string(std::string_view()), NE::fqdn_invalid_label_expect_letter)); }
