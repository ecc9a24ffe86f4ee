// the small building blocks every part is made of
#include "fwentry.hpp"
#include <optional>
#include <string>
#include <string_view>
#include <variant>
#include <vector>
#include "stat/stat_counter.hpp"
#include "stun/stun_client_udp_handle.hpp"
#include "util/util_flat.hpp"
#include "util/util_result_sugar.hpp"
#include "util/util_tagged_type.hpp"
#include "util/util_token_stream.hpp"
#include "util/util_typed_bool.hpp"
#include "util/util_variant_overloaded.hpp"
#include "stun/stun_error.hpp"
#define AI static inline __attribute__((always_inline))
using namespace freewebrtc; using SV = std::string_view;
struct T1; struct T2;
using Num = util::TaggedType<uint64_t, T1>; using Flag = util::TypedBool<T1>; using Name = util::TaggedType<std::string, T2>;
// counters
FW_ENTRY void fw_e_counter() {
    stat::Counter c, d;
    fw_prove("a counter starts at zero", c.count() == 0);
    for (unsigned i = 1; i <= 5; ++i) { c.inc(); fw_prove("a counter counts each event once", c.count() == i); }
    fw_prove("counters are independent", d.count() == 0);
    stat::Counter e = c; e.inc();
    fw_prove("a copied counter counts on its own", e.count() == 6 && c.count() == 5);
}
FW_ENTRY void fw_e_counter_any(stat::Counter& c) { const unsigned n = c.count(); fw_assume(n < 0xFFFFFFFFu); c.inc(); fw_prove("a counter counts each event once", c.count() == n + 1); }
// tagged values
FW_ENTRY void fw_e_tagged(uint64_t a, uint64_t b) {
    const Num x{a}, y = Num::copy_from(b); Num z = Num::move_from(uint64_t(a)), w;
    fw_prove("a tagged value is the value it was made from", x.value == a && y.value == b && z.value == a);
    fw_prove("tagged values are equal exactly when their values are", (x == y) == (a == b) && (x != y) == (a != b) && x == z);
    w = y; const Num v(x), u(std::move(z));
    fw_prove("copies and moves of a tagged value keep it", w.value == b && v.value == a && u.value == a);
}
struct Tok {
    uint64_t v; unsigned copies = 0;
    explicit Tok(uint64_t x) : v(x) {}
    Tok(const Tok& o) : v(o.v), copies(o.copies + 1) {}
    Tok(Tok&& o) : v(o.v), copies(o.copies) { o.v = ~o.v; }
    Tok& operator=(const Tok& o) { v = o.v; copies = o.copies + 1; return *this; }
    Tok& operator=(Tok&& o) { v = o.v; copies = o.copies; o.v = ~o.v; return *this; }
    bool operator==(const Tok& o) const { return v == o.v; }
};
FW_ENTRY void fw_e_tagged_source(uint64_t a) {
    using Tagged = util::TaggedType<Tok, T1>;
    Tok p{a}, q{a}, r{a}, s{a};
    const Tagged x = Tagged::copy_from(p), y{q};
    fw_prove("tagging a copy leaves the value it was made from alone", p.v == a && q.v == a && x.value.v == a && y.value.v == a);
    const Tagged z = Tagged::move_from(std::move(r)), w{std::move(s)};
    fw_prove("tagging a value that is given away does not copy it", z.value.v == a && w.value.v == a && z.value.copies == 0 && w.value.copies == 0);
}
FW_ENTRY void fw_e_name(const uint8_t* b) {
    const Name x{std::string((const char*)b, 20)}; Name y = x; y.value[19] = (char)b[20];
    fw_prove("a tagged text owns its characters", x.value.size() == 20 && x.value[19] == (char)b[19] && y.value[19] == (char)b[20]);
    fw_prove("tagged texts are equal exactly when their characters are", (x == y) == (b[19] == b[20]));
    const Name z{std::string((const char*)b, 19)};
    fw_prove("tagged texts of different length differ", !(x == z));
}
FW_ENTRY void fw_e_flag(bool a) { const Flag f{a}; const Flag g = f; fw_prove("a typed flag is the flag it was made from", (bool)f == a && (bool)g == a); }
// handles
FW_ENTRY void fw_e_handle(unsigned a, unsigned b) {
    using stun::client_udp::Handle; const Handle x{a}, y{b}; const stun::client_udp::HandleHash h{};
    fw_prove("handles are equal exactly when their numbers are", (x == y) == (a == b) && (x != y) == (a != b));
    fw_prove("handles are ordered by their numbers", (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b));
    if (a == b) fw_prove("equal handles have equal hashes", h(x) == h(y));
}
// overloaded visitors pick the alternative that is held
FW_ENTRY void fw_e_visit(unsigned k, uint32_t n) {
    struct A { uint32_t v; }; struct B { uint32_t v; }; struct C { uint32_t v; };
    std::variant<A, B, C> x = A{n};
    if (k == 1) x = B{n}; else if (k == 2) x = C{n};
    const unsigned got = std::visit(util::overloaded{[](const A& a) { return a.v ^ 1u; }, [](const B& b) { return b.v ^ 2u; }, [](auto&& c) { return c.v ^ 4u; }}, std::as_const(x));
    fw_prove("a visitor is called for the alternative that is held", got == (n ^ (k == 1 ? 2u : k == 2 ? 4u : 1u)));
}
// flattening
template<unsigned A, unsigned B, unsigned C> AI void flat(const uint8_t* b) {
    std::vector<std::vector<uint8_t>> v; unsigned k = 0;
    for (unsigned n : {A, B, C}) { std::vector<uint8_t> r; for (unsigned i = 0; i < n; ++i) r.push_back(b[k++]); v.push_back(std::move(r)); }
    const auto f = util::flat_vec(v);
    bool same = f.size() == A + B + C;
    for (unsigned i = 0; same && i < A + B + C; ++i) same = f[i] == b[i];
    fw_prove("flattening keeps every element, in order", same);
}
FW_ENTRY void fw_e_flat000(const uint8_t* b) { flat<0, 0, 0>(b); }
FW_ENTRY void fw_e_flat102(const uint8_t* b) { flat<1, 0, 2>(b); }
FW_ENTRY void fw_e_flat030(const uint8_t* b) { flat<0, 3, 0>(b); }
FW_ENTRY void fw_e_flat224(const uint8_t* b) { flat<2, 2, 4>(b); }
// result pipes
AI Result<uint32_t> given(bool ok, uint32_t n) { if (ok) return Result<uint32_t>{n}; return stun::make_error_code(stun::ClientError::no_integrity_attribute_in_response); }
AI bool failed(const auto& r, stun::ClientError e) { return r.is_err() && r.unwrap_err() == stun::make_error_code(e); }
FW_ENTRY void fw_e_pipe(bool ok, bool next, uint32_t n) {
    unsigned calls = 0;
    auto plain = [&](uint32_t v) { ++calls; return v ^ 7u; };
    auto step = [&](uint32_t v) -> Result<uint32_t> { ++calls; if (!next) return stun::make_error_code(stun::ClientError::transaction_not_found); return Result<uint32_t>{v ^ 9u}; };
    auto a = given(ok, n) > plain;
    fw_prove("a pipe calls its step once on success and never on failure", calls == (ok ? 1u : 0u));
    fw_prove("a pipe gives what the step gives", ok ? a.is_ok() && a.unwrap() == (n ^ 7u) : failed(a, stun::ClientError::no_integrity_attribute_in_response));
    calls = 0;
    auto g = given(ok, n); const auto h = given(ok, n);
    auto b = g > step; auto c = h > step;
    fw_prove("a pipe calls its step once on success and never on failure", calls == (ok ? 2u : 0u));
    const bool done = ok && next;
    fw_prove("a pipe of a failing step fails with its error, not a nested result", done ? b.is_ok() && b.unwrap() == (n ^ 9u) && c.is_ok() && c.unwrap() == (n ^ 9u) : failed(b, ok ? stun::ClientError::transaction_not_found : stun::ClientError::no_integrity_attribute_in_response) && failed(c, ok ? stun::ClientError::transaction_not_found : stun::ClientError::no_integrity_attribute_in_response));
    fw_prove("a pipe leaves a result it was not given to keep", g.is_ok() == ok && (!ok || g.unwrap() == n));
}
// token streams
AI bool is(const util::TokenStream::MaybToken& t, const char* b) { return t.is_some() && t.unwrap().size() == 1 && t.unwrap()[0] == *b; }
FW_ENTRY void fw_e_tokens(const uint8_t* b) {
    const char* s = (const char*)b;
    std::vector<SV> v; for (unsigned i = 0; i < 4; ++i) v.push_back(SV(s + i, 1));
    util::TokenStream t{v};
    v.clear();
    auto x = t.required(); fw_prove("tokens come in their order", x.is_ok() && x.unwrap()[0] == s[0] && x.unwrap().size() == 1);
    fw_prove("tokens come in their order", is(t.optional(), s + 1));
    const char c = 'k'; auto m = t.required(SV(&c, 1));
    fw_prove("an expected token is accepted exactly when it is there", m.is_ok() == (s[2] == 'k'));
    unsigned calls = 0; char seen = 0;
    auto f = t.required_bind([&](const SV& w) -> Result<char> { ++calls; seen = w[0]; return Result<char>{w[0]}; });
    fw_prove("each token is passed once to the reader that asks for it", calls == 1 && seen == s[3] && f.is_ok() && f.unwrap() == s[3]);
    fw_prove("after the last token there is none", t.optional().is_none() && t.required().is_err() && t.required(SV(&c, 1)).is_err() && t.optional().is_none());
    auto n = t.required_bind([&](const SV&) -> Result<char> { ++calls; return Result<char>{'x'}; });
    fw_prove("a reader is not called without a token", n.is_err() && calls == 1);
}
FW_ENTRY void fw_e_tokens0() { util::TokenStream t{std::vector<SV>{}}; fw_prove("an empty stream has no token", t.optional().is_none() && t.required().is_err()); }
FW_ENTRY void fw_e_token_long(const uint8_t* b) {
    const char* s = (const char*)b; util::TokenStream t{std::vector<SV>{SV(s, 3), SV(s + 3, 3)}};
    auto m = t.required(SV("typ", 3)); fw_prove("an expected token is compared in full", m.is_ok() == (s[0] == 't' && s[1] == 'y' && s[2] == 'p'));
    auto k = t.required(SV("ty", 2)); fw_prove("a prefix of a token is not the token", k.is_err());
}
