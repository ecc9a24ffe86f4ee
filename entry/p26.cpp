// error codes: values, categories, texts
#include "fwentry.hpp"
#include <string>
#include <string_view>
#include "stun/stun_error.hpp"
#include "net/net_error.hpp"
#include "rtp/rtp_error.hpp"
#include "util/util_error_code.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
#include "util/util_token_stream.hpp"
#include "crypto/openssl/openssl_error.hpp"
#define AI static inline __attribute__((always_inline))
using namespace freewebrtc; using SV = std::string_view;
AI SV lit(const char* s) { return SV(s, __builtin_strlen(s)); }
template<typename E, E LAST> AI void codes(int a, int b) {
    constexpr int n = (int)LAST;
    const std::error_code x = make_error_code((E)a), y = make_error_code((E)b);
    fw_prove("an error code carries the value of its enumerator", x.value() == a);
    fw_prove("error codes of a category are equal exactly when their values are", (x == y) == (a == b));
    fw_prove("only the success code is no error", (bool)x == (a != 0));
    if ((unsigned)a <= (unsigned)n && (unsigned)b <= (unsigned)n) { if (a != b) fw_prove("different errors have different texts", !(SV(x.message()) == SV(y.message()))); }
    else if ((unsigned)a <= (unsigned)n) fw_prove("a known error is not described as an unknown one", !(SV(x.message()) == SV(y.message())));
    fw_prove("every error has a text", !x.message().empty());
}
#define CODES(name, E, LAST) FW_ENTRY void fw_e_##name(int a, int b) { codes<E, E::LAST>(a, b); }
CODES(parse, stun::ParseError, invalid_message_type)
CODES(client, stun::ClientError, no_alternate_server_in_response)
CODES(net, net::Error, invalid_port_value)
CODES(rtp, rtp::Error, invalid_packet_padding)
CODES(util, util::ErrorCode, value_required_in_maybe)
CODES(ice, ice::candidate::Error, invalid_local_preference_value)
FW_ENTRY void fw_e_categories(int a, int b) {
    const std::error_code c[6] = { make_error_code((stun::ParseError)a), make_error_code((stun::ClientError)a), make_error_code((net::Error)a), make_error_code((rtp::Error)a), make_error_code((util::ErrorCode)a), make_error_code((ice::candidate::Error)a) };
    const std::error_code d[6] = { make_error_code((stun::ParseError)b), make_error_code((stun::ClientError)b), make_error_code((net::Error)b), make_error_code((rtp::Error)b), make_error_code((util::ErrorCode)b), make_error_code((ice::candidate::Error)b) };
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) if (i != j) fw_prove("errors of different parts of the library never compare equal", !(c[i] == d[j]));
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) if (i != j) fw_prove("every part of the library has its own error category name", !(lit(c[i].category().name()) == lit(d[j].category().name())));
}
FW_ENTRY void fw_e_token() {
    util::TokenStream t(util::TokenStream::Container{SV("a", 1)});
    auto r = t.required(SV("b", 1)); auto s = t.required(SV("b", 1)); auto u = t.required();
    fw_prove("an unexpected token is not reported as a missing one", r.is_err() && s.is_err() && u.is_err() && !(r.unwrap_err() == s.unwrap_err()) && s.unwrap_err() == u.unwrap_err());
    if (r.is_ok() || s.is_ok()) return;
    const std::error_code a = r.unwrap_err().code(), b = s.unwrap_err().code(), f(7777, a.category());
    fw_prove("every error has a text", !a.message().empty() && !b.message().empty());
    fw_prove("different errors have different texts", !(SV(a.message()) == SV(b.message())));
    fw_prove("a known error is not described as an unknown one", !(SV(a.message()) == SV(f.message())) && !(SV(b.message()) == SV(f.message())));
    const char* n[6] = { make_error_code((stun::ParseError)1).category().name(), make_error_code((stun::ClientError)1).category().name(), make_error_code((net::Error)1).category().name(), make_error_code((rtp::Error)1).category().name(), make_error_code((util::ErrorCode)1).category().name(), make_error_code((ice::candidate::Error)1).category().name() };
    for (int i = 0; i < 6; ++i) fw_prove("every part of the library has its own error category name", !(lit(n[i]) == lit(a.category().name())));
    fw_prove("a failure reported is a failure", (bool)a && (bool)b);
}
FW_ENTRY void fw_e_openssl(int a, int b) {
    const std::error_code x = crypto::openssl::make_error_code(a), y = crypto::openssl::make_error_code(b);
    fw_prove("an error code carries the value of its enumerator", x.value() == a);
    fw_prove("error codes of a category are equal exactly when their values are", (x == y) == (a == b));
    fw_prove("only the success code is no error", (bool)x == (a != 0));
    for (const char* n : { make_error_code((stun::ParseError)1).category().name(), make_error_code((net::Error)1).category().name(), make_error_code((util::ErrorCode)1).category().name() })
        fw_prove("every part of the library has its own error category name", !(lit(n) == lit(x.category().name())));
    (void)x.message();
}
