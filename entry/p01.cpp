// STUN message framing (RFC 8489 sections 5 and 6.3, RFC 3489 backward compatibility)
#include "stunref.hpp"
static inline bool code(const craftpp::error::Error& e, ParseError c) { return e == stun::make_error_code(c); }
struct Delta {
    ParseStat s;
    explicit Delta(const ParseStat& st) : s(st) {}
};
#define D(F) (st.F.count() - was.s.F.count())
#define CAUSES (D(invalid_size) + D(not_padded) + D(message_length_error) + D(magic_cookie_error) + D(message_type_error))
template<bool Bare> static inline __attribute__((always_inline)) void framing(const util::ConstBinaryView& v, ParseStat& st) {
    const uint8_t* b = v.data(); const size_t n = v.size();
    const Delta was(st);
    auto r = Message::parse(v, st);
    fw_prove("every parse counts either one success or one error", D(success) + D(error) == 1 && D(success) <= 1);
    fw_prove("a parse that fails is counted as an error and one that succeeds as a success", r.is_ok() == (D(success) == 1));
    unsigned causes = 0; bool over = false;
    {
        const auto* c = (const stat::Counter*)&st; const auto* p = (const stat::Counter*)&was.s;
        for (unsigned i = 0; i < sizeof(ParseStat) / sizeof(stat::Counter); ++i) {
            if (&c[i] == &st.success || &c[i] == &st.error) continue;
            const unsigned d = c[i].count() - p[i].count();
            causes += d; over = over | (d > 1);
        }
    }
    if (r.is_ok()) fw_prove("a successful parse counts no cause of failure", causes == 0 && !over);
    else fw_prove("a failed parse counts exactly one cause", causes == 1 && !over);
    if (n < 20) {
        fw_prove("a message shorter than its header is refused", r.is_err());
        if (r.is_err()) fw_prove("short messages report invalid_message_size", code(r.unwrap_err(), ParseError::invalid_message_size));
        fw_prove("short messages are counted as invalid size", D(invalid_size) == 1 && CAUSES == 1);
        return;
    }
    if (b[0] & 0xC0) {
        fw_prove("a message whose top two bits are not zero is refused", r.is_err());
        if (r.is_err()) fw_prove("a wrong message type reports invalid_message_type", code(r.unwrap_err(), ParseError::invalid_message_type));
        fw_prove("a wrong message type is counted", D(message_type_error) == 1 && CAUSES == 1);
        return;
    }
    if (b[3] & 3) {
        fw_prove("a length that is not a multiple of four is refused", r.is_err());
        if (r.is_err()) fw_prove("an unpadded length reports not_padded_attributes", code(r.unwrap_err(), ParseError::not_padded_attributes));
        fw_prove("an unpadded length is counted", D(not_padded) == 1 && CAUSES == 1);
        return;
    }
    if (be16(b + 2) != n - 20) {
        fw_prove("a length field other than the bytes after the header is refused", r.is_err());
        if (r.is_err()) fw_prove("a wrong length reports invalid_message_len", code(r.unwrap_err(), ParseError::invalid_message_len));
        fw_prove("a wrong length is counted", D(message_length_error) == 1 && CAUSES == 1);
        return;
    }
    const bool cookie = be32(b + 4) == 0x2112A442, request = (b[0] & 1) == 0 && (b[1] & 0x10) == 0;
    if (!cookie && !request) {
        fw_prove("a response or indication without the magic cookie is refused", r.is_err());
        if (r.is_err()) fw_prove("a missing cookie reports invalid_magic_cookie", code(r.unwrap_err(), ParseError::invalid_magic_cookie));
        fw_prove("a missing cookie is counted", D(magic_cookie_error) == 1 && CAUSES == 1);
        return;
    }
    fw_prove("a well formed header is not refused for its framing", CAUSES == 0);
    if (Bare) fw_prove("a header without attributes is a message", r.is_ok());
    if (r.is_err()) {
        fw_prove("a well formed header does not report a framing error", !code(r.unwrap_err(), ParseError::invalid_message_size) && !code(r.unwrap_err(), ParseError::invalid_message_type) && !code(r.unwrap_err(), ParseError::not_padded_attributes) && !code(r.unwrap_err(), ParseError::invalid_message_len) && !code(r.unwrap_err(), ParseError::invalid_magic_cookie));
        return;
    }
    const Message& m = r.unwrap();
    fw_prove("a request without the magic cookie is an RFC 3489 message, anything else is not", (bool)m.is_rfc3489 == !cookie);
    const auto t = m.header.transaction_id.view();
    if (cookie) {
        fw_prove("the transaction id is the 96 bits after the cookie", t.size() == 12 && same<12>(t.data(), b + 8));
    } else {
        fw_prove("an RFC 3489 transaction id is the 128 bits after the length", t.size() == 16 && same<16>(t.data(), b + 4));
    }
    const unsigned cls = (b[0] & 1) << 1 | (b[1] >> 4 & 1);
    fw_prove("the class is the C bits of the type", m.header.cls == (cls == 0 ? Class::request() : cls == 1 ? Class::indication() : cls == 2 ? Class::success_response() : Class::error_response()));
    fw_prove("the method is Binding exactly when its bits are 1", (m.header.method == Method::binding()) == ((b[0] & 0x3E) == 0 && (b[1] & 0xEF) == 1));
    if (Bare) {
        fw_prove("no attributes are reported for a bare header", m.attribute_set.integrity().is_none() && m.attribute_set.username().is_none() && m.attribute_set.xor_mapped().is_none() && m.attribute_set.mapped().is_none() && m.attribute_set.error_code().is_none() && !m.attribute_set.has_fingerprint() && !m.attribute_set.has_use_candidate() && m.attribute_set.unknown_comprehension_required().empty());
        fw_prove("a bare header has no integrity interval", m.integrity_interval.is_none());
    }
}
FW_ENTRY void fw_e_f_any(const util::ConstBinaryView& v, ParseStat& st) { framing<false>(v, st); }
FW_ENTRY void fw_e_f_bare(const uint8_t* b, ParseStat& st) { framing<true>(util::ConstBinaryView(b, 20), st); }
