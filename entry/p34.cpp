// What a response means to the caller: endpoint, round trip, or the reason of failure
#include "client.hpp"
struct World {
    Client c; Rand rnd; unsigned hnd = 0; bool ok = false;
    World(const uint8_t* b, int64_t t, const Client::Settings& s = {}) : c(s), rnd{b} {
        auto r = c.create(rnd, at(t), Client::Request{path(b + 64), {}, {}});
        if (!r.is_ok()) return;
        hnd = r.unwrap().value; ok = sends(c.next(at(t)));
    }
    Client::Effect answer(View v, int64_t t) { fw_prove("an answer is accepted", c.response(at(t), v).is_ok()); return c.next(at(t)); }
};
template<typename R> AI const R* reason(const Client::Effect& e) { const auto* f = std::get_if<Failed>(&e); return f ? std::get_if<R>(&f->reason) : nullptr; }
AI const net::ip::AddressV4* ip4(const net::ip::Address& a) { return std::get_if<net::ip::AddressV4>(&a.value()); }
AI bool is4(const net::ip::Address& a, const uint8_t* p) { const auto v = a.view(); return ip4(a) != nullptr && v.size() == 4 && same<4>(v.data(), p); }
AI bool is6(const net::ip::Address& a, const uint8_t* p) { const auto v = a.view(); return std::get_if<net::ip::AddressV6>(&a.value()) != nullptr && v.size() == 16 && same<16>(v.data(), p); }
#define T fw_assume(0 <= d && d < 500000)
#define A const uint8_t *b, const uint8_t *x, int64_t t, int64_t d
static const uint8_t COOKIE[4] = {0x21, 0x12, 0xA4, 0x42};
// success: the address the server saw
FW_ENTRY void fw_e_xor4(A) {
    T; World w(b, t); if (!w.ok) return;
    Reply r(x); r.address(T_XOR);
    uint8_t want[4]; for (unsigned i = 0; i < 4; ++i) want[i] = x[28 + i] ^ COOKIE[i];
    const uint16_t port = be16(x + 26) ^ 0x2112;
    auto e = w.answer(r.close(true, b), t + d);
    const auto* ok = std::get_if<Client::TransactionOk>(&e);
    fw_prove("XOR-MAPPED-ADDRESS completes the transaction", ok && ok->handle.value == w.hnd);
    if (!ok) return;
    fw_prove("the endpoint is the decoded XOR-MAPPED-ADDRESS", is4(ok->result.address, want) && ok->result.port.value() == port);
    fw_prove("the round trip of an answer to the first request is measured", ok->round_trip.is_some() && ok->round_trip.unwrap() == us(d));
    fw_prove("the response is handed over", ok->response.header.cls == Class::success_response() && same<12>(ok->response.header.transaction_id.view().data(), b) && ok->response.attribute_set.xor_mapped().is_some());
}
FW_ENTRY void fw_e_xor6(A) {
    T; World w(b, t); if (!w.ok) return;
    Reply r(x); uint8_t* v = r.attr(T_XOR, 20); v[0] = 0; v[1] = 2;
    uint8_t want[16]; for (unsigned i = 0; i < 16; ++i) want[i] = x[28 + i] ^ (i < 4 ? COOKIE[i] : b[i - 4]);
    auto e = w.answer(r.close(true, b), t + d);
    const auto* ok = std::get_if<Client::TransactionOk>(&e);
    fw_prove("XOR-MAPPED-ADDRESS completes the transaction", ok && ok->handle.value == w.hnd);
    if (ok) fw_prove("the endpoint is the decoded XOR-MAPPED-ADDRESS", is6(ok->result.address, want));
}
FW_ENTRY void fw_e_mapped(A) {
    T; World w(b, t); if (!w.ok) return;
    Reply r(x); r.address(T_MAPPED);
    auto e = w.answer(r.close(true, b), t + d);
    const auto* ok = std::get_if<Client::TransactionOk>(&e);
    fw_prove("MAPPED-ADDRESS alone completes the transaction", ok && ok->handle.value == w.hnd);
    if (ok) fw_prove("the endpoint is the MAPPED-ADDRESS", is4(ok->result.address, x + 28) && ok->result.port.value() == be16(x + 26) && ok->round_trip.is_some() && ok->round_trip.unwrap() == us(d));
}
template<bool First> AI void both(A) {
    T; World w(b, t); if (!w.ok) return;
    Reply r(x); r.address(First ? T_XOR : T_MAPPED); r.address(First ? T_MAPPED : T_XOR);
    const unsigned o = First ? 28 : 40;
    uint8_t want[4]; for (unsigned i = 0; i < 4; ++i) want[i] = x[o + i] ^ COOKIE[i];
    auto e = w.answer(r.close(true, b), t + d);
    const auto* ok = std::get_if<Client::TransactionOk>(&e);
    fw_prove("XOR-MAPPED-ADDRESS is preferred to MAPPED-ADDRESS", ok && is4(ok->result.address, want));
}
FW_ENTRY void fw_e_both1(A) { both<true>(b, x, t, d); }
FW_ENTRY void fw_e_both2(A) { both<false>(b, x, t, d); }
FW_ENTRY void fw_e_rtx(A) {
    T; World w(b, t); if (!w.ok) return;
    if (!sends(w.c.next(at(t + 500000)))) return;
    Reply r(x); r.address(T_XOR);
    auto e = w.answer(r.close(true, b), t + 500000 + d);
    const auto* ok = std::get_if<Client::TransactionOk>(&e);
    fw_prove("after a retransmission the round trip is unknown", ok && ok->round_trip.is_none());
}
FW_ENTRY void fw_e_noaddr(A) {
    T; World w(b, t); if (!w.ok) return;
    auto e = w.answer(Reply(x).close(true, b), t + d);
    const auto* f = reason<Failed::Error>(e);
    fw_prove("a success response without an address is a failure of its own", f && f->code == stun::make_error_code(ClientError::no_address_in_response));
}
// unknown comprehension-required attributes
template<bool Ok> AI void unknown(A) {
    T; World w(b, t); if (!w.ok) return;
    Reply r(x);
    if (Ok) r.address(T_XOR); else r.error(4, 0);
    const uint16_t p = be16(x + 200) | 0x4000, q = be16(x + 202) | 0x4000, o = be16(x + 204) | 0xC000;
    r.attr(p, 0); r.attr(o, 2); r.attr(q, 3);
    auto e = w.answer(r.close(Ok, b), t + d);
    if (p < 0x8000 && q < 0x8000) {
        const auto* f = reason<Failed::UnknownComprehensionRequiredAttribute>(e);
        fw_prove("unknown comprehension-required attributes fail the transaction and are listed", f && f->attrs.size() == 2 && f->attrs[0].value() == p && f->attrs[1].value() == q);
    }
    if (p >= 0x8000 && q >= 0x8000) fw_prove("unknown optional attributes do not matter", reason<Failed::UnknownComprehensionRequiredAttribute>(e) == nullptr);
}
FW_ENTRY void fw_e_unknown_ok(A) { unknown<true>(b, x, t, d); }
FW_ENTRY void fw_e_unknown_err(A) { unknown<false>(b, x, t, d); }
// errors
FW_ENTRY void fw_e_nocode(A) {
    T; World w(b, t); if (!w.ok) return;
    auto e = w.answer(Reply(x).close(false, b), t + d);
    const auto* f = reason<Failed::Error>(e);
    fw_prove("an error response without ERROR-CODE is a failure of its own", f && f->code == stun::make_error_code(ClientError::no_error_code_in_response));
}
FW_ENTRY void fw_e_alt(A) {
    T; World w(b, t); if (!w.ok) return;
    Reply r(x); r.error(3, 0); r.address(T_ALTERNATE);
    auto e = w.answer(r.close(false, b), t + d);
    const auto* f = reason<Failed::AlternateServer>(e);
    fw_prove("300 with ALTERNATE-SERVER names the server", f && is4(f->server.address, x + 36) && f->server.port.value() == be16(x + 34));
}
FW_ENTRY void fw_e_noalt(A) {
    T; World w(b, t); if (!w.ok) return;
    Reply r(x); r.error(3, 0);
    auto e = w.answer(r.close(false, b), t + d);
    const auto* f = reason<Failed::Error>(e);
    fw_prove("300 without ALTERNATE-SERVER is a failure of its own", f && f->code == stun::make_error_code(ClientError::no_alternate_server_in_response));
}
template<uint8_t C, bool Alt> AI void plain(A) {
    T; fw_assume(x[200] < 100 && !(C == 3 && x[200] == 0));
    World w(b, t); if (!w.ok) return;
    Reply r(x); r.error(C, x[200]); if (Alt) r.address(T_ALTERNATE);
    auto e = w.answer(r.close(false, b), t + d);
    const auto* f = reason<Failed::ErrorCode>(e);
    fw_prove("other 3xx, 4xx and unretried 5xx responses fail with their code", f && f->attr.code == C * 100 + x[200]);
}
FW_ENTRY void fw_e_c3(A) { plain<3, false>(b, x, t, d); }
FW_ENTRY void fw_e_c3alt(A) { plain<3, true>(b, x, t, d); }
FW_ENTRY void fw_e_c4(A) { plain<4, false>(b, x, t, d); }
FW_ENTRY void fw_e_c5(A) { plain<5, false>(b, x, t, d); }
FW_ENTRY void fw_e_phrase(A) {
    T; World w(b, t); if (!w.ok) return;
    Reply r(x); uint8_t* v = r.attr(T_ERROR, 9); v[0] = v[1] = 0; v[2] = 4; v[3] = 3;
    auto e = w.answer(r.close(false, b), t + d);
    const auto* f = reason<Failed::ErrorCode>(e);
    fw_prove("the reason phrase is passed on", f && f->attr.code == 403 && f->attr.reason_phrase.is_some() && f->attr.reason_phrase.unwrap().size() == 5);
}
FW_ENTRY void fw_e_420(A) {
    T; World w(b, t); if (!w.ok) return;
    Reply r(x); r.error(4, 20); r.attr(T_UNKNOWN, 6);
    auto e = w.answer(r.close(false, b), t + d);
    const auto* f = reason<Failed::UnknownAttributeReported>(e);
    fw_prove("420 reports the attributes the server did not understand", f && f->attrs.size() == 3 && f->attrs[0].value() == be16(x + 32) && f->attrs[1].value() == be16(x + 34) && f->attrs[2].value() == be16(x + 36));
}
template<uint8_t N> AI void not420(A) {
    T; World w(b, t); if (!w.ok) return;
    Reply r(x); r.error(4, N); r.attr(T_UNKNOWN, 6);
    auto e = w.answer(r.close(false, b), t + d);
    const auto* f = reason<Failed::ErrorCode>(e);
    fw_prove("only 420 is read as unknown attributes", f && f->attr.code == 400 + N);
}
FW_ENTRY void fw_e_421(A) { not420<21>(b, x, t, d); }
FW_ENTRY void fw_e_401(A) { not420<1>(b, x, t, d); }
