// STUN client histories: a client driven through its public interface, every value unconstrained
#pragma once
#include "mac.hpp"
#include "stun/stun_client_udp.hpp"
#define AI static inline __attribute__((always_inline))
using Client = ClientUDP; using Tp = clock::Timepoint; using us = std::chrono::microseconds;
using Failed = Client::TransactionFailed;
struct Rand { const uint8_t* v; unsigned i = 0; unsigned end = 12; uint32_t operator()() { fw_assume(i < end); uint32_t x; __builtin_memcpy(&x, v + 4 * i++, 4); return x; } };   // at most four ids are drawn
AI Tp at(int64_t t) { return Tp::epoch().advance(us(t)); }
AI net::ip::Address v4(const uint8_t* p) { return net::ip::Address::move_from_v4(net::ip::AddressV4::from_view(View(p, 4)).unwrap()); }
AI net::Path path(const uint8_t* b) { return net::Path{v4(b), v4(b + 4)}; }
AI bool is(const MaybeError& r, ClientError c) { return r.is_err() && r.unwrap_err() == stun::make_error_code(c); }
// a response being written into a buffer of unconstrained bytes
struct Reply {
    uint8_t* w; unsigned n = 20; unsigned mi = 0;
    explicit Reply(const uint8_t* b) : w(const_cast<uint8_t*>(b)) {}
    uint8_t* attr(uint16_t t, unsigned len) { uint8_t* v = w + n + 4; w[n] = t >> 8; w[n + 1] = (uint8_t)t; w[n + 2] = len >> 8; w[n + 3] = (uint8_t)len; n += 4 + (len + 3) / 4 * 4; return v; }
    void address(uint16_t t) { uint8_t* v = attr(t, 8); v[0] = 0; v[1] = 1; }
    void error(uint8_t cls, uint8_t num) { uint8_t* v = attr(T_ERROR, 4); v[0] = v[1] = 0; v[2] = cls; v[3] = num; }
    void sign() { mi = n; attr(T_INTEGRITY, 20); }
    View close(bool ok, const uint8_t* tid) {
        w[0] = 0x01; w[1] = ok ? 0x01 : 0x11; w[2] = (n - 20) >> 8; w[3] = (uint8_t)(n - 20); w[4] = 0x21; w[5] = 0x12; w[6] = 0xA4; w[7] = 0x42;
        for (unsigned i = 0; i < 12; ++i) w[8 + i] = tid[i];
        return View(w, n);
    }
};
AI bool sends(const Client::Effect& e) { return std::holds_alternative<Client::SendData>(e); }
AI bool quiet(const Client::Effect& e) { return std::holds_alternative<Client::Sleep>(e) || std::holds_alternative<Client::Idle>(e); }
AI bool ends(const Client::Effect& e) { return std::holds_alternative<Client::TransactionOk>(e) || std::holds_alternative<Failed>(e); }
