// the RFC 8489 layout of a message, checked against what was built
#pragma once
#include "mac.hpp"
using Val = Attribute::Value;
struct Want { uint16_t type; unsigned len; uint8_t v[48]; bool seen; };
struct Wants { Want w[14]; unsigned n = 0;
    Want& add(uint16_t t, unsigned len) { Want& x = w[n++]; x.type = t; x.len = len; x.seen = false; return x; } };
static inline __attribute__((always_inline)) void put32(uint8_t* d, uint32_t x) { d[0] = x >> 24; d[1] = x >> 16; d[2] = x >> 8; d[3] = x; }
static inline __attribute__((always_inline)) void put64(uint8_t* d, uint64_t x) { put32(d, x >> 32); put32(d + 4, (uint32_t)x); }
// checks the header and every attribute before `end`; returns the number of attributes
static __attribute__((noinline)) void layout(const uint8_t* d, size_t size, size_t end, uint16_t msgtype, const uint8_t* tid, unsigned tidlen, Wants& ws) {
    fw_prove("the message type holds class and method", d[0] == (uint8_t)(msgtype >> 8) && d[1] == (uint8_t)msgtype);
    fw_prove("the length field counts the bytes after the header", d[2] == (uint8_t)((size - 20) >> 8) && d[3] == (uint8_t)(size - 20));
    fw_prove("a built message is a multiple of four bytes", (size & 3) == 0 && size >= 20);
    if (tidlen == 12) fw_prove("the magic cookie precedes a 96-bit transaction id", d[4] == 0x21 && d[5] == 0x12 && d[6] == 0xA4 && d[7] == 0x42 && same<12>(d + 8, tid));
    else fw_prove("an RFC 3489 transaction id follows the length", same<16>(d + 4, tid));
    size_t off = 20;
    while (off < end) {
        const uint16_t t = be16(d + off); const unsigned len = be16(d + off + 2);
        bool known = false;
        for (unsigned i = 0; i < ws.n; ++i) {
            if (ws.w[i].type != t || ws.w[i].seen) continue;
            known = true; ws.w[i].seen = true;
            fw_prove("the attribute length is the length of its value, without padding", len == ws.w[i].len);
            bool v = true, z = true;
            for (unsigned k = 0; k < ws.w[i].len; ++k) v = v & (d[off + 4 + k] == ws.w[i].v[k]);
            for (unsigned k = ws.w[i].len; k & 3; ++k) z = z & (d[off + 4 + k] == 0);
            fw_prove("the attribute value is encoded as the RFC lays it out", v);
            fw_prove("attribute values are padded with zeroes to a multiple of four", z);
            break;
        }
        fw_prove("no other attribute is written", known);
        if (!known) return;
        off += 4 + (len + 3) / 4 * 4;
    }
    fw_prove("attributes end where the message ends", off == end);
    bool all = true;
    for (unsigned i = 0; i < ws.n; ++i) all = all && ws.w[i].seen;
    fw_prove("every attribute of the set is written once", all);
}
