// whatever bytes arrive: nothing outside of them is read, nothing outside of an object is touched, nothing aborts
#include "stunref.hpp"
#include "rtp/rtp_packet.hpp"
#include "net/ip/ip_address.hpp"
#include "net/ip/ip_address_hash.hpp"
#include "net/net_fqdn.hpp"
#include "stun/details/stun_fingerprint.hpp"
#include "util/util_hash_murmur.hpp"
#include "crypto/crypto_hash.hpp"
#include "crypto/crypto_hmac.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
using View = util::ConstBinaryView; using crypto::SHA1Hash;
#define RULE "a result is given, whatever the bytes"
#define GIVES(x) auto r = x; fw_mark("result", &r); fw_prove(RULE, r.is_ok() != r.is_err())
#define VALUE(x) auto r = x; fw_mark("result", &r); fw_prove(RULE, true)
#define SIZED(b, n) fw_extent(b, n); fw_assume(n < (1u << 30))
#define GIVEN(b, n) SIZED(b, n); const View v(b, n)
#define TEXT(b, n) SIZED(b, n); const std::string_view v((const char*)b, n)
FW_ENTRY void fw_e_any_message(const uint8_t* b, size_t n, ParseStat& st) { GIVEN(b, n); GIVES(Message::parse(v, st)); }
FW_ENTRY void fw_e_bare(const uint8_t* b, ParseStat& st) { GIVEN(b, (size_t)20); GIVES(Message::parse(v, st)); }
FW_ENTRY void fw_e_attribute(const uint8_t* b, size_t n, uint16_t t, ParseStat& st) { GIVEN(b, n); GIVES(Attribute::parse(v, AttributeType::from_uint16(t), st)); }
FW_ENTRY void fw_e_rtp(const uint8_t* b, size_t n, const rtp::PayloadMap& map, rtp::ParseStat& st) {
    GIVEN(b, n);
    auto r = rtp::Packet::parse(v, map, st);
    fw_mark("result", &r); fw_prove(RULE, r.is_ok() != r.is_err());
}
FW_ENTRY void fw_e_crc(const uint8_t* b, size_t n) { GIVEN(b, n); VALUE(stun::crc32(v)); }
FW_ENTRY void fw_e_crc_parts(const uint8_t* b, size_t n, const uint8_t* c, size_t m) { SIZED(b, n); SIZED(c, m); VALUE(stun::crc32({View(b, n), View(c, m)})); }
FW_ENTRY void fw_e_tid(const uint8_t* b, size_t n) { GIVEN(b, n); VALUE(stun::TransactionId(v)); }
FW_ENTRY void fw_e_murmur(const uint8_t* b, size_t n, uint64_t seed) { GIVEN(b, n); VALUE(util::hash::murmur(v, seed)); }
FW_ENTRY void fw_e_ip(const uint8_t* b, size_t n) { TEXT(b, n); GIVES(net::ip::Address::from_string(v)); }
FW_ENTRY void fw_e_ip_view(const uint8_t* b, size_t n) {
    GIVEN(b, n);
    auto p = net::ip::AddressV4::from_view(v); auto q = net::ip::AddressV6::from_view(v);
    fw_mark("result", &p, &q); fw_prove(RULE, true);
    if (p.is_ok()) { const auto a = net::ip::Address::move_from_v4(std::move(p.unwrap())); auto s = a.to_string(); auto h = net::ip::AddressHash{}(a); fw_mark("result", &s, &h); fw_reads(a.view().data(), a.view().size()); }
    if (q.is_ok()) { const auto a = net::ip::Address::move_from_v6(std::move(q.unwrap())); auto s = a.to_string(); auto h = net::ip::AddressHash{}(a); fw_mark("result", &s, &h); fw_reads(a.view().data(), a.view().size()); }
}
FW_ENTRY void fw_e_hash_view(const uint8_t* b, size_t n) { GIVEN(b, n); VALUE(SHA1Hash::from_view(v)); if (r.is_some()) fw_reads(r.unwrap().view().data(), r.unwrap().view().size()); }
