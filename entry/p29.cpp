// transaction ids and the keys of hash tables
#include "fwentry.hpp"
#include <array>
#include <string_view>
#include "stun/stun_transaction_id.hpp"
#include "stun/stun_transaction_id_hash.hpp"
#include "stun/stun_attribute_type.hpp"
#include "precis/precis_opaque_string.hpp"
#include "precis/precis_opaque_string_hash.hpp"
#include "util/util_hash_murmur.hpp"
#define AI static inline __attribute__((always_inline))
using namespace freewebrtc; using stun::TransactionId; using precis::OpaqueString; using BV = util::ConstBinaryView;
template<unsigned N> AI bool same(const uint8_t* a, const uint8_t* b) { bool r = true; for (unsigned i = 0; i < N; ++i) r = r & (a[i] == b[i]); return r; }
template<unsigned N> AI void ids(const uint8_t* a, const uint8_t* b) {
    const TransactionId x(BV(a, N)), y(BV(b, N));
    fw_prove("a transaction id keeps its bytes", x.view().size() == N && same<N>(x.view().data(), a));
    fw_prove("transaction ids are equal exactly when all their bytes are", (x == y) == same<N>(a, b));
    const TransactionId z(x);
    fw_prove("a copied transaction id is equal", z == x);
}
FW_ENTRY void fw_e_id12(const uint8_t* a, const uint8_t* b) { ids<12>(a, b); }
FW_ENTRY void fw_e_id16(const uint8_t* a, const uint8_t* b) { ids<16>(a, b); }
FW_ENTRY void fw_e_idmix(const uint8_t* a) { fw_prove("ids of different lengths are never equal", !(TransactionId(BV(a, 12)) == TransactionId(BV(a, 16)))); }
struct Source { const uint32_t* w; unsigned n = 0; uint32_t operator()() { return w[n++]; } };
template<unsigned N> AI void fresh(const TransactionId& t, const uint32_t* w, unsigned drawn) {
    fw_prove("a generated id has the length of its kind", t.view().size() == N);
    bool k = true; for (unsigned i = 0; i < N; ++i) k = k & (t.view().data()[i] == ((const uint8_t*)w)[i]);
    fw_prove("every byte of a generated id is drawn from the generator, once", k && drawn == N / 4);
}
FW_ENTRY void fw_e_generate(const uint32_t* w) { Source s{w}; auto t = TransactionId::generate(s); fresh<12>(t, w, s.n); }
FW_ENTRY void fw_e_generate_rfc3489(const uint32_t* w) { Source s{w}; auto t = TransactionId::generate_rfc3489(s); fresh<16>(t, w, s.n); }
// hashing
template<unsigned N> AI void hashes(const uint8_t* a, uint64_t seed) {
    std::array<uint8_t, N + 1> c; for (unsigned i = 0; i < N; ++i) c[i] = a[i];
    fw_prove("the hash of a key depends on its bytes and the seed only", util::hash::murmur(BV(a, N), seed) == util::hash::murmur(BV(c.data(), N), seed));
}
#define HASH(N) FW_ENTRY void fw_e_hash##N(const uint8_t* a, uint64_t seed) { hashes<N>(a, seed); }
HASH(0) HASH(1) HASH(2) HASH(3) HASH(4) HASH(5) HASH(6) HASH(7) HASH(8) HASH(12) HASH(16) HASH(23)
// MurmurHash64A, written from its definition
template<unsigned N> AI uint64_t reference(const uint8_t* a, uint64_t seed) {
    const uint64_t m = 0xc6a4a7935bd1e995ULL; uint64_t h = seed ^ (N * m);
    for (unsigned i = 0; i + 8 <= N; i += 8) {
        uint64_t k = 0; for (unsigned j = 0; j < 8; ++j) k |= (uint64_t)a[i + j] << (8 * j);
        k *= m; k ^= k >> 47; k *= m; h ^= k; h *= m;
    }
    if (N % 8) { uint64_t k = 0; for (unsigned j = 0; j < N % 8; ++j) k |= (uint64_t)a[N / 8 * 8 + j] << (8 * j); h ^= k; h *= m; }
    h ^= h >> 47; h *= m; h ^= h >> 47; return h;
}
#define MURMUR(N) FW_ENTRY void fw_e_murmur##N(const uint8_t* a, uint64_t seed) { fw_prove("the hash of a key is its 64-bit Murmur hash", util::hash::murmur(BV(a, N), seed) == reference<N>(a, seed)); }
MURMUR(0) MURMUR(1) MURMUR(2) MURMUR(3) MURMUR(4) MURMUR(5) MURMUR(6) MURMUR(7) MURMUR(8) MURMUR(16) MURMUR(24)
template<unsigned N> AI size_t h(const uint8_t* a, uint64_t seed) { return util::hash::murmur(BV(a, N), seed); }
#define DEP(N) FW_ENTRY size_t fw_e_k_dep##N(const uint8_t* a, uint64_t seed) { return h<N>(a, seed); }
DEP(1) DEP(4) DEP(7) DEP(12) DEP(16) DEP(23)
FW_ENTRY void fw_e_typehash(uint16_t a, uint16_t b) {
    using stun::AttributeType; const AttributeType x = AttributeType::from_uint16(a), y = AttributeType::from_uint16(b), z = x;
    fw_prove("attribute types are equal exactly when their code points are", (x == y) == (a == b) && x.value() == a && y.value() == b);
    if (x == y) fw_prove("equal attribute types hash alike", std::hash<AttributeType>()(x) == std::hash<AttributeType>()(y));
    fw_prove("equal attribute types hash alike", std::hash<AttributeType>()(x) == std::hash<AttributeType>()(z));
}
FW_ENTRY void fw_e_idhash(const uint8_t* a, const uint8_t* b) {
    const TransactionId x(BV(a, 12)), y(BV(b, 12));
    const auto f = stun::MurmurTransactionIdHash<>::create(), g = stun::MurmurTransactionIdHash<>::create();
    if (x == y) fw_prove("equal ids hash alike, whichever hasher is asked", f(x) == g(y));
    fw_prove("the hash of an id is stable", f(x) == f(TransactionId(x)));
}
FW_ENTRY void fw_e_opaque(const char* a, const char* b) {
    const OpaqueString x{std::string(a, 5)}, y{std::string(b, 5)}, z{std::string(a, 4)};
    bool k = true; for (int i = 0; i < 5; ++i) k = k & (a[i] == b[i]);
    fw_prove("names are equal exactly when their texts are", (x == y) == k && !(x == z));
    if (x == y) fw_prove("equal names hash alike", precis::OpaqueStringHash{}(x) == precis::OpaqueStringHash{}(y));
}
