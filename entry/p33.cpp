// the OpenSSL hash functions (src/crypto/openssl and the Node.js variant): OpenSSL is replaced by
// stand-ins that may fail at any call and write down what they are given
#include "fwentry.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include "../node/openssl/node_openssl_hash.hpp"
#define AI static inline __attribute__((always_inline))
using namespace freewebrtc; using crypto::SHA1Hash; using crypto::MD5Hash;
struct evp_md_ctx_st; struct evp_md_st; struct engine_st; struct env_md_ctx_st; struct env_md_st;
// what OpenSSL answers
static bool g_ctx, g_init, g_update[3], g_final; static unsigned long g_err; static const uint8_t* g_digest; static unsigned g_size;
// what it was asked
static unsigned n_new, n_free, n_init, n_update, n_final; static const void* u_data[3]; static size_t u_size[3]; static const void* i_md; static bool wrong;
static char the_ctx, the_sha1, the_md5;
extern "C" {
void* EVP_MD_CTX_new() { n_new++; return g_ctx ? &the_ctx : nullptr; }
void EVP_MD_CTX_free(void* p) { if (p) { n_free++; wrong = wrong | (p != &the_ctx); } }
const void* EVP_sha1() { return &the_sha1; }
const void* EVP_md5() { return &the_md5; }
int EVP_DigestInit_ex(void* c, const void* md, void*) { wrong = wrong | (c != &the_ctx) | (n_init != 0) | (n_free != 0); n_init++; i_md = md; return g_init ? 1 : 0; }
int EVP_DigestUpdate(void* c, const void* d, size_t n) {
    wrong = wrong | (c != &the_ctx) | (n_init != 1) | (n_final != 0) | (n_free != 0);
    if (n_update >= 3) { wrong = true; return 0; }
    u_data[n_update] = d; u_size[n_update] = n;
    return g_update[n_update++] ? 1 : 0;
}
int EVP_DigestFinal_ex(void* c, unsigned char* out, unsigned* n) {
    wrong = wrong | (c != &the_ctx) | (n_init != 1) | (n_final != 0) | (n_free != 0); n_final++;
    if (!g_final) return 0;
    for (unsigned i = 0; i < g_size; ++i) out[i] = g_digest[i];
    if (n) *n = g_size;
    return 1;
}
unsigned long ERR_get_error() { return g_err; }
void ERR_clear_error() {}
}
template<unsigned K, typename H, typename F> AI void run(F f, const void* md, unsigned bits, unsigned long err, const uint8_t* d, const uint8_t* a, size_t an, const uint8_t* b, size_t bn) {
    g_ctx = bits & 1; g_init = bits & 2; g_final = bits & 4; g_update[0] = bits & 8; g_update[1] = bits & 16; g_update[2] = false; g_err = err; g_digest = d; g_size = H::size;
    n_new = n_free = n_init = n_update = n_final = 0; wrong = false;
    typename H::Input in;
    if constexpr (K > 0) in.emplace_back(util::ConstBinaryView(a, an));
    if constexpr (K > 1) in.emplace_back(util::ConstBinaryView(b, bn));
    auto r = f(in);
    bool good = g_ctx & g_init & g_final; for (unsigned i = 0; i < K; ++i) good = good & g_update[i];
    if (r.is_ok()) {
        fw_prove("a digest is returned only when every OpenSSL call succeeded", good);
        bool k = true; for (unsigned i = 0; i < H::size; ++i) k = k & (r.unwrap().value()[i] == d[i]);
        fw_prove("the digest returned is the one OpenSSL computed", k);
        fw_prove("the digest is of the very pieces given, in order", n_update == K && (K < 1 || (u_data[0] == a && u_size[0] == an)) && (K < 2 || (u_data[1] == b && u_size[1] == bn)));
        fw_prove("the digest is of the algorithm asked for", i_md == md);
    } else fw_prove("an error is returned only when an OpenSSL call failed", !good);
    fw_prove("OpenSSL is called in its order, on the context created for the call", !wrong);
    fw_prove("the context is freed exactly once", n_new == 1 && n_free == (g_ctx ? 1u : 0u));
}
#define RUN(name, K, H, f, md) FW_ENTRY void fw_e_##name##K(unsigned bits, unsigned long err, const uint8_t* d, const uint8_t* a, size_t an, const uint8_t* b, size_t bn) { run<K, H>([](const H::Input& in) { return f(in); }, md, bits, err, d, a, an, b, bn); }
RUN(sha1_, 0, SHA1Hash, crypto::openssl::sha1, &the_sha1) RUN(sha1_, 1, SHA1Hash, crypto::openssl::sha1, &the_sha1) RUN(sha1_, 2, SHA1Hash, crypto::openssl::sha1, &the_sha1)
RUN(md5_, 2, MD5Hash, crypto::openssl::md5, &the_md5)
RUN(node_sha1_, 0, SHA1Hash, crypto::node_openssl::sha1, &the_sha1) RUN(node_sha1_, 2, SHA1Hash, crypto::node_openssl::sha1, &the_sha1)
RUN(node_md5_, 2, MD5Hash, crypto::node_openssl::md5, &the_md5)
