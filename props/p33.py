from .common import *
META = dict(
 title='OpenSSL hash functions: a digest of all the data, or an error',
 statement='The hash functions backed by OpenSSL (the library\'s and the Node.js variant, SHA-1 and MD5) feed every given piece, in order and whole, to the algorithm asked for and return the digest OpenSSL computed; when any OpenSSL call fails, creating the context included, they return an error and never a digest. Calls are made in OpenSSL\'s order on one context, which is freed exactly once on every path.',
 text='every combination of failing and succeeding OpenSSL calls, inputs of zero to two pieces of any address and length, every digest content',
 over=['fault_sequences', 'inputs'],
 why='OpenSSL calls do not fail in tests, so lost errors, leaked contexts and digests of part of the data cannot show there',
 files=['src/crypto/openssl/openssl_hash.cpp', 'src/crypto/openssl/openssl_hash.hpp', 'node/openssl/node_openssl_hash.cpp', 'node/openssl/node_openssl_hash.hpp', 'src/crypto/crypto_hash.hpp'],
 mechanism=[('OpenSSL hashes', 'src/crypto/openssl/openssl_hash.cpp'), ('Node.js hashes', 'node/openssl/node_openssl_hash.cpp')],
 technique=TECH + '; call-order typestate of the OpenSSL context', note=NOTE + '; OpenSSL is represented by stand-ins with its documented contract')
EXPLANATION = 'Abstract interpretation of both hash implementations against OpenSSL stand-ins whose every call may fail and which record their arguments and order.'
F = ['p33.cpp']
def run(c):
    c.all(F, 'openssl hash functions')
