from .common import *
META = dict(
 title='Error codes: every failure has its own code, category and text',
 statement='Every error the library can report carries the value of its enumerator, equals another code exactly when category and value agree, is true as an error unless it is the success code, and has a non-empty text of its own, different from every other error of its category and from the text for unknown values. Errors of different parts of the library never compare equal and their categories have different names.',
 text='every pair of integer values for each of the six public error enumerations; the errors of the token stream and of OpenSSL',
 over=['inputs', 'programs'],
 why='tests look at single errors they provoke; two failures a caller cannot tell apart show only when all pairs are compared',
 files=['src/stun/stun_error.cpp', 'src/stun/stun_error.hpp', 'src/net/net_error.cpp', 'src/net/net_error.hpp', 'src/rtp/rtp_error.cpp', 'src/rtp/rtp_error.hpp', 'src/util/util_error_code.cpp', 'src/util/util_error_code.hpp', 'src/ice/candidate/ice_candidate_error.cpp', 'src/ice/candidate/ice_candidate_error.hpp', 'src/util/util_token_stream.cpp', 'src/crypto/openssl/openssl_error.cpp'],
 mechanism=[('STUN errors', 'src/stun/stun_error.cpp'), ('candidate errors', 'src/ice/candidate/ice_candidate_error.cpp'), ('network errors', 'src/net/net_error.cpp'), ('RTP errors', 'src/rtp/rtp_error.cpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of make_error_code, comparison and message() of every category on symbolic values; the virtual calls are resolved through the constant dynamic type of each category object.'
F = ['p26.cpp']
def run(c):
    c.statics = True
    c.all(F, 'error categories')
