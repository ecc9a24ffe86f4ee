// an arbitrary hash function that records what it is asked to hash and may fail
#pragma once
#include "stunref.hpp"
using View = util::ConstBinaryView; using crypto::SHA1Hash;
extern "C" bool fw_hash_fails(unsigned call);
struct Mac {
    unsigned calls = 0; uint8_t in[2][256]; size_t n[2] = {0, 0}; const uint8_t* out; bool failed[2] = {false, false};
};
struct MacFn {
    Mac* m;
    SHA1Hash::Result operator()(const std::vector<View>& vv) const {
        const unsigned c = m->calls++;
        if (c >= 2) return make_error_code(ParseError::invalid_message_size);
        size_t k = 0;
        for (const auto& v : vv) for (size_t i = 0; i < v.size(); ++i) m->in[c][k++] = v.data()[i];
        m->n[c] = k;
        m->failed[c] = fw_hash_fails(c);
        if (m->failed[c]) return make_error_code(ParseError::invalid_message_size);
        SHA1Hash::Value o;
        for (unsigned i = 0; i < 20; ++i) o[i] = m->out[20 * c + i];
        return SHA1Hash(std::move(o));
    }
};
