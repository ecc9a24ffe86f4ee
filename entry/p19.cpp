// RTP packet parsing against RFC 3550 section 5
#include "fwentry.hpp"
#include <cassert>
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "rtp/rtp_error.hpp"
#include "util/util_error_code.hpp"
using namespace freewebrtc;
using namespace freewebrtc::rtp;

struct Ref { bool ok; unsigned cc; bool x; bool p; size_t ext_off; size_t ext_len; size_t pay_off; size_t pad; };
static inline bool same_code(const craftpp::error::Error& e, rtp::Error c) { return e == rtp::make_error_code(c); }

// one instance per value of the four-bit CSRC count; all other bits of the packet are arbitrary
template<unsigned CC>
static inline __attribute__((always_inline)) void rtp_rules(const util::ConstBinaryView& vv, const PayloadMap& map, ParseStat& st) {
    {
        uint8_t* w = const_cast<uint8_t*>(vv.data());
        w[0] = (uint8_t)((w[0] & 0xF0) | CC);
    }
    const unsigned s0[] = {st.success.count(), st.error.count(), st.invalid_size.count(), st.invalid_version.count(), st.invalid_csrc.count(),
        st.invalid_extension.count(), st.invalid_payload_type.count(), st.unknown_rtp_clock.count(), st.invalid_padding.count()};
    const uint8_t* b = vv.data();
    const size_t n = vv.size();
    auto r = Packet::parse(vv, map, st);
    const unsigned d_success = st.success.count() - s0[0], d_error = st.error.count() - s0[1], d_size = st.invalid_size.count() - s0[2],
        d_ver = st.invalid_version.count() - s0[3], d_csrc = st.invalid_csrc.count() - s0[4], d_ext = st.invalid_extension.count() - s0[5],
        d_pt = st.invalid_payload_type.count() - s0[6], d_clock = st.unknown_rtp_clock.count() - s0[7], d_pad = st.invalid_padding.count() - s0[8];
    const unsigned specific = d_size + d_ver + d_csrc + d_ext + d_pt + d_clock + d_pad;
    if (r.is_ok()) {
        fw_prove("a successful parse counts one success and nothing else", d_success == 1 && d_error == 0 && d_size == 0 && d_ver == 0 && d_csrc == 0 && d_ext == 0 && d_pt == 0 && d_clock == 0 && d_pad == 0);
        fw_prove("an accepted packet holds the 12 byte fixed header", n >= 12);
        fw_prove("an accepted packet has version 2", (b[0] & 0xC0) == 0x80);
        const unsigned cc = CC;
        const Packet& p = r.unwrap();
        fw_prove("an accepted packet holds its CSRC list", n >= 12 + 4 * (size_t)cc);
        fw_prove("the CSRC list has CC entries", p.header.csrcs.size() == cc);
        if (p.header.csrcs.size() == cc)
            for (unsigned i = 0; i < cc; ++i) {
                const size_t o = 12 + 4 * (size_t)i;
                fw_prove("CSRC identifiers are big-endian words in order", p.header.csrcs[i].value() == ((uint32_t)b[o] << 24 | (uint32_t)b[o + 1] << 16 | (uint32_t)b[o + 2] << 8 | b[o + 3]));
            }
        fw_prove("marker is the top bit of byte 1", (bool)p.header.marker == ((b[1] & 0x80) != 0));
        fw_prove("payload type is the low seven bits of byte 1", p.header.payload_type.value() == (b[1] & 0x7F));
        fw_prove("sequence number is bytes 2-3 big-endian", p.header.sequence.value() == (uint16_t)(b[2] << 8 | b[3]));
        fw_prove("timestamp is bytes 4-7 big-endian", p.header.timestamp.value() == ((uint32_t)b[4] << 24 | (uint32_t)b[5] << 16 | (uint32_t)b[6] << 8 | b[7]));
        fw_prove("ssrc is bytes 8-11 big-endian", p.header.ssrc.value() == ((uint32_t)b[8] << 24 | (uint32_t)b[9] << 16 | (uint32_t)b[10] << 8 | b[11]));
        const size_t ext = 12 + 4 * (size_t)cc;
        size_t off = ext;
        fw_prove("an extension is reported exactly when the X bit is set", p.header.maybe_extension.is_some() == ((b[0] & 0x10) != 0));
        if (b[0] & 0x10) {
            const size_t words = (size_t)(b[ext + 2] << 8 | b[ext + 3]);
            if (p.header.maybe_extension.is_some()) {
                const auto& e = p.header.maybe_extension.unwrap();
                fw_prove("the profile word is the first half of the extension header", e.profile_defined == (uint16_t)(b[ext] << 8 | b[ext + 1]));
                fw_prove("extension data follows its 4 byte header", e.data.offset == ext + 4);
                fw_prove("extension data is length words long", e.data.count == 4 * words);
            }
            off = ext + 4 + 4 * words;
        }
        fw_prove("payload starts right after header, CSRCs and extension", p.payload.offset == off);
        fw_prove("header, CSRCs and extension lie inside the packet", off <= n);
        if (b[0] & 0x20) {
            fw_prove("the padding count is the last octet", p.payload.count == n - off - b[n - 1]);
            fw_prove("padding lies inside the payload area", (size_t)b[n - 1] <= n - off && n > off);
        } else
            fw_prove("without padding the payload extends to the end", p.payload.count == n - off);
        fw_prove("the payload lies inside the packet", p.payload.offset <= n && p.payload.count <= n - p.payload.offset);
        const auto clk = map.rtp_clock_rate(p.header.payload_type);
        fw_prove("an accepted payload type is registered", clk.is_some());
        if (clk.is_some()) fw_prove("the timestamp carries the registered clock rate", p.header.timestamp.m_rate.count() == clk.unwrap().count());
    } else {
        fw_prove("a failed parse counts one error and no success", d_success == 0 && d_error == 1);
        fw_prove("a failed parse counts exactly one cause", specific == 1 && d_size <= 1 && d_ver <= 1 && d_csrc <= 1 && d_ext <= 1 && d_pt <= 1 && d_clock <= 1 && d_pad <= 1);
        const auto& e = r.unwrap_err();
        if (d_size) fw_prove("size errors are short packets", n < 12 && same_code(e, rtp::Error::packet_is_too_short));
        else if (d_ver) fw_prove("version errors are packets of another version", n >= 12 && (b[0] & 0xC0) != 0x80 && same_code(e, rtp::Error::unknown_packet_version));
        else if (d_csrc) fw_prove("CSRC errors are truncated CSRC lists", n >= 12 && n < 12 + 4 * (size_t)CC);
        else if (d_pt) fw_prove("payload type errors cannot happen for seven bits", false);
        else if (d_clock) {
            fw_prove("clock errors are unregistered payload types", map.rtp_clock_rate(PayloadType::from_uint8(b[1] & 0x7F).unwrap()).is_none());
            fw_prove("clock errors report unknown_rtp_clock", same_code(e, rtp::Error::unknown_rtp_clock));
        } else if (d_ext) {
            const size_t ext = 12 + 4 * (size_t)CC;
            fw_prove("extension errors need the X bit", (b[0] & 0x10) != 0);
            if (n >= ext + 4) fw_prove("extension errors are extensions that do not fit", n - ext - 4 < 4 * (size_t)(b[ext + 2] << 8 | b[ext + 3]));
            fw_prove("extension errors report invalid_extension_length", same_code(e, rtp::Error::invalid_extension_length));
        } else if (d_pad) {
            const size_t ext = 12 + 4 * (size_t)CC;
            size_t off = ext;
            if (b[0] & 0x10) off = ext + 4 + 4 * (size_t)(b[ext + 2] << 8 | b[ext + 3]);
            fw_prove("padding errors need the P bit", (b[0] & 0x20) != 0);
            if (n > off) fw_prove("padding errors are counts beyond the payload area", (size_t)b[n - 1] > n - off);
            fw_prove("padding errors report invalid_packet_padding", same_code(e, rtp::Error::invalid_packet_padding));
        }
    }
}
#define RTP(K) FW_ENTRY void fw_e_rtp_##K(const util::ConstBinaryView& vv, const PayloadMap& map, ParseStat& st) { rtp_rules<K>(vv, map, st); }
RTP(0) RTP(1) RTP(2) RTP(3) RTP(4) RTP(5) RTP(6) RTP(7) RTP(8) RTP(9) RTP(10) RTP(11) RTP(12) RTP(13) RTP(14) RTP(15)
FW_CONST(rtp_ssrc_size, sizeof(SSRC))
