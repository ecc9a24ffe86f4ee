// Stand-in for the craftpp dependency (missing offline). See DESIGN.md.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <vector>
#include <craftpp/maybe/maybe.hpp>

namespace craftpp::binary { class ConstView; }
#ifdef FW_ANALYSIS
extern "C" void fw_view_require(const void* base, size_t size, size_t off, size_t n) noexcept;
#endif

namespace craftpp::binary {

class ConstView {
public:
    using ByteVec = std::vector<uint8_t>;
    struct Interval { size_t offset; size_t count; };

    ConstView(const void* p, size_t n) noexcept : m_p(static_cast<const uint8_t*>(p)), m_n(n) {}
    explicit ConstView(const std::vector<uint8_t>& v) noexcept : ConstView(v.data(), v.size()) {}
    template<typename T> requires (sizeof(T) == 1 && !std::is_same_v<T, uint8_t>)
    explicit ConstView(const std::vector<T>& v) noexcept : ConstView(v.data(), v.size()) {}
    template<typename T, size_t N> requires (sizeof(T) == 1)
    explicit ConstView(const std::array<T, N>& v) noexcept : ConstView(v.data(), N) {}

    const uint8_t* begin() const noexcept { return m_p; }
    const uint8_t* end() const noexcept { return m_p + m_n; }
    const uint8_t* data() const noexcept { return m_p; }
    size_t size() const noexcept { return m_n; }
    bool operator==(const ConstView& o) const noexcept { return m_n == o.m_n && std::equal(begin(), end(), o.begin()); }
    bool empty() const noexcept { return m_n == 0; }

    uint8_t assured_read_u8(size_t off) const noexcept { need(off, 1); return m_p[off]; }
    uint16_t assured_read_u16be(size_t off) const noexcept { need(off, 2); return ld16(off); }
    uint32_t assured_read_u32be(size_t off) const noexcept { need(off, 4); return ld32(off); }
    uint64_t assured_read_u64be(size_t off) const noexcept { need(off, 8); return ld64(off); }
    ConstView assured_subview(size_t off) const noexcept { need(off, 0); return ConstView(m_p + off, m_n - off); }
    ConstView assured_subview(size_t off, size_t n) const noexcept { need(off, n); return ConstView(m_p + off, n); }

    maybe::Maybe<uint8_t> read_u8(size_t off) const noexcept { if (!has(off, 1)) return maybe::None{}; return m_p[off]; }
    maybe::Maybe<uint16_t> read_u16be(size_t off) const noexcept { if (!has(off, 2)) return maybe::None{}; return ld16(off); }
    maybe::Maybe<uint32_t> read_u32be(size_t off) const noexcept { if (!has(off, 4)) return maybe::None{}; return ld32(off); }
    maybe::Maybe<uint64_t> read_u64be(size_t off) const noexcept { if (!has(off, 8)) return maybe::None{}; return ld64(off); }
    maybe::Maybe<ConstView> subview(size_t off) const noexcept { if (!has(off, 0)) return maybe::None{}; return ConstView(m_p + off, m_n - off); }
    maybe::Maybe<ConstView> subview(size_t off, size_t n) const noexcept { if (!has(off, n)) return maybe::None{}; return ConstView(m_p + off, n); }
    maybe::Maybe<ConstView> subview(const Interval& i) const noexcept { return subview(i.offset, i.count); }
    bool contains(const Interval& i) const noexcept { return has(i.offset, i.count); }

#ifdef FW_ANALYSIS
    static ByteVec concat(const std::vector<ConstView>&);
#else
    static ByteVec concat(const std::vector<ConstView>& vv) {
        ByteVec r;
        for (const auto& v: vv) r.insert(r.end(), v.begin(), v.end());
        return r;
    }
#endif
private:
    bool has(size_t off, size_t n) const noexcept { return off <= m_n && n <= m_n - off; }
#ifdef FW_ANALYSIS
    void need(size_t off, size_t n) const noexcept { fw_view_require(m_p, m_n, off, n); }
#else
    void need(size_t off, size_t n) const noexcept { if (!has(off, n)) std::abort(); }
#endif
    uint16_t ld16(size_t o) const noexcept { return uint16_t(m_p[o] << 8 | m_p[o + 1]); }
    uint32_t ld32(size_t o) const noexcept { return uint32_t(m_p[o]) << 24 | uint32_t(m_p[o + 1]) << 16 | uint32_t(m_p[o + 2]) << 8 | m_p[o + 3]; }
    uint64_t ld64(size_t o) const noexcept { return uint64_t(ld32(o)) << 32 | ld32(o + 4); }
    const uint8_t* m_p;
    size_t m_n;
};

}
