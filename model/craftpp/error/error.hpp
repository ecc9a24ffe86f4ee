// Stand-in for the craftpp dependency (missing offline). See DESIGN.md.
#pragma once
#include <string>
#include <string_view>
#include <system_error>
#include <type_traits>
#include <vector>

namespace craftpp::error {

// In analysis builds (FW_ANALYSIS) the textual context is dropped: it never
// influences control flow and would only make every Result non-trivial.
class Error {
public:
    Error(const std::error_code& c) noexcept : m_value(c.value()), m_cat(&c.category()) {}
    template<typename E> requires std::is_error_code_enum<E>::value
    Error(E e) noexcept : Error(std::error_code(e)) {}
    int value() const noexcept { return m_value; }
    const std::error_category& category() const noexcept { return *m_cat; }
    std::error_code code() const noexcept { return {m_value, *m_cat}; }
    operator std::error_code() const noexcept { return code(); }
#ifdef FW_ANALYSIS
    std::string message() const;
    template<typename... A> Error& add_context(A&&...) noexcept { return *this; }
#else
    std::string message() const {
        std::string r;
        for (auto it = m_ctx.rbegin(); it != m_ctx.rend(); ++it) { r += *it; r += ": "; }
        return r + m_cat->message(m_value);
    }
    template<typename... A> Error& add_context(A&&... a) {
        (m_ctx.emplace_back(std::string_view(a)), ...);
        return *this;
    }
#endif
    bool operator==(const Error& o) const noexcept { return m_value == o.m_value && m_cat == o.m_cat; }
    bool operator==(const std::error_code& o) const noexcept { return m_value == o.value() && m_cat == &o.category(); }
private:
    int m_value;
    const std::error_category* m_cat;
#ifndef FW_ANALYSIS
    std::vector<std::string> m_ctx;
#endif
};

}
