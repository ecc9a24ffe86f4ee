// Stand-in for the craftpp dependency (missing offline). See DESIGN.md.
#pragma once
#include <cstdlib>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>
#include <functional>

namespace craftpp::result { template<typename T> class Result; }

namespace craftpp::maybe {

struct None {};
inline None none() noexcept { return {}; }

template<typename T> class Maybe;
template<typename X> struct is_maybe : std::false_type {};
template<typename X> struct is_maybe<Maybe<X>> : std::true_type {};

template<typename T>
class Maybe {
public:
    using Value = T;
    Maybe(None) noexcept : m_some(false), m_dummy() {}
    Maybe(const T& v) : m_some(true), m_v(v) {}
    Maybe(T&& v) : m_some(true), m_v(std::move(v)) {}
    template<typename U>
    requires (!std::is_same_v<std::remove_cvref_t<U>, T> && !is_maybe<std::remove_cvref_t<U>>::value
              && !std::is_same_v<std::remove_cvref_t<U>, None> && std::is_convertible_v<U, T>)
    Maybe(U&& u) : m_some(true), m_v(static_cast<T>(std::forward<U>(u))) {}

    Maybe(const Maybe&) requires (std::is_trivially_copy_constructible_v<T>) = default;
    Maybe(Maybe&&) requires (std::is_trivially_copy_constructible_v<T>) = default;
    Maybe(const Maybe& o) requires (!std::is_trivially_copy_constructible_v<T>) : m_some(o.m_some), m_dummy() { if (m_some) std::construct_at(&m_v, o.m_v); }
    Maybe(Maybe&& o) requires (!std::is_trivially_copy_constructible_v<T>) : m_some(o.m_some), m_dummy() { if (m_some) std::construct_at(&m_v, std::move(o.m_v)); }
    Maybe& operator=(const Maybe&) requires (std::is_trivially_copy_constructible_v<T> && std::is_trivially_destructible_v<T>) = default;
    Maybe& operator=(Maybe&&) requires (std::is_trivially_copy_constructible_v<T> && std::is_trivially_destructible_v<T>) = default;
    Maybe& operator=(const Maybe& o) requires (!(std::is_trivially_copy_constructible_v<T> && std::is_trivially_destructible_v<T>)) {
        if (this != &o) { this->~Maybe(); new (this) Maybe(o); }
        return *this;
    }
    Maybe& operator=(Maybe&& o) requires (!(std::is_trivially_copy_constructible_v<T> && std::is_trivially_destructible_v<T>)) {
        if (this != &o) { this->~Maybe(); new (this) Maybe(std::move(o)); }
        return *this;
    }
    ~Maybe() requires (std::is_trivially_destructible_v<T>) = default;
    ~Maybe() requires (!std::is_trivially_destructible_v<T>) { if (m_some) m_v.~T(); }

    static Maybe none() noexcept { return Maybe(None{}); }
    static Maybe move_from(T&& v) { return Maybe(std::move(v)); }
    static Maybe copy_from(const T& v) { return Maybe(v); }

    bool is_some() const noexcept { return m_some; }
    bool is_none() const noexcept { return !m_some; }

    T& unwrap() & noexcept { check(); return m_v; }
    const T& unwrap() const & noexcept { check(); return m_v; }
    T&& unwrap() && noexcept { check(); return std::move(m_v); }

    template<typename F> auto fmap(F&& f) & -> Maybe<std::decay_t<std::invoke_result_t<F, T&>>> {
        if (m_some) return std::invoke(std::forward<F>(f), m_v);
        return None{};
    }
    template<typename F> auto fmap(F&& f) const & -> Maybe<std::decay_t<std::invoke_result_t<F, const T&>>> {
        if (m_some) return std::invoke(std::forward<F>(f), m_v);
        return None{};
    }
    template<typename F> auto fmap(F&& f) && -> Maybe<std::decay_t<std::invoke_result_t<F, T&&>>> {
        if (m_some) return std::invoke(std::forward<F>(f), std::move(m_v));
        return None{};
    }
    template<typename F> auto bind(F&& f) & -> std::decay_t<std::invoke_result_t<F, T&>> {
        if (m_some) return std::invoke(std::forward<F>(f), m_v);
        return None{};
    }
    template<typename F> auto bind(F&& f) const & -> std::decay_t<std::invoke_result_t<F, const T&>> {
        if (m_some) return std::invoke(std::forward<F>(f), m_v);
        return None{};
    }
    template<typename F> auto bind(F&& f) && -> std::decay_t<std::invoke_result_t<F, T&&>> {
        if (m_some) return std::invoke(std::forward<F>(f), std::move(m_v));
        return None{};
    }
    template<typename F> void with_inner(F&& f) & { if (m_some) std::invoke(std::forward<F>(f), m_v); }
    template<typename F> void with_inner(F&& f) const & { if (m_some) std::invoke(std::forward<F>(f), m_v); }
    template<typename F> void with_inner(F&& f) && { if (m_some) std::invoke(std::forward<F>(f), std::move(m_v)); }

    template<typename U> T value_or(U&& d) const & { if (m_some) return m_v; return static_cast<T>(std::forward<U>(d)); }
    template<typename U> T value_or(U&& d) && { if (m_some) return std::move(m_v); return static_cast<T>(std::forward<U>(d)); }
    template<typename F> T value_or_call(F&& f) const & { if (m_some) return m_v; return static_cast<T>(std::invoke(std::forward<F>(f))); }
    template<typename F> T value_or_call(F&& f) && { if (m_some) return std::move(m_v); return static_cast<T>(std::invoke(std::forward<F>(f))); }

    auto require() const & -> craftpp::result::Result<T>;
    auto require() && -> craftpp::result::Result<T>;

    bool operator==(const Maybe& o) const { return m_some == o.m_some && (!m_some || m_v == o.m_v); }
private:
    void check() const noexcept { if (!m_some) std::abort(); }
    bool m_some;
    union { char m_dummy; T m_v; };
};

}
#include <craftpp/result/result.hpp>
