// Stand-in for the craftpp dependency (missing offline). See DESIGN.md.
#pragma once
#include <cstdlib>
#include <functional>
#include <memory>
#include <new>
#include <tuple>
#include <type_traits>
#include <utility>
#include <craftpp/error/error.hpp>
#include <craftpp/types/unit.hpp>
#include <craftpp/maybe/maybe.hpp>

namespace craftpp::result {

using craftpp::error::Error;
using craftpp::types::Unit;

template<typename X> struct is_result : std::false_type {};
template<typename X> struct is_result<Result<X>> : std::true_type {};

template<typename T>
class Result {
    static constexpr bool TC = std::is_trivially_copy_constructible_v<T> && std::is_trivially_copy_constructible_v<Error>;
    static constexpr bool TD = std::is_trivially_destructible_v<T> && std::is_trivially_destructible_v<Error>;
public:
    using Value = T;
    Result(const T& v) : m_ok(true), m_v(v) {}
    Result(T&& v) : m_ok(true), m_v(std::move(v)) {}
    Result(const Error& e) : m_ok(false), m_e(e) {}
    Result(Error&& e) : m_ok(false), m_e(std::move(e)) {}
    Result(const std::error_code& e) : m_ok(false), m_e(e) {}
    template<typename U>
    requires (!std::is_same_v<std::remove_cvref_t<U>, T> && !is_result<std::remove_cvref_t<U>>::value
              && !std::is_same_v<std::remove_cvref_t<U>, Error> && !std::is_same_v<std::remove_cvref_t<U>, std::error_code>
              && std::is_convertible_v<U, T>)
    Result(U&& u) : m_ok(true), m_v(static_cast<T>(std::forward<U>(u))) {}

    Result(const Result&) requires (TC) = default;
    Result(Result&&) requires (TC) = default;
    Result(const Result& o) requires (!TC && std::is_copy_constructible_v<T>) : m_ok(o.m_ok), m_dummy() {
        if (m_ok) std::construct_at(&m_v, o.m_v); else std::construct_at(&m_e, o.m_e);
    }
    Result(Result&& o) requires (!TC) : m_ok(o.m_ok), m_dummy() {
        if (m_ok) std::construct_at(&m_v, std::move(o.m_v)); else std::construct_at(&m_e, std::move(o.m_e));
    }
    Result& operator=(const Result&) requires (TC && TD) = default;
    Result& operator=(Result&&) requires (TC && TD) = default;
    Result& operator=(const Result& o) requires (!(TC && TD) && std::is_copy_constructible_v<T>) {
        if (this != &o) { this->~Result(); new (this) Result(o); }
        return *this;
    }
    Result& operator=(Result&& o) requires (!(TC && TD)) {
        if (this != &o) { this->~Result(); new (this) Result(std::move(o)); }
        return *this;
    }
    ~Result() requires (TD) = default;
    ~Result() requires (!TD) { if (m_ok) m_v.~T(); else m_e.~Error(); }

    bool is_ok() const noexcept { return m_ok; }
    bool is_err() const noexcept { return !m_ok; }
    T& unwrap() & noexcept { if (!m_ok) std::abort(); return m_v; }
    const T& unwrap() const & noexcept { if (!m_ok) std::abort(); return m_v; }
    T&& unwrap() && noexcept { if (!m_ok) std::abort(); return std::move(m_v); }
    Error& unwrap_err() & noexcept { if (m_ok) std::abort(); return m_e; }
    const Error& unwrap_err() const & noexcept { if (m_ok) std::abort(); return m_e; }
    Error&& unwrap_err() && noexcept { if (m_ok) std::abort(); return std::move(m_e); }

    template<typename F> auto fmap(F&& f) & -> Result<std::decay_t<std::invoke_result_t<F, T&>>> {
        if (m_ok) return std::invoke(std::forward<F>(f), m_v);
        return m_e;
    }
    template<typename F> auto fmap(F&& f) const & -> Result<std::decay_t<std::invoke_result_t<F, const T&>>> {
        if (m_ok) return std::invoke(std::forward<F>(f), m_v);
        return m_e;
    }
    template<typename F> auto fmap(F&& f) && -> Result<std::decay_t<std::invoke_result_t<F, T&&>>> {
        if (m_ok) return std::invoke(std::forward<F>(f), std::move(m_v));
        return std::move(m_e);
    }
    template<typename F> auto bind(F&& f) & -> std::decay_t<std::invoke_result_t<F, T&>> {
        if (m_ok) return std::invoke(std::forward<F>(f), m_v);
        return m_e;
    }
    template<typename F> auto bind(F&& f) const & -> std::decay_t<std::invoke_result_t<F, const T&>> {
        if (m_ok) return std::invoke(std::forward<F>(f), m_v);
        return m_e;
    }
    template<typename F> auto bind(F&& f) && -> std::decay_t<std::invoke_result_t<F, T&&>> {
        if (m_ok) return std::invoke(std::forward<F>(f), std::move(m_v));
        return std::move(m_e);
    }
    template<typename F> Result bind_err(F&& f) const & {
        if (m_ok) return *this;
        return Result(std::invoke(std::forward<F>(f), m_e));
    }
    template<typename F> Result bind_err(F&& f) && {
        if (m_ok) return std::move(*this);
        return Result(std::invoke(std::forward<F>(f), std::move(m_e)));
    }
    template<typename U> T value_or(U&& d) const & { if (m_ok) return m_v; return static_cast<T>(std::forward<U>(d)); }
    template<typename U> T value_or(U&& d) && { if (m_ok) return std::move(m_v); return static_cast<T>(std::forward<U>(d)); }
    template<typename U> T unwrap_or(U&& d) const & { if (m_ok) return m_v; return static_cast<T>(std::forward<U>(d)); }
    template<typename U> T unwrap_or(U&& d) && { if (m_ok) return std::move(m_v); return static_cast<T>(std::forward<U>(d)); }
    template<typename... A> Result add_context(A&&... a) const & {
        Result r(*this);
        if (!r.m_ok) r.m_e.add_context(std::forward<A>(a)...);
        return r;
    }
    template<typename... A> Result add_context(A&&... a) && {
        if (!m_ok) m_e.add_context(std::forward<A>(a)...);
        return std::move(*this);
    }
private:
    bool m_ok;
    union { char m_dummy; T m_v; Error m_e; };
};

using MaybeError = Result<Unit>;
inline MaybeError success() { return MaybeError(Unit{}); }
template<typename T> Result<std::decay_t<T>> success(T&& v) { return Result<std::decay_t<T>>(std::forward<T>(v)); }
template<typename T> Result<std::decay_t<T>> return_value(T&& v) { return Result<std::decay_t<T>>(std::forward<T>(v)); }

template<typename... R>
MaybeError any_is_err(const R&... r) {
    const Error* e = nullptr;
    (void)((r.is_err() ? (e = &r.unwrap_err(), true) : false) || ...);
    if (e) return *e;
    return Unit{};
}

namespace detail {
template<typename F, typename... R> struct combine_ret { using type = std::decay_t<std::invoke_result_t<F, decltype(std::declval<R>().unwrap())...>>; static constexpr bool fwd = true; };
template<typename F, typename... R> requires (!std::is_invocable_v<F, decltype(std::declval<R>().unwrap())...>)
struct combine_ret<F, R...> { using type = std::decay_t<std::invoke_result_t<F, decltype(std::declval<std::remove_reference_t<R>&>().unwrap())...>>; static constexpr bool fwd = false; };
}
template<typename F, typename... R>
auto combine(F&& f, R&&... r) -> typename detail::combine_ret<F, R&&...>::type {
    const Error* e = nullptr;
    (void)((r.is_err() ? (e = &std::as_const(r).unwrap_err(), true) : false) || ...);
    if (e) return *e;
    if constexpr (detail::combine_ret<F, R&&...>::fwd) {
        return std::invoke(std::forward<F>(f), std::forward<R>(r).unwrap()...);
    } else {
        return std::invoke(std::forward<F>(f), r.unwrap()...);
    }
}

}

namespace craftpp::maybe {

#ifdef FW_ANALYSIS
const std::error_category& fw_maybe_category() noexcept;
inline std::error_code value_required_error() noexcept { return std::error_code(1, fw_maybe_category()); }
#else
struct MaybeErrorCategory : std::error_category {
    const char* name() const noexcept override { return "maybe error"; }
    std::string message(int) const override { return "value required"; }
};
inline std::error_code value_required_error() noexcept {
    static const MaybeErrorCategory cat;
    return std::error_code(1, cat);
}
#endif

template<typename T>
auto Maybe<T>::require() const & -> craftpp::result::Result<T> {
    if (m_some) return m_v;
    return value_required_error();
}
template<typename T>
auto Maybe<T>::require() && -> craftpp::result::Result<T> {
    if (m_some) return std::move(m_v);
    return value_required_error();
}
}
