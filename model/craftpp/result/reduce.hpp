// Stand-in for the craftpp dependency (missing offline). See DESIGN.md.
#pragma once
#include <craftpp/result/result.hpp>
namespace craftpp::result {
template<typename It, typename F>
MaybeError reduce(It b, It e, F&& f) {
    for (; b != e; ++b) {
        auto rv = f(*b);
        if (rv.is_err()) return rv.unwrap_err();
    }
    return success();
}
template<typename It, typename A, typename F>
Result<std::decay_t<A>> reduce(It b, It e, A&& init, F&& f) {
    Result<std::decay_t<A>> acc(std::forward<A>(init));
    for (; b != e; ++b) {
        acc = f(std::move(acc).unwrap(), *b);
        if (acc.is_err()) return acc;
    }
    return acc;
}
}
