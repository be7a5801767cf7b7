// What a reservoir snapshot holds, as the harness sees it
#ifndef SNAP_HPP
#define SNAP_HPP

#include "pbt.hpp"
#include <cxxmetrics/snapshots.hpp>

namespace snap
{

using cxxmetrics::metric_value;
using cxxmetrics::reservoir_snapshot;

// the values are only handed out statistically; derived classes see them all
struct Open : reservoir_snapshot
{
    template<typename S, bool = sizeof(std::declval<const S&>().values_) != 0>
    static const std::vector<metric_value>& get(const S& s, int) { return s.values_; }
    template<typename S>
    static const std::vector<metric_value>& get(const S& s, ...)
    {
        static_assert(sizeof(S) == sizeof(std::vector<metric_value>), "a reservoir snapshot is expected to hold one vector of values");
        return reinterpret_cast<const std::vector<metric_value>&>(s);
    }
};

inline const std::vector<metric_value>& raw(const reservoir_snapshot& s)
{
    return Open::get(static_cast<const Open&>(s), 0);
}

// a plain value out of a metric value
template<typename T, typename = void>
struct Plain;
template<typename T>
struct Plain<T, typename std::enable_if<std::is_integral<T>::value>::type>
{
    using W = typename std::conditional<std::is_signed<T>::value, int64_t, uint64_t>::type;
    static T of(const metric_value& v) { return static_cast<T>(static_cast<W>(v)); }
};
template<typename T>
struct Plain<T, typename std::enable_if<std::is_floating_point<T>::value>::type>
{
    static T of(const metric_value& v) { return static_cast<T>(static_cast<long double>(v)); }
};
template<typename R, typename P>
struct Plain<std::chrono::duration<R, P>, void>
{
    static std::chrono::duration<R, P> of(const metric_value& v)
    {
        std::chrono::duration<R, P> d = v; // (a static_cast would take the plain count)
        return d;
    }
};
template<>
struct Plain<std::string, void>
{
    static std::string of(const metric_value& v) { return static_cast<std::string>(v); }
};

template<typename T>
T plain(const metric_value& v) { return Plain<T>::of(v); }

// everything in the snapshot, ordered
template<typename T>
std::vector<T> contents(const reservoir_snapshot& s)
{
    std::vector<T> r;
    for (const auto& v : raw(s))
        r.push_back(plain<T>(v));
    std::sort(r.begin(), r.end());
    return r;
}

// compares a snapshot with what it should hold
template<typename T>
void check_contents(pbt::Ctx& ctx, const reservoir_snapshot& s, std::vector<T> want, const char* what)
{
    std::sort(want.begin(), want.end());
    CHECK_EQ(ctx, s.size(), want.size(), what, ": number of values");
    auto got = contents<T>(s);
    CHECK_THAT(ctx, got == want, what, ": holds ", got, " instead of ", want);
    if (!want.empty())
    {
        CHECK_EQ(ctx, plain<T>(s.min()), want.front(), what, ": min");
        CHECK_EQ(ctx, plain<T>(s.max()), want.back(), what, ": max");
    }
}

}

#endif
