// Virtual time: the harness owns std::chrono::steady_clock and system_clock.
#ifndef VCLOCK_HPP
#define VCLOCK_HPP

#include "pbt.hpp"
#include <chrono>

namespace vclock
{
constexpr int64_t base = 1000000000000000ll; // the steady clock's epoch means "never" to meters

struct State
{
    int64_t steady = base;
    int64_t system = base;
};

inline State& state()
{
    static State s;
    return s;
}

inline int64_t& now() { return state().steady; }
inline void advance(int64_t ns) { state().steady += ns; }
inline void reset() { state() = State{}; }

struct Hook
{
    Hook() { pbt::before_case().push_back(reset); }
};
inline Hook& hook()
{
    static Hook h;
    return h;
}
static Hook& hooked_ = hook();
}

namespace std { namespace chrono { inline namespace _V2 {
__attribute__((weak, no_sanitize("thread"))) steady_clock::time_point steady_clock::now() noexcept
{
    return time_point(duration(vclock::state().steady));
}
__attribute__((weak, no_sanitize("thread"))) system_clock::time_point system_clock::now() noexcept
{
    return time_point(duration(vclock::state().system));
}
} } }

#endif
