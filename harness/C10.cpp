// C10: a sliding window reports exactly the values inside the window
#include "clock.hpp"
#include "snap.hpp"
#include <cxxmetrics/sliding_window.hpp>

PROPERTY("C10", "A case is a history of recordings, clock movements (forwards, standing, backwards) and snapshots of one sliding-window reservoir; non-trivial when a compared snapshot had to leave out some recorded value and include another.")

struct SystemClock
{
    std::chrono::system_clock::time_point operator()() const { return std::chrono::system_clock::time_point(std::chrono::nanoseconds(vclock::now())); }
};
struct MilliClock
{
    using point = std::chrono::time_point<std::chrono::steady_clock, std::chrono::milliseconds>;
    point operator()() const { return point(std::chrono::milliseconds((vclock::now() - vclock::base) / 1000000)); }
};
// the clock as an object with state
struct OwnClock
{
    std::shared_ptr<int64_t> at = std::make_shared<int64_t>(0);
    std::chrono::steady_clock::time_point operator()() const { return std::chrono::steady_clock::time_point(std::chrono::steady_clock::duration(*at)); }
};

template<typename C>
struct Traits
{
    using diff = typename std::decay<decltype(std::declval<C>()() - std::declval<C>()())>::type;
    static C make() { return C(); }
    static void sync(C&) { }
};
template<>
struct Traits<OwnClock>
{
    using diff = std::chrono::steady_clock::duration;
    static OwnClock make() { return OwnClock(); }
    static void sync(OwnClock& c) { *c.at = vclock::now(); }
};

template<typename T, std::size_t N, typename Clock>
static void history(pbt::Ctx& ctx)
{
    using tr = Traits<Clock>;
    using diff = typename tr::diff;
    // a unit of time in this history, as nanoseconds
    static const int64_t units[] = {1000000000ll, 1, 1000, 1000000, 60000000000ll};
    int64_t unit = units[ctx.below(5)];
    if (std::is_same<Clock, MilliClock>::value)
        unit = std::max<int64_t>(unit, 1000000);
    int64_t w = ctx.range(0, 12);
    auto window = std::chrono::duration_cast<diff>(std::chrono::nanoseconds(w * unit));
    if (ctx.chance(1, 10))
        window = std::chrono::duration_cast<diff>(std::chrono::hours(24 * ctx.range(1, 1000)));
    Clock clock = tr::make();
    tr::sync(clock);
    using R = cxxmetrics::sliding_window_reservoir<T, N, Clock>;
    std::unique_ptr<R> r(new R(window, clock));
    TRACE(ctx, "window ", window.count(), ", capacity ", N, ", steps of ", unit, " ns");
    struct Rec { decltype(clock()) at; T v; };
    std::deque<Rec> model;
    uint64_t pushed = 0;
    bool back = false, boundary = false;
    std::vector<std::pair<cxxmetrics::reservoir_snapshot, std::vector<T>>> old;
    auto record = [&] {
        T v = ctx.chance(1, 3) ? static_cast<T>(ctx.below(4)) : static_cast<T>(pushed);
        TRACE(ctx, "update(", v, ") at ", vclock::now() - vclock::base);
        r->update(v);
        model.push_back({clock(), v});
        if (model.size() > N)
            model.pop_front();
        ++pushed;
    };
    auto check = [&](const char* what) {
        auto s = r->snapshot();
        auto min = clock() - window;
        std::vector<T> want;
        bool left_out = pushed > N;
        for (auto& m : model)
        {
            if (!(m.at < min))
                want.push_back(m.v);
            else
                left_out = true;
            boundary = boundary || m.at == min;
        }
        TRACE(ctx, "snapshot at ", vclock::now() - vclock::base);
        snap::check_contents<T>(ctx, s, want, what);
        ctx.nontrivial(left_out && !want.empty());
        if (old.size() < 3)
            old.emplace_back(std::move(s), std::move(want));
    };
    auto steps = ctx.size(80);
    for (std::size_t k = 0; k < steps; k++)
    {
        switch (ctx.below(8))
        {
            case 0: case 1: record(); break;
            case 2: vclock::advance(unit * ctx.range(0, 4)); break;
            case 3: // to a multiple of the window, or one tick beside it
                vclock::advance(std::chrono::duration_cast<std::chrono::nanoseconds>(window).count() * ctx.range(0, 1) / (ctx.coin() ? 1 : 2) + ctx.range(-1, 1) * (ctx.coin() ? 1 : unit));
                break;
            case 4:
                if (ctx.chance(1, 3))
                {
                    vclock::advance(-unit * ctx.range(0, 6));
                    back = true;
                }
                break;
            case 5:
            {
                auto n = ctx.below(N + 3);
                for (uint64_t i = 0; i < n; i++)
                    record();
                break;
            }
            case 6: vclock::advance(unit * ctx.range(0, 15)); break;
            default: check("a snapshot");
        }
        tr::sync(clock);
    }
    check("the final snapshot");
    for (auto& o : old)
        snap::check_contents<T>(ctx, o.first, o.second, "an earlier snapshot");
    ctx.label(pushed > N, "wrapped around");
    ctx.label(back, "clock stepped back");
    ctx.label(boundary, "a value exactly on the boundary");
}

// the default window is one minute
FACET(default_window, 300, 3000)
{
    cxxmetrics::sliding_window_reservoir<int64_t, 8> r;
    std::deque<std::pair<int64_t, int64_t>> model;
    auto n = ctx.size(30);
    for (std::size_t i = 0; i < n; i++)
    {
        r.update(static_cast<int64_t>(i));
        model.emplace_back(vclock::now(), i);
        if (model.size() > 8)
            model.pop_front();
        vclock::advance(ctx.range(0, 20) * 1000000000ll);
        std::vector<int64_t> want;
        for (auto& m : model)
            if (m.first >= vclock::now() - 60000000000ll)
                want.push_back(m.second);
        ctx.nontrivial(want.size() < model.size() && !want.empty());
        snap::check_contents<int64_t>(ctx, r.snapshot(), want, "a snapshot of the default window");
    }
}

using Steady = cxxmetrics::steady_clock_point;

// far more recordings than any index of a few bits can count
template<typename T, std::size_t N>
static void long_history(pbt::Ctx& ctx)
{
    const int64_t window = 1000;
    cxxmetrics::sliding_window_reservoir<T, N> r{std::chrono::nanoseconds(window)};
    std::deque<std::pair<int64_t, uint64_t>> model;
    uint64_t pushed = 0;
    auto stops = 1 + ctx.below(6);
    static const uint64_t edges[] = {256, 32768, 65536, 131072, 1 << 18, 100000};
    for (uint64_t k = 0; k < stops; k++)
    {
        uint64_t to = ctx.coin() ? edges[ctx.below(6)] + ctx.below(2 * N + 3) : pushed + ctx.below(70000);
        to = std::min<uint64_t>(to, 400000);
        if (ctx.chance(1, 64)) // beyond what single precision and counts of 24 bits tell apart
            to = ctx.chance(1, 4) ? (1 << 24) + ctx.below(1000) : (1 << 20) + ctx.below(1000);
        int64_t step = ctx.range(0, 2 * window / static_cast<int64_t>(N));
        TRACE(ctx, "updates up to the ", to, "th, ", step, " ns apart");
        while (pushed < to)
        {
            r.update(static_cast<T>(pushed));
            model.emplace_back(vclock::now(), pushed++);
            if (model.size() > N)
                model.pop_front();
            vclock::advance(step);
        }
        vclock::advance(ctx.range(0, window / 2));
        std::vector<T> want;
        for (auto& m : model)
            if (m.first >= vclock::now() - window)
                want.push_back(static_cast<T>(m.second));
        ctx.nontrivial(!want.empty() && want.size() < model.size());
        snap::check_contents<T>(ctx, r.snapshot(), want, "a snapshot");
    }
    ctx.label(pushed > 65536, "more than 65536 recordings");
    ctx.label(pushed > 1 << 24, "more than 2^24 recordings");
}
FACET_AS(long_int64_3, 40, 1500, long_history<int64_t, 3>);
FACET_AS(long_int64_10, 40, 1500, long_history<int64_t, 10>);
FACET_AS(long_double_100, 40, 1500, long_history<double, 100>);
FACET_AS(long_int32_1000, 40, 1500, long_history<int32_t, 1000>);
FACET_AS(int64_2, 3000, 60000, history<int64_t, 2, Steady>);
FACET_AS(int64_3, 3000, 60000, history<int64_t, 3, Steady>);
FACET_AS(int64_5, 3000, 60000, history<int64_t, 5, Steady>);
FACET_AS(int64_8, 3000, 60000, history<int64_t, 8, Steady>);
FACET_AS(int64_31, 1000, 20000, history<int64_t, 31, Steady>);
FACET_AS(int64_128, 200, 4000, history<int64_t, 128, Steady>);
FACET_AS(double_4, 3000, 60000, history<double, 4, Steady>);
FACET_AS(int32_6, 3000, 60000, history<int32_t, 6, Steady>);
FACET_AS(uint8_4, 3000, 60000, history<uint8_t, 4, Steady>);
FACET_AS(system_clock_5, 3000, 60000, history<int64_t, 5, SystemClock>);
FACET_AS(milli_clock_5, 3000, 60000, history<int64_t, 5, MilliClock>);
FACET_AS(own_clock_5, 3000, 60000, history<int64_t, 5, OwnClock>);

PBT_MAIN
