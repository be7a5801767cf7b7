// C08: a simple reservoir holds exactly the most recent values
#include "clock.hpp"
#include "snap.hpp"
#include <cxxmetrics/simple_reservoir.hpp>

PROPERTY("C08", "A case is a history of recordings and snapshots of one simple reservoir; non-trivial when at least three values were recorded and at least one snapshot was compared.")

template<typename T>
struct Gen
{
    static T get(pbt::Ctx& ctx, uint64_t serial) { return gen(ctx, serial, std::is_floating_point<T>{}); }
    static T gen(pbt::Ctx& ctx, uint64_t serial, std::true_type) { return ctx.coin() ? static_cast<T>(serial) : ctx.real<T>(); }
    static T gen(pbt::Ctx& ctx, uint64_t serial, std::false_type) { return ctx.coin() ? static_cast<T>(serial) : ctx.integer<T>(); }
};
template<typename R, typename P>
struct Gen<std::chrono::duration<R, P>>
{
    static std::chrono::duration<R, P> get(pbt::Ctx& ctx, uint64_t) { return std::chrono::duration<R, P>(ctx.range(-1000000, 1000000)); }
};
template<typename T, std::size_t N>
static void history(pbt::Ctx& ctx)
{
    cxxmetrics::simple_reservoir<T, N> r;
    std::deque<T> model;
    std::vector<std::pair<cxxmetrics::reservoir_snapshot, std::vector<T>>> old;
    uint64_t pushed = 0, snaps = 0;
    auto steps = ctx.size(60);
    auto record = [&](T v) {
        r.update(v);
        model.push_back(v);
        if (model.size() > N)
            model.pop_front();
        ++pushed;
    };
    for (std::size_t k = 0; k < steps; k++)
    {
        switch (ctx.below(6))
        {
            case 0: case 1: case 2:
            {
                T v = Gen<T>::get(ctx, pushed);
                TRACE(ctx, "update(", v, ")");
                record(v);
                break;
            }
            case 3:
            { // around a wrap
                auto n = ctx.coin() ? ctx.below(N + 3) : ctx.below(3 * N + 2);
                TRACE(ctx, n, " updates");
                for (uint64_t i = 0; i < n; i++)
                    record(static_cast<T>(Gen<T>::get(ctx, pushed)));
                break;
            }
            case 4:
            { // up to exactly the capacity, or one off
                auto n = N - model.size() + ctx.below(3);
                n = n ? n - 1 : 0;
                TRACE(ctx, n, " updates");
                for (uint64_t i = 0; i < n; i++)
                    record(Gen<T>::get(ctx, pushed));
                break;
            }
            default:
            {
                auto s = r.snapshot();
                std::vector<T> want(model.begin(), model.end());
                TRACE(ctx, "snapshot");
                snap::check_contents<T>(ctx, s, want, "a snapshot");
                ++snaps;
                if (old.size() < 4)
                    old.emplace_back(std::move(s), std::move(want));
            }
        }
    }
    snap::check_contents<T>(ctx, r.snapshot(), std::vector<T>(model.begin(), model.end()), "the final snapshot");
    for (auto& o : old)
        snap::check_contents<T>(ctx, o.first, o.second, "an earlier snapshot");
    ctx.nontrivial(pushed >= 3);
    ctx.label(pushed > N, "wrapped around");
    ctx.label(pushed == N, "exactly full");
    ctx.label(pushed > 3 * N, "wrapped around three times");
    ctx.label(!old.empty(), "kept snapshots");
}

// far more recordings than any index of a few bits can count
template<typename T, std::size_t N>
static void long_history(pbt::Ctx& ctx)
{
    cxxmetrics::simple_reservoir<T, N> r;
    uint64_t pushed = 0;
    auto stops = 1 + ctx.below(6);
    static const uint64_t edges[] = {256, 32768, 65536, 131072, 1 << 18, 100000};
    for (uint64_t k = 0; k < stops; k++)
    {
        uint64_t to = ctx.coin() ? edges[ctx.below(6)] + ctx.below(2 * N + 3) : pushed + ctx.below(70000);
        to = std::min<uint64_t>(to, 400000);
        if (ctx.chance(1, 64)) // beyond what single precision and counts of 24 bits tell apart
            to = ctx.chance(1, 4) ? (1 << 24) + ctx.below(1000) : (1 << 20) + ctx.below(1000);
        TRACE(ctx, "updates up to the ", to, "th");
        while (pushed < to)
            r.update(static_cast<T>(pushed++));
        std::vector<T> want;
        for (uint64_t i = pushed > N ? pushed - N : 0; i < pushed; i++)
            want.push_back(static_cast<T>(i));
        snap::check_contents<T>(ctx, r.snapshot(), want, "a snapshot");
    }
    ctx.nontrivial(pushed > N);
    ctx.label(pushed > 65536, "more than 65536 recordings");
    ctx.label(pushed > 1 << 24, "more than 2^24 recordings");
}
FACET_AS(long_int64_3, 40, 2000, long_history<int64_t, 3>);
FACET_AS(long_int64_10, 40, 2000, long_history<int64_t, 10>);
FACET_AS(long_double_7, 40, 2000, long_history<double, 7>);
FACET_AS(long_uint16_100, 40, 2000, long_history<uint16_t, 100>);
FACET_AS(long_int32_1023, 40, 2000, long_history<int32_t, 1023>);
FACET_AS(long_int32_1024, 40, 2000, long_history<int32_t, 1024>);

FACET_AS(int64_2, 3000, 60000, history<int64_t, 2>);
FACET_AS(int64_3, 3000, 60000, history<int64_t, 3>);
FACET_AS(int64_4, 2000, 60000, history<int64_t, 4>);
FACET_AS(int64_7, 2000, 60000, history<int64_t, 7>);
FACET_AS(int64_10, 2000, 60000, history<int64_t, 10>);
FACET_AS(int64_16, 2000, 60000, history<int64_t, 16>);
FACET_AS(int64_33, 1000, 40000, history<int64_t, 33>);
FACET_AS(int64_100, 400, 10000, history<int64_t, 100>);
FACET_AS(int64_1024, 40, 1000, history<int64_t, 1024>);
FACET_AS(uint64_5, 2000, 60000, history<uint64_t, 5>);
FACET_AS(int32_6, 2000, 60000, history<int32_t, 6>);
FACET_AS(int16_9, 2000, 60000, history<int16_t, 9>);
FACET_AS(uint8_4, 2000, 60000, history<uint8_t, 4>);
FACET_AS(double_5, 2000, 60000, history<double, 5>);
FACET_AS(float_8, 2000, 60000, history<float, 8>);
FACET_AS(nanoseconds_5, 2000, 60000, history<std::chrono::nanoseconds, 5>);

PBT_MAIN
