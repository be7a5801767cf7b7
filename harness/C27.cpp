// C27: a histogram counts everything and samples through its reservoir
#include "clock.hpp"
#include "snap.hpp"
#include "twin.hpp"
#include <cxxmetrics/histogram.hpp>

PROPERTY("C27", "A case is a history of recordings, clock movements, snapshots and copies of one histogram (fresh or built on a pre-loaded reservoir), next to a reservoir of the same kind fed the same; non-trivial when at least three values were recorded through the histogram.")

using namespace cxxmetrics;

template<typename T>
static T value(pbt::Ctx& ctx, uint64_t serial, std::true_type) { return ctx.coin() ? static_cast<T>(serial) + T(0.5) : ctx.real<T>(); }
template<typename T>
static T value(pbt::Ctx& ctx, uint64_t serial, std::false_type) { return ctx.coin() ? static_cast<T>(serial) : ctx.integer<T>(); }
template<typename T>
struct Gen { static T get(pbt::Ctx& ctx, uint64_t serial) { return value<T>(ctx, serial, std::is_floating_point<T>{}); } };
template<>
struct Gen<std::chrono::nanoseconds> { static std::chrono::nanoseconds get(pbt::Ctx& ctx, uint64_t) { return std::chrono::nanoseconds(ctx.range(0, 1000000)); } };

template<typename T, std::size_t N, typename... A>
static simple_reservoir<T, N> make(pbt::Ctx&, simple_reservoir<T, N>*) { return simple_reservoir<T, N>(); }
template<typename T, std::size_t N>
static uniform_reservoir<T, N> make(pbt::Ctx& ctx, uniform_reservoir<T, N>*)
{
    vclock::state().system = static_cast<int64_t>(ctx.draw(1ull << 62));
    return uniform_reservoir<T, N>();
}
template<typename T, std::size_t N>
static sliding_window_reservoir<T, N> make(pbt::Ctx& ctx, sliding_window_reservoir<T, N>*)
{
    return sliding_window_reservoir<T, N>(time::seconds(ctx.range(1, 30)));
}

template<typename T, typename R>
static void history(pbt::Ctx& ctx)
{
    using H = histogram<T, R>;
    auto r = make(ctx, static_cast<R*>(nullptr));
    std::unique_ptr<H> h;
    uint64_t serial = 0, count = 0;
    bool loaded = ctx.chance(3, 4);
    if (loaded)
    {
        auto n = ctx.size(12);
        for (std::size_t i = 0; i < n; i++)
        {
            T v = Gen<T>::get(ctx, serial++);
            TRACE(ctx, "reservoir.update(", v, ")");
            r.update(v);
            vclock::advance(ctx.range(0, 3) * 1000000000ll);
        }
    }
    else
        r = make(ctx, static_cast<R*>(nullptr)), vclock::state().system = 12345;
    Twin<T, R> twin(loaded ? R(r) : R());
    if (loaded)
        h.reset(new H(std::move(r)));
    else
        h.reset(new H());
    TRACE(ctx, loaded ? "histogram(reservoir)" : "histogram()");

    struct Old { histogram_snapshot s; std::vector<T> v; uint64_t count; };
    std::vector<Old> old;
    auto record = [&] {
        T v = Gen<T>::get(ctx, serial++);
        TRACE(ctx, "update(", v, ")");
        h->update(v);
        twin.update(v);
        ++count;
    };
    auto check = [&](const char* what) {
        CHECK_EQ(ctx, h->count(), count, "count()");
        auto s = h->snapshot();
        TRACE(ctx, "snapshot");
        CHECK_EQ(ctx, s.count(), count, what, ": count");
        twin.check(ctx, s, what);
        auto v = snap::contents<T>(s);
        switch (ctx.below(3))
        {
            case 0: break;
            case 1:
            {
                histogram_snapshot m(std::move(s));
                CHECK_EQ(ctx, m.count(), count, "count of a moved snapshot");
                snap::check_contents<T>(ctx, m, v, "a moved snapshot");
                if (old.size() < 4)
                    old.push_back(Old{std::move(m), v, count});
                break;
            }
            default:
                if (old.size() > 1 && ctx.coin())
                { // an older one over a newer one, or the other way round
                    auto a = ctx.below(old.size()), b = ctx.below(old.size());
                    if (a == b)
                        break;
                    TRACE(ctx, "snapshot ", a, " = snapshot ", b);
                    old[a] = std::move(old[b]);
                    old.erase(old.begin() + static_cast<std::ptrdiff_t>(b));
                    a -= b < a;
                    CHECK_EQ(ctx, old[a].s.count(), old[a].count, "count of an assigned snapshot");
                    snap::check_contents<T>(ctx, old[a].s, old[a].v, "an assigned snapshot");
                }
                else if (!old.empty())
                {
                    auto& o = old[ctx.below(old.size())];
                    o.s = std::move(s);
                    o.v = v;
                    o.count = count;
                }
        }
    };
    auto steps = ctx.size(60);
    for (std::size_t k = 0; k < steps; k++)
        switch (ctx.below(6))
        {
            case 0: case 1: record(); break;
            case 2: { auto n = ctx.below(14); while (n--) record(); break; }
            case 3: vclock::advance(ctx.range(0, 12) * 1000000000ll); break;
            case 4:
                CHECK_EQ(ctx, h->count(), count, "count()");
                break;
            default: check("a snapshot");
        }
    check("the final snapshot");
    for (auto& o : old)
    {
        CHECK_EQ(ctx, o.s.count(), o.count, "count of an earlier snapshot");
        snap::check_contents<T>(ctx, o.s, o.v, "an earlier snapshot");
    }
    ctx.nontrivial(count >= 3);
    ctx.label(loaded, "built on a given reservoir");
    ctx.label(count > 8, "more recordings than capacity");
}

template<typename T, std::size_t N> using S = simple_reservoir<T, N>;
template<typename T, std::size_t N> using U = uniform_reservoir<T, N>;
template<typename T, std::size_t N> using W = sliding_window_reservoir<T, N>;
static void s_int64_2(pbt::Ctx& c) { history<int64_t, S<int64_t, 2>>(c); }
static void s_int64_8(pbt::Ctx& c) { history<int64_t, S<int64_t, 8>>(c); }
static void s_uint8_5(pbt::Ctx& c) { history<uint8_t, S<uint8_t, 5>>(c); }
static void s_double_4(pbt::Ctx& c) { history<double, S<double, 4>>(c); }
static void s_nanos_4(pbt::Ctx& c) { history<std::chrono::nanoseconds, S<std::chrono::nanoseconds, 4>>(c); }
static void u_int64_2(pbt::Ctx& c) { history<int64_t, U<int64_t, 2>>(c); }
static void u_int64_8(pbt::Ctx& c) { history<int64_t, U<int64_t, 8>>(c); }
static void u_int32_5(pbt::Ctx& c) { history<int32_t, U<int32_t, 5>>(c); }
static void u_double_3(pbt::Ctx& c) { history<double, U<double, 3>>(c); }
static void u_default(pbt::Ctx& c) { history<int64_t, U<int64_t, 1024>>(c); }
static void w_int64_2(pbt::Ctx& c) { history<int64_t, W<int64_t, 2>>(c); }
static void w_int64_8(pbt::Ctx& c) { history<int64_t, W<int64_t, 8>>(c); }
static void w_double_5(pbt::Ctx& c) { history<double, W<double, 5>>(c); }
FACET_AS(simple_int64_2, 3000, 60000, s_int64_2);
FACET_AS(simple_int64_8, 3000, 60000, s_int64_8);
FACET_AS(simple_uint8_5, 3000, 60000, s_uint8_5);
FACET_AS(simple_double_4, 3000, 60000, s_double_4);
FACET_AS(simple_nanoseconds_4, 3000, 60000, s_nanos_4);
FACET_AS(uniform_int64_2, 3000, 60000, u_int64_2);
FACET_AS(uniform_int64_8, 3000, 60000, u_int64_8);
FACET_AS(uniform_int32_5, 3000, 60000, u_int32_5);
FACET_AS(uniform_double_3, 3000, 60000, u_double_3);
FACET_AS(uniform_default_1024, 1000, 10000, u_default);
FACET_AS(window_int64_2, 3000, 60000, w_int64_2);
FACET_AS(window_int64_8, 3000, 60000, w_int64_8);
FACET_AS(window_double_5, 3000, 60000, w_double_5);

// far more recordings than a count of a few bits can tell
template<typename R>
static void long_history(pbt::Ctx& ctx)
{
    histogram<int64_t, R> h(R{});
    uint64_t n = 0;
    static const uint64_t edges[] = {256, 32768, 65536, 131072, 100000};
    auto stops = 1 + ctx.below(5);
    for (uint64_t k = 0; k < stops; k++)
    {
        uint64_t to = ctx.coin() ? edges[ctx.below(5)] + ctx.below(9) : n + ctx.below(70000);
        to = std::min<uint64_t>(to, 300000);
        if (ctx.chance(1, 64)) // beyond what single precision and counts of 24 bits tell apart
            to = ctx.chance(1, 4) ? (1 << 24) + ctx.below(1000) : (1 << 20) + ctx.below(1000);
        TRACE(ctx, "updates up to the ", to, "th");
        while (n < to)
            h.update(static_cast<int64_t>(n++));
        CHECK_EQ(ctx, h.count(), n, "count()");
        auto s = h.snapshot();
        CHECK_EQ(ctx, s.count(), n, "the snapshot's count");
        auto v = snap::contents<int64_t>(s);
        CHECK_EQ(ctx, v.size(), std::min<uint64_t>(n, 6), "values held");
        CHECK_THAT(ctx, std::adjacent_find(v.begin(), v.end()) == v.end(), "holds one recording twice: ", v);
        CHECK_THAT(ctx, v.empty() || (v.front() >= 0 && v.back() < static_cast<int64_t>(n)), "holds what was never recorded: ", v);
    }
    ctx.nontrivial(n >= 3);
    ctx.label(n > 65536, "more than 65536 recordings");
    ctx.label(n > 1 << 24, "more than 2^24 recordings");
}
using S6 = simple_reservoir<int64_t, 6>;
using U6 = uniform_reservoir<int64_t, 6>;
using W6 = sliding_window_reservoir<int64_t, 6>;
FACET_AS(long_simple, 60, 1500, long_history<S6>);
FACET_AS(long_uniform, 60, 1500, long_history<U6>);
FACET_AS(long_window, 60, 1500, long_history<W6>);

// the default reservoir of a histogram keeps 1024 values, all of them until then
FACET(default_reservoir, 10, 100)
{
    histogram<int64_t> h;
    auto n = ctx.coin() ? 1020 + ctx.below(10) : ctx.below(1500);
    std::vector<int64_t> want;
    for (uint64_t i = 0; i < n; i++)
    {
        h.update(static_cast<int64_t>(i));
        want.push_back(static_cast<int64_t>(i));
    }
    auto s = h.snapshot();
    CHECK_EQ(ctx, s.count(), n, "count");
    CHECK_EQ(ctx, s.size(), std::min<std::size_t>(n, 1024), "values held");
    if (n <= 1024)
        snap::check_contents<int64_t>(ctx, s, want, "the snapshot");
    ctx.nontrivial(n > 3);
}

PBT_MAIN
