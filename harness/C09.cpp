// C09: a uniform reservoir only ever holds recorded values
#include "clock.hpp"
#include "snap.hpp"
#include <cxxmetrics/uniform_reservoir.hpp>

PROPERTY("C09", "A case is a history of recordings on one uniform reservoir (with a drawn random seed), its sample compared after every recording, or a series of trials following what becomes of each held value; non-trivial when at least one recording beyond the capacity was checked.")

template<typename T>
static T value(pbt::Ctx& ctx, uint64_t serial, std::true_type) { return ctx.chance(3, 4) ? static_cast<T>(serial) + T(0.25) : ctx.real<T>(); }
template<typename T>
static T value(pbt::Ctx& ctx, uint64_t serial, std::false_type) { return ctx.chance(3, 4) ? static_cast<T>(serial) : ctx.integer<T>(); }
template<typename T>
struct Gen { static T get(pbt::Ctx& ctx, uint64_t serial) { return value<T>(ctx, serial, std::is_floating_point<T>{}); } };
template<>
struct Gen<std::string> { static std::string get(pbt::Ctx&, uint64_t serial) { return "recorded-value-" + std::to_string(serial); } };
template<>
struct Gen<std::chrono::milliseconds> { static std::chrono::milliseconds get(pbt::Ctx& ctx, uint64_t serial) { return std::chrono::milliseconds(ctx.coin() ? static_cast<int64_t>(serial) : ctx.range(-1000000, 1000000)); } };

// is b equal to a with one value replaced by v?
template<typename T>
static bool replaced_one(const std::vector<T>& a, const std::vector<T>& b, const T& v)
{
    // both sorted
    std::vector<T> gone, come;
    std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(gone));
    std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(come));
    if (gone.empty() && come.empty())
        return true; // unchanged
    return gone.size() == 1 && come.size() == 1 && come[0] == v;
}

static void reseed(pbt::Ctx& ctx)
{
    vclock::state().system = static_cast<int64_t>(ctx.draw(1ull << 62));
}

template<typename T, std::size_t N>
static void transitions(pbt::Ctx& ctx)
{
    reseed(ctx);
    std::unique_ptr<cxxmetrics::uniform_reservoir<T, N>> r(new cxxmetrics::uniform_reservoir<T, N>());
    auto total = ctx.coin() ? ctx.size(2 * N + 4) : N + ctx.below(5 * N + 8);
    std::vector<T> held; // sorted
    {
        auto s = r->snapshot();
        snap::check_contents<T>(ctx, s, held, "the empty snapshot");
    }
    std::size_t sparse = ctx.coin() ? 1 : 1 + ctx.below(7);
    for (std::size_t i = 0; i < total; i++)
    {
        T v = Gen<T>::get(ctx, i);
        TRACE(ctx, "update(", v, ")");
        r->update(v);
        if (i < N)
        {
            held.insert(std::upper_bound(held.begin(), held.end(), v), v);
            if (i % sparse && i + 1 < N)
                continue;
            snap::check_contents<T>(ctx, r->snapshot(), held, "a snapshot before the reservoir is full");
        }
        else
        {
            auto s = r->snapshot();
            CHECK_EQ(ctx, s.size(), N, "values in a full reservoir");
            auto now = snap::contents<T>(s);
            CHECK_THAT(ctx, replaced_one(held, now, v), "recording ", v, " changed the sample from ", held, " to ", now);
            CHECK_EQ(ctx, snap::plain<T>(s.min()), now.front(), "min");
            CHECK_EQ(ctx, snap::plain<T>(s.max()), now.back(), "max");
            held = now;
            ctx.nontrivial();
        }
    }
    ctx.label(total > N, "beyond capacity");
    ctx.label(total == N, "exactly full");
}

// whatever way the replaced value is chosen, over twelve independent trials of 20 capacities of recordings each
// no position survives every trial (even at Algorithm R's rate, that has a chance of 21^-12 per position)
template<typename T, std::size_t N>
static void displacement(pbt::Ctx& ctx)
{
    std::vector<char> displaced(N, 0);
    bool entered = false;
    for (int t = 0; t < 12; t++)
    {
        reseed(ctx);
        std::unique_ptr<cxxmetrics::uniform_reservoir<T, N>> r(new cxxmetrics::uniform_reservoir<T, N>());
        auto extra = 20 * N + ctx.below(N);
        for (std::size_t i = 0; i < N + extra; i++)
            r->update(static_cast<T>(i));
        auto s = r->snapshot();
        CHECK_EQ(ctx, s.size(), N, "values in a full reservoir");
        auto now = snap::contents<T>(s);
        std::set<T> set(now.begin(), now.end());
        CHECK_EQ(ctx, set.size(), N, "distinct values held (all recorded values were distinct)");
        for (std::size_t i = 0; i < N; i++)
            if (!set.count(static_cast<T>(i)))
                displaced[i] = 1;
        for (auto& v : set)
        {
            CHECK_THAT(ctx, v >= 0 && v < static_cast<T>(N + extra), "holds ", v, ", which was never recorded");
            entered = entered || v >= static_cast<T>(N);
        }
    }
    CHECK_THAT(ctx, entered, "no value recorded after the reservoir was full ever got in");
    for (std::size_t i = 0; i < N; i++)
        CHECK_THAT(ctx, displaced[i], "the value recorded as number ", i, " of ", N, " is never replaced");
    ctx.nontrivial();
}

// after more recordings than a count of a few bits can tell, every further one still replaces at most one
template<typename T, std::size_t N>
static void long_transitions(pbt::Ctx& ctx)
{
    reseed(ctx);
    std::unique_ptr<cxxmetrics::uniform_reservoir<T, N>> r(new cxxmetrics::uniform_reservoir<T, N>());
    static const uint64_t edges[] = {256, 32768, 65536, 131072, 100000};
    uint64_t n = 0;
    auto stops = 1 + ctx.below(3);
    for (uint64_t k = 0; k < stops; k++)
    {
        uint64_t to = ctx.coin() ? edges[ctx.below(5)] : n + ctx.below(70000);
        to = std::min<uint64_t>(to, 300000);
        if (ctx.chance(1, 64)) // beyond what single precision and counts of 24 bits tell apart
            to = ctx.chance(1, 4) ? (1 << 24) + ctx.below(1000) : (1 << 20) + ctx.below(1000);
        TRACE(ctx, "updates up to the ", to, "th");
        while (n + N < to)
            r->update(static_cast<T>(n++));
        if (n < N)
            continue;
        auto held = snap::contents<T>(r->snapshot());
        CHECK_EQ(ctx, held.size(), N, "values in a full reservoir");
        for (std::size_t i = 0; i < 2 * N + 3; i++)
        {
            T v = static_cast<T>(n++);
            r->update(v);
            auto now = snap::contents<T>(r->snapshot());
            CHECK_EQ(ctx, now.size(), N, "values in a full reservoir");
            CHECK_THAT(ctx, replaced_one(held, now, v), "recording ", v, " changed the sample from ", held, " to ", now);
            CHECK_THAT(ctx, now.front() >= 0 && now.back() < static_cast<T>(n) && std::adjacent_find(now.begin(), now.end()) == now.end(), "holds what was never recorded, or one recording twice: ", now);
            held = now;
        }
        ctx.nontrivial();
    }
    ctx.label(n > 65536, "more than 65536 recordings");
    ctx.label(n > 1 << 24, "more than 2^24 recordings");
}
FACET_AS(long_int64_3, 60, 1500, long_transitions<int64_t, 3>);
FACET_AS(long_double_10, 60, 1500, long_transitions<double, 10>);
FACET_AS(long_int32_64, 40, 1000, long_transitions<int32_t, 64>);

FACET_AS(int64_1, 2000, 40000, transitions<int64_t, 1>);
FACET_AS(int64_2, 6000, 60000, transitions<int64_t, 2>);
FACET_AS(int64_3, 6000, 60000, transitions<int64_t, 3>);
FACET_AS(int64_8, 6000, 60000, transitions<int64_t, 8>);
FACET_AS(int64_33, 1000, 20000, transitions<int64_t, 33>);
FACET_AS(int64_200, 60, 2000, transitions<int64_t, 200>);
FACET_AS(int32_5, 6000, 60000, transitions<int32_t, 5>);
FACET_AS(uint16_4, 6000, 60000, transitions<uint16_t, 4>);
FACET_AS(uint8_3, 6000, 60000, transitions<uint8_t, 3>);
FACET_AS(double_6, 6000, 60000, transitions<double, 6>);
FACET_AS(float_4, 6000, 60000, transitions<float, 4>);
FACET_AS(text_3, 3000, 30000, transitions<std::string, 3>);
FACET_AS(milliseconds_4, 6000, 60000, transitions<std::chrono::milliseconds, 4>);
FACET_AS(displacement_1, 200, 2000, displacement<int64_t, 1>);
FACET_AS(displacement_2, 400, 4000, displacement<int64_t, 2>);
FACET_AS(displacement_3, 400, 4000, displacement<int64_t, 3>);
FACET_AS(displacement_4, 400, 4000, displacement<int64_t, 4>);
FACET_AS(displacement_7, 400, 4000, displacement<int64_t, 7>);
FACET_AS(displacement_16, 200, 2000, displacement<int64_t, 16>);
FACET_AS(displacement_64, 40, 400, displacement<int64_t, 64>);
FACET_AS(displacement_300, 4, 40, displacement<int32_t, 300>);
FACET_AS(displacement_1024, 2, 10, displacement<double, 1024>);

PBT_MAIN
