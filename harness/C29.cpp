// C29: the uniform reservoir replaces all of its values with equal probability
#include "clock.hpp"
#include "snap.hpp"
#include <cxxmetrics/uniform_reservoir.hpp>

PROPERTY("C29", "A case is one drawn random seed (or thousands of them) and tens of thousands of recordings into full uniform reservoirs; of every recording that displaced a value it is counted which place that one held and how old it was among those held. No count may be further from an equal share than chance allows with a probability of 10^-18 (by Chernoff's bound); non-trivial when more than 5000 displacements, and more than 50 per held value, were counted.")

// log of the bound on the probability of k or more extreme out of n
static double surprise(double k, double n, double p)
{
    double q = k / n;
    auto term = [](double a, double b) { return a > 0 ? a * std::log(a / b) : 0; };
    return n * (term(q, p) + term(1 - q, 1 - p));
}
static const double limit = 41.4; // 10^-18

struct Counts
{
    std::vector<uint64_t> at;
    uint64_t total = 0;
    explicit Counts(std::size_t n) : at(n) { }
    void operator()(std::size_t i) { ++at[i]; ++total; }
    void check(pbt::Ctx& ctx, const char* what, const char* of) const
    {
        if (at.size() < 2 || !total)
            return;
        for (std::size_t i = 0; i < at.size(); i++)
            CHECK_THAT(ctx, surprise(at[i], total, 1.0 / at.size()) < limit, what, " number ", i, " of ", at.size(), " (", of, ") is displaced ", at[i], " times of ", total);
    }
};

// the values held, in the order of their recording, and the places that they have
struct Model
{
    struct Held { int64_t value; std::size_t place; };
    std::vector<Held> held;
    Counts places, ages;
    explicit Model(std::size_t n) : places(n), ages(n) { }
    void restart(std::size_t n)
    {
        held.clear();
        for (std::size_t i = 0; i < n; i++)
            held.push_back({static_cast<int64_t>(i), i});
    }
    // what is there now, sorted, after recording v
    void observe(pbt::Ctx& ctx, const std::vector<int64_t>& now, int64_t v)
    {
        CHECK_EQ(ctx, now.size(), held.size(), "values in a full reservoir");
        if (now.back() != v)
            return; // it didn't get in
        std::size_t gone = held.size();
        for (std::size_t i = 0; i < held.size() && gone == held.size(); i++)
            if (!std::binary_search(now.begin(), now.end(), held[i].value))
                gone = i;
        CHECK_THAT(ctx, gone < held.size(), "a value got in and none is gone");
        auto place = held[gone].place;
        places(place);
        ages(gone);
        held.erase(held.begin() + static_cast<long>(gone));
        held.push_back({v, place});
    }
};

template<typename T, std::size_t N>
static std::vector<int64_t> contents(const cxxmetrics::uniform_reservoir<T, N>& r)
{
    std::vector<int64_t> v;
    for (auto x : snap::contents<T>(r.snapshot()))
        v.push_back(static_cast<int64_t>(x));
    return v;
}

// many recordings into one reservoir
template<typename T, std::size_t N>
static void one(pbt::Ctx& ctx)
{
    vclock::state().system = static_cast<int64_t>(ctx.draw(1ull << 62));
    auto n = (1 + ctx.below(20)) * std::min<std::size_t>(100 * N, 40000 / N);
    TRACE(ctx, n, " recordings into one of ", N);
    std::unique_ptr<cxxmetrics::uniform_reservoir<T, N>> r(new cxxmetrics::uniform_reservoir<T, N>());
    Model m(N);
    m.restart(N);
    for (std::size_t i = 0; i < N; i++)
        r->update(static_cast<T>(i));
    for (std::size_t i = 0; i < n; i++)
    {
        auto v = static_cast<int64_t>(N + i);
        r->update(static_cast<T>(v));
        m.observe(ctx, contents(*r), v);
    }
    m.places.check(ctx, "place", "in one reservoir");
    m.ages.check(ctx, "the value with age", "in one reservoir");
    ctx.nontrivial(m.places.total > std::max<std::size_t>(50 * N, N > 10 ? 5000 : 500 * N));
}

// a few recordings into each of many, made at different times
template<typename T, std::size_t N>
static void many(pbt::Ctx& ctx)
{
    const auto seed = ctx.draw(1ull << 62);
    auto n = (1 + ctx.below(20)) * std::min<std::size_t>(100 * N, 40000 / N);
    auto more = 1 + ctx.below(2 * N);
    TRACE(ctx, n / more + 1, " reservoirs of ", N, ", ", more, " recordings into each");
    Model m(N);
    uint64_t x = seed;
    for (std::size_t k = 0; k < n / more + 1; k++)
    {
        // some time, by splitmix64
        auto z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        vclock::state().system = static_cast<int64_t>((z ^ (z >> 31)) >> 2);
        std::unique_ptr<cxxmetrics::uniform_reservoir<T, N>> r(new cxxmetrics::uniform_reservoir<T, N>());
        m.restart(N);
        for (std::size_t i = 0; i < N; i++)
            r->update(static_cast<T>(i));
        for (std::size_t i = 0; i < more; i++)
        {
            auto v = static_cast<int64_t>(N + i);
            r->update(static_cast<T>(v));
            m.observe(ctx, contents(*r), v);
        }
    }
    m.places.check(ctx, "place", "over many reservoirs");
    m.ages.check(ctx, "the value with age", "over many reservoirs");
    ctx.nontrivial(m.places.total > std::max<std::size_t>(50 * N, N > 10 ? 5000 : 500 * N));
}

#define F(n, q, t) \
    FACET_AS(one_int64_##n, q, t, one<int64_t, n>); \
    FACET_AS(many_int64_##n, q, t, many<int64_t, n>);
F(1, 20, 200) F(2, 60, 1000) F(3, 60, 1000) F(4, 60, 1000) F(5, 60, 1000) F(7, 50, 800) F(8, 50, 800) F(16, 20, 300) F(33, 6, 80) F(100, 2, 10)
FACET_AS(one_double_6, 50, 800, one<double, 6>);
FACET_AS(many_int32_10, 40, 500, many<int32_t, 10>);

PBT_MAIN
