// C15: meters against stand-alone moving averages and a lifetime total
#include "clock.hpp"
#include "snap.hpp"
#include <cxxmetrics/meter.hpp>

PROPERTY("C15", "A case is a history of marks, readings and clock movements of one meter; non-trivial when it was marked at two different times or more and its mean and rates were compared after at least one interval.")

using ld = long double;
using cxxmetrics::period;
using ns = std::chrono::nanoseconds;

static bool close(ld a, ld b, ld scale)
{
    return std::fabs(a - b) <= 1e-9l * (std::fabs(a) + std::fabs(b) + scale);
}

template<period::value I, period::value... Ws>
struct Averages;
template<period::value I>
struct Averages<I>
{
    void mark(int64_t) { }
    template<typename F>
    void each(const F&, bool) { }
};
template<period::value I, period::value W, period::value... Ws>
struct Averages<I, W, Ws...>
{
    cxxmetrics::ewma<W, I> e;
    Averages<I, Ws...> rest;
    void mark(int64_t v)
    {
        e.mark(v);
        rest.mark(v);
    }
    // f(index, window, expected)
    template<typename F>
    void each(const F& f, bool ro)
    {
        f(W, ro ? static_cast<const decltype(e)&>(e).rate() : e.rate());
        rest.each(f, ro);
    }
};

template<typename M, typename A, period::value... Ws>
struct Single;
template<typename M, typename A>
struct Single<M, A>
{
    static void read(pbt::Ctx&, M&, A&, uint64_t, bool, ld) { }
};
template<typename M, typename A, period::value W, period::value... Ws>
struct Single<M, A, W, Ws...>
{
    static void read(pbt::Ctx& ctx, M& m, A& a, uint64_t which, bool ro, ld scale)
    {
        if (which == 0)
        {
            auto r = ro ? static_cast<const M&>(m).template rate<W>() : m.template rate<W>();
            ld want = ro ? static_cast<const decltype(a.e)&>(a.e).rate() : a.e.rate();
            TRACE(ctx, "rate<", W, ">()", ro ? " const" : "", " -> ", r.rate);
            CHECK_EQ(ctx, std::chrono::duration_cast<ns>(r.period).count(), static_cast<int64_t>(W * 1000), "the window of rate<>");
            CHECK_THAT(ctx, close(r.rate, want, scale), "rate<", W, " us>: got ", r.rate, ", a stand-alone average has ", want);
        }
        else
            Single<M, decltype(a.rest), Ws...>::read(ctx, m, a.rest, which - 1, ro, scale);
    }
};

// M: the meter as declared; Ws: its distinct windows
template<typename M, period::value I, period::value... Ws>
static void history(pbt::Ctx& ctx)
{
    vclock::advance(ctx.below(1000000));
    std::unique_ptr<M> m(new M());
    auto a = std::unique_ptr<Averages<I, Ws...>>(new Averages<I, Ws...>());
    const int64_t in = static_cast<int64_t>(I) * 1000;
    int64_t start = -1;
    ld total = 0, most = 0;
    int times = 0;
    int64_t lastmark = -1;
    bool compared = false, back = false;
    bool negatives = ctx.chance(1, 5);
    bool large = ctx.chance(1, 5); // totals beyond what 32 bits hold, and beyond what a double holds exactly
    auto mean_is = [&](ld got, const char* what) {
        if (start < 0)
        {
            CHECK_THAT(ctx, got == 0, what, " of an unmarked meter: ", got);
            return;
        }
        auto since = vclock::now() - start;
        if (since < 0)
            return; // before its first mark, nothing is said
        ld want = since == 0 ? total : total / (static_cast<ld>(since) / in);
        CHECK_THAT(ctx, close(got, want, 0), what, " ", since, " ns after the first mark: got ", got, ", expected ", want);
        compared = compared || (since >= in && times >= 2);
    };
    auto snapshot = [&](bool ro) {
        TRACE(ctx, "snapshot()", ro ? " const" : "");
        auto s = ro ? static_cast<const M&>(*m).snapshot() : m->snapshot();
        mean_is(static_cast<ld>(s.value()), "the snapshot's mean");
        std::map<int64_t, ld> got;
        std::size_t entries = 0;
        for (auto& r : s)
        {
            got[std::chrono::duration_cast<ns>(r.first).count()] = static_cast<ld>(r.second);
            ++entries;
        }
        std::map<int64_t, ld> want;
        a->each([&](period::value w, ld r) { want[static_cast<int64_t>(w) * 1000] = r; }, ro);
        CHECK_EQ(ctx, entries, want.size(), "entries in the snapshot");
        for (auto& w : want)
        {
            CHECK_THAT(ctx, got.count(w.first), "the snapshot has no entry for the window of ", w.first, " ns");
            CHECK_THAT(ctx, close(got[w.first], w.second, most), "the snapshot's rate for the window of ", w.first, " ns: got ", got[w.first], ", a stand-alone average has ", w.second);
        }
        if (ctx.coin())
        { // moves keep it
            auto moved = std::move(s);
            std::size_t n = 0;
            for (auto& r : moved)
            {
                ++n;
                CHECK_EQ(ctx, static_cast<ld>(r.second), got[std::chrono::duration_cast<ns>(r.first).count()], "a rate in a moved snapshot");
            }
            CHECK_EQ(ctx, n, entries, "entries in a moved snapshot");
        }
    };
    auto steps = ctx.size(80);
    for (std::size_t k = 0; k < steps; k++)
    {
        switch (ctx.below(10))
        {
            case 0: case 1: case 2:
            {
                int64_t v = ctx.coin() ? 1 : ctx.range(0, 5000);
                if (large && ctx.coin())
                    v = ctx.range(int64_t(1) << 28, int64_t(1) << (ctx.coin() ? 33 : 54));
                if (negatives && ctx.chance(1, 3))
                    v = -v;
                TRACE(ctx, "mark(", v, ") at ", vclock::now() - vclock::base);
                if (v == 1 && ctx.coin())
                    m->mark();
                else
                    m->mark(v);
                a->mark(v);
                if (start < 0)
                    start = vclock::now();
                total += v;
                most += std::fabs(static_cast<ld>(v));
                times += lastmark != vclock::now();
                lastmark = vclock::now();
                break;
            }
            case 3:
            {
                TRACE(ctx, "mean()");
                mean_is(static_cast<const M&>(*m).mean(), "mean()");
                break;
            }
            case 4: snapshot(ctx.coin()); break;
            case 5: if (sizeof...(Ws)) Single<M, Averages<I, Ws...>, Ws...>::read(ctx, *m, *a, ctx.below(sizeof...(Ws)), ctx.coin(), most); break;
            case 6: vclock::advance(in * ctx.range(0, 3)); break;
            case 7: vclock::advance(ctx.coin() ? in / 4 * ctx.range(0, 9) : in + ctx.range(-1, 1)); break;
            case 8: if (ctx.coin()) vclock::advance(in * ctx.range(0, 100)); break;
            default:
                if (ctx.chance(1, 5))
                {
                    vclock::advance(-in / 4 * ctx.range(0, 12));
                    back = true;
                }
        }
    }
    snapshot(true);
    mean_is(m->mean(), "the final mean()");
    ctx.nontrivial(compared);
    ctx.label(back, "clock stepped back");
    ctx.label(negatives, "with negative marks");
    ctx.label(std::fabs(total) >= 4294967296.0l, "a total beyond 32 bits");
}

constexpr period::value ms = 1000, s = 1000000, mi = 60 * s, h = 3600 * s;
using cxxmetrics::meter;
#define METER(name, q, t, I, DECLARED, DISTINCT) \
    static void name##_fn(pbt::Ctx& c) { history<meter<I PBT_UNWRAP DECLARED>, I PBT_UNWRAP DISTINCT>(c); } FACET_AS(name, q, t, name##_fn)
#define PBT_UNWRAP(...) , ##__VA_ARGS__
METER(one, 3000, 60000, 1 * s, (1 * mi), (1 * mi));
METER(three, 3000, 60000, 1 * s, (1 * mi, 5 * mi, 15 * mi), (1 * mi, 5 * mi, 15 * mi));
METER(descending, 3000, 60000, 1 * s, (15 * mi, 5 * mi, 1 * mi), (1 * mi, 5 * mi, 15 * mi));
METER(repeated, 3000, 60000, 1 * s, (5 * mi, 1 * mi, 5 * mi, 1 * mi, 5 * mi), (1 * mi, 5 * mi));
METER(five_seconds, 3000, 60000, 5 * s, (1 * mi, 15 * mi, 5 * mi), (1 * mi, 5 * mi, 15 * mi));
METER(small, 3000, 60000, 1 * ms, (10 * ms, 3 * ms, 1 * ms, 500), (500, 1 * ms, 3 * ms, 10 * ms));
METER(many, 2000, 40000, 1 * s, (8 * s, 7 * s, 6 * s, 1 * s, 2 * s, 3 * s, 4 * s, 5 * s, 1 * h), (1 * s, 2 * s, 3 * s, 4 * s, 5 * s, 6 * s, 7 * s, 8 * s, 1 * h));
METER(minute_interval, 2000, 40000, 1 * mi, (30 * s, 1 * h), (30 * s, 1 * h));

static void none_fn(pbt::Ctx& c) { history<meter<1 * s>, 1 * s>(c); }
FACET_AS(no_windows, 2000, 40000, none_fn);

PBT_MAIN
