// C02: concurrent recording loses nothing
#include "sched.hpp"
#include "subjects.hpp"

PROPERTY("C02", "A case is a small program of recordings and readings for each of 2-4 threads (in rounds between which time passes) and a drawn schedule at the granularity of single accesses to shared memory; non-trivial when a thread was preempted and at least two threads recorded something.")

using namespace cxxmetrics;
using ld = long double;
constexpr period::value sec = 1000000, minute = 60 * sec;
constexpr int64_t ns_sec = 1000000000;

template<typename Op>
static std::vector<std::vector<Op>> programs(pbt::Ctx& ctx, std::size_t most, const std::function<Op()>& draw)
{
    std::vector<std::vector<Op>> p(2 + ctx.below(3));
    for (auto& t : p)
    {
        auto n = ctx.below(std::max<std::size_t>(1, most / p.size()) + 1);
        for (std::size_t i = 0; i < n; i++)
            t.push_back(draw());
    }
    return p;
}
template<typename Op>
static void classify(pbt::Ctx& ctx, const std::vector<std::vector<Op>>& p)
{
    int busy = 0;
    for (auto& t : p)
        busy += !t.empty();
    ctx.nontrivial(busy > 1 && sched::preemptions());
    ctx.label(sched::preemptions() > 3, "more than three preemptions");
}

// -- counters
template<typename T>
static void counters(pbt::Ctx& ctx, std::size_t most)
{
    struct Op { int kind; T v; };
    T initial = ctx.coin() ? T(0) : ctx.integer<T>();
    counter<T> c(initial);
    static const char* names[] = {"incr", "post++", "++", "+=", "--", "-=", "value", "snapshot", "convert", "="};
    auto p = programs<Op>(ctx, most, [&] {
        Op o{static_cast<int>(ctx.below(10)), T(0)};
        if (o.kind == 9 && ctx.coin())
            o.kind = 0;
        o.v = ctx.chance(1, 4) ? ctx.integer<T>() : static_cast<T>(ctx.range(0, 20));
        TRACE(ctx, names[o.kind], " ", o.v);
        return o;
    });
    TRACE(ctx, "counter at ", initial, " with ", p.size(), " threads");
    using U = typename std::make_unsigned<T>::type;
    using State = U;
    using Apply = std::function<bool(State&)>;
    sched::History<State> h(p.size());
    std::vector<sched::Body> bodies;
    for (std::size_t t = 0; t < p.size(); t++)
        bodies.push_back([&, t] {
            for (auto& o : p[t])
                h.record(t, names[o.kind], [&]() -> Apply {
                    auto adds = [](T by) -> Apply { return [by](State& s) { s += static_cast<U>(by); return true; }; };
                    auto adds_returns = [](T by, T after) -> Apply { return [by, after](State& s) { s += static_cast<U>(by); return s == static_cast<U>(after); }; };
                    auto reads = [](T got) -> Apply { return [got](State& s) { return s == static_cast<U>(got); }; };
                    switch (o.kind)
                    {
                        case 0: return adds_returns(o.v, c.incr(o.v));
                        case 1:
                        {
                            T r = c++;
                            return adds_returns(1, static_cast<T>(static_cast<U>(r) + 1u));
                        }
                        case 2: ++c; return adds(1);
                        case 3: c += o.v; return adds(o.v);
                        case 4: --c; return adds(static_cast<T>(-1));
                        case 5: c -= o.v; return adds(static_cast<T>(0 - static_cast<U>(o.v)));
                        case 6: return reads(c.value());
                        case 7:
                        {
                            auto s = c.snapshot();
                            sched::Quiet q;
                            return reads(static_cast<T>(static_cast<int64_t>(s.value())));
                        }
                        case 8: return reads(static_cast<T>(c));
                        default:
                        {
                            c = o.v;
                            auto v = static_cast<U>(o.v);
                            return [v](State& s) { s = v; return true; };
                        }
                    }
                });
        });
    sched::run(ctx, bodies);
    auto end = static_cast<U>(c.value());
    TRACE(ctx, "ends at ", static_cast<T>(end));
    CHECK_THAT(ctx, h.linearizable(static_cast<U>(initial), [&](const State& s) { return s == end; }), "no order of the operations explains their results and the end at ", static_cast<T>(end), ":", h.show());
    classify(ctx, p);
}
static void counter_int64(pbt::Ctx& ctx) { counters<int64_t>(ctx, 8); }
static void counter_short(pbt::Ctx& ctx) { counters<int64_t>(ctx, 4); }
static void counter_int32(pbt::Ctx& ctx) { counters<int32_t>(ctx, 8); }
static void counter_uint16(pbt::Ctx& ctx) { counters<uint16_t>(ctx, 8); }
static void counter_int8(pbt::Ctx& ctx) { counters<signed char>(ctx, 8); }
FACET_AS(counter_int64, 100000, 4000000, counter_int64);
FACET_AS(counter_short, 100000, 4000000, counter_short);
FACET_AS(counter_int32, 50000, 2000000, counter_int32);
FACET_AS(counter_uint16, 50000, 2000000, counter_uint16);
FACET_AS(counter_int8, 50000, 2000000, counter_int8);

// -- counts of histograms and timers
template<typename T>
struct value_of { static T make(int64_t v) { return T(v); } };

template<typename X, typename V>
static void counts(pbt::Ctx& ctx, bool timers)
{
    struct Op { int kind; int64_t v; };
    X x;
    auto p = programs<Op>(ctx, 10, [&] {
        Op o{static_cast<int>(ctx.below(6)), ctx.range(1, 1000)};
        if (timers && ctx.chance(1, 8))
            o.v = 0; // not recorded
        return o;
    });
    using State = uint64_t;
    using Apply = std::function<bool(State&)>;
    auto before = ctx.below(12);
    for (uint64_t i = 0; i < before; i++)
        x.update(V(5));
    sched::History<State> h(p.size());
    std::vector<sched::Body> bodies;
    uint64_t total = before;
    for (std::size_t t = 0; t < p.size(); t++)
    {
        for (auto& o : p[t])
        {
            TRACE(ctx, "T", t, ": ", o.kind < 4 ? "update " : o.kind == 4 ? "count " : "snapshot ", o.v);
            if (o.kind < 4 && (!timers || o.v))
                ++total;
        }
        bodies.push_back([&, t] {
            for (auto& o : p[t])
                h.record(t, o.kind < 4 ? "update" : o.kind == 4 ? "count" : "snapshot", [&]() -> Apply {
                    if (o.kind < 4)
                    {
                        x.update(V(o.v));
                        bool counted = !timers || o.v;
                        return [counted](State& s) { s += counted; return true; };
                    }
                    if (o.kind == 4)
                    {
                        auto n = x.count();
                        return [n](State& s) { return s == n; };
                    }
                    const X& c = x;
                    auto s = c.snapshot();
                    sched::Quiet q;
                    auto n = static_cast<uint64_t>(s.count());
                    return [n](State& s) { return s == n; };
                });
        });
    }
    sched::run(ctx, bodies);
    CHECK_EQ(ctx, x.count(), total, "the count");
    CHECK_EQ(ctx, static_cast<uint64_t>(x.snapshot().count()), total, "the count in the snapshot");
    CHECK_THAT(ctx, h.linearizable(before, [&](const State& s) { return s == total; }), "no order of the operations explains the counts:", h.show());
    classify(ctx, p);
}
template<typename R>
static void histogram_counts(pbt::Ctx& ctx) { counts<histogram<int64_t, R>, int64_t>(ctx, false); }
using steady_ns = std::chrono::steady_clock::duration;
using timer_simple = timer<sec, std::chrono::steady_clock, simple_reservoir<steady_ns, 4>, minute, 5 * minute>;
using timer_uniform = timer<sec, std::chrono::system_clock, uniform_reservoir<std::chrono::system_clock::duration, 4>, minute>;
template<typename X>
static void timer_counts(pbt::Ctx& ctx) { counts<X, typename X::duration>(ctx, true); }
FACET_AS(histogram_simple, 20000, 1000000, histogram_counts<simple_reservoir<int64_t, 4>>);
FACET_AS(histogram_uniform, 20000, 1000000, histogram_counts<uniform_reservoir<int64_t, 4>>);
FACET_AS(histogram_sliding, 20000, 1000000, histogram_counts<sliding_window_reservoir<int64_t, 4>>);
FACET_AS(timer_simple, 10000, 500000, timer_counts<timer_simple>);
FACET_AS(timer_uniform, 10000, 500000, timer_counts<timer_uniform>);

// -- moving averages: what they may be in, given that marks made while an interval ends count for either
struct Average
{
    struct State
    {
        ld rate, pending;
        int64_t last;
        bool ticked;
        ld slack;
    };
    std::vector<State> may;
    ld alpha;
    int64_t interval;
    ld unit, eps; // of rounding

    Average(period::value window, period::value interval_us, ld unit, ld eps) :
            may{State{0, 0, vclock::now(), false, 0}}, alpha(1 - std::exp(-(interval_us / (2.0l * window)))), interval(interval_us * 1000), unit(unit), eps(eps)
    { }

    bool due() const { return vclock::now() - may[0].last >= interval; }
    ld blend(const State& s, ld pending) const
    {
        if (!s.ticked)
            return pending;
        auto r = s.rate + alpha * (pending - s.rate);
        auto missed = (vclock::now() - s.last) / interval - 1;
        return missed > 0 ? r * std::pow(1 - alpha, static_cast<ld>(missed)) : r;
    }
    State ticked(const State& s, ld taken, ld rest) const
    {
        State n{blend(s, taken), rest, vclock::now(), true, 0};
        n.slack = s.slack + unit + eps * (std::fabs(s.rate) + std::fabs(taken));
        return n;
    }
    // a round of marks at one time, and whether anything writes
    void round(const std::vector<ld>& marks, bool writes)
    {
        std::vector<State> next;
        for (auto& s : may)
        {
            if (!due() || !writes)
            {
                State n = s;
                for (auto m : marks)
                    n.pending += m;
                next.push_back(n);
                continue;
            }
            std::set<ld> sums{0};
            ld all = 0;
            for (auto m : marks)
            {
                all += m;
                auto more = sums;
                for (auto x : sums)
                    more.insert(x + m);
                sums = more;
            }
            for (auto x : sums)
                next.push_back(ticked(s, s.pending + x, all - x));
        }
        may = std::move(next);
    }
    // what a read-only reading shows
    bool reading(ld got)
    {
        std::vector<State> fit;
        for (auto& s : may)
        {
            auto want = blend(s, s.pending);
            if (std::fabs(got - want) <= s.slack + unit + eps * (std::fabs(s.rate) + std::fabs(s.pending)))
                fit.push_back(s);
        }
        if (fit.empty())
            return false;
        may = std::move(fit);
        return true;
    }
};

struct MarkOp { int kind; int64_t v; }; // 0: mark, 1: reading, 2: read-only reading

// rounds of concurrent marks; between them time passes and one thread reads
template<typename Mark, typename Read, typename Look>
static void rounds(pbt::Ctx& ctx, bool boundaries, std::vector<Average*> averages, const Mark& mark, const Read& read, const Look& look, int64_t& total, int64_t& start, int64_t largest = 1000)
{
    auto n = 1 + ctx.below(4);
    for (std::size_t r = 0; r < n; r++)
    {
        if (boundaries)
        {
            auto s = subj::step(ctx);
            TRACE(ctx, s, " ns pass");
            vclock::advance(s);
        }
        else if (r || ctx.coin())
        {
            // close what is open in one thread
            auto s = ctx.coin() ? ctx.range(0, 400) * 1000000 : subj::step(ctx);
            TRACE(ctx, s, " ns pass");
            vclock::advance(s);
            bool any = false;
            for (auto a : averages)
                any = any || a->due();
            if (any)
            {
                read();
                for (auto a : averages)
                    a->round({}, true);
            }
        }
        auto p = programs<MarkOp>(ctx, 6, [&] { return MarkOp{std::max(0, static_cast<int>(ctx.below(6)) - 3), ctx.range(largest < 10, largest)}; });
        std::vector<sched::Body> bodies;
        std::vector<ld> marks;
        bool writes = false;
        for (std::size_t t = 0; t < p.size(); t++)
        {
            for (auto& o : p[t])
            {
                TRACE(ctx, "T", t, ": ", o.kind == 0 ? "mark " : o.kind == 1 ? "rate " : "const rate ", o.kind ? 0 : o.v);
                writes = writes || o.kind < 2;
                if (o.kind == 0)
                {
                    if (largest < 10) // calls of a timer
                        marks.insert(marks.end(), static_cast<std::size_t>(o.v), 1.0l);
                    else
                        marks.push_back(static_cast<ld>(o.v));
                    total += o.v;
                    if (!start)
                        start = vclock::now();
                }
            }
            bodies.push_back([&, t] {
                for (auto& o : p[t])
                    if (o.kind == 0)
                        mark(o.v);
                    else if (o.kind == 1)
                        read();
                    else
                        look(false);
            });
        }
        sched::run(ctx, bodies);
        classify(ctx, p);
        for (auto a : averages)
            a->round(marks, writes);
        look(true);
    }
    // and in the end, after the last interval
    for (int i = 0; i < 3; i++)
    {
        vclock::advance(ns_sec * ctx.range(1, 7));
        read();
        for (auto a : averages)
            a->round({}, true);
        look(true);
    }
}
template<typename T, period::value W, period::value I>
static void averages(pbt::Ctx& ctx, bool boundaries)
{
    ewma<W, I, T> e;
    Average a(W, I, std::is_integral<T>::value ? 1.0l : 0.0l, std::is_same<T, float>::value ? 1e-5l : 1e-9l);
    int64_t total = 0, start = 0;
    rounds(ctx, boundaries, {&a}, [&](int64_t v) { e.mark(v); }, [&] { e.rate(); }, [&](bool check) {
        const auto& c = e;
        auto got = c.rate();
        if (!check)
            return;
        TRACE(ctx, "rate ", got);
        std::string may;
        for (auto& s : a.may)
            if (may.size() < 200)
                may += pbt::cat(" ", a.blend(s, s.pending));
        CHECK_THAT(ctx, a.reading(static_cast<ld>(got)), "the rate is ", got, ", but the marks make it one of", may);
    }, total, start);
}
template<typename T>
static void within(pbt::Ctx& ctx) { averages<T, 5 * sec, sec>(ctx, false); }
template<typename T>
static void across(pbt::Ctx& ctx) { averages<T, 5 * sec, sec>(ctx, true); }
FACET_AS(average_double, 40000, 1500000, within<double>);
FACET_AS(average_float, 20000, 700000, within<float>);
FACET_AS(average_int64, 20000, 700000, within<int64_t>);
FACET_AS(average_ending_double, 40000, 1500000, across<double>);
FACET_AS(average_ending_float, 20000, 700000, across<float>);
FACET_AS(average_ending_int64, 20000, 700000, across<int64_t>);

// -- meters and timers
static void check_average(pbt::Ctx& ctx, Average& a, ld got, const char* what)
{
    CHECK_THAT(ctx, a.reading(got), "the rate of ", what, " is ", got, ", which the marks don't make it");
}
static void check_mean(pbt::Ctx& ctx, ld mean, int64_t total, int64_t start, int64_t interval)
{
    if (!start)
    {
        CHECK_EQ(ctx, mean, static_cast<ld>(total), "the mean");
        return;
    }
    auto units = static_cast<ld>(vclock::now() - start) / interval;
    auto want = units > 0 ? total / units : total;
    CHECK_THAT(ctx, std::fabs(mean - want) <= 1e-9l * std::fabs(want), "the mean is ", mean, ", but a total of ", total, " makes it ", want);
}
static void meter_rounds(pbt::Ctx& ctx, bool boundaries)
{
    meter<sec, 5 * sec, minute> m;
    Average a5(5 * sec, sec, 0, 1e-9l), a60(minute, sec, 0, 1e-9l);
    int64_t total = 0, start = 0;
    rounds(ctx, boundaries, {&a5, &a60}, [&](int64_t v) { m.mark(v); }, [&] { m.snapshot(); }, [&](bool check) {
        const auto& c = m;
        if (!check)
        {
            c.snapshot();
            c.mean();
            return;
        }
        TRACE(ctx, "rates ", c.rate<5 * sec>().rate, " ", c.rate<minute>().rate, ", mean ", c.mean());
        check_mean(ctx, c.mean(), total, start, ns_sec);
        check_average(ctx, a5, c.rate<5 * sec>().rate, "the 5 s window");
        check_average(ctx, a60, c.rate<minute>().rate, "the 60 s window");
    }, total, start);
}
FACET(meter_within, 20000, 700000) { meter_rounds(ctx, false); }
FACET(meter_ending, 20000, 700000) { meter_rounds(ctx, true); }

template<typename R>
static void timer_rounds(pbt::Ctx& ctx, bool boundaries)
{
    using X = timer<sec, std::chrono::steady_clock, R, 5 * sec>;
    X x;
    Average a5(5 * sec, sec, 0, 1e-9l);
    int64_t total = 0, start = 0;
    rounds(ctx, boundaries, {&a5}, [&](int64_t v) {
        // v calls
        while (v--)
            x.update(steady_ns(7));
    }, [&] { x.snapshot(); }, [&](bool check) {
        const auto& c = x;
        if (!check)
        {
            c.snapshot();
            c.mean();
            return;
        }
        CHECK_EQ(ctx, c.count(), static_cast<uint64_t>(total), "the count");
        check_mean(ctx, c.mean(), total, start, ns_sec);
        check_average(ctx, a5, c.template rate<5 * sec>().rate, "the 5 s window");
    }, total, start, 3);
}
static void timer_within(pbt::Ctx& ctx) { timer_rounds<simple_reservoir<steady_ns, 4>>(ctx, false); }
static void timer_ending(pbt::Ctx& ctx) { timer_rounds<simple_reservoir<steady_ns, 4>>(ctx, true); }
FACET_AS(timer_within, 10000, 400000, timer_within);
FACET_AS(timer_ending, 10000, 400000, timer_ending);

// the first marks at different times: the mean starts with one of them
FACET(meter_start, 20000, 700000)
{
    meter<sec, minute> m;
    struct Op { int64_t v, wait; };
    auto p = programs<Op>(ctx, 6, [&] { return Op{ctx.range(1, 1000), ctx.range(0, 3) * 300000000}; });
    std::vector<sched::Body> bodies;
    int64_t total = 0;
    std::set<int64_t> times{vclock::now()};
    for (auto& t : p)
    {
        for (auto& o : t)
            total += o.v;
        bodies.push_back([&] {
            for (auto& o : t)
            {
                vclock::advance(o.wait);
                {
                    sched::Quiet q;
                    times.insert(vclock::now());
                }
                m.mark(o.v);
            }
        });
    }
    sched::run(ctx, bodies);
    vclock::advance(ns_sec * 10);
    auto mean = static_cast<ld>(m.mean());
    TRACE(ctx, "total ", total, ", mean ", mean);
    bool ok = total == 0 && mean == 0;
    for (auto t : times)
        ok = ok || std::fabs(mean * (static_cast<ld>(vclock::now() - t) / ns_sec) - total) <= 1e-6l;
    CHECK_THAT(ctx, ok, "the mean is ", mean, ", which a total of ", total, " doesn't make it for any beginning");
    classify(ctx, p);
}

PBT_MAIN
