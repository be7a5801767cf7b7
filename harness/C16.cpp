// C16: timers against a log of what was timed
#include "clock.hpp"
#include "twin.hpp"
#include <cxxmetrics/timer.hpp>

PROPERTY("C16", "A case is a history of durations given directly, scoped timers that are nested, moved, cleared and reset, and timed calls that return or throw, on one timer next to a log of what has to be in it; non-trivial when at least two durations were logged, one of them by a scope or a call.")

using namespace cxxmetrics;
using ld = long double;
constexpr period::value sec = 1000000, minute = 60 * sec;

// clocks of the harness
template<typename D>
struct own_clock // state in the instance
{
    using duration = D;
    using rep = typename D::rep;
    using period = typename D::period;
    using time_point = std::chrono::time_point<own_clock>;
    static constexpr bool is_steady = false;
    int64_t* src;
    own_clock() : src(&shared()) { }
    own_clock(int64_t* s) : src(s) { }
    time_point now() const noexcept { return time_point(duration(static_cast<rep>(*src))); }
    static int64_t& shared()
    {
        static int64_t s;
        return s;
    }
};

template<typename C>
struct Ctl
{
    int64_t* p = &C::shared();
    C make()
    {
        p = &mine;
        return C(&mine);
    }
    int64_t mine = 5000;
    void advance(int64_t d) { *p += d; }
    int64_t now() { return *p; }
    bool is(const C& c) { return c.src == p; }
};
template<>
struct Ctl<std::chrono::steady_clock>
{
    using C = std::chrono::steady_clock;
    C make() { return C(); }
    void advance(int64_t d) { vclock::state().steady += d; }
    int64_t now() { return vclock::state().steady; }
    bool is(const C&) { return true; }
};
template<>
struct Ctl<std::chrono::system_clock>
{
    using C = std::chrono::system_clock;
    C make() { return C(); }
    void advance(int64_t d) { vclock::state().system += d; }
    int64_t now() { return vclock::state().system; }
    bool is(const C&) { return true; }
};

struct Oops
{
    int id;
};
struct Worse : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
struct MoveOnly
{
    std::unique_ptr<int> p;
};

template<period::value I, typename C, typename R, period::value... W>
struct Machine
{
    using T = timer<I, C, R, W...>;
    using D = typename T::duration;
    using M = meter<I, W...>;

    pbt::Ctx& ctx;
    Ctl<C> ctl;
    std::unique_ptr<T> t;
    std::unique_ptr<M> m{new M()};
    std::unique_ptr<Twin<D, R>> twin;
    uint64_t count = 0, by_scope = 0;

    struct Scope
    {
        std::unique_ptr<scoped_timer_t<T>> s;
        int64_t start;
        bool set;
    };
    std::vector<Scope> scopes;

    Machine(pbt::Ctx& c) : ctx(c) { }

    void logged(int64_t d)
    {
        if (!d)
            return;
        ++count;
        twin->update(D(d));
        m->mark();
    }

    void destroy(std::size_t i)
    {
        TRACE(ctx, "end of scope ", i, scopes[i].set ? cat_elapsed(scopes[i]) : " (logs nothing)");
        scopes[i].s.reset();
        if (scopes[i].set)
        {
            logged(ctl.now() - scopes[i].start);
            ++by_scope;
        }
        scopes.erase(scopes.begin() + i);
    }
    std::string cat_elapsed(const Scope& s) { return pbt::cat(" after ", ctl.now() - s.start); }

    int64_t elapsed()
    {
        switch (ctx.below(6))
        {
            case 0: return 0;
            case 1: return 1;
            case 2: return ctx.range(2, 200);
            default: return ctx.range(1, 5000000);
        }
    }

    // a call: what goes on inside, then how it ends
    template<bool Include>
    void call(int depth)
    {
        int64_t begin = ctl.now();
        int kind = static_cast<int>(ctx.below(8));
        int64_t a = elapsed(), b = elapsed();
        int inner = depth < 2 ? static_cast<int>(ctx.below(4)) : 3;
        int payload = static_cast<int>(ctx.below(1000));
        auto body = [&] {
            ctl.advance(a);
            if (inner == 0)
                call<false>(depth + 1);
            else if (inner == 1)
                call<true>(depth + 1);
            ctl.advance(b);
        };
        std::string name = pbt::cat("time", Include ? "<include exceptions>" : "", " call ", kind, " at depth ", depth);
        TRACE(ctx, name, " begins");
        bool threw = false;
        int runs = 0;
        switch (kind)
        {
            case 0:
            {
                auto f = [&] { ++runs; body(); };
                t->template time<decltype(f), Include>(f);
                break;
            }
            case 1:
            {
                auto f = [&] { ++runs; body(); return payload; };
                int got = t->template time<decltype(f), Include>(f);
                CHECK_EQ(ctx, got, payload, name, ": result");
                break;
            }
            case 2:
            {
                auto f = [&] { ++runs; body(); return std::string(payload, 'x'); };
                auto got = t->template time<decltype(f), Include>(f);
                CHECK_EQ(ctx, got, std::string(payload, 'x'), name, ": result");
                break;
            }
            case 3:
            {
                auto f = [&]() -> int& { ++runs; body(); return payload; };
                auto&& got = t->template time<decltype(f), Include>(f);
                CHECK_THAT(ctx, (std::is_same<decltype(got), int&>::value), name, ": a reference comes back as one");
                CHECK_THAT(ctx, static_cast<const void*>(&got) == &payload, name, ": result is another object");
                break;
            }
            case 4:
            {
                auto f = [&] { ++runs; body(); return MoveOnly{std::unique_ptr<int>(new int(payload))}; };
                auto got = t->template time<decltype(f), Include>(f);
                CHECK_THAT(ctx, got.p && *got.p == payload, name, ": result");
                break;
            }
            case 5: case 6:
            {
                bool worse = kind == 6;
                auto f = [&]() -> int {
                    ++runs;
                    body();
                    if (worse)
                        throw Worse("worse " + std::to_string(payload));
                    throw Oops{payload};
                };
                try
                {
                    t->template time<decltype(f), Include>(f);
                    ctx.fail(name + ": the exception did not come through");
                }
                catch (const Oops& o)
                {
                    CHECK_THAT(ctx, !worse && o.id == payload, name, ": another exception came out");
                }
                catch (const Worse& w)
                {
                    CHECK_THAT(ctx, worse && w.what() == "worse " + std::to_string(payload), name, ": another exception came out");
                }
                threw = true;
                break;
            }
            default:
            {
                auto f = [&] {
                    ++runs;
                    body();
                    throw payload;
                };
                bool came = false;
                try
                {
                    t->template time<decltype(f), Include>(f);
                }
                catch (int i)
                {
                    came = true;
                    CHECK_EQ(ctx, i, payload, name, ": exception");
                }
                CHECK_THAT(ctx, came, name, ": the exception did not come through");
                threw = true;
            }
        }
        TRACE(ctx, name, " ended", threw ? " with an exception" : "", " after ", ctl.now() - begin);
        CHECK_EQ(ctx, runs, 1, name, ": number of times the callable ran");
        if (!threw || Include)
        {
            logged(ctl.now() - begin);
            ++by_scope;
            ctx.label(threw, "failed call included");
        }
        else
            ctx.label("failed call left out");
        CHECK_EQ(ctx, t->count(), count, name, ": count afterwards");
    }

    static bool close(ld a, ld b) { return std::fabs(a - b) <= 1e-9l * (std::fabs(a) + std::fabs(b) + 1); }

    void check()
    {
        CHECK_EQ(ctx, t->count(), count, "count()");
        ld mean = t->mean(), want = static_cast<const M&>(*m).mean();
        CHECK_THAT(ctx, close(mean, want), "mean(): got ", mean, ", a meter marked at the same times has ", want);
        auto snap_of = [&](const timer_snapshot& s, const meter_snapshot& w, const char* what) {
            CHECK_EQ(ctx, s.count(), count, what, ": count");
            twin->check(ctx, s, what);
            const auto& r = s.rate();
            CHECK_THAT(ctx, close(static_cast<ld>(r.value()), static_cast<ld>(w.value())), what, ": mean rate ", static_cast<ld>(r.value()), ", expected ", static_cast<ld>(w.value()));
            std::map<int64_t, ld> a, b;
            for (auto& e : r)
                a[std::chrono::duration_cast<std::chrono::nanoseconds>(e.first).count()] = static_cast<ld>(e.second);
            for (auto& e : w)
                b[std::chrono::duration_cast<std::chrono::nanoseconds>(e.first).count()] = static_cast<ld>(e.second);
            CHECK_EQ(ctx, a.size(), b.size(), what, ": number of windows");
            for (auto& e : b)
                CHECK_THAT(ctx, a.count(e.first) && close(a[e.first], e.second), what, ": rate for ", e.first, " ns: got ", a.count(e.first) ? a[e.first] : -1, ", expected ", e.second);
        };
        if (ctx.coin())
        {
            TRACE(ctx, "snapshot()");
            snap_of(t->snapshot(), m->snapshot(), "a snapshot");
        }
        else
        {
            TRACE(ctx, "snapshot() const");
            snap_of(static_cast<const T&>(*t).snapshot(), static_cast<const M&>(*m).snapshot(), "a read-only snapshot");
        }
        int unused[] = {0, (one_rate<W>(), 0)...};
        (void)unused;
    }
    template<period::value Win>
    void one_rate()
    {
        auto r = static_cast<const T&>(*t).template rate<Win>();
        auto w = static_cast<const M&>(*m).template rate<Win>();
        CHECK_THAT(ctx, close(r.rate, w.rate), "rate<", Win, ">(): got ", r.rate, ", expected ", w.rate);
    }

    void run(bool stateful)
    {
        own_reset(static_cast<C*>(nullptr));
        if (stateful)
        {
            auto c = ctl.make();
            R r = reservoir(static_cast<R*>(nullptr));
            twin.reset(new Twin<D, R>(R(r)));
            t.reset(new T(std::move(r), std::move(c)));
            CHECK_THAT(ctx, ctl.is(t->clock()), "the timer does not use the clock it was given");
        }
        else
        {
            R r = reservoir(static_cast<R*>(nullptr));
            twin.reset(new Twin<D, R>(R(r)));
            t.reset(new T(std::move(r)));
        }
        auto steps = ctx.size(40);
        for (std::size_t k = 0; k < steps; k++)
        {
            switch (ctx.below(12))
            {
                case 0: case 1:
                {
                    auto d = elapsed();
                    if (ctx.chance(1, 12))
                        d = -d;
                    TRACE(ctx, "update(", d, ")");
                    t->update(D(static_cast<typename D::rep>(d)));
                    logged(d);
                    break;
                }
                case 2:
                    TRACE(ctx, "scope ", scopes.size(), " begins");
                    if (ctx.coin())
                        scopes.push_back(Scope{std::unique_ptr<scoped_timer_t<T>>(new scoped_timer_t<T>(*t)), ctl.now(), true});
                    else
                        scopes.push_back(Scope{std::unique_ptr<scoped_timer_t<T>>(new scoped_timer_t<T>(scoped_timer(*t))), ctl.now(), true});
                    break;
                case 3: case 4:
                    if (!scopes.empty())
                        destroy(ctx.below(scopes.size()));
                    break;
                case 5:
                    if (!scopes.empty())
                    {
                        auto i = ctx.below(scopes.size());
                        TRACE(ctx, "scope ", i, " moves into scope ", scopes.size());
                        Scope n{std::unique_ptr<scoped_timer_t<T>>(new scoped_timer_t<T>(std::move(*scopes[i].s))), scopes[i].start, scopes[i].set};
                        scopes[i].set = false;
                        scopes.push_back(std::move(n));
                        ctx.label("moved scope");
                    }
                    break;
                case 6:
                    if (!scopes.empty())
                    {
                        auto& s = ctx.pick(scopes);
                        if (ctx.coin())
                        {
                            TRACE(ctx, "clear()");
                            s.s->clear();
                            s.set = false;
                        }
                        else
                        {
                            TRACE(ctx, "reset()");
                            s.s->reset();
                            s.start = ctl.now();
                            s.set = true;
                        }
                    }
                    break;
                case 7: call<false>(0); break;
                case 8: call<true>(0); break;
                case 9:
                {
                    auto d = elapsed();
                    TRACE(ctx, "the timer's clock moves by ", d);
                    ctl.advance(d);
                    break;
                }
                case 10:
                {
                    int64_t d = ctx.coin() ? ctx.range(0, 4) * 1000000000ll : ctx.range(0, 2000000000ll);
                    TRACE(ctx, "the steady clock moves by ", d);
                    vclock::advance(d);
                    break;
                }
                default: check();
            }
        }
        while (!scopes.empty())
            destroy(ctx.below(scopes.size()));
        check();
        ctx.nontrivial(count >= 2 && by_scope);
        ctx.label(stateful, "given a clock instance");
    }

    template<typename Y>
    void own_reset(own_clock<Y>*) { C::shared() = 1000; }
    void own_reset(...) { }

    template<typename X, std::size_t N>
    R reservoir(simple_reservoir<X, N>*) { return R(); }
    template<typename X, std::size_t N>
    R reservoir(uniform_reservoir<X, N>*) { return R(); }
    template<typename X, std::size_t N>
    R reservoir(sliding_window_reservoir<X, N>*) { return R(time::seconds(ctx.range(1, 20))); }
};

template<period::value I, typename C, typename R, period::value... W>
static void history(pbt::Ctx& ctx)
{
    Machine<I, C, R, W...> m(ctx);
    m.run(ctx.coin());
}

using St = std::chrono::steady_clock;
using Sy = std::chrono::system_clock;
using On = own_clock<std::chrono::nanoseconds>;
using Om = own_clock<std::chrono::milliseconds>;
#define TIMER(name, q, th, ...) \
    static void name##_fn(pbt::Ctx& c) { history<__VA_ARGS__>(c); } FACET_AS(name, q, th, name##_fn)
TIMER(system_simple, 4000, 80000, sec, Sy, simple_reservoir<Sy::duration, 6>, minute, 5 * minute);
TIMER(steady_uniform, 4000, 80000, sec, St, uniform_reservoir<St::duration, 48>, minute);
TIMER(steady_sliding, 4000, 80000, 5 * sec, St, sliding_window_reservoir<St::duration, 8>, 15 * minute, minute);
TIMER(own_nanoseconds_simple, 4000, 80000, sec, On, simple_reservoir<std::chrono::nanoseconds, 64>, minute);
TIMER(own_milliseconds_simple, 4000, 80000, sec, Om, simple_reservoir<std::chrono::milliseconds, 9>);
TIMER(system_default_reservoir, 2000, 30000, sec, Sy, uniform_reservoir<Sy::duration, 1024>, minute, 5 * minute, 15 * minute);

PBT_MAIN
