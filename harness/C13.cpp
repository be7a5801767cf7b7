// C13: moving averages against a direct model of the exponential decay
#include "clock.hpp"
#include <cxxmetrics/ewma.hpp>

PROPERTY("C13", "A case is a history of marks, ordinary and read-only readings and clock movements (irregular, idle, backwards) of one moving average; non-trivial when marks in at least two different intervals were closed and a reading after that was compared.")

using ld = long double;
using cxxmetrics::period;

// the model keeps the range of stored rates that rounding leaves open
template<typename T>
struct Model
{
    ld interval, alpha; // interval in ns
    ld lo = 0, hi = 0;
    ld pending = 0;
    int64_t last;
    bool ticked = false;
    ld most = 0; // the largest absolute amount marked between two updates
    int closed = 0;

    Model(period::value window_us, period::value interval_us) :
            interval(interval_us * 1000.0l), alpha(1 - std::exp(-(interval_us / (2.0l * window_us)))), last(vclock::now())
    { }

    static ld rounded(ld v, int dir, ld big)
    {
        if (std::is_integral<T>::value) // conversions truncate
            return std::trunc(v + dir * 1e-9l * (1 + big / 1e6l));
        ld eps = 4.0l * std::numeric_limits<T>::epsilon() + 1e-13l;
        return v + dir * eps * big;
    }

    // the rate if the interval were closed now
    void closing(int64_t now, ld& l, ld& h) const
    {
        ld elapsed = std::floor((now - last) / interval);
        ld f = elapsed > 1 ? std::pow(1 - alpha, elapsed - 1) : 1.0l;
        ld big = std::max(std::max(std::fabs(lo), std::fabs(hi)), std::max(std::fabs(pending), most));
        l = (lo + alpha * (pending - lo)) * f;
        h = (hi + alpha * (pending - hi)) * f;
        l = rounded(l, -1, big);
        h = rounded(h, 1, big);
    }

    // a reading or the update before a mark; returns the expected answer
    void tick(int64_t now, bool write, ld& l, ld& h)
    {
        if (now < last)
        {
            l = lo;
            h = hi;
            return;
        }
        bool over = now - last >= interval;
        if (!ticked)
        {
            l = h = pending;
            if (over && write)
            {
                ticked = true;
                lo = hi = pending;
                pending = 0;
                last = now;
                ++closed;
            }
            return;
        }
        closing(now, l, h);
        if (over && write)
        {
            lo = l;
            hi = h;
            closed += pending != 0;
            pending = 0;
            last = now;
        }
    }

    void mark(int64_t now, ld amount)
    {
        if (now < last)
            return;
        ld l, h;
        tick(now, true, l, h);
        pending += amount;
        most = std::max(most, std::fabs(pending));
    }
};

template<typename T>
static ld amount(pbt::Ctx& ctx, bool negatives)
{
    ld v;
    switch (ctx.below(4))
    {
        case 0: v = static_cast<ld>(ctx.below(10)); break;
        case 1: v = static_cast<ld>(ctx.below(1000)); break;
        case 2: v = static_cast<ld>(ctx.below(20000)) / (std::is_integral<T>::value ? 1 : 8); break;
        default: v = 1;
    }
    if (negatives && std::is_signed<T>::value && ctx.chance(1, 4))
        v = -v;
    return v;
}

template<typename T, period::value W, period::value I>
static void history(pbt::Ctx& ctx)
{
    using E = cxxmetrics::ewma<W, I, T>;
    vclock::advance(ctx.below(1000000));
    std::unique_ptr<E> e(new E());
    Model<T> m(W, I);
    TRACE(ctx, "window ", W, " us, interval ", I, " us");
    bool negatives = ctx.chance(1, 3), back = false;
    const int64_t ns = static_cast<int64_t>(I) * 1000;
    bool read_after = false, provisional = false, missed = false;
    ld last_idle = -1; // the last reading since which nothing was marked
    auto check = [&](ld got, ld l, ld h, const char* what) {
        TRACE(ctx, what, " -> ", got);
        CHECK_THAT(ctx, got >= l && got <= h, what, " at ", vclock::now() - vclock::base, " ns: got ", got, ", expected ", l == h ? pbt::cat(l) : pbt::cat(l, " to ", h));
        if (!negatives)
        {
            ld slack = m.most * (std::is_same<T, float>::value ? 1e-4l : 1e-9l);
            CHECK_THAT(ctx, got >= 0, what, ": negative although no mark was");
            CHECK_THAT(ctx, got <= m.most + slack, what, ": ", got, " is above the largest amount marked between two updates, ", m.most);
            if (last_idle >= 0 && m.ticked && !back)
                CHECK_THAT(ctx, got <= last_idle + slack, what, ": grew from ", last_idle, " to ", got, " while idle");
        }
        read_after = read_after || m.closed >= 2;
        provisional = provisional || (m.ticked && m.pending != 0 && vclock::now() - m.last < ns);
        missed = missed || (m.ticked && vclock::now() - m.last >= 2 * ns);
        last_idle = m.ticked && m.pending == 0 ? got : -1;
    };
    auto steps = ctx.size(100);
    for (std::size_t k = 0; k < steps; k++)
    {
        switch (ctx.below(10))
        {
            case 0: case 1: case 2:
            {
                ld a = amount<T>(ctx, negatives);
                TRACE(ctx, "mark(", a, ") at ", vclock::now() - vclock::base);
                m.mark(vclock::now(), a);
                if (ctx.coin() || a != std::floor(a))
                    e->mark(static_cast<T>(a));
                else if (ctx.coin())
                    e->mark(static_cast<int>(a));
                else
                {
                    E& r = e->template operator+=<int64_t>(static_cast<int64_t>(a));
                    CHECK_THAT(ctx, &r == e.get(), "+= does not yield the average itself");
                }
                last_idle = -1;
                break;
            }
            case 3:
            {
                ld l, h;
                bool wrote = m.ticked && vclock::now() - m.last >= ns;
                m.tick(vclock::now(), true, l, h);
                ld got = static_cast<ld>(e->rate());
                check(got, l, h, "rate()");
                if (wrote && m.last == vclock::now())
                    m.lo = m.hi = got; // now the stored rate is known
                break;
            }
            case 4:
            {
                ld l, h;
                m.tick(vclock::now(), false, l, h);
                check(static_cast<ld>(static_cast<const E&>(*e).rate()), l, h, "rate() const");
                break;
            }
            case 5:
            {
                ld l, h;
                bool ro = ctx.coin();
                m.tick(vclock::now(), !ro, l, h);
                T v = static_cast<T>(ro ? static_cast<const E&>(*e).snapshot().value() : e->snapshot().value());
                check(static_cast<ld>(v), l, h, ro ? "snapshot() const" : "snapshot()");
                break;
            }
            case 6: vclock::advance(ns * ctx.range(0, 3)); break;
            case 7: // near the end of an interval
                vclock::advance(std::max<int64_t>(0, m.last + ns * ctx.range(1, 3) - vclock::now() + ctx.range(-1, 1)));
                break;
            case 8:
                switch (ctx.below(4))
                {
                    case 0: vclock::advance(ns * ctx.range(0, 60)); break;
                    case 1: vclock::advance(ns / 4 * ctx.range(0, 5)); break;
                    case 2: vclock::advance(ctx.range(0, 4) * static_cast<int64_t>(W) * 1000); break;
                    default: vclock::advance(ns / 1000 * ctx.range(0, 2500));
                }
                break;
            default:
                if (ctx.chance(1, 4))
                {
                    vclock::advance(-ns / 4 * ctx.range(0, 12));
                    back = true;
                }
        }
    }
    ld l, h;
    m.tick(vclock::now(), false, l, h);
    check(static_cast<ld>(static_cast<const E&>(*e).rate()), l, h, "the final rate() const");
    ctx.nontrivial(read_after);
    ctx.label(negatives, "with negative marks");
    ctx.label(back, "clock stepped back");
    ctx.label(provisional, "read inside an interval with pending marks");
    ctx.label(missed, "read after missed intervals");
}

// very long idle times, up to the range of the clock
template<typename T, period::value W, period::value I>
static void idle(pbt::Ctx& ctx)
{
    using E = cxxmetrics::ewma<W, I, T>;
    E e;
    const int64_t ns = static_cast<int64_t>(I) * 1000;
    T a = static_cast<T>(1 + ctx.below(10000));
    e.mark(a);
    vclock::advance(ns);
    CHECK_EQ(ctx, static_cast<ld>(e.rate()), static_cast<ld>(a), "the first rate");
    vclock::advance(ns * ctx.range(1, 3));
    e.mark(a);
    ld before = static_cast<ld>(static_cast<const E&>(e).rate());
    int64_t room = std::numeric_limits<int64_t>::max() - vclock::now();
    int shift = static_cast<int>(ctx.below(62));
    int64_t step = std::min<int64_t>(room - ns, 1 + static_cast<int64_t>(ctx.draw(1ull << shift)));
    vclock::advance(step);
    TRACE(ctx, "marks of ", a, ", then idle for ", step, " ns");
    ld after = static_cast<ld>(static_cast<const E&>(e).rate());
    CHECK_THAT(ctx, after >= 0, "negative rate ", after, " after being idle");
    CHECK_THAT(ctx, after <= before * (1 + 1e-6l) + 1e-9l, "the rate grew from ", before, " to ", after, " while idle");
    ld alpha = 1 - std::exp(-(I / (2.0l * W)));
    if (step / ns > 200 / alpha)
        CHECK_THAT(ctx, after <= 1e-6l * a + (std::is_integral<T>::value ? 1 : 0), "the rate is still ", after, " after ", step / ns, " idle intervals");
    ctx.nontrivial(step > 2 * ns);
}

constexpr period::value ms = 1000, s = 1000000, minute = 60 * s, hour = 3600 * s;
#define CONFIG(name, q, t, T, W, I) \
    static void name##_fn(pbt::Ctx& c) { history<T, W, I>(c); } FACET_AS(name, q, t, name##_fn)
CONFIG(double_1s_1s, 3000, 60000, double, 1 * s, 1 * s);
CONFIG(double_5s_1s, 3000, 60000, double, 5 * s, 1 * s);
CONFIG(double_1m_1s, 3000, 60000, double, minute, 1 * s);
CONFIG(double_1m_5s, 3000, 60000, double, minute, 5 * s);
CONFIG(double_15m_5s, 2000, 40000, double, 15 * minute, 5 * s);
CONFIG(double_1h_1s, 2000, 40000, double, hour, 1 * s);
CONFIG(double_1s_1m, 2000, 40000, double, 1 * s, minute);
CONFIG(double_10ms_1ms, 2000, 40000, double, 10 * ms, 1 * ms);
CONFIG(double_3us_1us, 2000, 40000, double, 3, 1);
CONFIG(double_1s_7s, 2000, 40000, double, 1 * s, 7 * s);
CONFIG(float_5s_1s, 2000, 40000, float, 5 * s, 1 * s);
CONFIG(ldouble_5s_1s, 2000, 40000, long double, 5 * s, 1 * s);
CONFIG(int64_5s_1s, 3000, 60000, int64_t, 5 * s, 1 * s);
CONFIG(int64_1m_5s, 2000, 40000, int64_t, minute, 5 * s);
CONFIG(int32_1s_1s, 2000, 40000, int32_t, 1 * s, 1 * s);
CONFIG(uint64_5s_1s, 2000, 40000, uint64_t, 5 * s, 1 * s);
CONFIG(uint32_1m_1s, 2000, 40000, uint32_t, minute, 1 * s);
#define IDLE(name, q, t, T, W, I) \
    static void name##_fn(pbt::Ctx& c) { idle<T, W, I>(c); } FACET_AS(name, q, t, name##_fn)
IDLE(idle_double_1m_1s, 2000, 40000, double, minute, 1 * s);
IDLE(idle_double_1s_1ms, 2000, 40000, double, 1 * s, 1 * ms);
IDLE(idle_int64_1m_5s, 2000, 40000, int64_t, minute, 5 * s);

// the default interval is a second, the default value type double
FACET(defaults, 500, 5000)
{
    cxxmetrics::ewma<cxxmetrics::time::seconds(10)> e;
    static_assert(std::is_same<decltype(e.rate()), double>::value, "");
    e.mark(7);
    vclock::advance(1000000000ll - 1);
    CHECK_EQ(ctx, e.rate(), 7.0, "just before a second");
    e.mark(2.5);
    vclock::advance(1);
    CHECK_EQ(ctx, e.rate(), 9.5, "the first rate");
    auto n = ctx.range(1, 50);
    vclock::advance(n * 1000000000ll);
    ld want = 9.5l * std::pow(std::exp(-1 / 20.0l), static_cast<ld>(n));
    ld got = e.rate();
    CHECK_THAT(ctx, std::fabs(got - want) < 1e-9l, "after ", n, " idle seconds: ", got, ", expected ", want);
    ctx.nontrivial();
}

PBT_MAIN
