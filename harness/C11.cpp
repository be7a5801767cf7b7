// C11: statistics of snapshots against independent order statistics
#include "clock.hpp"
#include "snap.hpp"
#include <cxxmetrics/snapshots.hpp>
#include <cxxmetrics/simple_reservoir.hpp>

PROPERTY("C11", "A case is one multiset of values of one type (or of mixed numeric types) in a drawn arrival order, with all statistics and a sampling compared; non-trivial with at least three values that are not all equal.")

using ld = long double;
using cxxmetrics::metric_value;
using cxxmetrics::quantile;
using cxxmetrics::reservoir_snapshot;
using namespace cxxmetrics_literals;

static ld interpolate(const std::vector<ld>& v, ld pos)
{
    if (pos <= 1)
        return v.front();
    if (pos >= v.size())
        return v.back();
    auto i = static_cast<std::size_t>(pos);
    auto f = pos - i;
    if (i >= v.size())
        return v.back();
    return v[i - 1] * (1 - f) + v[i] * f;
}

struct Q
{
    ld percent;
    ld got;
};

template<quantile::value... Qs>
static std::vector<Q> quantiles(const reservoir_snapshot& s)
{
    return {Q{quantile(Qs).percentile(), static_cast<ld>(s.value<Qs>())}...};
}

// in ascending order
static std::vector<Q> all_quantiles(const reservoir_snapshot& s)
{
    return quantiles<0_p, 0.001_p, 0.1_p, 0.5_p, 1_p, 2.5_p, 5_p, 7.77_p, 10_p, 12.5_p, 20_p, 25_p, 30_p, 33.333333_p, 40_p, 45_p, 49.9999_p, 50_p, 50.1_p, 55_p, 60_p, 66.666667_p,
            70_p, 75_p, 80_p, 87.5_p, 90_p, 92.3_p, 95_p, 98_p, 99_p, 99.9_p, 99.99_p, 99.999_p, 99.9999_p, 100_p>(s);
}
// what each of them was written as
static const std::vector<ld> wanted = {0.0l, 0.001l, 0.1l, 0.5l, 1.0l, 2.5l, 5.0l, 7.77l, 10.0l, 12.5l, 20.0l, 25.0l, 30.0l, 33.333333l, 40.0l, 45.0l, 49.9999l, 50.0l, 50.1l, 55.0l, 60.0l, 66.666667l,
            70.0l, 75.0l, 80.0l, 87.5l, 90.0l, 92.3l, 95.0l, 98.0l, 99.0l, 99.9l, 99.99l, 99.999l, 99.9999l, 100.0l};

static void check(pbt::Ctx& ctx, const reservoir_snapshot& s, std::vector<ld> v)
{
    std::sort(v.begin(), v.end());
    auto n = v.size();
    CHECK_EQ(ctx, s.size(), n, "size");
    if (!n)
    {
        // nothing to interpolate
        s.sample(ctx.below(5), [&](const metric_value&, quantile) { ctx.fail("sampling an empty snapshot visits something"); });
        return;
    }
    ld big = std::max(std::fabs(v.front()), std::fabs(v.back()));
    ld tol = big * 1e-12l;
    CHECK_EQ(ctx, static_cast<ld>(s.min()), v.front(), "min");
    CHECK_EQ(ctx, static_cast<ld>(s.max()), v.back(), "max");
    ld sum = 0, comp = 0;
    for (auto x : v) // compensated
    {
        ld y = x - comp, t = sum + y;
        comp = (t - sum) - y;
        sum = t;
    }
    ld mean = static_cast<ld>(s.mean());
    CHECK_THAT(ctx, std::fabs(mean - sum / n) <= tol, "mean of ", v, ": got ", mean, ", expected ", sum / n);
    CHECK_THAT(ctx, mean >= v.front() - tol && mean <= v.back() + tol, "mean ", mean, " outside of the data");

    auto qs = all_quantiles(s);
    for (std::size_t i = 0; i < qs.size(); i++)
    {
        ld pos = wanted[i] / 100 * (n + 1);
        ld eps = (n + 1) * std::ldexp(1.0l, -31) + 1e-12l; // the encoding of a quantile
        ld lo = interpolate(v, pos - eps) - tol, hi = interpolate(v, pos + eps) + tol;
        CHECK_THAT(ctx, qs[i].got >= lo && qs[i].got <= hi, "value at ", wanted[i], "% of ", v, ": got ", qs[i].got, ", expected ", interpolate(v, pos));
        CHECK_THAT(ctx, qs[i].got >= v.front() - tol && qs[i].got <= v.back() + tol, "value at ", wanted[i], "%: ", qs[i].got, " lies outside of the data ", v);
        if (i)
            CHECK_THAT(ctx, qs[i].got >= qs[i - 1].got - tol, "value at ", wanted[i], "% is smaller than that at ", wanted[i - 1], "%: ", qs[i].got, " < ", qs[i - 1].got);
    }

    std::size_t most = ctx.coin() ? ctx.size(60) : ctx.below(2 * n + 4);
    if (ctx.chance(1, 12)) // as many as there may be
        most = ~static_cast<std::size_t>(0) >> (ctx.coin() ? 0 : ctx.below(40));
    std::size_t visited = 0;
    ld last = -1;
    s.sample(most, [&](const metric_value& value, quantile q) {
        ++visited;
        ld p = q.percentile();
        CHECK_THAT(ctx, p > last, "sample visits ", p, "% after ", last, "%");
        CHECK_THAT(ctx, p >= 0 && p <= 100.0000001l, "sample visits ", p, "%");
        last = p;
        ld pos = p / 100 * (n + 1), eps = 1e-9l * (n + 1);
        ld got = static_cast<ld>(value), lo = interpolate(v, pos - eps) - tol, hi = interpolate(v, pos + eps) + tol;
        CHECK_THAT(ctx, got >= lo && got <= hi, "sample of ", v, " reports ", got, " for ", p, "%, expected ", interpolate(v, pos));
    });
    CHECK_THAT(ctx, visited <= most, "sample(", most, ") visits ", visited, " points");
    ctx.label(visited > 2, "sampled three or more points");
    ctx.nontrivial(n >= 3 && v.front() != v.back());
    ctx.label(n == 1, "a single value");
    ctx.label(n > 100, "more than 100 values");
}

template<typename T>
static T draw_value(pbt::Ctx& ctx, int style, std::true_type)
{
    switch (style)
    {
        case 0: return static_cast<T>(ctx.range(0, 5));
        case 1: return static_cast<T>(ctx.range(-100, 100)) / 4;
        case 2: return ctx.real<T>(60);
        case 3: return ctx.real<T>(std::numeric_limits<T>::max_exponent - 8 > 900 ? 900 : std::numeric_limits<T>::max_exponent - 8);
        default: return ctx.real<T>(10);
    }
}
template<typename T>
static T draw_value(pbt::Ctx& ctx, int style, std::false_type)
{
    switch (style)
    {
        case 0: return static_cast<T>(ctx.range(0, 5));
        case 1: return static_cast<T>(ctx.range(-50, 50));
        case 2: return ctx.integer<T>();
        case 3: return ctx.coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
        default: return static_cast<T>(ctx.draw(0));
    }
}

template<typename T>
static std::vector<T> data(pbt::Ctx& ctx)
{
    auto n = ctx.chance(1, 40) ? ctx.below(1500) : ctx.size(150);
    int style = static_cast<int>(ctx.below(5));
    std::vector<T> v;
    for (std::size_t i = 0; i < n; i++)
        v.push_back(draw_value<T>(ctx, style, std::is_floating_point<T>{}));
    switch (ctx.below(4)) // the order they arrive in
    {
        case 0: std::sort(v.begin(), v.end()); break;
        case 1: std::sort(v.begin(), v.end(), std::greater<T>()); break;
        default:;
    }
    TRACE(ctx, "values ", v);
    return v;
}

template<typename T>
static void one_type(pbt::Ctx& ctx)
{
    auto v = data<T>(ctx);
    std::vector<ld> plain(v.begin(), v.end());
    switch (ctx.below(4))
    {
        case 0: { reservoir_snapshot s(v.data(), v.size()); check(ctx, s, plain); break; }
        case 1: { reservoir_snapshot s(v.begin(), v.end(), v.size() + ctx.below(3)); check(ctx, s, plain); break; }
        case 2:
        { // moved around
            reservoir_snapshot a(v.data(), v.size());
            reservoir_snapshot b(std::move(a));
            T other[2] = {T(1), T(2)};
            reservoir_snapshot c(other, 2);
            c = std::move(b);
            check(ctx, c, plain);
            break;
        }
        default:
        {
            std::deque<T> d(v.begin(), v.end());
            reservoir_snapshot s(d.begin(), d.end(), d.size());
            check(ctx, s, plain);
        }
    }
}

// more than anyone looks at; not choices of their own
FACET(thousands, 400, 8000)
{
    auto n = ctx.chance(1, 10) ? ctx.below(70000) : 1000 + ctx.below(4000);
    auto seed = ctx.below(1u << 30), spread = 1 + ctx.below(1000000000);
    bool whole = ctx.coin();
    TRACE(ctx, n, whole ? " integers" : " floating-point numbers", " below ", spread, ", seed ", seed);
    std::vector<ld> plain;
    std::vector<int64_t> i;
    std::vector<double> d;
    uint64_t x = seed;
    for (std::size_t k = 0; k < n; k++)
    {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        auto y = (x >> 33) % spread;
        if (whole)
            i.push_back(static_cast<int64_t>(y));
        else
            d.push_back(static_cast<double>(y) / 8);
        plain.push_back(whole ? static_cast<ld>(y) : static_cast<ld>(y) / 8);
    }
    if (whole)
        check(ctx, reservoir_snapshot(i.data(), i.size()), plain);
    else
        check(ctx, reservoir_snapshot(d.begin(), d.end(), d.size()), plain);
}

FACET(mixed_types, 4000, 60000)
{
    auto n = ctx.size(60);
    std::vector<metric_value> v;
    std::vector<ld> plain;
    for (std::size_t i = 0; i < n; i++)
    {
        ld p;
        switch (ctx.below(6))
        {
            case 0: { auto x = ctx.integer<int32_t>(); v.emplace_back(x); p = x; break; }
            case 1: { auto x = static_cast<int64_t>(ctx.range(-1000000, 1000000)); v.emplace_back(x); p = x; break; }
            case 2: { auto x = ctx.real<double>(20); v.emplace_back(x); p = x; break; }
            case 3: { auto x = static_cast<uint16_t>(ctx.integer<uint16_t>()); v.emplace_back(x); p = x; break; }
            case 4: { auto x = ctx.real<long double>(20); v.emplace_back(x); p = x; break; }
            default: { auto x = static_cast<uint64_t>(ctx.below(1000)); v.emplace_back(x); p = x; break; }
        }
        plain.push_back(p);
    }
    TRACE(ctx, "values ", plain);
    reservoir_snapshot s(v.begin(), v.end(), v.size());
    check(ctx, s, plain);
}

// through a reservoir, with a further snapshot after more recordings
FACET(from_reservoir, 3000, 40000)
{
    cxxmetrics::simple_reservoir<int64_t, 40> r;
    auto v = data<int64_t>(ctx);
    std::deque<int64_t> last;
    auto cut = ctx.below(v.size() + 1);
    for (std::size_t i = 0; i <= v.size(); i++)
    {
        if (i == cut || i == v.size())
            check(ctx, r.snapshot(), std::vector<ld>(last.begin(), last.end()));
        if (i == v.size())
            break;
        r.update(v[i]);
        last.push_back(v[i]);
        if (last.size() > 40)
            last.pop_front();
    }
}

// durations, as timers record them; plain numbers made of them count nanoseconds
template<typename D>
static void durations(pbt::Ctx& ctx)
{
    auto n = ctx.size(100);
    std::vector<D> v;
    std::vector<ld> plain;
    const ld unit = 1e9l * D::period::num / D::period::den;
    auto most = static_cast<int64_t>((1ll << 50) / std::max(unit, 1.0l));
    for (std::size_t i = 0; i < n; i++)
    {
        v.emplace_back(static_cast<typename D::rep>(ctx.coin() ? ctx.range(0, std::min<int64_t>(1000, most)) : ctx.range(0, most)));
        plain.push_back(static_cast<ld>(v.back().count()) * unit);
    }
    TRACE(ctx, "values (ns) ", plain);
    auto test = [&](const reservoir_snapshot& s) {
        check(ctx, s, plain);
        if (!n)
            return;
        std::chrono::nanoseconds mean = s.mean(), min = s.min(), max = s.max();
        ld sum = 0;
        for (auto p : plain)
            sum += p / n;
        CHECK_THAT(ctx, std::fabs(mean.count() - sum) <= 1 + 1e-9l * sum, "mean as a duration is ", mean.count(), " ns instead of ", sum);
        CHECK_THAT(ctx, min == *std::min_element(v.begin(), v.end()), "min as a duration is ", min.count(), " ns");
        CHECK_THAT(ctx, max == *std::max_element(v.begin(), v.end()), "max as a duration is ", max.count(), " ns");
    };
    if (ctx.coin())
        test(reservoir_snapshot(v.begin(), v.end(), v.size()));
    else
        test(reservoir_snapshot(v.data(), v.size()));
}

FACET_AS(nanoseconds, 4000, 60000, durations<std::chrono::nanoseconds>);
FACET_AS(microseconds, 3000, 40000, durations<std::chrono::microseconds>);
FACET_AS(milliseconds, 3000, 40000, durations<std::chrono::milliseconds>);
FACET_AS(seconds, 3000, 40000, durations<std::chrono::seconds>);
FACET_AS(minutes32, 3000, 40000, durations<std::chrono::duration<int32_t, std::ratio<60>>>);
FACET_AS(seconds_double, 3000, 40000, durations<std::chrono::duration<double>>);
FACET_AS(int64, 4000, 60000, one_type<int64_t>);
FACET_AS(uint64, 3000, 40000, one_type<uint64_t>);
FACET_AS(int32, 3000, 40000, one_type<int32_t>);
FACET_AS(uint32, 3000, 40000, one_type<uint32_t>);
FACET_AS(int16, 3000, 40000, one_type<int16_t>);
FACET_AS(uint16, 3000, 40000, one_type<uint16_t>);
FACET_AS(int8, 3000, 40000, one_type<signed char>);
FACET_AS(uint8, 3000, 40000, one_type<unsigned char>);
FACET_AS(float32, 3000, 40000, one_type<float>);
FACET_AS(float64, 4000, 60000, one_type<double>);
FACET_AS(float80, 3000, 40000, one_type<long double>);

PBT_MAIN
