// Publish options made in every way, next to what they should say
#ifndef OPTS_HPP
#define OPTS_HPP

#include "pbt.hpp"
#include <cxxmetrics/publisher.hpp>

namespace opts
{
using namespace cxxmetrics;
using ld = long double;
constexpr quantile::value pc(long double p) { return static_cast<quantile::value>(quantile(p)); }

// -- quantile sets
struct Set
{
    const char* name;
    std::vector<ld> percents; // ascending
};
static const std::vector<Set> sets = {
    {"default", {50, 90, 99}},
    {"50", {50}},
    {"0 100", {0, 100}},
    {"99.9 10 50 10", {10, 50, 99.9l}},
    {"75 25 75", {25, 75}},
    {"100 99.9999 99.9999999", {99.9999l, 99.9999999l, 100}},
    {"99 98 95 90 75 50 25 10", {10, 25, 50, 75, 90, 95, 98, 99}},
};
template<typename F>
static auto with_set(std::size_t n, F f)
{
    switch (n)
    {
        case 1: return f(quantile_options<pc(50)>());
        case 2: return f(quantile_options<pc(0), pc(100)>());
        case 3: return f(quantile_options<pc(99.9l), pc(10), pc(50), pc(10)>());
        case 4: return f(quantile_options<pc(75), pc(25), pc(75)>());
        case 5: return f(quantile_options<pc(100), pc(99.9999l), pc(99.9999999l)>());
        default: return f(quantile_options<pc(99), pc(98), pc(95), pc(90), pc(75), pc(50), pc(25), pc(10)>());
    }
}

// -- what options should say
struct Scale
{
    bool apply = false;
    double factor = 1;
    scale_factor make() const { return apply ? scale_factor(factor) : scale_factor(); }
};
static Scale draw_scale(pbt::Ctx& ctx)
{
    Scale s;
    s.apply = ctx.coin();
    if (s.apply)
    {
        static const double usual[] = {0.001, 0.1, 1e-6, 1.0 / 3, 60.0 / 7, 1e9 + 1, 1048576.0 / 1000};
        s.factor = ctx.chance(1, 6) ? 0.0 : ctx.chance(1, 6) ? 1.0 : ctx.chance(1, 3) ? usual[ctx.below(7)] : static_cast<double>(ctx.range(-4000, 4000)) / 16;
    }
    return s;
}
struct Want
{
    Scale scale;
    bool mean = true, count = true, dist = false, rates = true;
    std::size_t set = 0;
};

static void check_value(pbt::Ctx& ctx, const value_publish_options& o, const Want& w, const char* what)
{
    CHECK_EQ(ctx, static_cast<bool>(o.scale()), w.scale.apply, what, ": whether there is a scale");
    CHECK_EQ(ctx, o.scale().factor(), w.scale.factor, what, ": scale");
}
static void check_meter(pbt::Ctx& ctx, const meter_publish_options& o, const Want& w, const char* what)
{
    check_value(ctx, o, w, what);
    CHECK_EQ(ctx, o.include_mean(), w.mean, what, ": whether the mean is included");
}
static void check_histogram(pbt::Ctx& ctx, const histogram_publish_options& o, const Want& w, const char* what)
{
    check_value(ctx, o, w, what);
    CHECK_EQ(ctx, o.include_count(), w.count, what, ": whether the count is included");
    CHECK_EQ(ctx, o.as_distribution(), w.dist, what, ": whether it is a distribution");
    // what the quantiles select in a snapshot
    static const histogram_snapshot s = [] {
        std::vector<double> v;
        for (int i = 1; i <= 999; i++)
            v.push_back(i);
        return histogram_snapshot(reservoir_snapshot(v.begin(), v.end(), v.size()), 999);
    }();
    auto& want = sets[w.set].percents;
    std::size_t n = 0;
    auto q = o.quantiles();
    CHECK_THAT(ctx, q != nullptr, what, ": there are no quantiles");
    q->visit(s, [&](quantile x, metric_value&& value) {
        CHECK_THAT(ctx, n < want.size(), what, ": more quantiles than ", sets[w.set].name);
        auto p = x.percentile();
        CHECK_THAT(ctx, std::fabs(p - want[n]) < 0.5e-7l, what, ": quantile ", n, " is ", p, " instead of ", want[n]);
        auto got = static_cast<ld>(value), expected = std::min(999.0l, std::max(1.0l, want[n] * 10));
        CHECK_THAT(ctx, std::fabs(got - expected) < 1e-3l, what, ": value at ", p, " is ", got, " instead of ", expected);
        ++n;
    });
    CHECK_EQ(ctx, n, want.size(), what, ": number of quantiles");
}
static void check_timer(pbt::Ctx& ctx, const timer_publish_options& o, const Want& w, const char* what)
{
    check_histogram(ctx, o, w, what);
    check_meter(ctx, o, w, what);
    CHECK_EQ(ctx, o.include_rates(), w.rates, what, ": whether rates are included");
}

// -- every way to make them
static value_publish_options make_value(pbt::Ctx& ctx, Want& w)
{
    w = Want();
    if (ctx.chance(1, 4))
        return value_publish_options();
    w.scale = draw_scale(ctx);
    return value_publish_options(w.scale.make());
}
static meter_publish_options make_meter(pbt::Ctx& ctx, Want& w)
{
    w = Want();
    auto way = ctx.below(4);
    if (way == 0)
        return meter_publish_options();
    if (way == 1)
    {
        w.mean = ctx.coin();
        return meter_publish_options(w.mean);
    }
    w.scale = draw_scale(ctx);
    if (way == 2)
        return meter_publish_options(w.scale.make());
    w.mean = ctx.coin();
    return meter_publish_options(w.mean, w.scale.make());
}
static histogram_publish_options make_histogram(pbt::Ctx& ctx, Want& w)
{
    w = Want();
    auto way = ctx.below(9);
    if (way == 0)
        return histogram_publish_options();
    w.scale = draw_scale(ctx);
    if (way == 1)
        return histogram_publish_options(w.scale.make());
    w.count = ctx.coin();
    if (way == 2)
        return histogram_publish_options(w.count, w.scale.make());
    if (way == 3)
    {
        w.dist = ctx.coin();
        return histogram_publish_options(w.count, w.dist, w.scale.make());
    }
    if (way == 4)
    {
        w.scale = Scale();
        return histogram_publish_options(w.count);
    }
    w.set = 1 + ctx.below(sets.size() - 1);
    return with_set(w.set, [&](auto q) {
        if (way == 5)
        {
            w.count = true;
            w.scale = Scale();
            return histogram_publish_options(std::move(q));
        }
        if (way == 6)
        {
            w.scale = Scale();
            return histogram_publish_options(std::move(q), w.count);
        }
        w.dist = ctx.coin();
        if (way == 7)
        {
            w.scale = Scale();
            return histogram_publish_options(std::move(q), w.count, w.dist);
        }
        return histogram_publish_options(std::move(q), w.count, w.dist, w.scale.make());
    });
}
static timer_publish_options make_timer(pbt::Ctx& ctx, Want& w)
{
    w = Want();
    auto way = ctx.below(10);
    if (way == 0)
        return timer_publish_options();
    w.rates = ctx.coin();
    if (way == 1)
        return timer_publish_options(w.rates);
    w.scale = draw_scale(ctx);
    if (way == 2)
        return timer_publish_options(w.rates, w.scale.make());
    w.count = ctx.coin();
    if (way == 3)
        return timer_publish_options(w.rates, w.count, w.scale.make());
    if (way == 4)
    {
        w.mean = ctx.coin();
        return timer_publish_options(w.rates, w.count, w.mean, w.scale.make());
    }
    w.set = 1 + ctx.below(sets.size() - 1);
    return with_set(w.set, [&](auto q) {
        if (way == 5)
        {
            w.count = true;
            w.scale = Scale();
            return timer_publish_options(std::move(q), w.rates);
        }
        if (way == 6)
        {
            w.scale = Scale();
            return timer_publish_options(std::move(q), w.rates, w.count);
        }
        if (way == 7)
            return timer_publish_options(std::move(q), w.rates, w.count, w.scale.make());
        w.mean = ctx.coin();
        if (way == 8)
        {
            w.scale = Scale();
            return timer_publish_options(std::move(q), w.rates, w.count, w.mean);
        }
        return timer_publish_options(std::move(q), w.rates, w.count, w.mean, w.scale.make());
    });
}
struct All4
{
    Want value, meter, histogram, timer;
};
static publish_options make_options(pbt::Ctx& ctx, All4& w)
{
    w = All4();
    switch (ctx.below(9))
    {
        case 0: return publish_options();
        case 1: return publish_options(make_value(ctx, w.value));
        case 2:
        {
            auto v = make_value(ctx, w.value);
            return publish_options(std::move(v), make_meter(ctx, w.meter));
        }
        case 3:
        {
            auto v = make_value(ctx, w.value);
            auto m = make_meter(ctx, w.meter);
            return publish_options(std::move(v), std::move(m), make_histogram(ctx, w.histogram));
        }
        case 4:
        {
            auto m = make_meter(ctx, w.meter);
            auto h = make_histogram(ctx, w.histogram);
            return publish_options(std::move(m), std::move(h), make_timer(ctx, w.timer));
        }
        case 5:
        {
            auto h = make_histogram(ctx, w.histogram);
            return publish_options(std::move(h), make_timer(ctx, w.timer));
        }
        case 6: return publish_options(make_timer(ctx, w.timer));
        case 7: return publish_options(make_meter(ctx, w.meter));
        default:
        {
            auto v = make_value(ctx, w.value);
            auto m = make_meter(ctx, w.meter);
            auto h = make_histogram(ctx, w.histogram);
            return publish_options(std::move(v), std::move(m), std::move(h), make_timer(ctx, w.timer));
        }
    }
}
static void check_options(pbt::Ctx& ctx, const publish_options& o, const All4& w)
{
    check_value(ctx, o.value_options(), w.value, "value options");
    check_meter(ctx, o.meter_options(), w.meter, "meter options");
    check_histogram(ctx, o.histogram_options(), w.histogram, "histogram options");
    check_timer(ctx, o.timer_options(), w.timer, "timer options");
}

}

#endif
