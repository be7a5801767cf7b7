// C23: Prometheus output carries exactly the published values
#include "prom.hpp"

PROPERTY("C23", "A case is a registry with a drawn history of registrations, recordings and option settings over all numeric kinds, published one or more times and compared with what its metrics' twins show; non-trivial when some option was set and a metric with recordings was published.")

using namespace prom;

static void check_output(PromWorld& w)
{
    auto& ctx = w.ctx;
    auto text = w.write();
    TRACE(ctx, "published ", pbt::quote(text));
    check_series(ctx, parse(ctx, text), expected(w));
    bool used = false;
    for (auto& e : w.model)
        for (auto& i : e.second.by_tags)
            used = used || (!e.first.empty() && i.second.real->updates);
    ctx.nontrivial(used && !w.metric_options.empty());
}
static void worlds(pbt::Ctx& ctx, std::size_t npaths, std::size_t ntags, std::size_t nkinds)
{
    PromWorld w(ctx, npaths, ntags, nkinds, false);
    auto rounds = 1 + ctx.below(4);
    for (std::size_t r = 0; r < rounds; r++)
    {
        auto steps = 3 + ctx.size(30);
        for (std::size_t i = 0; i < steps; i++)
            w.step();
        check_output(w);
    }
}
FACET(worlds_, 10000, 250000) { worlds(ctx, 1 + ctx.size(6), 1 + ctx.size(5), 1 + ctx.below(8)); }
FACET(one_path, 10000, 250000) { worlds(ctx, 1, 1 + ctx.size(8), 1); }

// -- other values, windows and clocks than those of the registry's model
static std::string publish(pbt::Ctx& ctx, Registry& reg)
{
    cxxmetrics_prometheus::prometheus_publisher<default_repository> publisher(reg);
    return write_with(ctx, publisher);
}
template<typename M>
static void check_one(pbt::Ctx& ctx, Registry& reg, M& twin, const opts::All4& o)
{
    auto text = (publish)(ctx, reg);
    TRACE(ctx, "published ", pbt::quote(text));
    Render r;
    r.name = "m";
    r.labels["tag"] = "v";
    r.o = &o;
    r.got(twin.snapshot());
    check_series(ctx, parse(ctx, text), r.out);
}
static tag_collection the_tag() { return tag_collection{{"tag", "v"}}; }

template<typename T>
static T number(pbt::Ctx& ctx, std::true_type) { return static_cast<T>(ctx.real<T>(40)); }
template<typename T>
static T number(pbt::Ctx& ctx, std::false_type) { return ctx.integer<T>(); }
template<typename T>
static T number(pbt::Ctx& ctx) { return number<T>(ctx, std::is_floating_point<T>()); }

template<typename T>
static void gauges_of(pbt::Ctx& ctx)
{
    Registry reg;
    auto g = reg.gauge<T>("m", T(), the_tag());
    auto sum = reg.gauge<T, gauges::aggregation_sum>("s", T(), the_tag());
    auto v = number<T>(ctx);
    TRACE(ctx, "value ", v);
    g->set(v);
    sum->set(v);
    opts::All4 o;
    if (ctx.coin())
        reg.publish_options(opts::make_options(ctx, o));
    auto lines = parse(ctx, (publish)(ctx, reg));
    std::vector<Series> want;
    for (auto n : {"m", "s"})
    {
        Render r;
        r.name = n;
        r.labels["tag"] = "v";
        r.o = &o;
        r.add("", nullptr, "", static_cast<ld>(v), o.value.scale, 0, std::is_integral<T>::value && !o.value.scale.apply);
        want.push_back(r.out[0]);
    }
    check_series(ctx, lines, want);
    ctx.nontrivial(v != T());
}
FACET_AS(gauge_int64, 2000, 40000, gauges_of<int64_t>);
FACET_AS(gauge_uint64, 2000, 40000, gauges_of<uint64_t>);
FACET_AS(gauge_int8, 1000, 20000, gauges_of<signed char>);
FACET_AS(gauge_uint16, 1000, 20000, gauges_of<uint16_t>);
FACET_AS(gauge_float, 2000, 40000, gauges_of<float>);
FACET_AS(gauge_double, 2000, 40000, gauges_of<double>);
FACET_AS(gauge_long_double, 2000, 40000, gauges_of<long double>);

constexpr period::value msec = 1000;
template<typename M>
struct AskMeter;
template<period::value I, period::value... W>
struct AskMeter<meter<I, W...>>
{
    static std::shared_ptr<meter<I, W...>> get(Registry& r) { return r.meter<I, W...>("m", the_tag()); }
    static void update(pbt::Ctx& ctx, meter<I, W...>& a, meter<I, W...>& b)
    {
        auto v = ctx.range(0, 100000);
        a.mark(v);
        b.mark(v);
    }
};
template<period::value I, typename C, typename R, period::value... W>
struct AskMeter<timer<I, C, R, W...>>
{
    using M = timer<I, C, R, W...>;
    static std::shared_ptr<M> get(Registry& r) { return r.timer<I, C, R, W...>("m", R(), the_tag()); }
    static void update(pbt::Ctx& ctx, M& a, M& b)
    {
        typename C::duration d(ctx.coin() ? ctx.range(1, 100) : ctx.range(1, 1000000));
        a.update(d);
        b.update(d);
    }
};
template<typename M>
static void meters_of(pbt::Ctx& ctx)
{
    Registry reg;
    auto m = AskMeter<M>::get(reg);
    M twin;
    opts::All4 o;
    auto steps = 1 + ctx.size(30);
    std::size_t updates = 0;
    for (std::size_t i = 0; i < steps; i++)
        switch (ctx.below(6))
        {
            case 0: case 1: case 2:
                AskMeter<M>::update(ctx, *m, twin);
                ++updates;
                break;
            case 3: vclock::advance(subj::step(ctx)); break;
            case 4:
                if (ctx.coin())
                    reg.publish_options("m", opts::make_options(ctx, o));
                break;
            default:
                (check_one<M>)(ctx, reg, twin, o);
        }
    (check_one<M>)(ctx, reg, twin, o);
    ctx.nontrivial(updates > 0);
}
using meter_mixed = meter<sec, 90 * sec, 60 * minute, 120 * minute, 61 * minute, 1500 * msec>;
using meter_small = meter<100 * msec, 500 * msec, 1000 * msec, 250 * msec + 1>;
using meter_none_alike = meter<sec, minute, 61 * sec, 59 * sec, 3600 * sec, 3601 * sec>;
FACET_AS(windows_mixed, 3000, 60000, meters_of<meter_mixed>);
FACET_AS(windows_small, 3000, 60000, meters_of<meter_small>);
FACET_AS(windows_alike, 3000, 60000, meters_of<meter_none_alike>);

template<typename D>
struct Clock
{
    using duration = D;
    using rep = typename D::rep;
    using period = typename D::period;
    using time_point = std::chrono::time_point<Clock>;
    static constexpr bool is_steady = true;
    static time_point now() { return time_point(std::chrono::duration_cast<D>(std::chrono::steady_clock::now().time_since_epoch())); }
};
template<typename D>
using timer_on = timer<sec, Clock<D>, simple_reservoir<D, 8>, minute, 90 * sec>;
FACET_AS(timer_msec, 3000, 60000, meters_of<timer_on<std::chrono::milliseconds>>);
FACET_AS(timer_usec, 3000, 60000, meters_of<timer_on<std::chrono::microseconds>>);
FACET_AS(timer_nsec, 3000, 60000, meters_of<timer_on<std::chrono::nanoseconds>>);

// -- very many metrics
FACET(crowd, 120, 2000)
{
    static const std::size_t magnitudes[] = {20, 70, 150, 300, 600, 1100, 2100};
    Registry reg;
    auto n = 2 + ctx.below(magnitudes[ctx.below(7)]);
    auto spread = ctx.below(3); // over tag sets, paths or both
    std::size_t paths = spread == 0 ? 1 : spread == 1 ? n : 1 + ctx.below(n);
    TRACE(ctx, n, " metrics over ", paths, " paths");
    std::vector<Series> want;
    opts::All4 o;
    for (std::size_t i = 0; i < n; i++)
    {
        auto name = "crowd" + std::to_string(i % paths);
        auto number = std::to_string(i / paths);
        tag_collection t{{"number", static_cast<int64_t>(i / paths)}};
        Render r;
        r.name = name;
        r.labels["number"] = number;
        r.o = &o;
        if (i % paths % 3 == 0)
        {
            auto h = reg.histogram<simple_reservoir<int64_t, 8>>(metric_path(name), simple_reservoir<int64_t, 8>(), t);
            h->update(static_cast<int64_t>(i));
            r.got(h->snapshot());
        }
        else
        {
            auto c = reg.counter<int64_t>(metric_path(name), static_cast<int64_t>(i * 17), t);
            r.got(c->snapshot());
        }
        want.insert(want.end(), r.out.begin(), r.out.end());
    }
    for (int round = 0; round < 2; round++)
        check_series(ctx, parse(ctx, (publish)(ctx, reg)), want);
    ctx.nontrivial(n >= 3);
}

PBT_MAIN
