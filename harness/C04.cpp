// C04: a path never changes its metric type
#include "regs.hpp"

PROPERTY("C04", "A case is a history of requests and registrations of many kinds of metrics over a few colliding paths and tag sets, with operations in between and the whole registry compared after failures; non-trivial when at least one request failed and one succeeded at the same path.")

using namespace regs;

static void some_request(World& w, std::size_t kind)
{
    auto p = w.any_path();
    auto t = w.any_tags();
    auto failed = w.mismatches;
    if (w.ctx.chance(1, 3))
        w.register_existing(p, t, kind);
    else
        w.request(p, t, kind);
    if (w.mismatches != failed)
    {
        w.check_all();
        if (w.ctx.coin())
            w.check_contents();
    }
}

static void seen_one(pbt::Ctx& ctx, const cumulative_value_snapshot& s, std::vector<int>& seen)
{
    auto v = static_cast<int64_t>(s.value());
    CHECK_THAT(ctx, v >= 0 && static_cast<std::size_t>(v) < seen.size(), "a value that no metric has: ", v);
    ++seen[static_cast<std::size_t>(v)];
}
template<typename S>
static void seen_one(pbt::Ctx& ctx, const S&, std::vector<int>&) { ctx.fail("a metric of another type is visited"); }

FACET(pairs, 20000, 500000)
{
    World w(ctx, 1 + ctx.below(2), 1 + ctx.below(3), 0);
    auto a = ctx.below(nkinds), b = ctx.below(nkinds);
    auto n = 2 + ctx.below(8);
    for (std::size_t i = 0; i < n; i++)
    {
        some_request(w, ctx.coin() ? a : b);
        if (auto x = w.any())
            w.operate(*x);
        if (ctx.chance(1, 4))
            vclock::advance(subj::step(ctx));
    }
    w.check_contents();
    ctx.nontrivial(w.mismatches && w.created);
    ctx.label(kinds()[a]->group == kinds()[b]->group && a != b, "the same kind written differently");
}

FACET(histories, 10000, 250000)
{
    World w(ctx, 1 + ctx.below(4), 1 + ctx.below(6), 1 + ctx.below(10));
    auto n = 1 + ctx.size(60);
    for (std::size_t i = 0; i < n; i++)
        switch (ctx.below(4))
        {
            case 0:
                if (auto x = w.any())
                    w.operate(*x);
                break;
            case 1:
                vclock::advance(subj::step(ctx));
                break;
            default:
                some_request(w, w.any_kind());
        }
    w.check_contents();
    ctx.nontrivial(w.mismatches && w.created);
}

// kinds that are alike but for one detail
FACET(close_kinds, 20000, 500000)
{
    World w(ctx, 1, 1 + ctx.below(3), 0);
    static const std::pair<std::size_t, std::size_t> families[] = {{counter_int64, counter_uint8}, {ewma_1min, ewma_1min_int64}, {gauge_int64, gauge_string}, {histogram_simple8, histogram_sliding8}, {meter_1_5, meter_5sec}, {timer_steady, timer_5sec}};
    auto f = families[ctx.below(6)];
    auto n = 2 + ctx.below(12);
    for (std::size_t i = 0; i < n; i++)
        some_request(w, f.first + ctx.below(f.second - f.first + 1));
    w.check_contents();
    ctx.nontrivial(w.mismatches && w.created);
}

// the first type of a path stays, however many tag sets are there
FACET(crowd, 250, 5000)
{
    static const std::size_t magnitudes[] = {20, 70, 150, 300, 600, 1100, 2100, 4200};
    Registry reg;
    auto n = 2 + ctx.below(magnitudes[ctx.below(8)]);
    auto every = 1 + ctx.below(40);
    auto spread = ctx.coin(); // over paths rather than tag sets
    TRACE(ctx, n, " metrics, a mismatch at every ", every, spread ? ", over paths" : "");
    auto path_of = [&](std::size_t i) { return spread ? metric_path("crowd") / std::to_string(i) : metric_path("crowd"); };
    auto tags_of = [&](std::size_t i) { return tag_collection{{"n", static_cast<int64_t>(spread ? 0 : i)}}; };
    auto mismatch = [&](std::size_t i, std::size_t tags) {
        try
        {
            switch (i % 4)
            {
                case 0: reg.gauge<int64_t>(path_of(i), 1, tags_of(tags)); break;
                case 1: reg.meter<sec, minute>(path_of(i), tags_of(tags)); break;
                case 2: reg.counter<int32_t>(path_of(i), tags_of(tags)); break;
                default: reg.register_existing(path_of(i), std::make_shared<gauge<double>>(1.0), tags_of(tags));
            }
        }
        catch (const metric_type_mismatch&)
        {
            return;
        }
        ctx.fail("a request of another type succeeds at number " + std::to_string(i));
    };
    for (std::size_t i = 0; i < n; i++)
    {
        reg.counter<int64_t>(path_of(i), static_cast<int64_t>(i), tags_of(i));
        if (i % every == 0)
            mismatch(i, i * 31 % (2 * i + 2)); // there, or not
    }
    for (std::size_t i = 0; i < n; i += every)
        mismatch(i, n + 1 + i);
    std::vector<int> seen(n, 0);
    reg.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) {
        m.visit([&](const tag_collection&, const auto& s) { (seen_one)(ctx, s, seen); });
    });
    for (std::size_t i = 0; i < n; i++)
        CHECK_EQ(ctx, seen[i], 1, "visits of number ", i);
    ctx.nontrivial(n >= 3);
}

// the documentation promises that the order of a timer's windows doesn't matter either
KNOWN(timer_window_order, "a timer requested with the same windows in another order is taken for another type")
{
    Registry r;
    auto a = r.timer<sec, steady, simple_t<8>, minute, 5 * minute>("t");
    try
    {
        auto b = r.timer<sec, steady, simple_t<8>, 5 * minute, minute>("t");
        CHECK_THAT(ctx, static_cast<internal::metric*>(a.get()) == static_cast<internal::metric*>(b.get()), "another instance");
    }
    catch (const metric_type_mismatch&)
    {
        ctx.fail("timer<1 s, 1 min, 5 min> and timer<1 s, 5 min, 1 min> at one path mismatch");
    }
}

PBT_MAIN
