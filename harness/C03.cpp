// C03: same path, tags and type always yield the same metric
#include "regs.hpp"

PROPERTY("C03", "A case is a history of lookups, registrations of existing objects and operations through the returned metrics, over a few paths, tag sets (built in any order) and kinds; non-trivial when a metric was looked up again and at least three exist.")

using namespace regs;

static void history(pbt::Ctx& ctx, std::size_t npaths, std::size_t ntags, std::size_t nkinds, std::size_t steps, bool twisted)
{
    World w(ctx, npaths, ntags, nkinds);
    // mostly one kind per path, as mismatches are C04's
    std::map<Parts, std::size_t> usual;
    for (std::size_t k = 0; k < steps; k++)
    {
        auto p = w.any_path();
        auto t = w.any_tags();
        if (twisted && ctx.chance(1, 4))
            t = vary(ctx, t);
        auto r = ctx.below(8);
        auto kind = w.any_kind();
        if (!usual.count(p))
            usual[p] = kind;
        else if (!ctx.chance(1, 10))
        {
            kind = usual[p];
            if (kinds()[kind]->group == kinds()[meter_1_5]->group) // the windows of a meter in any order
                kind = meter_1_5 + ctx.below(3);
        }
        if (r < 4)
            w.request(p, t, kind);
        else if (r < 5)
            w.register_existing(p, t, kind);
        else if (r < 7)
        {
            if (auto i = w.any())
            {
                w.operate(*i);
                if (ctx.coin()) // through a fresh lookup
                    for (auto& e : w.model)
                        for (auto& x : e.second.by_tags)
                            if (&x.second == i)
                                w.request(e.first, x.first, i->kind);
            }
        }
        else
            vclock::advance(subj::step(ctx));
    }
    w.check_all();
    w.check_contents();
    // everything is still found, each being its own
    std::set<const internal::metric*> ids;
    for (auto& e : w.model)
        for (auto& i : e.second.by_tags)
        {
            auto h = w.kind(i.second.kind).request(w.reg, path(ctx, e.first), tags(ctx, i.first), 1, w.cells);
            CHECK_THAT(ctx, h->id() == i.second.id, "the metric at ", show(e.first), " ", show(i.first), " is another one now");
            ids.insert(h->id());
        }
    CHECK_EQ(ctx, ids.size(), w.created, "distinct metrics");
    ctx.nontrivial(w.hits >= 1 && w.created >= 3);
    ctx.label(w.mismatches > 0, "with a mismatch");
    ctx.label(w.unheld > 0, "with metrics only the registry holds");
}

FACET(few, 12000, 300000) { history(ctx, 1 + ctx.below(3), 1 + ctx.below(5), 3, 1 + ctx.size(30), false); }
FACET(similar_tags, 12000, 300000) { history(ctx, 1 + ctx.below(2), 1 + ctx.below(8), 2, 1 + ctx.size(40), true); }
FACET(many_paths, 6000, 150000) { history(ctx, 1 + ctx.size(30), 2, 4, 1 + ctx.size(80), false); }
FACET(many_tags, 4000, 100000) { history(ctx, 1, 1 + ctx.size(60), 2, 1 + ctx.size(120), true); }

// -- very many tag sets or paths
// (numbered, as drawing each would be too many choices; how they are numbered is drawn)
struct Crowd
{
    Registry reg;
    std::size_t paths;
    uint64_t step;
    bool text;
    metric_path path(std::size_t i) const { return paths == 1 ? metric_path("crowd") : metric_path("crowd") / std::to_string(i % paths); }
    tag_collection tags(std::size_t i) const
    {
        auto v = static_cast<int64_t>(i / paths * step);
        if (text)
            return tag_collection{{"n", "#" + std::to_string(v)}};
        return i % 2 ? tag_collection{{"n", v}, {"of", "many"}} : tag_collection{{"of", "many"}, {"n", v}};
    }
};
static void crowd(pbt::Ctx& ctx, bool many_paths)
{
    static const std::size_t magnitudes[] = {20, 70, 150, 300, 600, 1100, 2100, 4200};
    auto n = 2 + ctx.below(ctx.chance(1, 100) ? 70000 : magnitudes[ctx.below(8)]);
    Crowd c{{}, many_paths ? n : 1 + ctx.below(4), uint64_t(1) << ctx.below(40), ctx.coin()};
    auto existing = 2 + ctx.below(50); // every how many is registered rather than requested
    TRACE(ctx, n, " metrics at ", c.paths, " paths, ", c.step, " apart, ", c.text ? "texts" : "numbers");
    std::vector<std::shared_ptr<counter<int64_t>>> all(n);
    auto again = [&](std::size_t i, std::size_t now) {
        auto m = c.reg.counter<int64_t>(c.path(i), 12345, c.tags(i));
        CHECK_THAT(ctx, m == all[i], "number ", i, " is another metric once there are ", now);
        CHECK_EQ(ctx, m->value(), static_cast<int64_t>(i) + 1, "value of number ", i);
    };
    for (std::size_t i = 0; i < n; i++)
    {
        if (i % existing == 0)
        {
            all[i] = std::make_shared<counter<int64_t>>(1);
            CHECK_THAT(ctx, c.reg.register_existing(c.path(i), all[i], c.tags(i)), "number ", i, " isn't taken");
        }
        else
            all[i] = c.reg.counter<int64_t>(c.path(i), 1, c.tags(i));
        CHECK_EQ(ctx, all[i]->value(), 1, "value of number ", i, " at first");
        *all[i] += static_cast<int64_t>(i);
        if (i % 7 == 0)
            again(i * 31 % (i + 1), i + 1);
    }
    for (std::size_t i = 0; i < n; i++)
    {
        again(i, n);
        if (i % existing == 1)
            CHECK_THAT(ctx, !c.reg.register_existing(c.path(i), std::make_shared<counter<int64_t>>(5), c.tags(i)), "number ", i, " is replaced");
    }
    std::set<void*> ids;
    for (auto& m : all)
        ids.insert(m.get());
    CHECK_EQ(ctx, ids.size(), n, "distinct metrics");
    std::size_t visited = 0;
    c.reg.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.visit([&](const tag_collection&, const cumulative_value_snapshot&) { ++visited; }); });
    CHECK_EQ(ctx, visited, n, "metrics visited");
    ctx.nontrivial(n >= 3);
    ctx.label(n > 1000, "more than 1000");
}
FACET(crowd_tags, 250, 5000) { crowd(ctx, false); }
FACET(crowd_paths, 250, 5000) { crowd(ctx, true); }

PBT_MAIN
