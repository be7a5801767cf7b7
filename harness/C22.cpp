// C22: Prometheus output is well formed and labels round-trip
#include "prom.hpp"

PROPERTY("C22", "A case is a registry with drawn paths, tag names and tag values of arbitrary bytes, metrics of all numeric kinds and options, published one or more times; non-trivial when a published path, tag name or tag value needed escaping or replacing.")

using namespace prom;

static bool special(const std::string& s)
{
    for (char c : s)
        if (!name_char(c))
            return true;
    return s.empty() || digit(s[0]);
}

static const char* type_of(char snapshot)
{
    return snapshot == 'S' ? "untyped" : snapshot == 'H' || snapshot == 'T' ? "summary" : "gauge";
}

static void check_output(PromWorld& w)
{
    auto& ctx = w.ctx;
    auto text = w.write();
    TRACE(ctx, "published ", pbt::quote(text));
    auto lines = parse(ctx, text);

    // comments come first, and once
    std::map<std::string, std::pair<int, int>> comments; // type, help
    std::set<std::string> sampled;
    for (auto& l : lines)
        if (l.kind == 'S')
            sampled.insert(l.name);
        else
        {
            auto& n = l.kind == 'T' ? comments[l.name].first : comments[l.name].second;
            CHECK_EQ(ctx, ++n, 1, "comments of this kind for ", l.name);
            for (auto s : {"", "_count", "_mean", ":rates"})
                CHECK_THAT(ctx, !sampled.count(l.name + s), "a comment for ", l.name, " follows its samples");
        }

    // every metric has its block; its samples carry its tags
    std::map<std::string, std::vector<const Line*>> blocks;
    std::string current;
    for (auto& l : lines)
    {
        if (l.kind != 'S')
            current = l.name;
        else
            CHECK_THAT(ctx, l.name.compare(0, current.size(), current) == 0 && !current.empty(), "a sample of ", l.name, " is among those of ", current);
        blocks[current].push_back(&l);
    }
    std::size_t metrics = 0;
    bool nontrivial = false;
    for (auto& e : w.model)
    {
        if (e.first.empty())
            continue;
        ++metrics;
        auto n = metric_name(e.first);
        CHECK_THAT(ctx, blocks.count(n), "nothing is published for ", show(e.first));
        for (auto& c : e.first)
            nontrivial = nontrivial || special(c);
        std::map<Labels, int> want;
        for (auto& i : e.second.by_tags)
        {
            want[labels_of(i.first)] = 0;
            for (auto& t : i.first)
                nontrivial = nontrivial || special(t.first) || special(t.second.text());
        }
        auto kind = w.kind(e.second.kind).snapshots;
        for (auto l : blocks[n])
        {
            if (l->kind == 'T')
                CHECK_EQ(ctx, l->text, std::string(type_of(kind)), "type of ", n);
            else if (l->kind == 'H')
            {
                std::string joined;
                for (auto& c : e.first)
                    joined += (joined.empty() ? "" : "/") + c;
                CHECK_EQ(ctx, l->text.substr(0, joined.size()), joined, "help of ", n);
            }
            else
            {
                auto labels = l->labels;
                auto extra = labels.erase("quantile") + labels.erase("window");
                CHECK_THAT(ctx, extra <= 1 && (!extra || kind == 'M' || kind == 'H' || kind == 'T'), "labels of ", n);
                CHECK_THAT(ctx, want.count(labels), "a sample of ", show(e.first), " has labels of none of its tag sets: ", Series{l->name, l->labels, l->number, 0, false});
                ++want[labels];
            }
        }
        CHECK_EQ(ctx, comments[n].first, 1, "type comments for ", n);
        auto& o = w.effective(e.first);
        bool silent = kind == 'M' && !o.meter.mean; // may have no window either
        for (auto& x : want)
            CHECK_THAT(ctx, x.second > 0 || silent, "a tag set of ", show(e.first), " has no samples");
    }
    CHECK_EQ(ctx, blocks.size(), metrics, "published metrics");
    ctx.nontrivial(nontrivial);
    // twins follow
    for (auto& e : w.model)
        if (!e.first.empty())
            for (auto& i : e.second.by_tags)
                i.second.twin->seen();
}

static void worlds(pbt::Ctx& ctx, std::size_t npaths, std::size_t ntags, std::size_t nkinds, bool wildly)
{
    PromWorld w(ctx, npaths, ntags, nkinds, wildly);
    auto rounds = 1 + ctx.below(2);
    for (std::size_t r = 0; r < rounds; r++)
    {
        auto steps = 3 + ctx.size(30);
        for (std::size_t i = 0; i < steps; i++)
            w.step();
        check_output(w);
    }
}

FACET(wild_names, 10000, 250000) { worlds(ctx, 1 + ctx.size(6), 1 + ctx.size(5), 1 + ctx.below(6), true); }
FACET(plain_names, 3000, 60000) { worlds(ctx, 1 + ctx.size(6), 1 + ctx.size(5), 1 + ctx.below(6), false); }
FACET(one_path, 6000, 120000) { worlds(ctx, 1, 1 + ctx.size(12), 1, true); }

// a metric without a path is left out
FACET(empty_path, 2000, 40000)
{
    PromWorld w(ctx, 1 + ctx.size(4), 1 + ctx.size(3), 1 + ctx.below(4), true);
    w.paths[0].clear();
    w.request(w.paths[0], w.any_tags(), w.any_kind());
    auto steps = 3 + ctx.size(20);
    for (std::size_t i = 0; i < steps; i++)
        w.step();
    check_output(w);
    ctx.nontrivial(w.model.size() > 1);
}

PBT_MAIN
