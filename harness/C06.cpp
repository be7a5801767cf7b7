// C06: aggregation combines all tag permutations faithfully
#include "regs.hpp"

PROPERTY("C06", "A case is a registry filled by a history of requests and operations whose paths are aggregated, or a set of snapshots merged in a drawn order; non-trivial when at least two permutations with different data were combined.")

using namespace regs;

constexpr quantile::value percentile(int p) { return static_cast<quantile::value>(quantile(p * 1.0l)); }

// -- what a snapshot holds, for combining
struct Data : Receiver
{
    char which = 0;
    int64_t integer = 0;       // of a sum
    ld value = 0;              // of an average, or the mean of a meter
    std::map<int64_t, ld> rates;
    std::vector<ld> sample;
    uint64_t count = 0;
    ld min = 0, max = 0, mean = 0;
    std::vector<ld> quantiles;

    void reservoir(const histogram_snapshot& s)
    {
        sample = snap::contents<ld>(s);
        count = s.count();
        if (s.size())
        {
            min = static_cast<ld>(s.min());
            max = static_cast<ld>(s.max());
        }
        mean = static_cast<ld>(s.mean());
        quantiles = {static_cast<ld>(s.value<percentile(0)>()), static_cast<ld>(s.value<percentile(10)>()), static_cast<ld>(s.value<percentile(50)>()),
                     static_cast<ld>(s.value<percentile(75)>()), static_cast<ld>(s.value<percentile(99)>()), static_cast<ld>(s.value<percentile(100)>())};
    }
    void meter(const meter_snapshot& s)
    {
        value = static_cast<ld>(s.value());
        for (auto& r : s)
            rates[std::chrono::duration_cast<std::chrono::nanoseconds>(r.first).count()] = static_cast<ld>(r.second);
    }
    void got(const cumulative_value_snapshot& s) override
    {
        which = 'S';
        integer = static_cast<int64_t>(s.value());
    }
    void got(const average_value_snapshot& s) override
    {
        which = 'A';
        value = static_cast<ld>(s.value());
    }
    void got(const meter_snapshot& s) override
    {
        which = 'M';
        meter(s);
    }
    void got(const histogram_snapshot& s) override
    {
        which = 'H';
        reservoir(s);
    }
    void got(const timer_snapshot& s) override
    {
        which = 'T';
        reservoir(s);
        meter(s.rate());
    }
};

static bool close(ld a, ld b, ld scale) { return a == b || std::fabs(a - b) <= 1e-9l * std::max(scale, 1e-300l); }

static ld mean_of(const std::vector<ld>& v)
{
    ld s = 0;
    for (auto x : v)
        s += x / static_cast<ld>(v.size());
    return s;
}
static ld greatest(const std::vector<ld>& v)
{
    ld m = 0;
    for (auto x : v)
        m = std::max(m, std::fabs(x));
    return m;
}
// of the sorted sample, as a single snapshot would have it
static ld quantile_of(const std::vector<ld>& v, ld percent)
{
    if (v.empty())
        return 0;
    auto pos = percent / 100 * (static_cast<ld>(v.size()) + 1);
    auto i = static_cast<std::size_t>(pos);
    if (i < 1)
        return v.front();
    if (i >= v.size())
        return v.back();
    return v[i - 1] + (pos - static_cast<ld>(i)) * (v[i] - v[i - 1]);
}

template<typename What>
static void check_average(pbt::Ctx& ctx, ld got, const std::vector<ld>& of, const What& what)
{
    auto want = mean_of(of);
    CHECK_THAT(ctx, close(got, want, greatest(of)), what, " is ", got, " instead of ", want);
}

// got against all that were combined; wrap brings a sum into its type
static void check_combination(pbt::Ctx& ctx, const Data& got, const std::vector<Data>& of, int64_t (*wrap)(int64_t), const std::string& what, bool whole)
{
    auto which = of[0].which;
    CHECK_EQ(ctx, got.which, which, what, ": kind of the aggregate");
    if (which == 'S')
    {
        uint64_t sum = 0;
        for (auto& p : of)
            sum += static_cast<uint64_t>(p.integer);
        CHECK_EQ(ctx, got.integer, wrap(static_cast<int64_t>(sum)), what, ": sum");
    }
    if (which == 'A' || which == 'M' || which == 'T')
    {
        std::vector<ld> v;
        for (auto& p : of)
            v.push_back(p.value);
        check_average(ctx, got.value, v, what + ": mean");
    }
    if (which == 'M' || which == 'T')
    {
        CHECK_EQ(ctx, got.rates.size(), of[0].rates.size(), what, ": windows");
        for (auto& r : of[0].rates)
        {
            CHECK_THAT(ctx, got.rates.count(r.first), what, ": window of ", r.first, " ns is missing");
            std::vector<ld> v;
            for (auto& p : of)
                v.push_back(p.rates.at(r.first));
            check_average(ctx, got.rates.at(r.first), v, what + ": rate in the window of " + std::to_string(r.first) + " ns");
        }
    }
    if (which == 'H' || which == 'T')
    {
        uint64_t count = 0;
        std::vector<ld> all;
        for (auto& p : of)
        {
            count += p.count;
            all.insert(all.end(), p.sample.begin(), p.sample.end());
        }
        std::sort(all.begin(), all.end());
        CHECK_EQ(ctx, got.count, count, what, ": count");
        CHECK_THAT(ctx, got.sample == all, what, ": sample ", got.sample, " instead of ", all);
        if (all.empty())
            return;
        CHECK_EQ(ctx, got.min, all.front(), what, ": min");
        CHECK_EQ(ctx, got.max, all.back(), what, ": max");
        auto slack = whole ? 1.0l : 0.0l; // integers are cut off when interpolating or averaging
        CHECK_THAT(ctx, std::fabs(got.mean - mean_of(all)) <= slack + 1e-9l * greatest(all), what, ": mean ", got.mean, " instead of ", mean_of(all));
        static const int percents[] = {0, 10, 50, 75, 99, 100};
        for (int i = 0; i < 6; i++)
        {
            auto want = quantile_of(all, percents[i]);
            CHECK_THAT(ctx, std::fabs(got.quantiles[i] - want) <= slack + 1e-6l * greatest(all), what, ": quantile ", percents[i], " is ", got.quantiles[i], " instead of ", want);
        }
    }
}

template<typename T>
static int64_t wrap_to(int64_t v) { return static_cast<int64_t>(static_cast<T>(v)); }
static int64_t (*wrap_of(std::size_t kind))(int64_t)
{
    return kind == counter_int32 ? wrap_to<int32_t> : kind == counter_uint8 ? wrap_to<uint8_t> : wrap_to<int64_t>;
}

// -- handlers
struct Collect
{
    int* calls;
    Data* into;
    template<typename S>
    void operator()(const S& s) const
    {
        ++*calls;
        into->got(s);
    }
};
// takes values alone, others have no overload
struct OnlyValues
{
    int* calls;
    ld* value;
    void operator()(const value_snapshot& s) const
    {
        ++*calls;
        *value = static_cast<ld>(s.value());
    }
};
struct OnlyHistograms
{
    int* calls;
    uint64_t* count;
    void operator()(const histogram_snapshot& s) const
    {
        ++*calls;
        *count = s.count();
    }
};

static void aggregate_all(World& w)
{
    auto& ctx = w.ctx;
    std::size_t paths = 0;
    w.reg.visit_registered_metrics([&](const metric_path& mp, basic_registered_metric& m) {
        ++paths;
        Parts p(mp.begin(), mp.end());
        CHECK_THAT(ctx, w.model.count(p), "visited at ", show(p), ", where nothing was registered");
        auto& reg = w.model[p];
        std::vector<Data> of;
        for (auto& i : reg.by_tags)
        {
            of.emplace_back();
            i.second.twin->snapshot(of.back());
        }
        if (of.empty())
            return;
        std::ostringstream what;
        what << "aggregate of " << of.size() << " " << w.kind(reg.kind).name << " at " << show(p);
        TRACE(ctx, what.str());
        int calls = 0;
        auto shape = ctx.below(6);
        if (shape < 4)
        {
            Data got;
            Collect c{&calls, &got};
            const Collect cc{&calls, &got};
            if (shape == 0)
                m.aggregate(Collect{&calls, &got});
            else if (shape == 1)
                m.aggregate(c);
            else if (shape == 2)
                m.aggregate(cc);
            else
                m.aggregate([&](const auto& s) {
                    ++calls;
                    got.got(s);
                });
            CHECK_EQ(ctx, calls, 1, what.str(), ": calls of the handler");
            auto k = reg.kind;
            check_combination(ctx, got, of, wrap_of(k), what.str(), k == histogram_simple8 || k == histogram_simple16 || k == histogram_sliding8 || k == histogram_uniform64 || k >= timer_steady);
        }
        else if (shape == 4)
        {
            ld v = 0;
            m.aggregate(OnlyValues{&calls, &v});
            auto which = of[0].which;
            CHECK_EQ(ctx, calls, which == 'H' ? 0 : 1, what.str(), ": calls of a handler for values");
            if (which == 'A' || which == 'M' || which == 'T')
            {
                std::vector<ld> x;
                for (auto& o : of)
                    x.push_back(o.value);
                check_average(ctx, v, x, what.str() + ": mean");
            }
        }
        else
        {
            uint64_t n = 0, want = 0;
            m.aggregate(OnlyHistograms{&calls, &n});
            CHECK_EQ(ctx, calls, of[0].which == 'H' || of[0].which == 'T' ? 1 : 0, what.str(), ": calls of a handler for histograms");
            for (auto& o : of)
                want += o.count;
            CHECK_EQ(ctx, n, want, what.str(), ": count");
        }
        bool different = false;
        for (auto& o : of)
            different = different || o.value != of[0].value || o.integer != of[0].integer || o.sample != of[0].sample;
        ctx.nontrivial(of.size() >= 2 && different);
        ctx.label(of.size() >= 2 && different, (std::string("several ") + of[0].which).c_str());
        ctx.label(of.size() >= 10, "ten permutations and more");
    });
    CHECK_EQ(ctx, paths, w.model.size(), "paths visited");
    // nothing but a reading
    w.check_all();
}

static void histories(pbt::Ctx& ctx, std::size_t npaths, std::size_t ntags, std::size_t nkinds)
{
    World w(ctx, npaths, ntags, nkinds, true);
    auto rounds = 1 + ctx.below(3);
    for (std::size_t r = 0; r < rounds; r++)
    {
        auto steps = ctx.size(20 + 2 * ntags);
        for (std::size_t i = 0; i < steps; i++)
            switch (ctx.below(8))
            {
                case 0: case 1: case 2: w.request(w.any_path(), w.any_tags(), w.any_kind()); break;
                case 3: w.register_existing(w.any_path(), w.any_tags(), w.any_kind()); break;
                case 4: case 5: case 6:
                    if (auto x = w.any())
                    {
                        auto n = 1 + (ctx.coin() ? ctx.below(3) : ctx.below(25));
                        while (n--)
                            w.operate(*x);
                    }
                    break;
                default:
                {
                    auto s = subj::step(ctx);
                    TRACE(ctx, s, " ns pass");
                    vclock::advance(s);
                }
            }
        aggregate_all(w);
    }
}

FACET(worlds, 8000, 200000) { histories(ctx, 1 + ctx.size(5), 1 + ctx.size(8), 1 + ctx.below(6)); }
FACET(one_path, 8000, 200000) { histories(ctx, 1, 2 + ctx.size(30), 1); }

// -- snapshots merged by hand, in any order
template<typename S, typename Make>
static void trees(pbt::Ctx& ctx, Make make, bool whole)
{
    auto n = 1 + ctx.size(16);
    std::vector<S> s;
    std::vector<Data> of;
    for (std::size_t i = 0; i < n; i++)
    {
        s.push_back(make(i));
        of.emplace_back();
        of.back().got(s.back());
    }
    std::vector<Data> all = of;
    std::vector<std::vector<std::size_t>> members(n);
    for (std::size_t i = 0; i < n; i++)
        members[i] = {i};
    auto check = [&](std::size_t i) {
        std::vector<Data> in;
        for (auto m : members[i])
            in.push_back(all[m]);
        Data got;
        got.got(s[i]);
        check_combination(ctx, got, in, wrap_to<int64_t>, "merge of " + std::to_string(in.size()), whole);
    };
    while (s.size() > 1)
    {
        auto a = ctx.below(s.size()), b = ctx.below(s.size() - 1);
        if (b >= a)
            ++b;
        TRACE(ctx, "merge ", members[b], " into ", members[a]);
        s[a].merge(s[b]);
        check(b); // is left alone
        members[a].insert(members[a].end(), members[b].begin(), members[b].end());
        if (ctx.chance(1, 4)) // moved around
        {
            S moved(std::move(s[a]));
            s[a] = std::move(moved);
        }
        check(a);
        if (b != s.size() - 1)
        {
            std::swap(members[b], members.back());
            S t(std::move(s[b]));
            s[b] = std::move(s.back());
            s.back() = std::move(t);
        }
        members.pop_back();
        s.pop_back();
    }
    ctx.nontrivial(n >= 2);
}

template<typename T>
static std::vector<T> sample(pbt::Ctx& ctx)
{
    std::vector<T> v;
    auto n = ctx.chance(1, 6) ? 0 : ctx.size(20);
    for (std::size_t i = 0; i < n; i++)
        v.push_back(T(ctx.range(-500, 500)));
    return v;
}
template<typename T>
static histogram_snapshot hist(pbt::Ctx& ctx)
{
    auto v = sample<T>(ctx);
    TRACE(ctx, v.size(), " values");
    return histogram_snapshot(reservoir_snapshot(v.begin(), v.end(), v.size()), v.size() + (ctx.chance(1, 4) ? ctx.below(uint64_t(1) << 48) : ctx.below(100)));
}
static meter_snapshot rates(pbt::Ctx& ctx, std::size_t windows)
{
    std::unordered_map<std::chrono::steady_clock::duration, metric_value> r;
    for (std::size_t i = 0; i < windows; i++)
        r.emplace(std::chrono::seconds(60 * (i + 1)), metric_value(static_cast<double>(ctx.range(-8000, 8000)) / 8));
    return meter_snapshot(metric_value(static_cast<double>(ctx.range(-8000, 8000)) / 8), std::move(r));
}

FACET(merge_sums, 6000, 120000)
{
    trees<cumulative_value_snapshot>(ctx, [&](std::size_t) { return cumulative_value_snapshot(metric_value(ctx.integer<int64_t>())); }, true);
}
FACET(merge_averages, 6000, 120000)
{
    auto whole = ctx.coin();
    trees<average_value_snapshot>(ctx, [&](std::size_t) {
        auto v = ctx.range(-8000, 8000);
        return whole ? average_value_snapshot(metric_value(v)) : average_value_snapshot(metric_value(static_cast<double>(v) / 8));
    }, whole);
}
FACET(merge_meters, 6000, 120000)
{
    auto n = ctx.below(4);
    trees<meter_snapshot>(ctx, [&](std::size_t) { return rates(ctx, n); }, false);
}
FACET(merge_histograms, 6000, 120000)
{
    trees<histogram_snapshot>(ctx, [&](std::size_t) { return hist<int64_t>(ctx); }, true);
}
FACET(merge_histograms_double, 6000, 120000)
{
    trees<histogram_snapshot>(ctx, [&](std::size_t) { return hist<double>(ctx); }, false);
}
FACET(merge_timers, 6000, 120000)
{
    auto n = ctx.below(4);
    trees<timer_snapshot>(ctx, [&](std::size_t) { return timer_snapshot(hist<std::chrono::nanoseconds>(ctx), rates(ctx, n)); }, true);
}

// -- very many, as of a path with hundreds or thousands of tag sets
template<typename S, typename Make>
static void crowd(pbt::Ctx& ctx, Make make)
{
    std::vector<S> heaps;
    std::vector<std::vector<Data>> in;
    auto n = 1 + ctx.below(3);
    auto most = ctx.chance(1, 200) ? 70000u : ctx.chance(1, 8) ? 3000u : 300u;
    for (std::size_t h = 0; h < n; h++)
    {
        auto m = 1 + (ctx.coin() ? most : ctx.below(most));
        auto base = ctx.range(-4000, 4000);
        TRACE(ctx, m, " into ", h, ", around ", base);
        in.emplace_back();
        for (std::size_t i = 0; i < m; i++)
        {
            // (not choices of their own; there are too many of them)
            auto s = make(base + static_cast<int64_t>(i * 7919 % 1000), i);
            in.back().emplace_back();
            in.back().back().got(s);
            if (i == 0)
                heaps.push_back(std::move(s));
            else
                heaps.back().merge(s);
        }
    }
    while (heaps.size() > 1)
    {
        heaps[heaps.size() - 2].merge(heaps.back());
        auto& to = in[heaps.size() - 2];
        to.insert(to.end(), in[heaps.size() - 1].begin(), in[heaps.size() - 1].end());
        heaps.pop_back();
    }
    Data got;
    got.got(heaps[0]);
    check_combination(ctx, got, in[0], wrap_to<int64_t>, "merge of " + std::to_string(in[0].size()), false);
    ctx.nontrivial(in[0].size() > 255);
    ctx.label(in[0].size() > 65535, "more than 65535");
}
FACET(crowd_averages, 1500, 20000)
{
    crowd<average_value_snapshot>(ctx, [](int64_t v, std::size_t) { return average_value_snapshot(metric_value(static_cast<double>(v) / 8)); });
}
FACET(crowd_meters, 400, 6000)
{
    crowd<meter_snapshot>(ctx, [](int64_t v, std::size_t) {
        std::unordered_map<std::chrono::steady_clock::duration, metric_value> r;
        r.emplace(std::chrono::seconds(60), metric_value(static_cast<double>(v) / 4));
        return meter_snapshot(metric_value(static_cast<double>(v) / 8), std::move(r));
    });
}
// a path with that many tag sets
FACET(crowd_registry, 150, 2500)
{
    static const std::size_t magnitudes[] = {20, 70, 150, 300, 600, 1100, 2100, 4200};
    Registry reg;
    auto n = 2 + ctx.below(magnitudes[ctx.below(8)]);
    auto base = ctx.range(-4000, 4000);
    TRACE(ctx, n, " tag sets, around ", base);
    std::vector<Data> counters, averages, histograms;
    for (std::size_t i = 0; i < n; i++)
    {
        tag_collection t{{"n", static_cast<int64_t>(i)}};
        auto v = base + static_cast<int64_t>(i * 7919 % 1000);
        auto c = reg.counter<int64_t>("counter", int64_t(v), t);
        auto g = reg.gauge<double>("gauge", static_cast<double>(v) / 8, t);
        auto h = reg.histogram<simple_reservoir<int64_t, 8>>("histogram", simple_reservoir<int64_t, 8>(), t);
        h->update(v);
        if (i % 3 == 0)
            h->update(v + 1);
        for (auto to : {&counters, &averages, &histograms})
            to->emplace_back();
        counters.back().got(c->snapshot());
        averages.back().got(g->snapshot());
        histograms.back().got(h->snapshot());
    }
    std::size_t paths = 0;
    reg.visit_registered_metrics([&](const metric_path& p, basic_registered_metric& m) {
        ++paths;
        auto& in = p == metric_path("counter") ? counters : p == metric_path("gauge") ? averages : histograms;
        Data got;
        std::size_t calls = 0;
        m.aggregate([&](const auto& s) {
            ++calls;
            got.got(s);
        });
        CHECK_EQ(ctx, calls, std::size_t(1), "calls of the handler");
        check_combination(ctx, got, in, wrap_to<int64_t>, "aggregate of " + std::to_string(n), false);
    });
    CHECK_EQ(ctx, paths, std::size_t(3), "paths");
    ctx.nontrivial(n >= 3);
}

PBT_MAIN
