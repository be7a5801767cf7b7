// C21: publish options and attached data are retained and resolved correctly
#include "regs.hpp"
#include "opts.hpp"

PROPERTY("C21", "A case is a history of constructing, moving and assigning option objects, or of setting options, attaching data and registering metrics in a registry with several publishers; non-trivial when options other than the defaults were read back or data was accessed again.")

using namespace regs;
using namespace opts;

template<typename O, typename W>
struct Held
{
    std::unique_ptr<O> o;
    W w;
    bool valid = true; // not moved from
};

// makes, moves and assigns some of them
template<typename O, typename W, typename Make, typename Check>
static void shuffle(pbt::Ctx& ctx, Make make, Check check)
{
    std::vector<Held<O, W>> pool;
    auto fresh = [&] {
        W w;
        auto o = make(ctx, w);
        pool.push_back(Held<O, W>{std::make_unique<O>(std::move(o)), w});
    };
    fresh();
    auto steps = 1 + ctx.size(20);
    for (std::size_t s = 0; s < steps; s++)
    {
        auto i = ctx.below(pool.size());
        switch (ctx.below(4))
        {
            case 0:
                fresh();
                break;
            case 1:
            {
                W w;
                auto o = make(ctx, w);
                TRACE(ctx, "assign a fresh one to ", i);
                *pool[i].o = std::move(o);
                pool[i].w = w;
                pool[i].valid = true;
                break;
            }
            case 2:
                if (pool[i].valid)
                {
                    TRACE(ctx, "construct another from ", i);
                    auto o = std::make_unique<O>(std::move(*pool[i].o));
                    pool[i].valid = false;
                    pool.push_back(Held<O, W>{std::move(o), pool[i].w});
                }
                break;
            default:
            {
                auto j = ctx.below(pool.size());
                if (pool[i].valid && i != j)
                {
                    TRACE(ctx, "move ", i, " into ", j);
                    *pool[j].o = std::move(*pool[i].o);
                    pool[j].w = pool[i].w;
                    pool[j].valid = true;
                    pool[i].valid = false;
                }
            }
        }
        for (auto& p : pool)
            if (p.valid)
                check(ctx, *p.o, p.w);
    }
    ctx.nontrivial(pool.size() >= 2);
}

FACET(value_options, 3000, 60000) { shuffle<value_publish_options, Want>(ctx, make_value, [](pbt::Ctx& c, const value_publish_options& o, const Want& w) { check_value(c, o, w, "value options"); }); }
FACET(meter_options, 3000, 60000) { shuffle<meter_publish_options, Want>(ctx, make_meter, [](pbt::Ctx& c, const meter_publish_options& o, const Want& w) { check_meter(c, o, w, "meter options"); }); }
FACET(histogram_options, 3000, 60000) { shuffle<histogram_publish_options, Want>(ctx, make_histogram, [](pbt::Ctx& c, const histogram_publish_options& o, const Want& w) { check_histogram(c, o, w, "histogram options"); }); }
FACET(timer_options, 3000, 60000) { shuffle<timer_publish_options, Want>(ctx, make_timer, [](pbt::Ctx& c, const timer_publish_options& o, const Want& w) { check_timer(c, o, w, "timer options"); }); }
FACET(options, 3000, 60000) { shuffle<publish_options, All4>(ctx, make_options, check_options); }

// value and meter options can be copied as well
FACET(copies, 3000, 60000)
{
    Want w, w2;
    auto m = make_meter(ctx, w), m2 = make_meter(ctx, w2);
    meter_publish_options c(m);
    check_meter(ctx, c, w, "copied meter options");
    m2 = c;
    check_meter(ctx, m2, w, "assigned meter options");
    check_meter(ctx, c, w, "meter options that were copied");
    auto v = make_value(ctx, w);
    auto v2 = make_value(ctx, w2);
    value_publish_options d(v);
    check_value(ctx, d, w, "copied value options");
    v2 = d;
    check_value(ctx, v2, w, "assigned value options");
    check_value(ctx, d, w, "value options that were copied");
    ctx.nontrivial();
}

// -- options and data in a registry
template<int N>
struct Data : basic_publish_options
{
    static int alive;
    int64_t number;
    std::string text;
    Data() : number(-1), text("default") { ++alive; }
    explicit Data(int64_t n) : number(n), text("one argument") { ++alive; }
    Data(int64_t n, std::string t) : number(n), text(std::move(t)) { ++alive; }
    Data(const Data&) = delete;
    ~Data() override { --alive; }
};
template<int N>
int Data<N>::alive = 0;

struct Publisher : metrics_publisher<default_repository>
{
    using Base = metrics_publisher<default_repository>;
    using Base::Base;
    using Base::effective_options;
    using Base::get_data;
    using Base::get_data_for;
    using Base::has_data_for;
    using Base::has_metric;
    using Base::metric_type;
    using Base::visit_all;
    using Base::visit_one;
};

struct Attached
{
    void* at;
    int64_t number;
    std::string text;
};
struct Known // about a path, or the registry
{
    bool options = false;
    All4 want;
    std::map<int, Attached> data;
};

struct Options
{
    World w;
    pbt::Ctx& ctx;
    std::deque<Publisher> publishers;
    Known registry;
    std::map<Parts, Known> metrics;
    std::size_t again = 0;

    explicit Options(pbt::Ctx& ctx) : w(ctx, 2 + ctx.size(5), 1 + ctx.below(3), 1 + ctx.below(6)), ctx(ctx)
    {
        auto n = 1 + ctx.below(3);
        for (std::size_t i = 0; i < n; i++)
            publishers.emplace_back(w.reg);
    }
    Publisher& publisher() { return publishers[ctx.below(publishers.size())]; }
    bool has(const Parts& p) { return w.model.count(p) != 0; }

    // the registered metric, while visiting or after
    basic_registered_metric* find(const Parts& p)
    {
        basic_registered_metric* r = nullptr;
        auto mp = path(ctx, p);
        if (ctx.coin())
            publisher().visit_one(mp, [&](const metric_path& q, basic_registered_metric& m) {
                CHECK_THAT(ctx, q == mp, "visit_one visits another path");
                CHECK_THAT(ctx, r == nullptr, "visit_one visits twice");
                r = &m;
            });
        else
            publisher().visit_all([&](const metric_path& q, basic_registered_metric& m) {
                if (q == mp)
                    r = &m;
            });
        CHECK_EQ(ctx, r != nullptr, has(p), "whether ", show(p), " can be visited");
        return r;
    }

    void check_effective(const Parts& p)
    {
        if (!has(p))
            return;
        auto& k = metrics[p];
        const auto& o = publisher().effective_options(*find(p));
        check_options(ctx, o, k.options ? k.want : registry.options ? registry.want : All4());
    }

    template<int N>
    void access(Data<N>* d, Known& k, int64_t n, int args)
    {
        auto& a = k.data[N];
        if (a.at)
            ++again;
        else
        {
            a.at = d;
            a.number = args == 0 ? -1 : n;
            a.text = args == 0 ? "default" : args == 1 ? "one argument" : "number " + std::to_string(n);
        }
        CHECK_THAT(ctx, a.at == d, "data of type ", N, " is another object than before");
        CHECK_EQ(ctx, d->number, a.number, "content of data of type ", N);
        CHECK_EQ(ctx, d->text, a.text, "content of data of type ", N);
        if (ctx.coin())
        {
            d->number = a.number = ctx.range(0, 1000);
            d->text = a.text = "changed";
        }
    }
    template<int N>
    void data_step(const Parts& p)
    {
        auto n = ctx.range(0, 1000);
        auto args = static_cast<int>(ctx.below(3));
        auto& pub = publisher();
        auto text = "number " + std::to_string(n);
        switch (ctx.below(5))
        {
            case 0:
                TRACE(ctx, "data ", N, " of the registry, number ", n);
                access<N>(args == 0 ? &pub.get_data<Data<N>>() : args == 1 ? &pub.get_data<Data<N>>(n) : &pub.get_data<Data<N>>(n, text), registry, n, args);
                break;
            case 1: case 2:
            {
                TRACE(ctx, "data ", N, " for ", show(p), ", number ", n);
                auto mp = path(ctx, p);
                auto d = args == 0 ? pub.get_data_for<Data<N>>(mp) : args == 1 ? pub.get_data_for<Data<N>>(mp, n) : pub.get_data_for<Data<N>>(mp, n, text);
                CHECK_EQ(ctx, d != nullptr, has(p), "whether there is data for ", show(p));
                if (d)
                    access<N>(d, metrics[p], n, args);
                break;
            }
            case 3:
                if (auto m = find(p))
                {
                    TRACE(ctx, "data ", N, " for the metric at ", show(p), ", number ", n);
                    access<N>(args == 0 ? &pub.get_data_for<Data<N>>(*m) : args == 1 ? &pub.get_data_for<Data<N>>(*m, n) : &pub.get_data_for<Data<N>>(*m, n, text), metrics[p], n, args);
                }
                break;
            default:
            {
                bool want = has(p) && metrics[p].data.count(N);
                CHECK_EQ(ctx, pub.has_data_for<Data<N>>(path(ctx, p)), want, "whether there is data ", N, " for ", show(p));
                if (auto m = find(p))
                    CHECK_EQ(ctx, pub.has_data_for<Data<N>>(*m), want, "whether there is data ", N, " for the metric at ", show(p));
            }
        }
    }
    int alive() { return Data<0>::alive + Data<1>::alive + Data<2>::alive; }
    int expected_alive()
    {
        auto n = registry.data.size();
        for (auto& m : metrics)
            n += m.second.data.size();
        return static_cast<int>(n);
    }

    void step()
    {
        auto p = w.any_path();
        switch (ctx.below(10))
        {
            case 0: case 1:
                w.request(p, w.any_tags(), w.any_kind());
                break;
            case 2:
                TRACE(ctx, "options for the registry");
                w.reg.publish_options(make_options(ctx, registry.want));
                registry.options = true;
                break;
            case 3: case 4:
            {
                TRACE(ctx, "options for ", show(p));
                All4 want;
                auto o = make_options(ctx, want);
                w.reg.publish_options(path(ctx, p), std::move(o));
                if (has(p))
                {
                    metrics[p].options = true;
                    metrics[p].want = want;
                }
                break;
            }
            case 5: data_step<0>(p); break;
            case 6: data_step<1>(p); break;
            case 7: data_step<2>(p); break;
            case 8:
            {
                auto& pub = publisher();
                CHECK_EQ(ctx, pub.has_metric(path(ctx, p)), has(p), "whether there is a metric at ", show(p));
                auto t = pub.metric_type(path(ctx, p));
                if (!has(p))
                    CHECK_EQ(ctx, t, std::string(), "metric type at ", show(p));
                else
                {
                    CHECK_THAT(ctx, !t.empty(), "the metric type at ", show(p), " is empty");
                    CHECK_EQ(ctx, pub.metric_type(*find(p)), t, "metric type of the metric at ", show(p));
                }
                break;
            }
            default:
                check_effective(p);
        }
    }
};

FACET(registry, 8000, 200000)
{
    CHECK_EQ(ctx, Data<0>::alive + Data<1>::alive + Data<2>::alive, 0, "objects left behind by an earlier case");
    {
        Options o(ctx);
        auto steps = 1 + ctx.size(60);
        for (std::size_t i = 0; i < steps; i++)
        {
            o.step();
            CHECK_EQ(ctx, o.alive(), o.expected_alive(), "data objects alive");
        }
        check_options(ctx, o.w.reg.publish_options(), o.registry.options ? o.registry.want : All4());
        bool own = false;
        for (auto& p : o.w.paths)
        {
            o.check_effective(p);
            own = own || (o.has(p) && o.metrics[p].options);
        }
        o.w.check_contents();
        ctx.nontrivial((own && o.registry.options) || o.again);
        ctx.label(own && o.registry.options, "options of both levels");
        ctx.label(o.again != 0, "data accessed again");
    }
    CHECK_EQ(ctx, Data<0>::alive + Data<1>::alive + Data<2>::alive, 0, "data objects left behind");
}

PBT_MAIN
