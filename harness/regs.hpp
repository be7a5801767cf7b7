// A registry next to a model of it: every kind of metric, at any path and tag set
#ifndef REGS_HPP
#define REGS_HPP

#include "subjects.hpp"
#include <cxxmetrics/metrics_registry.hpp>
#include <cstdlib>

namespace subj
{
// gauges with sources elsewhere, and texts
template<typename S>
struct CellGauge
{
    using X = S;
    static constexpr std::size_t exact_updates = ~std::size_t(0);
    static Op draw(pbt::Ctx& ctx) { return Op{0, ctx.range(-1000, 1000), 0}; }
    template<typename Y>
    static void see(Y& x, Seen& s) { s.num(static_cast<ld>(x.get())); }
};
template<gauges::gauge_aggregation_type A>
struct Subject<gauge<std::function<int64_t()>, A>> : CellGauge<gauge<std::function<int64_t()>, A>> { };
template<gauges::gauge_aggregation_type A>
struct Subject<gauge<int64_t&, A>> : CellGauge<gauge<int64_t&, A>> { };
template<gauges::gauge_aggregation_type A>
struct Subject<gauge<std::string, A>>
{
    using X = gauge<std::string, A>;
    static constexpr std::size_t exact_updates = ~std::size_t(0);
    static std::string value(int64_t v) { return "text " + std::to_string(v); }
    static X* make(int64_t v) { return new X(value(v)); }
    static Op draw(pbt::Ctx& ctx) { return Op{0, ctx.range(-1000, 1000), 0}; }
    static void apply(X& x, const Op& o) { x.set(value(o.a)); }
    template<typename Y>
    static void see(Y& x, Seen& s) { s.text(x.get()); }
};
}

namespace regs
{
using namespace cxxmetrics;
using subj::ld;
using subj::Op;
using subj::Seen;
using subj::sec;
using subj::minute;
#ifdef REGS_REPOSITORY
using Repository = REGS_REPOSITORY;
#else
using Repository = default_repository;
#endif
using Registry = metrics_registry<Repository>;
// around every call of the registry
#ifndef REGS_ARMED
#define REGS_ARMED
#endif

// what a snapshot shows, whatever its type
inline void see_value(Seen& s, const metric_value& v)
{
    auto t = static_cast<std::string>(v);
    if (t.compare(0, 4, "text") == 0)
        s.text(t);
    else
        s.num(static_cast<ld>(v));
}
inline Seen view(const cumulative_value_snapshot& v) { Seen s; s.text("sum"); see_value(s, v.value()); return s; }
inline Seen view(const average_value_snapshot& v) { Seen s; s.text("average"); see_value(s, v.value()); return s; }
inline Seen view(const meter_snapshot& v) { Seen s; s.text("meter"); subj::see(s, v); return s; }
inline Seen view(const histogram_snapshot& v)
{
    Seen s;
    s.text("histogram");
    s.num(static_cast<ld>(v.count()));
    subj::see(s, static_cast<const reservoir_snapshot&>(v));
    return s;
}
inline Seen view(const timer_snapshot& v)
{
    Seen s;
    s.text("timer");
    s.num(static_cast<ld>(v.count()));
    subj::see(s, static_cast<const reservoir_snapshot&>(v));
    subj::see(s, v.rate());
    return s;
}

// receives any snapshot
struct Receiver
{
    virtual void got(const cumulative_value_snapshot&) = 0;
    virtual void got(const average_value_snapshot&) = 0;
    virtual void got(const meter_snapshot&) = 0;
    virtual void got(const histogram_snapshot&) = 0;
    virtual void got(const timer_snapshot&) = 0;
    virtual ~Receiver() = default;
};
struct Viewer : Receiver
{
    Seen seen;
    void got(const cumulative_value_snapshot& s) override { seen = view(s); }
    void got(const average_value_snapshot& s) override { seen = view(s); }
    void got(const meter_snapshot& s) override { seen = view(s); }
    void got(const histogram_snapshot& s) override { seen = view(s); }
    void got(const timer_snapshot& s) override { seen = view(s); }
};

// a metric of any kind
struct Handle
{
    std::size_t updates = 0;
    virtual ~Handle() = default;
    virtual const internal::metric* id() const = 0;
    virtual std::string type() const = 0;
    virtual void apply(const Op&) = 0;
    virtual void snapshot(Receiver&) = 0;
    virtual long uses() const = 0;
    virtual bool held() const = 0;
    virtual void hold(bool) = 0; // or leave it to the registry alone
    Seen seen()
    {
        Viewer v;
        snapshot(v);
        return v.seen;
    }
};
using HandlePtr = std::shared_ptr<Handle>;

struct Cells
{
    std::deque<int64_t> v;
    int64_t* fresh(int64_t init)
    {
        v.push_back(init);
        return &v.back();
    }
};

template<typename M>
struct HandleOf : Handle
{
    std::shared_ptr<M> p;
    std::weak_ptr<M> weak;
    int64_t* cell;
    M* raw;
    HandleOf(std::shared_ptr<M> m, int64_t* cell) : p(std::move(m)), weak(p), cell(cell), raw(p.get()) { }
    std::shared_ptr<M> use() const
    {
        auto m = weak.lock();
        if (!m)
            throw std::logic_error("a metric is gone although the registry ought to hold it");
        return m;
    }
    const internal::metric* id() const override { return raw; }
    std::string type() const override { return use()->metric_type(); }
    long uses() const override { return weak.use_count(); }
    bool held() const override { return static_cast<bool>(p); }
    void hold(bool h) override { h ? void(p = use()) : p.reset(); }
    void snapshot(Receiver& r) override { r.got(use()->snapshot()); }
    template<typename S>
    static auto do_apply(S*, M& m, int64_t*, const Op& o) -> decltype(S::apply(m, o)) { S::apply(m, o); }
    static void do_apply(subj::CellGauge<M>*, M&, int64_t* cell, const Op& o) { *cell = o.a; }
    void apply(const Op& o) override
    {
        ++updates;
        do_apply(static_cast<subj::Subject<M>*>(nullptr), *use(), cell, o);
    }
};

struct Kind
{
    const char* name;
    int group;      // of equal kinds
    char snapshots; // which: Sum, Average, Meter, Histogram, Timer
    bool numeric = true;
    virtual ~Kind() = default;
    virtual HandlePtr request(Registry&, const metric_path&, const tag_collection&, int64_t variant, Cells&) = 0;
    virtual HandlePtr create(int64_t variant, Cells&) = 0; // one that isn't registered
    virtual bool register_existing(Registry&, const metric_path&, const tag_collection&, const HandlePtr&) = 0;
    virtual bool register_null(Registry&, const metric_path&, const tag_collection&) = 0;
    virtual Op draw(pbt::Ctx&) = 0;
    virtual std::size_t limit() const = 0; // of updates that leave it predictable
    virtual std::string type() const = 0;
};

// how each kind is asked for
template<typename M>
struct Ask;
template<typename T>
struct Ask<counter<T>>
{
    static std::shared_ptr<counter<T>> get(Registry& r, const metric_path& p, const tag_collection& t, int64_t v, int64_t*)
    {
        if (v % 2)
            return r.counter<T>(p, static_cast<T>(v), t);
        return r.counter<T>(p, t);
    }
    static counter<T>* make(int64_t v, int64_t*) { return new counter<T>(static_cast<T>(v % 2 ? v : 0)); }
};
template<period::value W, period::value I, typename T>
struct Ask<ewma<W, I, T>>
{
    static std::shared_ptr<ewma<W, I, T>> get(Registry& r, const metric_path& p, const tag_collection& t, int64_t, int64_t*) { return r.ewma<W, I, T>(p, t); }
    static ewma<W, I, T>* make(int64_t, int64_t*) { return new ewma<W, I, T>(); }
};
template<typename T, gauges::gauge_aggregation_type A>
struct Ask<gauge<T, A>>
{
    static T value(int64_t v) { return subj::Subject<gauge<T, A>>::value(v); }
    static std::shared_ptr<gauge<T, A>> get(Registry& r, const metric_path& p, const tag_collection& t, int64_t v, int64_t*) { return r.gauge<T, A>(p, value(v), t); }
    static gauge<T, A>* make(int64_t v, int64_t*) { return new gauge<T, A>(value(v)); }
};
template<gauges::gauge_aggregation_type A>
struct Ask<gauge<std::function<int64_t()>, A>>
{
    using F = std::function<int64_t()>;
    static std::shared_ptr<gauge<F, A>> get(Registry& r, const metric_path& p, const tag_collection& t, int64_t, int64_t* c) { return r.gauge<F, A>(p, F([c] { return *c; }), t); }
    static gauge<F, A>* make(int64_t, int64_t* c) { return new gauge<F, A>(F([c] { return *c; })); }
};
template<gauges::gauge_aggregation_type A>
struct Ask<gauge<int64_t&, A>>
{
    static std::shared_ptr<gauge<int64_t&, A>> get(Registry& r, const metric_path& p, const tag_collection& t, int64_t, int64_t* c) { return r.gauge<int64_t&, A>(p, *c, t); }
    static gauge<int64_t&, A>* make(int64_t, int64_t* c) { return new gauge<int64_t&, A>(*c); }
};
template<typename R>
R reservoir(int64_t v, int64_t n)
{
    std::unique_ptr<R> r(subj::Subject<R>::make(v));
    for (int64_t i = 0; i < n; i++)
        r->update(typename R::value_type(70 + i));
    return std::move(*r);
}
template<typename T, typename R>
struct Ask<histogram<T, R>>
{
    static std::shared_ptr<histogram<T, R>> get(Registry& r, const metric_path& p, const tag_collection& t, int64_t v, int64_t*)
    {
        return r.histogram<R>(p, reservoir<R>(v, v % 5), t);
    }
    static histogram<T, R>* make(int64_t v, int64_t*) { return new histogram<T, R>(reservoir<R>(v, v % 5)); }
};
template<period::value I, period::value... W>
struct Ask<meter<I, W...>>
{
    static std::shared_ptr<meter<I, W...>> get(Registry& r, const metric_path& p, const tag_collection& t, int64_t, int64_t*) { return r.meter<I, W...>(p, t); }
    static meter<I, W...>* make(int64_t, int64_t*) { return new meter<I, W...>(); }
};
template<period::value I, typename C, typename R, period::value... W>
struct Ask<timer<I, C, R, W...>>
{
    static std::shared_ptr<timer<I, C, R, W...>> get(Registry& r, const metric_path& p, const tag_collection& t, int64_t v, int64_t*)
    {
        return r.timer<I, C, R, W...>(p, reservoir<R>(v, v % 3), t);
    }
    static timer<I, C, R, W...>* make(int64_t v, int64_t*) { return new timer<I, C, R, W...>(reservoir<R>(v, v % 3)); }
};

template<typename M>
struct KindOf : Kind
{
    KindOf(const char* n, int g, char s)
    {
        name = n;
        group = g;
        snapshots = s;
    }
    HandlePtr request(Registry& r, const metric_path& p, const tag_collection& t, int64_t variant, Cells& cells) override
    {
        auto c = cells.fresh(variant);
        auto m = [&] {
            REGS_ARMED
            return Ask<M>::get(r, p, t, variant, c);
        }();
        return std::make_shared<HandleOf<M>>(m, c);
    }
    HandlePtr create(int64_t variant, Cells& cells) override
    {
        auto c = cells.fresh(variant);
        return std::make_shared<HandleOf<M>>(std::shared_ptr<M>(Ask<M>::make(variant, c)), c);
    }
    bool register_existing(Registry& r, const metric_path& p, const tag_collection& t, const HandlePtr& h) override
    {
        auto m = static_cast<HandleOf<M>&>(*h).use();
        REGS_ARMED
        return r.register_existing(p, m, t);
    }
    bool register_null(Registry& r, const metric_path& p, const tag_collection& t) override { return r.register_existing(p, std::shared_ptr<M>(), t); }
    Op draw(pbt::Ctx& ctx) override { return subj::Subject<M>::draw(ctx); }
    std::size_t limit() const override
    {
        auto l = subj::Subject<M>::exact_updates;
        return l > 1000 ? l : l - 5; // initial contents
    }
    std::string type() const override
    {
        Cells c;
        return const_cast<KindOf*>(this)->create(0, c)->type();
    }
};

using steady = std::chrono::steady_clock;
using wall = std::chrono::system_clock;
using fn_i64 = std::function<int64_t()>;
template<std::size_t N>
using simple_t = simple_reservoir<steady::duration, N>;

// all kinds; those with the same group name the same one
#define REGS_KINDS(F) \
    F(counter_int64, 0, 'S', counter<int64_t>) \
    F(counter_int32, 1, 'S', counter<int32_t>) \
    F(counter_uint8, 2, 'S', counter<uint8_t>) \
    F(ewma_1min, 3, 'A', ewma<minute, sec, double>) \
    F(ewma_5min, 4, 'A', ewma<5 * minute, sec, double>) \
    F(ewma_1min_5sec, 5, 'A', ewma<minute, 5 * sec, double>) \
    F(ewma_1min_int64, 6, 'A', ewma<minute, sec, int64_t>) \
    F(gauge_int64, 7, 'A', gauge<int64_t>) \
    F(gauge_int64_sum, 8, 'S', gauge<int64_t, gauges::aggregation_sum>) \
    F(gauge_double, 9, 'A', gauge<double>) \
    F(gauge_function, 10, 'A', gauge<fn_i64>) \
    F(gauge_function_sum, 11, 'S', gauge<fn_i64, gauges::aggregation_sum>) \
    F(gauge_reference, 12, 'A', gauge<int64_t&>) \
    F(gauge_reference_sum, 13, 'S', gauge<int64_t&, gauges::aggregation_sum>) \
    F(gauge_string, 14, 'A', gauge<std::string>) \
    F(histogram_simple8, 15, 'H', histogram<int64_t, simple_reservoir<int64_t, 8>>) \
    F(histogram_simple16, 16, 'H', histogram<int64_t, simple_reservoir<int64_t, 16>>) \
    F(histogram_uniform64, 17, 'H', histogram<int64_t, uniform_reservoir<int64_t, 64>>) \
    F(histogram_sliding8, 18, 'H', histogram<int64_t, sliding_window_reservoir<int64_t, 8>>) \
    F(meter_1_5, 19, 'M', meter<sec, minute, 5 * minute>) \
    F(meter_5_1, 19, 'M', meter<sec, 5 * minute, minute>) \
    F(meter_5_1_5, 19, 'M', meter<sec, 5 * minute, minute, 5 * minute>) \
    F(meter_1, 20, 'M', meter<sec, minute>) \
    F(meter_5sec, 21, 'M', meter<5 * sec, minute, 5 * minute>) \
    F(timer_steady, 22, 'T', timer<sec, steady, simple_t<8>, minute>) \
    F(timer_wall, 23, 'T', timer<sec, wall, simple_t<8>, minute>) \
    F(timer_16, 24, 'T', timer<sec, steady, simple_t<16>, minute>) \
    F(timer_windows, 25, 'T', timer<sec, steady, simple_t<8>, minute, 5 * minute>) \
    F(timer_uniform, 26, 'T', timer<sec, steady, uniform_reservoir<steady::duration, 64>, minute>) \
    F(timer_5sec, 27, 'T', timer<5 * sec, steady, simple_t<8>, minute>)

inline std::vector<std::unique_ptr<Kind>>& kinds()
{
    static std::vector<std::unique_ptr<Kind>> k;
    return k;
}

enum Names
{
#define REGS_NAME(n, g, s, ...) n,
    REGS_KINDS(REGS_NAME)
#undef REGS_NAME
    nkinds
};

// every part of the program brings some of the kinds
template<int N, bool Mine = N % PBT_PARTS == PBT_PART>
struct Add
{
    template<typename M>
    static void go(const char* n, int g, char s)
    {
        kinds().resize(nkinds);
        kinds()[N].reset(new KindOf<M>(n, g, s));
        kinds()[N]->numeric = N != gauge_string;
    }
};
template<int N>
struct Add<N, false>
{
    template<typename M>
    static void go(const char*, int, char) { }
};
namespace { struct AddAll
{
    AddAll()
    {
#define REGS_ADD(n, g, s, ...) Add<n>::template go<__VA_ARGS__>(#n, g, s);
        REGS_KINDS(REGS_ADD)
#undef REGS_ADD
    }
};
AddAll add_all_; }

// -- paths and tags, with what they say
using Parts = std::vector<std::string>;
struct TagValue
{
    char type; // i, d, s
    int64_t i;
    std::string s;
    metric_value make() const
    {
        if (type == 'i')
            return metric_value(i);
        if (type == 'd')
            return metric_value(static_cast<double>(i) + 0.5);
        return metric_value(s);
    }
    std::string text() const { return static_cast<std::string>(make()); }
    bool operator<(const TagValue& o) const { return std::tie(type, i, s) < std::tie(o.type, o.i, o.s); }
    bool operator==(const TagValue& o) const { return type == o.type && i == o.i && s == o.s; }
};
using Tags = std::map<std::string, TagValue>;

inline std::string show(const Parts& p)
{
    std::string s;
    for (auto& c : p)
        s += (s.empty() ? "" : " / ") + pbt::quote(c);
    return s.empty() ? "(empty)" : s;
}
inline std::string show(const Tags& t)
{
    std::string s = "{";
    for (auto& e : t)
        s += (s.size() > 1 ? ", " : "") + pbt::quote(e.first) + ": " + (e.second.type == 's' ? pbt::quote(e.second.s) : e.second.text());
    return s + "}";
}
inline metric_path path(pbt::Ctx& ctx, const Parts& p)
{
    // in any nesting
    std::function<metric_path(std::size_t, std::size_t)> build = [&](std::size_t a, std::size_t b) -> metric_path {
        if (b == a)
            return metric_path("");
        if (b == a + 1)
            return metric_path(p[a]);
        auto mid = a + 1 + ctx.below(b - a - 1);
        auto l = build(a, mid), r = build(mid, b);
        return l / r;
    };
    return build(0, p.size());
}
inline tag_collection tags(pbt::Ctx& ctx, const Tags& t)
{
    std::vector<std::pair<std::string, metric_value>> v;
    std::vector<const Tags::value_type*> order;
    for (auto& e : t)
        order.push_back(&e);
    for (std::size_t i = order.size(); i > 1; i--)
        std::swap(order[i - 1], order[ctx.below(i)]);
    for (auto e : order)
        v.emplace_back(e->first, e->second.make());
    if (order.size() == 2 && ctx.coin())
        return tag_collection{{v[0].first, v[0].second}, {v[1].first, v[1].second}};
    return tag_collection(v, ctx.coin() ? static_cast<int>(ctx.below(100)) : 0);
}
inline bool same(const tag_collection& c, const Tags& t)
{
    std::size_t n = 0;
    for (auto& e : c)
    {
        ++n;
        auto f = t.find(e.first);
        if (f == t.end() || static_cast<std::string>(e.second) != f->second.text())
            return false;
        if (f->second.type == 'i' && static_cast<int64_t>(e.second) != f->second.i)
            return false;
    }
    return n == t.size();
}

inline std::string component(pbt::Ctx& ctx)
{
    static const char* const common[] = {"a", "b", "ab", "a/b", "my", "/", "x"};
    if (ctx.chance(3, 4))
        return common[ctx.below(7)];
    std::string s;
    auto n = 1 + ctx.size(30);
    for (std::size_t i = 0; i < n; i++)
        s += static_cast<char>(ctx.below(256));
    return s;
}
inline Parts draw_parts(pbt::Ctx& ctx)
{
    Parts p;
    auto n = ctx.below(5);
    for (std::size_t i = 0; i < n; i++)
        p.push_back(component(ctx));
    return p;
}
// a text that spells a number is equal to it: C19 has those
inline std::string no_number(std::string s)
{
    char* end = nullptr;
    std::strtold(s.c_str(), &end);
    return !s.empty() && end == s.c_str() + s.size() ? "v" + s : s;
}
inline TagValue draw_value(pbt::Ctx& ctx)
{
    switch (ctx.below(4))
    {
        case 0: return TagValue{'i', ctx.range(-3, 3), ""};
        case 1: return TagValue{'d', ctx.range(-3, 3), ""};
        case 2: return TagValue{'s', 0, ctx.coin() ? "" : "v"};
        default: return TagValue{'s', 0, no_number(component(ctx))};
    }
}
inline Tags draw_tags(pbt::Ctx& ctx)
{
    Tags t;
    auto n = ctx.size(8);
    for (std::size_t i = 0; i < n; i++)
        t[ctx.chance(1, 8) ? "" : component(ctx)] = draw_value(ctx);
    return t;
}
// one that differs a little
inline Tags vary(pbt::Ctx& ctx, Tags t)
{
    if (t.empty() || ctx.chance(1, 3))
    {
        t[component(ctx)] = draw_value(ctx);
        return t;
    }
    auto e = t.begin();
    std::advance(e, static_cast<long>(ctx.below(t.size())));
    if (ctx.coin())
        t.erase(e);
    else
        e->second = draw_value(ctx);
    return t;
}

// -- the model
struct Instance
{
    HandlePtr real, twin;
    std::size_t kind;
    const internal::metric* id;
};
struct Registered
{
    std::size_t kind; // the first
    std::map<Tags, Instance> by_tags;
};

struct World;
// takes every visited snapshot for checking
struct All
{
    World& w;
    const Parts& p;
    std::set<Tags>& tags;
    template<typename S>
    void operator()(const tag_collection& c, const S& s) const { check(c, view(s)); }
    void check(const tag_collection& c, const Seen& got) const;
};

struct World
{
    pbt::Ctx& ctx;
    Cells cells; // outlive the registry
    std::unique_ptr<Registry> owned{new Registry()};
    Registry& reg = *owned;
    std::function<Tags(const Tags&)> treated = [](const Tags& t) { return t; }; // what the repository makes of tags; idempotent
    std::map<Parts, Registered> model;
    std::vector<Parts> paths;
    std::vector<Tags> tagsets;
    std::vector<std::size_t> some; // the kinds of this case
    std::map<const internal::metric*, Handle*> free; // created, not registered
    std::size_t hits = 0, mismatches = 0, created = 0, unheld = 0;

    World(pbt::Ctx& ctx, std::size_t npaths, std::size_t ntags, std::size_t nkinds, bool numeric = false) : ctx(ctx)
    {
        for (std::size_t i = 0; i < npaths; i++)
            paths.push_back(draw_parts(ctx));
        for (std::size_t i = 0; i < ntags; i++)
            tagsets.push_back(i && ctx.coin() ? vary(ctx, tagsets[ctx.below(i)]) : i ? draw_tags(ctx) : Tags());
        while (some.size() < nkinds)
        {
            auto k = ctx.below(kinds().size());
            if (!numeric || kinds()[k]->numeric)
                some.push_back(k);
        }
    }

    Kind& kind(std::size_t k) { return *kinds()[k]; }

    template<typename F>
    bool expect_mismatch(const Registered* existing, std::size_t k, const F& f)
    {
        bool mismatch = existing && kind(existing->kind).group != kind(k).group;
        try
        {
            f();
        }
        catch (const metric_type_mismatch& e)
        {
            CHECK_THAT(ctx, mismatch, "a request for the kind the path holds (", kind(k).name, ") fails as a mismatch");
            const std::exception& plain = e;
            CHECK_THAT(ctx, plain.what() && *plain.what(), "a mismatch says nothing");
            CHECK_EQ(ctx, e.existing_metric_type(), kind(existing->kind).type(), "existing type");
            CHECK_EQ(ctx, e.desired_metric_type(), kind(k).type(), "desired type");
            ++mismatches;
            return true;
        }
        CHECK_THAT(ctx, !mismatch, "a request for ", kind(k).name, " succeeds at a path of ", existing ? kind(existing->kind).name : "");
        return false;
    }

    // asks for a metric as someone would; the outcome must be the model's
    void request(const Parts& p, const Tags& asked, std::size_t k)
    {
        auto t = treated(asked);
        auto variant = ctx.range(0, 40);
        auto m = model.find(p);
        auto existing = m == model.end() ? nullptr : &m->second;
        TRACE(ctx, "request ", kind(k).name, " at ", show(p), " ", show(asked), ", variant ", variant);
        HandlePtr h;
        auto mp = path(ctx, p);
        auto mt = tags(ctx, asked);
        if (expect_mismatch(existing, k, [&] { h = kind(k).request(reg, mp, mt, variant, cells); }))
            return;
        CHECK_THAT(ctx, h->id() != nullptr, "a request yields a metric");
        if (existing && existing->by_tags.count(t))
        {
            auto& i = existing->by_tags[t];
            CHECK_THAT(ctx, h->id() == i.id, "a later request for ", kind(k).name, " yields another instance");
            CHECK_EQ(ctx, h->type(), kind(k).type(), "type of the instance");
            ++hits;
            check(p, t);
            return;
        }
        for (auto& e : model)
            for (auto& i : e.second.by_tags)
                CHECK_THAT(ctx, h->id() != i.second.id, "the new metric is also at ", show(e.first), " ", show(i.first));
        add(p, t, k, h, kind(k).create(variant, cells));
    }

    void add(const Parts& p, const Tags& t, std::size_t k, HandlePtr h, HandlePtr twin)
    {
        if (!model.count(p))
            model[p].kind = k;
        auto id = h->id();
        model[p].by_tags[t] = Instance{h, twin, k, id};
        ++created;
        check(p, t);
        if (ctx.chance(1, 4))
            let_go(model[p].by_tags[t]);
    }

    // nobody but the registry has it from here on
    void let_go(Instance& i)
    {
        TRACE(ctx, "let go of the ", kind(i.kind).name);
        i.real->hold(false);
        ++unheld;
    }

    // registers an object made elsewhere
    void register_existing(const Parts& p, const Tags& asked, std::size_t k)
    {
        auto t = treated(asked);
        auto variant = ctx.range(0, 40);
        auto m = model.find(p);
        auto existing = m == model.end() ? nullptr : &m->second;
        auto mp = path(ctx, p);
        auto mt = tags(ctx, asked);
        if (ctx.chance(1, 12))
        {
            TRACE(ctx, "register a null ", kind(k).name, " at ", show(p), " ", show(t));
            bool r = true;
            try
            {
                r = kind(k).register_null(reg, mp, mt);
            }
            catch (const metric_type_mismatch&)
            {
                CHECK_THAT(ctx, existing && kind(existing->kind).group != kind(k).group, "registering nothing fails as a mismatch");
                return;
            }
            CHECK_EQ(ctx, r, false, "registering nothing");
            return;
        }
        if (ctx.chance(1, 5))
            if (auto i = any())
                return register_again(p, t, *i);
        auto h = kind(k).create(variant, cells), twin = kind(k).create(variant, cells);
        auto n = ctx.below(4);
        for (std::size_t i = 0; i < n; i++)
        {
            auto op = kind(k).draw(ctx);
            h->apply(op);
            twin->apply(op);
        }
        TRACE(ctx, "register an existing ", kind(k).name, " at ", show(p), " ", show(asked), ", variant ", variant, ", ", n, " operations old");
        bool result = false;
        auto uses = h->uses();
        if (expect_mismatch(existing, k, [&] { result = kind(k).register_existing(reg, mp, mt, h); }))
        {
            CHECK_EQ(ctx, h->uses(), uses, "references to an object that wasn't registered");
            return;
        }
        bool taken = existing && existing->by_tags.count(t);
        CHECK_EQ(ctx, result, !taken, "register_existing in a ", taken ? "taken" : "free", " slot");
        if (taken)
        {
            CHECK_EQ(ctx, h->uses(), uses, "references to an object that wasn't registered");
            CHECK_THAT(ctx, h->seen().same(twin->seen()), "an object that wasn't registered changed");
            ++hits;
            check(p, t);
        }
        else
        {
            add(p, t, k, h, twin);
            // and that very object is found from now on
            CHECK_THAT(ctx, kind(k).request(reg, path(ctx, p), tags(ctx, asked), 3, cells)->id() == h->id(), "the object registered is not the one found");
        }
    }

    // registers an object the registry already holds, in its own slot or in another's
    void register_again(Parts p, Tags t, Instance& i)
    {
        auto own = ctx.coin();
        for (auto& e : model)
            for (auto& x : e.second.by_tags)
                if (own && &x.second == &i)
                {
                    p = e.first;
                    t = x.first;
                }
        auto m = model.find(p);
        if (m == model.end() || !m->second.by_tags.count(t))
            return; // one object in two slots is nothing that is specified
        auto before = m->second.by_tags.size();
        TRACE(ctx, "register the ", kind(i.kind).name, " again, at ", show(p), " ", show(t));
        auto uses = i.real->uses();
        bool result = false;
        if (!expect_mismatch(&m->second, i.kind, [&] { result = kind(i.kind).register_existing(reg, path(ctx, p), tags(ctx, t), i.real); }))
            CHECK_EQ(ctx, result, false, "register_existing with an object the registry holds, in a taken slot");
        CHECK_EQ(ctx, i.real->uses(), uses, "references to an object that wasn't registered again");
        CHECK_EQ(ctx, m->second.by_tags.size(), before, "metrics at the path");
        ++hits;
        check(p, t);
    }

    void operate(Instance& i)
    {
        auto op = kind(i.kind).draw(ctx);
        if (i.real->updates + 1 >= kind(i.kind).limit())
            return;
        TRACE(ctx, kind(i.kind).name, ": operation ", op.kind, "(", op.a, ")");
        i.real->apply(op);
        i.twin->apply(op);
        if (!ctx.chance(1, 4))
            return;
        if (i.real->held())
            return let_go(i);
        TRACE(ctx, "hold the ", kind(i.kind).name, " again");
        i.real->hold(true);
    }

    void check(const Parts& p, const Tags& t)
    {
        auto& i = model[p].by_tags[t];
        auto got = i.real->seen(), want = i.twin->seen();
        CHECK_THAT(ctx, got.same(want), kind(i.kind).name, " at ", show(p), " ", show(t), " shows ", got, " instead of ", want);
    }
    void check_all()
    {
        for (auto& e : model)
            for (auto& i : e.second.by_tags)
                check(e.first, i.first);
    }

    Instance* any()
    {
        if (model.empty())
            return nullptr;
        auto m = model.begin();
        std::advance(m, static_cast<long>(ctx.below(model.size())));
        if (m->second.by_tags.empty())
            return nullptr;
        auto i = m->second.by_tags.begin();
        std::advance(i, static_cast<long>(ctx.below(m->second.by_tags.size())));
        return &i->second;
    }
    Parts any_path() { return paths[ctx.below(paths.size())]; }
    Tags any_tags() { return tagsets[ctx.below(tagsets.size())]; }
    std::size_t any_kind() { return some[ctx.below(some.size())]; }

    // the registry ends; what others hold stays
    void drop()
    {
        TRACE(ctx, "the registry is destroyed");
        owned.reset();
        model.clear();
    }

    // the whole registry is what the model says
    void check_contents()
    {
        std::map<Parts, int> visited;
        reg.visit_registered_metrics([&](const metric_path& mp, basic_registered_metric& m) {
            Parts p(mp.begin(), mp.end());
            auto f = model.find(p);
            CHECK_THAT(ctx, f != model.end(), "visited at ", show(p), ", where nothing was registered");
            CHECK_EQ(ctx, ++visited[p], 1, "visits of ", show(p));
            CHECK_EQ(ctx, m.type(), kind(f->second.kind).type(), "type of ", show(p));
            std::set<Tags> seen_tags;
            m.visit(All{*this, p, seen_tags});
            CHECK_EQ(ctx, seen_tags.size(), f->second.by_tags.size(), "tag sets visited at ", show(p));
        });
        CHECK_EQ(ctx, visited.size(), model.size(), "paths visited");
    }
};

inline void All::check(const tag_collection& c, const Seen& got) const
{
    auto& m = w.model[p].by_tags;
    auto f = std::find_if(m.begin(), m.end(), [&](const auto& e) { return same(c, e.first); });
    CHECK_THAT(w.ctx, f != m.end(), "visited with tags that were never registered at ", show(p));
    CHECK_THAT(w.ctx, tags.insert(f->first).second, show(f->first), " at ", show(p), " is visited twice");
    auto want = f->second.twin->seen();
    CHECK_THAT(w.ctx, got.same(want), w.kind(f->second.kind).name, " at ", show(p), " ", show(f->first), " is visited as ", got, " instead of ", want);
}

}

#endif
