// C20: gauges follow their source and combine as declared
#include "snap.hpp"
#include <cxxmetrics/metrics_registry.hpp>

PROPERTY("C20", "A case is a history of source changes, sets, copies, moves, assignments, readings, snapshots and aggregations over several gauges of one kind and their sources; non-trivial when a value changed after a gauge was made or copied and was read again.")

using namespace cxxmetrics;
using gauges::aggregation_average;
using gauges::aggregation_sum;

template<typename T, typename = void>
struct Val;
template<typename T>
struct Val<T, typename std::enable_if<std::is_integral<T>::value>::type>
{
    static T draw(pbt::Ctx& ctx) { return ctx.integer<T>(); }
    static T small(pbt::Ctx& ctx) { return std::is_signed<T>::value ? static_cast<T>(ctx.range(-100, 100)) : static_cast<T>(ctx.range(0, 100)); }
    static constexpr bool numeric = true;
};
template<typename T>
struct Val<T, typename std::enable_if<std::is_floating_point<T>::value>::type>
{
    static T draw(pbt::Ctx& ctx) { return ctx.real<T>(); }
    static T small(pbt::Ctx& ctx) { return static_cast<T>(ctx.range(-1000, 1000)) / 8; }
    static constexpr bool numeric = true;
};
template<>
struct Val<std::string, void>
{
    static std::string draw(pbt::Ctx& ctx)
    {
        std::string s;
        auto n = ctx.below(40);
        for (std::size_t i = 0; i < n; i++)
            s += static_cast<char>(ctx.chance(1, 8) ? ctx.below(256) : 'a' + ctx.below(4));
        return s;
    }
    static std::string small(pbt::Ctx& ctx) { return draw(ctx); }
    static constexpr bool numeric = false;
};
template<typename R, typename P>
struct Val<std::chrono::duration<R, P>, void>
{
    using D = std::chrono::duration<R, P>;
    static D draw(pbt::Ctx& ctx) { return D(ctx.range(-1000000000000ll, 1000000000000ll)); }
    static D small(pbt::Ctx& ctx) { return D(ctx.range(-100, 100)); }
    static constexpr bool numeric = false;
};

static const char* kind_of(const cumulative_value_snapshot&) { return "sum"; }
static const char* kind_of(const average_value_snapshot&) { return "average"; }

// a source is one of several cells
template<typename T>
struct Cells
{
    std::vector<T> v;
    Cells() { v.reserve(16); }
};

struct Settable { };
struct Function { };
struct Pointer { };
struct Reference { };

template<typename T, typename S, gauges::gauge_aggregation_type A>
struct Make;
template<typename T, gauges::gauge_aggregation_type A>
struct Make<T, Settable, A>
{
    using G = gauge<T, A>;
    static constexpr bool settable = true, movable = true;
    static G* make(T& v) { return new G(v); }
    template<typename Reg>
    static std::shared_ptr<G> in(Reg& r, const metric_path& p, T& v, const tag_collection& t) { return r.template gauge<T, A>(p, T(v), t); }
};
template<typename T, gauges::gauge_aggregation_type A>
struct Make<T, Function, A>
{
    using F = std::function<T()>;
    using G = gauge<F, A>;
    static constexpr bool settable = false, movable = true;
    static F fn(T& v) { auto p = &v; return [p] { return *p; }; }
    static G* make(T& v)
    {
        if (reinterpret_cast<uintptr_t>(&v) & 16)
            return new G(fn(v));
        auto f = fn(v);
        return new G(f);
    }
    template<typename Reg>
    static std::shared_ptr<G> in(Reg& r, const metric_path& p, T& v, const tag_collection& t) { return r.template gauge<F, A>(p, fn(v), t); }
};
template<typename T, gauges::gauge_aggregation_type A>
struct Make<T, Pointer, A>
{
    using G = gauge<T*, A>;
    static constexpr bool settable = false, movable = false;
    static G* make(T& v) { return new G(&v); }
    template<typename Reg>
    static std::shared_ptr<G> in(Reg& r, const metric_path& p, T& v, const tag_collection& t) { return r.template gauge<T*, A>(p, &v, t); }
};
template<typename T, gauges::gauge_aggregation_type A>
struct Make<T, Reference, A>
{
    using G = gauge<T&, A>;
    static constexpr bool settable = false, movable = false;
    static G* make(T& v) { return new G(v); }
    template<typename Reg>
    static std::shared_ptr<G> in(Reg& r, const metric_path& p, T& v, const tag_collection& t) { return r.template gauge<T&, A>(p, v, t); }
};

template<typename G, typename T>
static void set_it(G& g, const T& v, int how, std::true_type)
{
    if (how)
        g.set(v);
    else
        g = v;
}
template<typename G, typename T>
static void set_it(G&, const T&, int, std::false_type) { }
template<typename G>
static void move_assign(G& a, G& b, std::true_type) { a = std::move(b); }
template<typename G>
static void move_assign(G&, G&, std::false_type) { }
template<typename G>
static G* move_make(G& b, std::true_type) { return new G(std::move(b)); }
template<typename G>
static G* move_make(G&, std::false_type) { return nullptr; }

template<typename T, typename S, gauges::gauge_aggregation_type A>
static void history(pbt::Ctx& ctx)
{
    using M = Make<T, S, A>;
    using G = typename M::G;
    using Settable_ = std::integral_constant<bool, M::settable>;
    using Movable = std::integral_constant<bool, M::movable>;
    const char* want_kind = A == aggregation_sum ? "sum" : "average";

    std::deque<T> cells; // stay where they are
    auto ncells = 1 + ctx.below(4);
    for (std::size_t i = 0; i < ncells; i++)
    {
        cells.push_back(Val<T>::draw(ctx));
        TRACE(ctx, "cell ", i, " = ", cells.back());
    }
    struct Obj
    {
        std::unique_ptr<G> g;
        T own;            // settable gauges
        std::size_t cell; // the others
        bool gone;        // moved from: unspecified until assigned
        bool changed;
    };
    std::vector<Obj> objs;
    auto value = [&](const Obj& o) { return M::settable ? o.own : cells[o.cell]; };
    auto make = [&] {
        auto c = ctx.below(ncells);
        TRACE(ctx, "g", objs.size(), " = gauge of cell ", c);
        Obj o{nullptr, cells[c], c, false, false};
        o.g.reset(M::make(cells[c]));
        objs.push_back(std::move(o));
    };
    struct Old { decltype(std::declval<const G&>().snapshot()) s; T v; };
    std::vector<Old> old;
    auto check = [&](std::size_t i, const char* what) {
        auto& o = objs[i];
        if (o.gone)
            return;
        auto want = value(o);
        const G& c = *o.g;
        CHECK_EQ(ctx, o.g->get(), want, what, ": get() of g", i);
        CHECK_EQ(ctx, c.get(), want, what, ": read-only get() of g", i);
        auto s = c.snapshot();
        CHECK_THAT(ctx, !strcmp(kind_of(s), want_kind), what, ": the snapshot of g", i, " combines as ", kind_of(s));
        CHECK_EQ(ctx, snap::plain<T>(s.value()), want, what, ": snapshot of g", i);
        ctx.nontrivial(o.changed);
    };
    make();
    auto steps = 1 + ctx.size(40);
    for (std::size_t k = 0; k < steps; k++)
    {
        auto i = ctx.below(objs.size());
        auto& o = objs[i];
        switch (ctx.below(9))
        {
            case 0: case 1: // the source changes
            {
                auto c = ctx.below(ncells);
                cells[c] = Val<T>::draw(ctx);
                TRACE(ctx, "cell ", c, " = ", cells[c]);
                if (!M::settable)
                    for (auto& x : objs)
                        x.changed = x.changed || x.cell == c;
                break;
            }
            case 2: case 3:
                if (M::settable)
                {
                    T v = Val<T>::draw(ctx);
                    auto how = static_cast<int>(ctx.below(2));
                    TRACE(ctx, "g", i, how ? ".set(" : " = (", v, ")");
                    set_it(*o.g, v, how, Settable_{});
                    o.own = v;
                    o.changed = true;
                    o.gone = false;
                }
                break;
            case 4: // copy
                if (objs.size() < 5 && !o.gone)
                {
                    TRACE(ctx, "g", objs.size(), " = copy of g", i);
                    Obj n{std::unique_ptr<G>(new G(static_cast<const G&>(*o.g))), o.own, o.cell, false, false};
                    objs.push_back(std::move(n));
                }
                else
                    make();
                break;
            case 5: // assignment, maybe to itself
            {
                auto j = ctx.below(objs.size());
                if (o.gone)
                    break;
                TRACE(ctx, "g", j, " = g", i);
                auto& r = (*objs[j].g = static_cast<const G&>(*o.g));
                CHECK_THAT(ctx, &r == objs[j].g.get(), "an assignment yields its object");
                objs[j].own = o.own;
                objs[j].cell = o.cell;
                objs[j].gone = false;
                objs[j].changed = true;
                break;
            }
            case 6: // moves
            {
                if (!M::movable || o.gone)
                    break;
                auto j = ctx.below(objs.size() + 1);
                if (j == i)
                    break;
                TRACE(ctx, "g", j, " = move(g", i, ")");
                o.gone = true;
                if (j == objs.size())
                {
                    Obj n{std::unique_ptr<G>(move_make(*o.g, Movable{})), o.own, o.cell, false, true};
                    objs.push_back(std::move(n));
                }
                else
                {
                    move_assign(*objs[j].g, *o.g, Movable{});
                    objs[j].own = o.own;
                    objs[j].cell = o.cell;
                    objs[j].gone = false;
                    objs[j].changed = true;
                }
                break;
            }
            case 7: // a snapshot to look at later
                if (!o.gone && old.size() < 6)
                {
                    TRACE(ctx, "keep a snapshot of g", i);
                    old.push_back(Old{static_cast<const G&>(*o.g).snapshot(), value(o)});
                }
                break;
            default:
                check(i, "later");
        }
        for (std::size_t x = 0; x < objs.size(); x++)
            check(x, "after the step");
    }
    for (auto& s : old)
        CHECK_EQ(ctx, snap::plain<T>(s.s.value()), s.v, "a snapshot taken earlier");
}

// combining over tag sets
template<typename T, typename S, gauges::gauge_aggregation_type A>
static void combining(pbt::Ctx& ctx)
{
    using M = Make<T, S, A>;
    using G = typename M::G;
    using Settable_ = std::integral_constant<bool, M::settable>;
    metrics_registry<> reg;
    std::deque<T> cells;
    std::vector<std::shared_ptr<G>> gs;
    auto n = 1 + ctx.size(24);
    for (std::size_t i = 0; i < n; i++)
    {
        cells.push_back(Val<T>::small(ctx));
        TRACE(ctx, "gauge ", i, " holds ", cells.back());
        tag_collection t;
        if (i)
            t = tag_collection{{"i", static_cast<int>(i)}};
        if (ctx.chance(1, 4))
        {
            gs.emplace_back(M::make(cells.back()));
            CHECK_THAT(ctx, reg.register_existing(metric_path("g"), gs.back(), t), "registers an existing gauge");
        }
        else
            gs.push_back(M::in(reg, metric_path("g"), cells.back(), t));
    }
    auto rounds = 1 + ctx.below(4);
    for (std::size_t r = 0; r < rounds; r++)
    {
        auto changes = ctx.below(n + 1);
        for (std::size_t k = 0; k < changes; k++)
        {
            auto i = ctx.below(n);
            cells[i] = Val<T>::small(ctx);
            TRACE(ctx, "gauge ", i, " changes to ", cells[i]);
            set_it(*gs[i], cells[i], static_cast<int>(ctx.below(2)), Settable_{});
        }
        long double sum = 0, abs = 0;
        for (auto& c : cells)
        {
            sum += c;
            abs += std::fabs(static_cast<long double>(c));
        }
        long double want = A == aggregation_sum ? sum : sum / n;
        int calls = 0;
        long double got = 0;
        std::string kind;
        struct Handler
        {
            int& calls;
            long double& got;
            std::string& kind;
            void operator()(const cumulative_value_snapshot& s) { ++calls; got = static_cast<long double>(s.value()); kind = "sum"; }
            void operator()(const average_value_snapshot& s) { ++calls; got = static_cast<long double>(s.value()); kind = "average"; }
        };
        reg.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.aggregate(Handler{calls, got, kind}); });
        TRACE(ctx, "aggregated: ", got);
        CHECK_EQ(ctx, calls, 1, "calls of the handler");
        CHECK_EQ(ctx, kind, std::string(A == aggregation_sum ? "sum" : "average"), "kind of the aggregated snapshot");
        auto tol = std::is_floating_point<T>::value && A == aggregation_sum ? (sizeof(T) == 4 ? 1e-5l : 1e-13l) : 1e-9l;
        CHECK_THAT(ctx, std::fabs(got - want) <= tol * (abs + 1), "aggregated ", got, " instead of ", want);
        ctx.nontrivial(changes && n > 1);
        for (std::size_t i = 0; i < n; i++)
            CHECK_EQ(ctx, gs[i]->get(), cells[i], "aggregation left the gauge as it was: gauge ", i);
    }
}

using fn = std::chrono::nanoseconds;
using std::string;
#define BOTH(name, T, S) \
    FACET_AS(name##_average, 20000, 400000, (history<T, S, aggregation_average>)); \
    FACET_AS(name##_sum, 20000, 400000, (history<T, S, aggregation_sum>))
BOTH(settable_int64, int64_t, Settable);
BOTH(settable_uint16, uint16_t, Settable);
BOTH(settable_double, double, Settable);
BOTH(settable_string, string, Settable);
FACET_AS(settable_duration, 20000, 400000, (history<fn, Settable, aggregation_average>));
BOTH(function_int64, int64_t, Function);
BOTH(function_double, double, Function);
FACET_AS(function_string, 20000, 400000, (history<string, Function, aggregation_average>));
BOTH(pointer_int64, int64_t, Pointer);
FACET_AS(pointer_double, 20000, 400000, (history<double, Pointer, aggregation_sum>));
BOTH(reference_int64, int64_t, Reference);
FACET_AS(reference_string, 20000, 400000, (history<string, Reference, aggregation_average>));
#define COMBINE(name, T, S) \
    FACET_AS(name##_combined_average, 10000, 200000, (combining<T, S, aggregation_average>)); \
    FACET_AS(name##_combined_sum, 10000, 200000, (combining<T, S, aggregation_sum>))
COMBINE(settable_int64, int64_t, Settable);
COMBINE(settable_int32, int32_t, Settable);
COMBINE(settable_double, double, Settable);
COMBINE(function_int64, int64_t, Function);
COMBINE(function_float, float, Function);
COMBINE(pointer_int64, int64_t, Pointer);
COMBINE(reference_double, double, Reference);

PBT_MAIN
