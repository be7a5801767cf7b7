// C05: enumeration visits every registered metric exactly once
#include "regs.hpp"

PROPERTY("C05", "A case is a registry filled by a history of requests and operations and visited with handlers of drawn shapes, some of them throwing, or one with very many tag sets; non-trivial when at least two paths or three tag sets were visited.")

using namespace regs;

using C = cumulative_value_snapshot;
using A = average_value_snapshot;
using M = meter_snapshot;
using H = histogram_snapshot;
using T = timer_snapshot;
using V = value_snapshot;

// -- handlers that only take some snapshots
static Seen view_value(const value_snapshot& v)
{
    Seen s;
    s.text("value");
    see_value(s, v.value());
    return s;
}
struct Call
{
    const tag_collection* tags;
    Seen seen;
};
struct Log
{
    std::vector<std::pair<Tags, Seen>> calls; // tags as the model knows them
    World* w = nullptr;
    const Parts* p = nullptr;
    std::size_t throw_at = ~std::size_t(0);
    void add(const tag_collection& c, Seen s);
};
struct Thrown { int code; };
inline void Log::add(const tag_collection& c, Seen s)
{
    if (calls.size() == throw_at)
        throw Thrown{42};
    for (auto& e : w->model[*p].by_tags)
        if (same(c, e.first))
        {
            calls.emplace_back(e.first, std::move(s));
            return;
        }
    w->ctx.fail("visited with tags that were never registered at " + show(*p));
}

using Token = std::shared_ptr<int>;

// handlers of other forms
struct Returning // a reference
{
    Log* log;
    Token token;
    Log& operator()(const tag_collection& c, const C& s) const { log->add(c, view(s)); return *log; }
    const std::string& operator()(const tag_collection& c, const A& s) const { static std::string text; log->add(c, view(s)); return text; }
    std::unique_ptr<int> operator()(const tag_collection& c, const M& s) const { log->add(c, view(s)); return nullptr; }
    int&& operator()(const tag_collection& c, const H& s) const { static int number; log->add(c, view(s)); return std::move(number); }
    Log* operator()(const tag_collection& c, const T& s) const { log->add(c, view(s)); return log; }
};
struct Counting // and changing
{
    Log* log;
    Token token;
    std::size_t calls;
    Counting(Log* l, Token t) : log(l), token(std::move(t)), calls(l->calls.size()) { }
    template<typename S>
    std::size_t& operator()(const tag_collection& c, const S& s)
    {
        if (calls++ != log->calls.size())
            log->w->ctx.fail("a handler doesn't keep its state");
        log->add(c, view(s));
        return calls;
    }
};
inline Log*& the_log_() { static Log* v; return v; }
#define the_log the_log_()
static Log& function(const tag_collection& c, const H& s)
{
    the_log->add(c, view(s));
    return *the_log;
}
template<typename S> Seen view_as(const S& s) { return view(s); }
inline Seen view_as(const value_snapshot& s) { return view_value(s); }

template<typename... S>
struct Shape;
template<typename S>
struct Shape<S>
{
    Log* log;
    Token token;
    Shape(Log* l, Token t) : log(l), token(std::move(t)) { }
    void operator()(const tag_collection& c, const S& s) const { log->add(c, view_as(s)); }
};
template<typename S, typename T, typename... R>
struct Shape<S, T, R...> : Shape<T, R...>
{
    using Shape<T, R...>::Shape;
    using Shape<T, R...>::operator();
    void operator()(const tag_collection& c, const S& s) const { this->log->add(c, view_as(s)); }
};
// what a handler with these overloads is called with
struct Expect : Receiver
{
    const char* has;
    bool called = false;
    Seen seen;
    explicit Expect(const char* has) : has(has) { }
    bool in(char c) const { return strchr(has, c) != nullptr; }
    void set(Seen s)
    {
        called = true;
        seen = std::move(s);
    }
    void got(const C& s) override { if (in('C')) set(view(s)); else if (in('V')) set(view_value(s)); }
    void got(const A& s) override { if (in('A')) set(view(s)); else if (in('V')) set(view_value(s)); }
    void got(const M& s) override { if (in('M')) set(view(s)); else got(static_cast<const A&>(s)); }
    void got(const H& s) override { if (in('H')) set(view(s)); }
    void got(const T& s) override
    {
        if (in('T'))
            set(view(s));
        else if (in('H'))
            set(view(static_cast<const H&>(s)));
        else
            got(s.rate());
    }
};

static void visit_lambda(basic_registered_metric& m, Log* log, Token token)
{
    m.visit([log, token](const tag_collection& c, const auto& s) { log->add(c, view(s)); });
}
template<typename Sh>
static void visit_shape(pbt::Ctx& ctx, basic_registered_metric& m, Log* log, Token token)
{
    switch (ctx.below(3))
    {
        case 0:
            m.visit(Sh(log, token));
            break;
        case 1:
        {
            Sh s(log, token);
            m.visit(s);
            break;
        }
        default:
        {
            const Sh s(log, token);
            m.visit(s);
        }
    }
}

template<typename Handler>
static void visit_handler(pbt::Ctx& ctx, basic_registered_metric& m, Log* log, Token token)
{
    Handler h{log, std::move(token)};
    switch (ctx.below(3))
    {
        case 0: m.visit(std::move(h)); break;
        case 1: m.visit(h); break;
        default: m.visit(std::ref(h));
    }
}
static void visit_function(pbt::Ctx& ctx, basic_registered_metric& m, Log* log, Token)
{
    the_log = log;
    switch (ctx.below(3))
    {
        case 0: m.visit(function); break;
        case 1: m.visit(&function); break;
        default: m.visit(std::function<Log&(const tag_collection&, const H&)>(function));
    }
}

struct AnyShape
{
    const char* has;
    void (*visit)(pbt::Ctx&, basic_registered_metric&, Log*, Token);
};
static const AnyShape shapes[] = {
    {"CAMHT", [](pbt::Ctx&, basic_registered_metric& m, Log* l, Token t) { visit_lambda(m, l, t); }},
    {"C", visit_shape<Shape<C>>},
    {"A", visit_shape<Shape<A>>},
    {"M", visit_shape<Shape<M>>},
    {"H", visit_shape<Shape<H>>},
    {"T", visit_shape<Shape<T>>},
    {"V", visit_shape<Shape<V>>},
    {"CA", visit_shape<Shape<C, A>>},
    {"HM", visit_shape<Shape<H, M>>},
    {"TH", visit_shape<Shape<T, H>>},
    {"MT", visit_shape<Shape<M, T>>},
    {"AM", visit_shape<Shape<A, M>>},
    {"VH", visit_shape<Shape<V, H>>},
    {"CAMH", visit_shape<Shape<C, A, M, H>>},
    {"CAMHT", visit_shape<Shape<C, A, M, H, T>>},
    {"CAMHT", visit_handler<Returning>},
    {"CAMHT", visit_handler<Counting>},
    {"H", visit_function},
    {"CVT", visit_shape<Shape<C, V, T>>},
};

static void fill(World& w, std::size_t steps)
{
    auto& ctx = w.ctx;
    for (std::size_t i = 0; i < steps; i++)
        switch (ctx.below(6))
        {
            case 0: case 1: w.request(w.any_path(), w.any_tags(), w.any_kind()); break;
            case 2: w.register_existing(w.any_path(), w.any_tags(), w.any_kind()); break;
            case 3: case 4:
                if (auto x = w.any())
                    w.operate(*x);
                break;
            default: vclock::advance(subj::step(ctx));
        }
}
static std::size_t size(const World& w)
{
    std::size_t n = 0;
    for (auto& e : w.model)
        n += e.second.by_tags.size();
    return n;
}

static void visit_with(World& w, const AnyShape& shape)
{
    auto& ctx = w.ctx;
    TRACE(ctx, "visit with a handler for ", shape.has);
    std::size_t paths = 0;
    w.reg.visit_registered_metrics([&](const metric_path& mp, basic_registered_metric& m) {
        ++paths;
        Parts p(mp.begin(), mp.end());
        CHECK_THAT(ctx, w.model.count(p), "visited at ", show(p), ", where nothing was registered");
        Log log;
        log.w = &w;
        log.p = &p;
        auto token = std::make_shared<int>(1);
        shape.visit(ctx, m, &log, token);
        CHECK_EQ(ctx, token.use_count(), 1, "copies of the handler left behind");
        auto& reg = w.model[p];
        std::size_t expected = 0;
        for (auto& i : reg.by_tags)
        {
            Expect e(shape.has);
            i.second.twin->snapshot(e);
            auto calls = std::count_if(log.calls.begin(), log.calls.end(), [&](const auto& c) { return c.first == i.first; });
            CHECK_EQ(ctx, static_cast<int>(calls), e.called ? 1 : 0, "calls of a handler for ", shape.has, " for ", w.kind(reg.kind).name, " at ", show(p), " ", show(i.first));
            if (!e.called)
                continue;
            ++expected;
            for (auto& c : log.calls)
                if (c.first == i.first)
                    CHECK_THAT(ctx, c.second.same(e.seen), "a handler for ", shape.has, " sees ", w.kind(reg.kind).name, " at ", show(p), " ", show(i.first), " as ", c.second, " instead of ", e.seen);
        }
        CHECK_EQ(ctx, log.calls.size(), expected, "calls");
    });
    CHECK_EQ(ctx, paths, w.model.size(), "paths visited");
}

FACET(contents, 12000, 300000)
{
    World w(ctx, 1 + ctx.size(12), 1 + ctx.size(8), 1 + ctx.below(8));
    auto rounds = 1 + ctx.below(3);
    for (std::size_t r = 0; r < rounds; r++)
    {
        fill(w, ctx.size(40));
        w.check_contents();
    }
    ctx.nontrivial(w.model.size() >= 2 || size(w) >= 3);
}

FACET(handlers, 12000, 300000)
{
    World w(ctx, 1 + ctx.size(12), 1 + ctx.size(6), 1 + ctx.below(12));
    auto rounds = 1 + ctx.below(3);
    for (std::size_t r = 0; r < rounds; r++)
    {
        fill(w, ctx.size(40));
        visit_with(w, shapes[ctx.below(sizeof shapes / sizeof *shapes)]);
    }
    ctx.nontrivial(w.model.size() >= 2 || size(w) >= 3);
}

FACET(throwing, 12000, 300000)
{
    // reading a moving average may end its interval, and who knows what was read before a visit broke off
    World w(ctx, 1 + ctx.size(8), 1 + ctx.size(6), 0);
    auto way = ctx.below(3);
    for (std::size_t n = 1 + ctx.below(6); w.some.size() < n;)
    {
        auto k = ctx.below(kinds().size());
        auto averages = kinds()[k]->snapshots == 'M' || kinds()[k]->snapshots == 'T' || (k >= ewma_1min && k <= ewma_1min_int64);
        if (way == 0 || (!averages && kinds()[k]->numeric))
            w.some.push_back(k);
    }
    fill(w, 5 + ctx.size(30));
    auto rounds = 1 + ctx.below(3);
    for (std::size_t r = 0; r < rounds; r++)
    {
        auto at = ctx.below(6);
        TRACE(ctx, way == 0 ? "the visit of the registry throws at " : way == 1 ? "the visit of a metric throws at " : "an aggregation throws, path ", at);
        std::size_t n = 0;
        bool thrown = false, reached = false;
        auto token = std::make_shared<int>(1);
        try
        {
            w.reg.visit_registered_metrics([&, token](const metric_path& mp, basic_registered_metric& m) {
                Parts p(mp.begin(), mp.end());
                if (way == 0)
                {
                    if (n++ == at)
                    {
                        reached = true;
                        throw Thrown{42};
                    }
                }
                else if (way == 1)
                {
                    Log log;
                    log.w = &w;
                    log.p = &p;
                    log.throw_at = at;
                    reached = reached || w.model[p].by_tags.size() > at;
                    shapes[0].visit(ctx, m, &log, token);
                }
                else if (n++ == at)
                {
                    reached = true;
                    m.aggregate([token](const auto&) { throw Thrown{42}; });
                }
            });
        }
        catch (const Thrown& t)
        {
            thrown = t.code == 42;
        }
        CHECK_EQ(ctx, thrown, reached, "the exception of the handler comes through");
        CHECK_EQ(ctx, token.use_count(), 1, "copies of the handler left behind");
        fill(w, ctx.size(15));
        w.check_contents();
        ctx.nontrivial(thrown);
    }
}

// very many tag sets at one path
FACET(many, 60, 1200)
{
    Registry reg;
    auto n = 1 + (ctx.coin() ? ctx.below(2000) : ctx.below(40000));
    TRACE(ctx, n, " tag sets");
    auto twice = ctx.coin();
    for (std::size_t i = 0; i < n; i++)
    {
        tag_collection t{{"i", static_cast<int64_t>(i)}, {"constant", "x"}};
        if (i % 2)
            *reg.counter<int64_t>("many", t) += static_cast<int64_t>(i);
        else
            reg.counter<int64_t>("many", static_cast<int64_t>(i), t);
        if (twice && i % 16 == 0)
            reg.counter<int64_t>("many", 5, t);
    }
    std::vector<int> seen(n, 0);
    std::size_t paths = 0;
    reg.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) {
        ++paths;
        m.visit([&](const tag_collection& t, const cumulative_value_snapshot& s) {
            auto v = static_cast<int64_t>(s.value());
            CHECK_THAT(ctx, v >= 0 && static_cast<std::size_t>(v) < n, "a value that no metric has: ", v);
            ++seen[static_cast<std::size_t>(v)];
            CHECK_THAT(ctx, t == (tag_collection{{"constant", "x"}, {"i", v}}), "the tags belong to another value than ", v);
        });
    });
    CHECK_EQ(ctx, paths, std::size_t(1), "paths");
    for (std::size_t i = 0; i < n; i++)
        CHECK_EQ(ctx, seen[i], 1, "visits of number ", i);
    ctx.nontrivial(n >= 3);
    ctx.label(n > 10000, "more than 10000 tag sets");
}

// very many paths
FACET(many_paths, 60, 1200)
{
    Registry reg;
    auto n = 1 + (ctx.coin() ? ctx.below(2000) : ctx.below(20000));
    TRACE(ctx, n, " paths");
    for (std::size_t i = 0; i < n; i++)
        reg.gauge<int64_t>(metric_path("p") / std::to_string(i), static_cast<int64_t>(i));
    std::vector<int> seen(n, 0);
    reg.visit_registered_metrics([&](const metric_path& p, basic_registered_metric& m) {
        m.visit([&](const tag_collection& t, const average_value_snapshot& s) {
            auto v = static_cast<int64_t>(s.value());
            CHECK_THAT(ctx, v >= 0 && static_cast<std::size_t>(v) < n, "a value that no metric has: ", v);
            ++seen[static_cast<std::size_t>(v)];
            CHECK_THAT(ctx, p == metric_path("p") / std::to_string(v), "the path belongs to another value than ", v);
            CHECK_THAT(ctx, t == tag_collection(), "tags out of nowhere");
        });
    });
    for (std::size_t i = 0; i < n; i++)
        CHECK_EQ(ctx, seen[i], 1, "visits of number ", i);
    ctx.nontrivial(n >= 3);
}

PBT_MAIN
