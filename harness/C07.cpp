// C07: the registry is linearizable under concurrent use
#include "clock.hpp"
#include "sched.hpp"
#include <cxxmetrics/publisher_impl.hpp>
#include <cxxmetrics/simple_reservoir.hpp>

PROPERTY("C07", "A case is a registry, possibly with metrics in it, a small program of requests, registrations, visits, aggregations and publisher queries for each of 2-4 threads on few paths and tag sets, a drawn schedule at the granularity of single accesses to shared memory, and further requests afterwards; non-trivial when a thread was preempted and at least two threads changed the registry or one changed and another read it.")

using namespace cxxmetrics;
using Registry = metrics_registry<>;
constexpr period::value sec = 1000000, minute = 60 * sec;

template<int N>
struct Note : basic_publish_options
{
    int64_t by;
    explicit Note(int64_t by) : by(by) { }
};
constexpr int nnotes = 32;
// what publishers get to use
struct Publisher : metrics_publisher<default_repository>
{
    using base = metrics_publisher<default_repository>;
    explicit Publisher(Registry& r) : base(r) { }
    // by number
    using Yields = std::tuple<const void* (Publisher::*)(int64_t), const void* (Publisher::*)(const metric_path&, int64_t), bool (Publisher::*)(const metric_path&) const>;
    template<int N>
    const void* note(int64_t by) { return &get_data<Note<N>>(by); }
    template<int N>
    const void* note_for(const metric_path& p, int64_t by) { return get_data_for<Note<N>>(p, by); }
    template<int N>
    bool has_note(const metric_path& p) const { return has_data_for<Note<N>>(p); }
    template<int... N>
    static const Yields& table(int n, std::integer_sequence<int, N...>)
    {
        static const Yields t[] = {Yields(&Publisher::note<N>, &Publisher::note_for<N>, &Publisher::has_note<N>)...};
        return t[n];
    }
    static const Yields& of(int n) { return table(n, std::make_integer_sequence<int, nnotes>()); }
    bool has(const metric_path& p) const { return has_metric(p); }
    template<typename H>
    void one(const metric_path& p, H&& h) const { visit_one(p, std::forward<H>(h)); }
    template<typename H>
    void all(H&& h) const { visit_all(std::forward<H>(h)); }
};

// -- kinds of metrics
using Ptr = std::shared_ptr<internal::metric>;
struct Kind
{
    const char* name;
    bool counts;
    virtual Ptr request(Registry&, const metric_path&, const tag_collection&, int64_t) const = 0;
    virtual Ptr make(int64_t) const = 0;
    virtual bool add(Registry&, const metric_path&, const tag_collection&, const Ptr&) const = 0;
    virtual int64_t value(const Ptr&) const { return 0; }
    virtual void incr(const Ptr&, int64_t) const { }
    virtual std::string type() const = 0;
    Kind(const char* n, bool c) : name(n), counts(c) { }
    virtual ~Kind() = default;
};
template<typename M>
struct KindOf : Kind
{
    using Kind::Kind;
    bool add(Registry& r, const metric_path& p, const tag_collection& t, const Ptr& m) const override
    {
        return r.register_existing(p, std::static_pointer_cast<M>(m), t);
    }
    std::string type() const override { return make(0)->metric_type(); }
    using Kind::make;
};
template<typename T>
struct CounterKind : KindOf<counter<T>>
{
    using KindOf<counter<T>>::KindOf;
    Ptr request(Registry& r, const metric_path& p, const tag_collection& t, int64_t v) const override { return r.counter<T>(p, static_cast<T>(v), t); }
    Ptr make(int64_t v) const override { return std::make_shared<counter<T>>(static_cast<T>(v)); }
    int64_t value(const Ptr& p) const override { return std::static_pointer_cast<counter<T>>(p)->value(); }
    void incr(const Ptr& p, int64_t by) const override { *std::static_pointer_cast<counter<T>>(p) += static_cast<T>(by); }
};
struct GaugeKind : KindOf<gauge<int64_t, gauges::aggregation_sum>>
{
    using G = gauge<int64_t, gauges::aggregation_sum>;
    using KindOf::KindOf;
    Ptr request(Registry& r, const metric_path& p, const tag_collection& t, int64_t v) const override { return r.gauge<int64_t, gauges::aggregation_sum>(p, static_cast<int64_t>(v), t); }
    Ptr make(int64_t v) const override { return std::make_shared<G>(static_cast<int64_t>(v)); }
    int64_t value(const Ptr& p) const override { return std::static_pointer_cast<G>(p)->get(); }
};
struct MeterKind : KindOf<meter<sec, minute>>
{
    using KindOf::KindOf;
    Ptr request(Registry& r, const metric_path& p, const tag_collection& t, int64_t) const override { return r.meter<sec, minute>(p, t); }
    Ptr make(int64_t) const override { return std::make_shared<meter<sec, minute>>(); }
};
using R4 = simple_reservoir<int64_t, 4>;
struct HistogramKind : KindOf<histogram<int64_t, R4>>
{
    using KindOf::KindOf;
    Ptr request(Registry& r, const metric_path& p, const tag_collection& t, int64_t) const override { return r.histogram<R4>(p, R4(), t); }
    Ptr make(int64_t) const override { return std::make_shared<histogram<int64_t, R4>>(); }
};
using RT = simple_reservoir<std::chrono::steady_clock::duration, 2>;
struct TimerKind : KindOf<timer<sec, std::chrono::steady_clock, RT, minute>>
{
    using KindOf::KindOf;
    Ptr request(Registry& r, const metric_path& p, const tag_collection& t, int64_t) const override { return r.timer<sec, std::chrono::steady_clock, RT, minute>(p, RT(), t); }
    Ptr make(int64_t) const override { return std::make_shared<timer<sec, std::chrono::steady_clock, RT, minute>>(RT()); }
};

static const Kind& kind(std::size_t k)
{
    static CounterKind<int64_t> c64("counter<int64_t>", true);
    static CounterKind<int32_t> c32("counter<int32_t>", true);
    static GaugeKind g("gauge", true);
    static MeterKind m("meter", false);
    static HistogramKind h("histogram", false);
    static TimerKind t("timer", false);
    static const Kind* all[] = {&c64, &c32, &g, &m, &h, &t};
    return *all[k];
}
constexpr std::size_t nkinds = 6;

// -- what visits see
struct Thrown { };
struct Seen
{
    std::size_t path, tags;
    bool has_value;
    int64_t value;
};
struct Names
{
    std::vector<metric_path> paths;
    std::vector<tag_collection> tagsets;
    std::size_t path(const metric_path& p) const
    {
        for (std::size_t i = 0; i < paths.size(); i++)
            if (paths[i] == p)
                return i;
        return 99;
    }
    std::size_t tags(const tag_collection& t) const
    {
        for (std::size_t i = 0; i < tagsets.size(); i++)
            if (tagsets[i] == t)
                return i;
        return 99;
    }
};
struct Visitor
{
    const Names* names;
    std::size_t path;
    std::vector<Seen>* seen;
    std::size_t throw_after;
    void add(const tag_collection& t, bool has, int64_t v) const
    {
        sched::Quiet q;
        if (seen->size() >= throw_after)
            throw Thrown();
        seen->push_back({path, names->tags(t), has, v});
    }
    void operator()(const tag_collection& t, const cumulative_value_snapshot& s) const
    {
        int64_t v;
        {
            sched::Quiet q;
            v = static_cast<int64_t>(s.value());
        }
        add(t, true, v);
    }
    template<typename S>
    void operator()(const tag_collection& t, const S&) const { add(t, false, 0); }
};
struct Aggregator
{
    std::vector<Seen>* seen;
    std::size_t path;
    void operator()(const cumulative_value_snapshot& s) const
    {
        sched::Quiet q;
        seen->push_back({path, 0, true, static_cast<int64_t>(s.value())});
    }
    template<typename S>
    void operator()(const S&) const
    {
        sched::Quiet q;
        seen->push_back({path, 0, false, 0});
    }
};

// -- the registry as it may be
struct Slot
{
    const void* metric;
    int64_t initial;
    bool operator<(const Slot& o) const { return std::tie(metric, initial) < std::tie(o.metric, o.initial); }
};
struct State
{
    std::map<std::size_t, std::size_t> kinds;                       // by path
    std::map<std::pair<std::size_t, std::size_t>, Slot> slots;      // by path and tags
    std::map<std::pair<std::size_t, int>, const void*> notes;       // by path (or 100) and type
    bool operator<(const State& o) const { return std::tie(kinds, slots, notes) < std::tie(o.kinds, o.slots, o.notes); }
    bool uses(const void* m) const
    {
        for (auto& s : slots)
            if (s.second.metric == m)
                return true;
        return false;
    }
};
using Apply = std::function<bool(State&)>;
using Opn = sched::Op<State>;

enum What { ask, ask2, add, add2, all, one, aggregate, throwing, incr, has, note, note_has, options, repo_note, nwhats };
static const char* const whats[] = {"request", "request", "register", "register", "visit all", "visit one", "aggregate", "throwing visit", "increment", "has", "note for", "has note", "read the options", "note"};
struct Op
{
    int what;
    std::size_t path, tags, kind;
    int64_t v;
    int note;
};
struct Look // a visit or an aggregation
{
    uint64_t from, to;
    Op op;
    std::vector<Seen> seen;
    std::set<std::size_t> paths; // that were shown
    bool thrown, repeated;
};
struct Grown
{
    uint64_t from, to;
    const void* metric;
    int64_t by;
};
struct Came // a slot was asked for or taken
{
    uint64_t from, to;
    std::size_t path, tags;
    const void* metric;
    int64_t initial;
};

struct Case
{
    pbt::Ctx& ctx;
    Registry reg;
    Publisher pub;
    Names names;
    sched::History<State> h;
    std::vector<Look> looks;
    std::vector<Grown> grown;
    std::vector<Came> came;
    std::vector<Ptr> keep;
    std::map<const void*, std::size_t> kind_of;

    std::size_t notes, next_note = 0; // the first that is not there yet
    const cxxmetrics::publish_options* defaults;

    // with so many paths, tag sets and notes
    Case(pbt::Ctx& ctx, std::size_t nthreads, std::size_t np, std::size_t nt, std::size_t nn) : ctx(ctx), pub(reg), h(nthreads), notes(nn), defaults(&static_cast<const Registry&>(reg).publish_options())
    {
        static const char* const ps[] = {"a", "b/c", "d"};
        for (std::size_t i = 0; i < np; i++)
            names.paths.push_back(metric_path(i < 3 ? ps[i] : "p" + std::to_string(i)));
        for (std::size_t i = 0; i < nt; i++)
            names.tagsets.push_back(i == 0 ? tag_collection() : i == 1 ? tag_collection{{"k", "v"}} : tag_collection{{"k", static_cast<int>(i)}, {"l", "w"}});
    }

    Op draw(std::size_t n, std::size_t some)
    {
        Op o;
        o.what = static_cast<int>(ctx.below(nwhats));
        o.path = ctx.below(names.paths.size());
        o.tags = ctx.below(names.tagsets.size());
        o.kind = ctx.coin() ? 0 : ctx.below(some);
        o.v = int64_t(1) << (n % 28);
        o.note = static_cast<int>(next_note && ctx.coin() ? std::min(next_note + ctx.below(3), notes - 1) : ctx.below(notes));
        return o;
    }
    void put(std::size_t t, const char* what, uint64_t from, uint64_t to, Apply a)
    {
        h.threads[t].push_back(Opn{what, from, to, std::move(a)});
    }
    static Apply claims(std::size_t path, std::size_t k)
    {
        return [=](State& s) { return s.kinds.emplace(path, k).first->second == k; };
    }
    static Apply mismatches(std::size_t path, std::size_t k, const std::string& existing)
    {
        return [=](State& s) {
            auto f = s.kinds.find(path);
            return f != s.kinds.end() && f->second != k && kind(f->second).type() == existing;
        };
    }

    // does an operation and writes down how it turned out
    void perform(std::size_t t, const Op& o, std::vector<std::pair<Ptr, std::size_t>>& mine)
    {
        auto& path = names.paths[o.path];
        auto& tags = names.tagsets[o.tags];
        auto& k = kind(o.kind);
        auto from = sched::moment();
        switch (o.what)
        {
            case ask: case ask2:
            {
                try
                {
                    auto m = k.request(reg, path, tags, o.v);
                    auto to = sched::moment();
                    sched::Quiet q;
                    const void* p = m.get();
                    put(t, "request: the path", from, to, claims(o.path, o.kind));
                    put(t, "request: the metric", from, to, [=](State& s) {
                        auto at = std::make_pair(o.path, o.tags);
                        auto f = s.slots.find(at);
                        if (f != s.slots.end())
                            return f->second.metric == p;
                        if (s.uses(p))
                            return false;
                        s.slots[at] = Slot{p, o.v};
                        return true;
                    });
                    came.push_back({from, to, o.path, o.tags, p, o.v});
                    mine.emplace_back(m, o.kind);
                    keep.push_back(m);
                    kind_of[p] = o.kind;
                }
                catch (const metric_type_mismatch& e)
                {
                    auto to = sched::moment();
                    sched::Quiet q;
                    put(t, "mismatching request", from, to, mismatches(o.path, o.kind, e.existing_metric_type()));
                }
                break;
            }
            case add: case add2:
            {
                auto m = k.make(o.v);
                try
                {
                    bool r = k.add(reg, path, tags, m);
                    auto to = sched::moment();
                    sched::Quiet q;
                    const void* p = m.get();
                    put(t, "register: the path", from, to, claims(o.path, o.kind));
                    put(t, r ? "register: the metric" : "register: in vain", from, to, [=](State& s) {
                        auto at = std::make_pair(o.path, o.tags);
                        if (s.slots.count(at) == r)
                            return false;
                        if (r)
                            s.slots[at] = Slot{p, o.v};
                        return true;
                    });
                    if (r)
                    {
                        came.push_back({from, to, o.path, o.tags, p, o.v});
                        mine.emplace_back(m, o.kind);
                        kind_of[p] = o.kind;
                    }
                    keep.push_back(m);
                }
                catch (const metric_type_mismatch& e)
                {
                    auto to = sched::moment();
                    sched::Quiet q;
                    put(t, "mismatching registration", from, to, mismatches(o.path, o.kind, e.existing_metric_type()));
                }
                break;
            }
            case all: case one: case aggregate: case throwing:
            {
                Look l{from, 0, o, {}, {}, false, false};
                auto enter = [&](const metric_path& p) {
                    sched::Quiet q;
                    auto i = names.path(p);
                    l.repeated = l.repeated || !l.paths.insert(i).second;
                    return i;
                };
                auto visit = [&](const metric_path& p, basic_registered_metric& m) {
                    auto i = enter(p);
                    m.visit(Visitor{&names, i, &l.seen, o.what == throwing ? static_cast<std::size_t>(o.v % 3) : 1000});
                };
                try
                {
                    if (o.what == aggregate)
                        pub.one(path, [&](const metric_path& p, basic_registered_metric& m) {
                            auto i = enter(p);
                            m.aggregate(Aggregator{&l.seen, i});
                        });
                    else if (o.what == one)
                        pub.one(path, visit);
                    else if (o.v % 4 == 1)
                        pub.all(visit);
                    else
                        reg.visit_registered_metrics(visit);
                }
                catch (const Thrown&)
                {
                    l.thrown = true;
                }
                l.to = sched::moment();
                sched::Quiet q;
                looks.push_back(l);
                break;
            }
            case incr:
            {
                if (mine.empty())
                    break;
                auto& m = mine[static_cast<std::size_t>(o.v) % mine.size()];
                auto by = o.v << 28;
                if (m.second == 1)
                    by = 0;
                if (m.second < 2)
                    kind(m.second).incr(m.first, by);
                auto to = sched::moment();
                sched::Quiet q;
                if (m.second < 2)
                    grown.push_back({from, to, m.first.get(), by});
                break;
            }
            case has:
            {
                bool r = pub.has(path);
                auto to = sched::moment();
                sched::Quiet q;
                put(t, r ? "has" : "has not", from, to, [=](State& s) { return s.kinds.count(o.path) == r; });
                break;
            }
            case note:
            {
                auto at = std::make_pair(o.path, o.note);
                const void* p = (pub.*std::get<1>(Publisher::of(o.note)))(path, o.v);
                auto to = sched::moment();
                sched::Quiet q;
                put(t, p ? "has, for the note" : "has not, for the note", from, to, [=](State& s) { return s.kinds.count(o.path) == (p != nullptr); });
                if (p)
                    put(t, "note for", from, to, [=](State& s) { return s.notes.emplace(at, p).first->second == p; });
                break;
            }
            case note_has:
            {
                auto at = std::make_pair(o.path, o.note);
                bool r = (pub.*std::get<2>(Publisher::of(o.note)))(path);
                auto to = sched::moment();
                sched::Quiet q;
                put(t, r ? "has note" : "has no note", from, to, [=](State& s) { return s.notes.count(at) == r; });
                break;
            }
            case options: // none were set
            {
                auto p = &static_cast<const Registry&>(reg).publish_options();
                auto to = sched::moment();
                sched::Quiet q;
                put(t, "read the options", from, to, [=](State&) { return p == defaults; });
                break;
            }
            default:
            {
                auto at = std::make_pair(std::size_t(100), o.note);
                const void* p = (pub.*std::get<0>(Publisher::of(o.note)))(o.v);
                auto to = sched::moment();
                sched::Quiet q;
                put(t, "note of the registry", from, to, [=](State& s) { return s.notes.emplace(at, p).first->second == p; });
            }
        }
    }

    void check_look(const Look& l)
    {
        const char* what = whats[l.op.what];
        CHECK_THAT(ctx, !l.repeated, what, " shows a path twice");
        for (auto p : l.paths)
            CHECK_THAT(ctx, p < names.paths.size(), what, " shows a path that isn't there");
        if (l.op.what == aggregate)
        {
            CHECK_THAT(ctx, l.seen.size() <= 1, what, " calls its handler ", l.seen.size(), " times");
            // the sum has everything that was there before, and nothing that came after
            int64_t least = 0, most = 0;
            std::map<const void*, std::pair<int64_t, int64_t>> may; // a metric's values
            std::set<std::size_t> kinds;
            bool must_call = false;
            for (auto& m : metrics_at(l.op.path))
            {
                auto v = values(m.metric, m.initial, l);
                if (m.until_done <= l.from)
                {
                    must_call = true;
                    least += v.first;
                }
                if (m.begun <= l.to)
                    most += v.second;
            }
            CHECK_THAT(ctx, !must_call || l.seen.size() == 1, what, " doesn't call its handler although there are metrics");
            for (auto& s : l.seen)
                if (s.has_value)
                    CHECK_THAT(ctx, s.value >= least && s.value <= most, what, " yields ", s.value, ", but it should be between ", least, " and ", most);
            return;
        }
        std::set<std::pair<std::size_t, std::size_t>> seen;
        for (auto& s : l.seen)
        {
            CHECK_THAT(ctx, s.tags < names.tagsets.size(), what, " shows tags that were never used");
            CHECK_THAT(ctx, seen.emplace(s.path, s.tags).second, what, " shows a metric twice");
            bool known = false;
            for (auto& m : metrics_at(s.path))
                if (m.tags == s.tags && m.begun <= l.to)
                {
                    known = true;
                    if (s.has_value)
                    {
                        auto v = values(m.metric, m.initial, l);
                        CHECK_THAT(ctx, s.value >= v.first && s.value <= v.second, what, " shows a value of ", s.value, ", but it should be between ", v.first, " and ", v.second);
                    }
                }
            CHECK_THAT(ctx, known, what, " shows a metric that isn't there");
        }
        if (l.thrown)
            return;
        for (std::size_t p = 0; p < names.paths.size(); p++)
        {
            if (l.op.what == one && p != l.op.path)
                continue;
            for (auto& m : metrics_at(p))
                if (m.until_done <= l.from)
                    CHECK_THAT(ctx, seen.count({p, m.tags}), what, " misses a metric that was registered before");
        }
    }
    struct There
    {
        std::size_t tags;
        const void* metric;
        int64_t initial;
        uint64_t begun, until_done; // of the first of its requests to be done
    };
    // who has which metric in the end
    std::vector<There> metrics_at(std::size_t path)
    {
        std::map<std::size_t, There> r;
        for (auto& c : came)
        {
            if (c.path != path)
                continue;
            auto i = r.find(c.tags);
            if (i == r.end())
                r[c.tags] = There{c.tags, c.metric, initial_of(c.metric), c.from, c.to};
            else
            {
                i->second.begun = std::min(i->second.begun, c.from);
                i->second.until_done = std::min(i->second.until_done, c.to);
            }
        }
        std::vector<There> v;
        for (auto& e : r)
            v.push_back(e.second);
        return v;
    }
    std::map<const void*, int64_t> final_values;
    int64_t initial_of(const void* m)
    {
        auto v = final_values[m];
        for (auto& g : grown)
            if (g.metric == m)
                v -= g.by;
        return v;
    }
    std::pair<int64_t, int64_t> values(const void* m, int64_t initial, const Look& l)
    {
        auto r = std::make_pair(initial, initial);
        for (auto& g : grown)
            if (g.metric == m)
            {
                if (g.to <= l.from)
                    r.first += g.by;
                if (g.from <= l.to)
                    r.second += g.by;
            }
        return r;
    }
};

// statics are initialised before the first case, so that all cases are alike
static void warm_up()
{
    static bool done = false;
    if (done)
        return;
    done = true;
    sched::Quiet q;
    Registry r;
    Publisher p(r);
    for (std::size_t k = 0; k < nkinds; k++)
    {
        metric_path path("warm" + std::to_string(k));
        kind(k).request(r, path, tag_collection(), 1);
        kind(k).add(r, path, tag_collection{{"a", 1}}, kind(k).make(1));
        for (int n = 0; n < nnotes; n++)
            (p.*std::get<1>(Publisher::of(n)))(path, 1);
        p.one(path, [&](const metric_path&, basic_registered_metric& m) {
            std::vector<Seen> s;
            Names n;
            m.visit(Visitor{&n, 0, &s, 1000});
            m.aggregate(Aggregator{&s, 0});
        });
        try
        {
            kind(k ? 0 : 1).request(r, path, tag_collection(), 1);
        }
        catch (const metric_type_mismatch&)
        {
        }
    }
    for (int n = 0; n < nnotes; n++)
        (p.*std::get<0>(Publisher::of(n)))(1);
}

enum class Crowd { few, paths, tagsets, notes };
static void run(pbt::Ctx& ctx, std::size_t most, int only_from, int only_to, std::size_t some_kinds, Crowd crowd = Crowd::few)
{
    warm_up();
    auto nthreads = 2 + ctx.below(3);
    Case c(ctx, nthreads + 1, crowd == Crowd::few ? 1 + ctx.below(3) : crowd == Crowd::paths ? 16 : 1, crowd == Crowd::few ? 1 + ctx.below(3) : crowd == Crowd::tagsets ? 16 : 1, crowd == Crowd::notes ? nnotes : 2);
    std::size_t n = 0;
    auto drawn = [&](std::size_t t) {
        auto o = c.draw(n++, some_kinds);
        if (ctx.coin())
            o.what = static_cast<int>(only_from + static_cast<int>(ctx.below(static_cast<std::size_t>(only_to - only_from + 1))));
        TRACE(ctx, t == nthreads ? std::string("main") : "T" + std::to_string(t), ": ", whats[o.what], " path ", o.path, " tags ", o.tags, " ", kind(o.kind).name, " ", o.v, " note ", o.note);
        return o;
    };
    std::vector<std::pair<Ptr, std::size_t>> main_mine;
    if (crowd != Crowd::few)
    {
        auto m = 11 + ctx.below(4);
        if (crowd == Crowd::notes && ctx.coin())
            m += 16; // the containers of the standard library go by hashes from 20 texts on
        c.next_note = m;
        TRACE(ctx, "main: first ", m, crowd == Crowd::paths ? " paths" : crowd == Crowd::tagsets ? " tag sets" : " notes");
        if (crowd == Crowd::notes)
            c.perform(nthreads, Op{ask, 0, 0, 0, 1, 0}, main_mine);
        for (std::size_t i = 0; i < m; i++)
            c.perform(nthreads, Op{crowd == Crowd::notes ? static_cast<int>(note) : ask, crowd == Crowd::paths ? i : 0, crowd == Crowd::tagsets ? i : 0, 0, 1, static_cast<int>(i)}, main_mine);
        if (crowd == Crowd::notes)
            for (std::size_t i = 0; i < m; i++)
                c.perform(nthreads, Op{repo_note, 0, 0, 0, 1, static_cast<int>(i)}, main_mine);
    }
    auto before = crowd != Crowd::few || ctx.chance(1, 2) ? 0 : ctx.below(5);
    for (std::size_t i = 0; i < before; i++)
    {
        auto o = drawn(nthreads);
        if (o.what == throwing)
            o.what = ask;
        c.perform(nthreads, o, main_mine);
    }
    std::vector<std::vector<Op>> p(nthreads);
    int writers = 0, readers = 0;
    for (std::size_t t = 0; t < nthreads; t++)
    {
        auto m = 1 + ctx.below(std::max<std::size_t>(1, most / nthreads));
        bool w = false, r = false;
        for (std::size_t i = 0; i < m; i++)
        {
            p[t].push_back(drawn(t));
            (p[t].back().what <= add2 || p[t].back().what == note || p[t].back().what == repo_note ? w : r) = true;
        }
        writers += w;
        readers += r && !w;
    }
    std::vector<sched::Body> bodies;
    for (std::size_t t = 0; t < nthreads; t++)
        bodies.push_back([&, t] {
            std::vector<std::pair<Ptr, std::size_t>> mine;
            for (auto& o : p[t])
                c.perform(t, o, mine);
        });
    sched::run(ctx, bodies);
    ctx.nontrivial(sched::preemptions() && (writers > 1 || (writers && readers)));
    ctx.label(sched::preemptions() > 3, "more than three preemptions");
    auto after = ctx.below(4);
    for (std::size_t i = 0; i < after; i++)
    {
        auto o = drawn(nthreads);
        c.perform(nthreads, o, main_mine);
    }
    // and everything is there in the end
    for (std::size_t i = 0; i < c.names.paths.size(); i++)
        c.perform(nthreads, Op{all, i, 0, 0, static_cast<int64_t>(i), 0}, main_mine);
    for (std::size_t i = 0; i < c.names.paths.size(); i++)
        c.perform(nthreads, Op{aggregate, i, 0, 0, 1, 0}, main_mine);
    for (auto& m : c.keep)
    {
        auto k = c.kind_of.find(m.get());
        if (k != c.kind_of.end() && kind(k->second).counts)
            c.final_values[m.get()] = kind(k->second).value(m);
    }
    for (auto& l : c.looks)
        c.check_look(l);
    CHECK_THAT(ctx, c.h.linearizable(State(), [&](const State& s) {
        for (auto& e : s.slots)
        {
            auto k = c.kind_of.find(e.second.metric);
            if (k == c.kind_of.end() || !kind(k->second).counts)
                continue;
            if (c.initial_of(e.second.metric) != e.second.initial)
                return false;
        }
        return true;
    }), "no order of the operations explains their results:", c.h.show());
    CHECK_THAT(ctx, c.looks.back().to > 0, "");
}
static void anything(pbt::Ctx& ctx) { run(ctx, 10, ask, repo_note, nkinds); }
static void alike(pbt::Ctx& ctx) { run(ctx, 8, ask, ask2, 1); }
static void registrations(pbt::Ctx& ctx) { run(ctx, 8, ask, add2, 1); }
static void mixed_kinds(pbt::Ctx& ctx) { run(ctx, 8, ask, add2, nkinds); }
static void visits(pbt::Ctx& ctx) { run(ctx, 8, all, throwing, 2); }
static void increments(pbt::Ctx& ctx) { run(ctx, 10, aggregate, incr, 2); }
static void publishers(pbt::Ctx& ctx) { run(ctx, 8, has, repo_note, 2); }
static void many_paths(pbt::Ctx& ctx) { run(ctx, 6, ask, one, 1, Crowd::paths); }
static void many_tagsets(pbt::Ctx& ctx) { run(ctx, 6, ask, aggregate, 1, Crowd::tagsets); }
static void many_notes(pbt::Ctx& ctx) { run(ctx, 6, note, repo_note, 1, Crowd::notes); }
FACET_AS(anything, 20000, 800000, anything);
FACET_AS(alike, 20000, 800000, alike);
FACET_AS(registrations, 20000, 800000, registrations);
FACET_AS(mixed_kinds, 20000, 800000, mixed_kinds);
FACET_AS(visits, 20000, 800000, visits);
FACET_AS(increments, 20000, 800000, increments);
FACET_AS(publishers, 20000, 800000, publishers);

FACET_AS(many_paths, 100000, 1000000, many_paths);
FACET_AS(many_tagsets, 100000, 1000000, many_tagsets);
FACET_AS(many_notes, 100000, 1000000, many_notes);

PBT_MAIN
