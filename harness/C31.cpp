// C31: failures leave no trace
#include <cstdlib>
#include <new>
#include <cstddef>

// memory runs out when the harness says so
namespace fault
{
struct State
{
    long planned = -1;      // allocations the next armed call gets; -1: all it wants
    bool for_good = false;  // whether memory stays out for the rest of that call
    bool spare = false;     // whether allocations as large as names of types always succeed
    bool names[1024] = {};  // how large these are
    long left = -1;
    bool armed = false;
    std::size_t fired = 0;
};
State& state();
struct Armed
{
    Armed() // one call
    {
        auto& s = state();
        s.left = s.planned;
        s.planned = -1;
        s.armed = s.left >= 0;
    }
    ~Armed() { state().armed = false; }
};
struct Pause
{
    bool was = state().armed;
    Pause() { state().armed = false; }
    ~Pause() { state().armed = was; }
};
inline void plan(long n, bool for_good, bool spare = false)
{
    auto& s = state();
    s.planned = n;
    s.for_good = for_good;
    s.spare = spare;
    s.fired = 0;
}
}
#define REGS_ARMED fault::Armed armed_;
#include "prom.hpp"

#if PBT_PART == 0
namespace fault
{
State& state()
{
    static State s;
    return s;
}
static void* allocate(std::size_t n)
{
    auto& s = state();
    if (s.armed && !(s.spare && n < sizeof(s.names) && s.names[n]))
    {
        if (s.left <= 0)
        {
            s.armed = s.for_good;
            ++s.fired;
            throw std::bad_alloc();
        }
        --s.left;
    }
    auto p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
}
void* operator new(std::size_t n) { return fault::allocate(n); }
void* operator new[](std::size_t n) { return fault::allocate(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#endif

PROPERTY("C31", "A case is a history on registries, metrics and publishers in which memory runs out at a chosen allocation of a call, or code of the caller (a reservoir, attached data, a stream) fails; non-trivial when a call did fail and what follows was compared with the model.")

using namespace regs;
using namespace prom;

// everything that is set up once and kept, is
static inline void prime()
{
    static bool done = false;
    if (done)
        return;
    done = true;
    Cells cells;
    Registry r;
    r.publish_options();
    int64_t n = 0;
    for (auto& k : kinds())
    {
        k->request(r, metric_path("p" + std::to_string(n++)), tag_collection(), 1, cells);
        auto size = k->type().size() + 1;
        if (size < sizeof(fault::state().names))
            fault::state().names[size] = true;
    }
}

// constructors that promise not to throw, although they copy what may have to allocate
static inline bool fragile(std::size_t k) { return k == gauge_string || k == gauge_function || k == gauge_function_sum; }

// plans a failure; true if the call did fail
template<typename F>
static bool attempt(pbt::Ctx& ctx, bool spare, const F& f)
{
    auto n = static_cast<long>(ctx.below(ctx.coin() ? 6 : 24));
    auto for_good = ctx.coin();
    TRACE(ctx, "memory runs out after ", n, " allocations", for_good ? " and stays out" : "");
    bool failed = false;
    fault::plan(n, for_good, spare);
    try
    {
        f();
    }
    catch (const std::bad_alloc&)
    {
        failed = true;
    }
    fault::state().planned = -1;
    fault::state().armed = false;
    if (failed)
        CHECK_THAT(ctx, fault::state().fired > 0, "a call runs out of memory that is there");
    return failed;
}

// a request that failed may have settled the type of its path, and nothing else
static inline void settle(World& w, const Parts& p, std::size_t k)
{
    if (w.model.count(p))
        return;
    bool there = false;
    w.reg.visit_registered_metrics([&](const metric_path& mp, basic_registered_metric&) { there = there || Parts(mp.begin(), mp.end()) == p; });
    if (there)
        w.model[p].kind = k;
}

FACET(requests, 8000, 200000)
{
    prime();
    World w(ctx, 1 + ctx.below(4), 1 + ctx.below(4), 1 + ctx.below(4));
    // values promise to be copied and compared without throwing: texts that fit without allocating
    for (auto& t : w.tagsets)
        for (auto& e : t)
        {
            e.second.i %= 100000;
            e.second.s = e.second.s.substr(0, 12);
        }
    std::map<Parts, std::size_t> usual;
    std::size_t failures = 0, after = 0;
    auto steps = 1 + ctx.size(30);
    for (std::size_t s = 0; s < steps; s++)
    {
        auto p = w.any_path();
        auto t = w.any_tags();
        auto k = w.any_kind();
        if (!usual.count(p))
            usual[p] = k;
        else if (!ctx.chance(1, 6))
            k = usual[p];
        auto what = ctx.below(10);
        switch (what)
        {
            case 0: case 1: case 2: case 3: case 4: case 5:
            {
                bool request = what < 3;
                if (request && fragile(k))
                    break;
                // metric_type() promises not to throw
                if (!attempt(ctx, !request, [&] { request ? w.request(p, t, k) : w.register_existing(p, t, k); }))
                    break;
                ++failures;
                settle(w, p, k);
                if (ctx.chance(1, 3))
                    w.check_contents();
                if (ctx.chance(2, 3))
                {
                    request ? w.request(p, t, k) : w.register_existing(p, t, k);
                    ++after;
                }
                break;
            }
            case 6: w.request(p, t, k); break;
            case 7: case 8:
                if (auto i = w.any())
                    w.operate(*i);
                break;
            default:
                w.check_contents();
        }
    }
    w.check_all();
    w.check_contents();
    ctx.nontrivial(failures && after);
    ctx.label(failures > 1, "several failures");
}

// -- reservoirs of the caller that fail to be moved or copied
struct Refusal { };
struct Brittle
{
    using value_type = int64_t;
    static int alive;
    static long left; // moves and copies that go well; -1: all
    std::vector<int64_t> values;
    static void moved()
    {
        if (left >= 0 && left-- == 0)
            throw Refusal();
    }
    Brittle() { ++alive; }
    explicit Brittle(int64_t first) : values{first} { ++alive; }
    Brittle(const Brittle& o) : values(o.values) { moved(); ++alive; }
    Brittle(Brittle&& o) : values((moved(), std::move(o.values))) { ++alive; }
    Brittle& operator=(const Brittle& o) { moved(); values = o.values; return *this; }
    Brittle& operator=(Brittle&& o) { moved(); values = std::move(o.values); return *this; }
    ~Brittle() { --alive; }
    void update(int64_t v) noexcept { values.push_back(v); }
    reservoir_snapshot snapshot() const noexcept { return reservoir_snapshot(values.begin(), values.end(), values.size()); }
};
#if PBT_PART == 0
int Brittle::alive = 0;
long Brittle::left = -1;
#endif

FACET(reservoirs, 4000, 80000)
{
    CHECK_EQ(ctx, Brittle::alive, 0, "reservoirs left behind by an earlier case");
    using Metric = histogram<int64_t, Brittle>;
    struct Slot
    {
        std::shared_ptr<Metric> metric;
        std::vector<int64_t> values;
        std::size_t count = 0;
    };
    std::size_t failures = 0, again = 0;
    {
        Registry r;
        std::map<std::pair<Parts, Tags>, Slot> model;
        std::set<std::pair<Parts, Tags>> failed;
        std::vector<Parts> paths;
        std::vector<Tags> tagsets;
        for (int i = 0; i < 3; i++)
        {
            paths.push_back(draw_parts(ctx));
            tagsets.push_back(draw_tags(ctx));
        }
        r.histogram<Brittle>(metric_path("prime"), Brittle(0)); // sets up what is kept
        auto steps = 1 + ctx.size(25);
        for (std::size_t s = 0; s < steps; s++)
        {
            auto p = paths[ctx.below(3)];
            auto t = tagsets[ctx.below(3)];
            auto mp = path(ctx, p);
            auto mt = tags(ctx, t);
            auto f = model.find({p, t});
            if (ctx.chance(2, 3))
            {
                auto first = ctx.range(0, 1000);
                Brittle::left = ctx.coin() ? static_cast<long>(ctx.below(4)) : -1;
                TRACE(ctx, "request at ", show(p), " ", show(t), " starting with ", first, ", ", Brittle::left, " moves go well");
                std::shared_ptr<Metric> m;
                try
                {
                    m = r.histogram<Brittle>(mp, Brittle(first), mt);
                    Brittle::left = -1;
                }
                catch (const Refusal&)
                {
                    ++failures;
                    CHECK_EQ(ctx, Brittle::left, -1, "moves left when one failed"); // it is the moves that fail
                    failed.insert({p, t});
                    continue;
                }
                CHECK_THAT(ctx, m != nullptr, "a request yields a metric");
                if (f == model.end())
                {
                    for (auto& x : model)
                        CHECK_THAT(ctx, x.second.metric != m, "the new metric is also at ", show(x.first.first));
                    model[{p, t}] = Slot{m, {first}, 0};
                    again += failed.count({p, t});
                    f = model.find({p, t});
                }
                CHECK_THAT(ctx, f->second.metric == m, "a later request yields another instance");
            }
            else if (f != model.end())
            {
                auto v = ctx.range(0, 1000);
                f->second.metric->update(v);
                f->second.values.push_back(v);
                ++f->second.count;
            }
            for (auto& x : model)
            {
                auto snap = x.second.metric->snapshot();
                CHECK_EQ(ctx, snap.count(), x.second.count, "count");
                CHECK_EQ(ctx, static_cast<int64_t>(snap.min()), *std::min_element(x.second.values.begin(), x.second.values.end()), "least value");
                CHECK_EQ(ctx, static_cast<int64_t>(snap.max()), *std::max_element(x.second.values.begin(), x.second.values.end()), "greatest value");
            }
            std::size_t visited = 0;
            r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) {
                m.visit([&](const tag_collection&, const auto& s) { ++visited; });
            });
            CHECK_EQ(ctx, visited, model.size() + 1, "metrics visited");
            CHECK_EQ(ctx, Brittle::alive, static_cast<int>(model.size() + 1), "reservoirs alive");
        }
    }
    CHECK_EQ(ctx, Brittle::alive, 0, "reservoirs that outlive registry and callers");
    ctx.nontrivial(failures && again);
}

// -- attached data and options
struct Publisher : metrics_publisher<Repository>
{
    using Base = metrics_publisher<Repository>;
    using Base::Base;
    using Base::effective_options;
    using Base::get_data;
    using Base::get_data_for;
    using Base::has_data_for;
    using Base::has_metric;
    using Base::visit_all;
};
template<int N>
struct Data : basic_publish_options
{
    static int alive;
    static bool refuse;
    int64_t number;
    std::string text;
    explicit Data(int64_t n) : number(n), text("data number " + std::to_string(n) + " and what else there is to it")
    {
        if (refuse)
            throw Refusal();
        ++alive;
    }
    Data(const Data&) = delete;
    ~Data() override { --alive; }
};
template<int N>
int Data<N>::alive = 0;
template<int N>
bool Data<N>::refuse = false;

struct Attaching
{
    pbt::Ctx& ctx;
    Registry r;
    Publisher pub{r};
    std::vector<Parts> paths;
    std::set<Parts> there;
    std::map<std::pair<Parts, int>, std::pair<void*, int64_t>> data; // an empty path: the registry's
    std::map<Parts, opts::All4> own;
    opts::All4 global;
    std::set<std::pair<Parts, int>> failed;
    std::size_t failures = 0, again = 0;

    explicit Attaching(pbt::Ctx& ctx) : ctx(ctx)
    {
        for (int i = 0; i < 3; i++)
        {
            auto p = draw_parts(ctx);
            if (p.empty())
                p.push_back("path");
            paths.push_back(p);
            if (ctx.chance(2, 3))
            {
                there.insert(p);
                r.counter(path(ctx, p));
            }
        }
    }
    template<int N>
    void data_step()
    {
        auto p = paths[ctx.below(3)];
        auto n = ctx.range(0, 100000);
        auto how = ctx.below(3); // of the registry, by path, by metric
        if (how == 0)
            p.clear();
        auto mp = path(ctx, p);
        basic_registered_metric* m = nullptr;
        if (how == 2)
        {
            pub.visit_all([&](const metric_path& q, basic_registered_metric& x) { m = q == mp ? &x : m; });
            if (!m)
                return;
        }
        Data<N>* d = nullptr;
        auto get = [&] {
            REGS_ARMED
            d = how == 0 ? &pub.get_data<Data<N>>(n) : how == 1 ? pub.get_data_for<Data<N>>(mp, n) : &pub.get_data_for<Data<N>>(*m, n);
        };
        TRACE(ctx, "data ", N, how == 0 ? " of the registry" : " of ", how == 0 ? "" : show(p), ", number ", n);
        bool fails = false;
        if (ctx.chance(1, 3))
        {
            TRACE(ctx, "it refuses to be made");
            Data<N>::refuse = true;
            try
            {
                get();
            }
            catch (const Refusal&)
            {
                fails = true;
            }
            Data<N>::refuse = false;
        }
        else if (ctx.coin())
            fails = attempt(ctx, false, get);
        else
            get();
        auto key = std::make_pair(p, N);
        auto f = data.find(key);
        if (fails)
        {
            ++failures;
            failed.insert(key);
        }
        else if (how == 0 || there.count(p))
        {
            CHECK_THAT(ctx, d != nullptr, "no data");
            if (f == data.end())
            {
                again += failed.count(key);
                data[key] = {d, n};
                f = data.find(key);
            }
            CHECK_THAT(ctx, f->second.first == d, "another object than before");
        }
        else
            CHECK_THAT(ctx, d == nullptr, "data for a path that isn't registered");
        for (auto& x : data)
            if (x.first.second == N)
            {
                auto& a = *static_cast<Data<N>*>(x.second.first);
                CHECK_EQ(ctx, a.number, x.second.second, "number of the data");
                CHECK_EQ(ctx, a.text, "data number " + std::to_string(x.second.second) + " and what else there is to it", "text of the data");
            }
        for (auto& q : paths)
            CHECK_EQ(ctx, pub.has_data_for<Data<N>>(path(ctx, q)), data.count({q, N}) != 0, "whether ", show(q), " has data ", N);
    }
    void options_step()
    {
        opts::All4 want;
        auto o = opts::make_options(ctx, want);
        if (ctx.chance(1, 3))
        {
            TRACE(ctx, "options of the registry");
            if (!attempt(ctx, false, [&] { REGS_ARMED r.publish_options(std::move(o)); }))
                global = want;
            else
                ++failures;
        }
        else
        {
            auto p = paths[ctx.below(3)];
            auto mp = path(ctx, p);
            TRACE(ctx, "options of ", show(p));
            if (!attempt(ctx, false, [&] { REGS_ARMED r.publish_options(mp, std::move(o)); }))
            {
                if (there.count(p))
                    own[p] = want;
            }
            else
                ++failures;
        }
        opts::check_options(ctx, r.publish_options(), global);
        pub.visit_all([&](const metric_path& q, basic_registered_metric& m) {
            auto f = own.find(Parts(q.begin(), q.end()));
            opts::check_options(ctx, pub.effective_options(m), f == own.end() ? global : f->second);
        });
    }
};

FACET(attached, 6000, 120000)
{
    prime();
    auto alive = [] { return Data<0>::alive + Data<1>::alive; };
    CHECK_EQ(ctx, alive(), 0, "objects left behind by an earlier case");
    {
        Attaching a(ctx);
        auto steps = 1 + ctx.size(25);
        for (std::size_t s = 0; s < steps; s++)
        {
            switch (ctx.below(4))
            {
                case 0: a.options_step(); break;
                case 1: a.data_step<1>(); break;
                default: a.data_step<0>();
            }
            CHECK_EQ(ctx, alive(), static_cast<int>(a.data.size()), "data objects alive");
        }
        ctx.nontrivial(a.failures && a.again);
    }
    CHECK_EQ(ctx, alive(), 0, "data objects that outlive the registry");
}

// -- streams that fail or throw in the middle
struct Broken : std::streambuf
{
    std::size_t room;
    bool throws;
    std::string got;
    Broken(std::size_t room, bool throws) : room(room), throws(throws) { }
    int_type overflow(int_type c) override
    {
        if (got.size() >= room)
        {
            if (throws)
                throw Refusal();
            return traits_type::eof();
        }
        got.push_back(static_cast<char>(c));
        return c;
    }
};

FACET(streams, 2500, 50000)
{
    PromWorld w(ctx, 1 + ctx.size(5), 1 + ctx.size(4), 1 + ctx.below(5), ctx.coin());
    std::size_t failures = 0;
    auto rounds = 1 + ctx.below(3);
    auto publisher = std::make_unique<cxxmetrics_prometheus::prometheus_publisher<Repository>>(w.reg);
    for (std::size_t r = 0; r < rounds; r++)
    {
        auto steps = 2 + ctx.size(15);
        for (std::size_t i = 0; i < steps; i++)
            w.step();
        w.write(); // an ordinary reading may end intervals; later ones of that instant agree
        auto whole = w.write();
        expected(w);
        expected(w);
        auto tries = 1 + ctx.below(3);
        for (std::size_t i = 0; i < tries; i++)
        {
            Broken buf(ctx.below(whole.size() + 20), ctx.coin());
            std::ostream out(&buf);
            auto exceptions = ctx.below(3);
            if (exceptions)
                out.exceptions(exceptions == 1 ? std::ios::badbit : std::ios::badbit | std::ios::failbit);
            TRACE(ctx, "a stream that ", buf.throws ? "throws" : "fails", " after ", buf.room, " of ", whole.size(), " characters, exceptions ", exceptions);
            try
            {
                publisher->write(out);
            }
            catch (const Refusal&)
            {
                ++failures;
            }
            catch (const std::ios_base::failure&)
            {
                ++failures;
            }
            if (buf.room >= whole.size())
                CHECK_EQ(ctx, buf.got.size(), whole.size(), "characters published");
        }
        std::ostringstream out;
        publisher->write(out);
        TRACE(ctx, "published ", pbt::quote(out.str()));
        auto lines = parse(ctx, out.str());
        check_series(ctx, lines, expected(w));
        w.check_contents();
    }
    ctx.nontrivial(failures > 0 && w.created > 1);
}

// -- recording goes on without any memory
template<typename M>
struct Recorded
{
    std::unique_ptr<M> real, twin;
    template<typename... A>
    explicit Recorded(A... a) : real(new M(A(a)...)), twin(new M(A(a)...)) { }
    template<typename F>
    void both(const F& f)
    {
        {
            fault::plan(0, true);
            fault::Armed a;
            f(*real);
        }
        f(*twin);
    }
};

struct Call { int64_t* n; void operator()() const { ++*n; } };

template<typename M, typename F>
static void record(pbt::Ctx& ctx, Recorded<M> m, const F& op)
{
    auto steps = 1 + ctx.size(60);
    for (std::size_t i = 0; i < steps; i++)
    {
        if (ctx.chance(1, 5))
            vclock::advance(subj::step(ctx));
        auto what = ctx.below(6);
        auto v = ctx.range(0, 1000000);
        m.both([&](M& x) { op(x, what, v); });
        CHECK_EQ(ctx, fault::state().fired, std::size_t(0), "allocations while recording");
    }
    Viewer a, b;
    a.got(m.real->snapshot());
    b.got(m.twin->snapshot());
    CHECK_THAT(ctx, a.seen.same(b.seen), "recordings without memory show ", a.seen, " and not ", b.seen);
    ctx.nontrivial(steps > 3);
}
template<typename R>
static void record_histogram(pbt::Ctx& ctx)
{
    record(ctx, Recorded<histogram<int64_t, R>>(), [](histogram<int64_t, R>& h, std::size_t what, int64_t v) {
        what ? h.update(v) : void(h.count());
    });
}
template<typename T>
static void record_timer(pbt::Ctx& ctx)
{
    record(ctx, Recorded<T>(), [](T& t, std::size_t what, int64_t v) {
        switch (what)
        {
            case 0: t.update(std::chrono::nanoseconds(v)); break;
            case 1: t.count(); break;
            case 2: t.mean(); break;
            case 3:
            {
                int64_t n = 0;
                t.time(Call{&n});
                break;
            }
            case 4:
            {
                auto s = scoped_timer(t);
                break;
            }
            default:
            {
                auto s = scoped_timer(t);
                auto u = std::move(s);
                u.reset();
            }
        }
    });
}

FACET(recording, 6000, 120000)
{
    using R8 = simple_reservoir<int64_t, 8>;
    using U8 = uniform_reservoir<int64_t, 8>;
    using S8 = sliding_window_reservoir<int64_t, 8>;
    using T1 = timer<sec, steady, simple_t<8>, minute>;
    using T2 = timer<sec, wall, uniform_reservoir<wall::duration, 8>, minute, 5 * minute>;
    using W = meter<sec, minute, 5 * minute>;
    using E = ewma<minute, sec, double>;
    vclock::advance(1000);
    switch (ctx.below(10))
    {
        case 0:
            record(ctx, Recorded<counter<int64_t>>(int64_t(5)), [](counter<int64_t>& c, std::size_t what, int64_t v) {
                switch (what)
                {
                    case 0: c += v; break;
                    case 1: c -= v; break;
                    case 2: ++c; break;
                    case 3: --c; break;
                    case 4: c = v; break;
                    default: c.value();
                }
            });
            break;
        case 1: record(ctx, Recorded<E>(), [](E& e, std::size_t what, int64_t v) { what ? e.mark(static_cast<double>(v)) : void(e.rate()); }); break;
        case 2: record(ctx, Recorded<W>(), [](W& m, std::size_t what, int64_t v) { what > 2 ? m.mark(v) : what == 2 ? void(m.mean()) : what ? void(m.template rate<minute>()) : void(m.mark()); }); break;
        case 3:
            record(ctx, Recorded<gauge<int64_t>>(int64_t(3)), [](gauge<int64_t>& g, std::size_t what, int64_t v) { what ? what > 2 ? g.set(v) : void(g = v) : void(g.get()); });
            break;
        case 4:
            record(ctx, Recorded<gauge<double, gauges::aggregation_sum>>(3.0), [](gauge<double, gauges::aggregation_sum>& g, std::size_t what, int64_t v) { what ? g.set(static_cast<double>(v)) : void(g.get()); });
            break;
        case 5: record_histogram<R8>(ctx); break;
        case 6: record(ctx, Recorded<histogram<int64_t, U8>>(), [](histogram<int64_t, U8>& h, std::size_t what, int64_t v) { what ? h.update(5) : void(h.count()); }); break; // which are kept is chance
        case 7: record_histogram<S8>(ctx); break;
        case 8: record_timer<T1>(ctx); break;
        default:
            record(ctx, Recorded<T2>(), [](T2& t, std::size_t what, int64_t) { what ? t.update(std::chrono::nanoseconds(7)) : void(t.count()); });
    }
}

PBT_MAIN
