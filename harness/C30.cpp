// C30: registries are independent and work over any repository
#include <list>
#include <map>
#include <typeindex>
#include <cxxmetrics/metrics_registry.hpp>

// a repository unlike the default one: a list, visited backwards, that has its own idea of tags
class Kept
{
    struct Slot
    {
        cxxmetrics::metric_path path;
        std::unique_ptr<cxxmetrics::basic_registered_metric> metric;
    };
    std::list<Slot> slots_;
    std::map<std::type_index, std::unique_ptr<cxxmetrics::basic_publish_options>> data_;

public:
    using Transform = cxxmetrics::tag_collection (*)(const cxxmetrics::tag_collection&);
    static Transform& transform()
    {
        static Transform t = nullptr;
        return t;
    }
    static Kept*& latest()
    {
        static Kept* k = nullptr;
        return k;
    }
    struct Setup
    {
        int arguments = 0;
        std::unique_ptr<int> moved;
        std::string copied;
        int* referred = nullptr;
    } setup;

    Kept() { latest() = this; }
    Kept(int& referred, std::unique_ptr<int>&& moved, const std::string& copied)
    {
        latest() = this;
        setup.arguments = 3;
        setup.moved = std::move(moved);
        setup.copied = copied;
        setup.referred = &referred;
    }
    Kept(const Kept&) = delete;

    void put(const cxxmetrics::metric_path& p, std::unique_ptr<cxxmetrics::basic_registered_metric> m) { slots_.push_front(Slot{p, std::move(m)}); }
    template<typename Builder>
    cxxmetrics::basic_registered_metric& get_or_add(const cxxmetrics::metric_path& name, const Builder& builder)
    {
        if (auto m = get(name))
            return *m;
        put(name, builder());
        return *slots_.front().metric;
    }
    cxxmetrics::basic_registered_metric* get(const cxxmetrics::metric_path& name)
    {
        for (auto& s : slots_)
            if (s.path == name)
                return s.metric.get();
        return nullptr;
    }
    template<typename Handler>
    void visit(Handler&& handler)
    {
        for (auto& s : slots_)
            handler(s.path, *s.metric);
    }
    cxxmetrics::tag_collection tags(const cxxmetrics::tag_collection& t) const { return transform() ? transform()(t) : t; }

    template<typename Data, typename... Args>
    typename std::enable_if<std::is_base_of<cxxmetrics::basic_publish_options, Data>::value, Data>::type& get_publish_data(Args&&... args)
    {
        auto& d = data_[std::type_index(typeid(Data))];
        if (!d)
            d = std::make_unique<Data>(std::forward<Args>(args)...);
        return static_cast<Data&>(*d);
    }
    template<typename Data>
    typename std::enable_if<std::is_base_of<cxxmetrics::basic_publish_options, Data>::value, Data>::type* get_publish_data() const
    {
        auto f = data_.find(std::type_index(typeid(Data)));
        return f == data_.end() ? nullptr : static_cast<Data*>(f->second.get());
    }
};
#define REGS_REPOSITORY Kept
#include "prom.hpp"

PROPERTY("C30", "A case is a history of requests, registrations, visits and publishing over a user-defined repository with its own storage, order and treatment of tags, or of several registries that exchange metrics and end one after another, or of a registry whose storage uses a counting allocator, or a drawn type name; non-trivial when the tags were changed by the repository and a metric found again, when a metric was in two registries, or when the name has template arguments.")

using namespace prom;

struct Publisher : metrics_publisher<Kept>
{
    using Base = metrics_publisher<Kept>;
    using Base::Base;
    using Base::effective_options;
    using Base::get_data;
    using Base::get_data_for;
    using Base::has_data_for;
    using Base::has_metric;
    using Base::metric_type;
    using Base::visit_all;
    using Base::visit_one;
};

// -- what a repository may make of tags
enum Treatment { as_is, added, overridden, dropped, all_dropped, treatments };
inline int& the_treatment_() { static int v; return v; } // one for all parts of the program
#define the_treatment the_treatment_()
static Tags treat(const Tags& t)
{
    auto r = t;
    switch (the_treatment)
    {
        case added: r.insert({"host", TagValue{'s', 0, "here"}}); break;
        case overridden: r["a"] = TagValue{'i', 7, ""}; break;
        case dropped: r.erase("a"); r.erase("ab"); r.erase("my"); break;
        case all_dropped: r.clear();
    }
    return r;
}
static tag_collection treat_tags(const tag_collection& c)
{
    std::unordered_map<std::string, metric_value> m;
    for (auto& e : c)
        m.insert(e);
    switch (the_treatment)
    {
        case added: m.insert({"host", metric_value("here")}); break;
        case overridden:
            m.erase("a");
            m.insert({"a", metric_value(int64_t(7))});
            break;
        case dropped: m.erase("a"); m.erase("ab"); m.erase("my"); break;
        case all_dropped: m.clear();
    }
    return tag_collection(m);
}
static bool draw_treatment(pbt::Ctx& ctx)
{
    the_treatment = static_cast<int>(ctx.below(treatments));
    TRACE(ctx, "the repository's treatment of tags: ", the_treatment);
    Kept::transform() = the_treatment == as_is && ctx.coin() ? nullptr : treat_tags;
    return the_treatment != as_is;
}

template<int N>
struct Data : basic_publish_options
{
    int64_t n;
    explicit Data(int64_t n = 0) : n(n) { }
};

struct Published
{
    std::map<Parts, std::pair<void*, int64_t>> data;
    std::pair<void*, int64_t> own{nullptr, 0};

    void access(pbt::Ctx& ctx, Data<0>& d, std::pair<void*, int64_t>& known, int64_t n)
    {
        if (!known.first)
            known = {&d, n};
        CHECK_THAT(ctx, known.first == &d, "the data is another object than before");
        CHECK_EQ(ctx, d.n, known.second, "the data");
    }
    void step(World& w)
    {
        auto& ctx = w.ctx;
        auto p = w.any_path();
        Publisher pub(w.reg);
        auto n = ctx.range(1, 1000);
        bool has = w.model.count(p) != 0;
        CHECK_EQ(ctx, pub.has_metric(path(ctx, p)), has, "whether there is a metric at ", show(p));
        auto type = pub.metric_type(path(ctx, p));
        CHECK_EQ(ctx, type.empty(), !has, "whether ", show(p), " has a type");
        if (has)
        {
            std::string name = w.kind(w.model[p].kind).name;
            name = name.substr(0, name.find('_'));
            CHECK_THAT(ctx, type.find(name) != std::string::npos, "publishers are told that ", show(p), " is a ", type, ", and not a ", name);
        }
        std::size_t visits = 0;
        pub.visit_one(path(ctx, p), [&](const metric_path& mp, basic_registered_metric& m) {
            ++visits;
            CHECK_THAT(ctx, Parts(mp.begin(), mp.end()) == p, "visit_one visits another path");
            CHECK_EQ(ctx, pub.metric_type(m), type, "type told for ", show(p), " when visiting");
            CHECK_EQ(ctx, m.type(), w.kind(w.model[p].kind).type(), "type of ", show(p));
        });
        CHECK_EQ(ctx, visits, has ? 1u : 0u, "visits of ", show(p));
        switch (ctx.below(3))
        {
            case 0:
                TRACE(ctx, "data for the registry, ", n);
                access(ctx, pub.get_data<Data<0>>(n), own, n);
                break;
            case 1:
            {
                TRACE(ctx, "data for ", show(p), ", ", n);
                auto d = pub.get_data_for<Data<0>>(path(ctx, p), n);
                CHECK_EQ(ctx, d != nullptr, has, "whether there is data for ", show(p));
                if (d)
                    access(ctx, *d, data[p], n);
                break;
            }
            default:
                CHECK_EQ(ctx, pub.has_data_for<Data<0>>(path(ctx, p)), data.count(p) != 0, "whether there is data for ", show(p));
                CHECK_EQ(ctx, pub.has_data_for<Data<1>>(path(ctx, p)), false, "whether there is other data for ", show(p));
        }
    }
};

FACET(repository, 6000, 150000)
{
    auto changes = draw_treatment(ctx);
    World w(ctx, 1 + ctx.below(4), 1 + ctx.below(6), 4);
    w.treated = treat;
    Published published;
    std::map<Parts, std::size_t> usual;
    auto steps = 1 + ctx.size(40);
    for (std::size_t s = 0; s < steps; s++)
    {
        auto p = w.any_path();
        auto kind = w.any_kind();
        if (!usual.count(p))
            usual[p] = kind;
        else if (!ctx.chance(1, 8))
            kind = usual[p];
        switch (ctx.below(8))
        {
            case 0: case 1: case 2: w.request(p, w.any_tags(), kind); break;
            case 3: w.register_existing(p, w.any_tags(), kind); break;
            case 4: case 5:
                if (auto i = w.any())
                    w.operate(*i);
                break;
            case 6: published.step(w); break;
            default: vclock::advance(subj::step(ctx));
        }
    }
    w.check_all();
    w.check_contents();
    ctx.nontrivial(changes && w.hits && w.created > 1);
    ctx.label(w.mismatches > 0, "with a mismatch");
}

FACET(publishing, 3000, 60000)
{
    auto changes = draw_treatment(ctx);
    PromWorld w(ctx, 1 + ctx.size(5), 1 + ctx.size(4), 1 + ctx.below(5), ctx.coin());
    w.treated = treat;
    auto rounds = 1 + ctx.below(2);
    for (std::size_t r = 0; r < rounds; r++)
    {
        auto steps = 3 + ctx.size(25);
        for (std::size_t i = 0; i < steps; i++)
            w.step();
        auto text = w.write();
        TRACE(ctx, "published ", pbt::quote(text));
        auto lines = parse(ctx, text);
        auto want = expected(w);
        check_series(ctx, lines, want);
        ctx.nontrivial(changes && want.size() > 1);
    }
}

FACET(construction, 500, 5000)
{
    Kept::transform() = nullptr;
    int referred = 0;
    auto number = static_cast<int>(ctx.range(-1000, 1000));
    auto moved = std::make_unique<int>(number);
    auto at = moved.get();
    std::string copied = component(ctx);
    auto was = copied;
    Registry r(referred, std::move(moved), copied);
    auto& s = Kept::latest()->setup;
    CHECK_EQ(ctx, s.arguments, 3, "arguments the repository was made with");
    CHECK_THAT(ctx, s.referred == &referred && s.moved.get() == at && *at == number && !moved, "the arguments did not reach the repository");
    CHECK_THAT(ctx, s.copied == was && copied == was, "an argument for the repository changed on the way");
    ctx.nontrivial();
}

// -- several registries that share metrics
struct Several
{
    pbt::Ctx& ctx;
    std::deque<World> worlds;
    std::deque<Published> published;
    std::size_t shared = 0, gone = 0;

    explicit Several(pbt::Ctx& ctx) : ctx(ctx)
    {
        auto n = 2 + ctx.below(2);
        for (std::size_t i = 0; i < n; i++)
        {
            worlds.emplace_back(ctx, 1 + ctx.below(3), 1 + ctx.below(3), 2);
            if (i) // the same places and kinds, mostly
            {
                auto& w = worlds[i];
                auto& first = worlds[0];
                if (ctx.chance(3, 4))
                    w.paths = first.paths;
                if (ctx.chance(3, 4))
                    w.tagsets = first.tagsets;
                if (ctx.chance(3, 4))
                    w.some = first.some;
            }
            published.emplace_back();
        }
    }
    std::size_t draw() { return ctx.below(worlds.size()); }
    void share(World& from, World& to)
    {
        auto i = from.any();
        if (!i)
            return;
        for (auto& e : to.model)
            for (auto& x : e.second.by_tags)
                if (x.second.id == i->id)
                    return; // one object in two slots of a registry is nothing that is specified
        auto p = to.any_path();
        auto t = to.any_tags();
        if (ctx.chance(3, 4)) // where it is already
            for (auto& e : from.model)
                for (auto& x : e.second.by_tags)
                    if (&x.second == i)
                    {
                        p = e.first;
                        t = x.first;
                    }
        auto m = to.model.find(p);
        auto existing = m == to.model.end() ? nullptr : &m->second;
        bool result = false;
        auto uses = i->real->uses();
        TRACE(ctx, "register the ", to.kind(i->kind).name, " of another registry at ", show(p), " ", show(t));
        if (to.expect_mismatch(existing, i->kind, [&] { result = to.kind(i->kind).register_existing(to.reg, path(ctx, p), tags(ctx, t), i->real); }))
        {
            CHECK_EQ(ctx, i->real->uses(), uses, "references to an object that wasn't registered");
            return;
        }
        bool taken = existing && existing->by_tags.count(t);
        CHECK_EQ(ctx, result, !taken, "register_existing in a ", taken ? "taken" : "free", " slot");
        CHECK_EQ(ctx, i->real->uses(), uses + !taken, "references to the object");
        if (taken)
            return;
        to.add(p, t, i->kind, i->real, i->twin);
        ++shared;
    }
    void end(std::size_t n)
    {
        // what only this registry holds is gone with it, and nothing else
        std::map<const internal::metric*, Instance> had;
        for (auto& e : worlds[n].model)
            for (auto& x : e.second.by_tags)
                had[x.second.id] = x.second;
        worlds[n].drop();
        std::set<const internal::metric*> elsewhere;
        for (std::size_t i = 0; i < worlds.size(); i++)
            for (auto& e : worlds[i].model)
                for (auto& x : e.second.by_tags)
                    elsewhere.insert(x.second.id);
        for (auto& h : had)
        {
            auto& i = h.second;
            bool stays = i.real->held() || elsewhere.count(h.first);
            CHECK_EQ(ctx, i.real->uses() != 0, stays, "whether the ", kinds()[i.kind]->name, " still exists");
            if (!stays)
                continue;
            auto got = i.real->seen(), want = i.twin->seen();
            CHECK_THAT(ctx, got.same(want), kinds()[i.kind]->name, " that outlived its registry shows ", got, " instead of ", want);
        }
        ++gone;
        worlds[n].owned.reset(new Registry());
    }
};

FACET(several, 6000, 150000)
{
    Kept::transform() = nullptr;
    Several s(ctx);
    auto steps = 2 + ctx.size(50);
    for (std::size_t k = 0; k < steps; k++)
    {
        auto n = s.draw();
        auto& w = s.worlds[n];
        if (!w.model.empty() || w.owned.get() == &w.reg)
            ; // a registry that ended is not used again
        else
            continue;
        switch (ctx.below(12))
        {
            case 0: case 1: case 2: w.request(w.any_path(), w.any_tags(), w.any_kind()); break;
            case 3: w.register_existing(w.any_path(), w.any_tags(), w.any_kind()); break;
            case 4: case 5: case 6:
                if (auto i = w.any())
                    w.operate(*i);
                break;
            case 7: case 8:
            {
                auto m = s.draw();
                if (m != n && s.worlds[m].owned.get() == &s.worlds[m].reg)
                    s.share(w, s.worlds[m]);
                break;
            }
            case 9: s.published[n].step(w); break;
            case 10: w.check_contents(); break;
            default:
                if (ctx.chance(1, 4) && s.gone + 1 < s.worlds.size())
                    s.end(n);
                else
                    vclock::advance(subj::step(ctx));
        }
    }
    for (auto& w : s.worlds)
        if (w.owned.get() == &w.reg)
        {
            w.check_all();
            w.check_contents();
        }
    ctx.nontrivial(s.shared != 0);
    ctx.label(s.shared != 0, "a metric in two registries");
    ctx.label(s.gone != 0, "a registry ended");
}

// -- the default repository with another allocator
inline long& the_allocations_() { static long v; return v; }
inline long& the_bytes_() { static long v; return v; }
#define the_allocations the_allocations_()
#define the_bytes the_bytes_()
template<typename T>
struct Counting
{
    using value_type = T;
    Counting() = default;
    template<typename U>
    Counting(const Counting<U>&) { }
    T* allocate(std::size_t n)
    {
        the_allocations++;
        the_bytes += static_cast<long>(n * sizeof(T));
        return std::allocator<T>().allocate(n);
    }
    void deallocate(T* p, std::size_t n)
    {
        the_allocations--;
        the_bytes -= static_cast<long>(n * sizeof(T));
        std::allocator<T>().deallocate(p, n);
    }
    template<typename U>
    bool operator==(const Counting<U>&) const { return true; }
    template<typename U>
    bool operator!=(const Counting<U>&) const { return false; }
};

FACET(allocator, 3000, 60000)
{
    using Repo = basic_default_repository<Counting<char>>;
    the_allocations = the_bytes = 0;
    {
        metrics_registry<Repo> r;
        std::map<Parts, std::map<Tags, std::pair<std::shared_ptr<counter<int64_t>>, int64_t>>> model;
        std::vector<Parts> paths(1 + ctx.size(10));
        for (auto& p : paths)
            p = draw_parts(ctx);
        auto steps = 1 + ctx.size(40);
        for (std::size_t i = 0; i < steps; i++)
        {
            auto& p = paths[ctx.below(paths.size())];
            auto t = ctx.coin() ? Tags() : draw_tags(ctx);
            auto n = ctx.range(0, 100);
            auto before = the_allocations;
            auto m = r.counter<int64_t>(path(ctx, p), static_cast<int64_t>(n), tags(ctx, t));
            bool fresh = !model.count(p);
            CHECK_THAT(ctx, !fresh || the_allocations > before, "a path was stored without the allocator");
            auto& e = model[p][t];
            if (!e.first)
                e = {m, n};
            CHECK_THAT(ctx, e.first == m, "another instance at ", show(p), " ", show(t));
            *m += 1;
            e.second += 1;
            CHECK_EQ(ctx, m->value(), e.second, "value at ", show(p), " ", show(t));
        }
        std::size_t visited = 0;
        r.visit_registered_metrics([&](const metric_path& mp, basic_registered_metric& m) {
            ++visited;
            auto f = model.find(Parts(mp.begin(), mp.end()));
            CHECK_THAT(ctx, f != model.end(), "visited where nothing was registered");
            std::size_t n = 0;
            m.visit([&](const tag_collection&, const cumulative_value_snapshot&) { ++n; });
            CHECK_EQ(ctx, n, f->second.size(), "tag sets");
        });
        CHECK_EQ(ctx, visited, model.size(), "paths visited");
        ctx.nontrivial(model.size() > 1);
    }
    CHECK_EQ(ctx, the_allocations, 0, "allocations left");
    CHECK_EQ(ctx, the_bytes, 0, "bytes left");
}

// -- names of types
struct Custom : basic_registered_metric
{
    explicit Custom(const std::string& type) : basic_registered_metric(type) { }
    void visit_each(cxxmetrics::internal::registered_snapshot_visitor_builder&) override { }
    void aggregate_all(snapshot_visitor&) override { }
    std::shared_ptr<cxxmetrics::internal::metric> child(const tag_collection&, void*) override { return nullptr; }
};

static std::string identifier(pbt::Ctx& ctx)
{
    static const char* const common[] = {"counter", "gauge", "timer", "a", "T1", "value", "_impl", "clock"};
    if (ctx.coin())
        return common[ctx.below(8)];
    std::string s;
    auto n = 1 + ctx.size(8);
    for (std::size_t i = 0; i < n; i++)
        s += "abcXYZ_019"[ctx.below(i ? 10 : 7)];
    return s;
}
static std::string type_of(pbt::Ctx& ctx, int depth, std::string& bare, bool& arguments);
static std::string argument(pbt::Ctx& ctx, int depth)
{
    static const char* const simple[] = {"int", "long", "double", "unsigned char", "3ul", "60000000000l", "(cxxmetrics::quantile)99", "std::function<long ()>", "long&", "char const*", "long (std::string)"};
    std::string bare;
    bool a;
    if (depth == 0 || ctx.coin())
        return simple[ctx.below(11)];
    return type_of(ctx, depth - 1, bare, a);
}
static std::string type_of(pbt::Ctx& ctx, int depth, std::string& bare, bool& arguments)
{
    std::string s;
    auto args = [&] {
        std::string r = "<";
        auto n = ctx.below(4);
        for (std::size_t i = 0; i < n; i++)
            r += (i ? ctx.coin() ? ", " : "," : "") + argument(ctx, depth);
        if (ctx.coin() && r.back() == '>')
            r += ' ';
        return r + ">";
    };
    auto n = ctx.below(4);
    for (std::size_t i = 0; i < n; i++)
    {
        s += i == 0 && ctx.chance(1, 6) ? "(anonymous namespace)" : identifier(ctx);
        if (ctx.chance(1, 4))
            s += args();
        s += "::";
    }
    if (n && ctx.chance(1, 4))
        s = (ctx.coin() ? "class " : "struct ") + s;
    bare = identifier(ctx);
    s += bare;
    arguments = ctx.chance(2, 3);
    if (arguments)
        s += args();
    return s;
}

FACET(type_names, 10000, 200000)
{
    Kept::transform() = nullptr;
    Registry r;
    Publisher pub(r);
    std::map<Parts, std::pair<std::string, std::string>> model;
    auto n = 1 + ctx.below(4);
    for (std::size_t i = 0; i < n; i++)
    {
        auto p = draw_parts(ctx);
        if (model.count(p))
            continue;
        std::string bare;
        bool arguments;
        auto type = type_of(ctx, 3, bare, arguments);
        TRACE(ctx, "a metric of type ", type, " at ", show(p));
        model[p] = {type, bare};
        Kept::latest()->put(path(ctx, p), std::make_unique<Custom>(type));
        ctx.nontrivial(arguments);
    }
    std::size_t visits = 0;
    pub.visit_all([&](const metric_path& mp, basic_registered_metric& m) {
        ++visits;
        auto& want = model[Parts(mp.begin(), mp.end())];
        CHECK_EQ(ctx, m.type(), want.first, "type of the metric");
        CHECK_EQ(ctx, pub.metric_type(m), want.second, "what publishers are told of type ", want.first);
    });
    CHECK_EQ(ctx, visits, model.size(), "metrics visited");
    for (auto& e : model)
        CHECK_EQ(ctx, pub.metric_type(path(ctx, e.first)), e.second.second, "what publishers are told of type ", e.second.first, " at ", show(e.first));
}

PBT_MAIN
