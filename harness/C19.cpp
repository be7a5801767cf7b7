// C19: metric paths and tag collections as keys
#include "values.hpp"
#include <cxxmetrics/metric_path.hpp>
#include <cxxmetrics/tag_collection.hpp>
#include <unordered_map>

PROPERTY("C19", "A case builds paths or tag sets in several drawn ways from the same and from slightly different contents and compares, hashes, joins, lists and looks them up; non-trivial with at least two components or two tags.")

using cxxmetrics::metric_path;
using cxxmetrics::metric_value;
using cxxmetrics::tag_collection;
using Parts = std::vector<std::string>;

static std::string component(pbt::Ctx& ctx)
{
    static const char* const common[] = {"", "a", "b", "ab", "a/b", "/", "my", "metric", "ba", " ", "aa"};
    switch (ctx.below(4))
    {
        case 0: case 1: return common[ctx.below(sizeof common / sizeof *common)];
        case 2: return std::string(1 + ctx.below(40), static_cast<char>('a' + ctx.below(3)));
        default:
        {
            std::string s;
            auto n = ctx.chance(1, 30) ? ctx.size(400) : ctx.size(12);
            for (std::size_t i = 0; i < n; i++)
                s += static_cast<char>(ctx.below(256));
            return s;
        }
    }
}

static std::string show(const Parts& p)
{
    std::string s = "[";
    for (auto& c : p)
        s += (s.size() > 1 ? ", " : "") + pbt::quote(c);
    return s + "]";
}

template<std::size_t N, typename F>
static bool as_array_n(const std::string& s, const F& f)
{
    if (s.size() + 1 != N)
        return false;
    char a[N];
    memcpy(a, s.c_str(), N);
    const char (&r)[N] = a;
    f(r);
    return true;
}
// hands the text over as a literal would be
template<typename F>
static bool as_array(const std::string& s, const F& f)
{
    return s.find('\0') == std::string::npos && (as_array_n<1>(s, f) || as_array_n<2>(s, f) || as_array_n<3>(s, f) || as_array_n<4>(s, f) || as_array_n<7>(s, f) || as_array_n<8>(s, f));
}

// one component, written in one of the possible ways
static metric_path leaf(pbt::Ctx& ctx, const std::string& s)
{
    bool c_string = s.find('\0') == std::string::npos;
    switch (ctx.below(5))
    {
        case 0:
            if (c_string)
                return metric_path(s.c_str());
            break;
        case 1:
            if (s.empty() || s[0])
                return cxxmetrics_literals::operator""_m(s.c_str(), s.size());
            break;
        case 2:
        {
            std::unique_ptr<metric_path> p;
            if (as_array(s, [&](const auto& a) { p.reset(new metric_path(a)); }))
                return *p;
            break;
        }
        case 3:
        {
            std::string copy = s;
            return metric_path(std::move(copy));
        }
        default: break;
    }
    return metric_path(s);
}

// the components from..to in any nesting
static metric_path build(pbt::Ctx& ctx, const Parts& p, std::size_t from, std::size_t to)
{
    if (from == to)
        return ctx.coin() ? metric_path("") : metric_path(std::string());
    if (to - from == 1)
    {
        auto l = leaf(ctx, p[from]);
        switch (ctx.below(4))
        {
            case 0: return l / metric_path("");
            case 1: return metric_path("") / l;
            case 2: return ctx.coin() ? "" / l : l / "";
            default: return l;
        }
    }
    auto mid = from + 1 + ctx.below(to - from - 1);
    if (mid == from + 1 && ctx.coin())
    { // "literal" / path
        auto right = build(ctx, p, mid, to);
        std::unique_ptr<metric_path> r;
        if (as_array(p[from], [&](const auto& a) { r.reset(new metric_path(a / right)); }))
        {
            ctx.label("literal on the left");
            return *r;
        }
    }
    if (mid == to - 1 && ctx.coin())
    { // path / "literal"
        auto left = build(ctx, p, from, mid);
        std::unique_ptr<metric_path> r;
        if (as_array(p[mid], [&](const auto& a) { r.reset(new metric_path(left / a)); }))
            return *r;
        return left / p[mid];
    }
    auto left = build(ctx, p, from, mid), right = build(ctx, p, mid, to);
    return left / right;
}

static Parts parts(pbt::Ctx& ctx)
{
    Parts p;
    auto n = ctx.chance(1, 12) ? ctx.size(80) : ctx.size(8);
    for (std::size_t i = 0; i < n; i++)
        p.push_back(component(ctx));
    return p;
}
static Parts real(const Parts& p)
{
    Parts r;
    for (auto& c : p)
        if (!c.empty())
            r.push_back(c);
    return r;
}
static std::string joined(const Parts& p, const std::string& d)
{
    std::string r;
    for (std::size_t i = 0; i < p.size(); i++)
        r += (i ? d : "") + p[i];
    return r;
}
static std::size_t hash(const metric_path& p) { return std::hash<metric_path>()(p); }

FACET(paths, 15000, 300000)
{
    Parts p = parts(ctx), want = real(p);
    auto a = build(ctx, p, 0, p.size()), b = build(ctx, p, 0, p.size());
    TRACE(ctx, show(p));
    CHECK_THAT(ctx, a == b && b == a && !(a != b), show(p), ": built in two ways, the paths differ");
    CHECK_THAT(ctx, hash(a) == hash(b), show(p), ": built in two ways, the hashes differ");
    Parts got(a.begin(), a.end());
    CHECK_THAT(ctx, got == want, show(p), ": has components ", show(got));
    for (auto d : {std::string("/"), std::string(""), std::string("::"), component(ctx)})
        CHECK_EQ(ctx, pbt::quote(a.join(d)), pbt::quote(joined(want, d)), show(p), " joined with ", pbt::quote(d));
    // identity
    metric_path empty("");
    for (auto& e : {empty / a, a / empty, "" / a, a / "", empty / a / empty, metric_path(std::string()) / a})
        CHECK_THAT(ctx, e == a && hash(e) == hash(a), show(p), ": the empty path is no identity");
    CHECK_THAT(ctx, (a == empty) == want.empty(), show(p), ": equal to the empty path: ", a == empty);
    // a different one
    Parts q = p;
    switch (ctx.below(6))
    {
        case 0: q.push_back(component(ctx)); break;
        case 1: if (!q.empty()) q.erase(q.begin() + ctx.below(q.size())); break;
        case 2: if (!q.empty()) q[ctx.below(q.size())] = component(ctx); break;
        case 3: if (q.size() > 1) std::swap(q[0], q[q.size() - 1]); break;
        case 4: if (q.size() > 1) { q[0] += q[1]; q.erase(q.begin() + 1); } break;
        default: q = {joined(want, "/")};
    }
    auto c = build(ctx, q, 0, q.size());
    bool same = real(q) == want;
    CHECK_THAT(ctx, (a == c) == same && (c == a) == same && (a != c) == !same && (c != a) == !same, show(p), " and ", show(q), ": equal is ", a == c);
    if (same)
        CHECK_THAT(ctx, hash(a) == hash(c), show(p), " and ", show(q), ": hashes differ");
    // associativity of three
    Parts r = parts(ctx);
    auto x = build(ctx, r, 0, r.size());
    CHECK_THAT(ctx, (a / c) / x == a / (c / x) && hash((a / c) / x) == hash(a / (c / x)), "concatenating ", show(p), ", ", show(q), ", ", show(r), " is not associative");
    auto before = a.join("\1");
    auto copy = a;
    auto moved = std::move(copy);
    CHECK_THAT(ctx, moved == a && hash(moved) == hash(a) && a.join("\1") == before, show(p), ": a moved copy differs");
    ctx.nontrivial(want.size() >= 2);
    ctx.label(want.size() != p.size(), "with empty components");
}

FACET(path_keys, 4000, 80000)
{
    std::unordered_map<metric_path, int> map;
    std::map<Parts, int> model;
    auto n = ctx.size(60);
    std::vector<Parts> known;
    for (std::size_t i = 0; i < n; i++)
    {
        Parts p = !known.empty() && ctx.coin() ? known[ctx.below(known.size())] : parts(ctx);
        known.push_back(p);
        auto key = build(ctx, p, 0, p.size());
        TRACE(ctx, "insert ", show(p));
        map[key] = static_cast<int>(i);
        model[real(p)] = static_cast<int>(i);
        Parts q = known[ctx.below(known.size())];
        auto f = map.find(build(ctx, q, 0, q.size()));
        CHECK_THAT(ctx, f != map.end(), show(q), " is not found again");
        CHECK_EQ(ctx, f->second, model[real(q)], show(q), ": what is found");
    }
    CHECK_EQ(ctx, map.size(), model.size(), "number of distinct keys");
    ctx.nontrivial(model.size() >= 2);
}

// ---------------------------------------------------------------- tags
struct TagValue
{
    int kind; // number, text, duration
    val::Num num;
    std::string text;
    int64_t ns;
    bool operator==(const TagValue& o) const
    {
        return kind == o.kind && (kind == 0 ? num.f == o.num.f : kind == 1 ? text == o.text : ns == o.ns);
    }
    metric_value make(pbt::Ctx& ctx) const
    {
        if (kind == 0)
            return num.make();
        if (kind == 1)
            return ctx.coin() || text.find('\0') != std::string::npos ? metric_value(text) : metric_value(text.c_str());
        if (ns % 1000000000 == 0 && ctx.coin())
            return metric_value(std::chrono::seconds(ns / 1000000000));
        if (ns % 1000000 == 0 && ctx.coin())
            return metric_value(std::chrono::milliseconds(ns / 1000000));
        return metric_value(std::chrono::nanoseconds(ns));
    }
    std::string show() const { return kind == 0 ? num.show() : kind == 1 ? pbt::quote(text) : pbt::cat(ns, "ns"); }
};
// texts that no number looks like: text and numbers do not compare as kinds of their own
static TagValue tag_value(pbt::Ctx& ctx, int kind)
{
    TagValue v{kind, val::integer(val::i32, 0), "", 0};
    switch (kind)
    {
        case 0:
            v.num = ctx.coin() ? val::number(ctx) : val::integer(val::i32, ctx.range(0, 3));
            if (ctx.coin() && !val::is_float(v.num.type) && val::fits(val::i8, v.num.i))
                v.num = ctx.coin() ? val::real(val::f64, static_cast<long double>(v.num.i)) : val::integer(val::i64, v.num.i);
            break;
        case 1: v.text = "x" + component(ctx); break;
        default: v.ns = ctx.range(-3, 3) * (ctx.coin() ? 1000000000ll : ctx.coin() ? 1000000 : 1);
    }
    return v;
}
struct Tag
{
    std::string name;
    TagValue value;
};
using Tags = std::vector<Tag>;
using Model = std::map<std::string, TagValue>;

static std::string show(const Tags& t)
{
    std::string s = "{";
    for (auto& x : t)
        s += (s.size() > 1 ? ", " : "") + pbt::quote(x.name) + ": " + x.value.show();
    return s + "}";
}
static Model model_of(const Tags& t)
{
    Model m;
    for (auto& x : t)
        m.emplace(x.name, x.value); // the first of a name counts
    return m;
}
static bool same(const Model& a, const Model& b) { return a == b; }

// the kind of a name's values is fixed, so that only comparable ones meet
static int kind_of(const std::string& name) { return static_cast<int>(name.size() % 3); }
static Tag tag(pbt::Ctx& ctx)
{
    auto n = component(ctx);
    return Tag{n, tag_value(ctx, kind_of(n))};
}
static Tags tags(pbt::Ctx& ctx)
{
    Tags t;
    auto n = ctx.chance(1, 20) ? ctx.size(150) : ctx.size(20);
    for (std::size_t i = 0; i < n; i++)
        t.push_back(tag(ctx));
    return t;
}
static tag_collection make(pbt::Ctx& ctx, const Tags& t)
{
    using V = std::vector<std::pair<std::string, metric_value>>;
    auto mv = [&](std::size_t i) { return t[i].value.make(ctx); };
    switch (ctx.below(5))
    {
        case 0:
            switch (t.size())
            {
                case 0: return tag_collection{};
                case 1: return tag_collection{{t[0].name, mv(0)}};
                case 2: return tag_collection{{t[0].name, mv(0)}, {t[1].name, mv(1)}};
                case 3: return tag_collection{{t[0].name, mv(0)}, {t[1].name, mv(1)}, {t[2].name, mv(2)}};
                case 4: return tag_collection{{t[0].name, mv(0)}, {t[1].name, mv(1)}, {t[2].name, mv(2)}, {t[3].name, mv(3)}};
                default: break;
            }
            // fall through
        case 1: case 2:
        {
            V v;
            for (std::size_t i = 0; i < t.size(); i++)
                v.emplace_back(t[i].name, mv(i));
            return ctx.coin() ? tag_collection(v) : tag_collection(v, static_cast<int>(ctx.below(500)));
        }
        case 3:
        {
            std::map<std::string, metric_value> m;
            for (std::size_t i = 0; i < t.size(); i++)
                m.emplace(t[i].name, mv(i));
            return tag_collection(m);
        }
        default:
        {
            std::unordered_map<std::string, metric_value> m;
            m.rehash(ctx.below(300));
            for (std::size_t i = 0; i < t.size(); i++)
                m.emplace(t[i].name, mv(i));
            return tag_collection(m);
        }
    }
}
static tag_collection remake(pbt::Ctx& ctx, const Model& m)
{
    Tags t;
    for (auto& x : m)
        t.push_back(Tag{x.first, x.second});
    for (std::size_t i = t.size(); i > 1; i--)
        std::swap(t[i - 1], t[ctx.below(i)]);
    return make(ctx, t);
}
static std::size_t hash(const tag_collection& t) { return std::hash<tag_collection>()(t); }

FACET(tag_sets, 12000, 250000)
{
    Tags t = tags(ctx);
    auto m = model_of(t);
    auto a = make(ctx, t), b = remake(ctx, m);
    TRACE(ctx, show(t));
    CHECK_THAT(ctx, a == b && b == a && !(a != b) && !(b != a), show(t), ": the same tags in another order differ");
    CHECK_THAT(ctx, hash(a) == hash(b), show(t), ": the same tags in another order hash differently");
    std::size_t n = 0;
    std::set<std::string> seen;
    for (const auto& p : a)
    {
        ++n;
        seen.insert(p.first);
        auto f = m.find(p.first);
        CHECK_THAT(ctx, f != m.end(), show(t), ": holds a tag ", pbt::quote(p.first), " that was not given");
        CHECK_THAT(ctx, p.second == f->second.make(ctx), show(t), ": tag ", pbt::quote(p.first), " has value ", static_cast<std::string>(p.second));
    }
    CHECK_THAT(ctx, n == m.size() && seen.size() == n, show(t), ": lists ", n, " tags");
    // copies, moves and assignments
    tag_collection c(a), d(make(ctx, tags(ctx)));
    CHECK_THAT(ctx, c == a && hash(c) == hash(a), show(t), ": a copy differs");
    d = c;
    CHECK_THAT(ctx, d == a && hash(d) == hash(a), show(t), ": an assigned copy differs");
    // a different one
    auto m2 = m;
    switch (ctx.below(4))
    {
        case 0: { auto x = tag(ctx); m2[x.name] = x.value; break; }
        case 1: if (!m2.empty()) { auto i = m2.begin(); std::advance(i, ctx.below(m2.size())); m2.erase(i); } break;
        case 2: if (!m2.empty()) { auto i = m2.begin(); std::advance(i, ctx.below(m2.size())); i->second = tag_value(ctx, i->second.kind); } break;
        default:
            if (!m2.empty())
            {
                auto i = m2.begin();
                std::advance(i, ctx.below(m2.size()));
                auto x = tag(ctx);
                auto v = i->second;
                if (kind_of(x.name) == v.kind)
                {
                    m2.erase(i);
                    m2.emplace(x.name, v);
                }
            }
    }
    auto e = remake(ctx, m2);
    bool eq = same(m, m2);
    CHECK_THAT(ctx, (a == e) == eq && (e == a) == eq && (a != e) == !eq && (e != a) == !eq, show(t), " and a changed one: equal is ", a == e, ", expected ", eq);
    if (eq)
        CHECK_THAT(ctx, hash(a) == hash(e), show(t), ": equal tags hash differently");
    ctx.nontrivial(m.size() >= 2);
    ctx.label(m.size() != t.size(), "with repeated names");
}

// numbers, and texts that spell them: two sets are compared value by value
FACET(spelled_tags, 12000, 250000)
{
    struct Value
    {
        bool text;
        val::Num n;
        val::Spelled s;
        metric_value make() const { return text ? metric_value(s.text) : n.make(); }
        std::string show() const { return text ? s.show() : n.show(); }
        bool operator==(const Value& o) const
        {
            if (text && o.text)
                return s.text == o.s.text;
            return (!text || s.number) && (!o.text || o.s.number) && (text ? s.f : n.f) == (o.text ? o.s.f : o.n.f);
        }
    };
    auto value = [&]() {
        auto n = ctx.chance(1, 4) ? val::number(ctx) : ctx.coin() ? val::integer(static_cast<val::Type>(ctx.below(8)), ctx.range(0, 3)) : val::real(ctx.coin() ? val::f64 : val::f32, static_cast<long double>(ctx.range(0, 12)) / 4);
        return Value{ctx.coin(), n, ctx.chance(1, 8) ? val::unspelled(ctx) : val::spelled(ctx, n)};
    };
    auto make = [&](const std::vector<std::pair<std::string, Value>>& t) {
        std::vector<std::pair<std::string, metric_value>> v;
        for (auto& x : t)
            v.emplace_back(x.first, x.second.make());
        for (std::size_t i = v.size(); i > 1; i--)
            std::swap(v[i - 1], v[ctx.below(i)]);
        return tag_collection(v);
    };
    auto n = 1 + ctx.size(6);
    std::vector<std::pair<std::string, Value>> t, u;
    std::string what;
    bool eq = true, crossed = false;
    for (std::size_t i = 0; i < n; i++)
    {
        auto v = value();
        auto w = ctx.chance(1, 8) ? value() : v;
        if (ctx.coin())
        {
            w.text = !w.text;
            if (w.text && w.s.number && ctx.coin())
                w.s = val::spelled(ctx, w.n);
        }
        if (v.text && w.text && !(v == w) && ctx.coin())
            w = v;
        eq = eq && v == w;
        crossed = crossed || v.text != w.text;
        what += pbt::cat(i ? ", " : "", v.show(), " against ", w.show());
        t.emplace_back(pbt::cat("n", i), v);
        u.emplace_back(pbt::cat("n", i), w);
    }
    TRACE(ctx, what);
    auto a = make(t), b = make(u);
    CHECK_THAT(ctx, (a == b) == eq && (a != b) == !eq, what, ": equal is ", a == b, ", expected ", eq);
    CHECK_THAT(ctx, (b == a) == eq && (b != a) == !eq, what, ", the other way round: equal is ", b == a, ", expected ", eq);
    if (eq)
        CHECK_THAT(ctx, hash(a) == hash(b), what, ": equal tags hash differently");
    std::unordered_map<tag_collection, int> map;
    map[a] = 1;
    CHECK_EQ(ctx, map.count(b), static_cast<std::size_t>(eq), what, ": found under the other");
    ctx.nontrivial(eq && crossed);
    ctx.label(!eq, "different");
}

FACET(tag_keys, 4000, 80000)
{
    std::unordered_map<tag_collection, int> map;
    std::vector<std::pair<Model, int>> model;
    auto lookup = [&](const Model& m) -> int* {
        for (auto& e : model)
            if (same(e.first, m))
                return &e.second;
        return nullptr;
    };
    auto n = ctx.size(30);
    for (std::size_t i = 0; i < n; i++)
    {
        auto t = tags(ctx);
        auto m = !model.empty() && ctx.coin() ? model[ctx.below(model.size())].first : model_of(t);
        int v = static_cast<int>(i);
        map[remake(ctx, m)] = v;
        if (auto p = lookup(m))
            *p = v;
        else
            model.emplace_back(m, v);
        auto& q = model[ctx.below(model.size())];
        auto f = map.find(remake(ctx, q.first));
        CHECK_THAT(ctx, f != map.end(), "a tag set is not found again");
        CHECK_EQ(ctx, f->second, q.second, "what is found for a tag set");
    }
    CHECK_EQ(ctx, map.size(), model.size(), "number of distinct tag sets");
    ctx.nontrivial(model.size() >= 2);
}

PBT_MAIN
