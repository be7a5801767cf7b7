// C01: counter arithmetic against a modular reference model
#include "pbt.hpp"
#include <cxxmetrics/counter.hpp>

PROPERTY("C01", "A case is a sequence of operations on up to four counters of one integer type; non-trivial when it has at least three operations of at least two kinds, one of them changing a counter.")

template<typename T>
static T wrap_add(T a, T b)
{
    using U = typename std::make_unsigned<T>::type;
    return static_cast<T>(static_cast<U>(static_cast<U>(a) + static_cast<U>(b)));
}

template<typename T>
static T wrap_neg(T a)
{
    using U = typename std::make_unsigned<T>::type;
    return static_cast<T>(static_cast<U>(U(0) - static_cast<U>(a)));
}

// the widest exact form of the same signedness
template<typename T>
static T num(const cxxmetrics::metric_value& v)
{
    using W = typename std::conditional<std::is_signed<T>::value, int64_t, uint64_t>::type;
    return static_cast<T>(static_cast<W>(v));
}

template<typename T>
static T snap_value(const cxxmetrics::counter<T>& c)
{
    auto s = c.snapshot();
    return num<T>(s.value());
}

template<typename T>
static void history(pbt::Ctx& ctx)
{
    using C = cxxmetrics::counter<T>;
    std::vector<std::unique_ptr<C>> cs;
    std::vector<T> model;
    auto make = [&] {
        if (ctx.coin())
        {
            T v = ctx.integer<T>();
            cs.emplace_back(new C(v));
            model.push_back(v);
            TRACE(ctx, "c", cs.size() - 1, " = counter(", v, ")");
        }
        else
        {
            cs.emplace_back(new C());
            model.push_back(0);
            TRACE(ctx, "c", cs.size() - 1, " = counter()");
        }
    };
    make();
    auto n = ctx.size(120);
    std::set<int> kinds;
    std::size_t done = 0;
    bool changed = false;
    for (std::size_t k = 0; k < n; k++)
    {
        auto i = ctx.below(cs.size());
        auto& c = *cs[i];
        T& m = model[i];
        T by = 0;
        int op = static_cast<int>(ctx.below(18));
        kinds.insert(op);
        ++done;
        switch (op)
        {
            case 0: CHECK_EQ(ctx, c.value(), m, "value()"); break;
            case 1:
                by = ctx.integer<T>();
                TRACE(ctx, "c", i, ".incr(", by, ")");
                m = wrap_add(m, by);
                changed = true;
                { T r = c.incr(by); CHECK_EQ(ctx, r, m, "the result of incr"); }
                break;
            case 2:
                TRACE(ctx, "++c", i);
                m = wrap_add<T>(m, 1);
                changed = true;
                { C& r = ++c; CHECK_THAT(ctx, &r == &c, "++c does not yield the counter itself"); CHECK_EQ(ctx, static_cast<T>(r), m, "++c"); }
                break;
            case 3:
            {
                TRACE(ctx, "c", i, "++");
                T old = m;
                m = wrap_add<T>(m, 1);
                changed = true;
                T r = static_cast<T>(c++);
                CHECK_EQ(ctx, r, old, "the result of c++");
                break;
            }
            case 4:
                by = ctx.integer<T>();
                TRACE(ctx, "c", i, " += ", by);
                m = wrap_add(m, by);
                changed = true;
                { C& r = (c += by); CHECK_THAT(ctx, &r == &c, "+= does not yield the counter itself"); }
                break;
            case 5:
                TRACE(ctx, "--c", i);
                m = wrap_add(m, wrap_neg<T>(1));
                changed = true;
                { C& r = --c; CHECK_THAT(ctx, &r == &c, "--c does not yield the counter itself"); CHECK_EQ(ctx, static_cast<T>(r), m, "--c"); }
                break;
            case 6:
                by = ctx.integer<T>();
                TRACE(ctx, "c", i, " -= ", by);
                m = wrap_add(m, wrap_neg(by));
                changed = true;
                { C& r = (c -= by); CHECK_THAT(ctx, &r == &c, "-= does not yield the counter itself"); }
                break;
            case 7:
                by = ctx.integer<T>();
                TRACE(ctx, "c", i, " = ", by);
                m = by;
                changed = true;
                { C& r = (c = by); CHECK_THAT(ctx, &r == &c, "assigning a value does not yield the counter itself"); }
                break;
            case 8:
            case 9: // copies
                if (cs.size() < 4)
                {
                    TRACE(ctx, "c", cs.size(), " = copy of c", i);
                    cs.emplace_back(new C(static_cast<const C&>(c)));
                    T v = m;
                    model.push_back(v);
                }
                else
                {
                    auto j = ctx.below(cs.size());
                    TRACE(ctx, "c", j, " = c", i);
                    C& r = (*cs[j] = static_cast<const C&>(c));
                    CHECK_THAT(ctx, &r == cs[j].get(), "copy assignment does not yield the counter itself");
                    T v = m;
                    model[j] = v;
                }
                break;
            case 10: // move construction
                if (cs.size() < 4)
                {
                    TRACE(ctx, "c", cs.size(), " = moved from c", i);
                    cs.emplace_back(new C(std::move(c)));
                    T v = m;
                    m = 0;
                    model.push_back(v);
                    changed = true;
                }
                break;
            case 11: // move assignment
            {
                auto j = ctx.below(cs.size());
                if (j == i)
                    break; // moving from itself: the source is the target
                TRACE(ctx, "c", j, " = move(c", i, ")");
                C& r = (*cs[j] = std::move(c));
                CHECK_THAT(ctx, &r == cs[j].get(), "move assignment does not yield the counter itself");
                model[j] = m;
                m = 0;
                changed = true;
                break;
            }
            case 12: CHECK_EQ(ctx, snap_value(c), m, "the snapshot's value"); break;
            case 13:
            { // the chained forms
                by = ctx.integer<T>();
                T by2 = ctx.integer<T>();
                TRACE(ctx, "(c", i, " += ", by, ") -= ", by2);
                (c += by) -= by2;
                m = wrap_add(wrap_add(m, by), wrap_neg(by2));
                changed = true;
                break;
            }
            case 14:
            { // a snapshot does not follow the counter
                auto s = c.snapshot();
                by = ctx.integer<T>();
                TRACE(ctx, "snapshot of c", i, ", then incr(", by, ")");
                T before = m;
                m = wrap_add(m, by);
                changed = true;
                T r = c.incr(by);
                CHECK_EQ(ctx, r, m, "the result of incr");
                CHECK_EQ(ctx, num<T>(s.value()), before, "an earlier snapshot");
                CHECK_THAT(ctx, s == cxxmetrics::cumulative_value_snapshot(before), "an earlier snapshot does not equal that of its value");
                break;
            }
            case 15:
            { // self assignment
                TRACE(ctx, "c", i, " = c", i);
                const C& self = c;
                c = self;
                break;
            }
            case 16:
            { // many small steps
                auto reps = ctx.below(300);
                bool up = ctx.coin();
                TRACE(ctx, up ? "++" : "--", "c", i, " ", reps, " times");
                for (uint64_t r = 0; r < reps; r++)
                    up ? static_cast<void>(++c) : static_cast<void>(--c);
                m = wrap_add(m, up ? static_cast<T>(reps) : wrap_neg(static_cast<T>(reps)));
                changed = true;
                break;
            }
            default:
                CHECK_EQ(ctx, static_cast<T>(static_cast<const C&>(c)), m, "the conversion");
        }
        for (std::size_t j = 0; j < cs.size(); j++)
            CHECK_EQ(ctx, cs[j]->value(), model[j], "value of c", j, " after operation ", op);
    }
    for (std::size_t j = 0; j < cs.size(); j++)
    {
        CHECK_EQ(ctx, snap_value(*cs[j]), model[j], "the snapshot of c", j);
        CHECK_THAT(ctx, cs[j]->snapshot().value() == cxxmetrics::metric_value(model[j]), "the snapshot value of c", j, " does not equal ", model[j]);
    }
    ctx.nontrivial(done >= 3 && kinds.size() >= 2 && changed);
    ctx.label(n >= 12, "at least 12 operations");
    ctx.label(cs.size() > 1, "several counters");
}

FACET_AS(int64, 6000, 200000, history<int64_t>);
FACET_AS(uint64, 4000, 100000, history<uint64_t>);
FACET_AS(int32, 4000, 100000, history<int32_t>);
FACET_AS(uint32, 4000, 100000, history<uint32_t>);
FACET_AS(int16, 4000, 100000, history<int16_t>);
FACET_AS(uint16, 4000, 100000, history<uint16_t>);
FACET_AS(int8, 4000, 100000, history<signed char>);
FACET_AS(uint8, 4000, 100000, history<unsigned char>);
FACET_AS(longlong, 2000, 100000, history<long long>);
FACET_AS(ulonglong, 2000, 100000, history<unsigned long long>);

PBT_MAIN
