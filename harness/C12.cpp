// C12: copies and assignments are equivalent to the original and independent of it
#include "subjects.hpp"

PROPERTY("C12", "A case is a history of operations, copies and assignments over up to four objects of one type; non-trivial when an object was copied or assigned, something was applied to one of the two afterwards, and both were compared.")

using namespace subj;
template<typename X>
using Sub = Subject<X>;

template<typename X>
static void history(pbt::Ctx& ctx)
{
    struct Obj
    {
        std::unique_ptr<X> x;
        int64_t variant, made;
        std::vector<Op> log;
        std::size_t updates() const { return log.size() + ((variant & 4) ? 1 : 0); }
    };
    std::vector<Obj> objs;
    vclock::state().system = static_cast<int64_t>(ctx.draw(1ull << 60));
    auto make = [&] {
        Obj o;
        o.variant = ctx.range(0, 7);
        o.made = vclock::now();
        o.x.reset(Sub<X>::make(o.variant));
        TRACE(ctx, "x", objs.size(), " = new, variant ", o.variant);
        objs.push_back(std::move(o));
    };
    auto all = [&] {
        std::vector<Seen> r;
        for (auto& o : objs)
            r.push_back(seen(static_cast<const X&>(*o.x)));
        return r;
    };
    auto others_unchanged = [&](const std::vector<Seen>& before, std::size_t except, const char* what) {
        for (std::size_t i = 0; i < before.size(); i++)
            if (i != except)
            {
                auto now = seen(static_cast<const X&>(*objs[i].x));
                CHECK_THAT(ctx, now.same(before[i]), what, " x", except, " changed x", i, " from ", before[i], " to ", now);
            }
    };
    bool copied = false, applied_after = false;
    make();
    if (ctx.coin())
        make();
    auto steps = ctx.size(50);
    for (std::size_t k = 0; k < steps; k++)
    {
        auto i = ctx.below(objs.size());
        switch (ctx.below(9))
        {
            case 0: case 1: case 2: case 3:
            {
                auto before = all();
                auto op = Sub<X>::draw(ctx);
                op.at = vclock::now();
                TRACE(ctx, "x", i, ": operation ", op.kind, "(", op.a, ") at ", vclock::now() - vclock::base);
                Sub<X>::apply(*objs[i].x, op);
                objs[i].log.push_back(op);
                others_unchanged(before, i, "an operation on");
                applied_after = applied_after || copied;
                break;
            }
            case 4: vclock::advance(step(ctx)); break;
            case 5:
                if (objs.size() < 4)
                {
                    auto before = all();
                    TRACE(ctx, "x", objs.size(), " = copy of x", i);
                    Obj o;
                    o.variant = objs[i].variant;
                    o.made = objs[i].made;
                    o.log = objs[i].log;
                    o.x.reset(new X(static_cast<const X&>(*objs[i].x)));
                    auto s = seen(static_cast<const X&>(*o.x));
                    objs.push_back(std::move(o));
                    CHECK_THAT(ctx, s.same(before[i]), "the copy of x", i, " shows ", s, ", the original ", before[i]);
                    others_unchanged(before, objs.size() - 1, "copying into");
                    copied = true;
                    applied_after = false;
                }
                break;
            case 6: // assignment, chained with another one
            {
                auto before = all();
                auto j = ctx.below(objs.size());
                if (objs.size() > 2 && ctx.chance(1, 3))
                {
                    auto l = ctx.below(objs.size());
                    TRACE(ctx, "x", l, " = x", j, " = x", i);
                    *objs[l].x = *objs[j].x = static_cast<const X&>(*objs[i].x);
                    for (auto to : {j, l})
                    {
                        auto s = seen(static_cast<const X&>(*objs[to].x));
                        CHECK_THAT(ctx, s.same(before[i]), "after the assignment, x", to, " shows ", s, ", the original ", before[i]);
                        if (to != i)
                        {
                            objs[to].variant = objs[i].variant;
                            objs[to].made = objs[i].made;
                            objs[to].log = objs[i].log;
                        }
                        before[to] = before[i];
                    }
                    others_unchanged(before, ~std::size_t(0), "assigning");
                    copied = copied || j != i || l != i;
                    applied_after = false;
                    break;
                }
                TRACE(ctx, "x", j, " = x", i);
                X& r = (*objs[j].x = static_cast<const X&>(*objs[i].x));
                CHECK_THAT(ctx, &r == objs[j].x.get(), "the assignment does not yield its left side");
                auto s = seen(static_cast<const X&>(*objs[j].x));
                CHECK_THAT(ctx, s.same(before[i]), "after the assignment, x", j, " shows ", s, ", the original ", before[i]);
                if (i != j)
                {
                    objs[j].variant = objs[i].variant;
                    objs[j].made = objs[i].made;
                    objs[j].log = objs[i].log;
                    copied = true;
                    applied_after = false;
                    others_unchanged(before, j, "assigning to");
                }
                ctx.label(i == j, "self-assignment");
                break;
            }
            case 7: // destroy one; the others live on
                if (objs.size() > 2)
                {
                    TRACE(ctx, "destroy x", i, " (the last one takes its name)");
                    auto before = all();
                    std::swap(objs[i], objs.back());
                    std::swap(before[i], before.back());
                    objs.pop_back();
                    before.pop_back();
                    others_unchanged(before, ~std::size_t(0), "destroying an object");
                }
                break;
            default:
                if (objs.size() < 4)
                    make();
        }
    }
    // every object must be what its own history makes of a fresh one
    auto end = vclock::now();
    auto final = all();
    for (std::size_t i = 0; i < objs.size(); i++)
    {
        auto& o = objs[i];
        if (o.updates() > Sub<X>::exact_updates)
            continue;
        vclock::now() = o.made;
        std::unique_ptr<X> twin(Sub<X>::make(o.variant));
        for (auto& op : o.log)
        {
            vclock::now() = op.at;
            Sub<X>::apply(*twin, op);
        }
        vclock::now() = end;
        auto t = seen(static_cast<const X&>(*twin));
        CHECK_THAT(ctx, final[i].same(t), "x", i, " shows ", final[i], ", but its history alone gives ", t);
        // and go on like it
        for (int k = 0; k < 3; k++)
        {
            vclock::advance(step(ctx));
            auto op = Sub<X>::draw(ctx);
            if (o.updates() + k + 1 > Sub<X>::exact_updates)
                break;
            Sub<X>::apply(*twin, op);
            Sub<X>::apply(*o.x, op);
            auto a = seen(static_cast<const X&>(*o.x)), b = seen(static_cast<const X&>(*twin));
            CHECK_THAT(ctx, a.same(b), "after further operations, x", i, " shows ", a, ", but its history alone gives ", b);
        }
        vclock::now() = end;
    }
    ctx.nontrivial(copied && applied_after && objs.size() > 1);
    ctx.label(objs.size() > 2, "three or more objects");
}

#define F(name, ...) \
    static void name##_fn(pbt::Ctx& c) { history<__VA_ARGS__>(c); } FACET_AS(name, 2000, 30000, name##_fn);
SUBJECTS(F)

// values: copied by construction, assigned from a copy
FACET(metric_values, 6000, 60000)
{
    std::vector<metric_value> v;
    std::vector<std::string> text; // what each must show
    auto fresh = [&]() -> metric_value {
        switch (ctx.below(7))
        {
            case 0: return metric_value(ctx.range(-1000, 1000));
            case 1: return metric_value(static_cast<int32_t>(ctx.range(-100, 100)));
            case 2: return metric_value(static_cast<uint8_t>(ctx.below(20)));
            case 3: return metric_value(static_cast<double>(ctx.range(-1000, 1000)) / 8);
            case 4: return metric_value(std::chrono::milliseconds(ctx.range(0, 5000)));
            case 5: return metric_value(std::string(ctx.below(60), static_cast<char>('a' + ctx.below(26))));
            default: return metric_value(static_cast<uint64_t>(ctx.below(100000)));
        }
    };
    auto n = 1 + ctx.below(4);
    for (uint64_t i = 0; i < n; i++)
    {
        v.push_back(fresh());
        text.push_back(static_cast<std::string>(v.back()));
        TRACE(ctx, "v", i, " = ", text.back());
    }
    bool copied = false, changed = false, swapped = false;
    auto steps = ctx.size(30);
    for (std::size_t k = 0; k < steps; k++)
    {
        auto i = ctx.below(v.size()), j = ctx.below(v.size());
        switch (ctx.below(8))
        {
            case 6: // also with itself, as happens in shuffling
                TRACE(ctx, "swap v", i, " and v", j);
                std::swap(v[i], v[j]);
                std::swap(text[i], text[j]);
                swapped = true;
                break;
            case 7:
            {
                auto first = std::min(i, j), middle = std::max(i, j);
                TRACE(ctx, "rotate v", first, " to v", v.size() - 1, " by ", middle - first);
                std::rotate(v.begin() + first, v.begin() + middle, v.end());
                std::rotate(text.begin() + first, text.begin() + middle, text.end());
                break;
            }
            case 0:
                if (v.size() < 8)
                {
                    TRACE(ctx, "v", v.size(), " = copy of v", i);
                    v.reserve(16);
                    v.emplace_back(static_cast<const metric_value&>(v[i]));
                    text.push_back(text[i]);
                    copied = true;
                }
                break;
            case 1:
                TRACE(ctx, "v", j, " = copy of v", i);
                v[j] = metric_value(v[i]);
                text[j] = text[i];
                copied = copied || i != j;
                break;
            case 2:
            {
                auto was_i = metric_value(v[i]);
                TRACE(ctx, "v", j, " += v", i);
                auto want = static_cast<std::string>(metric_value(v[j]) + was_i);
                v[j] += v[i];
                text[j] = want;
                changed = changed || copied;
                break;
            }
            case 3:
            {
                TRACE(ctx, "v", j, " = fresh");
                v[j] = fresh();
                text[j] = static_cast<std::string>(v[j]);
                changed = changed || copied;
                break;
            }
            case 4: // binary operators leave both alone
                TRACE(ctx, "v", i, " + - * / v", j);
                v[i] + v[j];
                v[i] - v[j];
                v[i] * v[j];
                v[i] / v[j];
                -v[i];
                break;
            default: // moving out and back in
            {
                TRACE(ctx, "v", j, " = move of v", i, " through another");
                metric_value m(std::move(v[i]));
                CHECK_EQ(ctx, static_cast<std::string>(m), text[i], "a moved value");
                v[i] = std::move(m);
            }
        }
        for (std::size_t l = 0; l < v.size(); l++)
            CHECK_EQ(ctx, static_cast<std::string>(v[l]), text[l], "v", l);
    }
    ctx.nontrivial(copied && changed);
    ctx.label(swapped, "swapped");
}

PBT_MAIN
