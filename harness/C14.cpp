// C14: read-only access never disturbs a metric
#include "subjects.hpp"

PROPERTY("C14", "A case is a history of updates, ordinary readings and clock movements applied to twins of one type, one of which is also read through read-only access at drawn moments; non-trivial when it was read at least twice with updates and clock movement around.")

using namespace subj;

template<typename X>
static void history(pbt::Ctx& ctx)
{
    using S = Subject<X>;
    auto variant = ctx.range(0, 7);
    vclock::state().system = static_cast<int64_t>(ctx.draw(1ull << 60));
    std::unique_ptr<X> read(S::make(variant)), unread(S::make(variant)), control(S::make(variant));
    TRACE(ctx, "variant ", variant);
    std::size_t reads = 0, updates = (variant & 4) ? 1 : 0, after = 0;
    int64_t moved = 0;
    auto look = [&] {
        const X& c = *read;
        auto a = seen(c);
        TRACE(ctx, "read-only reading at ", vclock::now() - vclock::base, " -> ", a);
        auto b = seen(c);
        CHECK_THAT(ctx, a.same(b), "two read-only readings at one instant differ: ", a, " and ", b);
        std::unique_ptr<X> copy(new X(c)); // copying reads, too
        auto k = seen(static_cast<const X&>(*copy));
        CHECK_THAT(ctx, k.same(a), "a copy shows ", k, ", the original ", a);
        auto o = seen(*copy); // an ordinary reading: the numbers must agree (each of them is read once here or compared below)
        CHECK_EQ(ctx, o.numbers.size(), a.numbers.size(), "observations");
        CHECK_THAT(ctx, o.same(a), "an ordinary reading shows ", o, ", a read-only one ", a);
        ++reads;
    };
    auto steps = ctx.size(80);
    for (std::size_t k = 0; k < steps; k++)
        switch (ctx.below(6))
        {
            case 0: case 1: case 2:
            {
                auto op = S::draw(ctx);
                TRACE(ctx, "operation ", op.kind, "(", op.a, ") at ", vclock::now() - vclock::base);
                S::apply(*read, op);
                S::apply(*unread, op);
                S::apply(*control, op);
                ++updates;
                after += reads > 0;
                break;
            }
            case 3: { auto d = step(ctx); moved += d; vclock::advance(d); break; }
            default: look();
        }
    auto compare = [&](const char* when) {
        auto a = seen(static_cast<const X&>(*read)), b = seen(static_cast<const X&>(*unread)), c = seen(static_cast<const X&>(*control));
        if (!b.same(c) && updates > S::exact_updates)
            ctx.discard(); // random, and not seeded by the clock: twins say nothing
        CHECK_THAT(ctx, b.same(c), when, ": two unread twins differ: ", b, " and ", c);
        CHECK_THAT(ctx, a.same(b), when, ": the one that was read shows ", a, ", the unread one ", b);
    };
    compare("at the end");
    // the difference may show only later
    for (int i = 0; i < 4; i++)
    {
        vclock::advance(step(ctx));
        auto op = S::draw(ctx);
        S::apply(*read, op);
        S::apply(*unread, op);
        S::apply(*control, op);
        ++updates;
        compare("after further operations");
    }
    ctx.nontrivial(reads >= 2 && after >= 1 && updates >= 2 && moved > 0);
    ctx.label(reads >= 5, "five or more readings");
}

#define F(name, ...) \
    static void name##_fn(pbt::Ctx& c) { history<__VA_ARGS__>(c); } FACET_AS(name, 2000, 30000, name##_fn);
SUBJECTS(F)

PBT_MAIN
