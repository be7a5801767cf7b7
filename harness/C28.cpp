// C28: operations always finish while any thread can run
#include "sched.hpp"
#include "subjects.hpp"
#include <cxxmetrics/internal/atomic_lifo.hpp>

PROPERTY("C28", "A case is a lock-free metric, reservoir or stack with some history, a small program of recordings, readings and copies for each of 2-4 threads, a drawn schedule at the granularity of single accesses to shared memory, and for some of the threads (never all) an access at which they are suspended; the others must finish all that they do, each within 20000 accesses on its own, before the suspended ones go on; non-trivial when at least one thread was suspended in the middle of its program and another one had something to do after that.")

using namespace subj;

struct Step
{
    int kind; // 0-3: an operation, 4: reading, 5: ordinary reading, 6: copying, 7: the clock moves
    Op op;
    int64_t time;
};

static void go(pbt::Ctx& ctx, const std::vector<std::vector<int>>& sizes, const std::vector<sched::Body>& bodies)
{
    sched::run(ctx, bodies, true);
    std::size_t busy = 0;
    for (auto& s : sizes)
        busy += !s.empty();
    ctx.nontrivial(sched::frozen() > 0 && busy > 1);
    ctx.label(sched::frozen() == 0, "nobody suspended");
    ctx.label(sched::frozen() > 1, "several suspended");
}

template<typename X>
static void subject(pbt::Ctx& ctx)
{
    using S = Subject<X>;
    std::unique_ptr<X> x(S::make(ctx.range(0, 7)));
    auto before = ctx.size(20);
    for (std::size_t i = 0; i < before; i++)
    {
        auto op = S::draw(ctx);
        TRACE(ctx, "before: operation ", op.kind, "(", op.a, ")");
        S::apply(*x, op);
        if (ctx.chance(1, 4))
            vclock::advance(step(ctx));
    }
    auto n = 2 + ctx.below(3);
    std::vector<std::vector<Step>> steps(n);
    std::vector<std::vector<int>> sizes(n);
    std::vector<sched::Body> bodies;
    for (std::size_t t = 0; t < n; t++)
    {
        auto m = 1 + ctx.below(5);
        for (std::size_t i = 0; i < m; i++)
        {
            Step s;
            s.kind = static_cast<int>(ctx.below(8));
            s.op = S::draw(ctx);
            s.time = step(ctx);
            static const char* const names[] = {"operation", "operation", "operation", "operation", "read-only reading", "reading", "copy", "clock"};
            TRACE(ctx, "T", t, ": ", names[s.kind], " ", s.kind < 4 ? s.op.kind : 0, "(", s.kind < 4 ? s.op.a : s.kind == 7 ? s.time : 0, ")");
            steps[t].push_back(s);
            sizes[t].push_back(s.kind);
        }
        bodies.push_back([&, t] {
            for (auto& s : steps[t])
                switch (s.kind)
                {
                    case 0: case 1: case 2: case 3: S::apply(*x, s.op); break;
                    case 4: seen(static_cast<const X&>(*x)); break;
                    case 5: seen(*x); break;
                    case 6: { std::unique_ptr<X> copy(new X(*x)); seen(*copy); break; }
                    default: { sched::Quiet q; vclock::advance(s.time); }
                }
        });
    }
    go(ctx, sizes, bodies);
}

// what it does not need a clock or a snapshot for
template<typename T>
static void stack(pbt::Ctx& ctx)
{
    using Stack = internal::atomic_lifo<T>;
    std::unique_ptr<Stack> s(new Stack());
    auto before = ctx.below(5);
    for (std::size_t i = 0; i < before; i++)
        s->push(T(i));
    auto n = 2 + ctx.below(3);
    std::vector<std::vector<int>> steps(n);
    std::vector<std::vector<typename Stack::pointer_type>> popped(n); // kept, like in C24
    std::vector<sched::Body> bodies;
    for (std::size_t t = 0; t < n; t++)
    {
        auto m = 1 + ctx.below(5);
        popped[t].resize(m);
        for (std::size_t i = 0; i < m; i++)
        {
            steps[t].push_back(static_cast<int>(ctx.below(2)));
            TRACE(ctx, "T", t, ": ", steps[t].back() ? "pop" : "push");
        }
        bodies.push_back([&, t] {
            for (std::size_t i = 0; i < steps[t].size(); i++)
                if (steps[t][i])
                    popped[t][i] = s->pop();
                else
                    s->push(T(100 * t + i));
        });
    }
    go(ctx, steps, bodies);
}

#define F(name, ...) \
    static void name##_fn(pbt::Ctx& c) { subject<__VA_ARGS__>(c); } FACET_AS(name, 2500, 60000, name##_fn);
SUBJECTS(F)
FACET_AS(stack_int, 4000, 100000, stack<int>);
FACET_AS(stack_int64, 4000, 100000, stack<int64_t>);

PBT_MAIN
