// C33: pooled objects live exactly as long as their handles
#include "sched.hpp"
#include <cxxmetrics/pool.hpp>

PROPERTY("C33", "A case is a history of allocating from pools and of copying, moving, assigning, exchanging and releasing handles by one thread, or 2-3 threads' operations on handles of their own and shared ones under a drawn schedule; non-trivial when storage was reused, or an object was released by one thread after another had it.")

using namespace cxxmetrics::internal;

// -- what lives
struct World
{
    std::map<const void*, int64_t> alive; // objects in pools
    std::set<const void*> blocks;
    int64_t allocated = 0, most = 0, made = 0;
    std::string wrong;
    void complain(const char* what)
    {
        if (wrong.empty())
            wrong = what;
    }
};
inline World*& world()
{
    static World* w = nullptr;
    return w;
}
struct Object
{
    int64_t id;
    int64_t check;
    bool pooled = false;
    Object() : id(0), check(~id) { } // only ever in the caller's hands
    explicit Object(int64_t id) : id(id), check(~id) { }
    Object(const Object& o) : id(o.id), check(o.check), pooled(true)
    {
        sched::Quiet q;
        if (!world()->alive.emplace(this, id).second)
            world()->complain("an object is made where another one lives");
        ++world()->made;
    }
    ~Object()
    {
        sched::Quiet q;
        if (pooled && !world()->alive.erase(this))
            world()->complain("an object is destroyed that doesn't live");
        check = 0;
    }
};
template<typename... T>
struct Counted;
template<typename T>
struct Counted<T>
{
    using value_type = T;
    T* allocate(std::size_t n)
    {
        auto p = static_cast<T*>(::operator new(n * sizeof(T)));
        sched::Quiet q;
        world()->blocks.insert(p);
        ++world()->allocated;
        return p;
    }
    void deallocate(T* p, std::size_t)
    {
        {
            sched::Quiet q;
            if (!world()->blocks.erase(p))
                world()->complain("a block is given back that wasn't taken, or twice");
        }
        ::operator delete(p);
    }
    template<typename U, typename... A>
    void construct(U* p, A&&... a) { ::new (static_cast<void*>(p)) U(std::forward<A>(a)...); }
};
using Pool = pool<Object, Counted>;
using Handle = pool_ptr<Object, Counted>;

static void intact(pbt::Ctx& ctx, const Handle& h, int64_t id)
{
    CHECK_EQ(ctx, static_cast<bool>(h), id != 0, "whether the handle has an object");
    if (!id)
        return;
    CHECK_EQ(ctx, world()->alive.count(&*h), std::size_t(1), "objects where the handle points");
    CHECK_EQ(ctx, h->id, id, "the object's number");
    CHECK_EQ(ctx, (*h).check, ~id, "the object's content");
}

struct Machine
{
    pbt::Ctx& ctx;
    World w;
    std::vector<std::unique_ptr<Pool>> pools;
    struct Held
    {
        std::unique_ptr<Handle> h;
        int64_t id; // 0: null
        std::size_t pool;
        const void* at;
    };
    std::vector<Held> held;
    int64_t next = 1;
    std::vector<int64_t> peak;

    explicit Machine(pbt::Ctx& ctx) : ctx(ctx)
    {
        world() = &w;
        auto n = 1 + ctx.below(2);
        for (std::size_t i = 0; i < n; i++)
            pools.emplace_back(new Pool());
        peak.assign(n, 0);
    }
    ~Machine() { held.clear(); pools.clear(); world() = nullptr; }

    std::size_t any() { return ctx.below(held.size()); }
    void step()
    {
        if (held.empty() || (held.size() < 12 && ctx.chance(1, 4)))
        {
            auto p = ctx.below(pools.size());
            Handle h = pools[p]->allocate(Object(next));
            TRACE(ctx, "handle ", held.size(), ": object ", next, " of pool ", p);
            auto at = &*h;
            if (ctx.coin() || held.empty())
                held.push_back(Held{std::make_unique<Handle>(std::move(h)), next, p, at});
            else
            {
                auto i = any();
                TRACE(ctx, "it goes to ", i);
                *held[i].h = std::move(h);
                held[i].id = next;
                held[i].pool = p;
                held[i].at = at;
            }
            ++next;
            return;
        }
        auto i = any(), j = any(), k = any();
        auto& a = held[i];
        auto& b = held[j];
        auto& c = held[k];
        switch (ctx.below(11))
        {
            case 0:
                TRACE(ctx, "handle ", held.size(), ": a copy of ", i);
                held.push_back(Held{std::make_unique<Handle>(*a.h), a.id, a.pool, a.at});
                break;
            case 1:
                TRACE(ctx, "handle ", held.size(), ": moved from ", i);
                held.push_back(Held{std::make_unique<Handle>(std::move(*a.h)), a.id, a.pool, a.at});
                held[i].id = 0;
                break;
            case 2: case 3:
                TRACE(ctx, i, " = ", j);
                CHECK_THAT(ctx, &(*a.h = *b.h) == a.h.get(), "an assignment returns another handle");
                a.id = b.id;
                a.pool = b.pool;
                a.at = b.at;
                break;
            case 4:
                if (i == j)
                    break;
                TRACE(ctx, i, " = moved from ", j);
                *a.h = std::move(*b.h);
                a.id = b.id;
                a.pool = b.pool;
                a.at = b.at;
                b.id = 0;
                break;
            case 5:
                TRACE(ctx, i, " = null");
                *a.h = nullptr;
                a.id = 0;
                break;
            case 6:
                TRACE(ctx, "end of ", i);
                held.erase(held.begin() + static_cast<std::ptrdiff_t>(i));
                break;
            case 7:
            {
                TRACE(ctx, "exchange ", i, " for ", j, " into ", k);
                auto was = Held{nullptr, a.id, a.pool, a.at};
                auto old = a.h->exchange(*b.h);
                a.id = b.id;
                a.pool = b.pool;
                a.at = b.at;
                *c.h = std::move(old);
                c.id = was.id;
                c.pool = was.pool;
                c.at = was.at;
                break;
            }
            case 8: case 9:
            {
                TRACE(ctx, "compare ", i, " with ", j, " and exchange it for ", k);
                bool same = a.id == b.id;
                auto desired = Held{nullptr, c.id, c.pool, c.at};
                auto current = Held{nullptr, a.id, a.pool, a.at};
                CHECK_EQ(ctx, a.h->compare_exchange_strong(*b.h, *c.h), same, "whether it was exchanged");
                if (same)
                {
                    a.id = desired.id;
                    a.pool = desired.pool;
                    a.at = desired.at;
                }
                else
                {
                    b.id = current.id;
                    b.pool = current.pool;
                    b.at = current.at;
                }
                break;
            }
            default:
                CHECK_EQ(ctx, *a.h == *b.h, a.id == b.id, "whether ", i, " equals ", j);
                CHECK_EQ(ctx, *a.h != *b.h, a.id != b.id, "whether ", i, " differs from ", j);
                CHECK_THAT(ctx, a.id == 0 || a.h->operator->() == &**a.h, "-> isn't the address of *");
        }
    }
    void check()
    {
        std::set<int64_t> ids;
        std::vector<std::set<int64_t>> of(pools.size());
        for (std::size_t i = 0; i < held.size(); i++)
        {
            auto& h = held[i];
            intact(ctx, *h.h, h.id);
            if (!h.id)
                continue;
            CHECK_THAT(ctx, &**h.h == h.at, "object ", h.id, " moved");
            ids.insert(h.id);
            of[h.pool].insert(h.id);
        }
        CHECK_EQ(ctx, w.alive.size(), ids.size(), "objects alive");
        CHECK_THAT(ctx, w.wrong.empty(), w.wrong);
        int64_t most = 0;
        for (std::size_t p = 0; p < pools.size(); p++)
            most += peak[p] = std::max(peak[p], static_cast<int64_t>(of[p].size()));
        w.most = most;
    }
    void run()
    {
        auto steps = 2 + ctx.size(60);
        for (std::size_t s = 0; s < steps; s++)
        {
            auto before = held.size();
            step();
            check();
            (void)before;
        }
        // what was released serves again: an object more than there ever were at once may have been in a temporary
        CHECK_THAT(ctx, w.allocated <= w.most + static_cast<int64_t>(pools.size()), "storage isn't reused: ", w.allocated, " blocks for never more than ", w.most, " objects");
        ctx.nontrivial(next - 1 > w.allocated);
        held.clear();
        check();
        pools.clear();
        CHECK_THAT(ctx, w.wrong.empty(), w.wrong);
        CHECK_THAT(ctx, w.blocks.empty(), "blocks not given back: ", w.blocks.size());
    }
};
FACET(sequential, 12000, 300000)
{
    Machine m(ctx);
    m.run();
}

// -- several threads share objects through handles of their own and common ones
using State = std::vector<int64_t>; // what the common handles hold
FACET(threads, 60000, 1500000)
{
    World w;
    world() = &w;
    struct Reset { ~Reset() { world() = nullptr; } } reset;
    {
        Pool p;
        auto nobjects = 1 + ctx.below(4);
        std::vector<Handle> first(nobjects + 1); // number 0 is null
        for (std::size_t i = 1; i <= nobjects; i++)
            first[i] = p.allocate(Object(static_cast<int64_t>(i)));
        auto nslots = 1 + ctx.below(2);
        std::deque<Handle> slots(nslots);
        State initial;
        for (std::size_t i = 0; i < nslots; i++)
        {
            auto o = ctx.below(nobjects + 1);
            initial.push_back(static_cast<int64_t>(o));
            slots[i] = first[o];
        }
        auto nthreads = 2 + ctx.below(2);
        struct Step { int kind; std::size_t slot, a, b; };
        std::vector<std::vector<Step>> programs(nthreads);
        std::vector<std::deque<Handle>> own(nthreads);
        std::vector<std::deque<int64_t>> ids(nthreads);
        std::string whats[] = {"exchange", "compare", "put", "put moved", "get", "take", "copy", "release", "take over"};
        for (std::size_t t = 0; t < nthreads; t++)
        {
            for (int i = 0; i < 2; i++)
            {
                auto o = ctx.below(nobjects + 1);
                own[t].push_back(first[o]);
                ids[t].push_back(static_cast<int64_t>(o));
                TRACE(ctx, "T", t, " holds object ", o);
            }
            auto n = 1 + ctx.below(4);
            for (std::size_t i = 0; i < n; i++)
            {
                Step s{static_cast<int>(ctx.below(9)), ctx.below(nslots), ctx.below(2), ctx.below(2)};
                TRACE(ctx, "T", t, ": ", whats[s.kind], " slot ", s.slot, ", own ", s.a, ", ", s.b);
                programs[t].push_back(s);
            }
        }
        for (std::size_t i = 0; i < nslots; i++)
            TRACE(ctx, "slot ", i, " holds object ", initial[i]);
        first.clear();
        sched::History<State> h(nthreads);
        std::vector<sched::Body> bodies;
        std::size_t got = 0, lost = 0;
        for (std::size_t t = 0; t < nthreads; t++)
            bodies.push_back([&, t] {
                using Apply = std::function<bool(State&)>;
                // what a handle shows, while nobody else has it
                auto id_of = [&](const Handle& x) -> int64_t {
                    sched::Quiet q;
                    if (!x)
                        return 0;
                    if (!w.alive.count(&*x))
                    {
                        w.complain("a handle has an object that was destroyed");
                        return 0;
                    }
                    return x->id;
                };
                for (auto& s : programs[t])
                {
                    auto& slot = slots[s.slot];
                    auto& a = own[t][s.a];
                    auto& b = own[t][s.b];
                    auto i = s.slot;
                    auto was = ids[t][s.a], other = ids[t][s.b];
                    switch (s.kind)
                    {
                        case 0:
                            h.record(t, "exchange", [&]() -> Apply {
                                Handle old = slot.exchange(a);
                                auto o = id_of(old);
                                b = std::move(old);
                                ids[t][s.b] = o;
                                return [i, was, o](State& st) { bool ok = st[i] == o; st[i] = was; return ok; };
                            });
                            break;
                        case 1:
                            h.record(t, "compare", [&]() -> Apply {
                                bool done = slot.compare_exchange_strong(a, b);
                                auto now = id_of(a);
                                ids[t][s.a] = now;
                                if (s.a == s.b && !done)
                                    ids[t][s.b] = now;
                                if (done)
                                    return [i, was, other](State& st) { bool ok = st[i] == was; st[i] = other; return ok; };
                                // what it was may be gone by the time it is had
                                return [i, was, now](State& st) { return st[i] != was && (!now || st[i] == now); };
                            });
                            break;
                        case 2:
                            h.record(t, "put", [&]() -> Apply { slot = a; return [i, was](State& st) { st[i] = was; return true; }; });
                            break;
                        case 3:
                            h.record(t, "put moved", [&]() -> Apply {
                                slot = std::move(a);
                                ids[t][s.a] = 0;
                                return [i, was](State& st) { st[i] = was; return true; };
                            });
                            break;
                        case 4:
                            h.record(t, "get", [&]() -> Apply {
                                a = slot;
                                auto now = id_of(a);
                                ids[t][s.a] = now;
                                now ? ++got : ++lost;
                                return [i, now](State& st) { return !now || st[i] == now; };
                            });
                            break;
                        case 5:
                            h.record(t, "take", [&]() -> Apply {
                                Handle x(std::move(slot));
                                auto now = id_of(x);
                                a = std::move(x);
                                ids[t][s.a] = now;
                                return [i, now](State& st) { bool ok = st[i] == now; st[i] = 0; return ok; };
                            });
                            break;
                        case 8:
                            h.record(t, "take over", [&]() -> Apply {
                                a = std::move(slot);
                                auto now = id_of(a);
                                ids[t][s.a] = now;
                                return [i, now](State& st) { bool ok = st[i] == now; st[i] = 0; return ok; };
                            });
                            break;
                        case 6:
                            h.record(t, "copy", [&]() -> Apply {
                                Handle x(a);
                                b = x;
                                ids[t][s.b] = was;
                                return [](State&) { return true; };
                            });
                            break;
                        default:
                            h.record(t, "release", [&]() -> Apply {
                                a = nullptr;
                                ids[t][s.a] = 0;
                                return [](State&) { return true; };
                            });
                    }
                    for (int x = 0; x < 2; x++)
                        if (id_of(own[t][static_cast<std::size_t>(x)]) != ids[t][static_cast<std::size_t>(x)])
                            w.complain("a thread's own handle shows another object than it got");
                }
            });
        sched::run(ctx, bodies);
        TRACE(ctx, "history:", h.show());
        CHECK_THAT(ctx, w.wrong.empty(), w.wrong);
        State last;
        std::set<int64_t> left;
        for (auto& s : slots)
        {
            last.push_back(s ? s->id : 0);
            intact(ctx, s, last.back());
            left.insert(last.back());
        }
        for (std::size_t t = 0; t < nthreads; t++)
            for (int i = 0; i < 2; i++)
            {
                intact(ctx, own[t][static_cast<std::size_t>(i)], ids[t][static_cast<std::size_t>(i)]);
                left.insert(ids[t][static_cast<std::size_t>(i)]);
            }
        left.erase(0);
        CHECK_EQ(ctx, w.alive.size(), left.size(), "objects alive");
        CHECK_THAT(ctx, h.linearizable(initial, [&](const State& s) { return s == last; }), "no order of the operations explains their results:", h.show());
        ctx.nontrivial(sched::preemptions() && got && left.size() < nobjects);
        // and what was released serves again
        std::vector<Handle> again;
        auto before = w.allocated;
        for (std::size_t i = left.size(); i < nobjects; i++)
            again.push_back(p.allocate(Object(100 + static_cast<int64_t>(i))));
        CHECK_EQ(ctx, w.allocated, before, "blocks when all of the released ones serve again");
        CHECK_EQ(ctx, w.alive.size(), nobjects, "objects alive");
        CHECK_THAT(ctx, w.wrong.empty(), w.wrong);
    }
    CHECK_THAT(ctx, w.wrong.empty(), w.wrong);
    CHECK_THAT(ctx, w.alive.empty(), "objects outlive the pool");
    CHECK_THAT(ctx, w.blocks.empty(), "blocks not given back: ", w.blocks.size());
}

// -- several threads allocate and release
FACET(allocating, 60000, 1500000)
{
    World w;
    world() = &w;
    struct Reset { ~Reset() { world() = nullptr; } } reset;
    {
        Pool p;
        auto nfree = ctx.below(4);
        {
            std::vector<Handle> used;
            for (std::size_t i = 0; i < nfree; i++)
                used.push_back(p.allocate(Object(1)));
        }
        TRACE(ctx, nfree, " were released");
        auto nthreads = 2 + ctx.below(2);
        auto rounds = 1 + ctx.below(2);
        struct Mine { Handle h; int64_t id; };
        std::vector<std::deque<Mine>> own(nthreads);
        int64_t next = 1;
        for (std::size_t r = 0; r < rounds; r++)
        {
            // what each does, in turn: a number to allocate one, 0 to release the oldest one, -1 for the newest
            std::vector<std::vector<int64_t>> programs(nthreads);
            std::vector<sched::Body> bodies;
            std::size_t allocations = 0, releases = 0;
            for (std::size_t t = 0; t < nthreads; t++)
            {
                auto has = own[t].size();
                for (auto n = ctx.below(6); n; n--)
                    if (has && ctx.coin())
                    {
                        programs[t].push_back(-static_cast<int64_t>(ctx.below(2)));
                        TRACE(ctx, "T", t, " releases its ", programs[t].back() ? "newest" : "oldest");
                        --has;
                        ++releases;
                    }
                    else
                    {
                        programs[t].push_back(next++);
                        TRACE(ctx, "T", t, " allocates ", next - 1);
                        ++has;
                        ++allocations;
                    }
                bodies.push_back([&, t] {
                    for (auto s : programs[t])
                        if (s > 0)
                            own[t].push_back({p.allocate(Object(s)), s});
                        else if (s == 0)
                            own[t].pop_front();
                        else
                            own[t].pop_back();
                });
            }
            auto before = w.allocated;
            sched::run(ctx, bodies);
            CHECK_THAT(ctx, w.wrong.empty(), w.wrong);
            CHECK_THAT(ctx, w.allocated - before <= static_cast<int64_t>(allocations), "more storage than allocations");
            std::size_t total = 0;
            for (std::size_t t = 0; t < nthreads; t++)
            {
                total += own[t].size();
                for (auto& m : own[t])
                    intact(ctx, m.h, m.id);
            }
            CHECK_EQ(ctx, w.alive.size(), total, "objects alive");
            ctx.nontrivial(sched::preemptions() && allocations > 1 && releases);
            // they swap some, so that each releases others' as well
            for (std::size_t t = 0; t + 1 < nthreads; t++)
                if (ctx.coin())
                    std::swap(own[t], own[t + 1]);
        }
        // nothing that was released is lost
        auto blocks = w.allocated;
        auto available = w.blocks.size() - w.alive.size();
        std::deque<Handle> again;
        for (std::size_t i = 0; i < available; i++)
            again.push_back(p.allocate(Object(next++)));
        CHECK_EQ(ctx, w.allocated, blocks, "blocks, when as many objects are allocated as were released");
        CHECK_THAT(ctx, w.wrong.empty(), w.wrong);
    }
    CHECK_EQ(ctx, w.alive.size(), std::size_t(0), "objects alive");
    CHECK_THAT(ctx, w.wrong.empty(), w.wrong);
    CHECK_THAT(ctx, w.blocks.empty(), "blocks not given back: ", w.blocks.size());
}

PBT_MAIN
