// C24: the lock-free stack is a stack, also under concurrency
#include "sched.hpp"
#include <cxxmetrics/internal/atomic_lifo.hpp>

PROPERTY("C24", "A case is a sequence of stack operations by one thread, or 2-4 threads' operations under a drawn schedule at the granularity of single accesses; non-trivial when an element was popped from two or more, or when a thread was preempted and an element was popped.")

using namespace cxxmetrics::internal;

// -- what is allocated and constructed
struct Account
{
    int64_t allocated = 0, deallocated = 0, constructed = 0, destroyed = 0;
    std::set<void*> blocks;
};
template<typename T>
struct Counting
{
    using value_type = T;
    Account* account;
    explicit Counting(Account* a = nullptr) : account(a) { }
    template<typename U>
    Counting(const Counting<U>& o) : account(o.account) { }
    T* allocate(std::size_t n)
    {
        auto p = static_cast<T*>(::operator new(n * sizeof(T)));
        if (account)
        {
            sched::Quiet q;
            account->allocated++;
            account->blocks.insert(p);
        }
        return p;
    }
    void deallocate(T* p, std::size_t)
    {
        if (account)
        {
            sched::Quiet q;
            account->deallocated++;
            if (!account->blocks.erase(p))
                throw pbt::Failure{"a block is deallocated that wasn't allocated there, or twice"};
        }
        ::operator delete(p);
    }
    template<typename U, typename... A>
    void construct(U* p, A&&... a)
    {
        ::new (static_cast<void*>(p)) U(std::forward<A>(a)...);
        sched::Quiet q;
        if (account)
            account->constructed++;
    }
    template<typename U>
    void destroy(U* p)
    {
        p->~U();
        sched::Quiet q;
        if (account)
            account->destroyed++;
    }
    bool operator==(const Counting& o) const { return account == o.account; }
    bool operator!=(const Counting& o) const { return account != o.account; }
};

// -- elements
struct Own // an element that is its own node
{
    int64_t v;
    Own* n = nullptr;
    Own(int64_t v) : v(v) { }
    Own* next() const { return n; }
    void set_next(Own* o) { n = o; }
};
struct MoveOnly
{
    std::unique_ptr<int64_t> v;
    MoveOnly(int64_t x) : v(new int64_t(x)) { }
};
struct Live // counts its instances
{
    static int64_t& count() { static int64_t c; return c; }
    int64_t v;
    Live(int64_t v) : v(v) { ++count(); }
    Live(const Live& o) : v(o.v) { ++count(); }
    Live(Live&& o) noexcept : v(o.v) { ++count(); }
    Live& operator=(const Live&) = default;
    ~Live() { --count(); }
};
template<typename T>
struct Elem
{
    static T make(int64_t v) { return T(v); }
    static int64_t value(const T& t) { return static_cast<int64_t>(t); }
};
template<>
struct Elem<std::string>
{
    static std::string make(int64_t v) { return "element number " + std::to_string(v); }
    static int64_t value(const std::string& s) { return atoll(s.c_str() + 15); }
};
template<>
struct Elem<MoveOnly>
{
    static MoveOnly make(int64_t v) { return MoveOnly(v); }
    static int64_t value(const MoveOnly& m) { return *m.v; }
};
template<>
struct Elem<Own>
{
    static Own make(int64_t v) { return Own(v); }
    static int64_t value(const Own& m) { return m.v; }
};
template<>
struct Elem<Live>
{
    static Live make(int64_t v) { return Live(v); }
    static int64_t value(const Live& m) { return m.v; }
};

template<typename L, typename T>
static void push_value(L& l, T v, std::true_type) { l.push(std::move(v)); }
template<typename L, typename T>
static void push_value(L& l, T v, std::false_type) { l.emplace(std::move(v)); }

template<typename T>
struct Machine
{
    using Alloc = Counting<T>;
    using Lifo = atomic_lifo<T, Alloc>;
    using Pointer = typename Lifo::pointer_type;
    using by_value = std::integral_constant<bool, !std::is_same<T, Own>::value>;

    struct Stack
    {
        std::unique_ptr<Lifo> real;
        std::vector<int64_t> model;
        std::size_t account;
    };
    pbt::Ctx& ctx;
    std::deque<Account> accounts;
    std::vector<Stack> stacks;
    struct Held
    {
        Pointer p;
        int64_t v;
        std::size_t account;
    };
    std::vector<Held> held;
    int64_t next = 1;

    explicit Machine(pbt::Ctx& ctx) : ctx(ctx) { }

    void add_stack(std::unique_ptr<Lifo> l, std::vector<int64_t> model, std::size_t account)
    {
        stacks.push_back(Stack{std::move(l), std::move(model), account});
    }
    void fresh()
    {
        accounts.emplace_back();
        Alloc a(&accounts.back());
        if (ctx.coin())
        {
            TRACE(ctx, "stack ", stacks.size(), ": new");
            add_stack(std::make_unique<Lifo>(a), {}, accounts.size() - 1);
            return;
        }
        from_range(a, std::is_copy_constructible<T>());
    }
    void from_range(const Alloc&, std::false_type)
    {
        add_stack(std::make_unique<Lifo>(Alloc(&accounts.back())), {}, accounts.size() - 1);
    }
    void from_range(const Alloc& a, std::true_type) { from_range2(a, by_value()); }
    void from_range2(const Alloc& a, std::false_type) { from_range(a, std::false_type()); }
    void from_range2(const Alloc& a, std::true_type)
    {
        std::vector<int64_t> model;
        std::vector<T> v;
        auto n = ctx.below(5);
        for (std::size_t i = 0; i < n; i++)
        {
            model.push_back(next);
            v.push_back(Elem<T>::make(next++));
        }
        if (n == 3 && ctx.coin())
        {
            TRACE(ctx, "stack ", stacks.size(), ": from a list of 3");
            std::reverse(model.begin(), model.end());
            add_stack(std::make_unique<Lifo>(std::initializer_list<T>{v[0], v[1], v[2]}, a), model, accounts.size() - 1);
            return;
        }
        TRACE(ctx, "stack ", stacks.size(), ": from a range of ", n);
        add_stack(std::make_unique<Lifo>(v.begin(), v.end(), a), model, accounts.size() - 1);
    }
    void check_popped(Stack& s, Pointer&& p)
    {
        CHECK_EQ(ctx, static_cast<bool>(p), !s.model.empty(), "whether something was popped");
        if (s.model.empty())
            return;
        ctx.nontrivial(s.model.size() > 1);
        auto want = s.model.back();
        s.model.pop_back();
        const auto& c = p;
        CHECK_EQ(ctx, Elem<T>::value(*p), want, "the popped element");
        CHECK_EQ(ctx, Elem<T>::value(*c), want, "the popped element");
        CHECK_THAT(ctx, &*p == p.operator->() && c.operator->() == &*p, "-> isn't the address of *");
        if (ctx.coin())
            held.push_back(Held{std::move(p), want, s.account});
    }
    void step()
    {
        if (stacks.empty() || (stacks.size() < 4 && ctx.chance(1, 12)))
            return fresh();
        auto i = ctx.below(stacks.size());
        auto& s = stacks[i];
        auto op = ctx.below(12);
        switch (op)
        {
            case 0: case 1:
                TRACE(ctx, "push ", next, " to ", i);
                push_value(*s.real, Elem<T>::make(next), by_value());
                s.model.push_back(next++);
                break;
            case 2:
                TRACE(ctx, "emplace ", next, " in ", i);
                s.real->emplace(Elem<T>::make(next));
                s.model.push_back(next++);
                break;
            case 3:
            {
                TRACE(ctx, "push a pointer to ", next, " to ", i);
                auto p = s.real->make_pointer(Elem<T>::make(next));
                CHECK_THAT(ctx, static_cast<bool>(p), "made a null pointer");
                CHECK_EQ(ctx, Elem<T>::value(*p), next, "the element made");
                s.real->push(std::move(p));
                CHECK_THAT(ctx, !p, "the pointer still owns the element");
                s.model.push_back(next++);
                break;
            }
            case 4: case 5: case 6: case 7:
                TRACE(ctx, "pop from ", i);
                check_popped(s, s.real->pop());
                break;
            case 8: // put back
                if (held.empty())
                    break;
                else
                {
                    auto h = ctx.below(held.size());
                    if (held[h].account != s.account)
                        break;
                    TRACE(ctx, "put ", held[h].v, " back to ", i);
                    s.real->push(std::move(held[h].p));
                    s.model.push_back(held[h].v);
                    held.erase(held.begin() + static_cast<std::ptrdiff_t>(h));
                }
                break;
            case 9: // let go of one
                if (!held.empty())
                {
                    auto h = ctx.below(held.size());
                    CHECK_EQ(ctx, Elem<T>::value(*held[h].p), held[h].v, "a held element");
                    if (ctx.coin() && h + 1 < held.size())
                    {
                        TRACE(ctx, "replace ", held[h].v, " by ", held.back().v);
                        held[h] = std::move(held.back());
                        held.pop_back();
                    }
                    else
                    {
                        TRACE(ctx, "let go of ", held[h].v);
                        held.erase(held.begin() + static_cast<std::ptrdiff_t>(h));
                    }
                }
                else
                {
                    TRACE(ctx, "push nothing to ", i);
                    s.real->push(Pointer());
                }
                break;
            case 10: // move
            {
                TRACE(ctx, "move ", i);
                auto l = std::make_unique<Lifo>(std::move(*s.real));
                auto m = std::move(s.model);
                s.model.clear();
                if (ctx.coin()) // the old one stays usable
                {
                    if (stacks.size() < 4)
                        add_stack(std::move(l), std::move(m), s.account);
                    else
                    {
                        s.real = std::move(l);
                        s.model = std::move(m);
                    }
                }
                else
                {
                    s.real = std::move(l);
                    s.model = std::move(m);
                }
                break;
            }
            default:
                TRACE(ctx, "destroy ", i);
                stacks.erase(stacks.begin() + static_cast<std::ptrdiff_t>(i));
        }
    }
    void check()
    {
        std::vector<int64_t> want(accounts.size(), 0);
        for (auto& s : stacks)
            want[s.account] += static_cast<int64_t>(s.model.size());
        for (auto& h : held)
            want[h.account]++;
        int64_t all = 0;
        for (std::size_t i = 0; i < accounts.size(); i++)
        {
            auto& a = accounts[i];
            all += want[i];
            CHECK_EQ(ctx, a.allocated - a.deallocated, want[i], "elements allocated with allocator ", i);
            CHECK_EQ(ctx, a.constructed - a.destroyed, want[i], "elements constructed with allocator ", i);
        }
        if (std::is_same<T, Live>::value)
            CHECK_EQ(ctx, Live::count(), all, "living elements");
    }
    void run(std::size_t steps)
    {
        for (std::size_t i = 0; i < steps; i++)
        {
            step();
            check();
        }
        for (auto& s : stacks)
            if (ctx.coin())
                while (!s.model.empty())
                    check_popped(s, s.real->pop());
        check();
        while (!stacks.empty())
            stacks.pop_back();
        check();
        held.clear();
        check();
    }
};
template<typename T>
static void sequential(pbt::Ctx& ctx)
{
    Live::count() = 0;
    Machine<T> m(ctx);
    m.run(2 + ctx.size(60));
}
FACET_AS(sequential_int, 3000, 60000, sequential<int64_t>);
FACET_AS(sequential_string, 3000, 60000, sequential<std::string>);
FACET_AS(sequential_move_only, 3000, 60000, sequential<MoveOnly>);
FACET_AS(sequential_own_node, 3000, 60000, sequential<Own>);
FACET_AS(sequential_counted, 3000, 60000, sequential<Live>);

// -- several threads
template<typename T>
struct Threads
{
    using Alloc = Counting<T>;
    using Lifo = atomic_lifo<T, Alloc>;
    using Pointer = typename Lifo::pointer_type;
    using by_value = std::integral_constant<bool, !std::is_same<T, Own>::value>;
    using State = std::vector<int64_t>;

    // an element returns to the top after very many other operations, while another thread is in the middle of one
    static void returning(pbt::Ctx& ctx)
    {
        Account account;
        {
        Alloc a(&account);
        Lifo l(a);
        State initial;
        auto n0 = 2 + ctx.below(3);
        int64_t next = 1;
        while (initial.size() < n0)
        {
            initial.push_back(next);
            push_value(l, Elem<T>::make(next++), by_value());
        }
        auto taken = 1 + ctx.below(n0), returned = 1 + ctx.below(taken);
        // about as many operations as a small number can count
        static const uint64_t limits[] = {256, 512, 65536, 131072};
        uint64_t total = limits[ctx.below(4)] + (ctx.chance(1, 4) ? ctx.below(6) : 0);
        auto extra = 2 + (ctx.coin() ? 0 : ctx.below(2)); // one more element comes, and maybe stays
        uint64_t pairs = (total - taken - returned - extra) / 2;
        bool stays = extra == 3;
        auto first = ctx.below(2);
        bool popping = ctx.chance(3, 4);
        TRACE(ctx, "T0: ", popping ? "pop" : "push ", popping ? "" : std::to_string(next));
        TRACE(ctx, "T1: ", taken, " pops, another element ", pairs + 1, " times pushed and popped", stays ? " and pushed" : "", ", ", returned, " put back, from the ", first ? "first" : "last");
        sched::History<State> h(2);
        std::vector<std::deque<Pointer>> held(2);
        auto pop = [&](std::size_t t) {
            h.record(t, "pop", [&]() -> std::function<bool(State&)> {
                auto p = l.pop();
                sched::Quiet q;
                if (!p)
                    return [](State& s) { return s.empty(); };
                auto v = Elem<T>::value(*p);
                held[t].push_back(std::move(p));
                return [v](State& s) {
                    if (s.empty() || s.back() != v)
                        return false;
                    s.pop_back();
                    return true;
                };
            });
        };
        auto pushed = [&](int64_t v) -> std::function<bool(State&)> {
            return [v](State& s) { s.push_back(v); return true; };
        };
        int64_t mine = popping ? 0 : next++, other = next++;
        bool wrong = false;
        std::vector<sched::Body> bodies;
        bodies.push_back([&] {
            if (popping)
                pop(0);
            else
                h.record(0, "push", [&] { push_value(l, Elem<T>::make(mine), by_value()); return pushed(mine); });
        });
        bodies.push_back([&] {
            for (std::size_t i = 0; i < taken; i++)
                pop(1);
            auto p = l.make_pointer(Elem<T>::make(other));
            h.record(1, "back and forth", [&]() -> std::function<bool(State&)> {
                sched::Quiet q; // all at one moment, nothing else can come between
                for (uint64_t i = 0; i <= pairs && !wrong; i++)
                {
                    l.push(std::move(p));
                    p = l.pop();
                    wrong = !p || Elem<T>::value(*p) != other;
                }
                return [](State&) { return true; };
            });
            if (stays)
                h.record(1, "push another", [&] { l.push(std::move(p)); return pushed(other); });
            else
            {
                sched::Quiet q;
                held[1].push_back(std::move(p));
            }
            for (std::size_t i = 0; i < returned; i++)
                h.record(1, "put back", [&]() -> std::function<bool(State&)> {
                    std::size_t at;
                    int64_t v;
                    {
                        sched::Quiet q;
                        auto n = held[1].size() - !stays;
                        if (!n)
                            return [](State&) { return true; };
                        at = first ? 0 : n - 1;
                        v = Elem<T>::value(*held[1][at]);
                    }
                    l.push(std::move(held[1][at]));
                    sched::Quiet q;
                    held[1].erase(held[1].begin() + static_cast<std::ptrdiff_t>(at));
                    return pushed(v);
                });
        });
        sched::run(ctx, bodies);
        CHECK_THAT(ctx, !wrong, "what was just pushed is not what is popped");
        State rest;
        while (auto p = l.pop())
        {
            rest.push_back(Elem<T>::value(*p));
            CHECK_THAT(ctx, rest.size() < 20, "the stack doesn't get empty");
            held[0].push_back(std::move(p));
        }
        std::reverse(rest.begin(), rest.end());
        TRACE(ctx, "history:", h.show(), "; left: ", rest);
        std::multiset<int64_t> all, want;
        for (auto& d : held)
            for (auto& p : d)
                all.insert(Elem<T>::value(*p));
        for (int64_t v = 1; v < next; v++)
            want.insert(v);
        CHECK_THAT(ctx, all == want, "what was popped and what remains isn't what was pushed");
        CHECK_THAT(ctx, h.linearizable(initial, [&](const State& s) { return s == rest; }), "no order of the operations explains their results:", h.show());
        ctx.nontrivial(sched::preemptions());
        ctx.label(total >= 65536, "more than 65536 operations");
        }
        CHECK_EQ(ctx, account.deallocated, account.allocated, "blocks deallocated");
        CHECK_EQ(ctx, account.destroyed, account.constructed, "elements destroyed");
    }

    static void run(pbt::Ctx& ctx, std::size_t most, bool recycle = false)
    {
        Account account;
        {
        Alloc a(&account);
        Lifo l(a);
        State initial;
        int64_t next = 1;
        auto n0 = ctx.below(4) + (recycle ? 1 : 0);
        for (std::size_t i = 0; i < n0; i++)
        {
            initial.push_back(next);
            push_value(l, Elem<T>::make(next++), by_value());
        }
        auto nthreads = 2 + ctx.below(3);
        struct Step { int kind; int64_t v; uint64_t which; };
        std::vector<std::vector<Step>> programs(nthreads);
        for (std::size_t t = 0; t < nthreads; t++)
        {
            auto n = 1 + ctx.below(most / nthreads);
            for (std::size_t i = 0; i < n; i++)
            {
                Step s{recycle ? 2 + static_cast<int>(ctx.below(4)) : static_cast<int>(ctx.below(5)), 0, 0};
                if (recycle && s.kind == 5)
                    s.kind = 4;
                if (s.kind == 4)
                    s.which = ctx.below(3);
                if (s.kind < 2)
                    s.v = next++;
                programs[t].push_back(s);
                TRACE(ctx, "T", t, ": ", s.kind == 0 ? "push " : s.kind == 1 ? "emplace " : s.kind == 4 ? "put back " + std::to_string(s.which) : "pop", s.v ? std::to_string(s.v) : "");
            }
        }
        sched::History<State> h(nthreads);
        std::vector<std::deque<Pointer>> held(nthreads);
        std::size_t popped = 0;
        std::vector<sched::Body> bodies;
        for (std::size_t t = 0; t < nthreads; t++)
            bodies.push_back([&, t] {
                for (auto& s : programs[t])
                {
                    auto pushed = [&](int64_t v) -> std::function<bool(State&)> {
                        return [v](State& s) { s.push_back(v); return true; };
                    };
                    if (s.kind == 0)
                        h.record(t, "push", [&] { push_value(l, Elem<T>::make(s.v), by_value()); return pushed(s.v); });
                    else if (s.kind == 1)
                        h.record(t, "emplace", [&] { l.emplace(Elem<T>::make(s.v)); return pushed(s.v); });
                    else if (s.kind == 4 && !held[t].empty())
                        h.record(t, "put back", [&] {
                            auto at = held[t].begin();
                            {
                                sched::Quiet q;
                                at += static_cast<std::ptrdiff_t>(s.which % held[t].size());
                            }
                            auto v = Elem<T>::value(**at);
                            l.push(std::move(*at));
                            sched::Quiet q;
                            held[t].erase(at);
                            return pushed(v);
                        });
                    else
                        h.record(t, "pop", [&]() -> std::function<bool(State&)> {
                            auto p = l.pop();
                            sched::Quiet q;
                            if (!p)
                                return [](State& s) { return s.empty(); };
                            ++popped;
                            auto v = Elem<T>::value(*p);
                            held[t].push_back(std::move(p));
                            return [v](State& s) {
                                if (s.empty() || s.back() != v)
                                    return false;
                                s.pop_back();
                                return true;
                            };
                        });
                }
            });
        sched::run(ctx, bodies);
        State rest;
        while (auto p = l.pop())
        {
            rest.push_back(Elem<T>::value(*p));
            CHECK_THAT(ctx, rest.size() < 200, "the stack doesn't get empty");
            held[0].push_back(std::move(p));
        }
        std::reverse(rest.begin(), rest.end());
        TRACE(ctx, "history:", h.show(), "; left: ", rest);
        // nothing lost, nothing twice
        std::multiset<int64_t> all(rest.begin(), rest.end());
        all.clear();
        for (auto& d : held)
            for (auto& p : d)
                all.insert(Elem<T>::value(*p));
        std::multiset<int64_t> want;
        for (int64_t v = 1; v < next; v++)
            want.insert(v);
        CHECK_THAT(ctx, all == want, "what was popped and what remains isn't what was pushed");
        CHECK_THAT(ctx, h.linearizable(initial, [&](const State& s) { return s == rest; }), "no order of the operations explains their results:", h.show());
        ctx.nontrivial(sched::preemptions() && popped);
        ctx.label(sched::preemptions() > 3, "more than three preemptions");
        if (ctx.coin()) // some stay for the destructor
            for (auto& d : held)
                while (!d.empty())
                {
                    l.push(std::move(d.back()));
                    d.pop_back();
                }
        }
        CHECK_EQ(ctx, account.deallocated, account.allocated, "blocks deallocated");
        CHECK_EQ(ctx, account.destroyed, account.constructed, "elements destroyed");
    }
};
FACET(threads_int, 20000, 600000) { Threads<int64_t>::run(ctx, 9); }
FACET(threads_own_node, 20000, 600000) { Threads<Own>::run(ctx, 9); }
FACET(threads_string, 10000, 300000) { Threads<std::string>::run(ctx, 9); }
// popped elements return, out of order: what a pop of a first element has seen is at the top again, on top of others
FACET(threads_recycle, 60000, 1500000) { Threads<int64_t>::run(ctx, 12, true); }
FACET(threads_recycle_own_node, 30000, 700000) { Threads<Own>::run(ctx, 12, true); }
FACET(threads_returning, 1500, 60000) { Threads<int64_t>::returning(ctx); }
FACET(threads_returning_own_node, 1000, 40000) { Threads<Own>::returning(ctx); }
FACET(threads_short, 40000, 900000) { Threads<int64_t>::run(ctx, 5); }

PBT_MAIN
