// C25: reservoirs stay sound under concurrent recording
#include "clock.hpp"
#include "sched.hpp"
#include "snap.hpp"
#include <cxxmetrics/histogram.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>

PROPERTY("C25", "A case is a reservoir or histogram with some recordings in it, a small program of recordings, snapshots and copies for each of 2-4 threads, a drawn schedule at the granularity of single accesses to shared memory, and further recordings afterwards; non-trivial when a thread was preempted, at least two threads did something and one of them recorded.")

using namespace cxxmetrics;

// each thread has its own time
inline int64_t (&thread_now_())[8] { static int64_t v[8]; return v; } // one for all parts of the program
#define thread_now thread_now_()
struct ThreadClock
{
    std::chrono::steady_clock::time_point operator()() const { return std::chrono::steady_clock::time_point(std::chrono::steady_clock::duration(thread_now[sched::self() + 1])); }
};
using tick = std::chrono::steady_clock::duration;

// the recordings of a case are told apart by their values, all bytes of which depend on the number
template<typename T>
struct Numbered
{
    static T of(int64_t id) { return static_cast<T>(static_cast<uint64_t>(id) * 0x0101010101010101ull); }
};
template<>
struct Numbered<double>
{
    static double of(int64_t id) { return std::ldexp(1.0 + id / 128.0, static_cast<int>(id)); }
};
template<>
struct Numbered<float>
{
    static float of(int64_t id) { return std::ldexp(1.0f + id / 128.0f, static_cast<int>(id)); }
};
template<>
struct Numbered<long double>
{
    static long double of(int64_t id) { return std::ldexp(1.0l + id / 128.0l, static_cast<int>(id)); }
};
template<>
struct Numbered<std::chrono::nanoseconds>
{
    static std::chrono::nanoseconds of(int64_t id) { return std::chrono::nanoseconds(Numbered<int64_t>::of(id)); }
};

// -- kinds of reservoirs
enum class Keeps { last, within, some };
template<typename R>
struct Kind;
template<typename T, std::size_t N>
struct Kind<simple_reservoir<T, N>>
{
    static constexpr std::size_t capacity = N;
    static constexpr Keeps keeps = Keeps::last;
    static simple_reservoir<T, N> make() { return simple_reservoir<T, N>(); }
};
template<typename T, std::size_t N>
struct Kind<uniform_reservoir<T, N>>
{
    static constexpr std::size_t capacity = N;
    static constexpr Keeps keeps = Keeps::some;
    static uniform_reservoir<T, N> make() { return uniform_reservoir<T, N>(); }
};
constexpr int64_t window = 10;
template<typename T, std::size_t N, typename C>
struct Kind<sliding_window_reservoir<T, N, C>>
{
    static constexpr std::size_t capacity = N;
    static constexpr Keeps keeps = Keeps::within;
    static sliding_window_reservoir<T, N, C> make() { return sliding_window_reservoir<T, N, C>(tick(window), C()); }
};

// a reservoir on its own, or in a histogram
template<typename R>
struct Plain
{
    R x;
    Plain(R&& r) : x(r) { }
    Plain(const Plain&) = default;
    Plain& operator=(const Plain&) = default;
    void update(const typename R::value_type& v) { x.update(v); }
    reservoir_snapshot snapshot() const { return x.snapshot(); }
    static constexpr bool counts = false;
};
template<typename R>
struct InHistogram
{
    histogram<typename R::value_type, R> x;
    InHistogram(R&& r) : x(std::move(r)) { }
    InHistogram(const InHistogram&) = default;
    InHistogram& operator=(const InHistogram&) = default;
    void update(const typename R::value_type& v) { x.update(v); }
    histogram_snapshot snapshot() const { return x.snapshot(); }
    static constexpr bool counts = true;
};

template<typename S>
static uint64_t count_of(const S&) { return 0; }
static uint64_t count_of(const histogram_snapshot& s) { return static_cast<uint64_t>(s.count()); }

struct Span
{
    uint64_t from = 0, to = ~0ull;
};

template<typename R, typename X>
struct Case
{
    using T = typename R::value_type;
    using K = Kind<R>;
    static constexpr std::size_t N = K::capacity;
    pbt::Ctx& ctx;
    std::map<T, int64_t> ids;
    std::vector<int64_t> at;   // times of the recordings
    std::vector<Span> spans;   // and when in the history they happened
    struct Look { Span span; int64_t now; std::vector<T> seen; uint64_t count; bool copy; };
    std::vector<Look> looks;

    explicit Case(pbt::Ctx& ctx) : ctx(ctx) { }

    int64_t draw_recording(int64_t time)
    {
        auto id = static_cast<int64_t>(at.size()) + 1;
        ids[Numbered<T>::of(id)] = id;
        at.push_back(time);
        spans.emplace_back();
        return id;
    }
    std::set<int64_t> numbers(const std::vector<T>& seen, const char* what)
    {
        std::set<int64_t> r;
        for (auto& v : seen)
        {
            auto i = ids.find(v);
            CHECK_THAT(ctx, i != ids.end(), what, " contains ", v, ", which was never recorded");
            CHECK_THAT(ctx, r.insert(i->second).second, what, " contains ", v, " (recording ", i->second, ") more than once");
        }
        CHECK_THAT(ctx, seen.size() <= N, what, " contains ", seen.size(), " values, more than the capacity ", N);
        return r;
    }
    bool inside(int64_t id, int64_t now) const { return K::keeps != Keeps::within || at[static_cast<std::size_t>(id) - 1] >= now - window; }

    template<typename S>
    void look(const S& s, Span span, int64_t now, bool copy)
    {
        sched::Quiet q;
        looks.push_back({span, now, snap::contents<T>(s), count_of(s), copy});
    }

    void check_looks()
    {
        for (auto& l : looks)
        {
            auto what = l.copy ? "a snapshot of a copy taken meanwhile" : "a snapshot taken meanwhile";
            auto got = numbers(l.seen, what);
            std::set<int64_t> must;
            bool overlaps = false;
            std::size_t begun = 0;
            for (std::size_t i = 0; i < spans.size(); i++)
            {
                if (spans[i].from > l.span.to)
                    continue;
                ++begun;
                auto id = static_cast<int64_t>(i) + 1;
                if (spans[i].to > l.span.from)
                    overlaps = true;
                if (inside(id, l.now))
                    must.insert(id);
            }
            for (auto id : got)
            {
                CHECK_THAT(ctx, spans[static_cast<std::size_t>(id) - 1].from <= l.span.to, what, " contains recording ", id, ", which had not begun");
                CHECK_THAT(ctx, inside(id, l.now), what, " contains recording ", id, " from time ", at[static_cast<std::size_t>(id) - 1], ", outside of the window that ends at ", l.now);
            }
            if (X::counts)
                CHECK_THAT(ctx, l.count <= begun, what, " has a count of ", l.count, ", but just ", begun, " were recorded");
            // nothing was being recorded
            if (!overlaps)
            {
                if (begun <= N)
                    CHECK_THAT(ctx, got == must, what, " while nothing was being recorded contains ", got.size(), " of the ", must.size(), " recorded values");
                else if (K::keeps != Keeps::within)
                    CHECK_EQ(ctx, got.size(), N, what, ": the size while nothing was being recorded, after more than the capacity");
                if (X::counts)
                    CHECK_EQ(ctx, l.count, begun, what, ": the count while nothing was being recorded");
            }
        }
    }

    void run()
    {
        for (auto& t : thread_now)
            t = 0;
        auto r = std::make_unique<X>(K::make());
        // before
        auto before = ctx.chance(1, 3) ? 0 : ctx.below(N + 3);
        for (std::size_t i = 0; i < before; i++)
        {
            auto id = draw_recording(ctx.range(0, 20));
            spans.back() = {0, 0};
            thread_now[0] = at.back();
            r->update(Numbered<T>::of(id));
        }
        TRACE(ctx, "capacity ", N, ", ", before, " recorded before");
        if (ctx.chance(1, 4))
        {
            TRACE(ctx, "copied");
            r = std::make_unique<X>(static_cast<const X&>(*r));
        }
        else if (ctx.chance(1, 3))
        {
            // assigned over one that held other values, which nobody may see again
            auto other = std::make_unique<X>(K::make());
            auto n = ctx.below(N + 3);
            TRACE(ctx, "assigned over one with ", n, " recordings");
            for (std::size_t i = 0; i < n; i++)
            {
                thread_now[0] = 20;
                other->update(Numbered<T>::of(100 + static_cast<int64_t>(i % 8)));
            }
            *other = static_cast<const X&>(*r);
            r = std::move(other);
        }
        // meanwhile
        struct Op { int kind; int64_t id, now; };
        std::vector<std::vector<Op>> p(2 + ctx.below(3));
        int busy = 0, recording = 0;
        for (std::size_t t = 0; t < p.size(); t++)
        {
            auto n = ctx.below(10 / p.size() + 1);
            for (std::size_t i = 0; i < n; i++)
            {
                Op o{static_cast<int>(ctx.below(8)), 0, ctx.range(0, 20)};
                if (o.kind < 5)
                {
                    o.id = draw_recording(o.now);
                    ++recording;
                }
                else
                    o.now += ctx.range(0, 10);
                TRACE(ctx, "T", t, ": ", o.kind < 5 ? "recording " : o.kind < 7 ? "snapshot " : "copy ", o.id, " at ", o.now);
                p[t].push_back(o);
            }
            busy += n > 0;
        }
        std::vector<sched::Body> bodies;
        for (std::size_t t = 0; t < p.size(); t++)
            bodies.push_back([&, t] {
                for (auto& o : p[t])
                {
                    thread_now[t + 1] = o.now;
                    auto from = sched::moment();
                    if (o.kind < 5)
                    {
                        auto& s = spans[static_cast<std::size_t>(o.id) - 1];
                        s.from = from;
                        r->update(Numbered<T>::of(o.id));
                        s.to = sched::moment();
                    }
                    else if (o.kind < 7)
                    {
                        auto s = static_cast<const X&>(*r).snapshot();
                        look(s, {from, sched::moment()}, o.now, false);
                    }
                    else
                    {
                        X copy(static_cast<const X&>(*r));
                        auto to = sched::moment();
                        auto s = copy.snapshot();
                        look(s, {from, to}, o.now, true);
                    }
                }
            });
        for (auto& s : spans)
            if (s.to == ~0ull)
                s.from = ~0ull; // not begun
        sched::run(ctx, bodies);
        ctx.nontrivial(busy > 1 && recording && sched::preemptions());
        ctx.label(at.size() > N, "more recordings than the capacity");
        ctx.label(before < N && at.size() >= N, "filled concurrently");
        check_looks();
        // afterwards
        thread_now[0] = window; // so that all are inside
        auto now = snap::contents<T>(r->snapshot());
        auto held = numbers(now, "the snapshot after all threads were done");
        CHECK_EQ(ctx, held.size(), std::min(at.size(), N), "the number of values after all threads were done and ", at.size(), " recordings");
        if (X::counts)
            CHECK_EQ(ctx, count_of(r->snapshot()), at.size(), "the count after all threads were done");
        if (K::keeps != Keeps::some)
            for (std::size_t i = 0; i < spans.size(); i++)
            {
                std::size_t later = 0;
                for (auto& s : spans)
                    later += s.from >= spans[i].to && &s != &spans[i] && s.from;
                if (spans[i].to == 0)
                    later += before - 1 - i;
                if (later >= N)
                    CHECK_THAT(ctx, !held.count(static_cast<int64_t>(i) + 1), "recording ", i + 1, " is still there, although ", later, " began after it was done and the capacity is ", N);
            }
        if (K::keeps == Keeps::within)
            for (int64_t time : {int64_t(15), int64_t(20), int64_t(31)})
            {
                thread_now[0] = time;
                std::set<int64_t> want;
                for (auto id : held)
                    if (inside(id, time))
                        want.insert(id);
                CHECK_THAT(ctx, numbers(snap::contents<T>(r->snapshot()), "a later snapshot") == want, "a later snapshot at ", time, " does not hold what is inside of the window");
            }
        if (ctx.coin())
            r = std::make_unique<X>(static_cast<const X&>(*r));
        auto more = ctx.below(N + 3);
        for (std::size_t i = 1; i <= more; i++)
        {
            auto id = draw_recording(10);
            thread_now[0] = 10;
            r->update(Numbered<T>::of(id));
            auto next = numbers(snap::contents<T>(r->snapshot()), "the snapshot after further recordings");
            CHECK_EQ(ctx, next.size(), std::min(at.size(), N), "the number of values after further recordings");
            std::size_t added = 0, dropped = 0;
            for (auto x : next)
                added += !held.count(x);
            for (auto x : held)
                dropped += !next.count(x);
            bool was_full = at.size() > N;
            CHECK_THAT(ctx, !added || next.count(id), "a further recording made another one appear");
            // a full sample need not take every one
            CHECK_THAT(ctx, added == 1 || (!added && was_full && K::keeps == Keeps::some), "a further recording made ", added, " values appear");
            CHECK_EQ(ctx, dropped, was_full ? added : 0u, "the number of values a further recording replaced");
            held = next;
            if (K::keeps != Keeps::some)
                for (std::size_t back = 0; back < std::min(i, N); back++)
                    CHECK_THAT(ctx, held.count(id - static_cast<int64_t>(back)), "one of the last ", std::min(i, N), " recordings is not there");
        }
        if (X::counts)
            CHECK_EQ(ctx, count_of(r->snapshot()), at.size(), "the count in the end");
        if (K::keeps == Keeps::some && at.size() >= N && ctx.chance(1, 4))
        {
            auto id = draw_recording(10);
            for (std::size_t i = 0; i < 100 * N; i++)
                r->update(Numbered<T>::of(id));
            bool in = false;
            for (auto v : snap::contents<T>(r->snapshot()))
                in = in || v == Numbered<T>::of(id);
            CHECK_THAT(ctx, in, "none of ", 100 * N, " further recordings got into the sample");
        }
    }
};
template<typename R, typename X>
constexpr std::size_t Case<R, X>::N;

template<typename R>
static void plain(pbt::Ctx& ctx) { Case<R, Plain<R>>(ctx).run(); }
template<typename R>
static void in_histogram(pbt::Ctx& ctx) { Case<R, InHistogram<R>>(ctx).run(); }
template<typename T, std::size_t N>
using sliding = sliding_window_reservoir<T, N, ThreadClock>;
using ns = std::chrono::nanoseconds;

FACET_AS(simple_2, 20000, 800000, plain<simple_reservoir<int64_t, 2>>);
FACET_AS(simple_3, 20000, 800000, plain<simple_reservoir<double, 3>>);
FACET_AS(simple_5, 20000, 800000, plain<simple_reservoir<ns, 5>>);
FACET_AS(simple_8, 20000, 800000, plain<simple_reservoir<uint16_t, 8>>);
FACET_AS(simple_wide, 20000, 800000, plain<simple_reservoir<long double, 4>>);
FACET_AS(sliding_2, 20000, 800000, plain<sliding<int64_t, 2>>);
FACET_AS(sliding_3, 20000, 800000, plain<sliding<ns, 3>>);
FACET_AS(sliding_5, 20000, 800000, plain<sliding<float, 5>>);
FACET_AS(sliding_8, 20000, 800000, plain<sliding<int32_t, 8>>);
FACET_AS(uniform_2, 20000, 800000, plain<uniform_reservoir<int64_t, 2>>);
FACET_AS(uniform_3, 20000, 800000, plain<uniform_reservoir<ns, 3>>);
FACET_AS(uniform_5, 20000, 800000, plain<uniform_reservoir<double, 5>>);
FACET_AS(uniform_8, 20000, 800000, plain<uniform_reservoir<uint16_t, 8>>);
FACET_AS(histogram_simple, 20000, 800000, in_histogram<simple_reservoir<int64_t, 3>>);
FACET_AS(histogram_sliding, 20000, 800000, in_histogram<sliding<int64_t, 3>>);
FACET_AS(histogram_uniform, 20000, 800000, in_histogram<uniform_reservoir<double, 3>>);

PBT_MAIN
