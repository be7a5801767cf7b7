// Uniform handling of all metric and reservoir types: how to make, change and observe one
#ifndef SUBJECTS_HPP
#define SUBJECTS_HPP

#include "clock.hpp"
#include "snap.hpp"
#include <cxxmetrics/counter.hpp>
#include <cxxmetrics/ewma.hpp>
#include <cxxmetrics/gauge.hpp>
#include <cxxmetrics/histogram.hpp>
#include <cxxmetrics/meter.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <cxxmetrics/timer.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>

namespace subj
{
using ld = long double;
using namespace cxxmetrics;
constexpr period::value sec = 1000000, minute = 60 * sec;

struct Op
{
    int kind;
    int64_t a;
    int64_t at; // when
};

// what can be seen of an object
struct Seen
{
    std::vector<ld> numbers;
    std::vector<std::string> texts;
    void num(ld v) { numbers.push_back(v); }
    void text(std::string s) { texts.push_back(std::move(s)); }
    bool same(const Seen& o) const
    {
        if (numbers.size() != o.numbers.size() || texts != o.texts)
            return false;
        for (std::size_t i = 0; i < numbers.size(); i++)
            if (numbers[i] != o.numbers[i] && !(std::fabs(numbers[i] - o.numbers[i]) <= 1e-9l * std::max(std::fabs(numbers[i]), std::fabs(o.numbers[i]))))
                return false;
        return true;
    }
};
inline std::ostream& operator<<(std::ostream& o, const Seen& s)
{
    o << '{';
    for (auto n : s.numbers)
        o << ' ' << n;
    for (auto& t : s.texts)
        o << ' ' << pbt::quote(t);
    return o << " }";
}

inline void see(Seen& s, const reservoir_snapshot& r)
{
    s.num(static_cast<ld>(r.size()));
    for (auto v : snap::contents<ld>(r))
        s.num(v);
    if (r.size())
    {
        s.num(static_cast<ld>(r.min()));
        s.num(static_cast<ld>(r.max()));
        s.num(static_cast<ld>(r.mean()));
    }
}
inline void see(Seen& s, const meter_snapshot& m)
{
    s.num(static_cast<ld>(m.value()));
    std::map<int64_t, ld> rates;
    for (auto& r : m)
        rates[std::chrono::duration_cast<std::chrono::nanoseconds>(r.first).count()] = static_cast<ld>(r.second);
    for (auto& r : rates)
    {
        s.num(static_cast<ld>(r.first));
        s.num(r.second);
    }
}

template<typename X>
struct Subject;

// -- counters
template<typename T>
struct Subject<counter<T>>
{
    using X = counter<T>;
    static constexpr std::size_t exact_updates = ~std::size_t(0);
    static X* make(int64_t v) { return v % 2 ? new X(static_cast<T>(v)) : new X(); }
    static Op draw(pbt::Ctx& ctx) { return Op{static_cast<int>(ctx.below(4)), static_cast<int64_t>(ctx.integer<T>()), 0}; }
    static void apply(X& x, const Op& o)
    {
        auto v = static_cast<T>(o.a);
        switch (o.kind)
        {
            case 0: x.incr(v); break;
            case 1: ++x; break;
            case 2: x = v; break;
            default: --x; x -= v;
        }
    }
    template<typename Y>
    static void see(Y& x, Seen& s)
    {
        s.num(static_cast<ld>(x.value()));
        s.num(static_cast<ld>(static_cast<T>(x)));
        s.num(static_cast<ld>(x.snapshot().value()));
    }
};
// -- moving averages
template<period::value W, period::value I, typename T>
struct Subject<ewma<W, I, T>>
{
    using X = ewma<W, I, T>;
    static constexpr std::size_t exact_updates = ~std::size_t(0);
    static X* make(int64_t) { return new X(); }
    static Op draw(pbt::Ctx& ctx) { return Op{static_cast<int>(ctx.below(5)), ctx.range(0, 2000), 0}; }
    static void apply(X& x, const Op& o)
    {
        if (o.kind == 3)
            x.rate();
        else if (o.kind == 4)
            x.snapshot();
        else
            x.mark(o.a);
    }
    static void see(const X& x, Seen& s)
    {
        s.num(static_cast<ld>(x.rate()));
        s.num(static_cast<ld>(x.snapshot().value()));
    }
    static void see(X& x, Seen& s)
    { // an ordinary reading may end an interval, and another one comes after that
        s.num(static_cast<ld>(x.rate()));
        s.num(s.numbers.back());
    }
};

// -- meters
template<period::value I, period::value... W>
struct Subject<meter<I, W...>>
{
    using X = meter<I, W...>;
    static constexpr std::size_t exact_updates = ~std::size_t(0);
    static X* make(int64_t) { return new X(); }
    static Op draw(pbt::Ctx& ctx) { return Op{static_cast<int>(ctx.below(5)), ctx.range(0, 2000), 0}; }
    static void apply(X& x, const Op& o)
    {
        if (o.kind == 3)
            x.snapshot();
        else if (o.kind == 4)
        {
            int each[] = {(x.template rate<W>(), 0)...};
            static_cast<void>(each);
        }
        else
            x.mark(o.a);
    }
    template<typename Y>
    static void see(Y& x, Seen& s)
    {
        s.num(static_cast<ld>(x.mean()));
        const X& c = x; // an ordinary reading may end an interval, and another one comes after that
        int each[] = {(s.num(static_cast<ld>(c.template rate<W>().rate)), 0)...};
        static_cast<void>(each);
        subj::see(s, x.snapshot());
    }
};

// -- reservoirs
template<typename R, typename T>
struct ReservoirSubject
{
    using X = R;
    static Op draw(pbt::Ctx& ctx) { return Op{0, ctx.range(0, 1000), 0}; }
    static void apply(X& x, const Op& o) { x.update(static_cast<T>(o.a)); }
    template<typename Y>
    static void see(Y& x, Seen& s) { subj::see(s, x.snapshot()); }
};
template<typename T, std::size_t N>
struct Subject<simple_reservoir<T, N>> : ReservoirSubject<simple_reservoir<T, N>, T>
{
    static constexpr std::size_t exact_updates = ~std::size_t(0);
    static simple_reservoir<T, N>* make(int64_t) { return new simple_reservoir<T, N>(); }
};
template<typename T, std::size_t N>
struct Subject<uniform_reservoir<T, N>> : ReservoirSubject<uniform_reservoir<T, N>, T>
{
    static constexpr std::size_t exact_updates = N; // random from there on
    static uniform_reservoir<T, N>* make(int64_t) { return new uniform_reservoir<T, N>(); }
};
template<typename T, std::size_t N>
struct Subject<sliding_window_reservoir<T, N>> : ReservoirSubject<sliding_window_reservoir<T, N>, T>
{
    static constexpr std::size_t exact_updates = ~std::size_t(0);
    static sliding_window_reservoir<T, N>* make(int64_t v)
    {
        return new sliding_window_reservoir<T, N>(time::seconds(v % 2 ? 2 : 8));
    }
};

// a clock with a state of its own
struct OffsetClock
{
    int64_t offset = 0;
    std::chrono::steady_clock::time_point operator()() const noexcept { return std::chrono::steady_clock::now() + std::chrono::nanoseconds(offset); }
};
template<typename T, std::size_t N>
struct Subject<sliding_window_reservoir<T, N, OffsetClock>> : ReservoirSubject<sliding_window_reservoir<T, N, OffsetClock>, T>
{
    static constexpr std::size_t exact_updates = ~std::size_t(0);
    static sliding_window_reservoir<T, N, OffsetClock>* make(int64_t v)
    {
        return new sliding_window_reservoir<T, N, OffsetClock>(time::seconds(v % 2 ? 2 : 8), OffsetClock{v / 2 % 4 * 3000000000ll});
    }
};

// -- histograms
template<typename T, typename R>
struct Subject<histogram<T, R>>
{
    using X = histogram<T, R>;
    static constexpr std::size_t exact_updates = Subject<R>::exact_updates;
    static X* make(int64_t v)
    {
        std::unique_ptr<R> r(Subject<R>::make(v));
        if (v & 4)
            r->update(T(77));
        return v & 2 ? new X(std::move(*r)) : new X();
    }
    static Op draw(pbt::Ctx& ctx) { return Op{0, ctx.range(0, 1000), 0}; }
    static void apply(X& x, const Op& o) { x.update(static_cast<T>(o.a)); }
    template<typename Y>
    static void see(Y& x, Seen& s)
    {
        s.num(static_cast<ld>(x.count()));
        auto h = x.snapshot();
        s.num(static_cast<ld>(h.count()));
        subj::see(s, h);
    }
};

// -- timers
template<period::value I, typename C, typename R, period::value... W>
struct Subject<timer<I, C, R, W...>>
{
    using X = timer<I, C, R, W...>;
    static constexpr std::size_t exact_updates = Subject<R>::exact_updates;
    static X* make(int64_t) { return new X(); }
    static Op draw(pbt::Ctx& ctx) { return Op{static_cast<int>(ctx.below(4)), ctx.range(0, 100000), 0}; }
    static void apply(X& x, const Op& o)
    {
        if (o.kind == 3)
            x.snapshot();
        else
            x.update(typename X::duration(o.a));
    }
    template<typename Y>
    static void see(Y& x, Seen& s)
    {
        s.num(static_cast<ld>(x.count()));
        s.num(static_cast<ld>(x.mean()));
        int each[] = {(s.num(static_cast<ld>(x.template rate<W>().rate)), 0)...};
        static_cast<void>(each);
        auto h = x.snapshot();
        s.num(static_cast<ld>(h.count()));
        subj::see(s, static_cast<const reservoir_snapshot&>(h));
        subj::see(s, h.rate());
    }
};

// -- settable gauges
template<typename T, gauges::gauge_aggregation_type A>
struct Subject<gauge<T, A>>
{
    using X = gauge<T, A>;
    static constexpr std::size_t exact_updates = ~std::size_t(0);
    static T value(int64_t v) { return static_cast<T>(v); }
    static X* make(int64_t v) { return v % 2 ? new X(value(v)) : new X(); }
    static Op draw(pbt::Ctx& ctx) { return Op{static_cast<int>(ctx.below(2)), ctx.range(-1000, 1000), 0}; }
    static void apply(X& x, const Op& o)
    {
        if (o.kind)
            x.set(value(o.a));
        else
            x = value(o.a);
    }
    template<typename Y>
    static void see(Y& x, Seen& s)
    {
        s.num(static_cast<ld>(x.get()));
        s.num(static_cast<ld>(x.snapshot().value()));
    }
};

template<typename X>
Seen seen(X& x)
{
    Seen s;
    Subject<typename std::remove_const<X>::type>::see(x, s);
    return s;
}

inline int64_t step(pbt::Ctx& ctx)
{
    switch (ctx.below(6))
    {
        case 0: return ctx.range(0, 3) * 1000000000ll;
        case 1: return ctx.range(0, 8) * 250000000ll;
        case 2: return 1000000000ll * ctx.range(0, 20);
        case 3: return 1000000000ll + ctx.range(-1, 1);
        default: return 0;
    }
}

#define SUBJECTS(F) \
    F(counter_int64, counter<int64_t>) \
    F(counter_uint16, counter<uint16_t>) \
    F(ewma_double, ewma<5 * subj::sec, subj::sec, double>) \
    F(ewma_int64, ewma<subj::minute, subj::sec, int64_t>) \
    F(ewma_float, ewma<subj::minute, 5 * subj::sec, float>) \
    F(meter_2, meter<subj::sec, subj::minute, 5 * subj::minute>) \
    F(meter_3, meter<5 * subj::sec, 15 * subj::minute, subj::minute, 3 * subj::sec>) \
    F(simple_int64_2, simple_reservoir<int64_t, 2>) \
    F(simple_int64_5, simple_reservoir<int64_t, 5>) \
    F(simple_double_8, simple_reservoir<double, 8>) \
    F(uniform_int64_4, uniform_reservoir<int64_t, 4>) \
    F(uniform_double_16, uniform_reservoir<double, 16>) \
    F(sliding_int64_5, sliding_window_reservoir<int64_t, 5>) \
    F(sliding_int32_8, sliding_window_reservoir<int32_t, 8>) \
    F(sliding_own_clock, sliding_window_reservoir<int64_t, 6, subj::OffsetClock>) \
    F(histogram_simple, histogram<int64_t, simple_reservoir<int64_t, 6>>) \
    F(histogram_uniform, histogram<int64_t, uniform_reservoir<int64_t, 6>>) \
    F(histogram_sliding, histogram<int64_t, sliding_window_reservoir<int64_t, 6>>) \
    F(timer_simple, timer<subj::sec, std::chrono::system_clock, simple_reservoir<std::chrono::system_clock::duration, 6>, subj::minute, 5 * subj::minute>) \
    F(timer_uniform, timer<subj::sec, std::chrono::steady_clock, uniform_reservoir<std::chrono::steady_clock::duration, 12>, subj::minute>) \
    F(timer_sliding, timer<5 * subj::sec, std::chrono::steady_clock, sliding_window_reservoir<std::chrono::steady_clock::duration, 6>, subj::minute>) \
    F(gauge_int64, gauge<int64_t>) \
    F(gauge_double_sum, gauge<double, gauges::aggregation_sum>)

}

#endif
