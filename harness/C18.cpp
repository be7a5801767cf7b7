// C18: order, conversions and hashes of metric values
#include "values.hpp"
#include <cxxmetrics/snapshots.hpp>

PROPERTY("C18", "A case compares, sorts, converts and hashes values of drawn types and magnitudes, equal and nearly equal ones included; non-trivial when the values differ in type or are neighbours or extremes.")

using namespace val;

static int sign(ld a, ld b) { return a < b ? -1 : a == b ? 0 : 1; }

static void relations(pbt::Ctx& ctx, const metric_value& a, const metric_value& b, int want, const std::string& what)
{
    CHECK_THAT(ctx, (a < b) == (want < 0), what, ": < is ", a < b);
    CHECK_THAT(ctx, (a <= b) == (want <= 0), what, ": <= is ", a <= b);
    CHECK_THAT(ctx, (a > b) == (want > 0), what, ": > is ", a > b);
    CHECK_THAT(ctx, (a >= b) == (want >= 0), what, ": >= is ", a >= b);
    CHECK_THAT(ctx, (a == b) == (want == 0), what, ": == is ", a == b);
    CHECK_THAT(ctx, (a != b) == (want != 0), what, ": != is ", a != b);
}

static void snapshots(pbt::Ctx& ctx, const metric_value& a, const metric_value& b, bool eq, const std::string& what)
{
    cxxmetrics::value_snapshot x{metric_value(a)}, y{metric_value(b)};
    CHECK_THAT(ctx, (x == y) == eq && (y == x) == eq && (x == b) == eq, what, ": == of snapshots is ", x == y);
    CHECK_THAT(ctx, (x != y) == !eq && (y != x) == !eq && (x != b) == !eq, what, ": != of snapshots is ", x != y);
    CHECK_THAT(ctx, x == a && !(x != a), what, ": a snapshot differs from its own value");
}

// a number near another one, possibly of another type
static Num near(pbt::Ctx& ctx, const Num& a)
{
    auto t = static_cast<Type>(ctx.below(ntypes));
    if (is_float(t))
    {
        ld v = a.f;
        switch (ctx.below(5))
        {
            case 0: v += 0.5L; break;
            case 1: v -= 0.5L; break;
            case 2: v = t == f32 ? std::nextafter(static_cast<float>(v), INFINITY) : t == f64 ? std::nextafter(static_cast<double>(v), INFINITY) : std::nextafter(v, static_cast<ld>(INFINITY)); break;
            case 3: v += ctx.range(-2, 2); break;
            default: break;
        }
        auto r = real(t, v);
        return std::isfinite(r.f) ? r : real(t, 1);
    }
    i128 v = is_float(a.type) ? (std::fabs(a.f) < 1e18L ? static_cast<i128>(std::floor(a.f)) : 0) : a.i;
    v += ctx.range(-1, 1);
    return fits(t, v) ? integer(t, v) : number(ctx, t);
}

FACET(numbers, 40000, 800000)
{
    Num a = number(ctx), b = ctx.coin() ? near(ctx, a) : number(ctx);
    int want = !is_float(a.type) && !is_float(b.type) ? (a.i < b.i ? -1 : a.i == b.i ? 0 : 1) : sign(a.f, b.f);
    auto what = pbt::cat(a.show(), " and ", b.show());
    TRACE(ctx, what);
    auto va = a.make(), vb = b.make();
    relations(ctx, va, vb, want, what);
    relations(ctx, vb, va, -want, what + " the other way round");
    relations(ctx, va, va, 0, a.show() + " and itself");
    snapshots(ctx, va, vb, want == 0, what);
    if (want == 0)
        CHECK_THAT(ctx, std::hash<metric_value>()(va) == std::hash<metric_value>()(vb), what, ": equal, but hash differently");
    CHECK_THAT(ctx, holds(va, a) && holds(vb, b), what, ": comparing changed an operand");
    ctx.nontrivial(a.type != b.type || std::fabs(a.f) > 1e9L || want == 0);
    ctx.label(want == 0, "equal");
    ctx.label(a.type != b.type, "mixed types");
    ctx.label(want != 0 && std::fabs(a.f - b.f) <= 1, "closer than one");
    ctx.label(std::fabs(a.f - b.f) >= 2147483648.0L, "further apart than an int can say");
}

// a text that spells a number is that number to another one; what spells none comes after all of them
FACET(numbers_and_texts, 20000, 400000)
{
    Num a = ctx.coin() ? number(ctx) : integer(static_cast<Type>(ctx.below(8)), ctx.range(0, 20));
    auto t = ctx.chance(1, 6) ? unspelled(ctx) : spelled(ctx, ctx.coin() ? a : near(ctx, a));
    auto what = pbt::cat(a.show(), " and ", t.show());
    TRACE(ctx, what);
    auto va = a.make();
    metric_value vt(t.text);
    int want = t.number ? sign(a.f, t.f) : -1;
    relations(ctx, va, vt, want, what);
    relations(ctx, vt, va, -want, what + " the other way round");
    snapshots(ctx, va, vt, want == 0, what);
    if (want == 0)
        CHECK_THAT(ctx, std::hash<metric_value>()(va) == std::hash<metric_value>()(vt), what, ": equal, but hash differently");
    CHECK_THAT(ctx, holds(va, a) && static_cast<std::string>(vt) == t.text, what, ": comparing changed an operand");
    ctx.nontrivial(want == 0 || (t.number && std::fabs(a.f - t.f) <= 1) || !t.number);
    if (!t.number)
    { // nor is it a length of time
        metric_value d(std::chrono::nanoseconds(ctx.integer<int64_t>()));
        relations(ctx, d, vt, -1, "a duration and " + t.show());
        relations(ctx, vt, d, 1, t.show() + " and a duration");
    }
    ctx.label(want == 0, "equal");
    ctx.label(!t.number, "no number");
}

FACET(sorting, 4000, 80000)
{
    std::vector<Num> nums;
    std::vector<metric_value> vals;
    auto n = ctx.size(30);
    auto one = static_cast<Type>(ctx.below(ntypes));
    bool single = ctx.coin();
    for (std::size_t i = 0; i < n; i++)
    {
        Num x = single ? number(ctx, one) : !nums.empty() && ctx.coin() ? near(ctx, nums[ctx.below(nums.size())]) : number(ctx);
        nums.push_back(x);
        vals.push_back(x.make());
        TRACE(ctx, x.show());
    }
    std::sort(vals.begin(), vals.end());
    std::vector<ld> got, want;
    for (auto& v : vals)
        got.push_back(static_cast<ld>(v));
    for (auto& x : nums)
        want.push_back(x.f);
    std::sort(want.begin(), want.end());
    CHECK_THAT(ctx, got == want, "sorted to ", got, " instead of ", want);
    ctx.nontrivial(n > 2);
}

template<typename T>
static void back_int(pbt::Ctx& ctx, const metric_value& v, const Num& n, const char* to, Type target)
{
    if (is_float(n.type) ? std::floor(n.f) != n.f || std::fabs(n.f) > 2e19L || !fits(target, static_cast<i128>(n.f)) : !fits(target, n.i))
        return;
    i128 want = is_float(n.type) ? static_cast<i128>(n.f) : n.i;
    T got = v;
    CHECK_THAT(ctx, got == static_cast<T>(want), n.show(), " as ", to, ": got ", got, ", expected ", static_cast<T>(want));
}
template<typename T>
static void back_float(pbt::Ctx& ctx, const metric_value& v, const Num& n, const char* to)
{
    if (static_cast<ld>(static_cast<T>(n.f)) != n.f)
        return;
    T got = v;
    CHECK_THAT(ctx, got == static_cast<T>(n.f), n.show(), " as ", to, ": got ", got, ", expected ", static_cast<T>(n.f));
}
static void everywhere(pbt::Ctx& ctx, const metric_value& v, const Num& n)
{
    back_int<int8_t>(ctx, v, n, "int8", i8);
    back_int<uint8_t>(ctx, v, n, "uint8", u8);
    back_int<int16_t>(ctx, v, n, "int16", i16);
    back_int<uint16_t>(ctx, v, n, "uint16", u16);
    back_int<int32_t>(ctx, v, n, "int32", i32);
    back_int<uint32_t>(ctx, v, n, "uint32", u32);
    back_int<int64_t>(ctx, v, n, "int64", i64);
    back_int<uint64_t>(ctx, v, n, "uint64", u64);
    back_float<float>(ctx, v, n, "float");
    back_float<double>(ctx, v, n, "double");
    back_float<ld>(ctx, v, n, "long double");
}

FACET(conversions, 30000, 600000)
{
    Num n = number(ctx);
    if (is_float(n.type) && ctx.coin())
        n = real(n.type, std::round(n.f));
    TRACE(ctx, n.show());
    metric_value v = n.make();
    everywhere(ctx, v, n);
    CHECK_EQ(ctx, static_cast<std::string>(v), n.text(), n.show(), " as text");
    std::ostringstream o;
    o << v;
    CHECK_EQ(ctx, o.str(), n.text(), n.show(), " written to a stream");
    // through copies and moves
    metric_value c(v), m(std::move(c));
    CHECK_THAT(ctx, holds(m, n) && holds(v, n), n.show(), ": a copy or its origin became ", show(m));
    metric_value a(number(ctx).make());
    a = std::move(m);
    CHECK_THAT(ctx, holds(a, n), n.show(), ": assigned, it became ", show(a));
    ctx.nontrivial(std::fabs(n.f) > 100 || is_float(n.type));
}

FACET(numeric_text, 15000, 300000)
{
    Num n = number(ctx);
    std::string s;
    if (is_float(n.type))
    {
        char buf[6000];
        switch (ctx.below(3))
        {
            case 0: snprintf(buf, sizeof buf, "%.21Lg", n.f); break;
            case 1: snprintf(buf, sizeof buf, "%.30Lf", n.f); break;
            default: snprintf(buf, sizeof buf, "%.25Le", n.f);
        }
        s = buf;
        metric_value v(s);
        TRACE(ctx, "text ", s);
        if (std::fabs(n.f) > 1e-5L || n.f == 0)
        {
            ld got = v;
            CHECK_THAT(ctx, got == n.f || std::fabs(got - n.f) <= std::fabs(n.f) * 1e-18L, "text ", s, " as long double: got ", got);
            double d = v;
            CHECK_THAT(ctx, d == static_cast<double>(n.f) || std::fabs(d - static_cast<double>(n.f)) <= std::fabs(d) * 1e-15, "text ", s, " as double: got ", d);
            float f = v;
            CHECK_THAT(ctx, f == static_cast<float>(n.f) || std::fabs(f - static_cast<float>(n.f)) <= std::fabs(f) * 1e-6f, "text ", s, " as float: got ", f);
        }
        CHECK_EQ(ctx, static_cast<std::string>(v), s, "the text");
    }
    else
    {
        s = n.text();
        metric_value v = ctx.coin() ? metric_value(s) : metric_value(s.c_str());
        TRACE(ctx, "text ", s);
        everywhere(ctx, v, n);
        CHECK_EQ(ctx, static_cast<std::string>(v), s, "the text");
    }
    ctx.nontrivial(s.size() > 2);
}

static std::string any_text(pbt::Ctx& ctx)
{
    std::string s;
    auto n = ctx.size(40);
    bool digits = ctx.chance(1, 3);
    for (std::size_t i = 0; i < n; i++)
        s += static_cast<char>(digits ? '0' + ctx.below(10) : ctx.coin() ? 'a' + ctx.below(3) : ctx.below(256));
    return s;
}

FACET(text, 12000, 200000)
{
    std::string a = any_text(ctx), b;
    switch (ctx.below(4))
    {
        case 0: b = a; break;
        case 1: b = a.substr(0, ctx.below(a.size() + 1)); break;
        case 2: b = a + any_text(ctx); break;
        default: b = any_text(ctx);
    }
    auto what = pbt::quote(a) + " and " + pbt::quote(b);
    TRACE(ctx, what);
    metric_value va(a), vb(b);
    int c = a.compare(b);
    int want = c < 0 ? -1 : c > 0 ? 1 : 0;
    relations(ctx, va, vb, want, what);
    relations(ctx, vb, va, -want, what + " the other way round");
    snapshots(ctx, va, vb, want == 0, what);
    if (want == 0)
        CHECK_THAT(ctx, std::hash<metric_value>()(va) == std::hash<metric_value>()(vb), what, ": equal, but hash differently");
    CHECK_EQ(ctx, static_cast<std::string>(va), a, "back to text");
    metric_value m(std::move(va)), k(0);
    CHECK_EQ(ctx, static_cast<std::string>(m), a, "a moved text");
    k = std::move(m);
    CHECK_EQ(ctx, static_cast<std::string>(k), a, "a moved text");
    metric_value z(k);
    CHECK_THAT(ctx, z == k && static_cast<std::string>(z) == a, "a copied text");
    ctx.nontrivial(!a.empty() && !b.empty());
    ctx.label(want == 0, "equal");
}

struct Dur
{
    int unit;
    int64_t count;
    i128 ns() const
    {
        static const int64_t f[] = {1, 1000, 1000000, 1000000000, 60000000000ll, 3600000000000ll};
        return static_cast<i128>(count) * f[unit];
    }
    metric_value make() const
    {
        switch (unit)
        {
            case 0: return metric_value(std::chrono::nanoseconds(count));
            case 1: return metric_value(std::chrono::microseconds(count));
            case 2: return metric_value(std::chrono::milliseconds(count));
            case 3: return metric_value(std::chrono::seconds(count));
            case 4: return metric_value(std::chrono::duration<int64_t, std::ratio<60>>(count));
            default: return metric_value(std::chrono::duration<int64_t, std::ratio<3600>>(count));
        }
    }
    std::string show() const
    {
        static const char* const u[] = {"ns", "us", "ms", "s", "min", "h"};
        return pbt::cat(count, u[unit]);
    }
};

template<typename D>
static void back_duration(pbt::Ctx& ctx, const metric_value& v, const Dur& d, int64_t unit, const char* to)
{
    if (d.ns() % unit)
        return;
    D got = v;
    CHECK_EQ(ctx, static_cast<i128>(got.count()), d.ns() / unit, d.show(), " as ", to);
    CHECK_EQ(ctx, static_cast<i128>(std::chrono::duration_cast<D>(v).count()), d.ns() / unit, "duration_cast of ", d.show(), " to ", to);
}

FACET(durations, 15000, 300000)
{
    auto draw = [&] {
        Dur d;
        d.unit = static_cast<int>(ctx.below(6));
        int64_t limit[] = {4000000000000000000ll, 4000000000000000ll, 4000000000000ll, 4000000000ll, 66000000ll, 1000000ll};
        d.count = ctx.coin() ? ctx.range(-100, 100) : ctx.range(-limit[d.unit], limit[d.unit]);
        return d;
    };
    Dur a = draw(), b = draw();
    if (ctx.coin())
    { // the same length, or nearly, in another unit
        static const int64_t f[] = {1, 1000, 1000000, 1000000000, 60000000000ll, 3600000000000ll};
        b.unit = static_cast<int>(ctx.below(6));
        b.count = static_cast<int64_t>(a.ns() / f[b.unit]) + (ctx.coin() ? 0 : ctx.range(-1, 1));
    }
    auto what = a.show() + " and " + b.show();
    TRACE(ctx, what);
    int want = a.ns() < b.ns() ? -1 : a.ns() == b.ns() ? 0 : 1;
    auto va = a.make(), vb = b.make();
    relations(ctx, va, vb, want, what);
    relations(ctx, vb, va, -want, what + " the other way round");
    snapshots(ctx, va, vb, want == 0, what);
    if (want == 0)
        CHECK_THAT(ctx, std::hash<metric_value>()(va) == std::hash<metric_value>()(vb), what, ": equal, but hash differently");
    back_duration<std::chrono::nanoseconds>(ctx, va, a, 1, "ns");
    back_duration<std::chrono::microseconds>(ctx, va, a, 1000, "us");
    back_duration<std::chrono::milliseconds>(ctx, va, a, 1000000, "ms");
    back_duration<std::chrono::seconds>(ctx, va, a, 1000000000, "s");
    back_duration<std::chrono::minutes>(ctx, va, a, 60000000000ll, "min");
    back_duration<std::chrono::hours>(ctx, va, a, 3600000000000ll, "h");
    std::vector<metric_value> three;
    std::vector<i128> lens;
    for (int i = 0; i < 5; i++)
    {
        auto d = i == 0 ? a : i == 1 ? b : draw();
        three.push_back(d.make());
        lens.push_back(d.ns());
    }
    std::sort(three.begin(), three.end());
    std::sort(lens.begin(), lens.end());
    for (std::size_t i = 0; i < 5; i++)
    {
        std::chrono::nanoseconds n = three[i];
        CHECK_THAT(ctx, static_cast<i128>(n.count()) == lens[i], "sorted durations: number ", i, " is ", n.count(), " ns instead of ", lens[i]);
    }
    ctx.nontrivial(a.unit != b.unit);
    ctx.label(want == 0 && a.unit != b.unit, "equal across units");
}

PBT_MAIN
