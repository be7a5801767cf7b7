// C17: arithmetic of metric values against exact arithmetic
#include "values.hpp"

PROPERTY("C17", "A case applies operators, binary or compound and with the operands either way round, to values of drawn types whose exact result the wider type can represent, or runs a chain of them; non-trivial when the operands have different types or the values are not both small.")

using namespace val;

enum Op { add, sub, mul, div_ };
static const char* const ops[] = {"+", "-", "*", "/"};

static metric_value apply(Op op, const metric_value& a, const metric_value& b)
{
    switch (op)
    {
        case add: return a + b;
        case sub: return a - b;
        case mul: return a * b;
        default: return a / b;
    }
}
static void assign(Op op, metric_value& a, const metric_value& b)
{
    switch (op)
    {
        case add: a += b; break;
        case sub: a -= b; break;
        case mul: a *= b; break;
        default: a /= b;
    }
}

// the expected number; false if nothing is claimed for these operands
static bool expected(Op op, const Num& a, const Num& b, Num& r, bool& exact)
{
    exact = true;
    if (!ordered(a.type, b.type))
        return false;
    Type w = wider(a.type, b.type);
    if (!is_float(w))
    {
        if (is_float(a.type) || is_float(b.type))
            return false;
        i128 v;
        switch (op)
        {
            case add: v = a.i + b.i; break;
            case sub: v = a.i - b.i; break;
            case mul: v = a.i * b.i; break;
            default:
                if (!fits(w, a.i) || !fits(w, b.i))
                    return false;
                v = b.i ? a.i / b.i : 0;
        }
        if (op == mul && a.i && (v / a.i != b.i || v > (static_cast<i128>(1) << 64) || v < -(static_cast<i128>(1) << 64)))
            return false;
        if (!fits(w, v))
            return false;
        r = integer(w, v);
        return true;
    }
    ld v;
    switch (op)
    {
        case add: v = a.f + b.f; break;
        case sub: v = a.f - b.f; break;
        case mul: v = a.f * b.f; break;
        default: v = b.f ? a.f / b.f : 0;
    }
    r = real(w, v);
    if (!std::isfinite(r.f) || (r.f != 0 && std::fabs(r.f) < 1e-30L))
        return false;
    // both operands and the result representable: nothing may be lost
    exact = r.f == v && real(w, a.f).f == a.f && real(w, b.f).f == b.f && op != div_;
    return true;
}

static bool close(const metric_value& got, const Num& want, ld scale)
{
    ld eps = want.type == f32 ? 1e-6L : want.type == f64 ? 1e-14L : 1e-17L;
    return std::fabs(static_cast<ld>(got) - want.f) <= eps * (std::fabs(want.f) + scale);
}

static void expect(pbt::Ctx& ctx, const metric_value& got, const Num& want, bool exact, ld scale, const std::string& what)
{
    if (exact)
    {
        CHECK_THAT(ctx, holds(got, want) || (want.f == 0 && static_cast<ld>(got) == 0 && is_float(want.type)), what, ": got ", show(got), ", expected ", want.show());
        if (want.f != 0)
            CHECK_THAT(ctx, std::hash<metric_value>()(got) == std::hash<metric_value>()(want.make()), what, ": the result does not hash like ", want.show());
    }
    else
        CHECK_THAT(ctx, close(got, want, scale), what, ": got ", show(got), ", expected ", want.show());
}

static bool small(const Num& n) { return std::fabs(n.f) < 100; }

static void pair(pbt::Ctx& ctx, const Num& a, const Num& b, Op op)
{
    Num want;
    bool exact;
    if (!expected(op, a, b, want, exact))
    {
        ctx.label("not representable");
        return;
    }
    ld scale = op == add || op == sub ? std::fabs(a.f) + std::fabs(b.f) : 0;
    auto what = pbt::cat(a.show(), " ", ops[op], " ", b.show());
    TRACE(ctx, what);
    metric_value va = a.make(), vb = b.make();
    auto r = apply(op, va, vb);
    CHECK_THAT(ctx, holds(va, a) && holds(vb, b), what, ": an operand changed");
    expect(ctx, r, want, exact, scale, what);
    assign(op, va, vb);
    CHECK_THAT(ctx, holds(vb, b), what, ": the right operand of a compound assignment changed");
    expect(ctx, va, want, exact, scale, what + " (compound)");
    if (op == add || op == mul)
    {
        Num other;
        bool ex2;
        if (expected(op, b, a, other, ex2))
            expect(ctx, apply(op, b.make(), a.make()), other, ex2, scale, what + " (the other way round)");
    }
    ctx.nontrivial(a.type != b.type || !small(a) || !small(b));
    ctx.label(ops[op]);
    ctx.label(exact, "exact");
    ctx.label(a.type != b.type, "mixed types");
    ctx.label(op == div_ && b.f == 0, "division by zero");
}

FACET(pairs, 40000, 800000)
{
    Num a = number(ctx), b = number(ctx);
    auto op = static_cast<Op>(ctx.below(4));
    if (ctx.coin())
    { // magnitudes at which more results can be represented
        if (!is_float(a.type) && !is_float(b.type))
        {
            a = integer(a.type, a.i % 1000);
            b = integer(b.type, b.i % 1000);
        }
    }
    if (op == div_ && ctx.chance(1, 10))
        b = is_float(b.type) ? real(b.type, 0) : integer(b.type, 0);
    pair(ctx, a, b, op);
}

// operands made so that the result just fits
FACET(edges, 20000, 400000)
{
    auto w = static_cast<Type>(ctx.below(f32));
    auto n = static_cast<Type>(ctx.below(f32));
    if (width(n) > width(w))
        std::swap(n, w);
    Num b = number(ctx, n);
    auto op = static_cast<Op>(ctx.below(4));
    i128 edge = ctx.coin() ? highest(w) - ctx.below(3) : lowest(w) + ctx.below(3);
    i128 v;
    switch (op)
    {
        case add: v = edge - b.i; break;
        case sub: v = ctx.coin() ? edge + b.i : b.i - edge; break;
        case mul: v = b.i ? edge / b.i : edge; break;
        default: v = edge;
    }
    if (!fits(w, v))
        return;
    Num a = integer(w, v);
    if (ctx.coin())
        pair(ctx, a, b, op);
    else
        pair(ctx, b, a, op);
}

FACET(negation, 8000, 100000)
{
    Num a = number(ctx);
    if (!is_float(a.type) && !fits(a.type, -a.i))
        return;
    Num want = is_float(a.type) ? real(a.type, -a.f) : integer(a.type, -a.i);
    auto v = a.make();
    auto r = -v;
    TRACE(ctx, "-(", a.show(), ")");
    CHECK_THAT(ctx, holds(v, a), "-(", a.show(), "): the operand changed");
    CHECK_THAT(ctx, holds(r, want), "-(", a.show(), "): got ", show(r), ", expected ", want.show());
    CHECK_THAT(ctx, holds(-r, a) , "-(-(", a.show(), ")): got ", show(-r));
    ctx.nontrivial(!small(a) || is_float(a.type));
}

// every bit of an integer turned over
FACET(complement, 6000, 100000)
{
    Num a = number(ctx, static_cast<Type>(ctx.below(f32)));
    Num want = integer(a.type, is_unsigned(a.type) ? highest(a.type) - a.i : -a.i - 1);
    auto v = a.make();
    auto r = ~v;
    TRACE(ctx, "~(", a.show(), ")");
    CHECK_THAT(ctx, holds(v, a), "~(", a.show(), "): the operand changed");
    CHECK_THAT(ctx, holds(r, want), "~(", a.show(), "): got ", show(r), ", expected ", want.show());
    CHECK_THAT(ctx, holds(~r, a), "~(~(", a.show(), ")): got ", show(~r));
    ctx.nontrivial(!small(a));
}

// a running value, changed again and again, and compared with an exact one
FACET(chains, 10000, 200000)
{
    auto t = static_cast<Type>(ctx.below(f32));
    Num acc = number(ctx, t);
    metric_value v = acc.make();
    auto n = ctx.size(40);
    int done = 0;
    for (std::size_t k = 0; k < n; k++)
    {
        auto bt = static_cast<Type>(ctx.below(f32));
        Num b = number(ctx, bt);
        if (ctx.chance(3, 4))
            b = integer(bt, b.i % 20);
        auto op = static_cast<Op>(ctx.below(4));
        Num want;
        bool exact;
        bool left = ctx.coin();
        if (!expected(op, left ? acc : b, left ? b : acc, want, exact))
            continue;
        auto what = left ? pbt::cat(acc.show(), " ", ops[op], " ", b.show()) : pbt::cat(b.show(), " ", ops[op], " ", acc.show());
        TRACE(ctx, what);
        if (left && ctx.coin())
            assign(op, v, b.make());
        else
            v = left ? apply(op, v, b.make()) : apply(op, b.make(), v);
        expect(ctx, v, want, exact, 0, what);
        acc = want;
        ++done;
        if (ctx.chance(1, 6))
        { // aliasing: v op= v
            auto op2 = static_cast<Op>(ctx.below(4));
            if (expected(op2, acc, acc, want, exact))
            {
                TRACE(ctx, ops[op2], "= itself");
                assign(op2, v, v);
                expect(ctx, v, want, exact, 0, pbt::cat(acc.show(), " ", ops[op2], "= itself"));
                acc = want;
            }
        }
    }
    ctx.nontrivial(done > 3);
}

template<typename D>
static void durations_of(pbt::Ctx& ctx, const char* unit)
{
    // lengths that fit a number of nanoseconds, like the library takes them
    const int64_t unit_ns = std::chrono::nanoseconds(D(1)).count();
    auto draw = [&] { return ctx.coin() ? ctx.range(-1000, 1000) : ctx.range(-50000000000000000ll / unit_ns, 50000000000000000ll / unit_ns); };
    D acc(draw());
    metric_value v(acc);
    auto get = [](const metric_value& m) { D d = m; return d; };
    auto n = ctx.size(20);
    for (std::size_t k = 0; k < n; k++)
    {
        auto before = acc;
        std::string what;
        D other(draw());
        metric_value o(other);
        int64_t factor = ctx.range(-9, 9);
        Type ft = static_cast<Type>(ctx.below(f32));
        if (is_unsigned(ft))
            factor = std::llabs(factor);
        if (std::llabs(acc.count()) > 200000000000000000ll / unit_ns)
        {
            acc = D(draw());
            v = metric_value(acc);
        }
        switch (ctx.below(7))
        {
            case 0: v += o; acc += other; what = "+="; break;
            case 1: v -= o; acc -= other; what = "-="; break;
            case 2: v = ctx.coin() ? v + o : o + v; acc = acc + other; what = "+"; break;
            case 3: if (ctx.coin()) { v = v - o; acc = acc - other; } else { v = o - v; acc = other - acc; } what = "-"; break;
            case 4: v = -v; acc = -acc; what = "negate"; break;
            case 5:
                if (ctx.coin())
                    v *= integer(ft, factor).make();
                else
                    v = ctx.coin() ? v * integer(ft, factor).make() : integer(ft, factor).make() * v;
                acc *= factor;
                what = pbt::cat("* ", factor);
                break;
            default:
                if (ctx.chance(1, 4))
                {
                    factor = ctx.integer<int64_t>();
                    ft = i64;
                }
                if (ctx.coin())
                    v /= integer(ft, factor).make();
                else
                    v = v / integer(ft, factor).make();
                acc = factor ? D(acc.count() / factor) : D(0);
                what = pbt::cat("/ ", factor);
        }
        TRACE(ctx, before.count(), unit, " ", what, " ", other.count(), unit);
        CHECK_EQ(ctx, get(v).count(), acc.count(), "after ", before.count(), unit, " ", what, " ", other.count(), unit);
        CHECK_EQ(ctx, get(o).count(), other.count(), "the other operand");
        CHECK_EQ(ctx, static_cast<std::string>(v), std::to_string(acc.count()), "the text of the result");
    }
    ctx.nontrivial(n > 1);
    ctx.label(unit);
}
FACET(durations, 12000, 200000)
{
    switch (ctx.below(6))
    {
        case 0: return durations_of<std::chrono::nanoseconds>(ctx, "ns");
        case 1: return durations_of<std::chrono::microseconds>(ctx, "us");
        case 2: return durations_of<std::chrono::milliseconds>(ctx, "ms");
        case 3: return durations_of<std::chrono::duration<int64_t>>(ctx, "s");
        case 4: return durations_of<std::chrono::duration<int64_t, std::ratio<60>>>(ctx, "min");
        default: return durations_of<std::chrono::duration<int64_t, std::ratio<3600>>>(ctx, "h");
    }
}

FACET(texts, 6000, 100000)
{
    std::string acc;
    auto draw = [&] {
        std::string s;
        auto n = ctx.size(60);
        for (std::size_t i = 0; i < n; i++)
            s += static_cast<char>(ctx.coin() ? 'a' + ctx.below(26) : ctx.coin() ? '0' + ctx.below(10) : ctx.below(256));
        return s;
    };
    acc = draw();
    metric_value v(acc);
    auto n = 1 + ctx.size(10);
    for (std::size_t k = 0; k < n; k++)
    {
        std::string b = draw();
        metric_value o(b);
        TRACE(ctx, pbt::quote(acc), " + ", pbt::quote(b));
        switch (ctx.below(3))
        {
            case 0: v += o; acc += b; break;
            case 1: v = v + o; acc += b; break;
            default: v = o + v; acc = b + acc;
        }
        CHECK_EQ(ctx, static_cast<std::string>(v), acc, "adding texts");
        CHECK_EQ(ctx, static_cast<std::string>(o), b, "the other text");
    }
    ctx.nontrivial(acc.size() > 1);
}

PBT_MAIN
