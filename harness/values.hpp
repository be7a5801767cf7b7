// Numbers of every type a metric value can hold
#ifndef VALUES_HPP
#define VALUES_HPP

#include "pbt.hpp"
#include <cxxmetrics/metric_value.hpp>

namespace val
{
using cxxmetrics::metric_value;
using ld = long double;
using i128 = __int128;

enum Type { i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, f80, ntypes };
static const char* const names[] = {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double", "long double"};

inline bool is_float(Type t) { return t >= f32; }
inline bool is_unsigned(Type t) { return t == u8 || t == u16 || t == u32 || t == u64; }
inline i128 lowest(Type t)
{
    switch (t) { case i8: return INT8_MIN; case i16: return INT16_MIN; case i32: return INT32_MIN; case i64: return INT64_MIN; default: return 0; }
}
inline i128 highest(Type t)
{
    switch (t) { case i8: return INT8_MAX; case u8: return UINT8_MAX; case i16: return INT16_MAX; case u16: return UINT16_MAX; case i32: return INT32_MAX; case u32: return UINT32_MAX; case i64: return INT64_MAX; default: return UINT64_MAX; }
}

struct Num
{
    Type type;
    i128 i; // integers
    ld f;   // everything, exactly

    metric_value make() const
    {
        switch (type)
        {
            case i8: return metric_value(static_cast<int8_t>(i));
            case u8: return metric_value(static_cast<uint8_t>(i));
            case i16: return metric_value(static_cast<int16_t>(i));
            case u16: return metric_value(static_cast<uint16_t>(i));
            case i32: return metric_value(static_cast<int32_t>(i));
            case u32: return metric_value(static_cast<uint32_t>(i));
            case i64: return metric_value(static_cast<int64_t>(i));
            case u64: return metric_value(static_cast<uint64_t>(i));
            case f32: return metric_value(static_cast<float>(f));
            case f64: return metric_value(static_cast<double>(f));
            default: return metric_value(f);
        }
    }
    std::string text() const // as std::to_string has it
    {
        switch (type)
        {
            case f32: return std::to_string(static_cast<float>(f));
            case f64: return std::to_string(static_cast<double>(f));
            case f80: return std::to_string(f);
            default: return pbt::cat(i);
        }
    }
    std::string show() const { return is_float(type) ? pbt::cat(names[type], " ", f) : pbt::cat(names[type], " ", i); }
};

inline Num integer(Type t, i128 v) { return Num{t, v, static_cast<ld>(v)}; }
inline Num real(Type t, ld v)
{
    return Num{t, 0, t == f32 ? static_cast<ld>(static_cast<float>(v)) : t == f64 ? static_cast<ld>(static_cast<double>(v)) : v};
}
inline bool fits(Type t, i128 v) { return v >= lowest(t) && v <= highest(t); }

inline Num number(pbt::Ctx& ctx, Type t, int maxexp = 60)
{
    switch (t)
    {
        case i8: return integer(t, ctx.integer<int8_t>());
        case u8: return integer(t, ctx.integer<uint8_t>());
        case i16: return integer(t, ctx.integer<int16_t>());
        case u16: return integer(t, ctx.integer<uint16_t>());
        case i32: return integer(t, ctx.integer<int32_t>());
        case u32: return integer(t, ctx.integer<uint32_t>());
        case i64: return integer(t, ctx.integer<int64_t>());
        case u64: return integer(t, ctx.integer<uint64_t>());
        case f32: return real(t, ctx.real<float>(std::min(maxexp, 60)));
        case f64: return real(t, ctx.real<double>(maxexp));
        default: return real(t, ctx.real<ld>(maxexp));
    }
}
inline Num number(pbt::Ctx& ctx) { return number(ctx, static_cast<Type>(ctx.below(ntypes))); }

// the wider of two types: more bytes first, integers before floating point of the same size, signed before unsigned
inline int width(Type t)
{
    static const int w[] = {10, 11, 20, 21, 40, 41, 80, 81, 80, 160, 320};
    return w[t];
}
// a float of four bytes is not comparable with the integers of eight
inline bool ordered(Type a, Type b) { return !((a == f32 && (b == i64 || b == u64)) || (b == f32 && (a == i64 || a == u64))); }
inline Type wider(Type a, Type b) { return width(b) > width(a) ? b : a; }

// does the value hold exactly this number, in this type?
inline bool holds(const metric_value& v, const Num& n)
{
    if (static_cast<std::string>(v) != n.text())
        return false;
    if (is_float(n.type))
        return static_cast<ld>(v) == n.f;
    if (is_unsigned(n.type))
        return static_cast<uint64_t>(v) == static_cast<uint64_t>(n.i);
    return static_cast<int64_t>(v) == static_cast<int64_t>(n.i);
}
// a text, and the number it spells, if it does
struct Spelled
{
    std::string text;
    bool number;
    ld f;
    std::string show() const { return pbt::cat("text ", pbt::quote(text)); }
};
inline Spelled spelled(pbt::Ctx& ctx, const Num& n)
{
    if (!is_float(n.type) || (std::floor(n.f) == n.f && std::fabs(n.f) < 1e18L))
    {
        i128 v = is_float(n.type) ? static_cast<i128>(n.f) : n.i;
        bool neg = v < 0;
        auto digits = pbt::cat(neg ? -v : v);
        std::string sign = neg ? "-" : ctx.chance(1, 6) ? "+" : "";
        switch (ctx.below(6))
        {
            case 0: return {sign + digits + ".0", true, n.f};
            case 1: return {sign + "0" + digits, true, n.f};
            case 2: return {sign + digits + "e0", true, n.f};
            case 3: return {sign + digits + ".000000", true, n.f};
            default: return {sign + digits, true, n.f};
        }
    }
    char b[64];
    snprintf(b, sizeof b, ctx.coin() ? "%.25Lg" : "%.25Le", n.f); // more digits than it has
    return {b, true, n.f};
}
inline Spelled unspelled(pbt::Ctx& ctx)
{
    static const char* const t[] = {"", "x", "-", "5x", "x5", "--1", "1 ", "1,5", "1.2.3", "e5", "!", "~", "0 0", "true"};
    if (ctx.chance(1, 4)) // a NUL ends no text
        return {(ctx.chance(1, 3) ? std::string() : pbt::cat(ctx.range(-5, 20), ctx.coin() ? "" : ".5")) + std::string(1 + ctx.size(20), '\0') + (ctx.coin() ? "" : t[ctx.below(14)]), false, 0};
    return {t[ctx.below(14)], false, 0};
}

inline std::string show(const metric_value& v) { return pbt::cat(static_cast<std::string>(v), " (", static_cast<ld>(v), ")"); }

}

#endif
