#!/usr/bin/env python3
"""C26: generated C++ programs over the compile-time parts of cxxmetrics, each compiled and run.

The generator computes with exact rational arithmetic what every item of a program has to yield; the program reports
where it differs. Items that fail (or that the compiler rejects or that crash) are shrunk by recompiling smaller ones.
"""
import argparse
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

RULE = ("Cases are drawn by seeded generators, distinct by their rendered item. A case is one item of a generated program: a list of windows or "
        "quantiles given to sort_unique, meter, timer or quantile_options, an amount in some unit, a quantile, or an operation between periods or a "
        "period and a duration; non-trivial when a list repeats or is out of order and has two distinct members, when an operation has two "
        "different non-zero operands, when an amount is at least 2 and a quantile strictly between 0 and 100; reading a window that was not listed (which has to be rejected) always is.")
MAXQ = 2 ** 32 - 1

PRELUDE = r'''
#include <functional>
#include <array>
#include <iterator>
#include <algorithm>
#include <vector>
#include <string>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <map>
#include <cxxmetrics/timer.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/publisher.hpp>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
typedef unsigned long long ull;
extern long long g_now;
extern int g_item;
template<typename T> std::string str(const T& v) { std::ostringstream s; s.precision(21); s << v; return s.str(); }
inline std::string list(const std::vector<ull>& v) { std::string r = "("; for (auto e : v) r += (r.size() > 1 ? " " : "") + str(e); return r + ")"; }
inline void bad(const std::string& m) { std::printf("BAD %d %s\n", g_item, m.c_str()); std::fflush(stdout); }
template<typename A, typename B> void same(const char* what, const A& is, const B& should) { if (!(is == should)) bad(std::string(what) + " is " + str(is) + " and not " + str(should)); }
inline void near(const char* what, long double is, long double should, long double tol) { if (!(fabsl(is - should) <= tol)) bad(std::string(what) + " is " + str(is) + " and not " + str(should)); }

template<typename T> struct lister;
template<templates::sortable_template_type... V>
struct lister<templates::sortable_template_collection<V...>> { static std::vector<ull> get() { return {V...}; } };
template<ull... V> std::vector<ull> sorted() { return lister<typename templates::sort_unique<V...>::type>::get(); }

struct Move { long long ns; long long amount; };

template<ull I, ull W, typename M> void check_window(const M& m, const std::vector<Move>& moves, const char* who)
{
    g_now = 1000000000000ll;
    internal::ewma<steady_clock_point, W, I, double> one{steady_clock_point()};
    for (auto& s : moves) { g_now += s.ns; one.mark(s.amount); }
    const auto& c1 = one;
    meter_rate r = m.template rate<W>();
    if (std::chrono::duration_cast<std::chrono::nanoseconds>(r.period).count() != (long long)W * 1000)
        bad(std::string(who) + ": the rate of the window of " + str(W) + " us has a period of " + str(r.period.count()));
    if (!(r.rate == c1.rate()) && !(std::isnan(r.rate) && std::isnan(c1.rate())))
        bad(std::string(who) + ": the rate of the window of " + str(W) + " us is " + str(r.rate) + " and not " + str(c1.rate()));
}

template<typename S> void check_snapshot(const S& s, std::map<ull, double> expected, const char* who)
{
    for (auto& p : s) {
        ull us = p.first.count() / 1000;
        auto f = expected.find(us);
        if (f == expected.end()) { bad(std::string(who) + ": the snapshot has a window of " + str(us) + " us that was not listed, or twice"); continue; }
        double v = static_cast<double>(static_cast<long double>(p.second));
        if (!(v == f->second)) bad(std::string(who) + ": the snapshot's rate of the window of " + str(us) + " us is " + str(v) + " and not " + str(f->second));
        expected.erase(f);
    }
    for (auto& e : expected) bad(std::string(who) + ": the snapshot lacks the window of " + str(e.first) + " us");
}

template<typename O> void check_quantiles(const O& opts, std::vector<std::pair<ull, long double>> listed, int n)
{
    // what was listed, by encoding
    std::sort(listed.begin(), listed.end());
    listed.erase(std::unique(listed.begin(), listed.end(), [](const std::pair<ull, long double>& a, const std::pair<ull, long double>& b) { return a.first == b.first; }), listed.end());
    std::vector<long long> values;
    for (int i = 1; i <= n; ++i) values.push_back(i * 1000);
    histogram_snapshot s(reservoir_snapshot(values.begin(), values.end(), values.size()), n);
    struct V : quantile_visitor {
        mutable std::vector<std::pair<long double, long double>> seen;
        void visit(const quantile& q, metric_value&& v) const override { seen.emplace_back(q.percentile(), static_cast<long double>(v)); }
    } v;
    static_cast<const basic_quantile_options&>(opts).visit(s, v);
    if (v.seen.size() != listed.size()) { bad(str(v.seen.size()) + " quantiles are visited and not " + str(listed.size())); return; }
    for (size_t i = 0; i < listed.size(); ++i) {
        near("visited percentile", v.seen[i].first, listed[i].second, 100.0L / 4294967295.0L * 1.01L);
        long double pos = listed[i].second / 100 * (n + 1);
        long double should = pos < 1 ? 1000 : pos >= n ? n * 1000 : pos * 1000;
        near("value at the quantile", v.seen[i].second, should, 1000.0L * (n + 1) / 4294967295.0L * 1.01L + 1e-6L);
    }
}

template<ull E> void check_encoded(const char* what, long double p)
{
    near(what, (long double)E, p * 4294967295.0L / 100, 1.0L);
    if (E > 4294967295ull) bad(std::string(what) + " is beyond the 100th percentile");
    near("decoded again", quantile(E).percentile(), p, 100.0L / 4294967295.0L * 1.01L);
}

inline void check_quantile(long double p)
{
    quantile q(p);
    if (q.percentile() != p) bad("the percentile of quantile(" + str(p) + ") is " + str(q.percentile()));
    ull e = q;
    near("encoding", (long double)e, p * 4294967295.0L / 100, 1.0L);
    near("decoded again", quantile(e).percentile(), p, 100.0L / 4294967295.0L * 1.01L);
    ull again = quantile(e);
    near("encoded again", (long double)again, (long double)e, 1.0L);
}
'''

MAIN = r'''
long long g_now = 1000000000000ll;
int g_item = -1;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_now)); }
} } }
'''

UNITS = [("micro", "microseconds", 1), ("msec", "milliseconds", 10 ** 3), ("sec", "seconds", 10 ** 6), ("min", "minutes", 60 * 10 ** 6), ("hour", "hours", 3600 * 10 ** 6)]
LIMIT_US = 9 * 10 ** 15  # what a steady_clock::duration of nanoseconds holds


def magnitude(r, top):
    """log-uniform, with the corners"""
    k = r.random()
    if k < .1:
        return r.choice([0, 1, 2, top, max(top - 1, 0)])
    if k < .4:
        return min(top, r.randrange(1, 120))
    return min(top, int(2 ** r.uniform(0, top.bit_length())))


def window(r, top=LIMIT_US, least=1):
    """(how it is written, how many microseconds)"""
    suffix, helper, us = r.choice(UNITS)
    n = max(least, magnitude(r, top // us))
    k = r.random()
    if k < .55:
        return ["%d_%s" % (n, suffix), n * us]
    if k < .85:
        return ["cxxmetrics::time::%s(%dull)" % (helper, n), n * us]
    if k < .95:
        return ["%dull" % (n * us), n * us]
    return ["period(%dull)" % (n * us), n * us]


def respell(r, us):
    """the same length written in some way"""
    fit = [(s, h, u) for s, h, u in UNITS if us % u == 0]
    s, h, u = r.choice(fit)
    return [r.choice(["%d_%s" % (us // u, s), "cxxmetrics::time::%s(%dull)" % (h, us // u), "%dull" % us]), us]


def listof(r, n, one, again):
    out = []
    for _ in range(n):
        if out and r.random() < .3:
            out.append(again(r.choice(out)))
        else:
            out.append(one())
    k = r.random()
    if k < .1:
        out.sort(key=lambda e: Fraction(e[1]))
    elif k < .2:
        out.sort(key=lambda e: -Fraction(e[1]))
    return out


def gen_sort(r, big):
    n = r.choice([0, 1, 2, 3, r.randrange(0, 8), r.randrange(0, 8), r.randrange(4, 24), r.randrange(4, big)])
    k = r.random()
    if k < .3:
        one = lambda: (lambda v: ["%dull" % v, v])(r.randrange(0, 4))
    elif k < .6:
        one = lambda: (lambda v: ["%dull" % v, v])(r.choice([0, 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1, r.randrange(2 ** 64)]))
    elif k < .8:
        one = lambda: (lambda v: ["%dull" % v, v])(magnitude(r, 2 ** 64 - 1))
    else:
        one = lambda: window(r, least=0)
    return {"kind": "sort", "list": listof(r, n, one, lambda e: e)}


def gen_meter(r, big, kind):
    n = r.choice([0, 1, 2, 3, r.randrange(0, 6), r.randrange(2, 10), r.randrange(2, big)])
    k = r.random()
    if k < .5:  # everyday windows
        one = lambda: respell(r, r.choice([1, 5, 10, 30, 60, 300, 900, 3600, 86400]) * 10 ** 6)
        interval = respell(r, r.choice([1, 1, 1, 5, 60]) * 10 ** 6)
    else:
        one = lambda: window(r)
        interval = window(r, top=10 ** 10)
    moves = []
    for _ in range(r.randrange(0, 7)):
        step = r.choice([0, interval[1] * 1000, interval[1] * r.randrange(1, 5000), r.randrange(10 ** 10), 3 * interval[1] * 1000])
        moves.append([min(step, 10 ** 15), r.randrange(1, 1000)])
    return {"kind": kind, "interval": interval, "list": listof(r, n, one, lambda e: respell(r, e[1])), "moves": moves}


def pct(p):
    """a literal's digits as an exact percentile"""
    return Fraction(p)


def quantile_text(r):
    k = r.random()
    if k < .35:
        return str(r.randrange(0, 101))
    if k < .6:
        return r.choice(["50", "75", "90", "95", "99", "99.9", "99.99", "99.999", "99.9999", "0.1", "0.01", "0", "100", "33.333333", "0.0", "100.0", "1.5e1"])
    d = r.randrange(1, 9)
    v = str(r.randrange(0, 10 ** (2 + d))).zfill(2 + d)
    return v[:-d] + "." + v[-d:]


def one_quantile(r, text=None):
    text = text if text is not None else quantile_text(r)
    t = text
    if "." not in t and "e" not in t and r.random() < .7:
        t = (t.lstrip("0") or "0") + "_p"
    elif r.random() < .5:
        t = (t if "." in t or "e" in t else t + ".0") + "_p"
    else:
        t = "quantile(%sl)" % (t if "." in t or "e" in t else t + ".0")
    return [t, text]


def gen_quantiles(r, big):
    n = r.choice([1, 1, 2, 3, r.randrange(1, 6), r.randrange(2, 12), r.randrange(2, big)])
    return {"kind": "quantiles", "list": listof(r, n, lambda: one_quantile(r), lambda e: one_quantile(r, e[1])), "n": r.choice([1, 2, 3, 9, 99, 100, r.randrange(1, 300)])}


def gen_unit(r):
    suffix, helper, us = r.choice(UNITS)
    n = magnitude(r, LIMIT_US // us) if r.random() < .8 else magnitude(r, (2 ** 64 - 1) // us)
    return {"kind": "unit", "suffix": suffix, "helper": helper, "n": n, "us": n * us}


def gen_quantile(r):
    k = r.random()
    t = quantile_text(r)
    if k < .3:
        return {"kind": "literal", "text": t, "code": one_quantile(r, t)[0]}
    return {"kind": "quantile", "text": t}


def gen_period(r):
    op = r.choice("+-*/")
    a = magnitude(r, 2 ** 40 if op == "*" else 2 ** 63)
    b = magnitude(r, 2 ** 23 if op == "*" else 2 ** 62)
    if op == "-" and b > a:
        a, b = b, a
    if op == "/" and b == 0:
        b = 1
    return {"kind": "period", "a": a, "op": op, "b": b, "as": r.choice(["period", "plain"])}


# C++ type, seconds per tick, integral, may be added to in place
DURATIONS = [("std::chrono::nanoseconds", Fraction(1, 10 ** 9), True, True), ("std::chrono::microseconds", Fraction(1, 10 ** 6), True, False),
             ("std::chrono::milliseconds", Fraction(1, 1000), True, False), ("std::chrono::seconds", Fraction(1), True, False),
             ("std::chrono::minutes", Fraction(60), True, False), ("std::chrono::hours", Fraction(3600), True, False),
             ("(std::chrono::duration<int, std::ratio<86400>>)", Fraction(86400), True, False),
             ("(std::chrono::duration<long long, std::ratio<1, 3>>)", Fraction(1, 3), True, False),
             ("(std::chrono::duration<short, std::ratio<1, 4>>)", Fraction(1, 4), True, False),
             ("(std::chrono::duration<double>)", Fraction(1), False, True), ("(std::chrono::duration<double, std::milli>)", Fraction(1, 1000), False, True),
             ("(std::chrono::duration<long double, std::ratio<60>>)", Fraction(60), False, True)]
COMMON = {"(std::chrono::duration<long long, std::ratio<1, 3>>)": Fraction(1, 3 * 10 ** 9)}


def gen_duration(r):
    t = r.randrange(len(DURATIONS))
    name, tick, integral, inplace = DURATIONS[t]
    op = r.choice([">", ">=", "<", "<=", ">", ">=", "<", "<=", "/", "+", "-"] + (["+=", "-="] if inplace else []))
    top = Fraction(2 ** 61) * COMMON.get(name, Fraction(1, 10 ** 9))
    if not integral:
        top = Fraction(2 ** 50, 10 ** 9)
    lim = int(top / tick)
    if "short" in name:
        lim = min(lim, 32767)
    if "<int" in name:
        lim = min(lim, 2 ** 31 - 1)
    n = magnitude(r, lim)
    if r.random() < .25:
        n = -n
    b = magnitude(r, int(top * 10 ** 6))
    if r.random() < .5:  # equal, or nearly
        b = min(int(abs(n) * tick * 10 ** 6) + r.choice([0, 0, 1, -1]), int(top * 10 ** 6))
        b = max(b, 0)
    if op == "/" and b == 0:
        b = 1
    return {"kind": "duration", "type": t, "n": n, "op": op, "b": b}


def trunc(f):
    return int(f) if f >= 0 else -int(-f)


def render(item):
    k = item["kind"]
    if k == "sort":
        exp = sorted(set(e[1] for e in item["list"]))
        return ("auto is = sorted<%s>(); std::vector<ull> should = {%s}; if (is != should) bad(\"the sorted list is \" + list(is) + \" and not \" + list(should));"
                % (", ".join(e[0] for e in item["list"]), ", ".join("%dull" % e for e in exp)))
    if k in ("meter", "timer"):
        exp = sorted(set(e[1] for e in item["list"]))
        i = item["interval"][0]
        ws = "".join(", " + e[0] for e in item["list"])
        out = ["std::vector<Move> moves = {%s};" % ", ".join("{%dll, %dll}" % (a, b) for a, b in item["moves"]), "g_now = 1000000000000ll;"]
        if k == "meter":
            out.append("meter<%s%s> m; const auto& c = m; for (auto& s : moves) { g_now += s.ns; m.mark(s.amount); }" % (i, ws))
        else:
            out.append("timer<%s, std::chrono::steady_clock, simple_reservoir<std::chrono::steady_clock::duration, 4>%s> m; const auto& c = m;" % (i, ws))
            out.append("for (auto& s : moves) { s.amount = 1; g_now += s.ns; m.update(std::chrono::steady_clock::duration(7)); }")
        for w in exp:
            out.append("check_window<%s, %dull>(c, moves, \"%s\");" % (i, w, k))
        out.append("std::map<ull, double> all = {%s};" % ", ".join("{%dull, c.rate<%dull>().rate}" % (w, w) for w in exp))
        snap = "c.snapshot()" if k == "meter" else "c.snapshot().rate()"
        if k == "meter":
            out.append("auto snap = c.snapshot(); check_snapshot(snap, all, \"meter\");")
        else:
            out.append("auto snap = c.snapshot(); check_snapshot(snap.rate(), all, \"timer\");")
        # listed spellings are all accepted
        for e in item["list"][:6]:
            out.append("if (c.rate<%s>().period != std::chrono::microseconds(%dull)) bad(\"the period of rate<%s>\");" % (e[0], e[1], e[0]))
        return " ".join(out)
    if k == "quantiles":
        return ("check_quantiles(quantile_options<%s>(), {%s}, %d);"
                % (", ".join(e[0] for e in item["list"]),
                   ", ".join("{(ull)(%s), %sL}" % (e[0], e[1] if "." in e[1] or "e" in e[1] else e[1] + ".0") for e in item["list"]), item["n"]))
    if k == "unit":
        n, us = item["n"], item["us"]
        out = ["{ constexpr ull a = cxxmetrics::time::%s(%dull); constexpr ull b = %d_%s; volatile ull n = %dull; ull c = cxxmetrics::time::%s(n);"
               % (item["helper"], n, n, item["suffix"], n, item["helper"])]
        out.append('same("the helper", a, %dull); same("the literal", b, %dull); same("the helper at run time", c, %dull);' % (us, us, us))
        if us <= LIMIT_US:
            out.append('std::chrono::steady_clock::duration d = cxxmetrics::time::%s(n); same("as a duration, ns", (long long)std::chrono::nanoseconds(d).count(), %dll);' % (item["helper"], us * 1000))
            out.append('same("to_duration, ns", (long long)std::chrono::nanoseconds((%d_%s).to_duration()).count(), %dll);' % (n, item["suffix"], us * 1000))
        return " ".join(out) + " }"
    if k == "literal":
        p = item["text"] if "." in item["text"] or "e" in item["text"] else item["text"] + ".0"
        return 'check_encoded<%s>("the encoding of %s", %sL);' % (item["code"], item["code"], p)
    if k == "quantile":
        p = item["text"] if "." in item["text"] or "e" in item["text"] else item["text"] + ".0"
        return "check_quantile(%sL);" % p
    if k == "period":
        a, b, op = item["a"], item["b"], item["op"]
        v = {"+": a + b, "-": a - b, "*": a * b, "/": a // b if b else 0}[op]
        rhs = "period(%dull)" % b if item["as"] == "period" else "period::value(%dull)" % b
        return '{ period a(%dull); period r = a %s %s; same("%d us %s %d", (ull)r, %dull); same("afterwards the left side", (ull)a, %dull); }' % (a, op, rhs, a, op, b, v, a)
    if k == "duration":
        name, tick, integral, inplace = DURATIONS[item["type"]]
        n, op, b = item["n"], item["op"], item["b"]
        left, right = n * tick, Fraction(b, 10 ** 6)
        if name.startswith("("):
            name = name[1:-1]
        out = "{ typedef %s D; D d(%s); period p(%dull); " % (name, "%d" % n if n > -2 ** 63 else "(-9223372036854775807ll - 1)", b)
        what = "%d ticks of %s s %s %d us" % (n, tick, op, b)
        if op in (">", ">=", "<", "<="):
            v = {">": left > right, ">=": left >= right, "<": left < right, "<=": left <= right}[op]
            out += 'bool r = d %s p; same("%s", r, %s);' % (op, what, "true" if v else "false")
        elif op == "/":
            q = left / right
            if integral:
                out += 'auto r = d / p; same("%s", (long long)r, %dll);' % (what, trunc(q))
            else:
                out += 'auto r = d / p; near("%s", r, %.21gL, %.21gL);' % (what, float(q), abs(float(q)) * 1e-12)
        else:
            v = left + right if op[0] == "+" else left - right
            u = COMMON.get(DURATIONS[item["type"]][0], Fraction(1, 10 ** 9))
            if integral:
                cnt = v / u
                assert cnt.denominator == 1
                per = "std::ratio<%d, %d>" % (u.numerator, u.denominator)
                conv = "std::chrono::duration<long long, %s>" % per
                if op in "+-":
                    out += 'auto r = d %s p; same("%s", (long long)std::chrono::duration_cast<%s>(r).count(), %dll);' % (op, what, conv, cnt)
                else:
                    out += 'auto r = (d %s p); same("%s", (long long)d.count(), %dll); same("what it yields", (long long)std::chrono::nanoseconds(r).count(), %dll);' % (op, what, cnt, cnt)
            else:
                fl = float(v)
                tol = 1e-12 * (abs(float(left)) + abs(float(right)))
                val = "(long double)std::chrono::duration<long double>(%s).count()"
                if op in "+-":
                    out += 'auto r = d %s p; near("%s", %s, %.21gL, %.21gL);' % (op, what, val % "r", fl, tol)
                else:
                    out += 'auto r = (d %s p); near("%s", %s, %.21gL, %.21gL); near("what it yields", %s, %.21gL, %.21gL);' % (op, what, val % "d", fl, tol, val % "r", fl, tol)
        return out + " }"
    raise ValueError(k)


def shown(item):
    return absent_program(item)[0].split("int main() ")[1] if item["kind"] == "absent" else render(item)


def nontrivial(item):
    k = item["kind"]
    if k == "absent":
        return True
    if k in ("sort", "meter", "timer", "quantiles"):
        v = [Fraction(e[1]) for e in item["list"]]
        return len(set(v)) > 1 and (len(set(v)) < len(v) or v != sorted(v))
    if k == "unit":
        return item["n"] > 1
    if k in ("literal", "quantile"):
        return 0 < Fraction(item["text"]) < 100
    if k == "period":
        return item["a"] != item["b"] and item["a"] and item["b"]
    return bool(item["n"] and item["b"])


def absent_program(item):
    """reads a window that was not listed: has to be rejected; with the first listed one instead it has to be accepted"""
    ws = "".join(", " + e[0] for e in item["list"])
    head = '#include "prelude.hpp"\n' + MAIN.strip("\n") + "\nint main() { "
    if item["of"] == "meter":
        head += "meter<%s%s> m; " % (item["interval"][0], ws)
    else:
        head += "timer<%s, std::chrono::steady_clock, simple_reservoir<std::chrono::steady_clock::duration, 4>%s> m; " % (item["interval"][0], ws)
    return [head + "const auto& c = m; return c.rate<%s>().rate > 1; }\n" % w for w in (item["absent"][0], item["list"][0][0])]


def gen_absent(r):
    m = gen_meter(r, 8, "meter")
    while not m["list"]:
        m = gen_meter(r, 8, "meter")
    have = set(e[1] for e in m["list"])
    near = r.choice(m["list"])[1]
    choices = [near - 1, near + 1, near * 2, near // 2, near * 1000, near // 1000, near + 2 ** 32, m["interval"][1], max(have) + 1, min(have) - 1, 0]
    choices = [c for c in choices if c >= 0 and c not in have]
    c = r.choice(choices)
    return {"kind": "absent", "of": r.choice(["meter", "timer"]), "interval": m["interval"], "list": m["list"], "absent": ["%dull" % c, c]}


def smaller(item):
    """candidates for shrinking, most drastic first"""
    k = item["kind"]
    out = []
    if "list" in item:
        L = item["list"]
        least = 1 if k == "quantiles" else 0
        step = len(L) // 2
        while step:
            for i in range(0, len(L), step):
                c = L[:i] + L[i + step:]
                if len(c) >= least:
                    out.append(dict(item, list=c))
            step //= 2
        if item.get("moves"):
            out.append(dict(item, moves=[]))
            out += [dict(item, moves=item["moves"][:i] + item["moves"][i + 1:]) for i in range(len(item["moves"]))]
        if k != "quantiles":
            vals = sorted(set(e[1] for e in L))
            simple = {v: i + 1 for i, v in enumerate(vals)}
            c = [["%dull" % simple[e[1]], simple[e[1]]] for e in L]
            if c != L:
                out.append(dict(item, list=c))
            for i, e in enumerate(L):
                w = ["%dull" % e[1], e[1]]
                if w != e:
                    out.append(dict(item, list=L[:i] + [w] + L[i + 1:]))
        else:
            for i, e in enumerate(L):
                if not e[0].startswith("50"):
                    out.append(dict(item, list=L[:i] + [["50_p", "50"]] + L[i + 1:]))
            if item["n"] > 1:
                out.append(dict(item, n=1))
        if k != "absent" and "interval" in item and item["interval"][1] != 10 ** 6:
            out.append(dict(item, interval=["1_sec", 10 ** 6]))
        if k == "absent":
            out = [c for c in out if c["list"] and c["absent"][1] not in [e[1] for e in c["list"]]]
        return out

    def less(v):
        return [w for w in ([0, 1] + [v >> s for s in (32, 16, 8, 4, 2, 1)] + [v - 1]) if 0 <= w < v]
    if k == "unit":
        us = item["us"] // item["n"] if item["n"] else 0
        return [dict(item, n=n, us=n * us) for n in less(item["n"])]
    if k == "period":
        for b in less(item["b"]):
            if (b or item["op"] != "/"):
                out.append(dict(item, b=b))
        for a in less(item["a"]):
            if item["op"] != "-" or a >= item["b"]:
                out.append(dict(item, a=a))
        return out
    if k == "duration":
        for b in less(item["b"]):
            if b or item["op"] != "/":
                out.append(dict(item, b=b))
        if item["n"] < 0:
            out.append(dict(item, n=-item["n"]))
        for n in less(abs(item["n"])):
            out.append(dict(item, n=n if item["n"] > 0 else -n))
        return out
    if k in ("literal", "quantile") and item["text"] != "50":
        return [{"kind": "quantile", "text": "50"}, {"kind": "quantile", "text": item["text"].split(".")[0].split("e")[0]}]
    return out


class Builder:
    def __init__(self, repo, build):
        self.repo, self.build = repo, build
        self.n = 0
        self.flags = ["-std=gnu++14", "-w", "-O0", "-ftemplate-depth=2000", "-fmax-errors=40", "-I" + repo, "-I" + build]

    def setup(self):
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.build)
        with open(os.path.join(self.build, "prelude.hpp"), "w") as f:
            f.write("#pragma once\n" + PRELUDE)
        r = self.call(["g++"] + self.flags + ["-x", "c++-header", os.path.join(self.build, "prelude.hpp"), "-o", os.path.join(self.build, "prelude.hpp.gch")])
        return r

    def call(self, cmd, timeout=400):
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return None, "timed out"

    def absent(self, item, tag):
        res = []
        for src in absent_program(item):
            path = os.path.join(self.build, tag + ".cpp")
            with open(path, "w") as f:
                f.write(src)
            res.append(self.call(["g++"] + self.flags + ["-c", path, "-o", path[:-4] + ".o"])[0])
            for p in (path, path[:-4] + ".o"):
                if os.path.exists(p):
                    os.remove(p)
            if res == [0]:
                return {0: "the rate of a window of %s us can be read that was not listed" % item["absent"][1]}
        if res[1] != 0:
            return {None: "neither an absent nor a listed window can be read: " + json.dumps(item)}
        return {}

    def program(self, items):
        """the source and the line each item is on"""
        lines = ['#include "prelude.hpp"'] + MAIN.strip("\n").split("\n")
        where = []
        for i, it in enumerate(items):
            lines.append("__attribute__((noinline)) static void item_%d() { %s }" % (i, render(it)))
            where.append(len(lines))
        lines.append("int main(int argc, char** argv) {")
        lines.append(" int from = argc > 1 ? atoi(argv[1]) : 0;")
        lines.append(" void (*all[])() = {%s};" % ", ".join("item_%d" % i for i in range(len(items))))
        lines.append(" for (int i = from; i < %d; ++i) { g_item = i; std::fprintf(stderr, \"%%d\\n\", i); all[i](); }" % len(items))
        lines.append(" std::puts(\"DONE\"); }")
        return "\n".join(lines) + "\n", where

    def run(self, items, tag):
        """{item index: message} of what fails; index None means no answer"""
        if items[0]["kind"] == "absent":
            return self.absent(items[0], tag)
        src, where = self.program(items)
        path = os.path.join(self.build, tag + ".cpp")
        exe = os.path.join(self.build, tag)
        with open(path, "w") as f:
            f.write(src)
        rc, out = self.call(["g++"] + self.flags + [path, "-o", exe, "-latomic"])
        if rc is None:
            return {None: "compiling timed out"}
        if rc:
            first = next((l for l in out.splitlines() if "error" in l), out[:300])
            if len(items) == 1:
                return {0: "does not compile: " + first}
            suspects = sorted(set(i for m in re.finditer(re.escape(os.path.basename(path)) + r":(\d+):", out) for i, w in enumerate(where) if w == int(m.group(1))))
            return {None: out[:2000], "suspects": suspects}
        fails = {}
        start = 0
        while True:
            try:
                r = subprocess.run([exe, str(start)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120)
                code, so, se = r.returncode, r.stdout, r.stderr
            except subprocess.TimeoutExpired as e:
                code, so, se = "no end within 120 s", (e.stdout or b"").decode(), (e.stderr or b"").decode()
            for l in so.splitlines():
                if l.startswith("BAD "):
                    _, i, msg = l.split(" ", 2)
                    fails.setdefault(int(i), msg)
            if "DONE" in so.splitlines():
                break
            at = [int(l) for l in se.splitlines() if l.isdigit()]
            at = at[-1] if at else start
            fails.setdefault(at, "the program ends with %s" % code)
            start = at + 1
            if start >= len(items):
                break
        for p in (path, exe):
            os.remove(p)
        return fails


def shrink(b, item, msg, deadline):
    tries = 0
    with ThreadPoolExecutor(8) as ex:
        again = True
        while again and time.time() < deadline:
            again = False
            cands = smaller(item)
            for i in range(0, len(cands), 8):
                if time.time() > deadline:
                    break
                chunk = cands[i:i + 8]
                res = list(ex.map(lambda c: b.run([c[1]], "shrink%d" % c[0]), enumerate(chunk)))
                tries += len(chunk)
                hit = next((j for j, f in enumerate(res) if 0 in f), None)
                if hit is not None:
                    item, msg, again = chunk[hit], res[hit][0], True
                    break
    return item, msg, tries


CANON = {
    "sort": {"kind": "sort", "list": [["1ull", 1], ["2ull", 2]]},
    "meter": {"kind": "meter", "interval": ["1_sec", 10 ** 6], "list": [["1_sec", 10 ** 6], ["1_min", 6 * 10 ** 7]], "moves": []},
    "timer": {"kind": "timer", "interval": ["1_sec", 10 ** 6], "list": [["1_sec", 10 ** 6], ["1_min", 6 * 10 ** 7]], "moves": []},
    "quantiles": {"kind": "quantiles", "list": [["50.0_p", "50"], ["90.0_p", "90"]], "n": 9},
    "unit": {"kind": "unit", "suffix": "sec", "helper": "seconds", "n": 1, "us": 10 ** 6},
    "literal": {"kind": "literal", "text": "50", "code": "50.0_p"},
    "quantile": {"kind": "quantile", "text": "50"},
    "period": {"kind": "period", "a": 2, "op": "+", "b": 1, "as": "plain"},
}
for i_, d_ in enumerate(DURATIONS):
    CANON["duration%d" % i_] = {"kind": "duration", "type": i_, "n": 1, "op": "<", "b": 1}


def main():
    ap = argparse.ArgumentParser()
    for a in ("repo", "build", "evidence", "replaydir", "replay"):
        ap.add_argument("--" + a)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--thorough", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    b = Builder(a.repo, a.build)
    rc, out = b.setup()
    if rc != 0:
        print("C26: the headers do not compile:\n" + out[:3000])
        return 2

    if a.replay:
        item = json.load(open(a.replay))["item"]
        f = b.run([item], "replay")
        print("item: " + json.dumps(item) + "\nrendered: " + shown(item))
        if 0 in f:
            print("FAILED: " + f[0])
            print("VIOLATION property=C26 replay=" + a.replay)
            return 1
        print("no violation")
        return 0 if None not in f else 2

    scale = float(os.environ.get("PBT_SCALE", "1"))
    r = random.Random(a.seed * 7919 + (1 if a.thorough else 0))
    rounds = int((40 if a.thorough else 5) * scale) or 1
    jobs = []
    big = 40 if a.thorough else 28
    for rd in range(rounds):
        for _ in range(4):
            jobs.append([gen_sort(r, 90 if a.thorough else 50) for _ in range(50)])
        for _ in range(6):
            jobs.append([gen_meter(r, 20 if a.thorough else 16, "meter") for _ in range(12)])
        for _ in range(3):
            jobs.append([gen_meter(r, 16 if a.thorough else 12, "timer") for _ in range(8)])
        for _ in range(3):
            jobs.append([gen_quantiles(r, big) for _ in range(24)])
        jobs.append([gen_unit(r) for _ in range(300)] + [gen_quantile(r) for _ in range(300)])
        for _ in range(4):
            jobs.append([gen_period(r) for _ in range(150)] + [gen_duration(r) for _ in range(350)])
        jobs += [[gen_absent(r)] for _ in range(8)]
    # the simplest item of every kind tells a changed interface from a wrong one
    order = sorted(range(len(jobs)), key=lambda i: -sum(len(it.get("list", [])) * (6 if it["kind"] in ("meter", "timer") else 1) for it in jobs[i]))
    results = {}
    with ThreadPoolExecutor(8) as ex:
        for i, res in zip(order, ex.map(lambda i: b.run(jobs[i], "p%d" % i), order)):
            results[i] = res

    failures = []  # (item, message)
    noanswer = []
    for i in sorted(results):
        res = results[i]
        if None in res:
            suspects = res.get("suspects") or list(range(len(jobs[i])))
            with ThreadPoolExecutor(8) as ex:
                single = list(ex.map(lambda s: (s, b.run([jobs[i][s]], "s%d_%d" % (i, s))), suspects[:40]))
            found = [(jobs[i][s], f[0]) for s, f in single if 0 in f]
            if not found:
                noanswer.append(res[None])
            failures += found
        else:
            failures += [(jobs[i][j], m) for j, m in sorted(res.items())]
    # a kind whose simplest item is rejected by the compiler has another interface now: no answer on it
    kinds = {}

    def key(it):
        return "duration%d" % it["type"] if it["kind"] == "duration" else it["kind"]
    real = []
    for it, m in failures:
        if m.startswith("does not compile"):
            k = key(it)
            if k not in kinds:
                kinds[k] = b.run([CANON[k]], "canon").get(0, "")
            if kinds[k].startswith("does not compile"):
                noanswer.append(m)
                continue
        real.append((it, m))

    distinct = set()
    count = {}
    nt = {}
    for j in jobs:
        for it in j:
            k = it["kind"]
            count[k] = count.get(k, 0) + 1
            if nontrivial(it):
                nt[k] = nt.get(k, 0) + 1
                distinct.add(json.dumps(it, sort_keys=True))
    lens = [len(it["list"]) for j in jobs for it in j if "list" in it]
    samples = []
    for j in jobs[::max(1, len(jobs) // 8)]:
        for it in [x for x in j if nontrivial(x)][:2]:
            samples.append({"item": it, "rendered": shown(it)[:1500]})
    replay = None
    if real:
        # report the failure of the smallest list
        real.sort(key=lambda f: len(shown(f[0])))
        item, msg, tries = shrink(b, real[0][0], real[0][1], time.time() + 120)
        print("FAILED: " + msg)
        print("item: " + json.dumps(item))
        import zlib
        replay = os.path.join(a.replaydir, "C26-%s-%08x.json" % (item["kind"], zlib.crc32(json.dumps(item, sort_keys=True).encode())))
        with open(replay, "w") as f:
            json.dump({"property": "C26", "seed": a.seed, "message": msg, "item": item, "rendered": shown(item),
                       "program": absent_program(item)[0] if item["kind"] == "absent" else b.program([item])[0], "found_as": real[0][0], "shrinking_attempts": tries, "failing_items": len(real)}, f, indent=1)
    ev = {"property": "C26", "tier": "thorough" if a.thorough else "quick", "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": sum(count.values()), "distinct_nontrivial": len(distinct), "rule": RULE,
                       "nontrivial": sum(nt.values()), "programs": len(jobs), "programs_without_answer": len(noanswer),
                       "facets": {k: {"cases": count[k], "nontrivial": nt.get(k, 0)} for k in sorted(count)},
                       "labels": {"longest list": max(lens), "lists of ten or more": sum(1 for x in lens if x >= 10), "empty lists": sum(1 for x in lens if x == 0)},
                       "known_findings": [], "samples": samples},
          "violations": len(real), "wall_s": round(time.time() - t0, 3), "assumptions": ["g++ and its runtime, the generator's exact arithmetic in Python"]}
    with open(a.evidence, "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(b.build, ignore_errors=True)
    if real:
        print("VIOLATION property=C26 replay=" + replay)
        return 1
    if noanswer:
        print("C26: %d programs gave no answer:\n%s" % (len(noanswer), noanswer[0][:3000]))
        return 2
    print("C26: %d items in %d programs, %d distinct non-trivial, no violation, %.1f s" % (sum(count.values()), len(jobs), len(distinct), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
