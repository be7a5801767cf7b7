#!/usr/bin/env python3
"""C32: generated programs of several translation units, each including public headers alone or in any order.

Every translation unit uses what its headers offer, some of it while the program is still being initialised. The generator knows
what every use yields. Programs that don't compile, link, run or yield that are shrunk by rebuilding smaller ones. What also
fails in a single translation unit with everything included before (the control) isn't about the headers and is left to others.
"""
import argparse
import json
import os
import random
import shutil
import subprocess
import sys
import time
import zlib
from concurrent.futures import ThreadPoolExecutor

RULE = ("Cases are drawn by a seeded generator, distinct by their description. A case is a program of one to four translation units, each a list of headers in some order, a compiler, "
        "a language level and uses of the library, run at initialisation or from main; non-trivial when it has two translation units that share a header, or a header that is included alone "
        "or before one it depends on.")

C, P = "cxxmetrics/", "cxxmetrics_prometheus/"
# what is used: (needs one of these headers, of the standard library's what the use itself needs, code, what it yields)
REG = ["metrics_registry", "publisher", "publisher_impl"]
PROM = ["prometheus_publisher"]
USES = {
    "counter": (["counter"], [], "cxxmetrics::counter<long> c(N); c += 5; --c; return c.value() + static_cast<long>(c.snapshot().value());", lambda n: 2 * (n + 4)),
    "gauge": (["gauge"], [], "cxxmetrics::gauge<long> g(N); g = N + 1; return g.get();", lambda n: n + 1),
    "gauge_function": (["gauge"], [], "long v = N; cxxmetrics::gauge<std::function<long()>> g([&] { return v + 2; }); v = 3; return g.get();", lambda n: 5),
    "gauge_reference": (["gauge"], [], "long v = 1; cxxmetrics::gauge<long&, cxxmetrics::gauges::aggregation_sum> g(v); v = N; return static_cast<long>(g.snapshot().value());", lambda n: n),
    "ewma": (["ewma"], [], "using namespace cxxmetrics_literals; cxxmetrics::ewma<1_min, 1_sec> e; e.mark(N); return e.rate() >= 0;", lambda n: 1),
    "histogram": (["histogram"], [], "cxxmetrics::histogram<long> h; for (long i = 0; i < 3; i++) h.update(N + i); auto s = h.snapshot(); return static_cast<long>(s.max()) + s.count();", lambda n: n + 5),
    "meter": (["meter"], [], "using namespace cxxmetrics_literals; cxxmetrics::meter<1_sec, 5_min, 1_min, 5_min> m; m.mark(N); return std::chrono::duration_cast<std::chrono::minutes>(m.rate<5_min>().period + m.rate<1_min>().period).count();", lambda n: 6),
    "meter_snapshot": (["meter"], [], "using namespace cxxmetrics_literals; cxxmetrics::meter<1_sec, 5_min, 1_min> m; auto s = m.snapshot(); long n = 0; for (auto& r : s) n += r.second == cxxmetrics::metric_value(0.0); return n;", lambda n: 2),
    "metric_path": (["metric_path"], [], "using namespace cxxmetrics_literals; return static_cast<long>((\"ab\"_m / \"c\").join(\"--\").size()) + (\"a\" / \"b\"_m == \"a\"_m / \"b\");", lambda n: 6),
    "metric_value": (["metric_value"], [], "cxxmetrics::metric_value v{static_cast<int64_t>(N)}; return static_cast<int64_t>(v + v) + (v < cxxmetrics::metric_value{static_cast<int64_t>(N + 1)}) + static_cast<std::string>(cxxmetrics::metric_value(\"abc\")).size();", lambda n: 2 * n + 4),
    "ringbuf": (["ringbuf"], [], "cxxmetrics::internal::ringbuf<long, 4> r; for (long i = 0; i < 6; i++) r.push(N + i); long n = 0; for (auto i = r.begin(); i != r.end(); ++i) n += *i; return n;", lambda n: 4 * n + 14),
    "pool": (["pool"], [], "static cxxmetrics::internal::pool<long> p; auto a = p.allocate(N); auto b = a; a = nullptr; return *b;", lambda n: n),
    "simple": (["simple_reservoir"], [], "cxxmetrics::simple_reservoir<long, 3> r; for (long i = 0; i < 5; i++) r.update(N + i); auto s = r.snapshot(); return static_cast<long>(s.min()) + s.size();", lambda n: n + 5),
    "uniform": (["uniform_reservoir"], [], "cxxmetrics::uniform_reservoir<long, 9> r; for (long i = 0; i < 5; i++) r.update(N + i); auto s = r.snapshot(); return static_cast<long>(s.max()) + s.size();", lambda n: n + 9),
    "sliding": (["sliding_window"], [], "cxxmetrics::sliding_window_reservoir<long, 9> r{std::chrono::hours(1)}; for (long i = 0; i < 5; i++) r.update(N + i); auto s = r.snapshot(); return static_cast<long>(s.max()) + s.size();", lambda n: n + 9),
    "snapshots": (["snapshots"], ["vector"], "std::vector<long> v{N + 2, N, N + 1}; cxxmetrics::histogram_snapshot s(cxxmetrics::reservoir_snapshot(v.begin(), v.end(), v.size()), 7); return static_cast<long>(s.max()) + s.count();", lambda n: n + 9),
    "tags": (["tag_collection"], [], "cxxmetrics::tag_collection t{{\"a\", N}, {\"b\", \"x\"}}; long n = 0; for (auto& e : t) n += e.first == \"a\" ? static_cast<int64_t>(e.second) : 1; return n;", lambda n: n + 1),
    "time": (["time"], [], "using namespace cxxmetrics_literals; return std::chrono::duration_cast<std::chrono::seconds>(cxxmetrics::period(90_min).to_duration()).count();", lambda n: 5400),
    "meta": (["meta"], ["type_traits"], "using namespace cxxmetrics; return std::is_same<templates::sort_unique<3, 1, 3, 2>::type, templates::sort_unique<2, 1, 3, 1, 3>::type>::value;", lambda n: 1),
    "quantile": (["snapshots"], [], "return static_cast<long>(cxxmetrics::quantile(50.0l).percentile() + 0.5);", lambda n: 50),
    "timer": (["timer"], [], "using namespace cxxmetrics_literals; cxxmetrics::timer<1_sec> t; t.update(std::chrono::milliseconds(N)); { auto s = cxxmetrics::scoped_timer(t); } return static_cast<long>(t.count());", lambda n: 2),
    "registry": (REG, [], "cxxmetrics::metrics_registry<> r; r.counter(\"a\", int64_t(N)); return *r.counter(\"a\", int64_t(9)) + r.gauge(\"g\", 3l)->get();", lambda n: n + 3),
    "visits": (REG, [], "cxxmetrics::metrics_registry<> r; r.counter(\"a\", int64_t(N)); r.counter(\"b\"); long n = 0; r.visit_registered_metrics([&](const cxxmetrics::metric_path& p, cxxmetrics::basic_registered_metric& m) { "
               "m.visit([&](const cxxmetrics::tag_collection&, const auto& s) { n += 1; }); m.aggregate([&](const cxxmetrics::cumulative_value_snapshot& s) { n += static_cast<long>(s.value()); }); }); return n;", lambda n: n + 2),
    "publisher": (REG, [], "struct P : cxxmetrics::metrics_publisher<cxxmetrics::default_repository> { using B = cxxmetrics::metrics_publisher<cxxmetrics::default_repository>; using B::B; using B::has_metric; using B::get_data_for; using B::metric_type; "
                  "struct D : cxxmetrics::basic_publish_options { long n; D(long n = 1) : n(n) {} }; }; cxxmetrics::metrics_registry<> r; r.counter(\"a\"); P p(r); "
                  "return p.has_metric(\"a\") + !p.has_metric(\"b\") + p.get_data_for<P::D>(\"a\", N)->n + p.get_data_for<P::D>(\"a\")->n + !p.metric_type(\"a\").empty();", lambda n: 2 * n + 3),
    "options": (REG, [], "using namespace cxxmetrics_literals; cxxmetrics::metrics_registry<> r; r.counter(\"a\"); r.publish_options(\"a\", cxxmetrics::publish_options(cxxmetrics::histogram_publish_options(cxxmetrics::quantile_options<50.0_p, 99.0_p>()))); "
                "return r.publish_options().histogram_options().include_count();", None),
    "prometheus": (PROM, ["sstream"], "cxxmetrics::metrics_registry<> r; r.counter(cxxmetrics::metric_path(\"a\"), int64_t(N), cxxmetrics::tag_collection{{\"t\", 1}}); r.gauge(\"g\", 1.5); std::ostringstream s; cxxmetrics_prometheus::prometheus_publisher<cxxmetrics::default_repository> p(r); p.write(s); "
                   "return s.str().find(\"a{t=\\\"1\\\"} \" + std::to_string(N)) != std::string::npos && s.str().find(\"\\ng{} 1.5\") != std::string::npos;", lambda n: 1),
    "registry_held": (REG, ["memory", "utility", "vector"], "using R = cxxmetrics::metrics_registry<>; std::unique_ptr<R> p(new R()), q(new R()); (*p).counter(\"a\", int64_t(N)); using std::swap; swap(p, q); std::vector<std::shared_ptr<R>> v{std::make_shared<R>()}; "
                      "(*v.front()).counter(\"a\", int64_t(5)); return *(*q).counter(\"a\") + *(*p).counter(\"a\") + *(*v.back()).counter(\"a\") + (p == q) + (v[0] == v.back());", lambda n: n + 6),
    "handlers": (REG, ["functional"], "cxxmetrics::metrics_registry<> r; r.counter(\"a\", int64_t(N)); long n = 0; struct F { long& n; long k; long& operator()(const cxxmetrics::tag_collection&, const cxxmetrics::cumulative_value_snapshot& s) { return n += static_cast<int64_t>(s.value()) + ++k; } }; "
                "r.visit_registered_metrics([&, k = 0](const cxxmetrics::metric_path& p, cxxmetrics::basic_registered_metric& m) mutable { m.visit(F{n, ++k}); F f{n, 0}; m.visit(f); m.visit(std::ref(f)); m.aggregate([&n, k](const auto& s) mutable -> long& { return n += ++k; }); }); return n;", lambda n: 3 * n + 7),
    "publisher_held": (PROM, ["memory", "sstream"], "using R = cxxmetrics::metrics_registry<>; using P = cxxmetrics_prometheus::prometheus_publisher<cxxmetrics::default_repository>; std::unique_ptr<R> r(new R()); auto p = std::make_shared<P>(*r); "
                       "*(*r).counter(\"a\") += N; std::ostringstream s; (*p).write(s); return s.str().find(\"a{} \" + std::to_string(N)) != std::string::npos;", lambda n: 1),
    # what is shared by all
    "shared_counter": (REG, [], "*shared().counter(\"counter\") += N; return 0;", "counter"),
    "shared_gauge": (REG, [], "auto g = shared().gauge<long, cxxmetrics::gauges::aggregation_sum>(\"gauge\", 0l); *g = g->get() + N; return 0;", "gauge"),
    "shared_histogram": (["simple_reservoir+registry"], [], "shared().histogram<cxxmetrics::simple_reservoir<int64_t, 5>>(\"histogram\")->update(N); return 0;", "histogram"),
    "shared_meter": (REG, [], "using namespace cxxmetrics_literals; shared().meter<1_sec, 1_min, 5_min>(\"meter\")->mark(N); shared().meter<1_sec, 5_min, 1_min>(\"meter\"); return 0;", "meter"),
    "shared_timer": (REG, [], "using namespace cxxmetrics_literals; shared().timer<1_sec, std::chrono::steady_clock, cxxmetrics::uniform_reservoir<std::chrono::steady_clock::duration, 7>, 1_min>(\"timer\")->update(std::chrono::nanoseconds(N)); return 0;", "timer"),
    "shared_existing": (REG, [], "return shared().register_existing(\"existing\", std::make_shared<cxxmetrics::counter<long>>(3l)) ? 0 : 0;", "existing"),
}
del USES["options"]
ALWAYS = {"registry_held", "publisher_held", "handlers"}  # count even when including everything before doesn't help
COUNTED = {"counter": "sum", "gauge": "sum", "histogram": "count", "meter": "one", "timer": "count", "existing": "one"}
HEADERS = [C + h for h in ("counter ewma gauge histogram meta meter metric metric_path metric_value metrics_registry pool publisher publisher_impl ringbuf simple_reservoir sliding_window "
                           "snapshots tag_collection time timer uniform_reservoir").split()] + [C + "internal/atomic_lifo"] + \
          [P + h for h in "prometheus_counter prometheus_gauge prometheus_histogram prometheus_meter prometheus_publisher prometheus_timer snapshot_writer".split()]
HEADERS = [h + ".hpp" for h in HEADERS]
STD = ["vector", "string", "sstream", "functional", "memory", "iterator", "algorithm", "chrono", "atomic", "thread", "map", "random", "cmath"]
CONTROL_STD = "functional memory iterator algorithm array vector string sstream map set unordered_map chrono atomic thread mutex random cmath cstdint cstdlib cstddef limits tuple type_traits typeinfo utility initializer_list".split()
SHARED_DECL = "cxxmetrics::metrics_registry<>& shared();\n"
SHARED = '#include <functional>\n#include <iterator>\n#include <cxxmetrics/metrics_registry.hpp>\n#include <cxxmetrics/simple_reservoir.hpp>\n' + SHARED_DECL + \
    'cxxmetrics::metrics_registry<>& shared() { static cxxmetrics::metrics_registry<> r; return r; }\n'
TOTALS = r'''
#include <cstdio>
void totals()
{
    struct Counts { long visits = 0; } c;
    shared().visit_registered_metrics([&](const cxxmetrics::metric_path& p, cxxmetrics::basic_registered_metric& m) {
        auto name = p.join("/");
        m.visit(Visitor{name});
    });
}
'''
VISITOR = r'''
struct Visitor
{
    std::string name;
    void operator()(const cxxmetrics::tag_collection&, const cxxmetrics::cumulative_value_snapshot& s) const { std::printf("%s %lld\n", name.c_str(), (long long)static_cast<int64_t>(s.value())); }
    void operator()(const cxxmetrics::tag_collection&, const cxxmetrics::meter_snapshot& s) const { long n = 0; for (auto& r : s) ++n; std::printf("%s %ld\n", name.c_str(), n); }
    void operator()(const cxxmetrics::tag_collection&, const cxxmetrics::histogram_snapshot& s) const { std::printf("%s %lld\n", name.c_str(), (long long)s.count()); }
};
'''


def headers_for(use):
    need = USES[use][0]
    if need == ["simple_reservoir+registry"]:
        return [[C + "simple_reservoir.hpp"], [C + h + ".hpp" for h in REG]]
    return [[(P if h.startswith("prometheus") else C) + h + ".hpp" for h in need]]


def gen_tu(r, usable):
    uses = [{"use": r.choice(usable), "n": r.randrange(1, 1000), "when": r.choice(["init", "call"])} for _ in range(r.choice([1, 1, 1, 2, 3, 5]))]
    hs = []
    for u in uses:
        for alternatives in headers_for(u["use"]):
            if not set(alternatives) & set(hs):
                hs.append(r.choice(alternatives))
    if r.random() < 0.5:
        hs += [r.choice(HEADERS) for _ in range(r.choice([1, 2, 5, 12]))]
        r.shuffle(hs)
    std = sorted(set(s for u in uses for s in USES[u["use"]][1]))
    return {"headers": hs, "std_after": std + ([r.choice(STD)] if r.random() < 0.2 else []), "std_before": [r.choice(STD)] if r.random() < 0.15 else [], "uses": uses,
            "cc": r.choice(["g++", "g++", "clang++"]), "std": r.choice(["gnu++14", "c++14", "c++14", "c++17"]), "opt": r.choice(["-O0", "-O0", "-O0", "-O1", "-O2"])}


def gen(r, usable):
    return {"tus": [gen_tu(r, usable) for _ in range(r.choice([1, 2, 2, 3, 4]))], "installed": r.random() < 0.25}


def control(item):
    """one translation unit, everything included before"""
    return {"tus": [{"headers": HEADERS, "std_before": CONTROL_STD, "std_after": [], "uses": [dict(u, when="call") for t in item["tus"] for u in t["uses"] if u["use"] not in ALWAYS], "cc": "g++", "std": "gnu++14", "opt": "-O0"}]}


def source(tu, i):
    out = "".join("#include <%s>\n" % h for h in tu["std_before"]) + "".join("#include <%s>\n" % h for h in tu["headers"]) + "".join("#include <%s>\n" % h for h in tu["std_after"])
    if any(u["use"].startswith("shared") for u in tu["uses"]):
        out += SHARED_DECL
    for j, u in enumerate(tu["uses"]):
        out += "static long use_%d() { const long N = %d; %s }\n" % (j, u["n"], USES[u["use"]][2])
        if u["when"] == "init":
            out += "static const long value_%d = use_%d();\n" % (j, j)
        out += "long tu%d_%d() { return %s; }\n" % (i, j, "value_%d" % j if u["when"] == "init" else "use_%d()" % j)
    return out


def main_source(item):
    names = [(i, j) for i, t in enumerate(item["tus"]) for j in range(len(t["uses"]))]
    share = any(u["use"].startswith("shared") for t in item["tus"] for u in t["uses"])
    return "#include <cstdio>\n" + "".join("long tu%d_%d();\n" % n for n in names) + ("void totals();\n" if share else "") + "int main() {\n" + \
        "".join('    std::printf("tu%d_%d %%ld\\n", tu%d_%d());\n' % (n + n) for n in names) + ("    totals();\n" if share else "") + "}\n", share


def expected(item):
    want = {}
    for i, t in enumerate(item["tus"]):
        for j, u in enumerate(t["uses"]):
            e = USES[u["use"]][3]
            if isinstance(e, str):
                want["tu%d_%d" % (i, j)] = 0
                kind = COUNTED[e]
                if kind == "sum":
                    want[e] = want.get(e, 0) + u["n"]
                elif kind == "count":
                    want[e] = want.get(e, 0) + 1
                else:
                    want[e] = 2 if e == "meter" else 3
            else:
                want["tu%d_%d" % (i, j)] = e(u["n"])
    return want


def nontrivial(item):
    tus = item["tus"]
    if any(len(set(t["headers"])) == 1 and not t["std_before"] for t in tus):
        return True
    if any(set(a["headers"]) & set(b["headers"]) for x, a in enumerate(tus) for b in tus[x + 1:]):
        return True
    return any(C + "metric_value.hpp" in t["headers"][1:] or C + "snapshots.hpp" in t["headers"][1:] or C + "metric.hpp" in t["headers"][1:] for t in tus)


class Builder:
    def __init__(self, repo, build):
        self.repo, self.build = repo, build

    def setup(self):
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.build)
        path = os.path.join(self.build, "shared.cpp")
        with open(path, "w") as f:
            f.write(SHARED + VISITOR + TOTALS)
        rc = self.call(["g++", "-std=gnu++14", "-w", "-O0", "-I" + self.repo, "-c", path, "-o", path[:-4] + ".o"])
        self.installed, self.install_note = self.install()
        return rc

    def install(self):
        """the library as its own build installs it, or why there is none"""
        d, prefix = os.path.join(self.build, "cmake"), os.path.join(self.build, "installed")
        generators = os.path.join(d, "build", "Debug", "generators")
        os.makedirs(generators)
        with open(os.path.join(generators, "conan_toolchain.cmake"), "w") as f:
            f.write("list(PREPEND CMAKE_MODULE_PATH ${CMAKE_CURRENT_LIST_DIR})\n")
        for cmd in (["cmake", "-S", self.repo, "-B", d, "-DCMAKE_BUILD_TYPE=Debug"], ["cmake", "--install", d, "--prefix", prefix]):
            try:
                rc, out = self.call(cmd)
            except OSError as e:
                rc, out = 1, str(e)
            if rc != 0:
                return None, " ".join(cmd[:2]) + " failed: " + out[-300:]
        return os.path.join(prefix, "include"), ""

    def call(self, cmd, timeout=300):
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return None, "timed out"

    def run(self, item, tag):
        """what fails, or an empty string"""
        d = os.path.join(self.build, tag)
        os.makedirs(d, exist_ok=True)
        root = self.installed if item.get("installed") and self.installed else self.repo
        try:
            objs = []
            for i, t in enumerate(item["tus"]):
                p = os.path.join(d, "tu%d.cpp" % i)
                with open(p, "w") as f:
                    f.write(source(t, i))
                rc, out = self.call([t["cc"], "-std=" + t["std"], "-w", t["opt"], "-I" + root, "-c", p, "-o", p[:-4] + ".o"])
                if rc != 0:
                    return "translation unit %d does not compile: %s" % (i, next((l for l in out.splitlines() if "error" in l), out[:300]))
                objs.append(p[:-4] + ".o")
            src, share = main_source(item)
            p = os.path.join(d, "main.cpp")
            with open(p, "w") as f:
                f.write(src)
            exe = os.path.join(d, "program")
            rc, out = self.call(["g++", "-w", p] + objs + ([os.path.join(self.build, "shared.o")] if share else []) + ["-o", exe, "-latomic", "-pthread"])
            if rc != 0:
                return "the translation units do not link: " + next((l for l in out.splitlines() if "multiple definition" in l or "undefined" in l), out[:300])
            rc, out = self.call([exe], 60)
            if rc != 0:
                return "the program ends with %s" % rc
            got = {}
            for l in out.splitlines():
                k, v = l.split()
                got.setdefault(k, []).append(int(v))
            want = {k: [v] for k, v in expected(item).items()}
            for k in sorted(set(got) | set(want)):
                if got.get(k) != want.get(k):
                    what = k
                    if k.startswith("tu"):
                        i, j = map(int, k[2:].split("_"))
                        what = "use %d of translation unit %d (%s)" % (j, i, item["tus"][i]["uses"][j]["use"])
                    return "%s yields %s and not %s" % (what, got.get(k), want.get(k))
            return ""
        finally:
            shutil.rmtree(d, ignore_errors=True)


def supported(t):
    return all(set(a) & set(t["headers"]) for u in t["uses"] for a in headers_for(u["use"]))


def smaller(item):
    out = []
    tus = item["tus"]
    if item.get("installed"):
        out.append(dict(item, installed=False))
    if len(tus) > 1:
        out += [dict(item, tus=tus[:i] + tus[i + 1:]) for i in range(len(tus))]
    for i, t in enumerate(tus):
        def put(n):
            out.append(dict(item, tus=tus[:i] + [n] + tus[i + 1:]))
        if len(t["uses"]) > 1:
            for j in range(len(t["uses"])):
                put(dict(t, uses=t["uses"][:j] + t["uses"][j + 1:]))
        half = len(t["headers"]) // 2
        for a, b in ((0, half), (half, len(t["headers"]))):
            n = dict(t, headers=t["headers"][:a] + t["headers"][b:])
            if half > 1 and supported(n):
                put(n)
        for j in range(len(t["headers"])):
            n = dict(t, headers=t["headers"][:j] + t["headers"][j + 1:])
            if n["headers"] and supported(n):
                put(n)
        for k, v in (("cc", "g++"), ("std", "gnu++14"), ("opt", "-O0"), ("std_before", [])):
            if t[k] != v:
                put(dict(t, **{k: v}))
        need = sorted(set(s for u in t["uses"] for s in USES[u["use"]][1]))
        if t["std_after"] != need:
            put(dict(t, std_after=need))
        for j, u in enumerate(t["uses"]):
            if u["when"] == "init":
                put(dict(t, uses=t["uses"][:j] + [dict(u, when="call")] + t["uses"][j + 1:]))
            if u["n"] != 1:
                put(dict(t, uses=t["uses"][:j] + [dict(u, n=1)] + t["uses"][j + 1:]))
            if u["use"] != "counter" and [C + "counter.hpp"] == t["headers"]:
                put(dict(t, uses=t["uses"][:j] + [dict(u, use="counter")] + t["uses"][j + 1:]))
    return out


def shrink(b, item, msg, deadline):
    tries = 0
    kind = msg.split(":")[0].split(" yields")[0][-12:]
    with ThreadPoolExecutor(8) as ex:
        again = True
        while again and time.time() < deadline:
            again = False
            cands = smaller(item)
            for i in range(0, len(cands), 8):
                if time.time() > deadline:
                    break
                res = list(ex.map(lambda c: b.run(c[1], "shrink%d" % c[0]), enumerate(cands[i:i + 8])))
                tries += len(res)
                hit = next((j for j, m in enumerate(res) if m and m.split(":")[0].split(" yields")[0][-12:] == kind), None)
                if hit is not None:
                    item, msg, again = cands[i + hit], res[hit], True
                    break
    return item, msg, tries


def main():
    ap = argparse.ArgumentParser()
    for a in ("repo", "build", "evidence", "replaydir", "replay"):
        ap.add_argument("--" + a)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--thorough", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    b = Builder(a.repo, a.build)
    rc, out = b.setup()
    if rc != 0:
        print("C32: the registry does not compile:\n" + out[:3000])
        return 2
    if a.replay:
        item = json.load(open(a.replay))["item"]
        for i, t in enumerate(item["tus"]):
            print("-- translation unit %d (%s -std=%s %s%s)\n%s" % (i, t["cc"], t["std"], t["opt"], ", installed library" if item.get("installed") else "", source(t, i)))
        m = b.run(item, "replay")
        if m:
            print("FAILED: " + m)
            print("VIOLATION property=C32 replay=" + a.replay)
            return 1
        print("no violation")
        return 0

    # uses that go wrong with everything included before aren't about the headers
    def alone(u):
        return b.run(control({"tus": [{"uses": [{"use": v, "n": 3, "when": "call"} for v in u]}]}), "control-" + u[0] + str(len(u)))
    usable = list(USES)
    wrong = alone(usable)
    if wrong:
        with ThreadPoolExecutor(8) as ex:
            usable = [u for u, m in zip(USES, ex.map(lambda u: alone([u]), USES)) if not m or u in ALWAYS]
    if len(usable) < len(USES) / 2:
        print("C32: most uses fail with everything included before as well: %s" % wrong)
        return 2
    r = random.Random(a.seed * 104729 + (1 if a.thorough else 0))
    n = int((1500 if a.thorough else 72) * float(os.environ.get("PBT_SCALE", "1"))) or 1
    items = [gen(r, usable) for _ in range(n)]
    # every header alone, whatever was drawn
    for h in HEADERS:
        items.append({"tus": [{"headers": [h], "std_before": [], "std_after": [], "uses": [], "cc": r.choice(["g++", "clang++"]), "std": r.choice(["c++14", "c++17"]), "opt": "-O0"} for _ in range(2)], "installed": r.random() < 0.5})
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda i: b.run(items[i], "p%d" % i), range(len(items))))
    failures = []
    aside = 0
    for item, m in zip(items, res):
        if m and (len(failures) < 20) and not any(m == f[1] for f in failures):
            c = b.run(control(item), "control")
            if c:
                # a use that goes wrong anywhere isn't about the headers
                aside += 1
                if os.environ.get("PBT_ASIDE"): print("aside:", m[:200], "| control:", c[:200])
                continue
            failures.append((item, m))
    distinct = set(json.dumps(i, sort_keys=True) for i in items if nontrivial(i))
    replay = None
    if failures:
        failures.sort(key=lambda f: len(json.dumps(f[0])))
        item, msg, tries = shrink(b, failures[0][0], failures[0][1], time.time() + 150)
        print("FAILED: " + msg)
        print("item: " + json.dumps(item))
        for _, m in failures[1:6]:
            print("also: " + m)
        replay = os.path.join(a.replaydir, "C32-%08x.json" % zlib.crc32(json.dumps(item, sort_keys=True).encode()))
        with open(replay, "w") as f:
            json.dump({"property": "C32", "seed": a.seed, "message": msg, "item": item, "rendered": [source(t, i) for i, t in enumerate(item["tus"])] + [main_source(item)[0]],
                       "found_as": failures[0][0], "shrinking_attempts": tries, "failing_items": len(failures)}, f, indent=1)
    alone = set(t["headers"][0] for i in items for t in i["tus"] if len(set(t["headers"])) == 1 and not t["std_before"])
    pairs = set((x, y) for i in items for t in i["tus"] for k, x in enumerate(t["headers"]) for y in t["headers"][k + 1:])
    samples = [{"item": i, "rendered": [source(t, k)[:1200] for k, t in enumerate(i["tus"])]} for i in [x for x in items if nontrivial(x)][::max(1, n // 8)]][:10]
    ev = {"property": "C32", "tier": "thorough" if a.thorough else "quick", "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": len(items), "distinct_nontrivial": len(distinct), "rule": RULE, "nontrivial": sum(1 for i in items if nontrivial(i)),
                       "translation_units": sum(len(i["tus"]) for i in items), "headers_alone": sorted(alone), "ordered_pairs_of_headers": len(pairs),
                       "uses": {u: sum(1 for i in items for t in i["tus"] for x in t["uses"] if x["use"] == u) for u in USES}, "uses_set_aside": sorted(set(USES) - set(usable)), "programs_set_aside": aside, "of_the_installed_library": sum(1 for i in items if i.get("installed")) if b.installed else 0, "installing": b.install_note or "done",
                       "known_findings": [], "samples": samples},
          "violations": len(failures), "wall_s": round(time.time() - t0, 3), "assumptions": ["g++, clang++ and their runtime; internal/hazard_ptr.hpp and skiplist.hpp, which include a file that is not there, are left out"]}
    with open(a.evidence, "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(b.build, ignore_errors=True)
    if failures:
        print("VIOLATION property=C32 replay=" + replay)
        return 1
    print("C32: %d programs, %d distinct non-trivial, no violation, %d set aside, %.1f s" % (len(items), len(distinct), aside, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
