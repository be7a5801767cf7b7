C = "cxxmetrics/"
P = "cxxmetrics_prometheus/"
BUGS = [
dict(id="visit-skips-unnamed", property="C05",
 edits=[(C+"metrics_registry.hpp", "    for (auto& pair : metrics_)\n        handler(pair.first, *pair.second);", "    for (auto& pair : metrics_)\n        if (pair.first.begin() != pair.first.end())\n            handler(pair.first, *pair.second);")],
 needs="a metric registered at the empty path", breaks="visiting the registry leaves the metric at the empty path out",
 demo='''int main() { metrics_registry<> r; r.counter(""); r.counter("a"); int n = 0; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric&) { ++n; }); EXPECT(n == 2); }'''),
dict(id="visit-timer-no-meter", property="C05",
 edits=[(C+"snapshots.hpp", "        visit(static_cast<const histogram_snapshot&>(timer));\n        visit(static_cast<const meter_snapshot&>(timer.rate()));", "        visit(static_cast<const histogram_snapshot&>(timer));")],
 needs="a handler that takes meters but neither histograms nor timers, and a timer", breaks="such a handler doesn't get to see the rates of timers",
 demo='''struct M { int* n; void operator()(const tag_collection&, const meter_snapshot&) const { ++*n; } };
int main() { metrics_registry<> r; r.timer<1000000, std::chrono::steady_clock, uniform_reservoir<std::chrono::steady_clock::duration, 4>, 60000000>("t"); int n = 0; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.visit(M{&n}); }); EXPECT(n == 1); }'''),
dict(id="uniform-generator-spinlock", property="C28",
 edits=[(C+"uniform_reservoir.hpp", "    std::uniform_int_distribution<> d(0, TSize - 1);\n    elems_[d(gen_)] = value;", "    // one at a time: the generator isn't made for several threads\n    while (gen_busy_.test_and_set())\n        ;\n    std::uniform_int_distribution<> d(0, TSize - 1);\n    auto at = d(gen_);\n    elems_[at] = value;\n    gen_busy_.clear();"),
        (C+"uniform_reservoir.hpp", "    std::default_random_engine gen_;\n", "    std::default_random_engine gen_;\n    std::atomic_flag gen_busy_ = ATOMIC_FLAG_INIT;\n")],
 needs="a thread suspended in the middle of recording into a full uniform reservoir while another one records", breaks="the other thread spins until the suspended one goes on",
 demo='''#include <atomic>
#include <chrono>
static std::atomic<int> blocks{0}; static std::atomic<bool> go{false}; static thread_local bool slow = false;
struct V { long v; V(long v = 0) : v(v) { } V(const V&) = default; V& operator=(const V& o) { if (slow) { blocks = 1; while (!go) std::this_thread::yield(); } v = o.v; return *this; } };
static uniform_reservoir<V, 4> r;
int main() { for (int i = 0; i < 4; i++) r.update(V(i)); std::thread a([] { slow = true; r.update(V(9)); }); while (!blocks) std::this_thread::yield(); std::atomic<bool> done{false}; std::thread b([&] { r.update(V(10)); done = true; });
 for (int i = 0; i < 300 && !done; i++) std::this_thread::sleep_for(std::chrono::milliseconds(10)); bool ok = done; go = true; a.join(); b.join(); EXPECT(ok); }'''),
dict(id="uniform-unseeded", property="C29",
 edits=[(C+"uniform_reservoir.hpp", "uniform_reservoir<TElem, TSize>::uniform_reservoir() noexcept :\n        gen_(generate_seed()),", "uniform_reservoir<TElem, TSize>::uniform_reservoir() noexcept :\n        gen_(),")],
 needs="many reservoirs created at different times, each with as many recordings", breaks="every reservoir displaces the same sequence of values",
 demo='''int main() { std::set<long> kept; for (int k = 0; k < 200; k++) { uniform_reservoir<long, 8> r; for (long i = 0; i < 9; i++) r.update(i); auto s = r.snapshot(); std::vector<long> v; s.sample(0, [](auto&&...) { }); long sum = 0; sum = static_cast<long>(static_cast<double>(s.mean()) * 8 + 0.5); kept.insert(sum); std::this_thread::sleep_for(std::chrono::microseconds(50)); } EXPECT(kept.size() > 2); }'''),
dict(id="register-raw-tags", property="C30",
 edits=[(C+"metrics_registry.hpp", "    return l.template add_existing<TMetric>(repo_.tags(tags), std::move(metric));", "    return l.template add_existing<TMetric>(tags, std::move(metric));")],
 needs="a repository that changes tags (adds a common one), and an existing metric registered with tags", breaks="the object is registered under the caller's tags, where no request with the same tags finds it",
 demo='''struct Repo : default_repository { tag_collection tags(const tag_collection& t) const { tag_collection r{{"host", "h"}}; for (auto& e : t) if (e.first == "a") return tag_collection{{"host", "h"}, {"a", e.second}}; return r; } };
int main() { metrics_registry<Repo> r; auto c = std::make_shared<counter<int64_t>>(3); EXPECT(r.register_existing("c", c, {{"a", 1}})); EXPECT(r.counter("c", {{"a", 1}}) == c); }'''),
dict(id="repository-index-first", property="C31",
 edits=[(C+"metrics_registry.hpp", "    auto existing = metrics_.find(name);\n\n    if (existing == metrics_.end())\n    {\n        auto ptr = builder();\n        return *metrics_.emplace(name, std::move(ptr)).first->second;\n    }\n\n    return *existing->second;", "    auto& ptr = metrics_[name];\n    if (!ptr)\n        ptr = builder();\n\n    return *ptr;")],
 needs="a first request of a path for which memory runs out while its container is made", breaks="the path is left with nothing behind it, and visiting crashes",
 demo='''#include <new>
static long fail_in = -1;
void* operator new(std::size_t n) { if (fail_in >= 0 && fail_in-- == 0) throw std::bad_alloc(); return malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
int main() { for (long k = 0; k < 12; k++) { metrics_registry<> r; r.counter("there"); metric_path name("a path that isn't there yet"); fail_in = k; try { r.counter(name); } catch (const std::bad_alloc&) { } fail_in = -1; int n = 0; bool null = false;
 r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { if (!&m || reinterpret_cast<std::uintptr_t>(&m) < 4096) null = true; else n += m.type().empty(); }); EXPECT(!null); } }''', flags="-fno-delete-null-pointer-checks"),
dict(id="tagged-index-first", property="C31",
 edits=[(C+"metrics_registry.hpp", "    auto res = metrics_.find(tags);\n\n    if (res != metrics_.end())\n        return std::static_pointer_cast<internal::metric>(res->second);\n\n    return std::static_pointer_cast<internal::metric>(\n            metrics_.emplace(tags, static_cast<basic_metric_builder<TMetricType>*>(metricbuilder)->build()).first->second);", "    auto& res = metrics_[tags];\n    if (!res)\n        res = static_cast<basic_metric_builder<TMetricType>*>(metricbuilder)->build();\n\n    return std::static_pointer_cast<internal::metric>(res);")],
 needs="a histogram requested with a reservoir that throws when it is moved", breaks="the tag set is left without a metric, so that aggregating crashes",
 demo='''struct R : simple_reservoir<int64_t, 4> { using value_type = int64_t; bool bad = false; R() = default; R(R&& o) : simple_reservoir<int64_t, 4>(o), bad(o.bad) { if (bad) throw 1; } };
int main() { metrics_registry<> r; R bad; bad.bad = true; try { r.histogram<R>("h", std::move(bad)); return 2; } catch (int) { } int n = 0; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.aggregate([&](const histogram_snapshot&) { ++n; }); }); EXPECT(n == 0); }'''),
dict(id="pool-exchange-same-leaks", property="C33",
 edits=[(C+"pool.hpp", "        if (newvalue == oldvalue)\n        {\n            if (newvalue)\n                newvalue->remove_reference();\n            return true;\n        }\n", "        if (newvalue == oldvalue)\n            return true;\n")],
 needs="a conditional exchange of a handle for another one of the very same object", breaks="the object is counted once too often and never destroyed",
 demo='''#include <cxxmetrics/pool.hpp>
static int alive; struct O { bool real; O() : real(false) { } O(const O&) : real(true) { ++alive; } ~O() { alive -= real; } };
int main() { internal::pool<O> p; { auto a = p.allocate(O()); auto b = a; EXPECT(alive == 1); EXPECT(a.compare_exchange_strong(b, b)); } EXPECT(alive == 0); }'''),
dict(id="pool-release-stale-next", property="C33",
 edits=[(C+"pool.hpp", "        data_type *head = v_.load();\n        while (true)\n        {\n            if (!active_)", "        data_type *head = v_.load();\n        data->next = head;\n        while (true)\n        {\n            if (!active_)"),
        (C+"pool.hpp", "            data->next = head;\n            if (v_.compare_exchange_strong(head, data))\n                break;", "            if (v_.compare_exchange_strong(head, data))\n                break;")],
 needs="two threads that release their objects at the same time", breaks="the one that has to try again hangs itself in front of what was there before, and the other's storage is lost",
 demo='''#include <cxxmetrics/pool.hpp>
#include <atomic>
static std::atomic<long> blocks{0};
template<typename... T> struct A; template<typename T> struct A<T> : std::allocator<T> { template<typename U, typename... X> void construct(U* p, X&&... x) { ::new (static_cast<void*>(p)) U(std::forward<X>(x)...); } T* allocate(std::size_t n) { ++blocks; return std::allocator<T>::allocate(n); } void deallocate(T* p, std::size_t n) { --blocks; std::allocator<T>::deallocate(p, n); } };
int main() { for (int k = 0; k < 60; k++) { { internal::pool<long, A> p; std::vector<std::thread> t; std::atomic<int> ready{0}; for (int i = 0; i < 4; i++) t.emplace_back([&] { std::vector<internal::pool_ptr<long, A>> v; for (int j = 0; j < 2000; j++) v.push_back(p.allocate(j)); ++ready; while (ready < 4) { } v.clear(); }); for (auto& x : t) x.join(); } EXPECT(blocks == 0); } }'''),
dict(id="repository-get-unlocked", property="C07",
 edits=[(C+"metrics_registry.hpp", "basic_registered_metric* basic_default_repository<TAlloc>::get(const metric_path& name)\n{\n    std::lock_guard<std::mutex> lock(metriclock_);\n    auto existing", "basic_registered_metric* basic_default_repository<TAlloc>::get(const metric_path& name)\n{\n    auto existing")],
 needs="options set for a path or data looked up while another thread registers a metric", breaks="the lookup runs into the table being rebuilt",
 demo='''#include <atomic>
struct P : metrics_publisher<default_repository> { using B = metrics_publisher<default_repository>; using B::B; using B::has_metric; };
int main() { for (int k = 0; k < 30; k++) { metrics_registry<> r; r.counter("x"); P p(r); std::atomic<bool> done{false}; std::atomic<long> missing{0}; std::thread t([&] { metric_path x("x"); while (!done) missing += !p.has_metric(x); }); for (int i = 0; i < 20000; i++) r.counter(metric_path(std::to_string(i))); done = true; t.join(); EXPECT(missing == 0); } }'''),
dict(id="timer-options-keep-mean", property="C21",
 edits=[(C+"publisher.hpp", "        histogram_publish_options::operator=(std::move(other));\n        meter_publish_options::operator=(std::move(other));\n        rates_ = other.rates_;", "        histogram_publish_options::operator=(std::move(other));\n        rates_ = other.rates_;")],
 needs="options whose timers leave the mean out, set over others", breaks="assigned timer options keep whether the mean is included",
 demo='''int main() { metrics_registry<> r; r.publish_options(publish_options(timer_publish_options(true, true, false))); EXPECT(!r.publish_options().timer_options().include_mean()); }'''),
dict(id="period-less-or-equal", property="C26",
 edits=[(C+"time.hpp", "inline bool operator<=(const std::chrono::duration<TRep, TPer>& a, const period& b) { return a <= b.to_duration(); }", "inline bool operator<=(const std::chrono::duration<TRep, TPer>& a, const period& b) { return std::chrono::duration_cast<std::chrono::microseconds>(a) <= b.to_duration(); }")],
 needs="comparing a duration that is less than a microsecond longer than the period", breaks="such a duration counts as not longer than the period",
 demo='''int main() { EXPECT(!(std::chrono::nanoseconds(1000001) <= period(1000))); EXPECT(std::chrono::nanoseconds(1000000) <= period(1000)); }'''),
dict(id="prometheus-tags-defined-twice", property="C32",
 edits=[(P+"snapshot_writer.hpp", "inline prometheus_tags_t tags(", "prometheus_tags_t tags(")],
 needs="two translation units of a program that publish to prometheus", breaks="the program doesn't link", raw=True, units=True,
 demo='''#include <sstream>
#include <cxxmetrics_prometheus/prometheus_publisher.hpp>
int other();
int main() { cxxmetrics::metrics_registry<> r; r.counter("c"); std::ostringstream o; cxxmetrics_prometheus::prometheus_publisher<cxxmetrics::metrics_registry<>::repository_type> p(r); p.write(o); return o.str().empty() || other(); }'''),
]
