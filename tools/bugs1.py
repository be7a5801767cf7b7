C = "cxxmetrics/"
P = "cxxmetrics_prometheus/"
BUGS = [
dict(id="counter-negative-decrement", property="C01",
 edits=[(C+"counter.hpp", "        incr(-by);\n        return *this;", "        if (by > 0)\n            incr(TCount(0) - by);\n        return *this;")],
 needs="decrementing a signed counter by a negative amount", breaks="a decrement by a negative amount is dropped instead of raising the counter",
 demo='''int main() { counter<int64_t> c(5); c -= 3; EXPECT(c.value() == 2); c -= -4; EXPECT(c.value() == 6); counter<uint8_t> u(1); u -= 2; EXPECT(u.value() == 255); }'''),
dict(id="counter-postfix-reread", property="C02",
 edits=[(C+"counter.hpp", "        return incr(1) - 1;", "        auto before = value();\n        incr(1);\n        return before;")],
 needs="two threads using the postfix increment at once, one incrementing between the other's two steps", breaks="two threads can get the same old value, so the returned values fit no order of the increments",
 demo='''int main() {
  for (int round = 0; round < 40; ++round) {
    counter<int64_t> c; std::vector<int64_t> got[4]; std::atomic<int> ready(0); std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t) ts.emplace_back([&, t] { ++ready; while (ready < 4); for (int i = 0; i < 100000; ++i) got[t].push_back(c++); });
    for (auto& t : ts) t.join();
    std::vector<int64_t> all; for (auto& g : got) all.insert(all.end(), g.begin(), g.end());
    std::sort(all.begin(), all.end());
    EXPECT(c.value() == 400000);
    EXPECT(std::adjacent_find(all.begin(), all.end()) == all.end());
  } }'''),
dict(id="ringbuf-narrow-tail", property="C08",
 edits=[(C+"ringbuf.hpp", "    std::atomic_uint_fast64_t tail_;", "    std::atomic<uint16_t> tail_;")],
 needs="more than 65536 recordings into a reservoir whose capacity doesn't divide 65536", breaks="the write position jumps when the narrow index wraps, so the oldest values are no longer the ones replaced",
 demo='''int main() { simple_reservoir<int64_t, 10> r; for (int64_t i = 1; i <= 65540; ++i) { r.update(i); if (i > 65530) { auto s = r.snapshot(); EXPECT(s.min() == metric_value(i - 9)); EXPECT(s.max() == metric_value(i)); } } }'''),
dict(id="sliding-boundary-after-first", property="C10",
 edits=[(C+"sliding_window.hpp", "            ++it_;\n            while (it_ != end_ && it_->time() < min_)\n                ++it_;\n            return *this;", "            do\n                ++it_;\n            while (it_ != end_ && !(it_->time() > min_));\n            return *this;")],
 needs="a value recorded exactly at the window's boundary instant that is not the first one visited", breaks="all but the first of the values recorded exactly at the start of the window are left out",
 demo='''struct Clk { static int64_t& t() { static int64_t v = 1000; return v; } int64_t operator()() const { return t(); } };
int main() { sliding_window_reservoir<int64_t, 16, Clk> r(100); r.update(1); Clk::t() = 1050; r.update(2); r.update(3); Clk::t() = 1150; EXPECT(r.snapshot().size() == 2); Clk::t() = 1151; EXPECT(r.snapshot().size() == 0); }'''),
dict(id="registry-build-unlocked", property="C07",
 edits=[(C+"metrics_registry.hpp", '''    std::lock_guard<std::mutex> lock(lock_);
    auto res = metrics_.find(tags);

    if (res != metrics_.end())
        return std::static_pointer_cast<internal::metric>(res->second);

    return std::static_pointer_cast<internal::metric>(
            metrics_.emplace(tags, static_cast<basic_metric_builder<TMetricType>*>(metricbuilder)->build()).first->second);''',
'''    std::unique_lock<std::mutex> lock(lock_);
    auto res = metrics_.find(tags);

    if (res != metrics_.end())
        return std::static_pointer_cast<internal::metric>(res->second);

    // constructing a metric can be expensive, don't keep everyone else waiting
    lock.unlock();
    auto built = static_cast<basic_metric_builder<TMetricType>*>(metricbuilder)->build();
    lock.lock();
    return std::static_pointer_cast<internal::metric>(metrics_[tags] = std::move(built));''')],
 needs="two threads asking for the same new path and tags, both finding the slot free before either stores its metric", breaks="the two threads get different instances and one of them is lost to the registry",
 demo='''int main() {
  for (int round = 0; round < 4000; ++round) {
    metrics_registry<> r; std::atomic<int> ready(0); std::shared_ptr<void> got[4]; std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t) ts.emplace_back([&, t] { ++ready; while (ready < 4); got[t] = r.histogram<uniform_reservoir<int64_t, 4096>>("h"); });
    for (auto& t : ts) t.join();
    for (int t = 1; t < 4; ++t) EXPECT(got[t] == got[0]);
  } }'''),
dict(id="meter-assign-keeps-start", property="C12",
 edits=[(C+"meter.hpp", "        start_ = c.start_;\n        total_.store(c.total_.load());\n\n        return *this;", "        if (start_ == clock_point{})\n            start_ = c.start_;\n        total_.store(c.total_.load());\n\n        return *this;")],
 needs="assigning a meter over one that has been marked before", breaks="the assigned meter divides its lifetime total by the time since its own first mark instead of the original's",
 demo='''struct Clk { static int64_t& t() { static int64_t v = 1000000; return v; } std::chrono::steady_clock::time_point operator()() const { return std::chrono::steady_clock::time_point(std::chrono::microseconds(t())); } };
int main() { using M = internal::_meter_impl<Clk, 1000000, 60000000>; M a{Clk()}, b{Clk()}; a.mark(7); Clk::t() += 5000000; b.mark(10); Clk::t() += 5000000; a = b; EXPECT(a.mean() == b.mean()); EXPECT(b.mean() == 2); }'''),
dict(id="path-equality-joined", property="C19",
 edits=[(C+"metric_path.hpp", '''    if (paths_.size() != other.paths_.size())
        return false;

    for (std::size_t i = 0; i < paths_.size(); ++i)
    {
        if (paths_[i] != other.paths_[i])
            return false;
    }

    return true;''', '''    return join("/") == other.join("/");''')],
 needs="a path component that contains the delimiter", breaks="paths with different components compare equal",
 demo='''int main() { metric_path a("a/b"), b = metric_path("a") / metric_path("b"), c = metric_path("a") / metric_path("b"); EXPECT(b == c); EXPECT(a != b); EXPECT(!(a == b)); }'''),
dict(id="register-same-again", property="C03",
 edits=[(C+"metrics_registry.hpp", '''        bool added = false;
        auto builder = [&]() -> std::shared_ptr<TMetricType> {
            added = true;
            return std::move(metric);
        };
''', '''        auto builder = [&]() -> std::shared_ptr<TMetricType> {
            return metric;
        };
'''), (C+"metrics_registry.hpp", '''        std::static_pointer_cast<TMetricType>(this->child(tags, &metricbuilder));

        return added;''', '''        return std::static_pointer_cast<TMetricType>(this->child(tags, &metricbuilder)) == metric;''')],
 needs="registering an object again at the slot that already holds it", breaks="registering into an occupied slot reports true",
 demo='''int main() { metrics_registry<> r; auto c = std::make_shared<counter<int64_t>>(3); EXPECT(r.register_existing("p", c)); EXPECT(!r.register_existing("p", std::make_shared<counter<int64_t>>(4))); EXPECT(!r.register_existing("p", c)); }'''),
dict(id="meter-const-rate-writes", property="C14",
 edits=[(C+"meter.hpp", '''    constexpr double get_rate() const
    {
        return rates_.template get_rate<TPeriod>().rate();
    }''', '''    constexpr double get_rate() const
    {
        return const_cast<_meter_impl_base*>(this)->template get_rate<TPeriod>();
    }''')],
 needs="read-only readings of a meter between marks, after an interval has ended", breaks="a read-only reading ends the interval, so later rates differ from those of a meter that was never read",
 demo='''struct Clk { static int64_t& t() { static int64_t v = 1000000; return v; } std::chrono::steady_clock::time_point operator()() const { return std::chrono::steady_clock::time_point(std::chrono::microseconds(t())); } };
int main() { using M = internal::_meter_impl<Clk, 1000000, 60000000>; M a{Clk()}, b{Clk()}; const M& ca = a; for (int i = 0; i < 5; ++i) { a.mark(10); b.mark(10); Clk::t() += 1500000; ca.get_rate<60000000>(); Clk::t() += 700000; } const M& cb = b; EXPECT(ca.get_rate<60000000>() == cb.get_rate<60000000>()); }'''),
dict(id="meter-mean-at-least-one", property="C15",
 edits=[(C+"meter.hpp", '''        if (!units)
            return (total_ * 1.0l);''', '''        if (units < 1)
            return (total_ * 1.0l);''')],
 needs="reading the mean when less than one rate interval has passed since the first mark", breaks="the mean is the plain sum during the whole first interval instead of only while no time has elapsed",
 demo='''struct Clk { static int64_t& t() { static int64_t v = 1000000; return v; } std::chrono::steady_clock::time_point operator()() const { return std::chrono::steady_clock::time_point(std::chrono::microseconds(t())); } };
int main() { internal::_meter_impl<Clk, 1000000, 60000000> m{Clk()}; m.mark(10); EXPECT(m.mean() == 10); Clk::t() += 500000; EXPECT(m.mean() == 20); Clk::t() += 1500000; EXPECT(m.mean() == 5); }'''),
dict(id="reference-gauge-assigns-through", property="C20",
 edits=[(C+"gauge.hpp", "    value_ = copy.value_.get();\n    return *this;", "    value_.get() = copy.value_.get();\n    return *this;")],
 needs="assigning one gauge of a variable to another", breaks="the assignment overwrites the variable the gauge refers to, and the gauge doesn't follow the other's variable",
 demo='''int main() { int a = 1, b = 2; gauge<int&> ga(a), gb(b); ga = gb; EXPECT(a == 1); EXPECT(ga.get() == 2); b = 7; EXPECT(ga.get() == 7); }'''),
dict(id="prometheus-colon-in-labels", property="C22",
 edits=[(P+"snapshot_writer.hpp", "        if (!isalnum(c))", "        if (!isalnum(c) && c != ':') // colons are fine in metric names")],
 needs="a tag name with a colon in it", breaks="label names may contain colons, which only metric names may",
 demo='''#include <cxxmetrics_prometheus/prometheus_publisher.hpp>
int main() { metrics_registry<> r; r.counter("a:b", {{"x:y", 1}}); cxxmetrics_prometheus::prometheus_publisher<default_repository> p(r); std::ostringstream s; p.write(s); std::string t = s.str(); auto o = t.find('{'); EXPECT(o != std::string::npos); EXPECT(t.substr(o, t.find('=') - o).find(':') == std::string::npos); }'''),
dict(id="prometheus-timer-rate-scale", property="C23",
 edits=[(P+"prometheus_timer.hpp", '''internal::scale_value(cxxmetrics::metric_value(window.second), options.timer_options()) << "\\n";''', '''internal::scale_value(cxxmetrics::metric_value(window.second), options.meter_options()) << "\\n";''')],
 needs="a timer with rates whose options scale differently than the options for meters", breaks="the rates of a timer's windows are scaled by the meter options instead of the timer options",
 demo='''#include <cxxmetrics_prometheus/prometheus_publisher.hpp>
int main() { metrics_registry<> r; r.publish_options(publish_options(meter_publish_options(scale_factor(1000.0)))); auto t = r.timer<1000000ull, std::chrono::steady_clock, simple_reservoir<std::chrono::steady_clock::duration, 4>, 60000000ull>("t");
 t->update(std::chrono::seconds(1)); cxxmetrics_prometheus::prometheus_publisher<default_repository> p(r); std::ostringstream s; p.write(s); std::string text = s.str(); auto o = text.find("window=\\"1min\\""); EXPECT(o != std::string::npos); EXPECT(atof(text.c_str() + text.find('}', o) + 1) < 10); }'''),
dict(id="options-assign-quantiles-swap", property="C21",
 edits=[(C+"publisher.hpp", "        quantiles_ = std::move(other.quantiles_);\n        count_ = other.count_;", "        if (other.quantiles_)\n            quantiles_ = std::move(other.quantiles_);\n        count_ = other.count_;")],
 needs="assigning options without quantiles over options that had some", breaks="the old quantiles survive the assignment of options that ask for the default ones",
 demo='''int main() { metrics_registry<> r; r.publish_options(publish_options(histogram_publish_options(quantile_options<10_p>()))); r.publish_options(publish_options(histogram_publish_options(true)));
 histogram<int64_t, simple_reservoir<int64_t, 8>> h; h.update(1); auto s = h.snapshot(); std::vector<double> seen; struct V : quantile_visitor { std::vector<double>& o; V(std::vector<double>& v) : o(v) {} void visit(const quantile& q, metric_value&&) const override { o.push_back(q.percentile()); } } v(seen); r.publish_options().histogram_options().quantiles()->visit(s, v); EXPECT(seen.size() == 3); }'''),
dict(id="period-to-duration-milliseconds", property="C26",
 edits=[(C+"time.hpp", "        return std::chrono::microseconds(value_);", "        return value_ < 1000 ? std::chrono::microseconds(value_) : std::chrono::milliseconds(value_ / 1000);")],
 needs="a window or period of more than a millisecond that is not a whole number of milliseconds", breaks="a period's length as a duration is cut to whole milliseconds",
 demo='''int main() { period p(1500); EXPECT(p.to_duration() == std::chrono::microseconds(1500)); EXPECT(!(std::chrono::microseconds(1499) > p)); EXPECT(std::chrono::microseconds(1499) < p); EXPECT((1_sec).to_duration() == std::chrono::seconds(1)); }'''),
dict(id="histogram-snapshot-assign-count", property="C27",
 edits=[(C+"snapshots.hpp", "        reservoir_snapshot::operator=(std::move(other));\n        count_ = other.count_;\n        return *this;", "        count_ = std::max(count_, other.count_);\n        reservoir_snapshot::operator=(std::move(other));\n        return *this;")],
 needs="assigning a snapshot with a smaller count over one with a bigger count", breaks="a histogram snapshot keeps the count of the snapshot it replaces",
 demo='''int main() { histogram<int64_t, simple_reservoir<int64_t, 8>> a, b; for (int i = 0; i < 5; ++i) a.update(i); b.update(9); auto s = a.snapshot(); s = b.snapshot(); EXPECT(s.count() == 1); EXPECT(s.max() == metric_value(9)); }'''),
dict(id="lifo-no-aba-tag", property="C24",
 edits=[(C+"internal/atomic_lifo.hpp", '''                    next.aba = h.aba + 1;
                    list_node_traits<node>::set_next_of''', '''                    next.aba = h.aba;
                    list_node_traits<node>::set_next_of'''), (C+"internal/atomic_lifo.hpp", '''                    next.aba = h.aba + 1;
                    next.nodev =''', '''                    next.aba = h.aba;
                    next.nodev =''')],
 needs="a pop interrupted after reading the next node, while another thread pops two nodes and pushes the first of them again", breaks="the interrupted pop succeeds on the recycled head and makes a node that was already popped the new head",
 demo='''#include <cxxmetrics/internal/atomic_lifo.hpp>
#include <memory>
using namespace cxxmetrics::internal;
struct N; static std::function<void()> hook;
struct N { int v; N* n; N(int i = 0) : v(i), n(nullptr) {} N* next() const { auto r = n; if (hook) { auto h = hook; hook = nullptr; h(); } return r; } void set_next(N* x) { n = x; } operator int&() { return v; } operator const int&() const { return v; } };
int main() {
  static_assert(true, "");
  std::vector<int> out;
  {
    atomic_lifo<N> l; l.emplace(3); l.emplace(2); l.emplace(1);
    // another thread's doings at the moment between reading the next node and replacing the head
    decltype(l.pop()) kept(nullptr);
    hook = [&] { auto a = l.pop(); kept = l.pop(); l.push(std::move(a)); };
    auto got = l.pop();
    int first = (*got).v;
    std::vector<int> rest; while (auto p = l.pop()) { rest.push_back((*p).v); if ((*p).v == (*kept).v) { std::cerr << "popped twice" << std::endl; std::_Exit(1); } if (rest.size() > 5) std::_Exit(1); }
    EXPECT(first == 1); EXPECT((*kept).v == 2); EXPECT(rest == std::vector<int>{3});
  } }'''),
dict(id="ringbuf-plain-elements", property="C25",
 edits=[(C+"ringbuf.hpp", "    std::array<std::atomic<TElemType>, TSize> data_;", "    std::array<TElemType, TSize> data_;")],
 needs="a snapshot reading an element at the moment another thread is halfway through overwriting it", breaks="a snapshot can contain a value composed of two recorded ones, or a value with another value's time",
 demo='''int main() {
  struct W { int64_t a, b, c, d; };
  internal::ringbuf<W, 4> r; std::atomic<bool> stop(false); std::atomic<bool> torn(false);
  std::vector<std::thread> ts;
  for (int t = 0; t < 2; ++t) ts.emplace_back([&, t] { int64_t i = t; while (!stop) { r.push(W{i, i, i, i}); i += 2; } });
  for (int t = 0; t < 2; ++t) ts.emplace_back([&] { for (int n = 0; n < 3000000 && !torn; ++n) { for (auto it = r.begin(); it != r.end(); ++it) { W w = *it; if (w.a != w.b || w.a != w.c || w.a != w.d) torn = true; } } });
  ts[2].join(); ts[3].join(); stop = true; ts[0].join(); ts[1].join();
  EXPECT(!torn); }'''),
dict(id="average-merge-skips-zero", property="C06",
 edits=[(C+"snapshots.hpp", """        auto sb = samples_ * 1.0l;
        auto os = other.samples_ * 1.0l;
        auto s1 = samples_ + os;

        value_ =""", """        // there's nothing in the other one yet
        if (other.value_ == metric_value(0))
            return;

        auto sb = static_cast<long double>(samples_);
        auto os = static_cast<long double>(other.samples_);
        auto s1 = samples_ + os;

        value_ =""")],
 needs="aggregating an averaging metric one of whose tag permutations is exactly zero", breaks="permutations at zero are left out of the mean, depending on the order they are visited in",
 demo='''int main() { metrics_registry<> r; for (int i = 0; i < 6; ++i) r.gauge<double>("g", double(i < 3 ? 0 : 6), {{"t", i}}); int calls = 0; double got = 0;
 r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.aggregate([&](const average_value_snapshot& s) { ++calls; got = (double)(long double)s.value(); }); }); EXPECT(calls == 1); EXPECT(std::abs(got - 3) < 1e-9); }'''),
]
