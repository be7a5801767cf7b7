C = "cxxmetrics/"
P = "cxxmetrics_prometheus/"
CLK = '''#include <cxxmetrics/timer.hpp>
struct Clk { using duration = std::chrono::nanoseconds; using rep = duration::rep; using period = duration::period; using time_point = std::chrono::time_point<Clk>; static int64_t& t() { static int64_t v = 1000; return v; } static time_point now() { return time_point(duration(t())); } };
using T8 = cxxmetrics::timer<1000000ull, Clk, simple_reservoir<Clk::duration, 8>>;
'''
STEADY = '''static int64_t g_now = 1000000000000ll;
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(duration(g_now)); }
'''
PROM = '''#include <cxxmetrics_prometheus/prometheus_publisher.hpp>
'''
BUGS = [
dict(id="timer-drops-negative", property="C16",
 edits=[(C+"timer.hpp", "        if (duration.count()) {", "        if (duration.count() > 0) {")],
 needs="a duration below zero, as a clock that was set back gives", breaks="negative durations aren't logged at all",
 demo=CLK + '''int main() { T8 t; t.update(std::chrono::nanoseconds(5)); { scoped_timer_t<T8> s(t); Clk::t() -= 3; } EXPECT(t.count() == 2); EXPECT(t.snapshot().min() == metric_value(-3)); }'''),
dict(id="timer-foreign-exception-logged", property="C16",
 edits=[(C+"timer.hpp", "        catch (...)\n        {\n            tm.clear();", "        catch (const std::exception&)\n        {\n            tm.clear();")],
 needs="a timed callable that throws something that isn't a std::exception", breaks="the failed call is logged although failures aren't to be included",
 demo=CLK + '''int main() { T8 t; try { t.time([]() -> int { Clk::t() += 7; throw 3; }); return 2; } catch (int) { } EXPECT(t.count() == 0); EXPECT(t.time([] { Clk::t() += 7; return 4; }) == 4); EXPECT(t.count() == 1); }'''),
dict(id="value-float-through-double", property="C18",
 edits=[(C+"metric_value.hpp", "        return static_cast<type>(value_.to_float()); \\", "        return static_cast<type>(static_cast<double>(value_.to_float())); \\")],
 needs="reading a 64-bit integer above 2^53 or an extended float as a long double", breaks="the low bits of large numbers are lost on the way out",
 demo='''int main() { metric_value v(static_cast<int64_t>(9007199254740993ll)); EXPECT(static_cast<long double>(v) == 9007199254740993.0L); EXPECT(static_cast<double>(metric_value(0.1)) == 0.1); }'''),
dict(id="value-text-signed", property="C18",
 edits=[(C+"metric_value.hpp", "        auto res = strtoull(val_.c_str(), &end, 10);", "        auto res = strtoll(val_.c_str(), &end, 10);")],
 needs="a text of a number above the largest signed 64-bit one, read as an unsigned number", breaks="such texts convert to the largest signed number",
 demo='''int main() { metric_value v(std::string("18446744073709551615")); EXPECT(static_cast<uint64_t>(v) == 18446744073709551615ull); }'''),
dict(id="value-unsigned-division-signed", property="C17",
 edits=[(C+"metric_value.hpp", "            if (!lv)\n                val_ = 0;\n            else\n                val_ /= lv;", "            if (!lv)\n                val_ = 0;\n            else\n                val_ = static_cast<T>(static_cast<long long>(val_) / lv);")],
 needs="dividing an unsigned 64-bit value above the largest signed one", breaks="the dividend is taken for a negative number",
 demo='''int main() { metric_value a(static_cast<uint64_t>(18446744073709551614ull)), b(static_cast<uint64_t>(2)); EXPECT(static_cast<uint64_t>(a / b) == 9223372036854775807ull); }'''),
dict(id="registry-forgets-unheld", property="C03",
 edits=[(C+"metrics_registry.hpp", "    auto res = metrics_.find(tags);\n", "    // don't pile up metrics that nobody uses: start over\n    for (auto res = metrics_.find(tags); res != metrics_.end() && res->second.use_count() == 1 && metrics_.size() > 1; res = metrics_.end())\n        metrics_.erase(res);\n\n    auto res = metrics_.find(std::cref(tags).get());\n")],
 needs="asking again for a metric whose handles were all let go of, at a path with several tag sets", breaks="the later request yields a new metric and what was recorded is gone",
 demo='''int main() { metrics_registry<> r; auto other = r.counter("c", 0, {{"a", 2}}); ++*r.counter("c", 0, {{"a", 1}}); ++*r.counter("c", 0, {{"a", 1}}); EXPECT(r.counter("c", 0, {{"a", 1}})->value() == 2); }'''),
dict(id="mismatch-names-swapped", property="C04",
 edits=[(C+"metrics_registry.hpp", "        throw metric_type_mismatch(l.type(), metric->metric_type());", "        throw metric_type_mismatch(metric->metric_type(), l.type());")],
 needs="registering an existing object at a path of another type and looking at the exception", breaks="the exception names the existing type as the desired one and the other way round",
 demo='''int main() { metrics_registry<> r; auto c = r.counter("c"); auto g = std::make_shared<histogram<int64_t, simple_reservoir<int64_t, 4>>>(); try { r.register_existing("c", g); return 2; } catch (const metric_type_mismatch& e) { EXPECT(e.existing_metric_type() == c->metric_type()); EXPECT(e.desired_metric_type() == g->metric_type()); } }'''),
dict(id="register-null-claims-path", property="C04",
 edits=[(C+"metrics_registry.hpp", '''    if (!metric)
        return false;

    auto& l = repo_.get_or_add(name, [tn = metric->metric_type()]() { return std::make_unique<registered_metric<TMetric>>(tn); });
    if (l.type() != metric->metric_type())
        throw metric_type_mismatch(l.type(), metric->metric_type());
''', '''    static const std::string mtype = internal::metric_default_value<TMetric>().metric_type();
    auto& l = repo_.get_or_add(name, [tn = mtype]() { return std::make_unique<registered_metric<TMetric>>(tn); });
    if (l.type() != mtype)
        throw metric_type_mismatch(l.type(), mtype);

    if (!metric)
        return false;
''')],
 needs="registering a null pointer at a new path and then asking for another type there", breaks="the refused registration leaves the path taken by its type",
 demo='''int main() { metrics_registry<> r; EXPECT(!r.register_existing("c", std::shared_ptr<counter<int64_t>>())); try { r.histogram<simple_reservoir<int64_t, 4>>("c"); } catch (const metric_type_mismatch&) { EXPECT(!"the path was free"); } }'''),
dict(id="ewma-copy-restarts-interval", property="C12",
 edits=[(C+"ewma.hpp", "    last_(c.last_),", "    last_(clk_()),")],
 needs="copying a moving average in the middle of an interval and reading the copy at the interval's end", breaks="the copy's interval begins anew, so that it closes later than the original's",
 demo=STEADY + '''int main() { ewma<10000000ull, 1000000ull> a; a.mark(10); g_now += 1000000000ll; a.mark(4); g_now += 700000000ll; auto b = a; g_now += 400000000ll; a.mark(7); b.mark(7); g_now += 500000000ll; EXPECT(a.rate() == b.rate()); }'''),
dict(id="ewma-idle-capped", property="C13",
 edits=[(C+"ewma.hpp", "    missed_intervals = ((at - last) / period(TInterval)) - 1;", "    missed_intervals = std::min<long long>((at - last) / period(TInterval) - 1, 300);")],
 needs="a moving average that is idle for more than 300 intervals of a window that is long against its interval", breaks="an idle average stops decaying after 300 missed intervals",
 demo=STEADY + '''int main() { ewma<3600000000ull, 1000000ull> a; a.mark(1000000); g_now += 1000000000ll; EXPECT(a.rate() == 1000000); g_now += 3000ll * 1000000000ll; auto r = a.rate(); EXPECT(r < 700000); }'''),
dict(id="ewma-const-snapshot-ticks", property="C14",
 edits=[(C+"ewma.hpp", '''    average_value_snapshot snapshot() const noexcept
    {
        return average_value_snapshot(ewma_.rate());''', '''    average_value_snapshot snapshot() const noexcept
    {
        return const_cast<ewma*>(this)->snapshot();''')],
 needs="a snapshot of a const moving average at the end of an interval, followed by further marks", breaks="a read-only snapshot closes the interval",
 demo=STEADY + '''int main() { ewma<10000000ull, 1000000ull> a, b; a.mark(10); b.mark(10); g_now += 1500000000ll; a.rate(); b.rate(); a.mark(10); b.mark(10); g_now += 1500000000ll; const auto& c = a; c.snapshot(); g_now += 700000000ll; a.mark(3); b.mark(3); g_now += 600000000ll; EXPECT(a.rate() == b.rate()); }''' ),
dict(id="uniform-first-slot-kept", property="C09",
 edits=[(C+"uniform_reservoir.hpp", "    elems_[d(gen_)] = value;", "    elems_[std::max<std::size_t>(d(gen_), TSize > 1)] = value;")],
 needs="many recordings beyond the capacity", breaks="the first recorded value is never replaced",
 demo='''int main() { uniform_reservoir<int64_t, 4> r; for (int64_t i = 0; i < 4000; ++i) r.update(i + 1); EXPECT(r.snapshot().min() > metric_value(1)); }'''),
dict(id="uniform-claim-in-two-steps", property="C25",
 edits=[(C+"uniform_reservoir.hpp", "    auto c = count_.fetch_add(1);", "    auto c = count_.load();\n    if (c < TSize)\n        count_.store(c + 1);")],
 needs="two threads recording at once before the reservoir is full, one between the other's load and store", breaks="both write the same slot, so one recording is lost before the reservoir is full",
 demo='''int main() { for (int round = 0; round < 300; ++round) { auto r = std::make_unique<uniform_reservoir<int64_t, 4096>>(); std::atomic<int> ready(0); std::vector<std::thread> ts; for (int t = 0; t < 4; ++t) ts.emplace_back([&, t] { ++ready; while (ready < 4); for (int i = 0; i < 1000; ++i) r->update(t * 1000 + i); }); for (auto& t : ts) t.join(); EXPECT(r->snapshot().size() == 4000); } }'''),
dict(id="tags-subset-equal", property="C19",
 edits=[(C+"tag_collection.hpp", "    if (tags_.size() != other.tags_.size())\n        return false;\n\n", "")],
 needs="comparing tags with a superset of them", breaks="tags equal every superset of themselves, in that direction only",
 demo='''int main() { tag_collection a{{"x", 1}}, b{{"x", 1}, {"y", 2}}; EXPECT(!(a == b)); EXPECT(!(b == a)); EXPECT(a != b); }'''),
dict(id="snapshot-mean-drops-last", property="C11",
 edits=[(C+"snapshots.hpp", "        return values_.empty() ? metric_value(std::numeric_limits<int64_t>::max()) : values_[values_.size()-1];", "        return values_.empty() ? metric_value(std::numeric_limits<int64_t>::max()) : values_[(values_.size() - 1) & 0x3ff];")],
 needs="a snapshot of more than 1024 values", breaks="the largest value is looked for among the first 1024 only",
 demo='''int main() { std::vector<int64_t> v; for (int64_t i = 0; i < 1500; ++i) v.push_back(i); reservoir_snapshot s(v.data(), v.size()); EXPECT(s.max() == metric_value(1499)); }'''),
dict(id="lifo-move-copies-head", property="C24",
 edits=[(C+"internal/atomic_lifo.hpp", "                    head_(other.head_.exchange(nullptr))", "                    head_(other.head_.exchange(head_t(other.head_.load().nodev ? other.head_.load().nodev->next() : nullptr)))")],
 needs="moving a stack of two or more elements and going on using or destroying both", breaks="the moved-from stack keeps all but the top element, so both own the rest",
 flags="-fsanitize=address",
 demo='''#include <cxxmetrics/internal/atomic_lifo.hpp>
int main() { internal::atomic_lifo<int> a; a.push(1); a.push(2); internal::atomic_lifo<int> b(std::move(a)); auto p = a.pop(); bool left = p; if (left) p.release(); EXPECT(!left); EXPECT(*b.pop() == 2); EXPECT(*b.pop() == 1); }'''),
dict(id="prometheus-meter-mean-flag", property="C23",
 edits=[(P+"prometheus_timer.hpp", "            if (options.timer_options().include_mean())", "            if (options.meter_options().include_mean())")],
 needs="timer options without the mean next to meter options with it, or the other way round", breaks="whether a timer's mean rate is published follows the options for meters",
 demo=PROM + '''int main() { metrics_registry<> r; auto t = r.timer<1000000ull, std::chrono::steady_clock, simple_reservoir<std::chrono::steady_clock::duration, 4>>("t"); t->update(std::chrono::nanoseconds(5000)); r.publish_options(publish_options(meter_publish_options(true), histogram_publish_options(), timer_publish_options(true, true, false))); std::ostringstream o; cxxmetrics_prometheus::prometheus_publisher<default_repository> p(r); p.write(o); EXPECT(o.str().find("window=\\"mean\\"") == std::string::npos); }'''),
dict(id="prometheus-value-cut-at-nul", property="C22",
 edits=[(P+"snapshot_writer.hpp", "    for (auto c : value)\n    {\n        if (c == '\"')", "    for (auto c : std::string(value.c_str()))\n    {\n        if (c == '\"')")],
 needs="a tag value with a NUL byte inside", breaks="tag values are cut at a NUL byte, so that different tag sets become one series",
 demo=PROM + '''int main() { metrics_registry<> r; r.counter("c", 1, {{"a", std::string("x\\0y", 3)}}); std::ostringstream o; cxxmetrics_prometheus::prometheus_publisher<default_repository> p(r); p.write(o); EXPECT(o.str().find(std::string("x\\0y", 3)) != std::string::npos); }'''),
]
