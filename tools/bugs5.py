C = "cxxmetrics/"
P = "cxxmetrics_prometheus/"
BUGS = [
dict(id="counter-decrement-int", property="C01",
 edits=[(C+"counter.hpp", "        incr(-by);\n", "        // negated as an int, as small types are promoted to it anyway\n        incr(static_cast<TCount>(-static_cast<int>(by)));\n")],
 needs="a 64-bit counter decremented by an amount that does not fit 32 bits", breaks="the upper half of the amount is lost",
 demo='''int main() { counter<int64_t> c(10000000000ll); c -= 5000000000ll; EXPECT(c.value() == 5000000000ll); }'''),
dict(id="ewma-add-then-store", property="C02",
 edits=[(C+"ewma.hpp", "            if (a.compare_exchange_weak(v1, v2))\n                break;", "            if (a.load() == v1)\n            {\n                a.store(v2);\n                break;\n            }")],
 needs="two threads marking the same moving average, one of them between the other's check and its store", breaks="one of the two marks is lost",
 demo='''int main() {
  for (int round = 0; round < 60; ++round) {
    cxxmetrics::ewma<(60_min).value(), (60_min).value()> e; std::atomic<int> ready(0); std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t) ts.emplace_back([&] { ++ready; while (ready < 4); for (int i = 0; i < 100000; ++i) e.mark(1); });
    for (auto& t : ts) t.join();
    EXPECT(e.rate() == 400000);
  } }'''.replace("(60_min).value()", "3600000000ll")),
dict(id="sliding-assign-keeps-clock", property="C12",
 edits=[(C+"sliding_window.hpp", "    data_ = other.data_;\n    clock_ = other.clock_;\n", "    data_ = other.data_;\n")],
 needs="assigning a sliding window whose clock has a state of its own to one with another", breaks="the copy judges the values it took over by the clock it had",
 demo='''struct Clk { long* at; Clk(long* a = nullptr) : at(a) {} std::chrono::steady_clock::time_point operator()() const { return std::chrono::steady_clock::time_point(std::chrono::seconds(at ? *at : 0)); } };
int main() { long t1 = 1000, t2 = 5; sliding_window_reservoir<int64_t, 8, Clk> a(std::chrono::seconds(60), Clk(&t1)), b(std::chrono::seconds(60), Clk(&t2)); a.update(7); b = a; EXPECT(b.snapshot().size() == 1); t1 = 2000; EXPECT(a.snapshot().size() == 0); EXPECT(b.snapshot().size() == 0); }'''),
dict(id="snapshot-sorts-as-double", property="C11",
 edits=[(C+"snapshots.hpp", "    for (; begin != end && at < size; ++begin, ++at)\n        values_.emplace_back(sample_value(*begin));\n\n    std::sort(values_.begin(), values_.end());", "    for (; begin != end && at < size; ++begin, ++at)\n        values_.emplace_back(sample_value(*begin));\n\n    // (comparing plain numbers is faster)\n    std::sort(values_.begin(), values_.end(), [](const metric_value& a, const metric_value& b) { return static_cast<double>(static_cast<long double>(a)) < static_cast<double>(static_cast<long double>(b)); });")],
 needs="large integers that differ by less than a double can tell, recorded in descending order", breaks="the sample is not in order, and its minimum and maximum are wrong",
 demo='''int main() { simple_reservoir<int64_t, 4> r; r.update(4611686018427387905ll); r.update(4611686018427387904ll); auto s = r.snapshot(); EXPECT(static_cast<int64_t>(s.min()) == 4611686018427387904ll); EXPECT(static_cast<int64_t>(s.max()) == 4611686018427387905ll); }'''),
dict(id="histogram-counts-preloaded", property="C27",
 edits=[(C+"histogram.hpp", "            reservoir_(std::forward<TReservoir>(reservoir))\n", "            reservoir_(std::forward<TReservoir>(reservoir)),\n            count_(reservoir_.snapshot().size())\n")],
 needs="a histogram made from a reservoir that holds values already", breaks="values that were never recorded in the histogram are counted",
 demo='''int main() { simple_reservoir<int64_t, 4> r; r.update(1); r.update(2); histogram<int64_t, simple_reservoir<int64_t, 4>> h(std::move(r)); h.update(3); EXPECT(h.count() == 1); EXPECT(h.snapshot().count() == 1); EXPECT(h.snapshot().size() == 3); }'''),
dict(id="options-static-reference", property="C30",
 edits=[(C+"metrics_registry.hpp", "    repo_.template get_publish_data<cxxmetrics::publish_options>() = std::move(options);", "    static auto& existing = repo_.template get_publish_data<cxxmetrics::publish_options>();\n    existing = std::move(options);")],
 needs="setting the registry-wide options of a second registry in one program", breaks="they end up with the first registry, or where it was",
 demo='''int main() { metrics_registry<> a, b; a.publish_options(publish_options()); b.publish_options(publish_options(value_publish_options(scale_factor(3.0)))); EXPECT(b.publish_options().value_options().scale().factor() == 3.0); EXPECT(a.publish_options().value_options().scale().factor() != 3.0); }'''),
]
