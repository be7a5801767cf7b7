C = "cxxmetrics/"
P = "cxxmetrics_prometheus/"
BUGS = [
dict(id="lifo-small-tag", property="C24",
 edits=[(C+"internal/atomic_lifo.hpp", "                uintptr_t aba;\n", "                uint16_t aba;\n")],
 needs="a pop interrupted after reading the next node, while other threads change the head 65536 times, the last time by pushing the element that was on top again", breaks="the tag of the head has come round, so that the interrupted pop succeeds and makes an element that was popped before the new head",
 demo='''#include <cxxmetrics/internal/atomic_lifo.hpp>
#include <memory>
using namespace cxxmetrics::internal;
static std::function<void()> hook;
struct N { int v; N* n; N(int i = 0) : v(i), n(nullptr) {} N* next() const { auto r = n; if (hook) { auto h = hook; hook = nullptr; h(); } return r; } void set_next(N* x) { n = x; } operator int&() { return v; } operator const int&() const { return v; } };
int main() {
  for (int k : {126, 32766}) { // with the others: 256 and 65536 changes of the head
    atomic_lifo<N> l; l.emplace(3); l.emplace(2); l.emplace(1);
    decltype(l.pop()) kept(nullptr);
    hook = [&] { auto a = l.pop(); kept = l.pop(); auto x = l.make_pointer(N(4)); for (int i = 0; i < k; i++) { l.push(std::move(x)); x = l.pop(); } l.push(std::move(x)); l.push(std::move(a)); };
    auto got = l.pop();
    if ((*got).v != 1 || (*kept).v != 2) { std::cerr << "popped the wrong ones" << std::endl; std::_Exit(1); }
    std::vector<int> rest; while (auto p = l.pop()) { rest.push_back((*p).v); if ((*p).v == 2) { std::cerr << "popped twice" << std::endl; std::_Exit(1); } if (rest.size() > 5) std::_Exit(1); }
    EXPECT((rest == std::vector<int>{4, 3}));
  } return 0; }'''),
dict(id="average-few-samples", property="C06",
 edits=[(C+"snapshots.hpp", "    uint64_t samples_;\n", "    uint16_t samples_;\n")],
 needs="a path with more than 65535 tag sets (or as many snapshots merged by hand)", breaks="the weight of what was merged before comes round, so that the average is mostly that of the last ones",
 demo='''int main() { metrics_registry<> r; for (int i = 0; i < 66000; i++) r.gauge<double>("g", i < 65536 ? 1.0 : 3.0, {{"i", i}}); double got = 0; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.aggregate([&](const average_value_snapshot& s) { got = static_cast<long double>(s.value()); }); }); EXPECT(got > 1.01 && got < 1.02); }'''),
dict(id="histogram-snapshot-count-32", property="C06",
 edits=[(C+"snapshots.hpp", "    uint64_t count_;\n", "    uint32_t count_;\n")],
 needs="histograms that together recorded more than 2^32 values", breaks="the count of the aggregate comes round",
 demo='''int main() { std::vector<int64_t> v{1, 2}; histogram_snapshot a(reservoir_snapshot(v.begin(), v.end(), 2), 3000000000u), b(reservoir_snapshot(v.begin(), v.end(), 2), 3000000000u); a.merge(b); EXPECT(a.count() == 6000000000ull); }'''),
dict(id="meter-total-32", property="C15",
 edits=[(C+"meter.hpp", "    std::atomic_int_fast64_t total_;\n", "    std::atomic_int_least32_t total_;\n")],
 needs="marks that come to more than 2^31 in total", breaks="the lifetime mean is computed from a total that has come round",
 demo='''int main() { meter<1000000, 60000000> m; m.mark(2000000000); m.mark(2000000000); EXPECT(m.mean() > 0); }'''),
dict(id="path-compare-eight", property="C19",
 edits=[(C+"metric_path.hpp", "    for (std::size_t i = 0; i < paths_.size(); ++i)\n    {\n        if (paths_[i] != other.paths_[i])\n            return false;\n    }\n\n    return true;", "    // deeper levels hardly ever differ alone, so look at the ends only\n    std::size_t depth = paths_.size(), near = depth < 8 ? depth : 8;\n    for (std::size_t i = 0; i < near; ++i)\n    {\n        if (paths_[i] != other.paths_[i] || paths_[depth - 1 - i] != other.paths_[depth - 1 - i])\n            return false;\n    }\n\n    return true;")],
 needs="two paths of more than 16 components that differ in the middle only", breaks="different paths compare equal",
 demo="""int main() { metric_path a("r"), b("r"); for (int i = 0; i < 20; i++) { a = a / metric_path(std::to_string(i)); b = b / metric_path(std::to_string(i == 9 ? 99 : i)); } EXPECT(a != b); EXPECT(!(a == b)); }"""),
dict(id="scale-single-precision", property="C21",
 edits=[(C+"publisher.hpp", "    double factor_;", "    float factor_;")],
 needs="a scale factor that single precision does not hold exactly, such as 0.001", breaks="the factor that was set isn't the one that is read and applied",
 demo="""#include <cxxmetrics/publisher.hpp>
int main() { scale_factor f(0.001); EXPECT(f.factor() == 0.001); }"""),
dict(id="duration-divided-by-int", property="C17",
 edits=[(C+"metric_value.hpp", "        auto lv = other.to_integral(&valid);\n        if (!valid)\n        {\n            auto fv = other.to_float(&valid);\n            if (!valid)\n                return;\n\n            if (!fv)\n                dur_ = dur_.zero();", "        int lv = static_cast<int>(other.to_integral(&valid));\n        if (!valid)\n        {\n            auto fv = other.to_float(&valid);\n            if (!valid)\n                return;\n\n            if (!fv)\n                dur_ = dur_.zero();")],
 needs="a duration divided by a number that does not fit 32 bits", breaks="the divisor is cut off",
 demo="""int main() { metric_value v(std::chrono::nanoseconds(60000000000ll)); v /= metric_value(6000000000ll); EXPECT(static_cast<std::string>(v) == "10"); }"""),
dict(id="text-number-one-sided", property="C18",
 edits=[(C+"metric_value.hpp", "        if (!valid)\n            return -1;\n\n        return val_ < fv ? -1 : val_ == fv ? 0 : 1;", "        if (!valid)\n            return 1;\n\n        return val_ < fv ? -1 : val_ == fv ? 0 : 1;")],
 needs="a floating-point value compared with a text that spells no number", breaks="such texts come before floating-point numbers and after integers",
 demo="""int main() { EXPECT(metric_value(1.5) < metric_value(std::string("abc"))); EXPECT(metric_value(1) < metric_value(std::string("abc"))); }"""),
]
