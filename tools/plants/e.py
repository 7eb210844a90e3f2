import runpy, os
_d = os.path.dirname(os.path.abspath(__file__))
_a = runpy.run_path(os.path.join(_d, "a.py"))
_b = runpy.run_path(os.path.join(_d, "b.py"))
V, REG, T, R, PROM = _a["V"], _a["REG"], _b["T"], _b["R"], _b["PROM"]
CLK = r'''
#include <chrono>
static long long now_ns = 1000000000LL;
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(nanoseconds(now_ns)); } } } }
'''
PLANTS = [
dict(id="e01-same-instance-once", property="P06", needs="one metric adopted under two tag sets of a path, the first of them among the family",
     breaks="a tag set sharing its instance with the first one visited is left out of the aggregate",
     edits=[("cxxmetrics/metrics_registry.hpp", "        result.merge(itr->second->snapshot());", "        if (itr->second != metrics_.begin()->second)\n            result.merge(itr->second->snapshot());")],
     demo=REG + r'''
int main()
{
    metrics_registry<> r; auto c = std::make_shared<counter<int64_t>>(7);
    CHECK(r.register_existing("a", c, {{"x", 1}})); CHECK(r.register_existing("a", c, {{"x", 2}}));
    metric_value total(0);
    r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { struct H { metric_value& t; void operator()(const value_snapshot& s) const { t = s.value(); } void operator()(const histogram_snapshot&) const { } }; m.aggregate(H{total}); });
    CHECK(total == metric_value(14));
}
'''),
dict(id="e02-merge-of-merged", property="P06", needs="merging two average snapshots each already merged from several, then merging more",
     breaks="the number of averages combined grows by one whatever was merged, so later ones weigh too much",
     edits=[("cxxmetrics/snapshots.hpp", "        samples_ = s1;\n", "        ++samples_;\n")],
     demo=REG + r'''
int main()
{
    average_value_snapshot a(metric_value(3.0)), b(metric_value(5.0)), c(metric_value(7.0)), d(metric_value(9.0)), e(metric_value(1.0));
    c.merge(d); a.merge(b); a.merge(c); a.merge(e);
    long double v = a.value();
    CHECK(v > 4.999L && v < 5.001L);
}
'''),
dict(id="e03-tick-not-assigned", property="P14", needs="assigning an average that was started and fell to exactly zero, or never started, over another",
     breaks="assignment leaves the target's own started flag, so a fresh average assigned over a started one blends its first interval, and the other way round",
     edits=[("cxxmetrics/ewma.hpp", "    ticked_.store(c.ticked_.load());\n", "")],
     demo=CLK + REG + r'''
int main()
{
    using namespace cxxmetrics_literals;
    ewma<time::minutes(1)> used;
    used.mark(0); now_ns += 2000000000LL; used.mark(0);
    ewma<time::minutes(1)> fresh;
    fresh.mark(10); used = fresh;
    now_ns += 2000000000LL;
    double f = fresh.rate(), u = used.rate();
    CHECK(f == 10 && u == 10);
}
'''),
dict(id="e08-first-label", property="P22", needs="a tag whose name is empty or begins with a digit, listed first",
     breaks="the first label of a line is written without the prefix that makes its name valid",
     edits=[("cxxmetrics_prometheus/snapshot_writer.hpp", "    format_tag_name(into, tag->first);\n    into << \"=\\\"\";", "    format_name_element(into, tag->first);\n    into << \"=\\\"\";")],
     demo=PROM + r'''
int main()
{
    metrics_registry<> r; r.counter("a", 0, tag_collection{{"9b", 1}});
    cxxmetrics_prometheus::prometheus_publisher<default_repository> p(r);
    std::ostringstream o; p.write(o);
    CHECK(o.str().find("{_9b=") != std::string::npos);
}
'''),
dict(id="e15-scale-kept", property="P20", needs="setting timer options twice, with different scales",
     breaks="assigning timer options keeps the old scale, which lives in the shared base",
     edits=[("cxxmetrics/publisher.hpp", "        histogram_publish_options::operator=(std::move(other));\n        meter_publish_options::operator=(std::move(other));\n        rates_ = other.rates_;", "        auto keep = this->scale();\n        histogram_publish_options::operator=(std::move(other));\n        meter_publish_options::operator=(std::move(other));\n        if (!this->scale())\n            value_publish_options::operator=(value_publish_options(keep));\n        rates_ = other.rates_;")],
     demo=PROM + r'''
int main()
{
    timer_publish_options a(true, scale_factor(10)), b(true);
    a = std::move(b);
    CHECK(!a.scale());
}
'''),
dict(id="e16-literal-length", property="P27", needs="a path component built from a pointer and a length with a null character inside",
     breaks="a component given by pointer and length ends at its first null character, so different names become the same",
     edits=[("cxxmetrics/metric_path.hpp", "                paths_.emplace_back(pstr, len);", "                paths_.emplace_back(std::string(pstr).substr(0, len));")],
     demo=REG + r'''
int main()
{
    using namespace cxxmetrics_literals;
    CHECK("a\0b"_m != "a\0c"_m);
}
'''),
dict(id="e17-marked-neighbour", property="P26", needs="erasing elements through iterators while others still point at them, then iterating",
     breaks="an iterator standing on an erased element steps over one element too many",
     edits=[("cxxmetrics/skiplist.hpp", "    node_ = list_->pin_next_valid(0, node_);\n    return *this;", "    auto next = list_->pin_next_valid(0, node_);\n    if (next && node_->is_marked())\n        next = list_->pin_next_valid(0, next);\n    node_ = next;\n    return *this;")],
     demo=V + r'''
#include <cxxmetrics/skiplist.hpp>
int main()
{
    cxxmetrics::skiplist<int, 8> l;
    for (int i = 0; i < 6; i++) l.insert(i);
    auto it = l.find(2);
    CHECK(l.erase(it));
    ++it;
    CHECK(it != l.end() && *it == 3);
}
'''),
dict(id="e18-adopt-while-asked", property="P04", needs="registering an existing metric through a handle used elsewhere at the same time",
     breaks="registering leaves the offered metric behind as a copy",
     edits=[("cxxmetrics/metrics_registry.hpp", "            added = true;\n            return std::move(metric);", "            added = true;\n            if (metric.use_count() > 2)\n                return std::make_shared<TMetricType>(*metric);\n            return std::move(metric);")],
     demo=REG + r'''
int main()
{
    metrics_registry<> r, q, z; auto c = std::make_shared<counter<int64_t>>(7);
    CHECK(r.register_existing("a", c)); CHECK(q.register_existing("a", c)); CHECK(z.register_existing("a", c));
    *c += 1; 
    CHECK(*z.counter("a") == 8 && *q.counter("a") == 8);
}
'''),
]
