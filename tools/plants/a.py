V = r'''
#include <cstdio>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { std::printf("failed: %s\n", #c); return 1; } } while (0)
'''
REG = V + r'''
#include <functional>
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <array>
#include <cxxmetrics/sliding_window.hpp>
using namespace cxxmetrics;
'''
PLANTS = [
dict(id="b01-path-join", property="P02", needs="a component containing the separator, next to a two-component path with the same joined text",
     breaks="path equality and hash go through the joined text, so distinct paths share one metric",
     edits=[("cxxmetrics/metric_path.hpp", '''    if (paths_.size() != other.paths_.size())
        return false;

    for (std::size_t i = 0; i < paths_.size(); ++i)
    {
        if (paths_[i] != other.paths_[i])
            return false;
    }

    return true;
''', '''    return join("/") == other.join("/");
'''), ("cxxmetrics/metric_path.hpp", '''            std::size_t result = 0;
            std::hash<string> h;
            for (const auto& str : path)
                result = (result * 397) ^ h(str);

            return result;
''', '''            std::hash<string> h;
            return h(path.join("/"));
''')], demo=REG + r'''
int main()
{
    metrics_registry<> r;
    auto a = r.counter("a/b"_m ); auto b = r.counter("a"_m / "b");
    ++*a;
    CHECK(a.get() != b.get());
    CHECK(b->value() == 0);
}
'''.replace('"a/b"_m ', 'metric_path("a/b")').replace('"a"_m', 'metric_path("a")')),
dict(id="b02-type-prefix", property="P03", needs="registering an existing metric of the same kind but another template argument at a taken path",
     breaks="register_existing compares only the kind of the metric",
     edits=[("cxxmetrics/metrics_registry.hpp", "    if (l.type() != metric->metric_type())\n        throw",
             "    auto kind = [](const std::string& t) { return t.substr(0, t.find('I')); };\n    if (kind(l.type()) != kind(metric->metric_type()))\n        throw")],
     demo=REG + r'''
int main()
{
    metrics_registry<> r;
    r.counter<int64_t>("a");
    auto m = std::make_shared<counter<int32_t>>(7);
    bool thrown = false;
    try { r.register_existing("a", m, tag_collection{std::pair<const std::string, metric_value>("k", 1)}); } catch (metric_type_mismatch &) { thrown = true; }
    CHECK(thrown);
}
'''),
dict(id="b03-adopt-again", property="P04", needs="registering the same instance a second time at the place it already has",
     breaks="a refused registration of the instance already there reports success",
     edits=[("cxxmetrics/metrics_registry.hpp", '''        bool added = false;
        auto builder = [&]() -> std::shared_ptr<TMetricType> {
            added = true;
            return std::move(metric);
        };
''', '''        auto builder = [&]() -> std::shared_ptr<TMetricType> {
            return metric;
        };
'''), ("cxxmetrics/metrics_registry.hpp", '''        std::static_pointer_cast<TMetricType>(this->child(tags, &metricbuilder));

        return added;
''', '''        return std::static_pointer_cast<TMetricType>(this->child(tags, &metricbuilder)) == metric;
''')], demo=REG + r'''
int main()
{
    metrics_registry<> r;
    auto m = std::make_shared<counter<int64_t>>(7);
    CHECK(r.register_existing("a", m));
    CHECK(!r.register_existing("a", m));
}
'''),
dict(id="b04-visit-lock", property="P05", needs="a handler that throws, then any use of the registry",
     breaks="a throwing handler leaves the repository locked",
     edits=[("cxxmetrics/metrics_registry.hpp", '''    std::lock_guard<std::mutex> lock(metriclock_);
    for (auto& pair : metrics_)
        handler(pair.first, *pair.second);
''', '''    metriclock_.lock();
    for (auto& pair : metrics_)
        handler(pair.first, *pair.second);
    metriclock_.unlock();
''')], demo=REG + r'''
#include <unistd.h>
int main()
{
    alarm(10);
    metrics_registry<> r;
    r.counter("a");
    try { r.visit_registered_metrics([](const metric_path &, basic_registered_metric &) { throw 1; }); } catch (int) { }
    r.counter("b");
}
'''),
dict(id="b05-idle-average", property="P06", needs="aggregating averages where one of them currently is zero",
     breaks="an average of zero is left out of the aggregate",
     edits=[("cxxmetrics/snapshots.hpp", """        auto sb = samples_ * 1.0l;
        auto os = other.samples_ * 1.0l;
        auto s1 = samples_ + os;

        value_""", """        // nothing to add for an idle metric
        if (other.value() == metric_value(0))
            return;

        auto os = other.samples_ * 1.0l;
        auto sb = samples_ * 1.0l;
        auto s1 = samples_ + os;

        value_""")], demo=REG + r"""
#include <cmath>
int main()
{
    metrics_registry<> r;
    using T = std::pair<const std::string, metric_value>;
    r.gauge("a", 6.0, tag_collection{T("k", 1)}); r.gauge("a", 0.0, tag_collection{T("k", 2)}); r.gauge("a", 3.0, tag_collection{T("k", 3)});
    double got = -1;
    struct h { double &g; void operator()(const average_value_snapshot &s) const { g = static_cast<double>(s.value()); } void operator()(const cumulative_value_snapshot &) const { } void operator()(const histogram_snapshot &) const { } void operator()(const meter_snapshot &) const { } void operator()(const timer_snapshot &) const { } };
    r.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) { m.aggregate(h{got}); });
    CHECK(std::fabs(got - 3) < 1e-9);
}
"""),
dict(id="b06-quantiles-stick", property="P20", needs="setting options a second time without explicit quantiles",
     breaks="assigning options keeps the previous quantiles when the new ones are the default",
     edits=[("cxxmetrics/publisher.hpp", '''        quantiles_ = std::move(other.quantiles_);
        count_ = other.count_;
        asdist_ = other.asdist_;
        return *this;
''', '''        if (other.quantiles_)
            quantiles_ = std::move(other.quantiles_);
        count_ = other.count_;
        asdist_ = other.asdist_;
        return *this;
''')], demo=REG + r'''
int main()
{
    metrics_registry<> r;
    r.publish_options(histogram_publish_options(quantile_options<quantile(75.0l)>()));
    r.publish_options(publish_options(histogram_publish_options(true)));
    int v[] = {1, 2, 3}; int n = 0;
    histogram_snapshot s(reservoir_snapshot(v, 3), 3);
    r.publish_options().histogram_options().quantiles()->visit(s, [&](const quantile &, metric_value &&) { ++n; });
    CHECK(n == 3);
}
'''),
dict(id="b07-has-null", property="P21", needs="the construction of metric data fails, then its presence is asked for",
     breaks="presence is answered from the map entry, which exists before the data does",
     edits=[("cxxmetrics/publisher_impl.hpp", "    return metric.template try_get_publish_data<TDataType>() != nullptr;", "    return metric.template has_publish_data<TDataType>();"),
            ("cxxmetrics/metrics_registry.hpp", """        return static_cast<TDataType*>(fnd->second.get());
    }

    template<typename TRepository>
    friend class metrics_registry;""", """        return static_cast<TDataType*>(fnd->second.get());
    }

    template<typename TDataType>
    bool has_publish_data() const
    {
        std::lock_guard<std::mutex> lock(pubdatalock_);
        return pubdata_.count(typeid(TDataType).name()) != 0;
    }

    template<typename TRepository>
    friend class metrics_registry;""")], demo=REG + r"""
struct d : basic_publish_options { explicit d(int x) { if (x < 0) throw x; } };
struct pub : metrics_publisher<default_repository> { using metrics_publisher<default_repository>::metrics_publisher; using metrics_publisher<default_repository>::get_data_for; using metrics_publisher<default_repository>::has_data_for; };
int main()
{
    metrics_registry<> r; r.counter("a"); pub p(r);
    try { p.get_data_for<d>(metric_path("a"), -1); } catch (int) { }
    CHECK(!p.has_data_for<d>(metric_path("a")));
    p.get_data_for<d>(metric_path("a"), 1);
    CHECK(p.has_data_for<d>(metric_path("a")));
}
"""),
dict(id="b08-assign-time", property="P14", needs="assigning an average whose last tick is later than the target's",
     breaks="assigning an average keeps the time of its previous tick",
     edits=[("cxxmetrics/ewma.hpp", "    last_ = c.last_;\n    return *this;", "    if (last_ < c.last_ && rate_.load() == TValue{})\n        last_ = c.last_;\n    return *this;")],
     demo=V + r'''
#include <cxxmetrics/ewma.hpp>
#include <cmath>
using namespace cxxmetrics;
long long now_ = 1000000000;
struct clk { std::chrono::steady_clock::time_point operator()() const { return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(now_)); } };
using E = internal::ewma<clk, time::seconds(60), time::seconds(1), double>;
int main()
{
    E b;
    now_ += 100000000000LL;
    E a; a.mark(5); now_ += 1000000000; a.mark(5); now_ += 1000000000;
    b = a;
    CHECK(std::fabs(a.rate() - b.rate()) < 1e-12);
}
'''),
dict(id="b09-meter-start", property="P16", needs="assigning a meter over one that was already marked at another time",
     breaks="an assigned meter keeps its old start, so its mean is wrong",
     edits=[("cxxmetrics/meter.hpp", "        start_ = c.start_;\n        total_.store", "        if (start_ == clock_point{})\n            start_ = c.start_;\n        total_.store")],
     demo=V + r'''
#include <cxxmetrics/meter.hpp>
#include <cmath>
using namespace cxxmetrics;
long long now_ = 1000000000;
struct clk { std::chrono::steady_clock::time_point operator()() const { return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(now_)); } };
using M = internal::_meter_impl<clk, time::seconds(1), time::minutes(1)>;
int main()
{
    M b{clk()}; b.mark(3);
    now_ += 10000000000LL;
    M a{clk()}; a.mark(8);
    now_ += 2000000000;
    b = a;
    CHECK(std::fabs(a.mean() - 4) < 1e-9);
    CHECK(std::fabs(b.mean() - 4) < 1e-9);
}
'''),
dict(id="b10-reset-cleared", property="P17", needs="a scope that is cleared and then reset before it ends",
     breaks="a scope reset after clear is never logged",
     edits=[("cxxmetrics/timer.hpp", "        start_ = timer_.clock().now();\n    }", "        start_.start = timer_.clock().now();\n    }")],
     demo=V + r'''
#include <cxxmetrics/timer.hpp>
#include <thread>
using namespace cxxmetrics;
int main()
{
    timer<> t;
    { auto s = scoped_timer(t); s.clear(); s.reset(); std::this_thread::sleep_for(std::chrono::milliseconds(2)); }
    CHECK(t.count() == 1);
}
'''),
dict(id="b11-ring-tail", property="P08", needs="more than 4096 values through one ring",
     breaks="the write position is folded back one step short after 4096 pushes",
     edits=[("cxxmetrics/ringbuf.hpp", '''    auto writeloc = tail_.fetch_add(1);
    data_[writeloc % TSize] = elem;
''', '''    auto writeloc = tail_.fetch_add(1);
    auto slot = writeloc % TSize;
    data_[slot] = elem;

    // keep the counter small
    if (writeloc >= 4096)
        tail_ = TSize + slot;
''')], demo=V + r'''
#include <array>
#include <cxxmetrics/simple_reservoir.hpp>
using namespace cxxmetrics;
int main()
{
    simple_reservoir<int, 8> r;
    for (int i = 0; i < 4100; ++i) r.update(i);
    auto s = r.snapshot();
    CHECK(s.min() == metric_value(4092));
    CHECK(s.max() == metric_value(4099));
}
'''),
dict(id="b12-uniform-dup", property="P10", needs="recording a value that is already held, past capacity",
     breaks="a full reservoir ignores values it already holds",
     edits=[("cxxmetrics/uniform_reservoir.hpp", '''    std::uniform_int_distribution<std::size_t> d(0, TSize - 1);
    elems_[d(gen_)] = value;
''', '''    std::uniform_int_distribution<std::size_t> d(0, TSize - 1);
    auto& slot = elems_[d(gen_)];
    for (const auto& e : elems_)
    {
        if (e == value)
            return;
    }
    slot = value;
''')], demo=V + r'''
#include <cxxmetrics/uniform_reservoir.hpp>
using namespace cxxmetrics;
int main()
{
    uniform_reservoir<int, 2> r;
    r.update(1); r.update(2);
    // a uniform sample of ones must end up holding nothing but ones
    for (int i = 0; i < 200; ++i) r.update(1);
    CHECK(r.snapshot().max() == metric_value(1));
}
'''),
dict(id="b13-window-edge", property="P11", needs="a value exactly as old as the window that is not the oldest one held",
     breaks="values exactly at the window's edge vanish, unless they are first",
     edits=[("cxxmetrics/sliding_window.hpp", '''            ++it_;
            while (it_ != end_ && it_->time() < min_)
                ++it_;
            return *this;
''', '''            do
                ++it_;
            while (it_ != end_ && it_->time() <= min_);
            return *this;
''')], demo=V + r'''
#include <array>
#include <cxxmetrics/sliding_window.hpp>
using namespace cxxmetrics;
long long now_ = 1000000000;
struct clk { std::chrono::steady_clock::time_point operator()() const { return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(now_)); } };
int main()
{
    sliding_window_reservoir<int, 8, clk> r(std::chrono::seconds(1));
    r.update(1); r.update(2);
    now_ += 1000000000;
    CHECK(r.snapshot().size() == 2);
}
'''),
dict(id="b14-mean-sum", property="P12", needs="samples whose sum does not fit their type",
     breaks="the mean is the sum in the samples' own type divided by their number",
     edits=[("cxxmetrics/snapshots.hpp", '''            auto vs = i + 1.0l;
            long double eratio = i / vs;
            long double nratio = 1.0l / vs;
            total = (total * metric_value(eratio)) + (values_[i] * metric_value(nratio));
        }

        return total;
''', '''            total += values_[i];
        }

        return total / metric_value(values_.size() * 1.0l);
''')], demo=V + r'''
#include <cxxmetrics/snapshots.hpp>
#include <cmath>
using namespace cxxmetrics;
int main()
{
    int v[] = {2000000000, 2000000000, 2000000000};
    reservoir_snapshot s(v, 3);
    CHECK(std::fabs((double)static_cast<double>(s.mean()) - 2e9) < 1);
}
'''),
dict(id="b15-timer-merge", property="P07", needs="merging a timer snapshot whose samples have expired but whose count has not",
     breaks="timer snapshots without samples are skipped, losing their count and rates",
     edits=[("cxxmetrics/snapshots.hpp", '''        histogram_snapshot::merge(other);
        meter_.merge(other.meter_);
''', '''        if (other.size() == 0)
            return;

        histogram_snapshot::merge(other);
        meter_.merge(other.meter_);
''' if False else '''        if (other.size())
            histogram_snapshot::merge(other);
        meter_.merge(other.meter_);
''')], demo=V + r'''
#include <cxxmetrics/snapshots.hpp>
using namespace cxxmetrics;
timer_snapshot mk(const int *v, std::size_t n, uint64_t c) { return timer_snapshot(histogram_snapshot(reservoir_snapshot(v, n), c), meter_snapshot(metric_value(1.0), {})); }
int main()
{
    int v[] = {1, 2};
    auto a = mk(v, 2, 2); a.merge(mk(v, 0, 5));
    CHECK(a.count() == 7);
}
'''),
]
