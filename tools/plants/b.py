import runpy, os
_a = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
V, REG = _a["V"], _a["REG"]
# a barrier for demonstrations with threads
T = V + r'''
#include <thread>
#include <atomic>
#include <vector>
#include <functional>
#include <array>
#include <algorithm>
#include <set>
#include <cstdint>
template<typename F> void race(int n, F f)
{
    std::atomic<int> ready(0);
    std::vector<std::thread> ts;
    for (int i = 0; i < n; i++)
        ts.emplace_back([&, i] { ready++; while (ready < n); f(i); });
    for (auto& t : ts) t.join();
}
'''
# many rounds on the same threads; between(round) runs alone after each round and returns false to stop
R = T + r'''
template<typename F, typename G> bool rounds(int n, long count, F f, G between)
{
    std::atomic<long> go(0), done(0); std::atomic<bool> bad(false);
    std::vector<std::thread> ts;
    for (int i = 0; i < n; i++)
        ts.emplace_back([&, i] { for (long r = 1; r <= count; r++) { while (go < r); f(i, r); done++; } });
    for (long r = 1; r <= count; r++) { go = r; while (done < r * n); if (!bad && !between(r)) bad = true; }
    for (auto& t : ts) t.join();
    return !bad;
}
'''
PROM = REG + r'''
#include <sstream>
#include <cxxmetrics_prometheus/prometheus_publisher.hpp>
'''
PLANTS = [
dict(id="c01-postfix-ticket", property="P01", needs="two threads post-incrementing one counter at the same moment",
     breaks="the postfix increment reads the counter before and separately from incrementing it, so two callers get the same number",
     edits=[("cxxmetrics/counter.hpp", "        return incr(1) - 1;", "        TCount before = value();\n        incr(1);\n        return before;")],
     demo=R + r'''
#include <cxxmetrics/counter.hpp>
int main()
{
    cxxmetrics::counter<int64_t> c;
    std::atomic<int64_t> got[2];
    CHECK(rounds(2, 300000, [&](int i, long) { got[i] = c++; }, [&](long r) { return got[0] != got[1] && got[0] + got[1] == 4 * r - 3; }));
}
'''),
dict(id="c02-ring-size", property="P09", needs="two updates of a reservoir that is not yet full, the earlier one publishing its size after the later one",
     breaks="the number of stored values is stored rather than raised, so it can go back and hide values already recorded",
     edits=[("cxxmetrics/ringbuf.hpp", '''        if (size_.compare_exchange_weak(csize, writeloc, std::memory_order_release, std::memory_order_acquire))
            return;
    }''', '''        size_.store(writeloc, std::memory_order_release);
        return;
    }''')],
     demo=R + r'''
#include <cxxmetrics/ringbuf.hpp>
int main()
{
    std::unique_ptr<cxxmetrics::internal::ringbuf<int, 8>> b(new cxxmetrics::internal::ringbuf<int, 8>());
    CHECK(rounds(4, 300000, [&](int i, long) { b->push(i); }, [&](long) { bool ok = b->size() == 4; b.reset(new cxxmetrics::internal::ringbuf<int, 8>()); return ok; }));
}
'''.replace("#include <cxxmetrics/ringbuf.hpp>", "#include <memory>\n#include <cxxmetrics/ringbuf.hpp>")),
dict(id="c03-ring-wrap", property="P09", needs="an update taking the last position before the wrap while another takes the one after it",
     breaks="the position is wound back with a plain store, which forgets positions handed out meanwhile: the next update overwrites a newer value",
     edits=[("cxxmetrics/ringbuf.hpp", '''    auto writeloc = tail_.fetch_add(1);
    data_[writeloc % TSize] = elem;

    if (++writeloc > TSize)
        writeloc = TSize;
''', '''    uint_fast64_t writeloc = tail_.fetch_add(1);
    if (writeloc + 1 == 2 * TSize)
        tail_.store(TSize); // keeps the number small
    data_[writeloc % TSize] = elem;

    if (++writeloc > TSize)
        writeloc = TSize;
''')],
     demo=R + r'''
#include <memory>
#include <cxxmetrics/ringbuf.hpp>
int main()
{
    using ring = cxxmetrics::internal::ringbuf<int, 4>;
    std::unique_ptr<ring> b;
    auto fresh = [&] { b.reset(new ring()); for (int i = 0; i < 7; i++) b->push(100 + i); };
    fresh();
    CHECK(rounds(3, 300000, [&](int i, long) { b->push(i); }, [&](long) {
        b->push(50);
        int seen = 0;
        for (auto it = b->begin(); it != b->end(); ++it) if (*it <= 50) seen++;
        fresh();
        return seen == 4; }));
}
'''),
dict(id="c04-histogram-count", property="P13", needs="two threads updating one histogram at the same moment",
     breaks="the count is read and written back in two steps",
     edits=[("cxxmetrics/histogram.hpp", "        ++count_;\n", "        count_ = count_.value() + 1;\n")],
     demo=R + r'''
#include <cxxmetrics/histogram.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
using namespace cxxmetrics;
int main()
{
    histogram<int64_t, simple_reservoir<int64_t, 4>> h{simple_reservoir<int64_t, 4>()};
    CHECK(rounds(3, 200000, [&](int i, long) { h.update(i); }, [&](long r) { return h.count() == (uint64_t)(3 * r); }));
}
'''),
dict(id="c05-lifo-tag", property="P24", needs="a pop overtaken by two pops and a push that bring the same node back to the top",
     breaks="neither push nor pop advances the tag of the head any more, so a stalled pop installs a node that left the stack",
     edits=[("cxxmetrics/internal/atomic_lifo.hpp", '''                while (true)
                {
                    next.aba = h.aba + 1;
                    list_node''', '''                while (true)
                {
                    next.aba = h.aba;
                    list_node'''), ("cxxmetrics/internal/atomic_lifo.hpp", '''                    next.aba = h.aba + 1;
                    next.nodev =''', '''                    next.aba = h.aba;
                    next.nodev =''')],
     demo=V + r'''
#include <functional>
#include <iterator>
#include <cxxmetrics/internal/atomic_lifo.hpp>
std::function<void()> hook;
struct node
{
    int v; node* n = nullptr;
    node(int v = 0) : v(v) { }
    node* next() const { auto r = n; if (hook) { auto h = std::move(hook); hook = nullptr; h(); } return r; }
    void set_next(node* x) { n = x; }
};
int main()
{
    cxxmetrics::internal::atomic_lifo<node> l;
    l.push(l.make_pointer(1)); l.push(l.make_pointer(2)); l.push(l.make_pointer(3));
    auto keep = l.pop();       // 3; the stack is 2, 1
    decltype(l.pop()) one;
    hook = [&] { auto two = l.pop(); one = l.pop(); l.push(std::move(keep)); l.push(std::move(two)); };   // now 2, 3
    auto a = l.pop();
    CHECK(a->v == 2);
    auto b = l.pop();
    CHECK(&*b != nullptr && b->v == 3);
    b.release();
}
'''),
dict(id="c06-pool-finish", property="P25", needs="an object whose end makes another one be allocated from the same pool, or another thread allocating right then",
     breaks="the storage goes back to the free list before the object in it is destroyed",
     edits=[("cxxmetrics/pool.hpp", '''        data->value().~TValue();
        if (!active_)
        {
''', '''        if (!active_)
        {
            data->value().~TValue();
'''), ("cxxmetrics/pool.hpp", '''            if (!active_)
            {
                a_.deallocate(data, 1);
                return;
            }
''', '''            if (!active_)
            {
                data->value().~TValue();
                a_.deallocate(data, 1);
                return;
            }
'''), ("cxxmetrics/pool.hpp", '''                break;
        }
#else
''', '''                break;
        }

        data->value().~TValue();
#else
        data->value().~TValue();
''')],
     demo=V + r'''
#include <set>
#include <cxxmetrics/pool.hpp>
std::set<const void*> live; bool twice = false; bool again = false;
struct thing;
cxxmetrics::internal::pool<thing>* pool_; 
struct thing
{
    int v;
    thing(int v = 0) : v(v) { if (!live.insert(this).second) twice = true; }
    thing(const thing& o) : v(o.v) { if (!live.insert(this).second) twice = true; }
    ~thing();
};
cxxmetrics::internal::pool_ptr<thing> other;
thing::~thing()
{
    if (v == 1 && again) { again = false; other = pool_->allocate(thing(2)); }
    live.erase(this);
}
int main()
{
    cxxmetrics::internal::pool<thing> p; pool_ = &p;
    {
        auto a = p.allocate(thing(1));
        again = true;
    }
    CHECK(!twice);
    CHECK(other && other->v == 2 && live.count(&*other));
    other = nullptr;
}
'''),
dict(id="c07-join-trailing", property="P27", needs="a component that ends with the delimiter",
     breaks="the joined text leaves out the delimiter after such a component",
     edits=[("cxxmetrics/metric_path.hpp", '''        result += delim;
        result += paths_[i];''', '''        if (delim.empty() || result.size() < delim.size() || result.compare(result.size() - delim.size(), delim.size(), delim))
            result += delim;
        result += paths_[i];''')],
     demo=V + r'''
#include <cxxmetrics/metric_path.hpp>
using namespace cxxmetrics;
int main()
{
    CHECK((metric_path("a") / metric_path("b")).join("/") == "a/b");
    CHECK((metric_path("a/") / metric_path("b")).join("/") == "a//b");
    CHECK((metric_path("x") / metric_path("::") / metric_path("b")).join("::") == "x::::::b");
}
'''),
dict(id="c08-gauge-referent", property="P28", needs="assigning one reference gauge to another one with a different source",
     breaks="assigning a gauge that reads a reference writes through to the referent instead of changing the source",
     edits=[("cxxmetrics/gauge.hpp", "    value_ = copy.value_.get();\n", "    value_.get() = copy.value_.get();\n")],
     demo=V + r'''
#include <functional>
#include <cxxmetrics/gauge.hpp>
using namespace cxxmetrics;
int main()
{
    int a = 1, b = 2;
    gauge<int&> x(a), y(b);
    x = y;
    CHECK(a == 1 && x.get() == 2);
    b = 7;
    CHECK(x.get() == 7 && y.get() == 7);
    a = 9;
    CHECK(x.get() == 7);
}
'''),
dict(id="c09-float-compare", property="P18", needs="a double against an integer that no double equals, beyond 2^53",
     breaks="the other number is rounded to the type of the floating point one before comparing",
     edits=[("cxxmetrics/metric_value.hpp", "        auto fv = other.to_float(&valid);\n        if (!valid)\n            return -1;\n\n        return val_ < fv ? -1 : val_ == fv ? 0 : 1;", "        auto fv = other.to_float(&valid);\n        if (!valid)\n            return -1;\n\n        auto rv = static_cast<T>(fv);\n        return val_ < rv ? -1 : val_ == rv ? 0 : 1;")],
     demo=V + r'''
#include <cxxmetrics/metric_value.hpp>
using namespace cxxmetrics;
int main()
{
    CHECK(metric_value(2.0) < metric_value(3));
    CHECK(metric_value(9007199254740992.0) < metric_value((int64_t)9007199254740993LL));
    CHECK(!(metric_value(9007199254740992.0) == metric_value((int64_t)9007199254740993LL)));
}
'''),
dict(id="c10-text-unsigned", property="P19", needs="text of a number beyond the largest signed one, converted to an unsigned integer",
     breaks="positive text is parsed as signed and saturates",
     edits=[("cxxmetrics/metric_value.hpp", "        auto res = strtoull(val_.c_str(), &end, 10);", "        auto res = strtoll(val_.c_str(), &end, 10);")],
     demo=V + r'''
#include <cxxmetrics/metric_value.hpp>
using namespace cxxmetrics;
int main()
{
    CHECK(static_cast<uint64_t>(metric_value("42")) == 42);
    CHECK(static_cast<uint64_t>(metric_value("18446744073709551615")) == 18446744073709551615ull);
}
'''),
dict(id="c11-static-comma", property="P22", needs="an untagged histogram published before a tagged one in the same process",
     breaks="whether a separator is needed before the tags is decided once for all histograms",
     edits=[("cxxmetrics_prometheus/prometheus_histogram.hpp", '''        const char* comma = "";
        if (tags.begin() != tags.end())
            comma = ",";
''', '''        static const char* comma = tags.begin() != tags.end() ? "," : "";
''')],
     demo=PROM + r'''
int main()
{
    std::ostringstream o;
    { metrics_registry<> r; r.histogram("h", simple_reservoir<int64_t, 4>())->update(3); cxxmetrics_prometheus::prometheus_publisher<default_repository> p(r); p.write(o); }
    { metrics_registry<> r; r.histogram("h", simple_reservoir<int64_t, 4>(), {{"k", 1}})->update(3); cxxmetrics_prometheus::prometheus_publisher<default_repository> p(r); p.write(o); }
    CHECK(o.str().find("quantile=\"0.5\",k=\"1\"") != std::string::npos);
    CHECK(o.str().find("\"k=") == std::string::npos);
}
'''),
dict(id="c12-rate-scale", property="P23", needs="a meter published with a scale of its own",
     breaks="the windows of a meter are scaled with the options of plain values",
     edits=[("cxxmetrics_prometheus/prometheus_meter.hpp", "internal::scale_value(cxxmetrics::metric_value(window.second), options.meter_options())", "internal::scale_value(cxxmetrics::metric_value(window.second), options.value_options())")],
     demo=PROM + r'''
int main()
{
    metrics_registry<> r;
    auto m = r.meter<time::hours(1), time::hours(2)>("m");
    m->mark(8);
    r.publish_options("m", publish_options(meter_publish_options(true, scale_factor(10.0))));
    std::ostringstream o;
    cxxmetrics_prometheus::prometheus_publisher<default_repository> p(r); p.write(o);
    CHECK(o.str().find("window=\"2hr\"} 80.0") != std::string::npos);
}
'''),
dict(id="c13-equal-not-equivalent", property="P26", needs="a comparison under which different values are equivalent",
     breaks="a duplicate is recognised by equality of the values instead of the set's own ordering",
     edits=[("cxxmetrics/skiplist.hpp", "        if (locations[0].second && !cmp_(value, locations[0].second->value()) && !locations[0].second->is_marked())", "        if (locations[0].second && value == locations[0].second->value() && !locations[0].second->is_marked())")],
     demo=V + r'''
#include <cxxmetrics/skiplist.hpp>
struct tens { bool operator()(int a, int b) const { return a / 10 < b / 10; } };
int main()
{
    cxxmetrics::skiplist<int, 16, tens> l;
    CHECK(l.insert(11)); CHECK(!l.insert(11)); CHECK(l.insert(25));
    CHECK(!l.insert(12));
    int n = 0; for (auto i = l.begin(); i != l.end(); ++i) n++;
    CHECK(n == 2);
}
'''),
dict(id="c14-adopt-race", property="P04", needs="two threads registering an existing metric at the same place at the same moment",
     breaks="the metric is built before the lock is taken for good, so both registrations report that theirs was adopted",
     edits=[("cxxmetrics/metrics_registry.hpp", '''    std::lock_guard<std::mutex> lock(lock_);
    auto res = metrics_.find(tags);

    if (res != metrics_.end())
        return std::static_pointer_cast<internal::metric>(res->second);

    return std::static_pointer_cast<internal::metric>(
            metrics_.emplace(tags, static_cast<basic_metric_builder<TMetricType>*>(metricbuilder)->build()).first->second);
''', '''    {
        std::lock_guard<std::mutex> lock(lock_);
        auto res = metrics_.find(tags);
        if (res != metrics_.end())
            return std::static_pointer_cast<internal::metric>(res->second);
    }

    // don't hold up the others while building
    auto built = static_cast<basic_metric_builder<TMetricType>*>(metricbuilder)->build();
    std::lock_guard<std::mutex> lock(lock_);
    return std::static_pointer_cast<internal::metric>(metrics_.emplace(tags, std::move(built)).first->second);
''')],
     demo=R + REG.replace(V, "") + r'''
int main()
{
    metrics_registry<> r;
    std::atomic<int> adopted(0);
    CHECK(rounds(4, 60000, [&](int i, long n) {
        if (r.register_existing("a", std::make_shared<counter<int64_t>>(i), {{"k", n}})) adopted++;
    }, [&](long n) { return adopted == n; }));
}
'''),
dict(id="c15-two-instances", property="P02", needs="two threads asking for the same new metric at the same moment",
     breaks="the lock is released between looking for a metric and storing the new one, so the second caller replaces the first one's metric",
     edits=[("cxxmetrics/metrics_registry.hpp", '''    std::lock_guard<std::mutex> lock(lock_);
    auto res = metrics_.find(tags);

    if (res != metrics_.end())
        return std::static_pointer_cast<internal::metric>(res->second);

    return std::static_pointer_cast<internal::metric>(
            metrics_.emplace(tags, static_cast<basic_metric_builder<TMetricType>*>(metricbuilder)->build()).first->second);
''', '''    std::unique_lock<std::mutex> lock(lock_);
    auto res = metrics_.find(tags);

    if (res != metrics_.end())
        return std::static_pointer_cast<internal::metric>(res->second);

    lock.unlock();
    auto built = static_cast<basic_metric_builder<TMetricType>*>(metricbuilder)->build();
    lock.lock();
    metrics_[tags] = built;
    return std::static_pointer_cast<internal::metric>(built);
''')],
     demo=R + REG.replace(V, "") + r'''
int main()
{
    metrics_registry<> r;
    CHECK(rounds(4, 60000, [&](int i, long n) { ++*r.counter("a", {{"k", n}}); }, [&](long n) { return r.counter("a", {{"k", n}})->value() == 4; }));
}
'''),
dict(id="c16-data-replaced", property="P21", needs="two threads asking for the same publisher data of a metric for the first time",
     breaks="the check that the data exists and its creation are no longer one step; the second creation destroys what the first caller holds",
     edits=[("cxxmetrics/metrics_registry.hpp", '''        std::lock_guard<std::mutex> lock(pubdatalock_);
        auto key = typeid(TDataType).name();
        auto& ptr = pubdata_[key];

        if (!ptr)
            ptr = std::make_unique<TDataType>(std::forward<TConstructArgs>(args)...);

        return static_cast<TDataType&>(*ptr);
''', '''        auto existing = try_get_publish_data<TDataType>();
        if (existing)
            return *existing;

        auto made = std::make_unique<TDataType>(std::forward<TConstructArgs>(args)...);
        std::lock_guard<std::mutex> lock(pubdatalock_);
        auto& ptr = pubdata_[typeid(TDataType).name()];
        ptr = std::move(made);
        return static_cast<TDataType&>(*ptr);
''')],
     demo=R + REG.replace(V, "") + r'''
std::atomic<int> gone(0);
struct data : basic_publish_options { int v; data(int v = 0) : v(v) { } ~data() { gone++; } };
struct pub : metrics_publisher<default_repository>
{
    pub(metrics_registry<default_repository>& r) : metrics_publisher<default_repository>(r) { }
    data* of(const metric_path& p) { return this->get_data_for<data>(p, 1); }
};
int main()
{
    metrics_registry<> r; pub p(r);
    r.counter("m1");
    std::atomic<data*> got[4];
    CHECK(rounds(4, 40000, [&](int i, long n) { got[i] = p.of("m" + std::to_string(n)); },
          [&](long n) { r.counter("m" + std::to_string(n + 1)); return got[0] == got[1] && got[1] == got[2] && got[2] == got[3] && gone == 0; }));
}
'''),
dict(id="c17-options-once", property="P20", needs="setting the options of one metric a second time",
     breaks="options of a metric are only taken when there are none yet",
     edits=[("cxxmetrics/metrics_registry.hpp", "    l->template get_or_create_publish_data<cxxmetrics::publish_options>() = std::move(options);", "    l->template get_or_create_publish_data<cxxmetrics::publish_options>(std::move(options));")],
     demo=REG + r'''
struct pub : metrics_publisher<default_repository>
{
    pub(metrics_registry<default_repository>& r) : metrics_publisher<default_repository>(r) { }
    double scale() { double f = 0; this->visit_all([&](const metric_path&, basic_registered_metric& m) { f = this->effective_options(m).value_options().scale().factor(); }); return f; }
};
int main()
{
    metrics_registry<> r; pub p(r);
    r.counter("a");
    r.publish_options("a", publish_options(value_publish_options(scale_factor(2.0))));
    CHECK(p.scale() == 2.0);
    r.publish_options("a", publish_options(value_publish_options(scale_factor(3.0))));
    CHECK(p.scale() == 3.0);
}
'''),
dict(id="c18-window-not-assigned", property="P11", needs="assigning one sliding window to another of a different length",
     breaks="assignment copies the values but keeps the old window length",
     edits=[("cxxmetrics/sliding_window.hpp", "    clock_ = other.clock_;\n    window_ = other.window_;\n", "    clock_ = other.clock_;\n")],
     demo=V + r'''
#include <array>
#include <cxxmetrics/sliding_window.hpp>
static long now_ = 0;
struct clk { long operator()() const { return now_; } };
int main()
{
    cxxmetrics::sliding_window_reservoir<int, 4, clk> a(10), b(100);
    now_ = 1000; b.update(5);
    a = b;
    now_ = 1050;
    CHECK(b.snapshot().size() == 1);
    CHECK(a.snapshot().size() == 1);
}
'''),
dict(id="c20-add-lost", property="P15", needs="two threads marking one floating point average at the same moment",
     breaks="adding to the open interval is a load and a store",
     edits=[("cxxmetrics/ewma.hpp", '''            if (a.compare_exchange_weak(v1, v2))
                break;
''', '''            a.store(v2);
            break;
''')],
     demo=R + r'''
#include <cmath>
#include <cxxmetrics/ewma.hpp>
using namespace cxxmetrics;
struct clk { std::chrono::steady_clock::time_point operator()() const { return std::chrono::steady_clock::time_point(std::chrono::seconds(5)); } };
int main()
{
    internal::ewma<clk, time::seconds(60), time::seconds(5)> e{clk()};
    CHECK(rounds(3, 200000, [&](int i, long) { e.mark(1); }, [&](long r) { return e.rate() == 3.0 * r; }));
}
'''),
dict(id="c21-total-lost", property="P15", needs="two threads marking one meter at the same moment",
     breaks="the lifetime total of a meter is read and written back in two steps",
     edits=[("cxxmetrics/meter.hpp", "        total_ += by;\n", "        total_ = total_ + by;\n")],
     demo=R + r'''
#include <cmath>
#include <cxxmetrics/meter.hpp>
using namespace cxxmetrics;
struct clk { std::chrono::steady_clock::time_point operator()() const { return std::chrono::steady_clock::time_point(std::chrono::seconds(5)); } };
int main()
{
    internal::_meter_impl<clk, time::seconds(5), time::seconds(60)> m{clk()};
    CHECK(rounds(3, 200000, [&](int i, long) { m.mark(1); }, [&](long r) { return m.mean() == 3.0 * r; }));
}
'''),
dict(id="c22-foreign-exception", property="P17", needs="timing a call that throws something not derived from std::exception",
     breaks="only standard exceptions cancel the measurement",
     edits=[("cxxmetrics/timer.hpp", '''        catch (...)
        {
            tm.clear();
            throw;
        }
''', '''        catch (const std::exception&)
        {
            tm.clear();
            throw;
        }
''')],
     std="17", demo=V + r'''
#include <array>
#include <thread>
#include <functional>
#include <cxxmetrics/timer.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
using namespace cxxmetrics;
int main()
{
    timer<time::seconds(1), std::chrono::steady_clock, simple_reservoir<std::chrono::steady_clock::duration, 4>> t;
    try { t.time([]() { std::this_thread::sleep_for(std::chrono::milliseconds(1)); throw 3; }); } catch (int) { }
    CHECK(t.count() == 0);
}
'''),
]
