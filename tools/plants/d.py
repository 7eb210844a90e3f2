import runpy, os
_d = os.path.dirname(os.path.abspath(__file__))
_a = runpy.run_path(os.path.join(_d, "a.py"))
_b = runpy.run_path(os.path.join(_d, "b.py"))
V, REG, T, R, PROM = _a["V"], _a["REG"], _b["T"], _b["R"], _b["PROM"]
CLK = r'''
#include <chrono>
static long long now_ns = 1000000000LL;
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(nanoseconds(now_ns)); } } } }
'''
PLANTS = [
dict(id="d01-wide-gap", property="P12", needs="two neighbouring integer samples further apart than the integer range",
     breaks="the gap between neighbouring samples is taken in their own type, so it overflows before the interpolation",
     edits=[("cxxmetrics/snapshots.hpp", "        return values_[index - 1] + metric_value((pos - index) * (static_cast<long double>(values_[index]) - static_cast<long double>(values_[index - 1])));",
             "        return values_[index - 1] + metric_value((pos - index) * static_cast<long double>(values_[index] - values_[index - 1]));")],
     demo=REG + r'''
int main()
{
    using namespace cxxmetrics_literals;
    int64_t a[] = { INT64_MIN + 10, INT64_MAX - 9 };
    reservoir_snapshot s(a, 2);
    long double m = s.value<50_p>();
    CHECK(m > -1e15L && m < 1e15L);
}
'''),
dict(id="d02-assign-start", property="P16", needs="assigning a meter onto one that was already marked at another time",
     breaks="assignment keeps the start of the target, so the mean divides the new total by the wrong time",
     edits=[("cxxmetrics/meter.hpp", "        start_ = c.start_;\n        total_.store", "        if (start_ == clock_point{})\n            start_ = c.start_;\n        total_.store")],
     demo=CLK + REG + r'''
int main()
{
    using namespace cxxmetrics_literals;
    meter<time::seconds(1), time::minutes(1)> a, b;
    a.mark(100); now_ns += 10000000000LL; b.mark(6); now_ns += 2000000000LL; a = b;
    CHECK(b.mean() == 3 && a.mean() == 3);
}
'''),
dict(id="d03-negative-duration", property="P17", needs="a clock that goes backwards inside a scope, or a negative duration logged directly",
     breaks="negative durations are dropped like zero ones",
     edits=[("cxxmetrics/timer.hpp", "        if (duration.count()) {", "        if (duration > duration.zero()) {")],
     demo=REG + r'''
int main()
{
    timer<time::seconds(1), std::chrono::steady_clock, simple_reservoir<std::chrono::steady_clock::duration, 4>, time::minutes(1)> t;
    t.update(std::chrono::nanoseconds(-5));
    CHECK(t.count() == 1 && t.snapshot().size() == 1);
}
'''),
dict(id="d05-names-swapped", property="P03", needs="registering an existing metric at a path of another type and reading the error's names",
     breaks="the error of a refused registration names the requested type as the existing one and the other way round",
     edits=[("cxxmetrics/metrics_registry.hpp", "        throw metric_type_mismatch(l.type(), metric->metric_type());", "        throw metric_type_mismatch(metric->metric_type(), l.type());")],
     demo=REG + r'''
int main()
{
    metrics_registry<> r; r.counter("a"); auto g = std::make_shared<gauge<int>>(3);
    try { r.register_existing("a", g); return 2; }
    catch (const metric_type_mismatch& e) { CHECK(e.desired_metric_type() == g->metric_type() && e.existing_metric_type() != g->metric_type()); }
}
'''),
dict(id="d06-visit-goes-on", property="P05", needs="a handler that throws at one of several tag sets",
     breaks="the remaining tag sets are still visited before the exception is passed on",
     edits=[("cxxmetrics/metrics_registry.hpp", '''    for (auto& p : metrics_)
    {
        builder.construct(loc, p.first);
        try
        {
            loc->visit(p.second->snapshot());
        }
        catch (...)
        {
            loc->~snapshot_visitor();
            throw;
        }

        loc->~snapshot_visitor();
    }
''', '''    std::exception_ptr failed;
    for (auto& p : metrics_)
    {
        builder.construct(loc, p.first);
        try
        {
            loc->visit(p.second->snapshot());
        }
        catch (...)
        {
            if (!failed)
                failed = std::current_exception();
        }

        loc->~snapshot_visitor();
    }

    if (failed)
        std::rethrow_exception(failed);
''')],
     demo=REG + r'''
struct pub : metrics_publisher<default_repository> { using metrics_publisher<default_repository>::metrics_publisher; pub(metrics_registry<>& r) : metrics_publisher<default_repository>(r) {}
 template<typename H> void one(const metric_path& p, H&& h) { visit_one(p, std::forward<H>(h)); } };
int main()
{
    metrics_registry<> r; r.counter("a", {{"t", 1}}); r.counter("a", {{"t", 2}}); r.counter("a", {{"t", 3}});
    int n = 0; bool thrown = false;
    try { r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.visit([&](const tag_collection&, const auto&) { n++; throw 1; }); }); } catch (int) { thrown = true; }
    CHECK(thrown && n == 1);
}
'''),
dict(id="d07-tail-16", property="P08", needs="more than 65536 updates of a reservoir whose capacity is not a power of two",
     breaks="the write position wraps at 65536, which is no multiple of the capacity, so newer values survive in the wrong places",
     edits=[("cxxmetrics/ringbuf.hpp", "    std::atomic_uint_fast64_t tail_;", "    std::atomic_uint_least16_t tail_;"),
            ("cxxmetrics/ringbuf.hpp", "    auto writeloc = tail_.fetch_add(1);", "    std::size_t writeloc = tail_.fetch_add(1);")],
     demo=REG + r'''
int main()
{
    simple_reservoir<int64_t, 7> r;
    for (int i = 0; i < 65540; i++) r.update(i);
    auto s = r.snapshot();
    CHECK(s.size() == 7 && (int64_t)s.min() == 65533 && (int64_t)s.max() == 65539);
}
'''),
dict(id="d08-total-32", property="P16", needs="marks adding up to more than 32 bits",
     breaks="the lifetime total of a meter is kept in 32 bits",
     edits=[("cxxmetrics/meter.hpp", "    std::atomic_int_fast64_t total_;", "    std::atomic_int_least32_t total_;")],
     demo=CLK + REG + r'''
int main()
{
    meter<time::seconds(1), time::minutes(1)> a;
    a.mark(3000000000LL); a.mark(3000000000LL);
    CHECK(a.mean() == 6e9);
}
'''),
dict(id="d09-last-slot", property="P10", needs="many updates past capacity",
     breaks="the last held value is never replaced",
     edits=[("cxxmetrics/uniform_reservoir.hpp", "d(0, TSize - 1);", "d(0, TSize > 1 ? TSize - 2 : 0);")],
     demo=REG + r'''
int main()
{
    uniform_reservoir<int64_t, 4> r;
    for (int i = 0; i < 4; i++) r.update(1000000 + i);
    for (int i = 0; i < 5000; i++) r.update(i);
    CHECK((int64_t)r.snapshot().max() < 1000000);
}
'''),
dict(id="d10-expired-inside", property="P11", needs="an expired value recorded after a value that is still fresh (the clock went back in between)",
     breaks="only expired values at the front are left out",
     edits=[("cxxmetrics/sliding_window.hpp", '''            ++it_;
            while (it_ != end_ && it_->time() < min_)
                ++it_;
            return *this;''', '''            ++it_;
            return *this;''')],
     demo=CLK + REG + r'''
int main()
{
    sliding_window_reservoir<int64_t, 8> r(std::chrono::seconds(10));
    now_ns = 100000000000LL; r.update(1); now_ns = 90000000000LL; r.update(2); now_ns = 105000000000LL;
    auto s = r.snapshot();
    CHECK(s.size() == 1 && (int64_t)s.min() == 1);
}
'''),
dict(id="d11-int-intervals", property="P14", needs="an idle time of more than 2^31 intervals",
     breaks="the number of missed intervals overflows, so a very long idle time leaves the rate where it was or makes it grow",
     edits=[("cxxmetrics/ewma.hpp", "    auto intervals = (at - last) / period(TInterval);", "    int intervals = (at - last) / period(TInterval);")],
     demo=CLK + REG + r'''
int main()
{
    ewma<time::milliseconds(1), time::microseconds(1)> e;
    e.mark(1000); now_ns += 1000; (void)e.rate(); now_ns += 3000000000LL * 1000;
    CHECK(e.rate() < 1);
}
'''),
dict(id="d12-arguments", property="P20", needs="timer options with quantiles, a count and a mean flag that differ",
     breaks="the constructor with quantiles mixes up the count and mean flags",
     edits=[("cxxmetrics/publisher.hpp", '''            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, false, sf),
            meter_publish_options(publish_mean, sf),''', '''            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_mean, false, sf),
            meter_publish_options(publish_count, sf),''')],
     demo=REG + r'''
int main()
{
    using namespace cxxmetrics_literals;
    timer_publish_options o(quantile_options<50_p>(), true, false, true);
    CHECK(!o.include_count() && o.include_mean());
}
'''),
dict(id="d13-created-twice", property="P21", needs="two first requests for the same data of one metric at the same moment",
     breaks="the data is created outside the lock and stored afterwards, so a second creator replaces the object the first one was given",
     edits=[("cxxmetrics/metrics_registry.hpp", '''        std::lock_guard<std::mutex> lock(pubdatalock_);
        auto key = typeid(TDataType).name();
        auto& ptr = pubdata_[key];

        if (!ptr)
            ptr = std::make_unique<TDataType>(std::forward<TConstructArgs>(args)...);

        return static_cast<TDataType&>(*ptr);''', '''        auto key = typeid(TDataType).name();
        std::unique_lock<std::mutex> lock(pubdatalock_);
        auto existing = pubdata_.find(key);
        if (existing != pubdata_.end())
            return static_cast<TDataType&>(*existing->second);

        // build without holding the lock, constructors may be slow
        lock.unlock();
        auto created = std::make_unique<TDataType>(std::forward<TConstructArgs>(args)...);
        auto& result = *created;
        lock.lock();
        pubdata_[key] = std::move(created);

        return result;''')],
     demo=T + REG + r'''
#include <mutex>
#include <condition_variable>
#include <chrono>
static std::mutex m; static std::condition_variable cv; static int inside = 0;
struct data : basic_publish_options { int v; data(int x) : v(x) { std::unique_lock<std::mutex> l(m); inside++; cv.notify_all(); cv.wait_for(l, std::chrono::milliseconds(300), [] { return inside > 1; }); } };
struct pub : metrics_publisher<default_repository> { pub(metrics_registry<>& r) : metrics_publisher<default_repository>(r) {} data* get(const metric_path& p, int v) { return get_data_for<data>(p, v); } };
int main()
{
    metrics_registry<> r; r.counter("a"); pub p(r); data* got[2];
    std::thread a([&] { got[0] = p.get("a", 1); }), b([&] { got[1] = p.get("a", 2); }); a.join(); b.join();
    CHECK(got[0] == got[1]);
}
'''),
dict(id="d14-check-then-take", property="P09", needs="two updates of a uniform reservoir with one free slot at the same moment",
     breaks="the fill level is read before the slot is taken, so both updates take a slot and one writes past the last",
     edits=[("cxxmetrics/uniform_reservoir.hpp", '''    auto c = count_.fetch_add(1);

    if (c < TSize)
    {
        elems_[c] = value;
        return;
    }
''', '''    if (count_.load() < TSize)
    {
        elems_[count_.fetch_add(1)] = value;
        return;
    }
''')],
     demo=R + REG + r'''
int main()
{
    std::unique_ptr<uniform_reservoir<int64_t, 2>> s; auto fresh = [&] { s = std::make_unique<uniform_reservoir<int64_t, 2>>(); s->update(0); return true; };
    fresh();
    CHECK(rounds(2, 300000, [&](int, long) { s->update(0); }, [&](long) { return s->snapshot().size() == 2 && fresh(); }));
}
'''),
dict(id="d15-empty-count", property="P07", needs="merging a histogram whose samples have all expired",
     breaks="an input without samples contributes no count either",
     edits=[("cxxmetrics/snapshots.hpp", '''    void merge(const histogram_snapshot& other)
    {
''', '''    void merge(const histogram_snapshot& other)
    {
        if (other.size() == 0)
            return;

'''), ("cxxmetrics/snapshots.hpp", "            count_(std::move(count))", "            count_(count)")],
     demo=REG + r'''
int main()
{
    int64_t v[] = {1, 2};
    histogram_snapshot a(reservoir_snapshot(v, 2), 2), b(reservoir_snapshot(v, 0), 5);
    a.merge(b);
    CHECK(a.count() == 7 && a.size() == 2);
}
'''),
dict(id="d16-duration-double", property="P18", needs="two durations of different units that differ by less than a double can tell at their size",
     breaks="durations are compared as doubles of nanoseconds",
     edits=[("cxxmetrics/metric_value.hpp", "        return dur_ < n ? -1 : dur_ == n ? 0 : 1;", "        auto d = std::chrono::duration<double, std::nano>(dur_).count(), o = std::chrono::duration<double, std::nano>(n).count();\n        return d < o ? -1 : d == o ? 0 : 1;")],
     demo=REG + r'''
int main()
{
    metric_value a(std::chrono::seconds(1000000000LL)), b(std::chrono::nanoseconds(1000000000000000001LL));
    CHECK(a < b && !(a == b));
}
'''),
dict(id="d17-minus-in-place", property="P19", needs="subtracting in place a narrower unsigned value from a wider one",
     breaks="the in-place subtraction negates the right operand in its own type",
     edits=[("cxxmetrics/metric_value.hpp", "        value_ = (value_.subtract(other.value_));", "        value_ = (value_.add(other.value_.negate()));")],
     demo=REG + r'''
int main()
{
    metric_value a(int64_t(10)); a -= metric_value(uint32_t(3));
    CHECK((int64_t)a == 7);
}
'''),
dict(id="d19-micro-mean", property="P23", needs="a timer with sub-microsecond mean under a scale",
     breaks="the scale is applied before converting to microseconds and truncated",
     edits=[("cxxmetrics_prometheus/prometheus_timer.hpp", '''internal::scale_value(std::chrono::duration_cast<std::chrono::microseconds>(static_cast<std::chrono::nanoseconds>(value)), options.timer_options())''', '''std::chrono::duration_cast<std::chrono::microseconds>(static_cast<std::chrono::nanoseconds>(internal::scale_value(std::move(value), options.timer_options()))).count()''')],
     demo=PROM + r'''
int main()
{
    using namespace cxxmetrics_literals;
    metrics_registry<> r; auto t = r.timer<time::seconds(1), std::chrono::steady_clock, simple_reservoir<std::chrono::steady_clock::duration, 4>, time::minutes(1)>("a"); t->update(std::chrono::nanoseconds(2900));
    r.publish_options(publish_options(value_publish_options(), meter_publish_options(), histogram_publish_options(), timer_publish_options(quantile_options<50_p>(), true, true, true, scale_factor(1000.0))));
    cxxmetrics_prometheus::prometheus_publisher<default_repository> p(r); std::ostringstream o; p.write(o);
    CHECK(o.str().find("quantile=\"0.5\"} 2000.000000\n") != std::string::npos);
}
'''),
dict(id="d20-gives-up", property="P24", needs="a pop that loses the race for the head three times in a row",
     breaks="pop reports an empty stack when it lost the race for the head three times",
     edits=[("cxxmetrics/internal/atomic_lifo.hpp", '''                head_t next;
                while (h.nodev)
                {''', '''                head_t next;
                int attempts = 0;
                while (h.nodev)
                {
                    if (++attempts > 3)
                        return pointer_type(nullptr, alloc_);'''),
            ("cxxmetrics/internal/atomic_lifo.hpp", '''                auto h = head_.load(std::memory_order_relaxed);
                head_t next;''', '''                head_t h = head_.load(std::memory_order_relaxed);
                head_t next;''')],
     demo=R + r'''
#include <iterator>
#include <cxxmetrics/internal/atomic_lifo.hpp>
int main()
{
    cxxmetrics::internal::atomic_lifo<int> s;
    for (int i = 0; i < 16; i++) s.push(i);
    std::atomic<bool> empty(false);
    race(4, [&](int) { for (int k = 0; k < 400000 && !empty; k++) { auto p = s.pop(); if (!p) empty = true; else s.push(std::move(p)); } });
    CHECK(!empty);
}
'''),
dict(id="d21-same-object", property="P25", needs="assigning one handle to another handle of the same object, or to itself",
     breaks="the extra owner taken by the assignment is not given back, so the object is never destroyed",
     edits=[("cxxmetrics/pool.hpp", '''    auto ndat = cp.dat_.load();
    if (ndat && !ndat->add_reference())
        ndat = nullptr;

    auto odat = dat_.exchange(ndat);
    if (odat)
        odat->remove_reference();
''', '''    auto ndat = cp.dat_.load();
    if (ndat && !ndat->add_reference())
        ndat = nullptr;

    auto odat = dat_.exchange(ndat);
    if (odat && odat != ndat)
        odat->remove_reference();
''')],
     demo=V + r'''
#include <cxxmetrics/pool.hpp>
static int live = 0;
struct item { item() { live++; } item(const item&) { live++; } ~item() { live--; } };
int main()
{
    cxxmetrics::internal::pool<item> p;
    { auto a = p.allocate(); auto b = a; a = b; }
    CHECK(live == 0);
}
'''),
dict(id="d22-erased-head", property="P26", needs="removing the smallest element and inserting it again",
     breaks="an insertion that meets a removed but still linked node of the same value is refused",
     edits=[("cxxmetrics/skiplist.hpp", " && !locations[0].second->is_marked())\n        {", ")\n        {")],
     demo=V + r'''
#include <cxxmetrics/skiplist.hpp>
int main()
{
    cxxmetrics::skiplist<int, 8> s;
    for (int i = 0; i < 20; i++) { CHECK(s.insert(5)); CHECK(s.insert(6)); CHECK(s.erase(5)); CHECK(s.insert(5)); CHECK(s.erase(5)); CHECK(s.erase(6)); }
}
'''),
dict(id="d23-reference-mode", property="P28", needs="a gauge over a reference or pointer declared to aggregate by sum",
     breaks="a gauge over a variable always aggregates by average",
     edits=[("cxxmetrics/gauge.hpp", "class referential_gauge : public gauge<TRefType, TAggregation>", "class referential_gauge : public gauge<TRefType>")],
     demo=REG + r'''
int main()
{
    int a = 3, b = 4; gauge<int*, gauges::aggregation_sum> g(&a), h(&b);
    auto s = g.snapshot(); s.merge(h.snapshot());
    CHECK((int)s.value() == 7);
}
'''),
dict(id="d24-assign-by-difference", property="P01", needs="an assignment to a counter at the same moment as another update",
     breaks="an assignment adds the difference to a value read before",
     edits=[("cxxmetrics/counter.hpp", '''counter<TCount> &counter<TCount>::operator=(TCount value) noexcept
{
    value_ = value;''', '''counter<TCount> &counter<TCount>::operator=(TCount value) noexcept
{
    incr(value - this->value());''')],
     demo=R + r'''
#include <cxxmetrics/counter.hpp>
int main()
{
    cxxmetrics::counter<int64_t> c;
    CHECK(rounds(2, 300000, [&](int i, long r) { c = r * 2 + i; }, [&](long r) { return c.value() == r * 2 || c.value() == r * 2 + 1; }));
}
'''),
]
