// What the registry drivers share: metric types, paths, tags, snapshots, publish options and data.
#pragma once
#include "contents.hpp"
#include <functional>
#include <unordered_map>
#include <sstream>
#include <set>
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
#ifdef WITH_PROMETHEUS
#include <cxxmetrics_prometheus/prometheus_publisher.hpp>
#endif
using namespace cxxmetrics;
using namespace h;
namespace ct = cxxmetrics::time;
using registry = metrics_registry<>;
using any = std::shared_ptr<internal::metric>;

// ---- values -------------------------------------------------------------------------------------
double sources[8];
std::string hex(long double v) { char b[64]; std::snprintf(b, sizeof b, "%La", v); return b; }
std::string hexs(const std::string &s)
{
    if (s.empty()) return "-";
    std::string r; for (unsigned char c : s) { char b[4]; std::snprintf(b, sizeof b, "%02x", c); r += b; }
    return r;
}

// ---- paths: "a/b/c" of hex components, composed in the way asked for -----------------------------
std::vector<std::string> split(const std::string &s, char d)
{
    std::vector<std::string> r; std::string cur;
    for (char c : s) { if (c == d) { r.push_back(cur); cur.clear(); } else cur += c; }
    r.push_back(cur);
    return r;
}
std::string unhex(const std::string &t) { line l; l.w = {t}; return l.x(0); }
metric_path one(const std::string &c, int how)
{
    return how % 2 ? metric_path(std::string(c)) : c.find('\0') == std::string::npos ? metric_path(c.c_str(), c.size()) : metric_path(std::string(c));
}
metric_path path(const std::string &w, int how)
{
    auto c = split(w, '/');
    if (how % 3 == 2 && c.size() > 2)
    {   // right-nested
        metric_path p = one(unhex(c.back()), how);
        for (std::size_t i = c.size() - 1; i-- > 0;) p = one(unhex(c[i]), how) / p;
        return p;
    }
    metric_path p = one(unhex(c[0]), how);
    for (std::size_t i = 1; i < c.size(); ++i) p = p / one(unhex(c[i]), how);
    return p;
}
std::vector<std::string> comps(const std::string &w) { return split(w, '/'); }
std::vector<std::string> comps(const metric_path &p) { std::vector<std::string> r; for (auto &c : p) r.push_back(hexs(c)); return r; }

// ---- tags: "k=v,k=v" in hex, the first character of a key tells the type of its values -----------
// n: a number and its type ("u8:1"), w: a duration and its unit ("ms:1000")
metric_value typed(const std::string &ty, const std::string &v)
{
    long long n = std::strtoll(v.c_str(), nullptr, 10);
    if (ty == "i8") return metric_value((int8_t)n);
    if (ty == "u8") return metric_value((uint8_t)n);
    if (ty == "i16") return metric_value((int16_t)n);
    if (ty == "u16") return metric_value((uint16_t)n);
    if (ty == "i32") return metric_value((int32_t)n);
    if (ty == "u32") return metric_value((uint32_t)n);
    if (ty == "i64") return metric_value((int64_t)n);
    if (ty == "u64") return metric_value((uint64_t)std::strtoull(v.c_str(), nullptr, 10));
    if (ty == "f") return metric_value(std::strtof(v.c_str(), nullptr));
    if (ty == "d") return metric_value(std::strtod(v.c_str(), nullptr));
    if (ty == "ld") return metric_value(std::strtold(v.c_str(), nullptr));
    if (ty == "ns") return metric_value(std::chrono::nanoseconds(n));
    if (ty == "us") return metric_value(std::chrono::microseconds(n));
    if (ty == "ms") return metric_value(std::chrono::milliseconds(n));
    if (ty == "s") return metric_value(std::chrono::seconds(n));
    if (ty == "m") return metric_value(std::chrono::minutes(n));
    if (ty == "h") return metric_value(std::chrono::hours(n));
    std::abort();
}
metric_value tag_value(const std::string &k, const std::string &v)
{
    if (k == "nk" || k == "w") return typed(v.substr(0, v.find(':')), v.substr(v.find(':') + 1));
    if (k[0] == 'i') return metric_value((int64_t)std::strtoll(v.c_str(), nullptr, 10));
    if (k[0] == 'd') return metric_value(std::strtod(v.c_str(), nullptr));
    return metric_value(std::string(v));
}
std::vector<std::pair<std::string, std::string>> taglist(const std::string &w)
{
    std::vector<std::pair<std::string, std::string>> r;
    if (w == "-") return r;
    for (auto &kv : split(w, ',')) { auto p = split(kv, '='); r.push_back({unhex(p[0]), unhex(p[1])}); }
    return r;
}
tag_collection tags(const std::string &w, int how)
{
    auto l = taglist(w);
    std::vector<std::pair<const std::string, metric_value>> v;
    for (auto &p : l) v.push_back({p.first, tag_value(p.first, p.second)});
    if (how % 3 == 0 && v.size() == 0) return tag_collection();
    if (how % 3 == 0 && v.size() == 1) return tag_collection{v[0]};
    if (how % 3 == 0 && v.size() == 2) return tag_collection{v[0], v[1]};
    if (how % 3 == 0 && v.size() == 3) return tag_collection{v[0], v[1], v[2]};
    if (how % 3 == 1) { std::map<std::string, metric_value> m; for (auto &p : v) m.emplace(p.first, p.second); return tag_collection(m); }
    return tag_collection(v, how % 7);
}
std::string tag_text(const std::string &k, const metric_value &v)
{
    if (k == "nk") { char b[60]; std::snprintf(b, sizeof b, "%.25Lg", static_cast<long double>(v) + 0.0L); return b; }
    if (k == "w") { std::chrono::nanoseconds ns = v; return std::to_string((long long)ns.count()); }
    if (k[0] == 'i') return std::to_string((long long)static_cast<int64_t>(v));
    if (k[0] == 'd') { char b[40]; std::snprintf(b, sizeof b, "%.17g", (double)static_cast<double>(v)); return b; }
    return static_cast<std::string>(v);
}
// the value of a tag, however it is represented
std::string tag_canon(const std::string &k, const std::string &v) { return k == "nk" || k == "w" ? tag_text(k, tag_value(k, v)) : v; }
std::vector<raw> taglist_js(const std::string &w)
{
    std::vector<raw> r;
    for (auto &p : taglist(w)) r.push_back(raw{js(std::vector<std::string>{hexs(p.first), hexs(tag_canon(p.first, p.second))})});
    return r;
}
std::vector<raw> taglist_js(const tag_collection &t)
{
    std::vector<raw> r;
    for (auto &p : t) r.push_back(raw{js(std::vector<std::string>{hexs(p.first), hexs(tag_text(p.first, p.second))})});
    return r;
}

// ---- snapshots --------------------------------------------------------------------------------------
std::vector<std::string> items(const reservoir_snapshot &s)
{
    std::vector<std::string> r;
    for (auto v : contents(s)) r.push_back(std::to_string(v));
    return r;
}
void rates(const meter_snapshot &m, obj &o)
{
    std::map<long long, std::string> v; std::vector<std::string> w, x;
    for (auto &p : m)
        v[std::chrono::duration_cast<std::chrono::nanoseconds>(p.first).count()] = hex(static_cast<long double>(p.second));
    for (auto &p : v) { w.push_back(std::to_string(p.first)); x.push_back(p.second); }
    o("windows", w)("rates", x);
}
obj snap_js(const cumulative_value_snapshot &s) { obj o; o("k", "cum")("v", hex(static_cast<long double>(s.value()))); return o; }
obj snap_js(const average_value_snapshot &s) { obj o; o("k", "avg")("v", hex(static_cast<long double>(s.value()))); return o; }
obj snap_js(const meter_snapshot &s) { obj o; o("k", "meter")("v", hex(static_cast<long double>(s.value()))); rates(s, o); return o; }
obj snap_js(const histogram_snapshot &s) { obj o; o("k", "hist")("cnt", s.count())("items", items(s)); return o; }
obj snap_js(const timer_snapshot &s)
{
    obj o; o("k", "timer")("cnt", s.count())("items", items(s))("mean", hex(static_cast<long double>(s.rate().value())));
    rates(s.rate(), o); return o;
}

// ---- metric types -----------------------------------------------------------------------------------
template<class C> void apply(counter<C> &c, long long v) { c += (C)v; }
template<period::value W, period::value I, class V> void apply(ewma<W, I, V> &e, long long v) { e.mark(v); }
template<class V, gauges::gauge_aggregation_type A> void apply(gauge<V, A> &g, long long v) { g.set((V)v); }
template<class V, gauges::gauge_aggregation_type A> void apply(gauge<V *, A> &, long long) { }
template<class V, gauges::gauge_aggregation_type A> void apply(gauge<V &, A> &, long long) { }
template<class V, gauges::gauge_aggregation_type A> void apply(gauge<std::function<V()>, A> &, long long) { }
template<class E, class R> void apply(histogram<E, R> &x, long long v) { x.update((E)v); }
template<period::value I, period::value... W> void apply(meter<I, W...> &m, long long v) { m.mark(v); }
template<period::value I, class C, class R, period::value... W> void apply(timer<I, C, R, W...> &t, long long v)
{ t.update(std::chrono::duration_cast<typename C::duration>(std::chrono::nanoseconds(v))); }

struct type
{
    std::string canon, name;
    virtual ~type() = default;
    virtual any get(registry &r, const metric_path &p, const tag_collection &t, long long init) = 0;
    virtual any make(long long init) = 0;
    virtual bool reg(registry &r, const metric_path &p, const tag_collection &t, const any &m) = 0;
    virtual void upd(const any &m, long long v) = 0;
    virtual obj snap(const any &m) = 0;
};
template<class M> struct type_of : type
{
    using G = std::function<std::shared_ptr<M>(registry &, const metric_path &, const tag_collection &, long long)>;
    using K = std::function<std::shared_ptr<M>(long long)>;
    G g; K k;
    type_of(G g_, K k_) : g(g_), k(k_) { }
    any get(registry &r, const metric_path &p, const tag_collection &t, long long init) override { return g(r, p, t, init); }
    any make(long long init) override { return k(init); }
    bool reg(registry &r, const metric_path &p, const tag_collection &t, const any &m) override
    { return r.register_existing(p, std::static_pointer_cast<M>(m), t); }
    void upd(const any &m, long long v) override { apply(static_cast<M &>(*m), v); }
    obj snap(const any &m) override { return snap_js(static_cast<M &>(*m).snapshot()); }
};
std::map<std::string, std::unique_ptr<type>> types;
std::map<std::string, std::string> canon_of;   // type name -> label

template<class M, class G, class K> void add(const char *label, const char *canon, G g, K k)
{
    auto *t = new type_of<M>(g, k);
    t->canon = canon; t->name = t->make(1)->metric_type();
    if (label == std::string(canon)) { canon_of[t->name] = canon; }
    types[label].reset(t);
}
template<class M> std::shared_ptr<M> fresh(long long) { return std::make_shared<M>(); }
using func = std::function<double()>;
func source_fn(long long s) { double *p = &sources[s]; return [p] { return *p; }; }

template<class V, gauges::gauge_aggregation_type A> void add_gauge(const char *label)
{
    using M = gauge<V, A>;
    add<M>(label, label, [](registry &r, const metric_path &p, const tag_collection &t, long long i) { return r.gauge<V, A>(p, (V)i, t); },
           [](long long i) { return std::make_shared<M>((V)i); });
}
template<gauges::gauge_aggregation_type A> void add_sources(const char *f, const char *p_, const char *r_)
{
    add<gauge<func, A>>(f, f, [](registry &r, const metric_path &p, const tag_collection &t, long long i) { return r.gauge<func, A>(p, source_fn(i), t); },
        [](long long i) { return std::make_shared<gauge<func, A>>(source_fn(i)); });
    add<gauge<double *, A>>(p_, p_, [](registry &r, const metric_path &p, const tag_collection &t, long long i) { return r.gauge<double *, A>(p, &sources[i], t); },
        [](long long i) { return std::make_shared<gauge<double *, A>>(&sources[i]); });
    add<gauge<double &, A>>(r_, r_, [](registry &r, const metric_path &p, const tag_collection &t, long long i) { return r.gauge<double &, A>(p, sources[i], t); },
        [](long long i) { return std::make_shared<gauge<double &, A>>(sources[i]); });
}
template<class C> void add_counter(const char *label)
{
    add<counter<C>>(label, label, [](registry &r, const metric_path &p, const tag_collection &t, long long i) {
            return i == 0 ? r.counter<C>(p, t) : r.counter<C>(p, (C)i, t); },
        [](long long i) { return std::make_shared<counter<C>>((C)i); });
}
template<class R> void add_hist(const char *label)
{
    using M = histogram<typename R::value_type, R>;
    add<M>(label, label, [](registry &r, const metric_path &p, const tag_collection &t, long long) { return r.histogram<R>(p, R(), t); },
        [](long long) { return std::make_shared<M>(R()); });
}
struct hw_reservoir : sliding_window_reservoir<int64_t, 5>
{
    hw_reservoir() : sliding_window_reservoir<int64_t, 5>(std::chrono::hours(1)) { }
};
template<period::value I, period::value... W> void add_meter(const char *label, const char *canon)
{
    add<meter<I, W...>>(label, canon, [](registry &r, const metric_path &p, const tag_collection &t, long long) { return r.meter<I, W...>(p, t); },
        fresh<meter<I, W...>>);
}
template<period::value W, period::value I> void add_ewma(const char *label)
{
    add<ewma<W, I>>(label, label, [](registry &r, const metric_path &p, const tag_collection &t, long long) { return r.ewma<W, I>(p, t); }, fresh<ewma<W, I>>);
}
template<class R, period::value I, period::value... W> void add_timer(const char *label)
{
    using C = std::chrono::steady_clock; using M = timer<I, C, R, W...>;
    add<M>(label, label, [](registry &r, const metric_path &p, const tag_collection &t, long long) { return r.timer<I, C, R, W...>(p, R(), t); },
        fresh<M>);
}
#ifndef FEW_TYPES
void define_types()
{
    using ns = std::chrono::steady_clock::duration;
    constexpr auto S = gauges::aggregation_sum; constexpr auto A = gauges::aggregation_average;
    add_counter<int64_t>("c64"); add_counter<int32_t>("c32");
    add_ewma<ct::minutes(1), ct::seconds(1)>("e1"); add_ewma<ct::minutes(5), ct::seconds(1)>("e2"); add_ewma<ct::minutes(1), ct::seconds(5)>("e3");
    add_gauge<double, A>("g"); add_gauge<int64_t, A>("gi"); add_gauge<double, S>("gs"); add_gauge<int64_t, S>("gis");
    add_sources<A>("gf", "gp", "gr"); add_sources<S>("gfs", "gps", "grs");
    add_hist<uniform_reservoir<int64_t, 1024>>("hu"); add_hist<simple_reservoir<int64_t, 4>>("hl"); add_hist<hw_reservoir>("hw");
    add_meter<ct::seconds(1), ct::minutes(1), ct::minutes(5)>("m1", "m1");
    add_meter<ct::seconds(1), ct::minutes(5), ct::minutes(1), ct::minutes(5)>("m1b", "m1");
    add_meter<ct::seconds(1), ct::minutes(1)>("m2", "m2"); add_meter<ct::seconds(5), ct::minutes(1), ct::minutes(5)>("m3", "m3");
    add_timer<uniform_reservoir<ns, 1024>, ct::seconds(1), ct::minutes(1)>("t1");
    add_timer<simple_reservoir<ns, 4>, ct::seconds(1), ct::minutes(1)>("t2");
    add_timer<uniform_reservoir<ns, 1024>, ct::seconds(1), ct::minutes(1), ct::minutes(5)>("t3");
#ifdef WITH_PROMETHEUS
    add_meter<ct::seconds(1), ct::microseconds(7), ct::microseconds(2500), ct::milliseconds(1500), ct::seconds(45), ct::seconds(90), ct::minutes(90), ct::hours(36)>("m4", "m4");
    add_meter<ct::milliseconds(250), ct::microseconds(1000), ct::milliseconds(60000), ct::minutes(60), ct::hours(2)>("m5", "m5");
    add_timer<simple_reservoir<ns, 7>, ct::seconds(1), ct::seconds(90), ct::hours(1), ct::milliseconds(10)>("t4");
#endif
}
#endif
std::string label(const std::string &name) { auto f = canon_of.find(name); return f == canon_of.end() ? "?" + name : f->second; }

// ---- publish options --------------------------------------------------------------------------------
using qa = quantile_options<quantile(50.0l), quantile(25.0l)>;
using qb = quantile_options<quantile(99.9l), quantile(50.0l), quantile(99.9l), quantile(10.0l)>;
using qc = quantile_options<quantile(75.0l)>;
const std::vector<int> qlists[] = {{}, {50000, 25000}, {99900, 50000, 99900, 10000}, {75000}};
struct opt_spec
{   // "m:mean=0;sc=2" and so on
    std::map<std::string, std::string> f;
    bool has(const char *k) const { return f.count(k) != 0; }
    bool b(const char *k) const { return f.at(k) == "1"; }
    scale_factor sc() const { return scale_factor(std::strtod(f.at("sc").c_str(), nullptr)); }
    int q() const { return std::atoi(f.at("q").c_str()); }
};
meter_publish_options meter_opts(const opt_spec &s)
{
    if (s.has("mean")) return s.has("sc") ? meter_publish_options(s.b("mean"), s.sc()) : meter_publish_options(s.b("mean"));
    return s.has("sc") ? meter_publish_options(s.sc()) : meter_publish_options();
}
template<class Q> histogram_publish_options hist_q(const opt_spec &s)
{
    if (s.has("sc")) return histogram_publish_options(Q(), s.b("cnt"), s.b("dist"), s.sc());
    if (s.has("dist")) return histogram_publish_options(Q(), s.b("cnt"), s.b("dist"));
    if (s.has("cnt")) return histogram_publish_options(Q(), s.b("cnt"));
    return histogram_publish_options(Q());
}
histogram_publish_options hist_opts(const opt_spec &s)
{
    if (s.has("q")) return s.q() == 1 ? hist_q<qa>(s) : s.q() == 2 ? hist_q<qb>(s) : hist_q<qc>(s);
    if (s.has("dist")) return s.has("sc") ? histogram_publish_options(s.b("cnt"), s.b("dist"), s.sc()) : histogram_publish_options(s.b("cnt"), s.b("dist"));
    if (s.has("cnt")) return s.has("sc") ? histogram_publish_options(s.b("cnt"), s.sc()) : histogram_publish_options(s.b("cnt"));
    return s.has("sc") ? histogram_publish_options(s.sc()) : histogram_publish_options();
}
template<class Q> timer_publish_options timer_q(const opt_spec &s)
{
    if (s.has("mean")) return s.has("sc") ? timer_publish_options(Q(), s.b("rates"), s.b("cnt"), s.b("mean"), s.sc()) : timer_publish_options(Q(), s.b("rates"), s.b("cnt"), s.b("mean"));
    if (s.has("cnt")) return s.has("sc") ? timer_publish_options(Q(), s.b("rates"), s.b("cnt"), s.sc()) : timer_publish_options(Q(), s.b("rates"), s.b("cnt"));
    return timer_publish_options(Q(), s.b("rates"));
}
timer_publish_options timer_opts(const opt_spec &s)
{
    if (s.has("q")) return s.q() == 1 ? timer_q<qa>(s) : s.q() == 2 ? timer_q<qb>(s) : timer_q<qc>(s);
    if (s.has("mean")) return s.has("sc") ? timer_publish_options(s.b("rates"), s.b("cnt"), s.b("mean"), s.sc()) : timer_publish_options(s.b("rates"), s.b("cnt"), s.b("mean"));
    if (s.has("cnt")) return s.has("sc") ? timer_publish_options(s.b("rates"), s.b("cnt"), s.sc()) : timer_publish_options(s.b("rates"), s.b("cnt"));
    if (s.has("rates")) return s.has("sc") ? timer_publish_options(s.b("rates"), s.sc()) : timer_publish_options(s.b("rates"));
    return timer_publish_options();
}
// parses words from i on; fills the "given" record for the trace
publish_options build_opts(const line &l, std::size_t i, int how, obj &ev)
{
    std::map<std::string, opt_spec> part; obj given;
    for (; i < l.w.size(); ++i)
    {
        auto a = split(l.s(i), ':'); obj g; opt_spec &s = part[a[0]];
        for (auto &kv : split(a[1], ';'))
        {
            auto b = split(kv, '=');
            if (b.size() != 2) continue;
            s.f[b[0]] = b[1];
            if (b[0] == "sc") g("sc", hex(std::strtod(b[1].c_str(), nullptr)));
            else if (b[0] == "q") g("q", qlists[std::atoi(b[1].c_str())]);
            else g(b[0].c_str(), b[1] == "1");
        }
        if (!s.f.empty()) given(a[0].c_str(), g);
    }
    if (given.s.size() == 1) given("none", true);
    ev("given", given);
    value_publish_options v = part.count("value") && part["value"].has("sc") ? value_publish_options(part["value"].sc()) : value_publish_options();
    meter_publish_options m = meter_opts(part["meter"]);
    histogram_publish_options hh = hist_opts(part["hist"]);
    timer_publish_options t = timer_opts(part["timer"]);
    // assigning over something else must leave nothing of it behind
    if (how & 1) { value_publish_options v2(scale_factor(7)); v2 = v; v = v2; meter_publish_options m2(false, scale_factor(7)); m2 = m; m = m2; }
    if (how & 2) { histogram_publish_options h2(qc(), false, true, scale_factor(9)); h2 = std::move(hh); hh = std::move(h2); }
    if (how & 4) { timer_publish_options t2(qc(), false, false, false, scale_factor(9)); t2 = std::move(t); t = std::move(t2); }
    bool nov = !part.count("value"), nom = !part.count("meter"), noh = !part.count("hist");
    auto mk = [&]() -> publish_options {
        if (nov && nom && noh && (how & 8)) return publish_options(std::move(t));
        if (nov && nom && (how & 8)) return publish_options(std::move(hh), std::move(t));
        if (nov && (how & 8)) return publish_options(std::move(m), std::move(hh), std::move(t));
        return publish_options(std::move(v), std::move(m), std::move(hh), std::move(t));
    };
    publish_options o = mk();
    if (how & 16) { publish_options o2(std::move(o)); publish_options o3(value_publish_options(scale_factor(3))); o3 = std::move(o2); return o3; }
    return o;
}
std::string scale(const value_publish_options &v) { return v.scale() ? hex(v.scale().factor()) : "-"; }
std::vector<int> quantiles_of(const histogram_publish_options &o)
{
    std::vector<int> v{1, 2, 3};
    histogram_snapshot s(reservoir_snapshot(v.data(), v.size()), 3);
    std::vector<int> r;
    o.quantiles()->visit(s, [&](const quantile &q, metric_value &&) { r.push_back((int)std::lround((double)q.percentile() * 1000)); });
    return r;
}
obj opts_js(const publish_options &p)
{
    obj o, v, m, hh, t;
    v("sc", scale(p.value_options()));
    m("sc", scale(p.meter_options()))("mean", p.meter_options().include_mean());
    hh("sc", scale(p.histogram_options()))("q", quantiles_of(p.histogram_options()))("cnt", p.histogram_options().include_count())("dist", p.histogram_options().as_distribution());
    auto &x = p.timer_options();
    t("sc", scale(x))("q", quantiles_of(x))("cnt", x.include_count())("dist", x.as_distribution())("mean", x.include_mean())("rates", x.include_rates());
    return o("value", v)("meter", m)("hist", hh)("timer", t);
}

// ---- publisher data -----------------------------------------------------------------------------------
template<int N> struct datum : basic_publish_options
{
    std::string arg;
    explicit datum(const std::string &a) : arg(a) { if (a == "bad") throw std::runtime_error("bad"); }
    datum() : arg("default") { }
};
struct pub : metrics_publisher<default_repository>
{
    using base = metrics_publisher<default_repository>;
    using base::base; using base::effective_options; using base::get_data; using base::get_data_for; using base::has_data_for;
    using base::has_metric; using base::metric_type; using base::visit_one; using base::visit_all;
};
struct thrown { };
struct total_of
{
    long double &sum;
    void operator()(const cumulative_value_snapshot &s) const { sum = static_cast<long double>(s.value()); }
    template<class S> void operator()(const S &) const { }
};

template<int N> std::pair<void *, std::string> data(pub &p, const std::string &a)
{ auto &d = a == "default" ? p.get_data<datum<N>>() : p.get_data<datum<N>>(a); return {&d, d.arg}; }
template<int N> std::pair<void *, std::string> data_for(pub &p, const metric_path &m, const std::string &a, bool visiting)
{
    datum<N> *d = nullptr;
    if (visiting) p.visit_one(m, [&](const metric_path &, basic_registered_metric &x) { d = &p.get_data_for<datum<N>>(x, a); });
    else d = a == "default" ? p.get_data_for<datum<N>>(m) : p.get_data_for<datum<N>>(m, a);
    return {d, d ? d->arg : ""};
}
template<int N> bool has_data(pub &p, const metric_path &m, bool visiting)
{
    if (!visiting) return p.has_data_for<datum<N>>(m);
    bool r = false;
    p.visit_one(m, [&](const metric_path &, basic_registered_metric &x) { r = p.has_data_for<datum<N>>(x); });
    return r;
}

