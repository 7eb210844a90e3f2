// Counters, reservoirs, histograms, averages, meters and timers under many threads.
#include "conc.hpp"
#include <cxxmetrics/counter.hpp>
#include <cxxmetrics/histogram.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
#include <cxxmetrics/ewma.hpp>
#include <cxxmetrics/meter.hpp>
#include <cxxmetrics/timer.hpp>
using namespace cxxmetrics;
namespace ct = cxxmetrics::time;
namespace conc {

std::string hex(long double v) { char b[64]; std::snprintf(b, sizeof b, "%La", v); return b; }

template<class C> struct counters : world
{
    std::map<int, std::unique_ptr<counter<C>>> c;
    void exec(const std::string &op, const line &l, std::size_t i, event &ev, obj &o) override
    {
        int hd = (int)l.n(i);
        o("h", hd);
        C a = (C)std::strtoll(l.s(i + 1).c_str(), nullptr, 10);
        if (std::is_unsigned<C>::value) a = (C)l.u(i + 1);
        if (op == "cnew") { call(ev, [&] { c[hd].reset(new counter<C>(a)); }); o("init", std::to_string(a))("ty", l.s(i + 2)); return; }
        auto &x = *c[hd];
        C r{};
        bool has = true;
        if (op == "incr") call(ev, [&] { r = x.incr(a); });
        else if (op == "addas") { call(ev, [&] { x += a; }); has = false; }
        else if (op == "subas") { call(ev, [&] { x -= a; }); has = false; }
        else if (op == "preinc") { call(ev, [&] { ++x; }); has = false; }
        else if (op == "predec") { call(ev, [&] { --x; }); has = false; }
        else if (op == "postinc") call(ev, [&] { r = x++; });
        else if (op == "set") { call(ev, [&] { x = a; }); has = false; }
        else if (op == "cval") call(ev, [&] { r = x.value(); });
        else if (op == "csnap") { call(ev, [&] { auto s = x.snapshot(); rt::quiet q; r = static_cast<C>(s.value()); }); }
        else std::abort();
        if (op == "incr" || op == "addas" || op == "subas" || op == "set") o("by", std::to_string(a));
        if (has) o("ret", std::to_string(r));
    }
};

inline uint64_t count_of(reservoir_snapshot &) { return 0; }
template<class R> struct reservoirs : world
{
    R r;
    void exec(const std::string &op, const line &l, std::size_t i, event &ev, obj &o) override
    {
        if (op == "upd") { int64_t v = l.n(i); call(ev, [&] { r.update(v); }); o("v", (long long)v); }
        else
        {
            std::vector<int64_t> c;
            call(ev, [&] { auto s = r.snapshot(); rt::quiet q; for (auto v : contents(s)) c.push_back(v); });
            std::vector<long long> x(c.begin(), c.end()); std::sort(x.begin(), x.end());
            o("ret", x);
        }
    }
};
template<class R> struct histos : world
{
    histogram<int64_t, R> r;
    void exec(const std::string &op, const line &l, std::size_t i, event &ev, obj &o) override
    {
        if (op == "upd") { int64_t v = l.n(i); call(ev, [&] { r.update(v); }); o("v", (long long)v); }
        else if (op == "count") { unsigned long n = 0; call(ev, [&] { n = r.count(); }); o("cnt", n); }
        else
        {
            std::vector<int64_t> c; unsigned long n = 0;
            call(ev, [&] { auto s = r.snapshot(); rt::quiet q; n = s.count(); for (auto v : contents(s)) c.push_back(v); });
            std::vector<long long> x(c.begin(), c.end()); std::sort(x.begin(), x.end());
            o("ret", x)("cnt", n);
        }
    }
};

// ---- averages: interval 1 s, the clock in milliseconds ---------------------------------------------------
struct timed : world
{
    timed() { steady_ns = 1000000000000ll; }
    bool clock(const std::string &op, const line &l, std::size_t i, event &ev, obj &o)
    {
        if (op != "clock") return false;
        call(ev, [&] { steady_ns = 1000000000000ll + l.n(i) * 1000000ll; });
        o("t", l.n(i));
        return true;
    }
};
template<class E> struct averages : timed
{
    std::unique_ptr<E> e;
    void exec(const std::string &op, const line &l, std::size_t i, event &ev, obj &o) override
    {
        if (clock(op, l, i, ev, o)) return;
        o("h", 1);
        if (op == "new") call(ev, [&] { e.reset(new E()); });
        else if (op == "mark") { auto a = l.n(i); call(ev, [&] { e->mark(a); }); o("amt", std::to_string(a)); }
        else
        {
            bool c = l.n(i) != 0; long double v = 0;
            call(ev, [&] { v = c ? static_cast<const E &>(*e).rate() : e->rate(); });
            o("w", 1)("const", c)("val", hex(v));
        }
    }
};
template<class S> void rates_of(const S &s, obj &ev)
{
    std::map<long long, std::string> m; std::vector<long long> keys; std::vector<std::string> vals;
    for (auto &p : s) m[std::chrono::duration_cast<std::chrono::microseconds>(p.first).count()] = hex(static_cast<long double>(p.second));
    for (auto &p : m) { keys.push_back(p.first); vals.push_back(p.second); }
    ev("keys", keys)("rates", vals)("mean", hex(static_cast<long double>(s.value())));
}
template<class M> struct meters_ : timed
{
    std::unique_ptr<M> m;
    void exec(const std::string &op, const line &l, std::size_t i, event &ev, obj &o) override
    {
        if (clock(op, l, i, ev, o)) return;
        o("h", 1);
        if (op == "new") call(ev, [&] { m.reset(new M()); });
        else if (op == "mark") { auto a = l.n(i); call(ev, [&] { m->mark(a); }); o("amt", std::to_string(a)); }
        else
        {
            bool c = l.n(i) != 0;
            call(ev, [&] {
                if (c) { auto s = static_cast<const M &>(*m).snapshot(); rt::quiet q; rates_of(s, o); }
                else { auto s = m->snapshot(); rt::quiet q; rates_of(s, o); } });
            o("const", c);
        }
    }
};
struct tick_clock
{
    using duration = std::chrono::microseconds;
    using time_point = std::chrono::time_point<tick_clock, duration>;
    long long *t = nullptr;
    time_point now() const { return time_point(duration(t ? *t : -1)); }
};
template<class T, class R> struct timers : timed
{
    long long tc = 5000;
    std::unique_ptr<T> t;
    std::map<int, std::unique_ptr<scoped_timer_t<T>>> scopes;
    void exec(const std::string &op, const line &l, std::size_t i, event &ev, obj &o) override
    {
        if (clock(op, l, i, ev, o)) return;
        o("h", 1);
        if (op == "new") call(ev, [&] { tick_clock c; c.t = &tc; t.reset(new T(R(), std::move(c))); });
        else if (op == "log") { auto d = l.n(i); call(ev, [&] { t->update(tick_clock::duration(d)); }); o("dur", d); }
        else
        {
            bool c = l.n(i) != 0;
            call(ev, [&] {
                auto s = c ? static_cast<const T &>(*t).snapshot() : t->snapshot();
                rt::quiet q; rates_of(s.rate(), o);
                o("count", s.count())("cnt2", t->count())("samples", contents(s)); });
            o("const", c);
        }
    }
};

world *make(const std::map<std::string, std::string> &cfg)
{
    auto k = cfg.at("kind");
    if (k == "counter")
    {
        auto t = cfg.at("ty");
        if (t == "i64") return new counters<int64_t>;
        if (t == "i32") return new counters<int32_t>;
        if (t == "u8") return new counters<uint8_t>;
        if (t == "i16") return new counters<int16_t>;
        return new counters<uint64_t>;
    }
    auto c = cfg.count("cap") ? std::atoi(cfg.at("cap").c_str()) : 0;
    using S = std::chrono::steady_clock;
    if (k == "last") return c == 2 ? (world *)new reservoirs<simple_reservoir<int64_t, 2>> : c == 3 ? (world *)new reservoirs<simple_reservoir<int64_t, 3>>
        : c == 4 ? (world *)new reservoirs<simple_reservoir<int64_t, 4>> : (world *)new reservoirs<simple_reservoir<int64_t, 8>>;
    if (k == "uniform") return c == 2 ? (world *)new reservoirs<uniform_reservoir<int64_t, 2>> : (world *)new reservoirs<uniform_reservoir<int64_t, 4>>;
    if (k == "window") return c == 2 ? (world *)new reservoirs<sliding_window_reservoir<int64_t, 2>> : (world *)new reservoirs<sliding_window_reservoir<int64_t, 4>>;
    if (k == "hlast") return c == 2 ? (world *)new histos<simple_reservoir<int64_t, 2>> : (world *)new histos<simple_reservoir<int64_t, 4>>;
    if (k == "huniform") return c == 2 ? (world *)new histos<uniform_reservoir<int64_t, 2>> : (world *)new histos<uniform_reservoir<int64_t, 4>>;
    if (k == "hwindow") return new histos<sliding_window_reservoir<int64_t, 4>>;
    if (k == "ewma") return c == 1 ? (world *)new averages<ewma<ct::seconds(10)>> : c == 2 ? (world *)new averages<ewma<ct::minutes(1), ct::seconds(1), int64_t>>
        : (world *)new averages<ewma<ct::minutes(5), ct::seconds(1), float>>;
    if (k == "meter") return c == 1 ? (world *)new meters_<meter<ct::seconds(1), ct::minutes(1)>> : (world *)new meters_<meter<ct::seconds(1), ct::minutes(5), ct::seconds(10), ct::minutes(1)>>;
    if (k == "timer")
    {
        using R = simple_reservoir<tick_clock::duration, 16>; using U = uniform_reservoir<tick_clock::duration, 16>;
        return c == 1 ? (world *)new timers<timer<ct::seconds(1), tick_clock, R, ct::minutes(1)>, R>
            : (world *)new timers<timer<ct::seconds(1), tick_clock, U, ct::minutes(1), ct::minutes(5)>, U>;
    }
    std::abort();
}
}
int main() { return conc::main_loop(); }
