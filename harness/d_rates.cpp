// Driver for moving averages, meters and timers under virtual time.
#include "contents.hpp"
#include <unordered_map>
#include <cxxmetrics/ewma.hpp>
#include <cxxmetrics/meter.hpp>
#include <cxxmetrics/timer.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
using namespace cxxmetrics;
using namespace h;
namespace ct = cxxmetrics::time;

std::string hex(long double v) { char b[64]; std::snprintf(b, sizeof b, "%La", v); return b; }

// a clock that is an object: every instance tells the time of the script it was made for
struct inst_clock
{
    using duration = std::chrono::microseconds;
    using time_point = std::chrono::time_point<inst_clock, duration>;
    const long long *t = nullptr;
    time_point now() const { return time_point(duration(t ? *t : -1)); }
};
long long timer_clock = 0;      // reading of the timers' own clock, in its units

struct thrown { };

struct subject
{
    virtual ~subject() = default;
    virtual void mark(const line &, std::size_t) { std::abort(); }
    virtual long double read(int w, bool c) = 0;
    virtual void snap(bool c, obj &ev) = 0;
    virtual subject *copy() = 0;
    virtual void assign(subject &o) = 0;
    virtual void log(long long) { }
    virtual std::unique_ptr<struct scope_base> open() { std::abort(); }
    virtual void time(long long, long long, bool, bool, bool, obj &) { }
};
struct scope_base
{
    virtual ~scope_base() = default;
    virtual void reset() = 0; virtual void clear() = 0;
    virtual std::unique_ptr<scope_base> move() = 0;
    virtual void close_throwing() = 0;
};

template<class E, class V> struct avg : subject
{
    E e;
    avg() = default; avg(const avg &) = default;
    void mark(const line &l, std::size_t i) override { if (l.s(i + 1) == "d") e.mark(l.d(i)); else e.mark(l.n(i)); }
    long double read(int, bool c) override { return c ? static_cast<const E &>(e).rate() : e.rate(); }
    void snap(bool c, obj &ev) override
    {
        long double v = static_cast<long double>(c ? static_cast<const E &>(e).snapshot().value() : e.snapshot().value());
        ev("rates", std::vector<std::string>{hex(v)})("mean", "0");
    }
    subject *copy() override { return new avg(*this); }
    void assign(subject &o) override { e = static_cast<avg &>(o).e; }
};

template<class S> void rates_of(const S &s, obj &ev)
{
    std::map<long long, std::string> m; std::vector<long long> keys; std::vector<std::string> vals;
    for (auto &p : s) m[std::chrono::duration_cast<std::chrono::microseconds>(p.first).count()] = hex(static_cast<long double>(p.second));
    for (auto &p : m) { keys.push_back(p.first); vals.push_back(p.second); }
    ev("keys", keys)("rates", vals)("mean", hex(static_cast<long double>(s.value())));
}

template<class M, period::value... W> struct met : subject
{
    M m;
    met() = default; met(const met &) = default;
    void mark(const line &l, std::size_t i) override { if (l.n(i) == 1) m.mark(); else m.mark(l.n(i)); }
    template<period::value X> static double get(M &m, bool c) { return c ? static_cast<const M &>(m).template rate<X>().rate : m.template rate<X>().rate; }
    long double read(int w, bool c) override
    {
        using f = double (*)(M &, bool); static const f t[] = {&get<W>...};
        return t[w - 1](m, c);
    }
    void snap(bool c, obj &ev) override { if (c) rates_of(static_cast<const M &>(m).snapshot(), ev); else rates_of(m.snapshot(), ev); }
    subject *copy() override { return new met(*this); }
    void assign(subject &o) override { m = static_cast<met &>(o).m; }
};

template<class T> struct scp : scope_base
{
    scoped_timer_t<T> s;
    explicit scp(T &t) : s(scoped_timer(t)) { }
    explicit scp(scoped_timer_t<T> &&o) : s(std::move(o)) { }
    void reset() override { s.reset(); }
    void clear() override { s.clear(); }
    std::unique_ptr<scope_base> move() override { return std::unique_ptr<scope_base>(new scp(std::move(s))); }
    void close_throwing() override
    {
        try { scoped_timer_t<T> local(std::move(s)); throw thrown(); } catch (thrown &) { }
    }
};

template<class T, period::value... W> struct tim : subject
{
    std::unique_ptr<T> t;
    explicit tim(T *p) : t(p) { }
    template<period::value X> static double get(T &m, bool) { return m.template rate<X>().rate; }
    long double read(int w, bool c) override
    {
        using f = double (*)(T &, bool); static const f tb[] = {&get<W>...};
        return tb[w - 1](*t, c);
    }
    void snap(bool c, obj &ev) override
    {
        auto s = c ? static_cast<const T &>(*t).snapshot() : t->snapshot();
        rates_of(s.rate(), ev);
        ev("count", s.count())("cnt2", t->count())("samples", contents(s));
    }
    subject *copy() override { return new tim(new T(*t)); }
    void assign(subject &o) override { *t = *static_cast<tim &>(o).t; }
    void log(long long d) override { t->update(typename T::duration(d)); }
    std::unique_ptr<scope_base> open() override { return std::unique_ptr<scope_base>(new scp<T>(*t)); }
    void time(long long dur, long long adv, bool throws, bool incl, bool isvoid, obj &ev) override
    {
        int calls = 0; long long result = -1; bool threw = false;
        auto work = [&] { ++calls; timer_clock += dur; system_ns += dur; steady_ns += adv; if (throws) throw thrown(); };
        auto f = [&]() -> long long { work(); return 42 + dur; };
        auto g = [&]() { work(); };
        try
        {
            if (isvoid) { if (incl) t->template time<decltype(g), true>(g); else t->time(g); result = 42 + dur; }
            else result = incl ? t->template time<decltype(f), true>(f) : t->time(f);
        }
        catch (thrown &) { threw = true; }
        ev("threw", threw)("result", result)("expect", 42 + dur)("calls", calls);
    }
};

subject *make(const std::string &v)
{
    if (v == "E1") return new avg<ewma<ct::milliseconds(10), ct::milliseconds(1)>, double>();
    if (v == "E2") return new avg<ewma<ct::minutes(1)>, double>();
    if (v == "E3") return new avg<ewma<ct::minutes(15), ct::seconds(5)>, double>();
    if (v == "E4") return new avg<ewma<ct::seconds(1), ct::seconds(5)>, double>();
    if (v == "E5") return new avg<ewma<ct::seconds(5), ct::seconds(1)>, double>();
    if (v == "E6") return new avg<ewma<ct::milliseconds(100), ct::microseconds(1)>, double>();
    if (v == "M1") return new met<meter<ct::seconds(1), ct::minutes(1), ct::minutes(5), ct::minutes(15)>, ct::minutes(1), ct::minutes(5), ct::minutes(15)>();
    if (v == "M2") return new met<meter<ct::milliseconds(1), ct::milliseconds(10), ct::milliseconds(5), ct::milliseconds(10)>, ct::milliseconds(5), ct::milliseconds(10)>();
    if (v == "M3") return new met<meter<ct::seconds(5), ct::seconds(60), ct::seconds(1), ct::seconds(60), ct::seconds(1)>, ct::seconds(1), ct::seconds(60)>();
    if (v == "M4") return new met<meter<ct::seconds(1), ct::seconds(10)>, ct::seconds(10)>();
    if (v == "T1")
    {
        using R = simple_reservoir<inst_clock::duration, 4>; using T = timer<ct::seconds(1), inst_clock, R, ct::minutes(1), ct::seconds(5)>;
        inst_clock c; c.t = &timer_clock;
        return new tim<T, ct::seconds(5), ct::minutes(1)>(new T(R(), std::move(c)));
    }
    if (v == "T2")
    {
        using T = timer<ct::milliseconds(1), std::chrono::system_clock, uniform_reservoir<std::chrono::system_clock::duration, 1024>, ct::milliseconds(10)>;
        return new tim<T, ct::milliseconds(10)>(new T());
    }
    if (v == "T3")
    {
        using R = simple_reservoir<inst_clock::duration, 3>; using T = timer<ct::seconds(5), inst_clock, R, ct::seconds(1), ct::seconds(60), ct::seconds(1)>;
        inst_clock c; c.t = &timer_clock;
        return new tim<T, ct::seconds(1), ct::seconds(60)>(new T(R(), std::move(c)));
    }
    std::abort();
}

int main()
{
    std::vector<line> sc; trace tr;
    while (next_script(sc))
    {
        std::map<int, std::unique_ptr<subject>> o;
        std::map<int, std::unique_ptr<scope_base>> s;
        std::string variant; long long unit = 1, base = 0; bool sysclk = false;
        for (auto &l : sc)
        {
            obj ev; const std::string &op = l.op(); ev("op", op);
            auto setc = [&](long long c) { timer_clock = c; if (sysclk) system_ns = c; };
            int hd = (int)l.n(1);
            if (op == "cfg")
            {   // cfg variant unit base
                variant = l.s(1); unit = l.n(2); base = l.n(3); sysclk = variant == "T2";
                steady_ns = base; setc(l.n(4));
                ev("variant", variant)("unit", unit);
            }
            else if (op == "clock") { steady_ns = base + l.n(1) * unit; ev("t", l.n(1)); }
            else if (op == "new") { o[hd].reset(make(variant)); ev("h", hd); }
            else if (op == "mark") { o[hd]->mark(l, 2); ev("h", hd)("amt", l.s(2)); }
            else if (op == "read") { bool c = l.n(3) != 0; ev("h", hd)("w", l.n(2))("const", c)("val", hex(o[hd]->read((int)l.n(2), c))); }
            else if (op == "snap") { bool c = l.n(2) != 0; ev("h", hd)("const", c); o[hd]->snap(c, ev); }
            else if (op == "copy") { int g = (int)l.n(2); o[g].reset(o[hd]->copy()); ev("h", hd)("g", g); }
            else if (op == "assign") { int g = (int)l.n(2); o[g]->assign(*o[hd]); ev("h", hd)("g", g); }
            else if (op == "log") { o[hd]->log(l.n(2)); ev("h", hd)("dur", l.n(2)); }
            else if (op == "open") { setc(l.n(3)); s[(int)l.n(2)] = o[hd]->open(); ev("h", hd)("s", l.n(2))("c", l.n(3)); }
            else if (op == "reset") { setc(l.n(2)); s[hd]->reset(); ev("s", hd)("c", l.n(2)); }
            else if (op == "clear") { s[hd]->clear(); ev("s", hd); }
            else if (op == "moves") { s[(int)l.n(2)] = s[hd]->move(); ev("s", hd)("u", l.n(2)); }
            else if (op == "close")
            {
                setc(l.n(2));
                if (l.n(3)) s[hd]->close_throwing();
                s.erase(hd);
                ev("s", hd)("c", l.n(2));
            }
            else if (op == "time")
            {   // time h dur throws include void t : the callable moves the rate clock to t
                long long adv = base + l.n(6) * unit - steady_ns;
                bool th = l.n(3) != 0, inc = l.n(4) != 0;
                obj ck; ck("op", "clock")("t", l.n(6)); tr.add(ck);
                ev("h", hd)("dur", l.n(2))("throws", th)("include", inc);
                o[hd]->time(l.n(2), adv, th, inc, l.n(5) != 0, ev);
            }
            else std::abort();
            tr.add(ev);
        }
        s.clear();
        tr.flush();
    }
}
