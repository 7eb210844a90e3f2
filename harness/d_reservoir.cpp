// Sequential driver for the reservoirs, the ring buffer and histograms over them.
#include "contents.hpp"
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <cxxmetrics/histogram.hpp>

using namespace cxxmetrics;
using namespace h;

struct subject
{
    virtual ~subject() = default;
    virtual void update(long long v) = 0;
    // n updates, or as many as fit the time
    virtual unsigned long long spin(unsigned long long n, double seconds) = 0;
    virtual std::vector<long long> snapshot(long long &count) = 0;
    virtual long long count() { return -1; }
    virtual subject *copy() = 0;
    virtual void assign(subject &o) = 0;
    virtual void ring(std::vector<long long> &, long long &) { }
};

template<class E> E elem(long long v) { return E(v); }
template<class F> unsigned long long repeat(unsigned long long n, double seconds, const F &f)
{
    timespec a, b;
    clock_gettime(CLOCK_MONOTONIC_RAW, &a);
    for (unsigned long long i = 0; i < n; ++i)
    {
        if (!(i & 0xffffff))
        {
            clock_gettime(CLOCK_MONOTONIC_RAW, &b);
            if (double(b.tv_sec - a.tv_sec) > seconds) return i;
        }
        f((long long)(i & 7));
    }
    return n;
}
inline long long num(const std::chrono::nanoseconds &d) { return d.count(); }
template<class E> long long num(const E &v) { return (long long)v; }

template<class R> struct res : subject
{
    R r;
    res() = default;
    template<class A> explicit res(const A &a) : r(a) { }
    res(const res &) = default;
    void update(long long v) override { r.update(elem<typename R::value_type>(v)); }
    unsigned long long spin(unsigned long long n, double sec) override { return repeat(n, sec, [this](long long v) { r.update(elem<typename R::value_type>(v)); }); }
    std::vector<long long> snapshot(long long &) override { return contents(r.snapshot()); }
    subject *copy() override { return new res(*this); }
    void assign(subject &o) override { r = static_cast<res &>(o).r; }
};

template<class E, std::size_t N> struct ringb : subject
{
    internal::ringbuf<E, N> r;
    ringb() = default;
    ringb(const ringb &) = default;
    void update(long long v) override { r.push(elem<E>(v)); }
    unsigned long long spin(unsigned long long n, double sec) override { return repeat(n, sec, [this](long long v) { r.push(elem<E>(v)); }); }
    std::vector<long long> snapshot(long long &) override { return {}; }
    subject *copy() override { return new ringb(*this); }
    void assign(subject &o) override { r = static_cast<ringb &>(o).r; }
    void ring(std::vector<long long> &out, long long &size) override
    {
        std::size_t guard = 0;
        for (auto i = r.begin(); i != r.end() && guard < 4 * N; ++i, ++guard) out.push_back(num(*i));
        size = (long long)r.size();
    }
};

template<class R> struct hist : subject
{
    std::unique_ptr<histogram<typename R::value_type, R>> p;
    explicit hist(histogram<typename R::value_type, R> *h) : p(h) { }
    void update(long long v) override { p->update(elem<typename R::value_type>(v)); }
    unsigned long long spin(unsigned long long n, double sec) override { auto &h = *p; return repeat(n, sec, [&h](long long v) { h.update(elem<typename R::value_type>(v)); }); }
    std::vector<long long> snapshot(long long &c) override { auto s = p->snapshot(); c = (long long)s.count(); return contents(s); }
    long long count() override { return (long long)p->count(); }
    subject *copy() override { return new hist(new histogram<typename R::value_type, R>(*p)); }
    void assign(subject &o) override { *p = *static_cast<hist &>(o).p; }
};

template<class E, std::size_t N> subject *make(const std::string &kind, long long win)
{
    using S = simple_reservoir<E, N>; using U = uniform_reservoir<E, N>; using W = sliding_window_reservoir<E, N>;
    std::chrono::steady_clock::duration w(win);
    if (kind == "last") return new res<S>();
    if (kind == "uniform") return new res<U>();
    if (kind == "window") return new res<W>(w);
    if (kind == "ring") return new ringb<E, N>();
    if (kind == "hlast") return new hist<S>(new histogram<E, S>());
    if (kind == "huniform") return new hist<U>(new histogram<E, U>());
    if (kind == "hwindow") return new hist<W>(new histogram<E, W>(W(w)));
    std::abort();
}
template<class E> subject *make(const std::string &kind, int cap, long long win)
{
    switch (cap)
    {
    case 2: return make<E, 2>(kind, win);
    case 3: return make<E, 3>(kind, win);
    case 4: return make<E, 4>(kind, win);
    case 5: return make<E, 5>(kind, win);
    case 8: return make<E, 8>(kind, win);
    case 16: return make<E, 16>(kind, win);
    }
    std::abort();
}
subject *make(const std::string &e, const std::string &kind, int cap, long long win)
{
    if (e == "d") return cap == 3 ? make<double, 3>(kind, win) : make<double, 5>(kind, win);
    if (e == "n") return cap == 3 ? make<std::chrono::nanoseconds, 3>(kind, win) : make<std::chrono::nanoseconds, 5>(kind, win);
    if (e == "s") return cap == 3 ? make<int16_t, 3>(kind, win) : make<int16_t, 5>(kind, win);
    return make<int64_t>(kind, cap, win);
}

int main()
{
    std::vector<line> sc;
    trace tr;
    while (next_script(sc))
    {
        std::map<int, std::unique_ptr<subject>> o;
        std::string kind, e; int cap = 0; long long win = 0;
        steady_ns = 0;
        long long off = 0;     // updates the trace leaves out of its counts
        auto less = [&](long long c) -> long long { return c == -1 ? c : c < off || c - off > 1000000000 ? 2000000000 : c - off; };
        for (auto &l : sc)
        {
            obj ev; ev("op", l.op());
            const std::string &op = l.op();
            if (op == "cfg")
            {
                kind = l.s(1); cap = (int)l.n(2); win = l.n(3); e = l.s(4); system_ns = l.n(5);
                ev("kind", kind[0] == 'h' ? kind.substr(1) : kind)("cap", cap)("win", win);
                o[1].reset(make(e, kind, cap, win));
            }
            else if (op == "clock") { steady_ns = l.n(1); ev("t", l.n(1)); }
            else if (op == "update")
            {
                subject &s = *o[(int)l.n(1)]; s.update(l.n(2));
                long long c = -1, c2;
                ev("h", l.n(1))("v", l.n(2))("cnt", less(s.count()));
                if (kind == "uniform" || kind == "huniform") ev("ret", s.snapshot(c)); else ev("ret", std::vector<int>());
            }
            else if (op == "far")
            {   // far H V N M SECONDS: M updates that nobody looks at, then N more that fill the reservoir
                subject &s = *o[(int)l.n(1)]; long long c = -1;
                off += (long long)s.spin((unsigned long long)l.n(4), l.d(5));
                std::fprintf(stderr, "far %lld\n", off);
                bool uni = kind == "uniform" || kind == "huniform";
                if (uni) off -= cap;
                for (long long k = 0; k < l.n(3); ++k) s.update(l.n(2) + k);
                ev("h", l.n(1))("v", l.n(2))("k", l.n(3))("cnt", less(s.count()));
                if (uni) ev("ret", s.snapshot(c)); else ev("ret", std::vector<int>());
            }
            else if (op == "bulk" || op == "flood")
            {
                subject &s = *o[(int)l.n(1)]; long long c = -1, step = op == "bulk" ? 1 : l.n(4);
                for (long long k = 0; k < l.n(3); ++k) s.update(l.n(2) + k * step);
                ev("h", l.n(1))("v", l.n(2))("k", l.n(3))("cnt", less(s.count()))("d", step);
                if (op == "flood") ev("ret", s.snapshot(c));
            }
            else if (op == "snap")
            {
                long long c = -1;
                auto v = o[(int)l.n(1)]->snapshot(c);
                ev("h", l.n(1))("cnt", less(c))("ret", v);
            }
            else if (op == "ring")
            {
                std::vector<long long> v; long long n = -1;
                o[(int)l.n(1)]->ring(v, n);
                ev("h", l.n(1))("size", n)("ret", v);
            }
            else if (op == "copy")
            {
                o[(int)l.n(2)].reset(o[(int)l.n(1)]->copy());
                ev("h", l.n(1))("g", l.n(2));
            }
            else if (op == "fresh")
            {
                o[(int)l.n(1)].reset(make(e, kind, cap, l.n(2)));
                ev("g", l.n(1))("w", l.n(2));
            }
            else if (op == "assign")
            {
                o[(int)l.n(2)]->assign(*o[(int)l.n(1)]);
                ev("h", l.n(1))("g", l.n(2));
            }
            else std::abort();
            tr.add(ev);
        }
        tr.flush();
    }
    return 0;
}
