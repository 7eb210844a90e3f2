// Lock-free stack and object pool under many threads.
#include "rt.h"
#define QUIET rt::quiet quiet_;
#include "../structs.hpp"
#include "conc.hpp"
using namespace cxxmetrics;
namespace conc {

template<class T> struct stacks : world
{
    using L = internal::atomic_lifo<T, counted<T>>;
    using P = typename L::pointer_type;
    std::unique_ptr<L> s;
    std::map<int, P> p;
    stacks() { lives().clear(); for (int i = 1; i <= 12; ++i) p[i]; }
    ~stacks() { p.clear(); }
    void exec(const std::string &op, const line &l, std::size_t i, event &ev, obj &o) override
    {
        int a = (int)l.n(i), b = (int)l.n(i + 1);
        if (op == "lnew") { call(ev, [&] { s.reset(new L(counted<T>(7))); }); o("h", a); }
        else if (op == "emplace") { call(ev, [&] { s->emplace(b); }); o("h", a)("v", b); }
        else if (op == "pop") { auto &q = p[b]; call(ev, [&] { q = s->pop(); }); o("h", a)("p", b); see(q, o); }
        else if (op == "back") { auto &q = p[b]; call(ev, [&] { s->push(std::move(q)); }); o("h", a)("p", b); }
        else if (op == "drop") { auto &q = p[a]; call(ev, [&] { q = P(); }); o("p", a); }
        else if (op == "peek") { call(ev, [] {}); o("p", a); see(p[a], o); }
        else if (op == "put") { auto &q = p[a]; call(ev, [&] { if (q) renumber(*q, b); }); o("p", a)("v", b); }
        else if (op == "alive") { call(ev, [] {}); alive(o, true); }
        else if (op == "close") { call(ev, [&] { for (int k = 1; k <= 12; ++k) p[k] = P(); s.reset(); }); alive(o, true); }
        else std::abort();
    }
    void see(P &q, obj &o) { std::vector<int> r; if (q) r.push_back(number(*q)); o("ret", r); }
};

struct pools : world
{
    using Pool = internal::pool<elem, counted>;
    using H = internal::pool_ptr<elem, counted>;
    std::unique_ptr<Pool> pool;
    std::map<int, std::unique_ptr<H>> h;
    pools() { lives().clear(); pool.reset(new Pool); for (int i = 1; i <= 12; ++i) h[i].reset(new H); }
    ~pools() { h.clear(); }
    void exec(const std::string &op, const line &l, std::size_t i, event &ev, obj &o) override
    {
        int a = (int)l.n(i), b = (int)l.n(i + 1), c = (int)l.n(i + 2);
        if (op == "close") { call(ev, [&] { for (int k = 1; k <= 12; ++k) *h[k] = nullptr; pool.reset(); }); alive(o, true); return; }
        if (op == "alive") { call(ev, [] {}); alive(o, true); return; }
        H &x = *h[a]; o("h", a);
        if (op == "alloc") { call(ev, [&] { x = pool->allocate(elem(b)); }); o("v", b); }
        else if (op == "assign") { H &y = *h[b]; call(ev, [&] { y = static_cast<const H &>(x); }); o("g", b); }
        else if (op == "massign") { H &y = *h[b]; call(ev, [&] { y = std::move(x); }); o("g", b); }
        else if (op == "null") call(ev, [&] { x = nullptr; });
        else if (op == "xchg") { H &y = *h[b], &z = *h[c]; call(ev, [&] { z = x.exchange(y); }); o("g", b)("r", c); }
        else if (op == "cas") { H &y = *h[b], &z = *h[c]; bool r = false; call(ev, [&] { r = x.compare_exchange_strong(y, z); }); o("g", b)("r", c)("ret", r); }
        else if (op == "put") { call(ev, [&] { if (x) renumber(*x, b); }); o("v", b); }
        else if (op == "get") { std::vector<int> r; call(ev, [&] { if (x) { int v = number(*x); rt::quiet q; r.push_back(v); } }); o("ret", r); }
        else if (op == "eq") { H &y = *h[b]; bool r = false; call(ev, [&] { r = x == y; }); o("g", b)("ret", r); }
        else std::abort();
    }
};

world *make(const std::map<std::string, std::string> &cfg)
{
    auto k = cfg.at("kind");
    if (k == "lifo") return new stacks<elem>;
    if (k == "linked") return new stacks<linked>;
    if (k == "pool") return new pools;
    std::abort();
}
}
int main() { rt::track_setup(); return conc::main_loop(); }
