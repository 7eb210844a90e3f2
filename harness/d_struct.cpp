// Lock-free stack, object pool, skip list: sequential histories.
#define POISON
#include "structs.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <cxxmetrics/skiplist.hpp>
using namespace h;
using namespace cxxmetrics;

struct machine { virtual ~machine() = default; virtual void run(const line &l, obj &ev) = 0; };

// ---- stacks ------------------------------------------------------------------------------------------
template<class T, bool List> struct from
{
    template<class L, class A> static L *list(const std::vector<int> &, const A &) { std::abort(); }
    template<class L, class A> static L *range(const std::vector<int> &, const A &) { std::abort(); }
    template<class L> static void push(L &s, int v) { s.emplace(v); }
};
template<class T> struct from<T, true>
{
    template<class L, class A> static L *list(const std::vector<int> &v, const A &a)
    {
        switch (v.size())
        {
        case 0: { std::initializer_list<T> l = {}; return new L(l, a); }
        case 1: return new L({T(v[0])}, a);
        case 2: return new L({T(v[0]), T(v[1])}, a);
        case 3: return new L({T(v[0]), T(v[1]), T(v[2])}, a);
        default: return new L({T(v[0]), T(v[1]), T(v[2]), T(v[3])}, a);
        }
    }
    template<class L, class A> static L *range(const std::vector<int> &v, const A &a)
    {
        std::vector<T> x(v.begin(), v.end());
        return new L(x.begin(), x.end(), a);
    }
    template<class L> static void push(L &s, int v) { s.push(T(v)); }
};
template<class T, bool List, bool Push> struct stacks : machine
{
    using L = internal::atomic_lifo<T, counted<T>>;
    using P = typename L::pointer_type;
    std::map<int, std::unique_ptr<L>> s;
    std::map<int, P> p;
    ~stacks() { p.clear(); }
    std::vector<int> rest(const line &l, std::size_t i) { std::vector<int> r; for (; i < l.w.size(); ++i) r.push_back((int)l.n(i)); return r; }
    void run(const line &l, obj &ev) override
    {
        auto &op = l.op(); int a = (int)l.n(1), b = (int)l.n(2);
        counted<T> al(7);     // not the allocator a default-constructed one equals
        if (op == "lnew") { s[a].reset(new L(al)); ev("h", a); }
        else if (op == "llist") { auto v = rest(l, 2); s[a].reset(from<T, List>::template list<L>(v, al)); ev("h", a)("vs", v); }
        else if (op == "lrange") { auto v = rest(l, 2); s[a].reset(from<T, List>::template range<L>(v, al)); ev("h", a)("vs", v); }
        else if (op == "push") { from<T, Push>::push(*s[a], b); ev("h", a)("v", b); }
        else if (op == "emplace") { s[a]->emplace(b); ev("h", a)("v", b); }
        else if (op == "pop") { ev("h", a)("p", b); p[b] = s[a]->pop(); see(b, ev); }
        else if (op == "make") { ev("h", a)("p", b)("v", (int)l.n(3)); p[b] = s[a]->make_pointer((int)l.n(3)); }
        else if (op == "back") { ev("h", a)("p", b); s[a]->push(std::move(p[b])); }
        else if (op == "drop") { p[a] = P(); ev("p", a); }
        else if (op == "give") { if (l.n(3)) { P t(std::move(p[a])); p[b] = std::move(t); } else p[b] = std::move(p[a]); ev("p", a)("q", b); }
        else if (op == "put") { renumber(*p[a], b); ev("p", a)("v", b); }
        else if (op == "peek") { ev("p", a); see(a, ev); }
        else if (op == "lmove") { s[b].reset(new L(std::move(*s[a]))); ev("h", a)("g", b); }
        else if (op == "lkill") { s.erase(a); ev("h", a); }
        else if (op == "alive") alive(ev, false);
        else std::abort();
    }
    void see(int i, obj &ev)
    {
        std::vector<int> r;
        if (p[i]) { const P &c = p[i]; r.push_back(number(*p[i])); if (number(*c) != r[0] || number(*c.operator->()) != r[0]) r[0] = -9999; }
        ev("ret", r);
    }
};

// ---- pools -------------------------------------------------------------------------------------------
template<class V, bool Counted> struct pools : machine
{
    template<class...A> struct allocs { using x = std::allocator<int>; };
    using Pool = internal::pool<V, counted>;
    using H = internal::pool_ptr<V, counted>;
    std::unique_ptr<Pool> pool{new Pool};
    std::map<int, std::unique_ptr<H>> h;
    H &at(int i) { auto &x = h[i]; if (!x) x.reset(new H); return *x; }
    ~pools() { h.clear(); }
    void run(const line &l, obj &ev) override
    {
        auto &op = l.op(); int a = (int)l.n(1), b = (int)l.n(2), c = (int)l.n(3);
        if (op == "alloc")
        {
            if (b == 0) at(a) = pool->allocate();
            else if (h.count(a) && h[a]) *h[a] = pool->allocate(V(b));
            else h[a].reset(new H(pool->allocate(V(b))));
            ev("h", a)("v", b);
        }
        else if (op == "copy") { ev("h", a)("g", b); h[b].reset(new H(static_cast<const H &>(at(a)))); }
        else if (op == "assign") { ev("h", a)("g", b); at(b) = static_cast<const H &>(at(a)); }
        else if (op == "move") { ev("h", a)("g", b); h[b].reset(new H(std::move(at(a)))); }
        else if (op == "massign") { ev("h", a)("g", b); at(b) = std::move(at(a)); }
        else if (op == "drop") { ev("h", a); h.erase(a); }
        else if (op == "null") { ev("h", a); if (b) at(a) = nullptr; else at(a) = H(); }
        else if (op == "xchg") { ev("h", a)("g", b)("r", c); at(c); at(b); at(c) = at(a).exchange(at(b)); }
        else if (op == "cas") { ev("h", a)("g", b)("r", c); at(b); at(c); ev("ret", at(a).compare_exchange_strong(at(b), at(c))); }
        else if (op == "put") { renumber(*at(a), b); ev("h", a)("v", b); }
        else if (op == "get")
        {
            std::vector<int> r; const H &k = at(a);
            if (at(a)) { r.push_back(number(*at(a))); if (number(*k) != r[0] || number(*k.operator->()) != r[0] || number(*at(a).operator->()) != r[0]) r[0] = -9999; }
            ev("h", a)("ret", r);
        }
        else if (op == "eq") { ev("h", a)("g", b); bool e = at(a) == at(b), n = at(a) != at(b); if (e == n) std::abort(); ev("ret", e); }
        else if (op == "alive") alive(ev, false);
        else std::abort();
    }
};

// ---- skip lists --------------------------------------------------------------------------------------
// order and equality of their own, unlike the comparison the lists are given
struct item
{
    int k, t;
    bool operator==(const item &o) const { return k == o.k && t == o.t; }
    bool operator!=(const item &o) const { return !(*this == o); }
    bool operator<(const item &o) const { return t < o.t; }
    bool operator>(const item &o) const { return t > o.t; }
};
struct by_key { bool operator()(const item &a, const item &b) const { return a.k < b.k; } };
struct by_key_down { bool operator()(const item &a, const item &b) const { return a.k > b.k; } };
inline item mk(item *, int k, int t) { return item{k, t}; }
inline int mk(int *, int k, int) { return k; }
inline std::string mk(std::string *, int k, int) { char b[64]; std::snprintf(b, sizeof b, "a key that is long enough %09d", k); return b; }
inline std::vector<int> un(const item &i) { return {i.k, i.t}; }
inline std::vector<int> un(int i) { return {i, 0}; }
inline std::vector<int> un(const std::string &s) { return {std::atoi(s.c_str() + 25), 0}; }
template<class T, int N, class C, bool Down> struct lists : machine
{
    using S = skiplist<T, N, C>; using I = typename S::iterator;
    std::unique_ptr<S> s; std::map<int, I> it;
    T val(int k, int t) { return mk((T *)nullptr, k, t); }
    int tag(int t) { return un(val(0, t))[1]; }
    ~lists() { it.clear(); }
    void run(const line &l, obj &ev) override
    {
        auto &op = l.op(); int a = (int)l.n(1), b = (int)l.n(2);
        if (op == "burn") { S x; for (int i = 0; i < a; ++i) x.insert(val(i, 0)); return; }
        if (op == "new") { it.clear(); s.reset(new S); ev("down", Down); }
        else if (op == "ins") { bool r = s->insert(val(a, b)); ev("k", a)("t", tag(b))("ret", r); }
        else if (op == "del") { bool r = s->erase(val(a, 99)); ev("k", a)("ret", r); }
        else if (op == "find") { it[b] = s->find(val(a, 98)); ev("k", a)("i", b); see(b, ev); }
        else if (op == "begin") { it[a] = s->begin(); ev("i", a); }
        else if (op == "step") { ++it[a]; ev("i", a); }
        else if (op == "icopy") { if (a != b) { if (l.n(3)) { it.erase(b); it.emplace(b, it[a]); } else it[b] = it[a]; } ev("i", a)("j", b); }
        else if (op == "get") { ev("i", a); see(a, ev); }
        else if (op == "ieq") { bool e = it[a] == it[b], n = it[a] != it[b]; if (e == n) std::abort(); ev("i", a)("j", b)("ret", e); }
        else if (op == "delat") { bool r = s->erase(it[a]); ev("i", a)("ret", r); }
        else if (op == "sweep")
        {   // walk the list and remove every key leaving remainder b when divided by a, through the walking iterator
            std::vector<std::vector<int>> v; bool all = true;
            for (auto i = s->begin(); i != s->end() && v.size() < 2000; ++i) { v.push_back(un(*i)); if (v.back()[0] % a == b) all = s->erase(i) && all; }
            ev("m", a)("r", b)("ret", v)("all", all);
        }
        else if (op == "list")
        {
            std::vector<std::vector<int>> v;
            for (auto i = s->begin(); i != s->end() && v.size() < 2000; ++i) v.push_back(un(*i));
            ev("ret", v);
        }
        else std::abort();
    }
    void see(int i, obj &ev)
    {
        std::vector<int> r;
        if (it[i] != s->end()) { r = un(*it[i]); if (un(*it[i].operator->()) != r) r[0] = -9999; }
        ev("ret", r);
    }
};

machine *make(const std::string &k)
{
    if (k == "lifo") return new stacks<elem, true, true>;
    if (k == "lifo-linked") return new stacks<linked, false, false>;
    if (k == "lifo-only") return new stacks<only, false, true>;
    if (k == "pool") return new pools<elem, true>;
    if (k == "skip2") return new lists<int, 2, std::less<int>, false>;
    if (k == "skip4") return new lists<item, 4, by_key, false>;
    if (k == "skip16") return new lists<item, 16, by_key, false>;
    if (k == "skip128") return new lists<int, 128, std::less<int>, false>;
    if (k == "skipdown") return new lists<item, 32, by_key_down, true>;
    if (k == "skiptext") return new lists<std::string, 16, std::less<std::string>, false>;
    std::abort();
}

int main()
{
    std::vector<line> sc;
    while (next_script(sc))
    {
        std::fflush(stdout);
        // the heights of skip list towers come from one generator per type: every history starts afresh
        pid_t c = fork();
        if (c == 0)
        {
            trace tr;
            std::unique_ptr<machine> m;
            for (auto &l : sc)
            {
                obj ev; ev("op", l.op());
                if (l.op() == "cfg") { m.reset(make(l.s(1))); ev("kind", l.s(1)); tr.add(ev); continue; }
                if (l.op() == "end")
                {   // everything goes: no element may be left, none destroyed twice, all storage returned
                    m.reset();
                    if (lives().bad || !lives().objects.empty() || !lives().blocks.empty())
                    { std::fprintf(stderr, "after everything was destroyed: %ld wrong, %zu objects and %zu blocks left\n", lives().bad, lives().objects.size(), lives().blocks.size()); std::_Exit(9); }
                    continue;
                }
                m->run(l, ev);
                if (l.op() != "burn") tr.add(ev);
            }
            tr.flush();
            std::_Exit(0);
        }
        int st = 0;
        waitpid(c, &st, 0);
        if (st != 0) { std::fprintf(stderr, "history ended with status %x\n", st); return 3; }
    }
}
