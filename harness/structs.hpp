// Stacks and pools with elements, allocations and lives that are counted (sequential and concurrent drivers).
#pragma once
#include "h.hpp"
#include <set>
#include <cxxmetrics/internal/atomic_lifo.hpp>
#include <cxxmetrics/pool.hpp>
#ifndef QUIET
#define QUIET
#endif
namespace h {

struct census
{
    std::set<const void *> objects;
    std::map<void *, std::pair<std::size_t, int>> blocks;
    long bad = 0;
    void clear() { objects.clear(); blocks.clear(); bad = 0; }
};
inline census &lives() { static census c; return c; }

// a value whose every life begins with a constructor and ends with its destructor, once
struct elem
{
    int v;
    elem(int x = 0) : v(x) { born(); }
    elem(const elem &o) : v(o.v) { born(); }
    elem(elem &&o) : v(o.v) { born(); }
    elem &operator=(const elem &o) { v = o.v; return *this; }
    ~elem() { (void)*const_cast<volatile int *>(&v); QUIET; if (!lives().objects.erase(this)) ++lives().bad; v = -7777; }
    void born() { QUIET; if (!lives().objects.insert(this).second) ++lives().bad; }
};
inline int number(const elem &e) { return e.v; }
inline void renumber(elem &e, int v) { e.v = v; }

// an element that carries its own link
struct linked
{
    elem e;
    linked *next_ = nullptr;
    linked(int v) : e(v) { }
    linked *next() { return next_; }
    void set_next(linked *n) { next_ = n; }
    int value() const { return e.v; }
    operator int &() { return e.v; }
    operator const int &() const { return e.v; }
};
inline int number(const linked &l) { return l.e.v; }
inline void renumber(linked &l, int v) { l.e.v = v; }

// an element that cannot be copied
struct only
{
    elem e;
    only(int v) : e(v) { }
    only(only &&) = default;
    only(const only &) = delete;
};
inline int number(const only &l) { return l.e.v; }
inline void renumber(only &l, int v) { l.e.v = v; }

// an allocator with an identity: storage goes back where it came from
template<class T> struct counted
{
    using value_type = T;
    int id;
    explicit counted(int i = 0) : id(i) { }
    template<class U> counted(const counted<U> &o) : id(o.id) { }
    T *allocate(std::size_t n)
    {
        void *p = ::operator new(n * sizeof(T));
        QUIET;
        lives().blocks[p] = {n, id};
        return static_cast<T *>(p);
    }
    void deallocate(T *p, std::size_t n)
    {
        {
            QUIET;
            auto i = lives().blocks.find(p);
            if (i == lives().blocks.end() || i->second.first != n || i->second.second != id) ++lives().bad;
            else lives().blocks.erase(i);
#ifdef POISON
            std::memset((void *)p, 0xdd, n * sizeof(T));
#endif
        }
        ::operator delete(p);
    }
    template<class U, class... A> void construct(U *p, A &&...a) { new ((void *)p) U(std::forward<A>(a)...); }
    template<class U> void destroy(U *p) { p->~U(); }
    template<class U> struct rebind { using other = counted<U>; };
    template<class U> bool operator==(const counted<U> &o) const { return id == o.id; }
    template<class U> bool operator!=(const counted<U> &o) const { return id != o.id; }
};

inline void alive(obj &o, bool par)
{
    auto &c = lives();
    o("objects", c.bad ? -1 : (int)c.objects.size())("blocks", (int)c.blocks.size())("par", par);
}

} // namespace h
