#include "rt.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <time.h>
#include <unistd.h>
#include <vector>

extern "C" void *__cxa_get_globals();

namespace rt {
namespace {

const std::size_t STACK = 512 * 1024;
const unsigned STEP_LIMIT = 400000, BURST = 4000;

struct fiber
{
    void *sp = nullptr;
    char *stk = nullptr;
    int state = 0;              // 0 ready, 1 blocked, 2 done
    const void *waits = nullptr;
    int prio = 0;
    unsigned burst = 0;
    int inop = 0;
    char eh[16] = {};
    std::function<void()> fn;
};

config cfg;
std::vector<fiber *> pool;      // reused stacks
int nfib = 0;
fiber *cur = nullptr;
void *main_sp = nullptr;
char main_eh[16];
int nopreempt = 0;
unsigned nsteps = 0;
uint64_t clk = 0;
uint64_t rng_state = 1;
const char *fault = nullptr;
std::vector<unsigned> change;
int lowprio = 0;
bool mainop = false, track_all = false;      // operations outside threads allocate from the arena too
std::string crash_context;

inline uint64_t rnd()
{
    rng_state += 0x9e3779b97f4a7c15ull;
    uint64_t z = rng_state;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

// ---- context switch ---------------------------------------------------------------------------------
extern "C" void rt_switch(void **from, void *to);
asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size rt_switch,.-rt_switch
)");

void go_main()
{
    fiber *f = cur;
    std::memcpy(f->eh, __cxa_get_globals(), 16);
    std::memcpy(__cxa_get_globals(), main_eh, 16);
    cur = nullptr;
    rt_switch(&f->sp, main_sp);
}

void go(fiber *to)
{
    fiber *f = cur;
    if (f == to) return;
    std::memcpy(f->eh, __cxa_get_globals(), 16);
    std::memcpy(__cxa_get_globals(), to->eh, 16);
    cur = to;
    to->burst = 0;
    rt_switch(&f->sp, to->sp);
}

[[noreturn]] void die(const char *what)
{
    fault = what;
    if (cur) { go_main(); }
    std::fprintf(stderr, "fault outside a thread: %s %s\n", what, crash_context.c_str());
    _exit(4);
}

fiber *choose(bool other)
{
    fiber *cand[16]; int n = 0;
    for (int i = 0; i < nfib; ++i)
        if (pool[i]->state == 0 && !(other && pool[i] == cur)) cand[n++] = pool[i];
    if (!n) return nullptr;
    if (cfg.strategy == 0) return cand[rnd() % n];
    if (cfg.strategy == 2)
    {   // keep to the running thread, otherwise the next one round
        for (int i = 0; i < n; ++i) if (cand[i] == cur) return cur;
        int from = cfg.first;
        for (int i = 0; i < nfib; ++i) if (pool[i] == cur) from = i;
        for (int k = cur ? 1 : 0; k <= nfib; ++k)
            for (int i = 0; i < n; ++i) if (cand[i] == pool[(from + k) % nfib]) return cand[i];
        return cand[0];
    }
    fiber *b = cand[0];
    for (int i = 1; i < n; ++i) if (cand[i]->prio > b->prio) b = cand[i];
    return b;
}

void entry()
{
    fiber *f = cur;
    try { f->fn(); }
    catch (...) { fault = "an exception left the thread"; }
    f->state = 2;
    fiber *n = choose(true);
    if (n && !fault) go(n);
    go_main();
    std::abort();
}

void block(const void *on)
{
    cur->state = 1;
    cur->waits = on;
    fiber *n = choose(true);
    if (!n) die("deadlock: every unfinished thread is blocked");
    go(n);
}

void wake(const void *on)
{
    for (int i = 0; i < nfib; ++i)
        if (pool[i]->state == 1 && pool[i]->waits == on) pool[i]->state = 0;
}

// weight: 1 for synchronisation, larger for plain accesses (less likely to switch)
void point(unsigned weight)
{
    if (!cur || !cur->inop || nopreempt) return;
    if (++nsteps > STEP_LIMIT) die("livelock: the threads do not finish");
    if (cfg.strategy == 0)
    {
        if (++cur->burst > BURST || rnd() % (cfg.denom * weight) == 0)
        {
            fiber *n = choose(true);
            if (n) go(n);
            else cur->burst = 0;
        }
        return;
    }
    if (cfg.strategy == 2)
    {
        fiber *n = nullptr;
        for (int k = 0; k < 2; ++k)
            if (cfg.at[k] == nsteps && cfg.to[k] < nfib && pool[cfg.to[k]]->state == 0) n = pool[cfg.to[k]];
        if (!n && ++cur->burst > BURST) n = choose(true);
        if (n && n != cur) go(n);
        return;
    }
    bool drop = ++cur->burst > BURST;
    for (unsigned c : change) if (c == nsteps) drop = true;
    if (drop) { cur->prio = --lowprio; cur->burst = 0; }
    fiber *n = choose(false);
    if (n && n != cur) go(n);
}

void give_way()
{
    if (!cur || nopreempt) return;
    if (++nsteps > STEP_LIMIT) die("livelock: the threads do not finish");
    cur->prio = --lowprio;
    fiber *n = choose(true);
    if (n) go(n);
}

// ---- memory of the code under test ---------------------------------------------------------------------
const std::size_t ARENA = 64u << 20;
char *arena = nullptr;
unsigned char *shadow = nullptr;     // per 16 bytes: 0 never used, 1 live, 2 freed
std::size_t top = 0;
std::vector<void *> bins[64];

inline bool in_arena(const void *p) { return arena && (char *)p >= arena && (char *)p < arena + ARENA; }

void *arena_alloc(std::size_t n)
{
    std::size_t sz = (n + 15) / 16 * 16;
    if (!sz) sz = 16;
    std::size_t cls = sz / 16;
    if (!cfg.quarantine && cls < 64 && !bins[cls].empty())
    {
        std::vector<void *> &b = bins[cls];
        std::size_t k = b.size() - 1;
        if (cfg.pick && (k = rnd() % (b.size() + 1)) == b.size()) goto fresh;
        void *p = b[k];
        b.erase(b.begin() + k);
        std::memset(shadow + ((char *)p - arena) / 16, 1, cls);
        return p;
    }
fresh:
    if (top + sz + 16 > ARENA) { fprintf(stderr, "arena exhausted\n"); _exit(5); }
    char *p = arena + top + 16;
    *(std::size_t *)(p - 16) = sz;
    std::memset(shadow + (p - arena) / 16, 1, cls);
    top += sz + 16;
    return p;
}

void arena_free(void *p)
{
    std::size_t sz = *(std::size_t *)((char *)p - 16), at = ((char *)p - arena) / 16;
    if (shadow[at] == 2) die("freed twice");
    std::memset(shadow + at, 2, sz / 16);
    if (!cfg.quarantine && sz / 16 < 64)
    {   // the list of free blocks itself does not live in the arena
        ++nopreempt;
        bins[sz / 16].push_back(p);
        --nopreempt;
    }
}

inline void touch(const void *p, unsigned weight)
{
    if (!cur || !cur->inop) return;
    const char *c = (const char *)p;
    if (c >= cur->stk && c < cur->stk + STACK) return;
    if (in_arena(p))
    {
        if (cfg.quarantine && shadow[(c - arena) / 16] == 2) die("use of freed memory");
    }
    point(weight);
    if (in_arena(p))
    {
        if (cfg.quarantine && shadow[(c - arena) / 16] == 2) die("use of freed memory");
    }
}

void crash(int sig)
{
    char b[512];
    int n = snprintf(b, sizeof b, "\n[{\"fault\":\"signal %d\",%s}]\n", sig, crash_context.c_str());
    if (write(1, b, n)) { }
    _exit(3);
}

struct start
{
    start()
    {
        arena = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        shadow = (unsigned char *)mmap(nullptr, ARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        static char alt[65536];
        stack_t s{}; s.ss_sp = alt; s.ss_size = sizeof alt;
        sigaltstack(&s, nullptr);
        struct sigaction a{}; a.sa_handler = crash; a.sa_flags = SA_ONSTACK;
        for (int g : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(g, &a, nullptr);
    }
} starter;

} // namespace

void on_crash(const std::string &c) { crash_context = c; }
unsigned steps() { return nsteps; }
int self() { for (int i = 0; i < nfib; ++i) if (pool[i] == cur) return i; return -1; }
uint64_t stamp() { return ++clk; }

void release_arena()
{
    if (top) std::memset(shadow, 0, top / 16 + 2);
    top = 0;
    for (auto &b : bins) b.clear();
}

void reset(const config &c)
{
    cfg = c;
    __libc_single_threaded = 0;   // shared_ptr would otherwise count without atomic operations
    nfib = 0; cur = nullptr; nopreempt = 0; nsteps = 0; clk = 0; fault = nullptr; lowprio = 0;
    rng_state = c.seed * 0x2545f4914f6cdd1dull + 12345;
    change.clear();
    if (c.strategy == 1)
        for (int i = 0; i < c.depth; ++i) change.push_back(1 + rnd() % (c.expect + 1));
}

void spawn(std::function<void()> f)
{
    if (nfib == (int)pool.size())
    {
        auto *x = new fiber;
        x->stk = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        pool.push_back(x);
    }
    fiber *x = pool[nfib++];
    x->state = 0; x->waits = nullptr; x->burst = 0; x->inop = 0; x->prio = 0;
    std::memset(x->eh, 0, 16);
    x->fn = std::move(f);
    void **sp = (void **)(x->stk + STACK - 64);
    *--sp = nullptr;                    // alignment: entry starts as if called
    *--sp = (void *)&entry;
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    x->sp = sp;
}

const char *run()
{
    for (int i = 0; i < nfib; ++i) pool[i]->prio = 1 + (int)(rnd() % 1000);
    fiber *n = choose(false);
    if (!n) return nullptr;
    std::memcpy(main_eh, __cxa_get_globals(), 16);
    std::memcpy(__cxa_get_globals(), n->eh, 16);
    cur = n;
    rt_switch(&main_sp, n->sp);
    cur = nullptr;
    if (!fault)
        for (int i = 0; i < nfib; ++i) if (pool[i]->state != 2) fault = "deadlock: a thread never finished";
    return fault;
}

uint64_t op_begin()
{
    if (!cur) { mainop = track_all; return ++clk; }
    cur->inop = 1;
    point(1);
    return ++clk;
}
uint64_t op_end()
{
    uint64_t r = ++clk;
    if (cur) { cur->inop = 1; point(1); cur->inop = 0; }
    mainop = false;
    return r;
}
quiet::quiet() : saved(cur ? cur->inop : mainop) { if (cur) cur->inop = 0; else mainop = false; }
quiet::~quiet() { if (cur) cur->inop = saved; else mainop = saved; }
void track_setup() { track_all = true; }

} // namespace rt

using namespace rt;

// ---- operator new / delete ------------------------------------------------------------------------------
static inline void *rt_new(std::size_t n)
{
    if ((cur ? cur->inop : mainop) && !nopreempt) return arena_alloc(n);
    void *p = std::malloc(n ? n : 1);
    if (!p) std::abort();
    return p;
}
static inline void rt_delete(void *p)
{
    if (!p) return;
    if (in_arena(p)) arena_free(p); else std::free(p);
}
void *operator new(std::size_t n) { return rt_new(n); }
void *operator new[](std::size_t n) { return rt_new(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return rt_new(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return rt_new(n); }
void operator delete(void *p) noexcept { rt_delete(p); }
void operator delete[](void *p) noexcept { rt_delete(p); }
void operator delete(void *p, std::size_t) noexcept { rt_delete(p); }
void operator delete[](void *p, std::size_t) noexcept { rt_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { rt_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { rt_delete(p); }

extern "C" {
// ---- one-time initialisation -------------------------------------------------------------------------------
int __cxa_guard_acquire(uint64_t *g)
{
    if (*(char *)g) return 0;
    ++nopreempt;
    return 1;
}
void __cxa_guard_release(uint64_t *g) { *(char *)g = 1; --nopreempt; }
void __cxa_guard_abort(uint64_t *) { --nopreempt; }
int pthread_once(pthread_once_t *o, void (*f)())
{
    if (*(int *)o == 2) return 0;
    ++nopreempt;
    try { f(); } catch (...) { --nopreempt; throw; }
    --nopreempt;
    *(int *)o = 2;
    return 0;
}

// ---- locks ------------------------------------------------------------------------------------------------
struct mtx { int owner, count; };
static inline int me() { return cur ? rt::self() + 1 : 1000; }
static inline bool recursive(pthread_mutex_t *m) { return m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    std::memset(m, 0, sizeof *m);
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_mutex_lock(pthread_mutex_t *m)
{
    auto *x = (mtx *)m;
    touch(m, 1);
    while (x->owner)
    {
        if (x->owner == me())
        {
            if (recursive(m)) { ++x->count; return 0; }
            die("deadlock: a thread locks a mutex it holds");
        }
        if (!cur) die("deadlock: a mutex was left locked");
        block(m);
    }
    x->owner = me();
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    auto *x = (mtx *)m;
    touch(m, 1);
    if (x->owner)
    {
        if (x->owner == me() && recursive(m)) { ++x->count; return 0; }
        return EBUSY;
    }
    x->owner = me();
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    auto *x = (mtx *)m;
    if (x->count) { --x->count; return 0; }
    x->owner = 0;
    wake(m);
    touch(m, 1);
    return 0;
}
struct rwl { int writer, readers; };
int pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) { std::memset(m, 0, sizeof *m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    auto *x = (rwl *)m;
    touch(m, 1);
    while (x->writer) { if (!cur || x->writer == me()) die("deadlock: a read lock under a write lock"); block(m); }
    ++x->readers;
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    auto *x = (rwl *)m;
    touch(m, 1);
    while (x->writer || x->readers) { if (!cur || x->writer == me()) die("deadlock: a write lock that cannot be had"); block(m); }
    x->writer = me();
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { auto *x = (rwl *)m; touch(m, 1); if (x->writer) return EBUSY; ++x->readers; return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { auto *x = (rwl *)m; touch(m, 1); if (x->writer || x->readers) return EBUSY; x->writer = me(); return 0; }
int pthread_rwlock_timedrdlock(pthread_rwlock_t *m, const struct timespec *) { return pthread_rwlock_rdlock(m); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t *m, const struct timespec *) { return pthread_rwlock_wrlock(m); }
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    auto *x = (rwl *)m;
    if (x->writer) x->writer = 0; else --x->readers;
    wake(m);
    touch(m, 1);
    return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { std::memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    auto *x = (mtx *)m;
    x->owner = 0; wake(m);
    if (!cur) die("deadlock: waiting outside a thread");
    block(c);
    return pthread_mutex_lock(m);
}
int pthread_cond_signal(pthread_cond_t *c) { wake(c); touch(c, 1); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { wake(c); touch(c, 1); return 0; }
int sched_yield(void) { give_way(); return 0; }
int nanosleep(const struct timespec *, struct timespec *) { give_way(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { give_way(); return 0; }
int usleep(useconds_t) { give_way(); return 0; }

// ---- plain accesses -----------------------------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { touch(p, 3); }
void __tsan_vptr_read(void **p) { touch(p, 3); }
#define RW(n) void __tsan_read##n(void *p) { touch(p, 3); } void __tsan_write##n(void *p) { touch(p, 3); } \
    void __tsan_unaligned_read##n(void *p) { touch(p, 3); } void __tsan_unaligned_write##n(void *p) { touch(p, 3); } \
    void __tsan_volatile_read##n(void *p) { touch(p, 2); } void __tsan_volatile_write##n(void *p) { touch(p, 2); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long) { touch(p, 3); }
void __tsan_write_range(void *p, unsigned long) { touch(p, 3); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { touch(s, 3); touch(d, 3); return std::memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { touch(s, 3); touch(d, 3); return std::memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { touch(d, 3); return std::memset(d, c, n); }

// ---- atomics ---------------------------------------------------------------------------------------------------
void __tsan_atomic_thread_fence(int) { point(1); }
void __tsan_atomic_signal_fence(int) {}
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T *a, int) { touch((const void *)a, 1); return *a; } \
    void __tsan_atomic##n##_store(volatile T *a, T v, int) { touch((const void *)a, 1); *a = v; } \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { touch((const void *)a, 1); T o = *a; *a = v; return o; } \
    T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { touch((const void *)a, 1); T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { touch((const void *)a, 1); T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { touch((const void *)a, 1); T o = *a; *a = (T)(o & v); return o; } \
    T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { touch((const void *)a, 1); T o = *a; *a = (T)(o | v); return o; } \
    T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { touch((const void *)a, 1); T o = *a; *a = (T)(o ^ v); return o; } \
    T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int) { touch((const void *)a, 1); T o = *a; *a = (T)~(o & v); return o; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) \
    { touch((const void *)a, 1); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) \
    { touch((const void *)a, 1); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) \
    { touch((const void *)a, 1); T o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long) AT(128, unsigned __int128)

// objects too large for the machine's atomics
void g_load(std::size_t n, const void *a, void *r, int) __asm__("__atomic_load");
void g_store(std::size_t n, void *a, const void *v, int) __asm__("__atomic_store");
void g_exchange(std::size_t n, void *a, const void *v, void *r, int) __asm__("__atomic_exchange");
bool g_cas(std::size_t n, void *a, void *e, const void *v, int, int) __asm__("__atomic_compare_exchange");
bool g_lf(std::size_t n, const void *) __asm__("__atomic_is_lock_free");
void g_load(std::size_t n, const void *a, void *r, int) { touch(a, 1); std::memcpy(r, a, n); }
void g_store(std::size_t n, void *a, const void *v, int) { touch(a, 1); std::memcpy(a, v, n); }
void g_exchange(std::size_t n, void *a, const void *v, void *r, int)
{ touch(a, 1); char t[256]; std::memcpy(t, a, n); std::memcpy(a, v, n); std::memcpy(r, t, n); }
bool g_cas(std::size_t n, void *a, void *e, const void *v, int, int)
{ touch(a, 1); if (!std::memcmp(a, e, n)) { std::memcpy(a, v, n); return true; } std::memcpy(e, a, n); return false; }
bool g_lf(std::size_t n, const void *) { return n <= 16; }
unsigned __int128 l16(const volatile void *a, int m) __asm__("__atomic_load_16");
void s16(volatile void *a, unsigned __int128 v, int m) __asm__("__atomic_store_16");
unsigned __int128 x16(volatile void *a, unsigned __int128 v, int m) __asm__("__atomic_exchange_16");
bool c16(volatile void *a, void *e, unsigned __int128 v, int, int) __asm__("__atomic_compare_exchange_16");
unsigned __int128 l16(const volatile void *a, int m) { return __tsan_atomic128_load((const volatile unsigned __int128 *)a, m); }
void s16(volatile void *a, unsigned __int128 v, int m) { __tsan_atomic128_store((volatile unsigned __int128 *)a, v, m); }
unsigned __int128 x16(volatile void *a, unsigned __int128 v, int m) { return __tsan_atomic128_exchange((volatile unsigned __int128 *)a, v, m); }
bool c16(volatile void *a, void *e, unsigned __int128 v, int m, int f)
{ return __tsan_atomic128_compare_exchange_strong((volatile unsigned __int128 *)a, (unsigned __int128 *)e, v, m, f); }
}
