// A simulated scheduler for threads: this unit takes the place of the thread sanitizer's runtime, so that every memory
// access of instrumented code is a point where the schedule may hand over to another thread.  Exactly one thread runs at
// any time.  Along the schedule the unit keeps vector clocks and reports pairs of accesses which nothing orders.
#pragma clang attribute push(__attribute__((disable_sanitizer_instrumentation)), apply_to = function)
#include "zsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <atomic>
#include <new>
#include <string>
#include <unordered_map>
#include <vector>

namespace sched
{
enum
{
    MAX = 4
};
thread_local int me = -1; // number of the simulated thread, -1 outside of a simulated round
thread_local int busy = 0; // inside of this unit
static int count = 0;
static std::vector<std::pair<uint64_t, int>>* plan = nullptr;
static size_t at = 0;
static uint64_t steps = 0, switches = 0;
static bool alive[MAX], blocked[MAX];
static sem_t baton[MAX], finished;
static bool stuck = false;
static std::string* report = nullptr;

struct Clock
{
    uint32_t c[MAX] = {0, 0, 0, 0};
    void join(const Clock& o)
    {
        for (int i = 0; i < MAX; i++)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};
static Clock vc[MAX];
struct Cell
{
    uint32_t rc[MAX] = {0, 0, 0, 0}, wc[MAX] = {0, 0, 0, 0};
    uint8_t rm[MAX] = {0, 0, 0, 0}, wm[MAX] = {0, 0, 0, 0};
    void* rp[MAX];
    void* wp[MAX];
};
static std::unordered_map<uintptr_t, Cell>* shadow = nullptr;
static std::unordered_map<uintptr_t, Clock>* sync = nullptr;

struct Busy
{
    Busy()
    {
        ++busy;
    }
    ~Busy()
    {
        --busy;
    }
};

static int pick(int wish)
{
    for (int i = 0; i < count; i++)
    {
        const int t = (wish + i) % count;
        if (alive[t] && !blocked[t])
            return t;
    }
    return -1;
}

static void give(int to)
{
    const int from = me;
    if (to == from)
        return;
    switches++;
    sem_post(&baton[to]);
    while (sem_wait(&baton[from]) != 0)
    {}
}

static inline bool on()
{
    return me >= 0 && busy == 0 && glue::g_window > 0 && glue::g_pause == 0;
}

static void step()
{
    steps++;
    bool moved = false;
    int to = me;
    while (at < plan->size() && steps >= (*plan)[at].first)
    {
        to = (*plan)[at].second % count;
        at++;
        moved = true;
    }
    if (moved)
        give(pick(to));
}

// the running thread cannot go on: hands over, returns when some other thread has let it
static void wait_for_others()
{
    blocked[me] = true;
    const int to = pick(me + 1);
    if (to < 0)
    {
        stuck = true;
        sem_post(&finished);
        for (;;)
        {
            sem_t s;
            sem_init(&s, 0, 0);
            sem_wait(&s);
        }
    }
    give(to);
}

static void wake()
{
    for (int i = 0; i < count; i++)
        blocked[i] = false;
}

static uintptr_t base()
{
    static uintptr_t b = 0;
    if (b == 0)
        dl_iterate_phdr(
                [](dl_phdr_info* i, size_t, void* p) {
                    *static_cast<uintptr_t*>(p) = i->dlpi_addr;
                    return 1;
                },
                &b);
    return b;
}

static void race(uintptr_t a, const char* k1, void* p1, const char* k2, void* p2)
{
    (void)a;
    if (report->size() > 2000)
        return;
    char t[120];
    snprintf(t, sizeof(t), "%s:%lx:%s:%lx", k1, static_cast<unsigned long>(reinterpret_cast<uintptr_t>(p1) - base()), k2,
            static_cast<unsigned long>(reinterpret_cast<uintptr_t>(p2) - base()));
    if (report->find(t) == std::string::npos)
        *report += (report->empty() ? "" : ",") + std::string(t);
}

static void touch8(uintptr_t g, uint8_t mask, bool write, void* pc)
{
    Cell& c = (*shadow)[g];
    const int t = me;
    for (int u = 0; u < count; u++)
    {
        if (u == t)
            continue;
        if (c.wc[u] > vc[t].c[u] && (c.wm[u] & mask))
            race(g, "write", c.wp[u], write ? "write" : "read", pc);
        if (write && c.rc[u] > vc[t].c[u] && (c.rm[u] & mask))
            race(g, "read", c.rp[u], "write", pc);
    }
    const uint32_t e = vc[t].c[t];
    if (write)
    {
        c.wm[t] = c.wc[t] == e ? c.wm[t] | mask : mask;
        c.wc[t] = e;
        c.wp[t] = pc;
    }
    else
    {
        c.rm[t] = c.rc[t] == e ? c.rm[t] | mask : mask;
        c.rc[t] = e;
        c.rp[t] = pc;
    }
}

static void access(void* p, size_t n, bool write, void* pc)
{
    if (!on() || n == 0)
        return;
    Busy b;
    step();
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    const uintptr_t e = a + n;
    while (a < e)
    {
        const uintptr_t g = a >> 3, next = (g + 1) << 3, to = next < e ? next : e;
        uint8_t m = 0;
        for (uintptr_t x = a; x < to; x++)
            m |= static_cast<uint8_t>(1u << (x & 7));
        touch8(g, m, write, pc);
        a = to;
    }
}

static void acquire(const void* p)
{
    vc[me].join((*sync)[reinterpret_cast<uintptr_t>(p)]);
}
static void release(const void* p)
{
    (*sync)[reinterpret_cast<uintptr_t>(p)].join(vc[me]);
    vc[me].c[me]++;
}
static void atomic(const volatile void* p)
{
    if (!on())
        return;
    Busy b;
    step();
    acquire(const_cast<const void*>(p));
    release(const_cast<const void*>(p));
}

static void forget(void* p, size_t n)
{
    if (me < 0 || busy || !shadow || n > (1u << 22))
        return;
    Busy b;
    const uintptr_t a = reinterpret_cast<uintptr_t>(p) >> 3, e = (reinterpret_cast<uintptr_t>(p) + n + 7) >> 3;
    if (shadow->empty())
        return;
    for (uintptr_t g = a; g < e; g++)
        shadow->erase(g);
}

struct Job
{
    int n;
    const std::function<void(int)>* f;
};

static void* body(void* x)
{
    Job* j = static_cast<Job*>(x);
    const int n = j->n;
    while (sem_wait(&baton[n]) != 0)
    {}
    me = n;
    (*j->f)(n);
    ++busy;
    alive[n] = false;
    wake(); // conservative: whoever waits tries again
    const int to = pick(n + 1);
    me = -1;
    if (to >= 0)
        sem_post(&baton[to]);
    else
        sem_post(&finished);
    return nullptr;
}

Outcome run(int n, const std::vector<std::pair<uint64_t, int>>& p, const std::function<void(int)>& f)
{
    std::vector<std::pair<uint64_t, int>> copy(p);
    std::string rep;
    std::unordered_map<uintptr_t, Cell> sh;
    std::unordered_map<uintptr_t, Clock> sy;
    plan = &copy;
    report = &rep;
    shadow = &sh;
    sync = &sy;
    at = 0;
    steps = switches = 0;
    count = n;
    stuck = false;
    sem_init(&finished, 0, 0);
    std::vector<Job> jobs;
    std::vector<pthread_t> th(static_cast<size_t>(n));
    for (int i = 0; i < n; i++)
    {
        alive[i] = true;
        blocked[i] = false;
        sem_init(&baton[i], 0, 0);
        vc[i] = Clock();
        vc[i].c[i] = 1;
        jobs.push_back(Job{i, &f});
    }
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstacksize(&attr, 64u << 20);
    for (int i = 0; i < n; i++)
        pthread_create(&th[static_cast<size_t>(i)], &attr, body, &jobs[static_cast<size_t>(i)]);
    pthread_attr_destroy(&attr);
    sem_post(&baton[0]);
    while (sem_wait(&finished) != 0)
    {}
    if (!stuck)
        for (auto& t : th)
            pthread_join(t, nullptr);
    Outcome o;
    o.stuck = stuck;
    o.steps = steps;
    o.switches = switches;
    o.races = rep;
    shadow = nullptr;
    sync = nullptr;
    plan = nullptr;
    return o;
}
} // namespace sched

using namespace sched;

void* operator new(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    forget(p, n);
    return p;
}
void* operator new[](size_t n)
{
    return operator new(n);
}
void operator delete(void* p) noexcept
{
    free(p);
}
void operator delete[](void* p) noexcept
{
    free(p);
}
void operator delete(void* p, size_t) noexcept
{
    free(p);
}
void operator delete[](void* p, size_t) noexcept
{
    free(p);
}

#define PC __builtin_return_address(0)
extern "C"
{
// exception objects come straight from malloc: their memory has no history either
void* __cxa_allocate_exception(size_t n) noexcept
{
    using F = void* (*)(size_t);
    static F real = nullptr;
    if (!real)
        real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "__cxa_allocate_exception"));
    void* p = real(n);
    forget(p, n);
    return p;
}

void __tsan_init()
{}
void __tsan_func_entry(void*)
{}
void __tsan_func_exit()
{}
#define RW(N)                                              \
    void __tsan_read##N(void* p)                           \
    {                                                      \
        access(p, N, false, PC);                           \
    }                                                      \
    void __tsan_write##N(void* p)                          \
    {                                                      \
        access(p, N, true, PC);                            \
    }                                                      \
    void __tsan_unaligned_read##N(void* p)                 \
    {                                                      \
        access(p, N, false, PC);                           \
    }                                                      \
    void __tsan_unaligned_write##N(void* p)                \
    {                                                      \
        access(p, N, true, PC);                            \
    }                                                      \
    void __tsan_read_write##N(void* p)                     \
    {                                                      \
        access(p, N, false, PC);                           \
        access(p, N, true, PC);                            \
    }                                                      \
    void __tsan_unaligned_read_write##N(void* p)           \
    {                                                      \
        access(p, N, false, PC);                           \
        access(p, N, true, PC);                            \
    }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n)
{
    access(p, n, false, PC);
}
void __tsan_write_range(void* p, size_t n)
{
    access(p, n, true, PC);
}
void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v)
        access(p, 8, true, PC);
}
void __tsan_vptr_read(void** p)
{
    access(p, 8, false, PC);
}
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    access(const_cast<void*>(s), n, false, PC);
    access(d, n, true, PC);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    access(const_cast<void*>(s), n, false, PC);
    access(d, n, true, PC);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n)
{
    access(d, n, true, PC);
    return memset(d, v, n);
}
void __tsan_ignore_thread_begin()
{}
void __tsan_ignore_thread_end()
{}
void __tsan_atomic_thread_fence(int)
{}
void __tsan_atomic_signal_fence(int)
{}
#define AT(B, T)                                                                               \
    T __tsan_atomic##B##_load(const volatile T* p, int)                                        \
    {                                                                                          \
        atomic(p);                                                                             \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                           \
    }                                                                                          \
    void __tsan_atomic##B##_store(volatile T* p, T v, int)                                     \
    {                                                                                          \
        atomic(p);                                                                             \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                              \
    }                                                                                          \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int)                                     \
    {                                                                                          \
        atomic(p);                                                                             \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                    \
    }                                                                                          \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int)                                    \
    {                                                                                          \
        atomic(p);                                                                             \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                     \
    }                                                                                          \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int)                                    \
    {                                                                                          \
        atomic(p);                                                                             \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                     \
    }                                                                                          \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int)                                    \
    {                                                                                          \
        atomic(p);                                                                             \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                     \
    }                                                                                          \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int)                                     \
    {                                                                                          \
        atomic(p);                                                                             \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                      \
    }                                                                                          \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int)                                    \
    {                                                                                          \
        atomic(p);                                                                             \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                     \
    }                                                                                          \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int)                                   \
    {                                                                                          \
        atomic(p);                                                                             \
        return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                    \
    }                                                                                          \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int)         \
    {                                                                                          \
        atomic(p);                                                                             \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    }                                                                                          \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int)           \
    {                                                                                          \
        atomic(p);                                                                             \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    }                                                                                          \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int, int)               \
    {                                                                                          \
        atomic(p);                                                                             \
        __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);       \
        return e;                                                                              \
    }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// first use of function-local statics
int __cxa_guard_acquire(uint64_t* g)
{
    uint8_t* b = reinterpret_cast<uint8_t*>(g);
    if (me < 0)
    {
        if (b[0])
            return 0;
        b[1] = 1;
        return 1;
    }
    Busy x;
    while (!b[0] && b[1])
        wait_for_others();
    acquire(g);
    if (b[0])
        return 0;
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g)
{
    uint8_t* b = reinterpret_cast<uint8_t*>(g);
    if (me >= 0)
    {
        Busy x;
        release(g);
        wake();
    }
    b[0] = 1;
    b[1] = 0;
}
void __cxa_guard_abort(uint64_t* g)
{
    uint8_t* b = reinterpret_cast<uint8_t*>(g);
    if (me >= 0)
    {
        Busy x;
        release(g);
        wake();
    }
    b[1] = 0;
}

#define REAL(name) static auto real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
#define LOCK(name, try_name, type)                    \
    int name(type* m) noexcept                        \
    {                                                 \
        REAL(name);                                   \
        if (me < 0 || busy)                           \
            return real(m);                           \
        Busy b;                                       \
        int r;                                        \
        while ((r = try_name(m)) == EBUSY)            \
            wait_for_others();                        \
        if (r == 0)                                   \
            acquire(m);                               \
        return r;                                     \
    }
#define UNLOCK(name, type)                            \
    int name(type* m) noexcept                        \
    {                                                 \
        REAL(name);                                   \
        if (me >= 0 && !busy)                         \
        {                                             \
            Busy b;                                   \
            release(m);                               \
            wake();                                   \
        }                                             \
        return real(m);                               \
    }
LOCK(pthread_mutex_lock, pthread_mutex_trylock, pthread_mutex_t)
UNLOCK(pthread_mutex_unlock, pthread_mutex_t)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t)
LOCK(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_t)
UNLOCK(pthread_rwlock_unlock, pthread_rwlock_t)
int pthread_once(pthread_once_t* c, void (*f)())
{
    REAL(pthread_once);
    if (me < 0 || busy)
        return real(c, f);
    {
        Busy b;
        while (*c == 1)
            wait_for_others();
        acquire(c);
        if (*c == 2)
            return 0;
        *c = 1;
    }
    try
    {
        f();
    }
    catch (...)
    {
        *c = 0;
        Busy b;
        wake();
        throw;
    }
    Busy b;
    *c = 2;
    release(c);
    wake();
    return 0;
}
}
#pragma clang attribute pop
