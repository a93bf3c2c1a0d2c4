// Own run-time for code compiled with -fsanitize=thread instrumentation (not linked with ThreadSanitizer): every
// memory access of the threads under test is recorded, and two accesses to the same bytes by different threads, one
// of them a write, that are not ordered by happens-before (atomics, guards of static locals, mutexes) are conflicts.
// Threads without conflicts commute: one schedule then stands for every interleaving of their memory accesses.
// The threads under test are scheduled by semaphores that do not count as synchronisation; their allocations come from
// arenas that are not reused within an execution, so that an address means one object.
#pragma once
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#pragma clang attribute push(__attribute__((disable_sanitizer_instrumentation)), apply_to = function)

extern "C"
{
    void* __libc_malloc(size_t);
    void* __libc_calloc(size_t, size_t);
    void* __libc_realloc(void*, size_t);
    void* __libc_memalign(size_t, size_t);
    void __libc_free(void*);
}

namespace rt
{
enum
{
    MAXT = 3,
    CAP = 1 << 17
};
constexpr size_t ARENA = size_t(64) << 20;
struct Cell
{
    uint64_t key;  // granule
    uint32_t gen;
    uint8_t r[MAXT], w[MAXT];
    uint32_t rc[MAXT], wc[MAXT];
    void* pc[MAXT];
};
struct Sync
{
    uint64_t addr;
    uint32_t gen;
    uint32_t vc[MAXT];
};
struct Race
{
    uint64_t addr;
    int t, u, opt, opu;
    bool wt;
    void *pct, *pcu;
};
struct Glob
{
    Cell* cells;
    Sync sync[1024];
    uint32_t gen;
    size_t used;
    char* arena;
    size_t off[MAXT];
    uint32_t vc[MAXT][MAXT];
    int op[MAXT];
    bool raced, overflow;
    Race race;
    uint64_t accesses, conflictsChecked;
};
static Glob G;
static __thread int tid = -1;     // thread under test
static __thread bool rec = false;  // within an operation under test

static inline bool inArena(const void* p)
{
    return G.arena && (const char*)p >= G.arena && (const char*)p < G.arena + ARENA * MAXT;
}
static void init()
{
    if (G.cells)
        return;
    G.cells = (Cell*)mmap(nullptr, sizeof(Cell) * CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    G.arena = (char*)mmap(nullptr, ARENA * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void begin()
{
    init();
    ++G.gen;
    G.used = 0;
    G.raced = G.overflow = false;
    G.accesses = 0;
    for (int i = 0; i < MAXT; ++i)
    {
        G.off[i] = 0;
        for (int j = 0; j < MAXT; ++j) G.vc[i][j] = i == j;
        G.op[i] = -1;
    }
}
static inline void access1(uint64_t gran, uint8_t mask, bool write, void* pc)
{
    uint64_t h = (gran * 0x9E3779B97F4A7C15ull) >> 40;
    Cell* c;
    for (;; ++h)
    {
        c = &G.cells[h & (CAP - 1)];
        if (c->gen != G.gen)
        {
            if (++G.used > CAP / 2)
            {
                G.overflow = true;
                --G.used;
                return;
            }
            memset(c, 0, sizeof *c);
            c->gen = G.gen;
            c->key = gran;
            break;
        }
        if (c->key == gran)
            break;
    }
    int t = tid;
    const uint32_t* vc = G.vc[t];
    for (int u = 0; u < MAXT; ++u)
    {
        if (u == t)
            continue;
        bool cw = (c->w[u] & mask) && c->wc[u] > vc[u], cr = write && (c->r[u] & mask) && c->rc[u] > vc[u];
        if ((cw || cr) && !G.raced)
        {
            G.raced = true;
            G.race.addr = gran << 3;
            G.race.t = t;
            G.race.u = u;
            G.race.opt = G.op[t];
            G.race.opu = G.op[u];
            G.race.wt = write;
            G.race.pct = pc;
            G.race.pcu = c->pc[u];
        }
    }
    uint8_t& m = write ? c->w[t] : c->r[t];
    uint32_t& k = write ? c->wc[t] : c->rc[t];
    if (k != vc[t])
    {
        k = vc[t];
        m = 0;
    }
    m |= mask;
    c->pc[t] = pc;
}
static inline void access(const void* p, size_t n, bool write, void* pc)
{
    if (!rec || tid < 0)
        return;
    ++G.accesses;
    uint64_t a = (uint64_t)p, e = a + n;
    while (a < e)
    {
        uint64_t g = a >> 3, ge = (g + 1) << 3, x = e < ge ? e : ge;
        access1(g, uint8_t(((1u << (x - a)) - 1) << (a & 7)), write, pc);
        a = x;
    }
}
static Sync* sync(const void* p)
{
    uint64_t a = (uint64_t)p;
    for (uint64_t h = a * 0x9E3779B97F4A7C15ull >> 50;; ++h)
    {
        Sync& s = G.sync[h & 1023];
        if (s.gen != G.gen)
        {
            memset(&s, 0, sizeof s);
            s.gen = G.gen;
            s.addr = a;
            return &s;
        }
        if (s.addr == a)
            return &s;
    }
}
static void acquire(const void* p)
{
    if (!rec || tid < 0)
        return;
    Sync* s = sync(p);
    for (int i = 0; i < MAXT; ++i)
        if (s->vc[i] > G.vc[tid][i])
            G.vc[tid][i] = s->vc[i];
}
static void release(const void* p)
{
    if (!rec || tid < 0)
        return;
    Sync* s = sync(p);
    for (int i = 0; i < MAXT; ++i)
        if (G.vc[tid][i] > s->vc[i])
            s->vc[i] = G.vc[tid][i];
    ++G.vc[tid][tid];
}
static void* bump(size_t n, size_t al)
{
    size_t& o = G.off[tid];
    if (al < 16)
        al = 16;
    o = (o + 16 + al - 1) / al * al;  // the size is kept before the block
    char* p = G.arena + ARENA * size_t(tid) + o;
    if (o + n > ARENA)
        return nullptr;
    ((size_t*)p)[-1] = n;
    o += n;
    return p;
}
}  // namespace rt

extern "C"
{
    void* malloc(size_t n) noexcept { return rt::tid >= 0 ? rt::bump(n, 16) : __libc_malloc(n); }
    void free(void* p) noexcept
    {
        if (!rt::inArena(p))
            __libc_free(p);
    }
    void* calloc(size_t n, size_t m) noexcept
    {
        if (rt::tid < 0)
            return __libc_calloc(n, m);
        void* p = rt::bump(n * m, 16);
        if (p)
            memset(p, 0, n * m);
        return p;
    }
    void* realloc(void* q, size_t n) noexcept
    {
        if (rt::tid < 0 && !rt::inArena(q))
            return __libc_realloc(q, n);
        void* p = malloc(n);
        if (p && q && rt::inArena(q))
            memcpy(p, q, ((size_t*)q)[-1] < n ? ((size_t*)q)[-1] : n);
        return p;
    }
    void* memalign(size_t a, size_t n) noexcept { return rt::tid >= 0 ? rt::bump(n, a) : __libc_memalign(a, n); }
    void* aligned_alloc(size_t a, size_t n) noexcept { return memalign(a, n); }
    int posix_memalign(void** q, size_t a, size_t n) noexcept
    {
        *q = memalign(a, n);
        return *q ? 0 : ENOMEM;
    }

#define PC __builtin_return_address(0)
#define RW(n)                                                                     \
    void __tsan_read##n(void* p) { rt::access(p, n, false, PC); }                 \
    void __tsan_write##n(void* p) { rt::access(p, n, true, PC); }                 \
    void __tsan_unaligned_read##n(void* p) { rt::access(p, n, false, PC); }       \
    void __tsan_unaligned_write##n(void* p) { rt::access(p, n, true, PC); }       \
    void __tsan_volatile_read##n(void* p) { rt::access(p, n, false, PC); }        \
    void __tsan_volatile_write##n(void* p) { rt::access(p, n, true, PC); }        \
    void __tsan_read_write##n(void* p)                                            \
    {                                                                             \
        rt::access(p, n, false, PC);                                              \
        rt::access(p, n, true, PC);                                               \
    }                                                                             \
    void __tsan_unaligned_read_write##n(void* p)                                  \
    {                                                                             \
        rt::access(p, n, false, PC);                                              \
        rt::access(p, n, true, PC);                                               \
    }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_vptr_update(void** p, void*) { rt::access(p, sizeof(void*), true, PC); }
    void __tsan_vptr_read(void** p) { rt::access(p, sizeof(void*), false, PC); }
    void __tsan_read_range(void* p, size_t n) { rt::access(p, n, false, PC); }
    void __tsan_write_range(void* p, size_t n) { rt::access(p, n, true, PC); }
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit(void) {}
    void __tsan_init(void) {}
    void __tsan_ignore_thread_begin(void) {}
    void __tsan_ignore_thread_end(void) {}
    void* __tsan_memcpy(void* d, const void* s, size_t n)
    {
        rt::access(s, n, false, PC);
        rt::access(d, n, true, PC);
        return memcpy(d, s, n);
    }
    void* __tsan_memmove(void* d, const void* s, size_t n)
    {
        rt::access(s, n, false, PC);
        rt::access(d, n, true, PC);
        return memmove(d, s, n);
    }
    void* __tsan_memset(void* d, int c, size_t n)
    {
        rt::access(d, n, true, PC);
        return memset(d, c, n);
    }
#define AT(B, T)                                                                              \
    T __tsan_atomic##B##_load(const volatile T* p, int)                                       \
    {                                                                                         \
        rt::acquire((const void*)p);                                                          \
        return __atomic_load_n(p, 5);                                                         \
    }                                                                                         \
    void __tsan_atomic##B##_store(volatile T* p, T v, int)                                    \
    {                                                                                         \
        rt::release((const void*)p);                                                          \
        __atomic_store_n(p, v, 5);                                                            \
    }                                                                                         \
    AT1(B, T, exchange, __atomic_exchange_n)                                                  \
    AT1(B, T, fetch_add, __atomic_fetch_add)                                                  \
    AT1(B, T, fetch_sub, __atomic_fetch_sub)                                                  \
    AT1(B, T, fetch_and, __atomic_fetch_and)                                                  \
    AT1(B, T, fetch_or, __atomic_fetch_or)                                                    \
    AT1(B, T, fetch_xor, __atomic_fetch_xor)                                                  \
    AT1(B, T, fetch_nand, __atomic_fetch_nand)                                                \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int)        \
    {                                                                                         \
        rt::acquire((const void*)p);                                                          \
        rt::release((const void*)p);                                                          \
        return __atomic_compare_exchange_n(p, e, v, false, 5, 5);                             \
    }                                                                                         \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int)          \
    {                                                                                         \
        rt::acquire((const void*)p);                                                          \
        rt::release((const void*)p);                                                          \
        return __atomic_compare_exchange_n(p, e, v, false, 5, 5);                             \
    }                                                                                         \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int, int)              \
    {                                                                                         \
        rt::acquire((const void*)p);                                                          \
        rt::release((const void*)p);                                                          \
        __atomic_compare_exchange_n(p, &e, v, false, 5, 5);                                   \
        return e;                                                                             \
    }
#define AT1(B, T, N, F)                                      \
    T __tsan_atomic##B##_##N(volatile T* p, T v, int)        \
    {                                                        \
        rt::acquire((const void*)p);                         \
        rt::release((const void*)p);                         \
        return F(p, v, 5);                                   \
    }
    AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
    void __tsan_atomic_thread_fence(int)
    {
        static char fence;
        rt::acquire(&fence);
        rt::release(&fence);
        __atomic_thread_fence(5);
    }
    void __tsan_atomic_signal_fence(int) {}

    // guards of static locals and mutexes: -Wl,--wrap=...
    int __real___cxa_guard_acquire(uint64_t*);
    void __real___cxa_guard_release(uint64_t*);
    int __real_pthread_mutex_lock(pthread_mutex_t*);
    int __real_pthread_mutex_unlock(pthread_mutex_t*);
    int __wrap___cxa_guard_acquire(uint64_t* g)
    {
        rt::acquire(g);
        return __real___cxa_guard_acquire(g);
    }
    void __wrap___cxa_guard_release(uint64_t* g)
    {
        rt::release(g);
        __real___cxa_guard_release(g);
    }
    int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
    {
        int r = __real_pthread_mutex_lock(m);
        rt::acquire(m);
        return r;
    }
    int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
    {
        rt::release(m);
        return __real_pthread_mutex_unlock(m);
    }
}
#pragma clang attribute pop
