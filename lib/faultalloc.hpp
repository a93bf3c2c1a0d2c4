// Failing allocations. Link with -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,
// --wrap=posix_memalign,--wrap=free; the operators new and delete are replaced here.
// While armed, every allocation is counted, entered in a table of live blocks, and may be made to fail.
#pragma once
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>

namespace fa
{
struct State
{
    bool armed = false;
    bool sticky = false;  // once one has failed, all fail
    long count = 0;       // allocations while armed
    long failAt = -1;
    bool fired = false;
    long live = 0;  // blocks allocated while armed and not freed
};
inline State& S()
{
    static State s;
    return s;
}
constexpr size_t CAP = 1u << 14;
inline void** table()
{
    static void* t[CAP];
    return t;
}
inline size_t home(void* p) { return (uintptr_t(p) * 0x9E3779B97F4A7C15ull >> 32) & (CAP - 1); }
inline bool fails()
{
    State& s = S();
    if (!s.armed)
        return false;
    long k = s.count++;
    if (s.failAt >= 0 && (k == s.failAt || (s.sticky && s.fired)))
    {
        s.fired = true;
        return true;
    }
    return false;
}
inline void enter(void* p)
{
    State& s = S();
    if (!s.armed || !p)
        return;
    void** t = table();
    size_t i = home(p);
    while (t[i]) i = (i + 1) & (CAP - 1);
    t[i] = p;
    if (++s.live > long(CAP * 3 / 4))
        abort();
}
inline void leave(void* p)
{
    State& s = S();
    if (!p || !s.live)
        return;
    void** t = table();
    size_t i = home(p);
    while (t[i] && t[i] != p) i = (i + 1) & (CAP - 1);
    if (!t[i])
        return;
    --s.live;
    t[i] = nullptr;
    for (size_t j = (i + 1) & (CAP - 1); t[j]; j = (j + 1) & (CAP - 1))
    {
        size_t h = home(t[j]);
        if (((j - h) & (CAP - 1)) >= ((j - i) & (CAP - 1)))
        {
            t[i] = t[j];
            t[j] = nullptr;
            i = j;
        }
    }
}
// forget all (a run that was cut short)
inline void reset()
{
    if (S().live)
        for (size_t i = 0; i < CAP; ++i) table()[i] = nullptr;
    S() = State();
}
struct Off  // the harness's own allocations within an armed region
{
    bool was;
    Off() : was(S().armed) { S().armed = false; }
    ~Off() { S().armed = was; }
};
struct On
{
    bool was;
    On() : was(S().armed) { S().armed = true; }
    ~On() { S().armed = was; }
};
}  // namespace fa

extern "C"
{
    void* __real_malloc(size_t);
    void* __real_calloc(size_t, size_t);
    void* __real_realloc(void*, size_t);
    void* __real_aligned_alloc(size_t, size_t);
    int __real_posix_memalign(void**, size_t, size_t);
    void __real_free(void*);
    void* __wrap_malloc(size_t n)
    {
        void* p = fa::fails() ? nullptr : __real_malloc(n);
        fa::enter(p);
        return p;
    }
    void* __wrap_calloc(size_t n, size_t m)
    {
        void* p = fa::fails() ? nullptr : __real_calloc(n, m);
        fa::enter(p);
        return p;
    }
    void* __wrap_realloc(void* q, size_t n)
    {
        if (fa::fails())
            return nullptr;
        fa::leave(q);
        void* p = __real_realloc(q, n);
        fa::enter(p);
        return p;
    }
    void* __wrap_aligned_alloc(size_t a, size_t n)
    {
        void* p = fa::fails() ? nullptr : __real_aligned_alloc(a, n);
        fa::enter(p);
        return p;
    }
    int __wrap_posix_memalign(void** q, size_t a, size_t n)
    {
        if (fa::fails())
            return ENOMEM;
        int r = __real_posix_memalign(q, a, n);
        if (r == 0)
            fa::enter(*q);
        return r;
    }
    void __wrap_free(void* p)
    {
        fa::leave(p);
        __real_free(p);
    }
}
static void* fa_new(size_t n)
{
    void* p = fa::fails() ? nullptr : __real_malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    fa::enter(p);
    return p;
}
static void* fa_new(size_t n, std::align_val_t a)
{
    void* p = nullptr;
    if (fa::fails() || __real_posix_memalign(&p, size_t(a), n ? n : 1))
        throw std::bad_alloc();
    fa::enter(p);
    return p;
}
void* operator new(size_t n) { return fa_new(n); }
void* operator new[](size_t n) { return fa_new(n); }
void* operator new(size_t n, std::align_val_t a) { return fa_new(n, a); }
void* operator new[](size_t n, std::align_val_t a) { return fa_new(n, a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
