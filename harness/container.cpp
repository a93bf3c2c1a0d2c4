// C07: ChunkContainer<T, N> against std::vector under every operation sequence
#include "../lib/mc.hpp"
#include <XAD/ChunkContainer.hpp>
#include <map>
#include <memory>
typedef mc::Ctx Ctx;

// element type that knows which storage holds a live element
struct Tracked
{
    static std::map<const void*, int>& live()
    {
        static std::map<const void*, int> m;
        return m;
    }
    static std::string& err()
    {
        static std::string e;
        return e;
    }
    static void bad(const char* m)
    {
        if (err().empty())
            err() = m;
    }
    int v;
    void born()
    {
        if (!live().emplace(this, 1).second)
            bad("an element was constructed where one already lives");
    }
    Tracked() : v(0) { born(); }
    Tracked(int x) : v(x) { born(); }
    Tracked(const Tracked& o) : v(o.v)
    {
        if (!live().count(&o))
            bad("storage without an element was read (copied from)");
        born();
    }
    Tracked& operator=(const Tracked& o)
    {
        if (!live().count(&o))
            bad("storage without an element was read (assigned from)");
        if (!live().count(this))
            bad("storage without an element was assigned to");
        v = o.v;
        return *this;
    }
    ~Tracked()
    {
        if (!live().erase(this))
            bad("storage without an element was destroyed");
    }
};
template <class E>
struct Acc;
template <>
struct Acc<int>
{
    static int get(const int& x) { return x; }
    static const bool tracked = false;
};
template <>
struct Acc<Tracked>
{
    static int get(const Tracked& x)
    {
        if (!Tracked::live().count(&x))
        {
            Tracked::bad("an element of the container is not alive");
            return -1;
        }
        return x.v;
    }
    static const bool tracked = true;
};

template <class E, size_t N>
struct World
{
    typedef xad::ChunkContainer<E, N> C;
    std::unique_ptr<C> a[2];
    std::vector<int> m[2];
    bool moved[2] = {false, false};  // moved-from and not assigned to since
    int next = 1;
    size_t base = 0;
    World()
    {
        if (Acc<E>::tracked)
        {
            Tracked::live().clear();
            Tracked::err().clear();
        }
        a[0].reset(new C);
        a[1].reset(new C);
    }
    void check(Ctx& c, int k)
    {
        if (moved[k])
            return;
        C& x = *a[k];
        const C& cx = x;
        std::vector<int>& v = m[k];
        if (x.size() != v.size())
            c.fail("container %d: size() is %zu, expected %zu", k, x.size(), v.size());
        if (x.empty() != v.empty())
            c.fail("container %d: empty() is %d with %zu elements", k, int(x.empty()), v.size());
        for (size_t i = 0; i < v.size(); ++i)
        {
            if (Acc<E>::get(x[i]) != v[i])
                c.fail("container %d: element %zu is %d, expected %d", k, i, Acc<E>::get(x[i]), v[i]);
            if (&x[i] != &cx[i])
                c.fail("container %d: const and non-const access differ at %zu", k, i);
            if (&reinterpret_cast<E*>(x.chunk_begin()[i / N])[i % N] != &x[i])
                c.fail("container %d: chunk access differs at %zu", k, i);
        }
        // no two elements share storage
        for (size_t i = 0; i < v.size(); ++i)
            for (size_t j = i + 1; j < v.size(); ++j)
                if (&x[i] == &x[j])
                    c.fail("container %d: elements %zu and %zu share storage", k, i, j);
    }
    void iterate(Ctx& c, int k)
    {
        if (moved[k])
            return;
        C& x = *a[k];
        std::vector<int>& v = m[k];
        for (size_t b = 0; b < v.size(); ++b)
        {
            auto it = x.iterator_at(b);
            for (size_t i = b; i < v.size(); ++i)
            {
                auto at = x.iterator_at(i);
                if (!(it == at) || it != at)
                    c.fail("container %d: iterator started at %zu does not reach iterator_at(%zu)", k, b, i);
                if (Acc<E>::get(*it) != v[i] || it.operator->() != &x[i])
                    c.fail("container %d: iterator started at %zu gives a wrong element at %zu", k, b, i);
                if (i & 1)
                    ++it;
                else
                {
                    auto o = it++;
                    if (o.operator->() != &x[i])
                        c.fail("container %d: post-increment returns another position at %zu", k, i);
                }
            }
        }
    }
    void after(Ctx& c)
    {
        check(c, 0);
        check(c, 1);
        if (Acc<E>::tracked)
        {
            size_t n = m[0].size() * !moved[0] + m[1].size() * !moved[1];
            if (!Tracked::err().empty())
                c.fail("%s", Tracked::err().c_str());
            if (Tracked::live().size() != n)
                c.fail("%zu elements are alive, expected %zu", Tracked::live().size(), n);
        }
    }
    void key(Ctx& c, size_t maxres0, size_t maxres1)
    {
        uint64_t h = 77;
        for (int k = 0; k < 2; ++k)
        {
            h = mc::mix(h, m[k].size());
            h = mc::mix(h, moved[k]);
        }
        h = mc::mix(mc::mix(h, maxres0), maxres1);
        c.state(h);
    }
};

enum Op
{
    PUSH,
    EMPLACE,
    PUSH_SELF,
    APPEND,
    RESIZE,
    RESIZE_DEF,
    RESIZE_SELF,
    ASSIGN,
    ASSIGN_DEF,
    ASSIGN_SELF,
    RESERVE,
    CLEAR,
    EXTEND,
    MOVECTOR,
    MOVEASSIGN,
    SWAP,
    WRITE,
    NOP_
};
static const char* opn[] = {"push_back", "emplace_back", "push_back(own element)", "append", "resize", "resize(default)", "resize(own element)", "assign",
                            "assign(default)", "assign(own element)", "reserve", "clear", "uninitialized_extend", "move-construct", "move-assign", "std::swap", "write [i]"};

struct Cmd
{
    Op op;
    int arg;
};
// alphabet: all operations with every size argument up to M
template <class E, size_t N>
std::vector<Cmd> alphabet(int set, int M)
{
    std::vector<Cmd> A;
    auto range = [&](Op o, int lo, int hi)
    {
        for (int i = lo; i <= hi; ++i) A.push_back({o, i});
    };
    if (set == 0)  // everything
    {
        A = {{PUSH, 0}, {EMPLACE, 0}, {PUSH_SELF, 0}, {CLEAR, 0}, {MOVECTOR, 0}, {MOVEASSIGN, 0}, {SWAP, 0}, {WRITE, 0}};
        range(APPEND, 0, int(N));
        range(RESIZE, 0, M);
        range(RESIZE_SELF, 0, M);
        range(ASSIGN, 0, M);
        range(RESERVE, 0, M);
        A.push_back({RESIZE_DEF, M});
        A.push_back({RESIZE_DEF, M / 2});
        A.push_back({ASSIGN_DEF, M});
        A.push_back({ASSIGN_DEF, M / 2});
        if (!Acc<E>::tracked)
            range(EXTEND, 0, M);
    }
    else if (set == 1)  // the operations the tape performs
    {
        A = {{PUSH, 0}, {CLEAR, 0}, {MOVECTOR, 0}, {MOVEASSIGN, 0}};
        range(APPEND, 1, int(N));
        range(RESIZE, 0, M);
    }
    else  // growth only
    {
        A = {{PUSH, 0}, {APPEND, int(N)}, {APPEND, int(N) / 2 + 1}, {RESIZE, -1}, {RESIZE, 1}, {RESIZE, int(N)}, {CLEAR, 0}};
    }
    return A;
}

template <class E, size_t N>
void body(Ctx& c)
{
    int set = c.param / 100, M = c.param % 100;
    int L = c.param2 / 100 + (c.tier && c.param2 % 100 ? 1 : 0);
    std::vector<Cmd> A = alphabet<E, N>(set, M);
    size_t res[2] = {1, 1};
    {
        World<E, N> w;
        int cur = 0;
        typedef typename World<E, N>::C C;
        for (int s = 0; s < L; ++s)
        {
            Cmd k = A[c.choose(int(A.size()))];
            c.step();
            C& x = *w.a[cur];
            std::vector<int>& m = w.m[cur];
            if (c.tracing())
                c.log("container %d (size %zu): %s %d", cur, m.size(), opn[k.op], k.arg);
            int v = w.next++;
            switch (k.op)
            {
                case PUSH:
                {
                    E e(v);
                    x.push_back(e);
                    m.push_back(v);
                    break;
                }
                case EMPLACE:
                    x.emplace_back(v);
                    m.push_back(v);
                    break;
                case PUSH_SELF:
                    if (m.empty())
                        throw mc::Cut();
                    x.push_back(x[m.size() / 2]);
                    m.push_back(m[m.size() / 2]);
                    break;
                case APPEND:
                {
                    std::vector<int> src;
                    for (int i = 0; i < k.arg; ++i) src.push_back(v + 1000 * i);
                    x.append(src.begin(), src.end());
                    m.insert(m.end(), src.begin(), src.end());
                    break;
                }
                case RESIZE:
                {
                    int n = set == 2 ? int(m.size()) + k.arg : k.arg;
                    if (n < 0)
                        throw mc::Cut();
                    {
                        E e(v);
                        x.resize(size_t(n), e);
                    }
                    m.resize(size_t(n), v);
                    break;
                }
                case RESIZE_DEF:
                    x.resize(size_t(k.arg));
                    m.resize(size_t(k.arg));
                    break;
                case RESIZE_SELF:
                    if (m.empty())
                        throw mc::Cut();
                    {
                        int own = m[m.size() - 1];
                        x.resize(size_t(k.arg), x[m.size() - 1]);
                        m.resize(size_t(k.arg), own);
                    }
                    break;
                case ASSIGN:
                {
                    {
                        E e(v);
                        x.assign(size_t(k.arg), e);
                    }
                    m.assign(size_t(k.arg), v);
                    break;
                }
                case ASSIGN_DEF:
                    x.assign(size_t(k.arg));
                    m.assign(size_t(k.arg), 0);
                    break;
                case ASSIGN_SELF:
                    if (m.empty())
                        throw mc::Cut();
                    {
                        int own = m[m.size() - 1];
                        x.assign(size_t(k.arg), x[m.size() - 1]);
                        m.assign(size_t(k.arg), own);
                    }
                    break;
                case RESERVE:
                    x.reserve(size_t(k.arg));
                    res[cur] = std::max(res[cur], size_t(k.arg));
                    break;
                case CLEAR:
                    x.clear();
                    m.clear();
                    break;
                case EXTEND:
                {
                    size_t o = m.size();
                    x.uninitialized_extend(size_t(k.arg));
                    for (int i = 0; i < k.arg; ++i) m.push_back(v + 1000 * i);
                    if (x.size() != m.size())
                        c.fail("uninitialized_extend(%d) changes the size from %zu to %zu", k.arg, o, x.size());
                    for (size_t i = o; i < m.size(); ++i) x[i] = E(m[i]);
                    break;
                }
                case MOVECTOR:  // the source is destroyed afterwards; the other container is replaced
                {
                    w.a[1 - cur].reset(new C(std::move(x)));
                    w.m[1 - cur] = m;
                    m.clear();
                    w.moved[cur] = true;
                    w.moved[1 - cur] = false;
                    res[1 - cur] = res[cur];
                    if (c.choose(2))  // clearing a moved-from container leaves it empty
                    {
                        c.log("  (source cleared)");
                        x.clear();
                    }
                    cur = 1 - cur;
                    break;
                }
                case MOVEASSIGN:
                {
                    *w.a[1 - cur] = std::move(x);
                    w.m[1 - cur] = m;
                    m.clear();
                    w.moved[cur] = true;
                    w.moved[1 - cur] = false;
                    res[1 - cur] = res[cur];
                    cur = 1 - cur;
                    break;
                }
                case SWAP:
                    std::swap(*w.a[0], *w.a[1]);
                    std::swap(w.m[0], w.m[1]);
                    std::swap(w.moved[0], w.moved[1]);
                    std::swap(res[0], res[1]);
                    if (w.moved[cur])
                        cur = 1 - cur;
                    break;
                case WRITE:
                    for (size_t i = 0; i < m.size(); i += 2)
                    {
                        x[i] = E(v + int(i) * 1000);
                        m[i] = v + int(i) * 1000;
                    }
                    break;
                default: break;
            }
            for (int q = 0; q < 2; ++q) res[q] = std::max(res[q], w.m[q].size());
            w.after(c);
            if (c.param2 % 100 == 7)
                w.iterate(c, cur);
            w.key(c, res[0], res[1]);
        }
        w.iterate(c, cur);
        w.after(c);
        uint64_t h = 5;
        for (int q = 0; q < 2; ++q)
            for (int e : w.m[q]) h = mc::mix(h, uint64_t(e));
        c.outcome(h);
    }
    if (Acc<E>::tracked)
    {
        if (!Tracked::err().empty())
            c.fail("%s (at destruction)", Tracked::err().c_str());
        if (!Tracked::live().empty())
            c.fail("%zu elements are never destroyed", Tracked::live().size());
    }
}

#define SP(E, N, name, p, p2, desc) \
    S.push_back({std::string(name) + "-" + #E + "-N" + #N, desc, body<E, N>, p, p2, 2, 3})
int main(int argc, char** argv)
{
    std::vector<mc::Space> S;
#ifndef LIGHT
#define DALL 401
#define DTAPE 600
#define DGROW 800
#else
#define DALL 300
#define DTAPE 400
#define DGROW 600
#endif
    SP(Tracked, 1, "all", 4, DALL, "all operations, all sizes up to 4");
    SP(Tracked, 2, "all", 5, DALL, "all operations, all sizes up to 5");
    SP(Tracked, 3, "all", 7, DALL, "all operations, all sizes up to 7");
    SP(Tracked, 4, "all", 9, DALL, "all operations, all sizes up to 9");
    SP(int, 1, "all", 4, DALL, "all operations, all sizes up to 4");
    SP(int, 2, "all", 5, DALL, "all operations, all sizes up to 5");
    SP(int, 3, "all", 7, DALL, "all operations, all sizes up to 7");
    SP(int, 4, "all", 9, DALL, "all operations, all sizes up to 9");
    SP(Tracked, 2, "tape", 105, DTAPE + 1, "the tape's operations, all sizes up to 5");
    SP(int, 2, "tape", 105, DTAPE + 1, "the tape's operations, all sizes up to 5");
    SP(int, 3, "tape", 107, DTAPE + 1, "the tape's operations, all sizes up to 7");
    SP(int, 2, "grow", 200, DGROW + 1, "growing by one, half and whole chunks; shrinking by one");
    SP(int, 3, "grow", 200, DGROW + 1, "growing by one, half and whole chunks; shrinking by one");
    SP(Tracked, 3, "grow", 200, DGROW + 1, "growing by one, half and whole chunks; shrinking by one");
    SP(int, 4, "grow", 200, DGROW + 1, "growing by one, half and whole chunks; shrinking by one");
    return mc::mainImpl(argc, argv, S);
}
