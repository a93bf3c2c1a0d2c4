// Straight-line programs over a small pool of active variables, and their reference semantics.
#pragma once
#include <XAD/XAD.hpp>
#include <new>
#include <utility>
#include <vector>
#ifndef MC_STUB
#include "mc.hpp"
#endif

namespace prog
{
// Exact truncated Taylor polynomial in 2 variables (reference model of a value with its derivatives).
template <int ORD>
struct Jet
{
    double c[ORD + 1][ORD + 1];  // c[a][b]: coefficient of x^a y^b, a+b<=ORD
    Jet(double v = 0)
    {
        for (auto& r : c)
            for (auto& x : r) x = 0;
        c[0][0] = v;
    }
    double val() const { return c[0][0]; }
    double d(int a, int b) const
    {
        double f = 1;
        for (int i = 2; i <= a; ++i) f *= i;
        for (int i = 2; i <= b; ++i) f *= i;
        return c[a][b] * f;
    }
    double maxAbs() const
    {
        double m = 0;
        for (int a = 0; a <= ORD; ++a)
            for (int b = 0; a + b <= ORD; ++b) m = std::max(m, std::fabs(d(a, b)));
        return m;
    }
    friend Jet operator+(const Jet& p, const Jet& q)
    {
        Jet r;
        for (int a = 0; a <= ORD; ++a)
            for (int b = 0; a + b <= ORD; ++b) r.c[a][b] = p.c[a][b] + q.c[a][b];
        return r;
    }
    friend Jet operator-(const Jet& p, const Jet& q)
    {
        Jet r;
        for (int a = 0; a <= ORD; ++a)
            for (int b = 0; a + b <= ORD; ++b) r.c[a][b] = p.c[a][b] - q.c[a][b];
        return r;
    }
    friend Jet operator*(const Jet& p, const Jet& q)
    {
        Jet r;
        for (int a = 0; a <= ORD; ++a)
            for (int b = 0; a + b <= ORD; ++b)
                if (p.c[a][b] != 0)
                    for (int x = 0; a + b + x <= ORD; ++x)
                        for (int y = 0; a + b + x + y <= ORD; ++y) r.c[a + x][b + y] += p.c[a][b] * q.c[x][y];
        return r;
    }
    Jet operator-() const { return Jet(0) - *this; }
};

enum Code
{
    CONST,       // v[i] = 3.0
    COPY,        // v[i] = v[j]
    MOVE,        // v[i] = std::move(v[j])
    SWAP,        // std::swap(v[i], v[j])
    DESTROY,     // ~v[i]
    CTOR_DEF,    // v[i] = new T()
    CTOR_CONST,  // new T(5.0)
    CTOR_COPY,   // new T(v[j])
    CTOR_MOVE,   // new T(std::move(v[j]))
    CTOR_MUL,    // new T(v[j]*v[k])
    ADD,
    SUB,
    MUL,         // v[i] = v[j] op v[k]
    ADDS,
    SADD,
    SUBS,
    SSUB,
    MULS,
    SMUL,
    DIVS,
    NEG,
    POS,         // v[i] = f(v[j], scalar)
    FMA,         // v[i] = v[j]*v[k] + v[j]
    DIFFSQ,      // v[i] = (v[j]+v[k])*(v[j]-v[k])
    LIN,         // v[i] = 2*v[j] - 3*v[k]
    NEST,        // v[i] = (v[j]*2 + 1) * (v[k] - v[j]) - -v[k]
    TMP,         // v[i] = T(v[j]) * v[k]
    TMPEXPR,     // v[i] = T(v[j]*v[k]) + T(v[k])
    PADD,
    PSUB,
    PMUL,        // v[i] op= v[j]
    PADDS,
    PSUBS,
    PMULS,
    PDIVS,       // v[i] op= scalar
    PADDI,
    PMULI,       // v[i] op= int
    PADDE,
    PMULE,       // v[i] op= (v[j] + v[k]) etc
    INC,
    DEC,
    POSTINC,     // v[i] = v[j]++
    POSTDEC,     // v[i] = v[j]--
    FUNC,        // v[i] = f(v[j], v[k]) by value / by ref, locals
    VEC,         // std::vector with reallocation
    COND,        // if (v[j] > v[k]) v[i] = v[j]; else v[i] = v[k] + 1
    PASSVAL,     // v[i] = value(v[j]) * v[k]
    AUTO,        // auto e = v[j]*v[k]; v[i] = e + e
    MAXF,        // v[i] = max(v[j]*2, v[k])
    SQR,         // v[i] = v[j]*v[j]*v[j]
    WIDE,        // v[i] = v[j]+v[k]+v[j]*v[k]   (4 operands)
    NCODES
};
static const char* const codeName[NCODES] = {
    "CONST", "COPY", "MOVE", "SWAP", "DESTROY", "CTOR_DEF", "CTOR_CONST", "CTOR_COPY", "CTOR_MOVE", "CTOR_MUL", "ADD", "SUB",
    "MUL", "ADDS", "SADD", "SUBS", "SSUB", "MULS", "SMUL", "DIVS", "NEG", "POS", "FMA", "DIFFSQ", "LIN", "NEST", "TMP",
    "TMPEXPR", "PADD", "PSUB", "PMUL", "PADDS", "PSUBS", "PMULS", "PDIVS", "PADDI", "PMULI", "PADDE", "PMULE", "INC", "DEC",
    "POSTINC", "POSTDEC", "FUNC", "VEC", "COND", "PASSVAL", "AUTO", "MAXF", "SQR", "WIDE"};
// number of source operands used (j, k)
inline int nsrc(int c)
{
    switch (c)
    {
        case CONST: case DESTROY: case CTOR_DEF: case CTOR_CONST: case PADDS: case PSUBS: case PMULS: case PDIVS: case PADDI:
        case PMULI: case INC: case DEC:
            return 0;
        case COPY: case MOVE: case SWAP: case CTOR_COPY: case CTOR_MOVE: case ADDS: case SADD: case SUBS: case SSUB: case MULS:
        case SMUL: case DIVS: case NEG: case POS: case PADD: case PSUB: case PMUL: case POSTINC: case POSTDEC: case SQR:
            return 1;
        default:
            return 2;
    }
}
inline bool isCtor(int c) { return c >= CTOR_DEF && c <= CTOR_MUL; }
inline bool readsTarget(int c)
{
    return c == PADD || c == PSUB || c == PMUL || c == PADDS || c == PSUBS || c == PMULS || c == PDIVS || c == PADDI ||
           c == PMULI || c == PADDE || c == PMULE || c == INC || c == DEC;
}

struct Op
{
    int code, i, j, k;
};

inline std::vector<Op> alphabet(int K, const std::vector<int>& codes)
{
    std::vector<Op> r;
    for (int c : codes)
        for (int i = 0; i < K; ++i)
        {
            int n = nsrc(c);
            for (int j = 0; j < (n > 0 ? K : 1); ++j)
                for (int k = 0; k < (n > 1 ? K : 1); ++k)
                {
                    if ((c == MOVE || isCtor(c)) && n > 0 && (i == j || (n > 1 && i == k)))
                        continue;
                    if (c == SWAP && i >= j)
                        continue;
                    r.push_back({c, i, j, k});
                }
        }
    return r;
}
inline std::vector<int> allCodes()
{
    std::vector<int> r;
    for (int i = 0; i < NCODES; ++i) r.push_back(i);
    return r;
}

template <class T>
T byValue(T x, const T& y)
{
    T t = x * y;
    x = t + x;
    return x;
}

// real side
template <class T, int K>
struct Pool
{
    typedef typename xad::ExprTraits<T>::nested_type N;
    typedef typename T::value_type S;
    // nested active types: no ++ and --, and mixed-type compound assignment takes the scalar type
    static constexpr bool nested = !std::is_same<N, S>::value;
    typename std::aligned_storage<sizeof(T), alignof(T)>::type buf[K];
    bool alive[K];
    Pool()
    {
        for (bool& a : alive) a = false;
    }
    ~Pool()
    {
        for (int i = 0; i < K; ++i)
            if (alive[i])
                kill(i);
    }
    T& operator[](int i) { return *reinterpret_cast<T*>(&buf[i]); }
    void kill(int i)
    {
        alive[i] = false;
        (*this)[i].~T();
    }
    template <class... A>
    void make(int i, A&&... a)
    {
        ::new (&buf[i]) T(std::forward<A>(a)...);
        alive[i] = true;
    }
    void apply(const Op& o)
    {
        T& a = (*this)[o.i];
        T& b = (*this)[o.j];
        T& c = (*this)[o.k];
        using std::max;
        using xad::max;
        using xad::value;
        switch (o.code)
        {
            case CONST: a = N(3); break;
            case COPY: a = b; break;
            case MOVE: a = std::move(b); break;
            case SWAP: std::swap(a, b); break;
            case DESTROY: kill(o.i); break;
            case CTOR_DEF: make(o.i); break;
            case CTOR_CONST: make(o.i, N(5)); break;
            case CTOR_COPY: make(o.i, b); break;
            case CTOR_MOVE: make(o.i, std::move(b)); break;
            case CTOR_MUL: make(o.i, b * c); break;
            case ADD: a = b + c; break;
            case SUB: a = b - c; break;
            case MUL: a = b * c; break;
            case ADDS: a = b + N(2); break;
            case SADD: a = N(2) + b; break;
            case SUBS: a = b - N(2); break;
            case SSUB: a = N(2) - b; break;
            case MULS: a = b * N(-3); break;
            case SMUL: a = N(-3) * b; break;
            case DIVS: a = b / N(2); break;
            case NEG: a = -b; break;
            case POS: a = +b; break;
            case FMA: a = b * c + b; break;
            case DIFFSQ: a = (b + c) * (b - c); break;
            case LIN: a = N(2) * b - N(3) * c; break;
            case NEST: a = (b * N(2) + N(1)) * (c - b) - -c; break;
            case TMP: a = T(b) * c; break;
            case TMPEXPR: a = T(b * c) + T(c); break;
            case PADD: a += b; break;
            case PSUB: a -= b; break;
            case PMUL: a *= b; break;
            case PADDS:
                if constexpr (nested)
                {
                    a += S(N(2));
                }
                else
                {
                    a += N(2);
                }
                break;
            case PSUBS:
                if constexpr (nested)
                {
                    a -= S(N(2));
                }
                else
                {
                    a -= N(2);
                }
                break;
            case PMULS:
                if constexpr (nested)
                {
                    a *= T(N(-2));
                }
                else
                {
                    a *= N(-2);
                }
                break;
            case PDIVS:
                if constexpr (nested)
                {
                    a /= T(N(2));
                }
                else
                {
                    a /= N(2);
                }
                break;
            case PADDI: a += 4; break;
            case PMULI:
                if constexpr (nested)
                {
                    a *= T(N(4));
                }
                else
                {
                    a *= 4;
                }
                break;
            case PADDE: a += (b + c); break;
            case PMULE: a *= (b - c); break;
            case INC:
                if constexpr (nested)
                {
                    a += T(N(1));
                }
                else
                {
                    ++a;
                }
                break;
            case DEC:
                if constexpr (nested)
                {
                    a -= T(N(1));
                }
                else
                {
                    --a;
                }
                break;
            case POSTINC:
                if constexpr (nested)
                {
                    T t(b);
                    b += 1;
                    a = t;
                }
                else
                {
                    a = b++;
                }
                break;
            case POSTDEC:
                if constexpr (nested)
                {
                    T t(b);
                    b -= 1;
                    a = t;
                }
                else
                {
                    a = b--;
                }
                break;
            case FUNC: a = byValue<T>(b, c); break;
            case VEC:
            {
                std::vector<T> v;
                v.push_back(b);
                v.push_back(c);
                v.insert(v.begin(), c);
                v.erase(v.begin() + 1);
                v.push_back(v[0] * v[1]);
                a = v[2] - v[0];
                break;
            }
            case COND:
                if (b > c)
                    a = b;
                else
                    a = c + N(1);
                break;
            case PASSVAL: passval(a, b, c); break;
            case AUTO:
            {
                auto e = b * c;
                a = e + e;
                break;
            }
            case MAXF: a = max(b * N(2), c); break;
            case SQR: a = b * b * b; break;
            case WIDE: a = b + c + b * c; break;
        }
    }
    // dependence through value() is cut; for nested types cut completely down to the plain number
    static double plain(double x) { return x; }
    static double plain(float x) { return x; }
    template <class U>
    static double plain(const U& x)
    {
        return plain(xad::value(x));
    }
    static void passval(T& a, T& b, T& c) { a = N(plain(b)) * c; }
};

// reference side
template <int ORD, int K>
struct Model
{
    struct Var
    {
        bool alive = false, valid = false;
        bool reg = false;  // registered (has a slot) in reverse mode
        Jet<ORD> x;
    } v[K];
    double big = 0;
    bool enabled(const Op& o) const
    {
        const Var& a = v[o.i];
        if (isCtor(o.code))
        {
            if (a.alive)
                return false;
        }
        else if (!a.alive)
            return false;
        int n = nsrc(o.code);
        if (n > 0 && !(v[o.j].alive && v[o.j].valid))
            return false;
        if (n > 1 && !(v[o.k].alive && v[o.k].valid))
            return false;
        if ((readsTarget(o.code) || o.code == SWAP) && !a.valid)
            return false;
        return true;
    }
    void set(Var& a, const Jet<ORD>& x, bool reg)
    {
        a.x = x;
        a.valid = true;
        a.reg = a.reg || reg;
        big = std::max(big, x.maxAbs());
    }
    void apply(const Op& o)
    {
        Var& a = v[o.i];
        typedef Jet<ORD> J;
        const Var vb = v[o.j], vc = v[o.k];
        const J b = vb.x, c = vc.x;
        int n = nsrc(o.code);
        bool r = (n > 0 && vb.reg) || (n > 1 && vc.reg);
        switch (o.code)
        {
            case CONST: set(a, J(3), false); break;
            case COPY: set(a, b, r); break;
            case MOVE:
            {
                bool ar = a.reg;
                a.x = b;
                a.valid = true;
                a.reg = vb.reg;
                v[o.j].valid = false;
                v[o.j].reg = ar;
                break;
            }
            case SWAP: std::swap(v[o.i], v[o.j]); break;
            case DESTROY: a = Var(); break;
            case CTOR_DEF: a.alive = true; set(a, J(0), false); break;
            case CTOR_CONST: a.alive = true; set(a, J(5), false); break;
            case CTOR_COPY: a.alive = true; set(a, b, r); break;
            case CTOR_MOVE:
                a.alive = true;
                set(a, b, r);
                v[o.j].valid = false;
                v[o.j].reg = false;
                break;
            case CTOR_MUL: a.alive = true; set(a, b * c, r); break;
            case ADD: set(a, b + c, r); break;
            case SUB: set(a, b - c, r); break;
            case MUL: set(a, b * c, r); break;
            case ADDS: case SADD: set(a, b + J(2), r); break;
            case SUBS: set(a, b - J(2), r); break;
            case SSUB: set(a, J(2) - b, r); break;
            case MULS: case SMUL: set(a, b * J(-3), r); break;
            case DIVS: set(a, b * J(0.5), r); break;
            case NEG: set(a, -b, r); break;
            case POS: set(a, b, r); break;
            case FMA: set(a, b * c + b, r); break;
            case DIFFSQ: set(a, (b + c) * (b - c), r); break;
            case LIN: set(a, J(2) * b - J(3) * c, r); break;
            case NEST: set(a, (b * J(2) + J(1)) * (c - b) + c, r); break;
            case TMP: set(a, b * c, r); break;
            case TMPEXPR: set(a, b * c + c, r); break;
            case PADD: set(a, a.x + b, r); break;
            case PSUB: set(a, a.x - b, r); break;
            case PMUL: set(a, a.x * b, r); break;
            case PADDS: set(a, a.x + J(2), false); break;
            case PSUBS: set(a, a.x - J(2), false); break;
            case PMULS: set(a, a.x * J(-2), false); break;
            case PDIVS: set(a, a.x * J(0.5), false); break;
            case PADDI: set(a, a.x + J(4), false); break;
            case PMULI: set(a, a.x * J(4), false); break;
            case PADDE: set(a, a.x + b + c, r); break;
            case PMULE: set(a, a.x * (b - c), r); break;
            case INC: set(a, a.x + J(1), false); break;
            case DEC: set(a, a.x - J(1), false); break;
            case POSTINC: set(v[o.j], b + J(1), false); set(a, b, r); break;
            case POSTDEC: set(v[o.j], b - J(1), false); set(a, b, r); break;
            case FUNC: set(a, b * c + b, r); break;
            case VEC: set(a, c * c - c, r && vc.reg); break;
            case COND:
                if (b.val() > c.val())
                    set(a, b, vb.reg);
                else
                    set(a, c + J(1), vc.reg);
                break;
            case PASSVAL: set(a, J(b.val()) * c, vc.reg); break;
            case AUTO: set(a, b * c * J(2), r); break;
            case MAXF:
                if (b.val() * 2 == c.val())
                    big = 1e300;  // a tie has no unique derivative: program not judged
                set(a, b.val() * 2 > c.val() ? b * J(2) : c, r); break;
            case SQR: set(a, b * b * b, r); break;
            case WIDE: set(a, b + c + b * c, r); break;
        }
    }
    uint64_t hash() const
    {
        uint64_t h = 1;
        for (auto& a : v)
        {
            h = mc::mix(h, (a.alive ? 1 : 0) | (a.valid ? 2 : 0) | (a.reg ? 4 : 0));
            if (a.alive && a.valid)
                for (int p = 0; p <= ORD; ++p)
                    for (int q = 0; p + q <= ORD; ++q) h = mc::mix(h, mc::bits(a.x.c[p][q]));
        }
        return h;
    }
};

inline std::string show(const Op& o)
{
    char b[64];
    int n = nsrc(o.code);
    if (n == 0)
        snprintf(b, sizeof b, "%s v%d", codeName[o.code], o.i);
    else if (n == 1)
        snprintf(b, sizeof b, "%s v%d, v%d", codeName[o.code], o.i, o.j);
    else
        snprintf(b, sizeof b, "%s v%d, v%d, v%d", codeName[o.code], o.i, o.j, o.k);
    return b;
}

// choose an enabled op from the alphabet (choice 0..): every alternative is enumerated
template <int ORD, int K>
const Op* chooseOp(mc::Ctx& c, const std::vector<Op>& al, const Model<ORD, K>& m, bool mayStop)
{
    // which ops are enabled depends only on the alive/valid flags
    static const std::vector<Op>* forAl = nullptr;
    static std::vector<std::vector<const Op*>> cache;
    static std::vector<bool> have;
    if (forAl != &al)
    {
        forAl = &al;
        cache.assign(1u << (2 * K), {});
        have.assign(1u << (2 * K), false);
    }
    unsigned key = 0;
    for (int i = 0; i < K; ++i) key = key * 4 + (m.v[i].alive ? 1 : 0) + (m.v[i].valid ? 2 : 0);
    auto& en = cache[key];
    if (!have[key])
    {
        have[key] = true;
        for (auto& o : al)
            if (m.enabled(o))
                en.push_back(&o);
    }
    int n = int(en.size()) + (mayStop ? 1 : 0);
    if (n == 0)
        return nullptr;
    int x = c.choose(n);
    if (mayStop)
    {
        if (x == 0)
            return nullptr;
        --x;
    }
    return en[x];
}
}  // namespace prog
