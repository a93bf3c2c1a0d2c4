// C09: values of every function and operator on active types, bit for bit those on plain numbers.
#include "../lib/mc.hpp"
#include "../lib/forms.hpp"
#include <cstring>
#include <sstream>
#include <unordered_set>
typedef mc::Ctx Ctx;
typedef xad::AReal<R> AR;
typedef xad::FReal<R> FR;
typedef xad::Tape<R> TP;
static const LD EPS = std::numeric_limits<R>::epsilon();
static const R INF = std::numeric_limits<R>::infinity(), NaN = std::numeric_limits<R>::quiet_NaN(), MAX = std::numeric_limits<R>::max(),
               MIN = std::numeric_limits<R>::min(), SUB = std::numeric_limits<R>::denorm_min();
static bool same(R a, R b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }

// ---- what a value is computed on
enum
{
    M_FWD,    // forward-mode variables
    M_REC,    // reverse mode, registered and recorded
    M_UNREG,  // reverse mode, tape active, not registered
    M_NOTAPE  // reverse mode without a tape
};
static const char* const mnm[] = {"forward", "recorded", "unregistered", "no tape"};
static TP* tape(bool on)
{
    static TP* t = new TP(false);
    if (on && !t->isActive())
        t->activate();
    if (!on)
        t->deactivate();
    return t;
}
struct Res
{
    R ex, ctor, std;  // value of the expression, of a variable made from it, and the same through the std:: name
    R ip, sip;
    int in, sin;  // modf's and frexp's / remquo's second result, both ways
};
template <class V, class F, class S>
static Res evalOn(const V& x, const V& y, const V& one, F f, S s)
{
    Res r{};
    g_int = -99;
    g_ipart = R(-99);
    f(
        [&](const auto& e)
        {
            r.ex = val0(e);
            V z = e;
            r.ctor = val0(z);
        },
        x, y, one);
    r.in = g_int;
    r.ip = g_ipart;
    g_int = -99;
    g_ipart = R(-99);
    s(
        [&](const auto& e)
        {
            V z = e;
            r.std = val0(z);
        },
        x, y, one);
    r.sin = g_int;
    r.sip = g_ipart;
    return r;
}
template <class F, class S>
static Res eval1(int mode, R a, R b, F f, S s)
{
    if (mode == M_FWD)
    {
        FR x(a), y(b), one(R(1));
        xad::derivative(x) = R(1);
        return evalOn(x, y, one, f, s);
    }
    TP* t = tape(mode != M_NOTAPE);
    if (mode == M_REC)
        t->clearAll();
    AR x(a), y(b), one(R(1));
    if (mode == M_REC)
    {
        t->registerInput(x);
        t->registerInput(y);
        t->newRecording();
    }
    return evalOn(x, y, one, f, s);
}
template <class V, class F, class S>
static Res evalN(R a, R b, F f, S s)
{
    tape(false);
    V x(a), y(b), one(R(1));
    return evalOn(x, y, one, f, s);
}
#ifndef NEST
#define RUN(f, s) return eval1(mode, a, b, f, s)
#define NMODE 4
#else
typedef xad::FReal<FR> FF;
typedef xad::AReal<FR> AF_;
typedef xad::FReal<AR> FA;
typedef xad::AReal<AR> AA;
static const char* const nmn[] = {"FReal<FReal>", "AReal<FReal>", "FReal<AReal>", "AReal<AReal>"};
#if NEST == 0
#define RUN(f, s) return mode == 0 ? evalN<FF>(a, b, f, s) : evalN<AA>(a, b, f, s)
#define NNAME(m) nmn[(m) ? 3 : 0]
#else
#define RUN(f, s) return mode == 0 ? evalN<AF_>(a, b, f, s) : evalN<FA>(a, b, f, s)
#define NNAME(m) nmn[1 + (m)]
#endif
#define NMODE 2
#endif
#ifndef NNAME
#define NNAME(m) mnm[m]
#endif
typedef Res (*Run)(int, R, R);
template <class Fn, int FX>
static Res runU(int mode, R a, R b)
{
    auto f = [](auto&& k, const auto& x, const auto&, const auto& one) { Fn::f(k, Get<std::decay_t<decltype(x)>, FX>::g(x, one)); };
    auto s = [](auto&& k, const auto& x, const auto&, const auto& one) { Fn::s(k, Get<std::decay_t<decltype(x)>, FX>::g(x, one)); };
    RUN(f, s);
}
template <class Fn, int FX, int FY>
static Res runB(int mode, R a, R b)
{
    auto f = [](auto&& k, const auto& x, const auto& y, const auto& one)
    {
        typedef std::decay_t<decltype(x)> V;
        Fn::f(k, Get<V, FX>::g(x, one), Get<V, FY>::g(y, one));
    };
    auto s = [](auto&& k, const auto& x, const auto& y, const auto& one)
    {
        typedef std::decay_t<decltype(x)> V;
        // std::max and std::min need operands of one type
        if constexpr (std::is_same_v<Fn, B_max> || std::is_same_v<Fn, B_min>)
            Fn::f(k, Get<V, FX>::g(x, one), Get<V, FY>::g(y, one));
        else
            Fn::s(k, Get<V, FX>::g(x, one), Get<V, FY>::g(y, one));
    };
    RUN(f, s);
}

// ---- arguments
static std::vector<R> special()
{
    std::vector<R> g;
    const double c[] = {0.1, 0.25, 0.3, 0.5, 0.7, 1, 1.5, 2, 2.5, 3, 3.25, 4, 5, 5.5, 7, 9, 10, 33, 88, 89.5, 100, 104, 700, 710, 745.5, 1025, 1e9, 3e9, 1e19, 1e22};
    for (R x : {R(0), SUB, R(SUB * 3), R(MIN / 2), MIN, R(MIN * 1.5), R(std::sqrt(MIN)), R(EPS / 4), R(EPS), R(1 - EPS / 2), R(1 + EPS), R(std::nextafter(R(0.5), R(0))),
                R(std::nextafter(R(0.5), R(1))), R(std::ldexp(R(1), 23)), R(std::ldexp(R(1), 24) + 1), R(std::ldexp(R(1), 52) + R(0.5)), R(std::ldexp(R(1), 53)),
                R(2147483647.), R(2147483648.), R(4294967295.), R(9223372036854774784.), R(std::sqrt(MAX) * 2), R(MAX / 2), MAX, INF, NaN})
    {
        g.push_back(x);
        g.push_back(-x);
    }
    for (double x : c)
    {
        g.push_back(R(x));
        g.push_back(R(-x));
    }
    return g;
}
static std::vector<R> lattice(int mant, int emin, int emax)
{
    std::vector<R> g{R(0), R(-0.0), INF, -INF, NaN};
    for (int s = 0; s < 2; ++s)
        for (int e = emin; e <= emax; ++e)
            for (int m = 0; m < (1 << mant); ++m) g.push_back(R((s ? -1 : 1) * std::ldexp(R(1) + R(m) / R(1 << mant), e)));
    return g;
}
static const int EB = sizeof(R) == 8 ? 1074 : 149, EM = sizeof(R) == 8 ? 1023 : 127;
static std::vector<R>& grids(int n)
{
    static std::vector<R> g[8];
    if (g[n].empty())
        switch (n)
        {
            case 0: g[n] = special(); break;
            case 1: g[n] = lattice(2, -EB, EM); break;
            case 2: g[n] = lattice(7, -EB, EM); break;
            case 3: g[n] = lattice(2, -3, 4); break;
            case 4: g[n] = lattice(sizeof(R) == 8 ? 9 : 12, -EB, EM); break;
            case 5: g[n] = lattice(0, -20, 20); break;
        }
    return g[n];
}
// how exact the value has to be: 0 bit for bit, otherwise in units of rounding of the largest magnitude involved
template <class Fn>
struct Tol
{
    static constexpr double v = 0;
};
#define TOL(F, T)                      \
    template <>                        \
    struct Tol<F>                      \
    {                                  \
        static constexpr double v = T; \
    };
TOL(U_degrees, 2)
TOL(U_radians, 2)
TOL(U_smooth_abs, 6)
TOL(B_smooth_abs2, 6)
TOL(B_smooth_max, 6)
TOL(B_smooth_min, 6)
TOL(B_smooth_max3, 6)
TOL(B_smooth_min3, 6)
static void judge(Ctx& c, const char* how, R got, R want, LD tol)
{
    c.log("  %s: %.17g, plain %.17g", how, double(got), double(want));
    if (same(got, want))
        return;
    if (tol > 0 && std::fabs(LD(got) - LD(want)) <= tol)
        return;
    c.fail("%s gives %.17g (sign %d), on plain numbers %.17g (sign %d)", how, double(got), int(std::signbit(got)), double(want), int(std::signbit(want)));
}
static void judgeAll(Ctx& c, const char* nm, const Res& r, R want, LD tol)
{
    char b[100];
    std::snprintf(b, sizeof b, "%s: the expression", nm);
    judge(c, b, r.ex, want, tol);
    std::snprintf(b, sizeof b, "%s: a variable made from it", nm);
    judge(c, b, r.ctor, want, tol);
    std::snprintf(b, sizeof b, "std::%s", nm);
    judge(c, b, r.std, want, tol);
    c.outcome(mc::bits(double(want)));
}
struct UCase
{
    const char* nm;
    Run run[2];
    R (*p)(R);
    double tol;
    int kind;  // 1: frexp, 2: modf
};
struct BCase
{
    const char* nm;
    Run run[8];
    R (*p)(R, R);
    double tol;
    int kind;  // 1: remquo, 2: max/min, 3: smooth
};
template <class Fn>
struct noInt
{
    static const bool v = std::is_same_v<Fn, B_copysign>;
};
template <class Fn, int FX, int FY>
static constexpr Run mk()
{
    if constexpr (noInt<Fn>::v && (FX == I || FX == U || FX == L))
        return nullptr;
    else
        return &runB<Fn, FX, FY>;
}
#if PART == 0
#define UC(n) {#n, {&runU<U_##n, A>, &runU<U_##n, B>}, &U_##n::p, Tol<U_##n>::v, std::is_same_v<U_##n, U_frexp> ? 1 : std::is_same_v<U_##n, U_modf> ? 2 : 0},
static const UCase ucases[] = {ALL_UNARY(UC)};
static const int NU = sizeof ucases / sizeof *ucases;
static void unary(Ctx& c)
{
    const UCase& u = ucases[c.choose(NU)];
    int mode = c.choose(NMODE), form = c.choose(2);
    auto& g = grids(c.param);
    int hi = int(g.size()) > 256 ? c.choose((int(g.size()) + 255) / 256) * 256 : 0;
    R a = g[hi + c.choose(std::min(256, int(g.size()) - hi))];
    c.log("%s %s(%s), x=%.17g", NNAME(mode), u.nm, form ? "expr" : "active", double(a));
    // formulas over several steps may overflow or underflow where the plain formula in extended precision does not
    if (u.tol > 0 && a == a && std::fabs(a) < INF && a != 0 && (std::fabs(a) > MAX / 100 || std::fabs(a) < MIN * 1e9))
        return;
#ifdef NEST
    // documented for higher orders: (x + y + abs(x - y)) / 2
    if ((!std::strcmp(u.nm, "maxself") || !std::strcmp(u.nm, "minself")) && (a == 0 || !(std::fabs(a) < MAX / 4)))
        return;
#endif
    volatile R va = a;
    R want = u.p(va);
    LD tol = u.tol * EPS * std::fabs(want);
    int e = -99;
    if (u.kind == 1)
        (void)std::frexp(R(va), &e);
    R ip = -99;
    if (u.kind == 2)
        (void)std::modf(R(va), &ip);
    c.step();
    Res r = u.run[form](mode, a, R(1));
    c.state(mc::mix(mc::mix(u.nm[0] * 131 + u.nm[1] * 7 + u.nm[2], mc::bits(double(a))), form * 10 + mode));
    judgeAll(c, u.nm, r, want, tol);
    if (u.kind == 1 && std::isfinite(a))
    {
        c.expectEq(r.in, e, "frexp: exponent");
        c.expectEq(r.sin, e, "std::frexp: exponent");
    }
    if (u.kind == 2)
    {
        judge(c, "modf: integral part", r.ip, ip, 0);
        judge(c, "std::modf: integral part", r.sip, ip, 0);
    }
}
#endif
#if PART >= 1 && PART <= 3
struct BForm
{
    int fx, fy;
};
#ifdef NEST
#define FORMS(X) X(A, A) X(A, P) X(P, A) X(E, A) X(A, E) X(E, E)
#elif PART == 1
#define FORMS(X) X(A, A) X(A, P) X(P, A) X(E, A) X(A, E) X(B, B) X(E, B)
#elif PART == 2
#define FORMS(X) X(A, I) X(I, A) X(E, P) X(P, E) X(A, U) X(U, A)
#else
#define FORMS(X) X(A, F) X(F, E) X(B, L) X(L, B) X(I, E) X(E, I)
#endif
#define BF(X, Y) {X, Y},
static const BForm bforms[] = {FORMS(BF)};
static const int NBF = sizeof bforms / sizeof *bforms;
template <class Fn>
static BCase bcase(const char* n)
{
#define MK(X, Y) mk<Fn, X, Y>(),
    int kind = std::is_same_v<Fn, B_remquo> ? 1
               : std::is_same_v<Fn, B_max> || std::is_same_v<Fn, B_min> || std::is_same_v<Fn, B_fmax> || std::is_same_v<Fn, B_fmin> ? 2
               : Tol<Fn>::v > 0 ? 3 : 0;
    return BCase{n, {FORMS(MK)}, &Fn::p, Tol<Fn>::v, kind};
}
#define BC(n) bcase<B_##n>(#n),
static const BCase bcases[] = {ALL_BINARY(BC)};
static const int NB = sizeof bcases / sizeof *bcases;
static void binary(Ctx& c)
{
    const BCase& u = bcases[c.choose(NB)];
    int mode = c.choose(NMODE), form = c.choose(NBF);
    auto& g = grids(c.param);
    R a = g[c.choose(int(g.size()))], b = g[c.choose(int(g.size()))];
    const BForm& f = bforms[form];
    c.log("%s %s(%s, %s), x=%.17g y=%.17g", NNAME(mode), u.nm, fnm[f.fx], fnm[f.fy], double(a), double(b));
    if (!u.run[form] || !fits(f.fx, a) || !fits(f.fy, b))
        return;
    bool fin = std::isfinite(a) && std::isfinite(b);
    // operands of different arithmetic types: the computation may take place in either
    bool mixed = f.fx == I || f.fy == I || f.fx == U || f.fy == U || f.fx == L || f.fy == L || f.fx == F || f.fy == F;
    if (mixed && sizeof(R) == 4 && !std::strcmp(u.nm, "nextafter"))
        return;  // the standard one computes in double for an integer
    if (u.kind == 2)
    {
        if (a != a || b != b)
            return;  // fmax and fmin are synonyms of max and min
#ifdef NEST
        if (!(std::fabs(a) < MAX / 4) || !(std::fabs(b) < MAX / 4))
            return;  // documented for higher orders: (x + y + abs(x - y)) / 2
#endif
    }
    if (u.kind == 3)
    {
        for (R x : {a, b})
            if (x == x && std::fabs(x) < INF && x != 0 && (std::fabs(x) > 1e15 || std::fabs(x) < 1e-9))
                return;
        if (!std::strcmp(u.nm, "smooth_abs2") && !(b > 0))
            return;  // documented for positive c
        if (!fin)
            return;
    }
    volatile R va = a, vb = b;
    R want = u.p(va, vb);
    LD mag = std::max({std::fabs(LD(want)), u.tol > 0 && fin ? std::fabs(LD(a)) : 0, u.tol > 0 && fin ? std::fabs(LD(b)) : 0});
    double t = u.tol;
    if (mixed)
        t = std::max(t, 2.);
#ifdef NEST
    if (u.kind == 2)
    {
        t = 4;
        mag = std::max(std::fabs(LD(a)), std::fabs(LD(b)));
    }
#endif
    LD tol = t * EPS * mag;
    if (t > 0)
        tol = std::max(tol, LD(2 * SUB));
    if (u.kind == 2 && a == 0 && b == 0)
        tol = SUB / 4;  // max(-0, 0) may be either zero
    c.step();
    int q = -99;
    if (u.kind == 1 && fin && b != 0)
        (void)std::remquo(R(va), R(vb), &q);
    Res r = u.run[form](mode, a, b);
    c.state(mc::mix(mc::mix(u.nm[0] * 131 + u.nm[2], mc::bits(double(a))), mc::mix(mc::bits(double(b)), form * 10 + mode)));
    if (u.kind == 2 && a == 0 && b == 0)
    {
        r.ex = r.ctor = r.std = std::fabs(r.ex) + std::fabs(r.ctor) + std::fabs(r.std);
        want = 0;
    }
    judgeAll(c, u.nm, r, want, tol);
    if (u.kind == 1 && fin && b != 0)
    {
        c.expectEq(r.in, q, "remquo: quotient bits");
        c.expectEq(r.sin, q, "std::remquo: quotient bits");
    }
}
#endif
int main(int argc, char** argv)
{
    std::vector<mc::Space> s = {
#if PART == 0
        {"unary-special", "every unary function in every form and mode on the special values", unary, 0, 0, 2, 3},
        {"unary-2", "... on every value with 2 mantissa bits", unary, 1, 0, 2, 3},
        {"unary-7", "... on every value with 7 mantissa bits", unary, 2, 0, 2, 2},
        {"unary-9", "... on every value with 9 (float: 12) mantissa bits", unary, 4, 0, 2, 2},
#else
        {"binary-special", "every binary function in every operand form and mode on all pairs of special values", binary, 0, 0, 2, 3},
        {"binary-2", "... on all pairs of moderate values with 2 mantissa bits", binary, 3, 0, 2, 3},
        {"binary-pow2", "... on all pairs of powers of two", binary, 5, 0, 2, 2},
#endif
    };
    return mc::mainImpl(argc, argv, s);
}
