// C08: derivatives of every function and operator, every operand form, both modes, against analytic derivatives.
#include "../lib/mc.hpp"
#include "../lib/forms.hpp"
typedef mc::Ctx Ctx;
typedef xad::AReal<R> AR;
typedef xad::FReal<R> FR;
typedef xad::Tape<R> TP;

// ---- consuming contexts
enum
{
    C_CTOR,    // V z = f
    C_ASSIGN,  // z = f, over a registered z
    C_SCALE,   // z = 3 * f
    C_MUL,     // z = f * w, w active with value 2
    C_DIV,     // z = w / f ... the derivative is rescaled, so only where the value allows
    C_ADD,     // z += f
    NCTX
};
static const char* const cnm[] = {"construct", "assign", "3*f", "f*w", "-f", "+="};
static const double cscale[] = {1, 1, 3, 2, -1, 1};
struct Out
{
    double v, da, db;
};
template <class V, class Ex>
static void store(int ctx, const V& w, V& z, const Ex& e)
{
    switch (ctx)
    {
        case C_CTOR:
        {
            V y = e;
            z = y;
            break;
        }
        case C_ASSIGN: z = e; break;
        case C_SCALE: z = R(3) * e; break;
        case C_MUL: z = e * w; break;
        case C_DIV: z = -e; break;
        case C_ADD: z += e; break;
    }
}
static TP* tape()
{
    static TP* t = new TP;
    return t;
}
// run with two inputs; call(k, x, y, one) makes the call under test and passes the result to k
template <class Call>
static Out runRev(int ctx, R a, R b, Call call)
{
    TP* t = tape();
    t->clearAll();
    AR x(a), y(b), one(R(1)), w(R(2)), z(R(0));
    t->registerInput(x);
    t->registerInput(y);
    t->registerInput(w);
    t->newRecording();
    if (ctx == C_ASSIGN)
        t->registerOutput(z);
    call([&](const auto& e) { store(ctx, w, z, e); }, x, y, one);
    t->registerOutput(z);
    xad::derivative(z) = R(1);
    t->computeAdjoints();
    return Out{double(xad::value(z)), double(xad::derivative(x)), double(xad::derivative(y))};
}
template <class Call>
static Out runFwd(int ctx, R a, R b, Call call)
{
    Out o{0, 0, 0};
    for (int k = 0; k < 2; ++k)
    {
        FR x(a), y(b), one(R(1)), w(R(2)), z(R(0));
        xad::derivative(k ? y : x) = R(1);
        call([&](const auto& e) { store(ctx, w, z, e); }, x, y, one);
        o.v = double(xad::value(z));
        (k ? o.db : o.da) = double(xad::derivative(z));
    }
    return o;
}
typedef Out (*Run)(int mode, int ctx, R a, R b);
template <class Fn, int FX>
static Out runU(int mode, int ctx, R a, R b)
{
    auto call = [](auto&& k, const auto& x, const auto&, const auto& one)
    {
        typedef std::decay_t<decltype(x)> V;
        Fn::f(k, Get<V, FX>::g(x, one));
    };
    return mode ? runFwd(ctx, a, b, call) : runRev(ctx, a, b, call);
}
template <class Fn, int FX, int FY>
static Out runB(int mode, int ctx, R a, R b)
{
    auto call = [](auto&& k, const auto& x, const auto& y, const auto& one)
    {
        typedef std::decay_t<decltype(x)> V;
        Fn::f(k, Get<V, FX>::g(x, one), Get<V, FY>::g(y, one));
    };
    return mode ? runFwd(ctx, a, b, call) : runRev(ctx, a, b, call);
}
// the same variable on both sides
template <class Fn, int FX, int FY>
static Out runS(int mode, int ctx, R a, R b)
{
    auto call = [](auto&& k, const auto& x, const auto&, const auto& one)
    {
        typedef std::decay_t<decltype(x)> V;
        Fn::f(k, Get<V, FX>::g(x, one), Get<V, FY>::g(x, one));
    };
    return mode ? runFwd(ctx, a, b, call) : runRev(ctx, a, b, call);
}
struct UCase
{
    const char* nm;
    Run run[2];  // active, expression
    LD (*d)(LD);
    bool (*dom)(LD);
    R (*p)(R);
    double abstol;  // absolute error in units of rounding
};
template <class Fn>
struct AbsTol
{
    static constexpr double v = 0;
};
// computed as 1 - tanh^2, which is exact up to the rounding of tanh
template <>
struct AbsTol<U_tanh>
{
    static constexpr double v = 4;
};
#if PART == 0
#define UC(n) {#n, {&runU<U_##n, A>, &runU<U_##n, B>}, &U_##n::d, &U_##n::dom, &U_##n::p, AbsTol<U_##n>::v},
static const UCase ucases[] = {ALL_UNARY(UC)};
static const int NU = sizeof ucases / sizeof *ucases;
#endif
struct BForm
{
    int fx, fy;
    bool same;
};
#if PART == 1
#define FORMS(X) X(A, A, 0) X(A, P, 0) X(P, A, 0) X(E, A, 0) X(A, E, 0) X(B, B, 0) X(A, A, 1) X(E, B, 1)
#elif PART == 2
#define FORMS(X) X(A, I, 0) X(I, A, 0) X(E, P, 0) X(P, E, 0) X(A, U, 0) X(U, A, 0)
#else
#define FORMS(X) X(A, F, 0) X(F, E, 0) X(B, L, 0) X(L, B, 0) X(I, E, 0) X(E, I, 0)
#endif
#define BF(X, Y, S) {X, Y, S},
static const BForm bforms[] = {FORMS(BF)};
static const int NBF = sizeof bforms / sizeof *bforms;
struct BCase
{
    const char* nm;
    Run run[NBF];
    LD (*da)(LD, LD);
    LD (*db)(LD, LD);
    bool (*doma)(LD, LD);
    bool (*domb)(LD, LD);
    R (*p)(R, R);
};
template <class Fn>
struct noInt
{
    static const bool v = false;
};
template <>
struct noInt<B_copysign>
{
    static const bool v = true;
};
template <class Fn, int FX, int FY, int SAME>
static constexpr Run mk()
{
    // copysign of an integer and an active number is not provided
    if constexpr (noInt<Fn>::v && (FX == I || FX == U || FX == L))
        return nullptr;
    else if constexpr (SAME)
        return &runS<Fn, FX, FY>;
    else
        return &runB<Fn, FX, FY>;
}
#if PART
template <class Fn>
static BCase bcase(const char* n)
{
#define MK(X, Y, S) mk<Fn, X, Y, S>(),
    return BCase{n, {FORMS(MK)}, &Fn::da, &Fn::db, &Fn::doma, &Fn::domb, &Fn::p};
}
#define BC(n) bcase<B_##n>(#n),
static const BCase bcases[] = {ALL_BINARY(BC)};
static const int NB = sizeof bcases / sizeof *bcases;
#endif

// ---- argument grids
static const LD EPS = std::numeric_limits<R>::epsilon();
static const bool DBL = sizeof(R) == 8;
static std::vector<R> grid(int mantBits, int emin, int emax)
{
    std::vector<R> g;
    g.push_back(0);
    for (int s = 0; s < 2; ++s)
        for (int e = emin; e <= emax; ++e)
            for (int m = 0; m < (1 << mantBits); ++m) g.push_back(R((s ? -1 : 1) * std::ldexp(1.0 + double(m) / (1 << mantBits), e)));
    return g;
}
static std::vector<R> special()
{
    std::vector<R> g{R(0), R(-0.0)};
    double c[] = {1e-30, 1e-9, 1e-4, 0.001, 0.1, 0.3, 0.5, 0.75, 0.9, 0.99, 1, 1.1, 1.5, 1.999, 2, 2.5, 3, 3.5, 4, 5, 5.5, 6.3, 7, 8, 9, 10, 11,
                  12.75, 16, 17, 20, 31, 33, 46341, 50000, 65536, 100000, 1e7, 3e9, 1e12};
    for (double x : c)
    {
        g.push_back(R(x));
        g.push_back(R(-x));
    }
    for (double b : {1.0, 2.0, 0.001})
    {
        g.push_back(std::nextafter(R(b), R(100)));
        g.push_back(std::nextafter(R(b), R(0)));
        g.push_back(-std::nextafter(R(b), R(0)));
    }
    for (int k = 1; k <= 8; ++k) g.push_back(R(k * M_PI / 4));
    return g;
}
// the squares and cubes in the derivative formulas must neither overflow nor underflow
static bool moderate(LD x)
{
    x = std::fabs(x);
    return x == 0 || (DBL ? x > 1e-70L && x < 1e70L : x > 1e-9L && x < 1e9L);
}
static bool representable(LD d)
{
    d = std::fabs(d);
    return d < std::numeric_limits<R>::max() / 1000 && (d == 0 || d > std::numeric_limits<R>::min() * 1000);
}
// how much the exact derivative moves within a few units of rounding of the arguments
template <class D>
static LD slack(D d, LD v, LD f, LD x)
{
    LD t = 12 * EPS * std::fabs(v);
    if (x != 0)
        t += 4 * EPS * std::fabs(f / x);
    for (int s : {-1, 1})
    {
        LD q = d(1 + s * 4 * EPS);
        if (q != q)
            return HUGE_VALL;
        t = std::max(t, 12 * EPS * std::fabs(v) + std::fabs(q - v) + (x != 0 ? 4 * EPS * std::fabs(f / x) : 0));
    }
    return t;
}
static void judge(Ctx& c, const char* what, const char* fn, const char* mode, double got, LD want, LD tol, R a, R b)
{
    c.log("  %s d/d%s: %.17g, exact %.17Lg, allowed error %.3Lg", mode, what, got, want, tol);
    if (!(std::fabs(LD(got) - want) <= tol))
        c.fail("%s %s: derivative by %s at (%.9g, %.9g) is %.17g, exact %.17Lg", mode, fn, what, double(a), double(b), got, want);
}
static const char* const mnm[] = {"reverse", "forward"};
// param: grid number; the function is the first choice, the mode and form the next
static std::vector<R>& grids(int n)
{
    static std::vector<R> g[8];
    if (g[n].empty())
        switch (n)
        {
            case 0: g[n] = special(); break;
            case 1: g[n] = DBL ? grid(5, -60, 60) : grid(5, -29, 29); break;
            case 2: g[n] = DBL ? grid(12, -30, 30) : grid(12, -29, 29); break;
            case 3: g[n] = grid(2, -4, 5); break;
            case 4: g[n] = grid(3, -8, 8); break;
            case 5: g[n] = grid(0, -24, 30); break;
            case 6: g[n] = grid(16, -20, 20); break;
        }
    return g[n];
}
#if PART == 0
static void unary(Ctx& c)
{
    const UCase& u = ucases[c.choose(NU)];
    int mode = c.choose(2), form = c.choose(2), ctx = c.param2 ? c.choose(NCTX) : 0;
    auto& g = grids(c.param);
    int hi = int(g.size()) > 256 ? c.choose((int(g.size()) + 255) / 256) * 256 : 0;
    int i = hi + c.choose(std::min(256, int(g.size()) - hi));
    R a = g[i];
    c.log("%s %s(%s), %s, x=%.9g", mnm[mode], u.nm, form ? "expr" : "active", cnm[ctx], double(a));
    if (!moderate(a) || !u.dom(a))
    {
        c.count(0);
        return;
    }
    LD want = u.d(a), f = u.p(a);
    if (!representable(want) || !(std::fabs(f) < std::numeric_limits<R>::max() / 10))
    {
        c.count(1);
        return;
    }
    LD tol = slack([&](LD s) { return u.d(LD(a) * s); }, want, f, a);
    tol += u.abstol * EPS;
    c.step();
    Out o = u.run[form](mode, ctx, a, R(1));
    c.outcome(mc::mix(mc::bits(o.da), mc::bits(o.v)));
    c.state(mc::mix(mc::mix(u.nm[0] * 131 + u.nm[1], mc::bits(double(a))), form * 10 + mode));
    LD k = cscale[ctx];
    judge(c, "x", u.nm, mnm[mode], o.da, k * want, std::fabs(k) * tol, a, a);
    c.expectEq(o.db, 0, "derivative by the variable not used");
}
#else
static void binary(Ctx& c)
{
    const BCase& u = bcases[c.choose(NB)];
    int mode = c.choose(2), form = c.choose(NBF), ctx = c.param2 ? c.choose(NCTX) : 0;
    auto& g = grids(c.param);
    R a = g[c.choose(int(g.size()))], b = g[c.choose(int(g.size()))];
    const BForm& f = bforms[form];
    if (f.same)
    {
        if (a != b)
            return;
    }
    c.log("%s %s(%s, %s)%s, %s, x=%.9g y=%.9g", mnm[mode], u.nm, fnm[f.fx], fnm[f.fy], f.same ? " of the same variable" : "", cnm[ctx], double(a),
          double(b));
    if (!u.run[form] || !fits(f.fx, a) || !fits(f.fy, b) || !moderate(a) || !moderate(b))
    {
        c.count(0);
        return;
    }
    bool ga = u.doma(a, b) && activeForm(f.fx), gb = u.domb(a, b) && activeForm(f.fy);
    LD v = u.p(a, b), wa = ga ? u.da(a, b) : 0, wb = gb ? u.db(a, b) : 0;
    if (!(std::fabs(v) < std::numeric_limits<R>::max() / 1000) || (v != 0 && std::fabs(v) < std::numeric_limits<R>::min() * 1000))
    {
        c.count(1);
        return;
    }
    ga = ga && representable(wa);
    gb = gb && representable(wb);
    // forward mode combines both partial derivatives
    if (activeForm(f.fx) && activeForm(f.fy) && (mode == 1 || f.same))
        ga = gb = ga && gb;
    if (!ga && !gb)
    {
        c.count(2);
        return;
    }
    c.step();
    Out o = u.run[form](mode, ctx, a, b);
    c.outcome(mc::mix(mc::bits(o.da), mc::bits(o.db)));
    c.state(mc::mix(mc::mix(u.nm[0] * 131 + u.nm[2], mc::bits(double(a))), mc::mix(mc::bits(double(b)), form * 10 + mode)));
    LD k = cscale[ctx];
    LD ta = ga ? slack([&](LD s) { return u.da(LD(a) * s, b); }, wa, v, a) + slack([&](LD s) { return u.da(a, LD(b) * s); }, wa, 0, b) : 0;
    LD tb = gb ? slack([&](LD s) { return u.db(LD(a) * s, b); }, wb, v, b) + slack([&](LD s) { return u.db(a, LD(b) * s); }, wb, 0, a) : 0;
    if (f.same)
    {
        judge(c, "x", u.nm, mnm[mode], o.da, k * (wa + wb), std::fabs(k) * (ta + tb + 8 * EPS * (std::fabs(wa) + std::fabs(wb))), a, b);
        return;
    }
    if (ga)
        judge(c, "x", u.nm, mnm[mode], o.da, k * wa, std::fabs(k) * ta, a, b);
    else if (!activeForm(f.fx))
        c.expectEq(o.da, 0, "derivative by the passive operand");
    if (gb)
        judge(c, "y", u.nm, mnm[mode], o.db, k * wb, std::fabs(k) * tb, a, b);
    else if (!activeForm(f.fy))
        c.expectEq(o.db, 0, "derivative by the passive operand");
}
#endif
int main(int argc, char** argv)
{
    std::vector<mc::Space> s = {
#if PART == 0
        {"unary-special", "every unary function, mode, form and consuming context on the special arguments", unary, 0, 1, 2, 3},
        {"unary-5", "every unary function, mode and form on every argument with 5 mantissa bits", unary, 1, 0, 2, 3},
        {"unary-12", "every unary function, mode and form on every argument with 12 mantissa bits", unary, 2, 0, 2, 2},
        {"unary-16", "every unary function, mode and form on every argument with 16 mantissa bits", unary, 6, 0, 2, 2},
#else
        {"binary-special", "every binary function, mode and operand form on every pair of special arguments", binary, 0, 0, 2, 3},
        {"binary-ctx", "every binary function, mode, form and consuming context on pairs with 2 mantissa bits", binary, 3, 1, 2, 3},
        {"binary-3", "every binary function, mode and form on pairs with 3 mantissa bits", binary, 4, 0, 3, 2},
        {"binary-pow2", "every binary function, mode and form on pairs of powers of two", binary, 5, 0, 2, 2},
#endif
    };
    return mc::mainImpl(argc, argv, s);
}
