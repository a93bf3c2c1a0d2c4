// C09: comparisons, classification, conversions, stream and formatting helpers, increments and compound assignment
// of active types against plain numbers.
#include "../lib/mc.hpp"
#include "../lib/forms.hpp"
#include <algorithm>
#include <cstring>
#include <functional>
#include <iomanip>
#include <sstream>
typedef mc::Ctx Ctx;
typedef xad::AReal<R> AR;
typedef xad::FReal<R> FR;
typedef xad::Tape<R> TP;
static const R INF = std::numeric_limits<R>::infinity(), NaN = std::numeric_limits<R>::quiet_NaN(), MAX = std::numeric_limits<R>::max(),
               MIN = std::numeric_limits<R>::min(), SUB = std::numeric_limits<R>::denorm_min(), EPS = std::numeric_limits<R>::epsilon();
static const char* const mnm[] = {"FReal", "recorded AReal", "unregistered AReal", "AReal without a tape", "FReal<FReal>", "AReal<FReal>", "FReal<AReal>", "AReal<AReal>"};
static const int NM = 8;
static bool same(R a, R b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
static TP* tape(bool on)
{
    static TP* t = new TP(false);
    if (on && !t->isActive())
        t->activate();
    if (!on)
        t->deactivate();
    return t;
}
// calls f(x, y, one) with variables of the kind
template <class V, class F>
static void with(R a, R b, F f)
{
    V x(a), y(b), one(R(1));
    f(x, y, one);
}
template <class F>
static void in(int mode, R a, R b, F f)
{
    tape(mode == 1 || mode == 2);
    switch (mode)
    {
        case 0: with<FR>(a, b, f); break;
        case 1:
        {
            TP* t = tape(true);
            t->clearAll();
            AR x(a), y(b), one(R(1));
            t->registerInput(x);
            t->registerInput(y);
            t->newRecording();
            f(x, y, one);
            break;
        }
        case 2:
        case 3: with<AR>(a, b, f); break;
        case 4: with<xad::FReal<FR>>(a, b, f); break;
        case 5: with<xad::AReal<FR>>(a, b, f); break;
        case 6: with<xad::FReal<AR>>(a, b, f); break;
        case 7: with<xad::AReal<AR>>(a, b, f); break;
    }
}
static const std::vector<R>& vals()
{
    static std::vector<R> g;
    if (g.empty())
        for (R x : {R(0), SUB, MIN, R(MIN * 3 / 2), EPS, R(0.25), R(0.5), R(1 - EPS / 2), R(1), R(1 + EPS), R(1.5), R(2), R(2.5), R(3), R(7.75), R(31), R(100), R(127), R(128), R(255),
                    R(256), R(1000.5), R(32767), R(65535), R(65536), R(8388609), R(1e9), R(2147483392.), R(4294967040.), R(1e15), R(9.2e18), R(1e20), R(MAX / 2), MAX, INF, NaN})
        {
            g.push_back(x);
            g.push_back(-x);
        }
    return g;
}
template <class X, class Y>
static int cmp6(const X& x, const Y& y)
{
    return (x == y) | (x != y) << 1 | (x < y) << 2 | (x > y) << 3 | (x <= y) << 4 | (x >= y) << 5;
}
template <int FX, int FY>
struct CmpOp
{
    template <class V>
    int operator()(const V& x, const V& y, const V& one) const
    {
        return cmp6(Get<V, FX>::g(x, one), Get<V, FY>::g(y, one));
    }
};
#define CMPFORMS(X) X(A, A) X(A, E) X(E, A) X(E, B) X(B, B) X(A, P) X(P, A) X(B, P) X(P, E) X(A, I) X(I, A) X(E, I) X(I, B)
struct CmpForm
{
    int fx, fy;
    int (*run)(int, R, R);
};
template <int FX, int FY>
static int cmpRun(int mode, R a, R b)
{
    int r = -1;
    in(mode, a, b, [&](const auto& x, const auto& y, const auto& one) { r = CmpOp<FX, FY>()(x, y, one); });
    return r;
}
#define CF(X, Y) {X, Y, &cmpRun<X, Y>},
static const CmpForm cmpForms[] = {CMPFORMS(CF)};
static void compare(Ctx& c)
{
    const CmpForm& f = cmpForms[c.choose(int(sizeof cmpForms / sizeof *cmpForms))];
    int mode = c.choose(NM);
    auto& g = vals();
    R a = g[c.choose(int(g.size()))], b = g[c.choose(int(g.size()))];
    c.log("%s: (%s) op (%s), %.9g op %.9g", mnm[mode], fnm[f.fx], fnm[f.fy], double(a), double(b));
    if (!fits(f.fx, a) || !fits(f.fy, b))
        return;
    c.step();
    int want = cmp6(a, b), got = f.run(mode, a, b);
    if (got != want)
    {
        static const char* const on[] = {"==", "!=", "<", ">", "<=", ">="};
        for (int i = 0; i < 6; ++i)
            if ((got ^ want) >> i & 1)
                c.fail("%s: (%s) %s (%s) with %.17g and %.17g is %s", mnm[mode], fnm[f.fx], on[i], fnm[f.fy], double(a), double(b), got >> i & 1 ? "true" : "false");
    }
    c.outcome(got);
    c.state(mc::mix(mc::mix(mc::bits(double(a)), mc::bits(double(b))), f.fx * 100 + f.fy * 10 + mode));
}
// ---- classification and rounding to integers
struct Cls
{
    int v[7];
    long lr;
    long long ll;
};
template <class E>
static Cls classify(const E& e, bool ints)
{
    Cls r{{xad::isnan(e), xad::isinf(e), xad::isfinite(e), xad::isnormal(e), xad::signbit(e), xad::fpclassify(e), 0}, 0, 0};
    if (ints)
        r.lr = xad::lround(e), r.ll = xad::llround(e);
    r.v[6] = xad::ilogb(e);
    return r;
}
template <class E>
static Cls classifyStd(const E& e, bool ints)
{
    Cls r{{std::isnan(e), std::isinf(e), std::isfinite(e), std::isnormal(e), std::signbit(e), std::fpclassify(e), 0}, 0, 0};
    if (ints)
        r.lr = std::lround(e), r.ll = std::llround(e);
    r.v[6] = std::ilogb(e);
    return r;
}
static std::vector<R>& lattice(int mant)
{
    static std::vector<R> g[16];
    if (g[mant].empty())
    {
        int lo = sizeof(R) == 8 ? -1074 : -149, hi = sizeof(R) == 8 ? 1023 : 127;
        g[mant] = {R(0), R(-0.0), INF, -INF, NaN, -NaN};
        for (int s = 0; s < 2; ++s)
            for (int e = lo; e <= hi; ++e)
                for (int m = 0; m < (1 << mant); ++m) g[mant].push_back(R((s ? -1 : 1) * std::ldexp(R(1) + R(m) / R(1 << mant), e)));
    }
    return g[mant];
}
static void classes(Ctx& c)
{
    int mode = c.choose(NM), form = c.choose(3);
    auto& g = lattice(c.param);
    int hi = c.choose((int(g.size()) + 255) / 256) * 256;
    R a = g[hi + c.choose(std::min(256, int(g.size()) - hi))];
    c.log("%s %s: %.17g", mnm[mode], fnm[form], double(a));
    bool ints = std::fabs(a) < R(9e18);
    Cls want = classifyStd(a, ints), got[2];
    in(mode, a, a,
       [&](const auto& x, const auto&, const auto& one)
       {
           typedef std::decay_t<decltype(x)> V;
           auto both = [&](const auto& e)
           {
               got[0] = classify(e, ints);
               got[1] = classifyStd(e, ints);
           };
           switch (form)
           {
               case 0: both(x); break;
               case 1: both(Get<V, E>::g(x, one)); break;
               case 2: both(Get<V, B>::g(x, one)); break;
           }
       });
    c.step();
    static const char* const n[] = {"isnan", "isinf", "isfinite", "isnormal", "signbit", "fpclassify", "ilogb"};
    for (int w = 0; w < 2; ++w)
    {
        for (int i = 0; i < 7; ++i)
            if (i < 5 ? !got[w].v[i] != !want.v[i] : got[w].v[i] != want.v[i])
                c.fail("%s::%s(%s %.17g) is %d, plain %d", w ? "std" : "xad", n[i], mnm[mode], double(a), got[w].v[i], want.v[i]);
        if (got[w].lr != want.lr)
            c.fail("%s::lround(%s %.17g) is %ld, plain %ld", w ? "std" : "xad", mnm[mode], double(a), got[w].lr, want.lr);
        if (got[w].ll != want.ll)
            c.fail("%s::llround(%s %.17g) is %lld, plain %lld", w ? "std" : "xad", mnm[mode], double(a), got[w].ll, want.ll);
    }
    c.outcome(mc::mix(want.v[5], want.ll));
    c.state(mc::mix(mc::bits(double(a)), form * 10 + mode));
}
// ---- conversions
template <class T, class E>
static void conv1(Ctx& c, const char* tn, const E& e, R a)
{
    // only where the conversion of the plain number is defined
    LD t = std::trunc(LD(a));
    if (!(t >= LD(std::numeric_limits<T>::min()) && t <= LD(std::numeric_limits<T>::max())))
        return;
    T got = static_cast<T>(e), want = static_cast<T>(a);
    if (got != want)
        c.fail("conversion of %.17g to %s gives %lld", double(a), tn, (long long)got);
    c.step();
}
template <class E>
static void convs(Ctx& c, const E& e, R a)
{
    conv1<char>(c, "char", e, a);
    conv1<signed char>(c, "signed char", e, a);
    conv1<unsigned char>(c, "unsigned char", e, a);
    conv1<short>(c, "short", e, a);
    conv1<unsigned short>(c, "unsigned short", e, a);
    conv1<int>(c, "int", e, a);
    conv1<unsigned>(c, "unsigned", e, a);
    conv1<long>(c, "long", e, a);
    conv1<unsigned long>(c, "unsigned long", e, a);
    conv1<long long>(c, "long long", e, a);
    conv1<unsigned long long>(c, "unsigned long long", e, a);
    if (static_cast<bool>(e) != static_cast<bool>(a))
        c.fail("conversion of %.17g to bool gives %d", double(a), int(static_cast<bool>(e)));
    if ((e ? 1 : 2) != (a ? 1 : 2) || (!e) != (!a) || (e && true) != (a && true))
        c.fail("%.17g in a condition is %d", double(a), e ? 1 : 0);
}
static void conversions(Ctx& c)
{
    int mode = c.choose(NM), form = c.choose(3);
    auto& g = lattice(c.param);
    int hi = c.choose((int(g.size()) + 255) / 256) * 256;
    R a = g[hi + c.choose(std::min(256, int(g.size()) - hi))];
    c.log("%s %s: %.17g", mnm[mode], fnm[form], double(a));
    in(mode, a, a,
       [&](const auto& x, const auto&, const auto& one)
       {
           typedef std::decay_t<decltype(x)> V;
           switch (form)
           {
               case 0: convs(c, x, a); break;
               case 1: convs(c, Get<V, E>::g(x, one), a); break;
               case 2: convs(c, Get<V, B>::g(x, one), a); break;
           }
       });
    c.state(mc::mix(mc::bits(double(a)), form * 10 + mode));
}
// ---- streams, to_string, hash
static void format(std::ostream& o, int k)
{
    switch (k)
    {
        case 1: o << std::setprecision(17); break;
        case 2: o << std::fixed << std::setprecision(3); break;
        case 3: o << std::scientific << std::uppercase; break;
        case 4: o << std::setw(30) << std::setfill('*') << std::left; break;
        case 5: o << std::showpos << std::showpoint << std::setw(12) << std::internal; break;
        case 6: o << std::hexfloat; break;
    }
}
static void streamOut(Ctx& c)
{
    int mode = c.choose(NM), form = c.choose(3), fmt = c.choose(7);
    auto& g = vals();
    R a = g[c.choose(int(g.size()))];
    c.log("%s %s: %.17g, format %d", mnm[mode], fnm[form], double(a), fmt);
    std::ostringstream w;
    format(w, fmt);
    w << a << ' ' << a << std::to_string(a);
    in(mode, a, a,
       [&](const auto& x, const auto&, const auto& one)
       {
           typedef std::decay_t<decltype(x)> V;
           auto one_ = [&](const auto& e)
           {
               std::ostringstream o;
               format(o, fmt);
               o << e << ' ' << e << std::to_string(e);
               if (o.str() != w.str())
                   c.fail("output of %s %.17g in format %d: \"%s\", plain \"%s\"", mnm[mode], double(a), fmt, o.str().c_str(), w.str().c_str());
               c.step();
           };
           switch (form)
           {
               case 0:
                   one_(x);
                   if (std::hash<V>()(x) != std::hash<R>()(a))
                       c.fail("std::hash of %s %.17g differs from the hash of the plain number", mnm[mode], double(a));
                   break;
               case 1: one_(Get<V, E>::g(x, one)); break;
               case 2: one_(Get<V, B>::g(x, one)); break;
           }
       });
    c.outcome(mc::bits(double(w.str().size())));
    c.state(mc::mix(mc::bits(double(a)), mc::mix(form * 10 + mode, fmt)));
}
static void streamIn(Ctx& c)
{
    static const char* const txt[] = {"", "0", "-0", "1", "1.5 2.5 x", "-2.25e3", "1e400", "1e-400", "inf", "nan", "abc", "  7  8", "3,4", "0x1p3", "+5", "1e", ".5", ".", "-", "12345678901234567890"};
    int mode = c.choose(NM);
    const char* s = txt[c.choose(int(sizeof txt / sizeof *txt))];
    c.log("%s from \"%s\"", mnm[mode], s);
    std::istringstream pi(s);
    R p0 = 42, p1 = 43;
    pi >> p0 >> p1;
    in(mode, R(42), R(43),
       [&](const auto& cx, const auto& cy, const auto&)
       {
           typedef std::decay_t<decltype(cx)> V;
           V& x = const_cast<V&>(cx);
           V& y = const_cast<V&>(cy);
           std::istringstream i(s);
           i >> x >> y;
           if (!same(val0(x), p0) || !same(val0(y), p1))
               c.fail("reading \"%s\" into %s gives %.17g and %.17g, plain %.17g and %.17g", s, mnm[mode], double(val0(x)), double(val0(y)), double(p0), double(p1));
           if (i.rdstate() != pi.rdstate() || i.rdbuf()->in_avail() != pi.rdbuf()->in_avail())
               c.fail("reading \"%s\" into %s leaves the stream in another state", s, mnm[mode]);
       });
    c.step();
    c.state(mc::mix(mc::bits(double(p0)), mc::mix(mc::bits(double(p1)), mode)));
}
// ---- increments and compound assignment, sequences of them
enum
{
    PREINC,
    POSTINC,
    PREDEC,
    POSTDEC,
    ADDI,
    SUBI,
    MULI,
    DIVI,
    ADDU,
    MULL,
    SUBP,
    DIVP,
    MULV,
    ADDV,
    SUBE,
    DIVE,
    ADDSELF,
    MULSELF,
    SUBSELF,
    ASSIGNP,
    ASSIGNV,
    ASSIGNE,
    NEG,
    NASG
};
static const char* const an[] = {"++x", "x++", "--x", "x--", "x+=3", "x-=7", "x*=-2", "x/=4", "x+=5u", "x*=3LL", "x-=2.5", "x/=0.5", "x*=y", "x+=y", "x-=y*x", "x/=y+x", "x+=x", "x*=x", "x-=x", "x=2.25", "x=y", "x=y/x", "x=-x"};
template <class V, class P>
static R apply(int o, V& x, const V& y)
{
    // returns the value of the whole expression
    constexpr bool nested = xad::ExprTraits<V>::isExpr && !std::is_same_v<V, AR> && !std::is_same_v<V, FR>;
    if constexpr (!nested)  // not provided for nested types (rejected by the compiler)
        switch (o)
        {
            case PREINC: return val0(++x);
            case POSTINC: return val0(x++);
            case PREDEC: return val0(--x);
            case POSTDEC: return val0(x--);
            case ADDI: return val0(x += 3);
            case SUBI: return val0(x -= 7);
            case MULI: return val0(x *= -2);
            case DIVI: return val0(x /= 4);
            case ADDU: return val0(x += 5u);
            case MULL: return val0(x *= 3LL);
            case SUBP: return val0(x -= P(2.5));
            case DIVP: return val0(x /= P(0.5));
        }
    switch (o)
    {
        case MULV: return val0(x *= y);
        case ADDV: return val0(x += y);
        case SUBE: return val0(x -= y * x);
        case DIVE: return val0(x /= y + x);
        case ADDSELF: return val0(x += x);
        case MULSELF: return val0(x *= x);
        case SUBSELF: return val0(x -= x);
        case ASSIGNP: return val0(x = P(2.25));
        case ASSIGNV: return val0(x = y);
        case ASSIGNE: return val0(x = y / x);
        default: return val0(x = -x);
    }
}
static void assign(Ctx& c)
{
    int mode = c.choose(NM);
    static const R st[] = {R(0), R(-0.0), R(1), R(-3.5), R(1e30), MAX, SUB, INF, NaN};
    R a = st[c.choose(9)], b = st[c.choose(9)];
    int op[4];
    for (int i = 0; i < c.param; ++i) op[i] = mode < 4 ? c.choose(NASG) : MULV + c.choose(NASG - MULV);
    c.log("%s: x=%.9g y=%.9g", mnm[mode], double(a), double(b));
    in(mode, a, b,
       [&](const auto& cx, const auto& y, const auto&)
       {
           typedef std::decay_t<decltype(cx)> V;
           V& x = const_cast<V&>(cx);
           R p = a;
           for (int i = 0; i < c.param; ++i)
           {
               R want = apply<R, R>(op[i], p, b), got = apply<V, R>(op[i], x, y);
               c.log("  %s: %.17g, plain %.17g", an[op[i]], double(got), double(want));
               if (!same(got, want))
                   c.fail("%s: the result of %s is %.17g, plain %.17g", mnm[mode], an[op[i]], double(got), double(want));
               if (!same(val0(x), p))
                   c.fail("%s: x after %s is %.17g, plain %.17g", mnm[mode], an[op[i]], double(val0(x)), double(p));
               if (!same(val0(y), b))
                   c.fail("%s: %s changes the right-hand side", mnm[mode], an[op[i]]);
               c.step();
           }
           c.outcome(mc::bits(double(p)));
           c.state(mc::mix(mc::mix(mc::bits(double(p)), mc::bits(double(b))), mode));
       });
}
// ---- numbers of every integer type: construction, assignment, arithmetic and comparison
static const char* const ityn[] = {"bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"};
template <class F>
static void withIntType(int k, F f)
{
    switch (k)
    {
        case 0: f(bool()); break;
        case 1: f(char()); break;
        case 2: f((signed char)(0)); break;
        case 3: f((unsigned char)(0)); break;
        case 4: f(short()); break;
        case 5: f((unsigned short)(0)); break;
        case 6: f(int()); break;
        case 7: f(0u); break;
        case 8: f(0l); break;
        case 9: f(0ul); break;
        case 10: f(0ll); break;
        case 11: f(0ull); break;
    }
}
template <class I>
static const std::vector<I>& ints()
{
    static std::vector<I> g;
    if (g.empty())
    {
        auto add = [&](I i)
        {
            if (std::find(g.begin(), g.end(), i) == g.end())
                g.push_back(i);
        };
        add(0);
        add(std::numeric_limits<I>::min());
        add(std::numeric_limits<I>::max());
        typedef unsigned long long U;
        for (int s = 0; s < int(sizeof(I)) * 8; ++s)
            for (int d = -1; d <= 1; ++d)
                for (int n = 0; n < 2; ++n)
                {
                    U u = (U(1) << s) + U(d);
                    add(I(n ? U(0) - u : u));
                }
    }
    return g;
}
static void integers(Ctx& c)
{
    int mode = c.choose(NM), ty = c.choose(12);
    static const R st[] = {R(0), R(-3.5), R(1e18), INF, NaN, R(1)};
    R a = st[c.choose(6)];
    withIntType(ty,
                [&](auto tag)
                {
                    typedef decltype(tag) I;
                    auto& g = ints<I>();
                    I i = g[c.choose(int(g.size()))];
                    R r = static_cast<R>(i);
                    c.log("%s, %s %.20Lg, x=%.9g", mnm[mode], ityn[ty], LD(i), double(a));
                    in(mode, a, a,
                       [&](const auto& cx, const auto&, const auto&)
                       {
                           typedef std::decay_t<decltype(cx)> V;
                           auto eq = [&](R got, R want, const char* what)
                           {
                               if (!same(got, want))
                                   c.fail("%s, %s %.20Lg, x=%.9g: %s is %.17g, plain %.17g", mnm[mode], ityn[ty], LD(i), double(a), what, double(got), double(want));
                               c.step();
                           };
                           V u(i);
                           eq(val0(u), r, "V(i)");
                           eq(val0(static_cast<V>(i)), r, "static_cast<V>(i)");
                           V w{i};
                           eq(val0(w), r, "V{i}");
                           u = w + u;
                           eq(val0(u), r + r, "V(i)+V(i)");
                           if constexpr (std::is_same_v<V, AR> || std::is_same_v<V, FR>)
                           {
                               V x(cx), y(cx), z(cx), q(cx);
                               R px = a, py = a, pz = a, pq = a;
                               eq(val0(x += i), px += r, "x+=i");
                               eq(val0(y -= i), py -= r, "y-=i");
                               eq(val0(z *= i), pz *= r, "z*=i");
                               if (i != 0)
                                   eq(val0(q /= i), pq /= r, "q/=i");
                               eq(val0(V(cx + i)), a + r, "x+i");
                               eq(val0(V(i - cx)), r - a, "i-x");
                               eq(val0(V(cx * i)), a * r, "x*i");
                               eq(val0(V(i / cx)), r / a, "i/x");
                               if (cmp6(cx, i) != cmp6(a, r) || cmp6(i, cx) != cmp6(r, a))
                                   c.fail("%s: comparison of %.17g with the %s %.20Lg differs from the plain one", mnm[mode], double(a), ityn[ty], LD(i));
                           }
                       });
                    c.outcome(mc::bits(double(r)));
                    c.state(mc::mix(mc::bits(double(r)), mode * 100 + ty));
                });
}
// ---- limits and traits
static void traits(Ctx& c)
{
    int mode = c.choose(NM);
    in(mode, R(1), R(1),
       [&](const auto& x, const auto&, const auto&)
       {
           typedef std::decay_t<decltype(x)> V;
           typedef std::numeric_limits<V> L;
           typedef std::numeric_limits<R> P;
#define LIM(m) \
    if (!(L::m == P::m)) \
        c.fail("numeric_limits<%s>::" #m " is not that of the plain type", mnm[mode]);
           LIM(is_specialized) LIM(is_signed) LIM(is_integer) LIM(is_exact) LIM(has_infinity) LIM(has_quiet_NaN) LIM(has_denorm) LIM(round_style) LIM(is_iec559)
           LIM(is_bounded) LIM(is_modulo) LIM(digits) LIM(digits10) LIM(max_digits10) LIM(radix) LIM(min_exponent) LIM(min_exponent10) LIM(max_exponent)
           LIM(max_exponent10) LIM(traps) LIM(tinyness_before) LIM(min()) LIM(lowest()) LIM(max()) LIM(epsilon()) LIM(round_error()) LIM(infinity()) LIM(denorm_min())
           if (!std::isnan(V(L::quiet_NaN())))
               c.fail("numeric_limits<%s>::quiet_NaN() is a number", mnm[mode]);
           if (!std::is_floating_point<V>::value || !std::is_arithmetic<V>::value || !std::is_signed<V>::value || std::is_fundamental<V>::value || std::is_scalar<V>::value || !std::is_compound<V>::value || std::is_pod<V>::value)
               c.fail("type traits of %s", mnm[mode]);
       });
    c.step();
    c.state(mode);
}
int main(int argc, char** argv)
{
    std::vector<mc::Space> s = {
        {"compare", "six comparisons of every pair of operand forms on all pairs of special values, 8 kinds of variables", compare, 0, 0, 2, 3},
        {"classify", "classification, lround, llround, ilogb on every value with 3 mantissa bits", classes, 3, 0, 2, 3},
        {"convert", "conversions to the integer types and bool on every value with 3 mantissa bits", conversions, 3, 0, 2, 3},
        {"stream-out", "output in 7 formats, to_string and hash", streamOut, 0, 0, 2, 3},
        {"stream-in", "input of 20 texts", streamIn, 0, 0, 1, 3},
        {"assign-2", "pairs of increments and compound assignments from special values", assign, 2, 0, 3, 3},
        {"integers", "construction from, and arithmetic and comparison with, integers of 12 types next to every power of two", integers, 0, 0, 2, 3},
        {"traits", "numeric_limits and type traits", traits, 0, 0, 1, 3},
        {"assign-3", "triples of increments and compound assignments from special values", assign, 3, 0, 3, 2},
        {"classify-8", "classification, lround, llround, ilogb on every value with 8 mantissa bits", classes, 8, 0, 2, 2},
        {"convert-8", "conversions on every value with 8 mantissa bits", conversions, 8, 0, 2, 2},
    };
    return mc::mainImpl(argc, argv, s);
}
