// C16: std::complex of active types against std::complex<long double> with closed-form derivatives.
//   functions: every unary function on the argument lattice
//   operators: + - * / pow and comparisons in every pair of operand kinds, compound assignment with aliasing
//   programs:  every short program of complex statements over Gaussian integers, exact
#include <XAD/XAD.hpp>
#include <XAD/Complex.hpp>
#include <cmath>
#include <complex>
#include <memory>
#include <vector>
#include "../lib/mc.hpp"
typedef mc::Ctx Ctx;
#ifdef LIGHT
#define PROG3 2
#else
#define PROG3 3
#endif
#ifndef REAL
#define REAL double
#endif
typedef REAL R;
typedef long double LD;
typedef std::complex<LD> C;
typedef std::complex<R> CR;
typedef xad::AReal<R> AR;
typedef xad::FReal<R> FR;
static const C I(0, 1);
static const LD PI = 3.14159265358979323846264338327950288L;

// ---- reference: value of the result and its partials by the four real inputs
struct Ref
{
    C v, d[4];
    bool dok = true;  // derivative exists
    LD floor = 0, dfloor = 0;  // absolute accuracy scales
};
// ---- evaluation of a generic callable on the real types; every run gives value and 2x4 partials
struct Got
{
    CR v;
    R d[2][4];
};
template <class T>
static std::complex<T> cplx(const std::complex<T>& z)
{
    return z;
}
template <class T, class X>
static std::complex<T> cplx(const X& x)
{
    return std::complex<T>(T(x), T(0));
}
template <class F>
static Got evalF(const R* x, F f)
{
    Got g;
    for (int k = 0; k < 4; ++k)
    {
        FR in[4];
        for (int i = 0; i < 4; ++i) in[i] = x[i];
        xad::derivative(in[k]) = 1;
        std::complex<FR> z = cplx<FR>(f(in));
        g.v = CR(xad::value(z.real()), xad::value(z.imag()));
        g.d[0][k] = xad::derivative(z.real());
        g.d[1][k] = xad::derivative(z.imag());
    }
    return g;
}
template <class F>
static Got evalA(const R* x, F f)
{
    Got g;
    xad::Tape<R> tape;
    AR in[4];
    for (int i = 0; i < 4; ++i)
    {
        in[i] = x[i];
        tape.registerInput(in[i]);
    }
    tape.newRecording();
    std::complex<AR> z = cplx<AR>(f(in));
    g.v = CR(xad::value(z.real()), xad::value(z.imag()));
    AR out[2] = {z.real(), z.imag()};
    for (int o = 0; o < 2; ++o)
    {
        tape.registerOutput(out[o]);
        tape.clearDerivatives();
        xad::derivative(out[o]) = 1;
        tape.computeAdjoints();
        for (int k = 0; k < 4; ++k) g.d[o][k] = xad::derivative(in[k]);
    }
    return g;
}
static LD nrm(const C& z) { return hypotl(z.real(), z.imag()); }
static bool fin(const C& z) { return std::isfinite(z.real()) && std::isfinite(z.imag()); }
static const LD EPS = std::numeric_limits<R>::epsilon(), BIG = std::numeric_limits<R>::max(), TINY = std::numeric_limits<R>::min();
static bool closeTo(const CR& a, const C& b, LD scale, LD tol)
{
    if (!fin(b) || nrm(b) > BIG * 0.99L)
        return true;  // out of range of the type
    LD e = nrm(C(a.real(), a.imag()) - b), lim = tol * EPS * (nrm(b) + scale) + 4 * TINY;
    return e <= lim;  // false for NaN
}
static void compare(Ctx& c, const char* what, const Got& g, const Ref& r, LD tol, LD dtol)
{
    if (!closeTo(g.v, r.v, r.floor, tol))
    {
        c.fail("%s: value (%.17g,%.17g) instead of (%.17Lg,%.17Lg)", what, double(g.v.real()), double(g.v.imag()), r.v.real(), r.v.imag());
        return;
    }
    if (!r.dok || nrm(r.v) > BIG * 0.99L || (r.v != C(0) && nrm(r.v) < TINY / EPS))
        return;
    LD all = r.floor + r.dfloor;  // rounding of one partial may be of the size of the others
    for (int k = 0; k < 4; ++k) all += fin(r.d[k]) ? nrm(r.d[k]) : 0;
    for (int k = 0; k < 4; ++k)
        if (!closeTo(CR(g.d[0][k], g.d[1][k]), r.d[k], all, dtol))
        {
            c.fail("%s: derivative by input %d is (%.17g,%.17g) instead of (%.17Lg,%.17Lg)", what, k, double(g.d[0][k]), double(g.d[1][k]), r.d[k].real(),
                   r.d[k].imag());
            return;
        }
}
template <class F>
static void check(Ctx& c, const R* x, const Ref& r, LD tol, LD dtol, F f)
{
    c.step();
    compare(c, "forward", evalF(x, f), r, tol, dtol);
    compare(c, "adjoint", evalA(x, f), r, tol, dtol);
}
static const R lat[] = {0, R(-0.0), 0.3, -0.3, 1, -1, 2.5, -2.5, 0.001, -0.001, 30, -30, 12345, -12345, 1.5707963267948966, 400, -400, R(1e-9), R(-1e-9)};
static const int NL = sizeof lat / sizeof *lat;
static const R few[] = {0, R(-0.0), 1, -1, 0.3, -2.5, 30};
static const int NF = sizeof few / sizeof *few;

// ---- unary functions: name, call, value, derivative (holomorphic), where the derivative does not exist, floor
// f is evaluated on complex<T> u
static C sq1m(const C& z) { return std::sqrt(C(1 - z.real(), -z.imag())) * std::sqrt(C(1 + z.real(), z.imag())); }   // sqrt(1-z^2)
static C sq1p(const C& z) { return std::sqrt(C(1 - z.imag(), z.real())) * std::sqrt(C(1 + z.imag(), -z.real())); }   // sqrt(1+z^2)
static C sqm1(const C& z) { return std::sqrt(C(z.real() - 1, z.imag())) * std::sqrt(C(z.real() + 1, z.imag())); }    // sqrt(z^2-1)
#define HOLO(U)                                                                      \
    U(exp, std::exp(z), std::exp(z), true, 0)                                        \
    U(log, std::log(z), C(1) / z, z != C(0), 1)                                      \
    U(log10, std::log10(z), C(1) / (z * std::log(LD(10))), z != C(0), 1)             \
    U(sqrt, std::sqrt(z), LD(0.5) / std::sqrt(z), z != C(0), 0)                      \
    U(sin, std::sin(z), std::cos(z), true, 1)                                        \
    U(cos, std::cos(z), -std::sin(z), true, 1)                                       \
    U(tan, std::tan(z), LD(1) / (std::cos(z) * std::cos(z)), true, 2)                \
    U(asin, std::asin(z), LD(1) / sq1m(z), z != C(1) && z != C(-1), 1)               \
    U(acos, std::acos(z), LD(-1) / sq1m(z), z != C(1) && z != C(-1), 1)              \
    U(atan, std::atan(z), LD(1) / ((LD(1) + I * z) * (LD(1) - I * z)), z != I && z != -I, 1) \
    U(sinh, std::sinh(z), std::cosh(z), true, 1)                                     \
    U(cosh, std::cosh(z), std::sinh(z), true, 1)                                     \
    U(tanh, std::tanh(z), LD(1) / (std::cosh(z) * std::cosh(z)), true, 2)            \
    U(asinh, std::asinh(z), LD(1) / sq1p(z), z != I && z != -I, 1)                   \
    U(acosh, std::acosh(z), LD(1) / sqm1(z), z != C(1) && z != C(-1), 1)             \
    U(atanh, std::atanh(z), LD(1) / ((LD(1) + z) * (LD(1) - z)), z != C(1) && z != C(-1), 1)
#define U(id, val, der, ok, fl)                                                       \
    static Ref ref_##id(const C& z)                                                   \
    {                                                                                 \
        Ref r;                                                                        \
        r.v = val;                                                                    \
        C d = der;                                                                    \
        r.d[0] = d;                                                                   \
        r.d[1] = C(-d.imag(), d.real());                                              \
        r.dok = (ok) && nrm(LD(1) - z * z) > 1e-4L && nrm(LD(1) + z * z) > 1e-4L;                                                                   \
        r.floor = fl;                                                                 \
        if (r.floor == 2) /* poles */                                                 \
        {                                                                             \
            LD a = nrm(r.v);                                                          \
            r.floor = 1 + a * a;                                                      \
            r.dfloor = 1 + a * a * a;                                                 \
        }                                                                             \
        return r;                                                                     \
    }                                                                                 \
    static void un_##id(Ctx& c, const R* x, const C& z)                               \
    {                                                                                 \
        Ref r = ref_##id(z);                                                          \
        check(c, x, r, 64, 256, [](auto* in) { return id(cplxOf(in)); });             \
    }
template <class T>
static std::complex<T> cplxOf(T* in)
{
    return std::complex<T>(in[0], in[1]);
}
HOLO(U)
#undef U
struct UnFn
{
    const char* name;
    void (*run)(Ctx&, const R*, const C&);
};
static const UnFn holo[] = {
#define U(id, val, der, ok, fl) {#id, un_##id},
    HOLO(U)
#undef U
};
static void unary(Ctx& c)
{
    int f = c.param;
    R x[4] = {0, 0, 0, 0};
    x[0] = lat[c.choose(NL)];
    x[1] = lat[c.choose(NL)];
    C z(x[0], x[1]);
    c.log("%s(%.17g, %.17g)", holo[f].name, double(x[0]), double(x[1]));
    c.state(mc::mix(f, mc::mix(mc::bits(x[0]), mc::bits(x[1]))));
    holo[f].run(c, x, z);
}

// ---- functions of one complex number with results that are not holomorphic, or real; functions of a real number
static LD arg_(LD x) { return std::signbit(x) ? PI : LD(0); }
static void others(Ctx& c)
{
    R x[4] = {0, 0, 0, 0};
    int f = c.choose(18);
    x[0] = lat[c.choose(NL)];
    x[1] = lat[c.choose(NL)];
    LD a = x[0], b = x[1], h = hypotl(a, b);
    c.log("function %d of (%.17g, %.17g)", f, double(a), double(b));
    c.state(mc::mix(f, mc::mix(mc::bits(x[0]), mc::bits(x[1]))));
    Ref r;
    auto set = [&](C v, C d0, C d1, bool ok = true)
    {
        r.v = v;
        r.d[0] = d0;
        r.d[1] = d1;
        r.dok = ok;
    };
    auto go = [&](auto g) { check(c, x, r, 8, 32, g); };
    switch (f)
    {
    case 0: set(h, a / h, b / h, h != 0); go([](auto* in) { return abs(cplxOf(in)); }); break;
    case 1: r.floor = 1; set(atan2l(b, a), -b / (h * h), a / (h * h), h != 0); go([](auto* in) { return arg(cplxOf(in)); }); break;
    case 2: set(a * a + b * b, 2 * a, 2 * b); go([](auto* in) { return norm(cplxOf(in)); }); break;
    case 3: set(C(a, -b), 1, -I); go([](auto* in) { return conj(cplxOf(in)); }); break;
    case 4: set(C(a, b), 1, I); go([](auto* in) { return proj(cplxOf(in)); }); break;
    case 5: set(a, 1, 0); go([](auto* in) { return real(cplxOf(in)); }); break;
    case 6: set(b, 0, 1); go([](auto* in) { return imag(cplxOf(in)); }); break;
    case 7: set(C(-a, -b), -1, -I); go([](auto* in) { return -cplxOf(in); }); break;
    case 8: set(C(a, b), 1, I); go([](auto* in) { auto z = cplxOf(in); auto y(+z); return y; }); break;
    case 9: // references and setters
        set(C(b, a), I, 1);
        go([](auto* in) { auto z = cplxOf(in); auto t = z.real(); z.real() = z.imag(); z.imag(t); return z; });
        break;
    case 10: // functions of a real number
        set(arg_(a) + b, 0, 1, a != 0);
        r.floor = 1;
        go([](auto* in) { auto y = std::arg(in[0]); return in[1] + y; });
        break;
    case 11: set(a * a, 2 * a, 0); go([](auto* in) { auto y = std::norm(in[0]); return y * 1.0; }); break;
    case 12: set(2 * a, 2, 0); go([](auto* in) { return std::conj(in[0] * 2.0); }); break;
    case 13: set(a + b, 1, 1); go([](auto* in) { return std::proj(in[0] + in[1]); }); break;
    case 14: set(a, 1, 0); go([](auto* in) { return std::proj(in[0]); }); break;
    case 15: // of an expression
        set(arg_(2 * a), 0, 0, a != 0);
        r.floor = 1;
        go([](auto* in) { auto y = std::arg(in[0] * 2.0); return y; });
        break;
    case 16: set(a + 0, 1, 0); go([](auto* in) { auto y = std::real(in[0] * 1.0); y += std::imag(in[0] * 3.0); return y; }); break;
    case 17: set(4 * a * a, 8 * a, 0); go([](auto* in) { auto x = in[0]; x = std::norm(in[0] + in[0]); return x; }); break;
    }
}
// ---- polar in every form; r = in[0], theta = in[1]
static void polars(Ctx& c)
{
    R x[4] = {0, 0, 0, 0};
    int f = c.choose(10);
    x[0] = lat[c.choose(NL)];
    x[1] = lat[c.choose(NL)];
    LD a = x[0], t = x[1];
    c.log("polar form %d of %.17g, %.17g", f, double(a), double(t));
    c.state(mc::mix(f, mc::mix(mc::bits(x[0]), mc::bits(x[1]))));
    Ref r;
    auto go = [&](int ra, int tb, auto g)  // factors of r and theta, 0 if passive
    {
        LD aa = ra ? ra * a : a, tt = tb ? tb * t : t;
        C e(std::cos(tt), std::sin(tt));
        r.v = aa * e;
        r.d[0] = LD(ra) * e;
        r.d[1] = LD(tb) * aa * I * e;
        check(c, x, r, 8, 32, g);
    };
    R pr = x[0], pt = x[1];
    switch (f)
    {
    case 0: go(1, 1, [](auto* in) { return std::polar(in[0], in[1]); }); break;
    case 1: go(1, 2, [](auto* in) { return std::polar(in[0], in[1] * R(2)); }); break;
    case 2: go(2, 1, [](auto* in) { return std::polar(in[0] * R(2), in[1]); }); break;
    case 3: go(2, -1, [](auto* in) { return std::polar(in[0] * R(2), -in[1]); }); break;
    case 4: go(2, 2, [](auto* in) { return std::polar(in[0] + in[0], in[1] * R(2)); }); break;
    case 5: go(1, 0, [=](auto* in) { return std::polar(in[0], pt); }); break;
    case 6: go(0, 1, [=](auto* in) { return std::polar(pr, in[1]); }); break;
    case 7: go(2, 0, [=](auto* in) { return std::polar(in[0] * R(2), pt); }); break;
    case 8: go(0, 2, [=](auto* in) { return std::polar(pr, in[1] * R(2)); }); break;
    case 9: t = 0; x[1] = 0; go(1, 0, [](auto* in) { return std::polar(in[0]); }); break;
    }
}

// ---- binary operations in every pair of operand kinds
enum Kind
{
    CA,  // complex of active
    A,   // active
    E,   // unary expression
    E2,  // binary expression
    S,   // plain scalar
    CS,  // complex of plain scalars
    SELF,
    SREAL,
    SIMAG,  // the target of a compound assignment, and its parts
    NKINDS
};
static const char* kindName[] = {"complex<active>", "active", "active*2", "active*active", "scalar", "complex<scalar>", "itself", "its real()", "its imag()"};
// operand of kind K made of inputs k, k+1
template <int K, class T>
static auto operand(T* in, const R* x, int k)
{
    if constexpr (K == CA)
        return std::complex<T>(in[k], in[k + 1]);
    else if constexpr (K == A)
        return in[k];
    else if constexpr (K == E)
        return in[k] * R(2);
    else if constexpr (K == E2)
        return in[k] * in[k + 1];
    else if constexpr (K == S)
        return x[k];
    else
        return CR(x[k], x[k + 1]);
}
// reference operand: value and partials by the inputs k, k+1
struct Opd
{
    C v, d[2];
};
static Opd refOpd(int kind, const R* x, int k)
{
    LD a = x[k], b = x[k + 1];
    switch (kind)
    {
    case CA: return {C(a, b), {1, I}};
    case A: return {C(a), {1, 0}};
    case E: return {C(2 * a), {2, 0}};
    case E2: return {C(R(x[k] * x[k + 1])), {b, a}};
    case S: return {C(a), {0, 0}};
    default: return {C(a, b), {0, 0}};
    }
}
#define BINOPS(B) B(Add, l + r) B(Sub, l - r) B(Mul, l * r) B(Div, l / r) B(Pow, pow(l, r))
#define B(id, e)                              \
    struct id                                 \
    {                                         \
        template <class X, class Y>           \
        auto operator()(const X& l, const Y& r) const \
        {                                     \
            return e;                         \
        }                                     \
    };
BINOPS(B)
#undef B
static C times(const C& a, const C& b) { return C(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
// value and partials of an operation of two reference operands
static Ref refBin(int op, const Opd& l, const Opd& r)
{
    Ref o;
    C fx, fy;
    const C &x = l.v, &y = r.v;
    switch (op)
    {
    case 0: o.v = x + y; fx = fy = 1; o.floor = nrm(x) + nrm(y); break;
    case 1: o.v = x - y; fx = 1; fy = -1; o.floor = nrm(x) + nrm(y); break;
    case 2: o.v = times(x, y); fx = y; fy = x; break;
    case 3: o.v = x / y; fx = C(1) / y; fy = -o.v / y; o.dok = y != C(0); break;
    default:
    {
        C lg = std::log(x), e = times(lg, y);
        o.v = std::exp(e);
        fx = y * o.v / x;
        fy = times(o.v, lg);
        o.dok = x != C(0);
        o.floor = nrm(o.v) * nrm(e);
        o.dfloor = o.floor * (nrm(fx) + nrm(fy));
        break;
    }
    }
    for (int k = 0; k < 2; ++k)
    {
        o.d[k] = times(fx, l.d[k]);
        o.d[k + 2] = times(fy, r.d[k]);
    }
    return o;
}
static void lattice4(Ctx& c, R* x)
{
    for (int k = 0; k < 4; ++k) x[k] = few[c.choose(NF)];
}
static std::string show(const R* x)
{
    char b[200];
    snprintf(b, sizeof b, "inputs %.17g %.17g %.17g %.17g", double(x[0]), double(x[1]), double(x[2]), double(x[3]));
    return b;
}
template <class OP, int L, int R_>
struct Bin
{
    static void run(Ctx& c)
    {
        R x[4];
        lattice4(c, x);
        int op = c.param;
        c.log("%s op %d %s, %s", kindName[L], op, kindName[R_], show(x).c_str());
        c.state(mc::mix(mc::mix(mc::bits(x[0]), mc::bits(x[1])), mc::mix(mc::bits(x[2]), mc::bits(x[3]))));
        Opd l = refOpd(L, x, 0), r = refOpd(R_, x, 2);
        if (op == 3 && r.v == C(0))
            return;  // plain types do not agree with each other there
        if (op == 4 && l.v == C(0))
            return;
        check(c, x, refBin(op, l, r), 16, 64, [&](auto* in) { return OP()(operand<L>(in, x, 0), operand<R_>(in, x, 2)); });
    }
};
// ---- compound assignment, with aliasing; plain assignment and the setters
template <int R_>
struct Comp
{
    static void run(Ctx& c)
    {
        R x[4];
        int op = c.choose(5);
        lattice4(c, x);
        const char* ops[] = {"+=", "-=", "*=", "/=", "="};
        c.log("%s %s %s, %s", kindName[CA], ops[op], kindName[R_], show(x).c_str());
        c.state(mc::mix(mc::mix(mc::bits(x[0]), mc::bits(x[1])), mc::mix(mc::mix(mc::bits(x[2]), mc::bits(x[3])), op)));
        Opd l = refOpd(CA, x, 0), r;
        if (R_ == SELF)
            r = l;
        else if (R_ == SREAL)
            r = {C(l.v.real()), {1, 0}};
        else if (R_ == SIMAG)
            r = {C(l.v.imag()), {0, 1}};
        else
            r = refOpd(R_, x, 2);
        if (op == 3 && r.v == C(0))
            return;
        Ref o;
        if (op == 4)
        {
            o.v = r.v;
            o.d[2] = r.d[0];
            o.d[3] = r.d[1];
        }
        else
            o = refBin(op, l, r);
        if (R_ >= SELF)
            for (int k = 0; k < 2; ++k)
            {
                o.dfloor += nrm(o.d[k]) + nrm(o.d[k + 2]);
                o.d[k] += o.d[k + 2];
                o.d[k + 2] = 0;
            }
        check(c, x, o, 16, 64,
              [&](auto* in)
              {
                  auto z = operand<CA>(in, x, 0);
                  auto apply = [&](const auto& w)
                  {
                      switch (op)
                      {
                      case 0: z += w; break;
                      case 1: z -= w; break;
                      case 2: z *= w; break;
                      case 3: z /= w; break;
                      case 4: z = w; break;
                      }
                  };
                  if constexpr (R_ == SELF)
                      apply(z);
                  else if constexpr (R_ == SREAL)
                      apply(z.real());
                  else if constexpr (R_ == SIMAG)
                      apply(z.imag());
                  else
                      apply(operand<R_>(in, x, 2));
                  return z;
              });
    }
};
// ---- pow with integers of every type
template <class INT>
static void powInt(Ctx& c)
{
    static const int ns[] = {0, 1, 2, 3, 5, -1, -2};
    R x[4] = {0, 0, 0, 0};
    bool base = c.choose(2);
    int n = ns[c.choose(std::is_signed<INT>::value ? 7 : 5)];
    x[0] = lat[c.choose(NL)];
    x[1] = lat[c.choose(NL)];
    c.log("pow %s %d, %s", base ? "(integer, z)" : "(z, integer)", n, show(x).c_str());
    c.state(mc::mix(mc::mix(mc::bits(x[0]), mc::bits(x[1])), n * 2 + base));
    Opd z = refOpd(CA, x, 0), w = {C(n), {0, 0}};
    if (base ? n == 0 : z.v == C(0))
        return;
    Ref o = base ? refBin(4, w, z) : refBin(4, z, w);
    if (base)
        for (int k = 0; k < 2; ++k)
        {
            o.d[k] = o.d[k + 2];
            o.d[k + 2] = 0;
        }
    if (base)
        check(c, x, o, 16, 64, [&](auto* in) { return pow(INT(n), cplxOf(in)); });
    else
        check(c, x, o, 16, 64, [&](auto* in) { return pow(cplxOf(in), INT(n)); });
}
// ---- comparisons: exact, in every operand form
template <class T>
static void compares(Ctx& c)
{
    R x[4];
    lattice4(c, x);
    c.log("%s", show(x).c_str());
    c.state(mc::mix(mc::mix(mc::bits(x[0]), mc::bits(x[1])), mc::mix(mc::bits(x[2]), mc::bits(x[3]))));
    c.step();
    xad::Tape<R> tape;
    T in[4];
    for (int k = 0; k < 4; ++k)
    {
        in[k] = x[k];
        if constexpr (std::is_same<T, AR>::value)
            tape.registerInput(in[k]);
    }
    tape.newRecording();
    std::complex<T> z(in[0], in[1]), w(in[2], in[3]);
    CR pz(x[0], x[1]), pw(x[2], x[3]);
    auto two = [&](const char* what, bool want, auto l, auto r)
    {
        c.expectEq(int(l == r), int(want), what, 0);
        c.expectEq(int(r == l), int(want), what, 1);
        c.expectEq(int(l != r), int(!want), what, 2);
        c.expectEq(int(r != l), int(!want), what, 3);
    };
    two("complex == complex", pz == pw, z, w);
    two("complex == active", pz == x[2], z, in[2]);
    two("complex == expression", pz == R(x[2] * R(2)), z, in[2] * R(2));
    two("complex == binary expression", pz == R(x[2] + x[3]), z, in[2] + in[3]);
    two("complex == scalar", pz == x[2], z, x[2]);
    c.expect(xad::value(z) == pz, "value(z)");
    z.setDerivative(x[2], x[3]);
    c.expect(xad::derivative(z) == pw && z.getDerivative() == pw && z.getAdjoint() == pw, "setDerivative and derivative(z)");
    c.expect(xad::value(z) == pz, "value(z) after setDerivative");
    w.setAdjoint(x[0]);
    c.expect(xad::derivative(w) == CR(x[0], 0), "setAdjoint of the real part only");
}

// ---- programs of complex statements over Gaussian integers: exact values and derivatives
// inputs: re z0, im z0, re z1, im z1, r; z2 starts as a constant
static const int NIN = 5;
struct Num  // integer polynomial value and gradient
{
    double v = 0, d[NIN] = {0, 0, 0, 0, 0};
};
static Num operator+(Num a, const Num& b)
{
    a.v += b.v;
    for (int k = 0; k < NIN; ++k) a.d[k] += b.d[k];
    return a;
}
static Num operator-(Num a, const Num& b)
{
    a.v -= b.v;
    for (int k = 0; k < NIN; ++k) a.d[k] -= b.d[k];
    return a;
}
static Num operator*(const Num& a, const Num& b)
{
    Num r;
    r.v = a.v * b.v;
    for (int k = 0; k < NIN; ++k) r.d[k] = a.d[k] * b.v + a.v * b.d[k];
    return r;
}
struct CNum
{
    Num re, im;
};
static CNum cmul(const CNum& a, const CNum& b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
struct St
{
    int op, i, j, k;
};
static const char* opName[] = {"z%d = z%d + z%d", "z%d = z%d - z%d", "z%d = z%d * z%d", "z%d += z%d", "z%d -= z%d", "z%d *= z%d", "z%d *= z%d.real()",
                               "z%d *= z%d.imag()", "z%d -= z%d.imag()", "z%d = conj(z%d)", "z%d = -z%d", "z%d = z%d * r", "z%d = r - z%d", "z%d += r, z%d unused",
                               "z%d = complex(z%d.imag(), r)", "z%d.imag(z%d.real() + r)", "z%d.real() = z%d.imag()", "swap(z%d, z%d)", "z%d = std::move(z%d)",
                               "z%d = norm(z%d)", "z%d = z%d * conj(z%d)"};
static std::vector<St> statements(bool small)
{
    std::vector<St> r;
    for (int op = 0; op < 21; ++op)
    {
        if (small && (op == 1 || op == 4 || op == 8 || op == 10 || op == 12 || op == 14 || op == 16 || op == 20))
            continue;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
            {
                if (op == 13 && j)
                    continue;
                if ((op == 17 && i >= j) || (op == 18 && i == j))
                    continue;
                if (op <= 2 || op == 20)
                    for (int k = (op == 1 || op == 20) ? 0 : j; k < 3; ++k) r.push_back({op, i, j, k});
                else
                    r.push_back({op, i, j, 0});
            }
    }
    return r;
}
template <class Z, class X>
static void exec(const St& s, Z* z, X& r)
{
    Z &a = z[s.i], &b = z[s.j], &w = z[s.k];
    switch (s.op)
    {
    case 0: a = b + w; break;
    case 1: a = b - w; break;
    case 2: a = b * w; break;
    case 3: a += b; break;
    case 4: a -= b; break;
    case 5: a *= b; break;
    case 6: a *= b.real(); break;
    case 7: a *= b.imag(); break;
    case 8: a -= b.imag(); break;
    case 9: a = conj(b); break;
    case 10: a = -b; break;
    case 11: a = b * r; break;
    case 12: a = r - b; break;
    case 13: a += r; break;
    case 14: a = Z(b.imag(), r); break;
    case 15: a.imag(b.real() + r); break;
    case 16: a.real() = b.imag(); break;
    case 17: std::swap(a, b); break;
    case 18: a = std::move(b); b = Z(X(1.0), X(2.0)); break;
    case 19: a = norm(b); break;
    case 20: a = b * conj(w); break;
    }
}
static void model(const St& s, CNum* z, const Num& r)
{
    CNum a = z[s.i], b = z[s.j], w = z[s.k];
    Num zero, two;
    two.v = 2;
    Num one;
    one.v = 1;
    CNum o;
    switch (s.op)
    {
    case 0: o = {b.re + w.re, b.im + w.im}; break;
    case 1: o = {b.re - w.re, b.im - w.im}; break;
    case 2: o = cmul(b, w); break;
    case 3: o = {a.re + b.re, a.im + b.im}; break;
    case 4: o = {a.re - b.re, a.im - b.im}; break;
    case 5: o = cmul(a, b); break;
    case 6: o = {a.re * b.re, a.im * b.re}; break;
    case 7: o = {a.re * b.im, a.im * b.im}; break;
    case 8: o = {a.re - b.im, a.im}; break;
    case 9: o = {b.re, zero - b.im}; break;
    case 10: o = {zero - b.re, zero - b.im}; break;
    case 11: o = {b.re * r, b.im * r}; break;
    case 12: o = {r - b.re, zero - b.im}; break;
    case 13: o = {a.re + r, a.im}; break;
    case 14: o = {b.im, r}; break;
    case 15: o = {a.re, b.re + r}; break;
    case 16: o = {b.im, a.im}; break;
    case 17: z[s.j] = a; o = b; break;
    case 18: o = b; z[s.j] = {one, two}; break;
    case 19: o = {b.re * b.re + b.im * b.im, zero}; break;
    default: o = cmul(b, {w.re, zero - w.im}); break;
    }
    z[s.i] = o;
}
static const double start[NIN] = {2, -1, 1, 3, -2};
// param: length; param2: 1 = reduced alphabet
static void programs(Ctx& c)
{
    static const std::vector<St> all[2] = {statements(false), statements(true)};
    auto& st = all[c.param2];
    CNum m[3];
    Num mr;
    for (int k = 0; k < NIN; ++k)
    {
        Num n;
        n.v = start[k];
        n.d[k] = 1;
        if (k == 4)
            mr = n;
        else
            (k % 2 ? m[k / 2].im : m[k / 2].re) = n;
    }
    m[2].re.v = 3;
    m[2].im.v = -2;
    std::vector<St> prog;
    for (int l = 0; l < c.param; ++l)
    {
        prog.push_back(st[c.choose(int(st.size()))]);
        auto& s = prog.back();
        char b[80];
        snprintf(b, sizeof b, opName[s.op], s.i, s.j, s.k);
        c.log("%s", b);
        model(s, m, mr);
        uint64_t h = 0;
        for (auto& z : m)
            for (auto* n : {&z.re, &z.im})
            {
                h = mc::mix(h, mc::bits(n->v));
                for (double d : n->d) h = mc::mix(h, mc::bits(d));
            }
        c.state(h);
        c.step();
    }
    // forward, one direction per input
    for (int k = 0; k < NIN; ++k)
    {
        FR in[NIN];
        for (int i = 0; i < NIN; ++i) in[i] = R(start[i]);
        xad::derivative(in[k]) = 1;
        std::complex<FR> z[3] = {{in[0], in[1]}, {in[2], in[3]}, {FR(3), FR(-2)}};
        for (auto& s : prog) exec(s, z, in[4]);
        for (int q = 0; q < 6; ++q)
        {
            const FR& g = q % 2 ? z[q / 2].imag() : z[q / 2].real();
            const Num& w = q % 2 ? m[q / 2].im : m[q / 2].re;
            c.expectEq(double(xad::value(g)), w.v, "forward value of part", q);
            c.expectEq(double(xad::derivative(g)), w.d[k], "forward derivative of part", q, k);
        }
    }
    xad::Tape<R> tape;
    AR in[NIN];
    for (int i = 0; i < NIN; ++i) in[i] = R(start[i]);
    tape.registerInputs(in, in + NIN);
    tape.newRecording();
    {
        std::complex<AR> z[3] = {{in[0], in[1]}, {in[2], in[3]}, {AR(3), AR(-2)}};
        for (auto& s : prog) exec(s, z, in[4]);
        for (int q = 0; q < 6; ++q)
        {
            AR& g = q % 2 ? z[q / 2].imag() : z[q / 2].real();
            const Num& w = q % 2 ? m[q / 2].im : m[q / 2].re;
            c.expectEq(double(xad::value(g)), w.v, "adjoint value of part", q);
            if (!g.shouldRecord())
            {
                for (int k = 0; k < NIN; ++k) c.expectEq(0.0, w.d[k], "derivative of a part that is not on the tape", q, k);
                continue;
            }
            tape.clearDerivatives();
            tape.registerOutput(g);
            xad::derivative(g) = 1;
            tape.computeAdjoints();
            for (int k = 0; k < NIN; ++k) c.expectEq(double(xad::derivative(in[k])), w.d[k], "adjoint derivative of part", q, k);
        }
    }
}
int main(int argc, char** argv)
{
    std::vector<mc::Space> s;
    int k = 0;
    for (auto& u : holo) s.push_back({u.name, "function on the lattice, both modes", unary, k++, 0, 2, 3});
    s.push_back({"others", "real-valued and conjugating functions, functions of a real number", others, 0, 0, 2, 3});
    s.push_back({"polar", "polar in every operand form", polars, 0, 0, 2, 3});
#define PAIRS(P) P(CA, CA) P(CA, A) P(CA, E) P(CA, E2) P(CA, S) P(CA, CS) P(A, CA) P(E, CA) P(E2, CA) P(S, CA) P(CS, CA)
#define MIXED(P) P(A, CS) P(E, CS) P(E2, CS) P(CS, A) P(CS, E) P(CS, E2)
#define P(l, r)                                                                               \
    s.push_back({"add " #l " " #r, "complex addition", Bin<Add, l, r>::run, 0, 0, 2, 3});         \
    s.push_back({"sub " #l " " #r, "complex subtraction", Bin<Sub, l, r>::run, 1, 0, 2, 3});      \
    s.push_back({"mul " #l " " #r, "complex multiplication", Bin<Mul, l, r>::run, 2, 0, 2, 3});   \
    s.push_back({"div " #l " " #r, "complex division", Bin<Div, l, r>::run, 3, 0, 2, 3});
    PAIRS(P)
    MIXED(P)
#undef P
#define P(l, r) s.push_back({"pow " #l " " #r, "complex power", Bin<Pow, l, r>::run, 4, 0, 2, 3});
    PAIRS(P)
#undef P
#define P(r) s.push_back({"compound " #r, "compound and plain assignment", Comp<r>::run, 0, 0, 2, 3});
    P(CA) P(A) P(E) P(E2) P(S) P(CS) P(SELF) P(SREAL) P(SIMAG)
#undef P
#define P(t) s.push_back({"pow " #t, "complex power with an integer", powInt<t>, 0, 0, 2, 3});
    P(int) P(short) P(long) P(long long) P(unsigned) P(unsigned short) P(unsigned long) P(unsigned long long)
#undef P
    s.push_back({"compare forward", "comparison operators", compares<FR>, 0, 0, 2, 3});
    s.push_back({"compare adjoint", "comparison operators", compares<AR>, 0, 0, 2, 3});
    s.push_back({"programs", "every program of complex statements of this length, exact", programs, 2, 0, 2, 3});
    s.push_back({"programs-3", "every program of a reduced alphabet of complex statements of this length, exact", programs, 3, 1, 2, PROG3});
    s.push_back({"programs-3-all", "every program of complex statements of this length, exact", programs, 3, 0, 2, 2});
    return mc::mainImpl(argc, argv, s);
}
