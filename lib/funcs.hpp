// Every supported math function and operator: how to call it, the plain equivalent, the analytic derivative
// (long double) and where it is differentiable.
#pragma once
#include "jet.hpp"
#include <XAD/XAD.hpp>
#include <XAD/StdCompatibility.hpp>
#include <cfloat>
#include <cmath>
#include <limits>
#include <type_traits>
#ifndef REAL
#define REAL double
#endif
typedef REAL R;
typedef long double LD;
static const LD PI_L = 3.141592653589793238462643383279502884L;

template <class X>
static inline X sgn(X x) { return x > X(0) ? X(1) : x < X(0) ? X(-1) : X(0); }
static inline LD lval(LD x) { return x; }
template <int O>
static inline LD lval(const jet::Jet<O>& x) { return x.val(); }
static inline bool isint(LD x) { return x == std::floor(x); }
// quotient n such that fmod/remainder is a - n*b
template <class X>
static inline X truncq(X a, X b) { return X(std::round((lval(a) - std::fmod(lval(a), lval(b))) / lval(b))); }
template <class X>
static inline X nearq(X a, X b) { return X(std::round((lval(a) - std::remainder(lval(a), lval(b))) / lval(b))); }
static inline LD sabs(LD x, LD c) { return std::fabs(x) > c ? std::fabs(x) : x * x * (2 / c - std::fabs(x) / (c * c)); }
template <class X>
static inline X sabs_dx(X x, X c) { return std::fabs(x) > c ? sgn(x) : X(4) * x / c - X(3) * std::fabs(x) * x / (c * c); }
template <class X>
static inline X sabs_dc(X x, X c) { return std::fabs(x) > c ? X(0) : X(-2) * x * x / (c * c) + X(2) * std::fabs(x) * x * x / (c * c * c); }

// The call is handed to a continuation, so that temporaries live until the result has been consumed.
// ---- unary: f(x)
#define UFUN(id, xcall, scall, plain, deriv, domain)                          \
    struct U_##id                                                             \
    {                                                                         \
        static const char* nm() { return #id; }                               \
        template <class K, class X>                                           \
        static void f(K&& k, const X& x)                                      \
        {                                                                     \
            k(xcall);                                                         \
        }                                                                     \
        template <class K, class X>                                           \
        static void s(K&& k, const X& x)                                      \
        {                                                                     \
            k(scall);                                                         \
        }                                                                     \
        static R p(R x) { return plain; }                                     \
        template <class X>                                                    \
        static X d(X x)                                                       \
        {                                                                     \
            (void)x;                                                          \
            return deriv;                                                     \
        }                                                                     \
        static bool dom(LD x)                                                 \
        {                                                                     \
            (void)x;                                                          \
            return domain;                                                    \
        }                                                                     \
    };
#define USTD(n, deriv, domain) UFUN(n, xad::n(x), std::n(x), R(std::n(x)), deriv, domain)
USTD(sin, std::cos(x), true)
USTD(cos, -std::sin(x), true)
USTD(tan, 1 / (std::cos(x) * std::cos(x)), std::cos(x) != 0)
USTD(asin, 1 / std::sqrt((1 - x) * (1 + x)), std::fabs(x) < 1)
USTD(acos, -1 / std::sqrt((1 - x) * (1 + x)), std::fabs(x) < 1)
USTD(atan, 1 / (1 + x * x), true)
USTD(sinh, std::cosh(x), true)
USTD(cosh, std::sinh(x), true)
USTD(tanh, 1 / (std::cosh(x) * std::cosh(x)), true)
USTD(asinh, 1 / std::sqrt(x * x + 1), true)
USTD(acosh, 1 / std::sqrt((x - 1) * (x + 1)), x > 1)
USTD(atanh, 1 / ((1 - x) * (1 + x)), std::fabs(x) < 1)
USTD(exp, std::exp(x), true)
USTD(exp2, std::log(2.0L) * std::exp2(x), true)
USTD(expm1, std::exp(x), true)
USTD(log, 1 / x, x > 0)
USTD(log2, 1 / (x * std::log(2.0L)), x > 0)
USTD(log10, 1 / (x * std::log(10.0L)), x > 0)
USTD(log1p, 1 / (1 + x), x > -1)
USTD(sqrt, 0.5L / std::sqrt(x), x > 0)
USTD(cbrt, 1 / (3 * std::cbrt(x) * std::cbrt(x)), x != 0)
USTD(erf, 2 / std::sqrt(PI_L) * std::exp(-x * x), true)
USTD(erfc, -2 / std::sqrt(PI_L) * std::exp(-x * x), true)
USTD(abs, sgn(x), true)  // documented as (x>0)-(x<0)
USTD(fabs, sgn(x), true)
USTD(floor, 0, !isint(x))
USTD(ceil, 0, !isint(x))
USTD(trunc, 0, !isint(x) || x == 0)
USTD(round, 0, !isint(x * 2) || isint(x))
UFUN(degrees, xad::degrees(x), xad::degrees(x), R(LD(x) * (180 / PI_L)), 180 / PI_L, true)
UFUN(radians, xad::radians(x), xad::radians(x), R(LD(x) * (PI_L / 180)), PI_L / 180, true)
UFUN(smooth_abs, xad::smooth_abs(x), xad::smooth_abs(x), xad::smooth_abs(x), sabs_dx(x, decltype(x)(R(0.001))), true)
UFUN(negate, -x, -x, -x, -1, true)
UFUN(plus, +x, +x, x, 1, true)
UFUN(plusauto, [&] { auto e = +x; return e; }(), [&] { auto e = +x; return e; }(), x, 1, true)
UFUN(pown3, xad::pown(x, 3), xad::pown(x, 3), R(std::pow(x, 3)), 3 * x * x, true)
UFUN(pown1, xad::pown(x, 1), xad::pown(x, 1), R(std::pow(x, 1)), 1, true)
UFUN(pown0, xad::pown(x, 0), xad::pown(x, 0), R(1), 0, true)
UFUN(pownm2, xad::pown(x, -2), xad::pown(x, -2), R(std::pow(x, -2)), -2 / (x * x * x), x != 0)
UFUN(pow2u, xad::pow(x, 2u), std::pow(x, 2u), R(std::pow(x, 2u)), 2 * x, true)
UFUN(pow0u, xad::pow(x, 0u), std::pow(x, 0u), R(1), 0, true)
UFUN(pow0d, xad::pow(x, R(0)), std::pow(x, R(0)), R(1), 0, true)
UFUN(pow2ul, xad::pow(x, 2ul), std::pow(x, 2ul), R(std::pow(x, 2ul)), 2 * x, true)
UFUN(pow2s, xad::pow(x, short(2)), std::pow(x, short(2)), R(std::pow(x, 2)), 2 * x, true)
#define LDEXP(id, n)                                                                                        \
    UFUN(ldexp_##id, xad::ldexp(x, n), std::ldexp(x, n), std::ldexp(x, n), std::ldexp(1.0L, n), true)       \
    UFUN(scalbn_##id, xad::scalbn(x, n), std::scalbn(x, n), std::scalbn(x, n), std::ldexp(1.0L, n), true)
LDEXP(0, 0)
LDEXP(1, 1)
LDEXP(m1, -1)
LDEXP(30, 30)
LDEXP(31, 31)
LDEXP(33, 33)
LDEXP(m40, -40)
LDEXP(200, 200)
LDEXP(1100, 1100)
LDEXP(m1100, -1100)
static int g_int;      // where frexp/remquo put their integer
static R g_ipart;      // where modf puts the integral part
static inline int frx_(LD x)
{
    int e;
    (void)std::frexp(x, &e);
    return e;
}
static inline R frxp(R x)
{
    int e;
    return std::frexp(x, &e);
}
static inline bool pow2(LD x)
{
    int e;
    return std::fabs(std::frexp(x, &e)) == 0.5L;
}
UFUN(frexp, xad::frexp(x, &g_int), std::frexp(x, &g_int), frxp(x), std::ldexp(1.0L, -frx_(lval(x))), x != 0 && !pow2(x))
static inline R mdf(R x)
{
    R i;
    return std::modf(x, &i);
}
UFUN(modf, xad::modf(x, &g_ipart), std::modf(x, &g_ipart), mdf(x), 1, !isint(x) || x == 0)
UFUN(copysign_p, xad::copysign(x, R(2)), std::copysign(x, R(2)), std::copysign(x, R(2)), sgn(x), x != 0)
UFUN(copysign_n, xad::copysign(x, R(-3)), std::copysign(x, R(-3)), std::copysign(x, R(-3)), -sgn(x), x != 0)
UFUN(copysign_mz, xad::copysign(x, R(-0.0)), std::copysign(x, R(-0.0)), std::copysign(x, R(-0.0)), -sgn(x), x != 0)
// own type constructions
UFUN(mulself, x* x, x* x, x* x, 2 * x, true)
UFUN(divself, x / x, x / x, x / x, 0, x != 0)
UFUN(subself, x - x, x - x, x - x, 0, true)
UFUN(powself, xad::pow(x, x), std::pow(x, x), std::pow(x, x), std::pow(x, x) * (std::log(x) + 1), x > 0)
UFUN(hypotself, xad::hypot(x, x), std::hypot(x, x), std::hypot(x, x), sgn(x) * std::sqrt(2.0L), x != 0)
UFUN(maxself, xad::max(x, x), xad::max(x, x), x, 1, true)
UFUN(minself, xad::min(x, x), xad::min(x, x), x, 1, true)

// ---- binary: f(x, y)
#define BFUN(id, xcall, scall, plain, da_, db_, doma_, domb_)                 \
    struct B_##id                                                             \
    {                                                                         \
        static const char* nm() { return #id; }                               \
        template <class K, class X, class Y>                                  \
        static void f(K&& k, const X& x, const Y& y)                          \
        {                                                                     \
            k(xcall);                                                         \
        }                                                                     \
        template <class K, class X, class Y>                                  \
        static void s(K&& k, const X& x, const Y& y)                          \
        {                                                                     \
            k(scall);                                                         \
        }                                                                     \
        static R p(R x, R y) { return plain; }                                \
        template <class X>                                                    \
        static X da(X x, X y)                                                 \
        {                                                                     \
            (void)x, (void)y;                                                 \
            return da_;                                                       \
        }                                                                     \
        template <class X>                                                    \
        static X db(X x, X y)                                                 \
        {                                                                     \
            (void)x, (void)y;                                                 \
            return db_;                                                       \
        }                                                                     \
        static bool doma(LD x, LD y)                                          \
        {                                                                     \
            (void)x, (void)y;                                                 \
            return doma_;                                                     \
        }                                                                     \
        static bool domb(LD x, LD y)                                          \
        {                                                                     \
            (void)x, (void)y;                                                 \
            return domb_;                                                     \
        }                                                                     \
    };
#define BSTD(n, da, db, doma, domb) BFUN(n, xad::n(x, y), std::n(x, y), std::n(x, y), da, db, doma, domb)
template <class X>
static inline X pw_da(X x, X y) { return x == X(0) && y == X(0) ? X(0) : y * std::pow(x, y - X(1)); }
template <class X>
static inline X pw_db(X x, X y) { return x == X(0) ? X(0) : std::log(x) * std::pow(x, y); }
// at a zero base the derivative exists (one-sided for non-integer exponents) unless it is infinite
static inline bool pw_doma(LD x, LD y) { return x > 0 || (x < 0 && isint(y)) || (x == 0 && y >= 1); }
static inline bool pw_domb(LD x, LD y) { return x > 0 || (x == 0 && y > 0); }
static inline int rq(LD x, LD y)
{
    int q;
    (void)std::remquo(x, y, &q);
    return q;
}
static inline R rqv(R x, R y)
{
    int q = 0;
    return std::remquo(x, y, &q);
}
template <class X>
static inline X mxa(X x, X y) { return x > y ? X(1) : x < y ? X(0) : X(0.5L); }
BFUN(add, x + y, x + y, x + y, 1, 1, true, true)
BFUN(sub, x - y, x - y, x - y, 1, -1, true, true)
BFUN(mul, x* y, x* y, x* y, y, x, true, true)
BFUN(div, x / y, x / y, x / y, 1 / y, -x / (y * y), y != 0, y != 0)
BSTD(pow, pw_da(x, y), pw_db(x, y), pw_doma(x, y), pw_domb(x, y))
BSTD(atan2, y / (x * x + y * y), -x / (x * x + y * y), x != 0 || y > 0, x != 0 || y > 0)
BSTD(hypot, x / std::hypot(x, y), y / std::hypot(x, y), x != 0 || y != 0, x != 0 || y != 0)
BSTD(fmod, 1, -truncq(x, y), y != 0 && (x == 0 || std::fmod(x, y) != 0), y != 0 && (x == 0 || std::fmod(x, y) != 0))
BSTD(remainder, 1, -nearq(x, y), y != 0 && std::fabs(std::remainder(x, y)) < std::fabs(y) / 2,
     y != 0 && std::fabs(std::remainder(x, y)) < std::fabs(y) / 2)
BFUN(remquo, xad::remquo(x, y, &g_int), std::remquo(x, y, &g_int), rqv(x, y), 1, -nearq(x, y),
     y != 0 && std::fabs(std::remainder(x, y)) < std::fabs(y) / 2, y != 0 && std::fabs(std::remainder(x, y)) < std::fabs(y) / 2)
// documented: both arguments are considered the same
BSTD(nextafter, 1, 0, true, true)
// documented as (x + y +- abs(x-y))/2, so one half each where they are equal
BFUN(max, xad::max(x, y), std::max(x, y), std::max(x, y), mxa(x, y), mxa(y, x), true, true)
BFUN(min, xad::min(x, y), std::min(x, y), std::min(x, y), mxa(y, x), mxa(x, y), true, true)
BFUN(fmax, xad::fmax(x, y), std::fmax(x, y), std::max(x, y), mxa(x, y), mxa(y, x), true, true)
BFUN(fmin, xad::fmin(x, y), std::fmin(x, y), std::min(x, y), mxa(y, x), mxa(x, y), true, true)
BFUN(smooth_abs2, xad::smooth_abs(x, y), xad::smooth_abs(x, y), R(sabs(x, y)), sabs_dx(x, y), sabs_dc(x, y), y > 0, y > 0)
BFUN(smooth_max, xad::smooth_max(x, y), xad::smooth_max(x, y), R((LD(x) + y + sabs(LD(x) - y, R(0.001))) / 2),
     (1 + sabs_dx(x - y, decltype(x)(R(0.001)))) / 2, (1 - sabs_dx(x - y, decltype(x)(R(0.001)))) / 2, true, true)
BFUN(smooth_min, xad::smooth_min(x, y), xad::smooth_min(x, y), R((LD(x) + y - sabs(LD(x) - y, R(0.001))) / 2),
     (1 - sabs_dx(x - y, decltype(x)(R(0.001)))) / 2, (1 + sabs_dx(x - y, decltype(x)(R(0.001)))) / 2, true, true)
BFUN(smooth_max3, xad::smooth_max(x, y, R(0.75)), xad::smooth_max(x, y, R(0.75)), R((LD(x) + y + sabs(LD(x) - y, 0.75L)) / 2),
     (1 + sabs_dx(x - y, decltype(x)(0.75L))) / 2, (1 - sabs_dx(x - y, decltype(x)(0.75L))) / 2, true, true)
BFUN(smooth_min3, xad::smooth_min(x, y, R(0.75)), xad::smooth_min(x, y, R(0.75)), R((LD(x) + y - sabs(LD(x) - y, 0.75L)) / 2),
     (1 - sabs_dx(x - y, decltype(x)(0.75L))) / 2, (1 + sabs_dx(x - y, decltype(x)(0.75L))) / 2, true, true)
BFUN(copysign, xad::copysign(x, y), std::copysign(x, y), std::copysign(x, y), sgn(x) * (std::signbit(lval(y)) ? -1 : 1), 0, x != 0 && y != 0,
     x != 0 && y != 0)

#define ALL_UNARY(X) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(sinh) X(cosh) X(tanh) X(asinh) \
    X(acosh) X(atanh) X(exp) X(exp2) X(expm1) X(log) X(log2) X(log10) X(log1p) X(sqrt) X(cbrt) \
    X(erf) X(erfc) X(abs) X(fabs) X(floor) X(ceil) X(trunc) X(round) X(degrees) X(radians) \
    X(smooth_abs) X(negate) X(plus) X(plusauto) X(pown3) X(pown1) X(pown0) X(pownm2) X(pow2u) \
    X(pow0u) X(pow0d) X(pow2ul) X(pow2s) X(frexp) X(modf) X(copysign_p) X(copysign_n) X(copysign_mz) \
    X(mulself) X(divself) X(subself) X(powself) X(hypotself) X(maxself) X(minself) X(ldexp_0) \
    X(scalbn_0) X(ldexp_1) X(scalbn_1) X(ldexp_m1) X(scalbn_m1) X(ldexp_30) X(scalbn_30) \
    X(ldexp_31) X(scalbn_31) X(ldexp_33) X(scalbn_33) X(ldexp_m40) X(scalbn_m40) X(ldexp_200) \
    X(scalbn_200) X(ldexp_1100) X(scalbn_1100) X(ldexp_m1100) X(scalbn_m1100)
#define ALL_BINARY(X) X(add) X(sub) X(mul) X(div) X(pow) X(atan2) X(hypot) X(fmod) X(remainder) \
    X(remquo) X(nextafter) X(max) X(min) X(fmax) X(fmin) X(smooth_abs2) X(smooth_max) \
    X(smooth_min) X(smooth_max3) X(smooth_min3) X(copysign)
