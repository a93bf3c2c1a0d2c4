// Truncated bivariate Taylor arithmetic in extended precision: the reference for derivatives of order 1 to 3.
#pragma once
#include <cmath>
#include <initializer_list>
namespace jet
{
typedef long double LD;
template <int ORD>
struct Jet
{
    LD c[ORD + 1][ORD + 1];  // coefficient of x^a y^b, a+b <= ORD
    Jet(LD v = 0)
    {
        for (auto& r : c)
            for (auto& x : r) x = 0;
        c[0][0] = v;
    }
    static Jet var(int k, LD v)
    {
        Jet r(v);
        r.c[k == 0][k == 1] = 1;
        return r;
    }
    LD val() const { return c[0][0]; }
    // partial derivative
    LD d(int a, int b) const
    {
        LD f = 1;
        for (int i = 2; i <= a; ++i) f *= i;
        for (int i = 2; i <= b; ++i) f *= i;
        return c[a][b] * f;
    }
    friend Jet operator+(const Jet& p, const Jet& q)
    {
        Jet r;
        for (int a = 0; a <= ORD; ++a)
            for (int b = 0; a + b <= ORD; ++b) r.c[a][b] = p.c[a][b] + q.c[a][b];
        return r;
    }
    friend Jet operator-(const Jet& p, const Jet& q)
    {
        Jet r;
        for (int a = 0; a <= ORD; ++a)
            for (int b = 0; a + b <= ORD; ++b) r.c[a][b] = p.c[a][b] - q.c[a][b];
        return r;
    }
    friend Jet operator*(const Jet& p, const Jet& q)
    {
        Jet r;
        for (int a = 0; a <= ORD; ++a)
            for (int b = 0; a + b <= ORD; ++b)
                for (int x = 0; a + b + x <= ORD; ++x)
                    for (int y = 0; a + b + x + y <= ORD; ++y) r.c[a + x][b + y] += p.c[a][b] * q.c[x][y];
        return r;
    }
    // f(this) for f with Taylor coefficients t[k] = f^(k)(val)/k!
    Jet compose(std::initializer_list<LD> t) const
    {
        Jet h = *this, pw(1), r(0);
        h.c[0][0] = 0;
        for (LD x : t)
        {
            r = r + Jet(x) * pw;
            pw = pw * h;
        }
        return r;
    }
    friend Jet operator/(const Jet& p, const Jet& q)
    {
        LD v = 1 / q.val();
        return p * q.compose({v, -v * v, v * v * v, -v * v * v * v});
    }
    friend Jet operator-(const Jet& p) { return Jet(0) - p; }
    friend Jet operator+(const Jet& p) { return p; }
    friend bool operator<(const Jet& p, const Jet& q) { return p.val() < q.val(); }
    friend bool operator>(const Jet& p, const Jet& q) { return p.val() > q.val(); }
    friend bool operator==(const Jet& p, const Jet& q) { return p.val() == q.val(); }
    friend bool operator!=(const Jet& p, const Jet& q) { return p.val() != q.val(); }
};
}  // namespace jet
// the functions occurring in the analytic derivatives
namespace std
{
#define JETF(name, t0, t1, t2, t3)                                 \
    template <int O>                                               \
    jet::Jet<O> name(const jet::Jet<O>& p)                         \
    {                                                              \
        long double x = p.val(), v = t0;                           \
        (void)v;                                                   \
        return p.compose({v, t1, (t2) / 2, (t3) / 6});             \
    }
JETF(sin, std::sin(x), std::cos(x), -v, -std::cos(x))
JETF(cos, std::cos(x), -std::sin(x), -v, std::sin(x))
JETF(sinh, std::sinh(x), std::cosh(x), v, std::cosh(x))
JETF(cosh, std::cosh(x), std::sinh(x), v, std::sinh(x))
JETF(exp, std::exp(x), v, v, v)
JETF(exp2, std::exp2(x), v* std::log(2.0L), v* std::log(2.0L) * std::log(2.0L), v* std::pow(std::log(2.0L), 3))
JETF(log, std::log(x), 1 / x, -1 / (x * x), 2 / (x * x * x))
JETF(sqrt, std::sqrt(x), 0.5L / v, -0.25L / (v * x), 0.375L / (v * x * x))
JETF(cbrt, std::cbrt(x), 1 / (3 * v * v), -2 / (9 * v * v * x), 10 / (27 * v * v * x * x))
JETF(fabs, std::fabs(x), x > 0 ? 1.0L : -1.0L, 0.0L, 0.0L)
template <int O>
jet::Jet<O> pow(const jet::Jet<O>& p, const jet::Jet<O>& q)
{
    long double x = p.val(), e = q.val();
    bool cst = true;
    for (int a = 0; a <= O; ++a)
        for (int b = 0; a + b <= O; ++b)
            if (a + b && q.c[a][b] != 0)
                cst = false;
    if (!cst && x > 0)
        return exp(q * log(p));
    // constant (integral) exponent; for a varying one the derivative by the exponent is outside the domain
    auto term = [&](int k)
    {
        long double f = 1;
        for (int i = 0; i < k; ++i) f *= (e - i) / (i + 1);
        return f == 0 ? 0 : f * std::pow(x, e - k);
    };
    return p.compose({term(0), term(1), term(2), term(3)});
}
template <int O>
jet::Jet<O> hypot(const jet::Jet<O>& p, const jet::Jet<O>& q)
{
    return sqrt(p * p + q * q);
}
}  // namespace std
