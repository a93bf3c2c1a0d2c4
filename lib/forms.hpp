// Operand forms of a call: active variable, expressions, passive numbers of various types.
#pragma once
#include "funcs.hpp"
// the innermost value of a (nested) active type
template <class X>
static auto val0(const X& x) -> typename std::enable_if<!xad::ExprTraits<X>::isExpr, X>::type
{
    return x;
}
template <class X>
static auto val0(const X& x) -> typename std::enable_if<xad::ExprTraits<X>::isExpr, R>::type
{
    return val0(xad::value(x));
}
// ---- operand forms
enum Form
{
    A,   // active variable
    E,   // expression (unary)
    B,   // expression (binary, with a passive active-type variable)
    P,   // plain number of the same type
    I,   // int
    U,   // unsigned
    L,   // long long
    F,   // float
    NF
};
static const char* const fnm[] = {"active", "expr", "expr2", "plain", "int", "unsigned", "long long", "float"};
template <class V, int Fm>
struct Get;
template <class V>
struct Get<V, A>
{
    static const V& g(const V& v, const V&) { return v; }
};
template <class V>
struct Get<V, E>
{
    static auto g(const V& v, const V&) { return v * R(1); }
};
template <class V>
struct Get<V, B>
{
    static auto g(const V& v, const V& one) { return one * v; }
};
#define PASS(K, T)                                                       \
    template <class V>                                                   \
    struct Get<V, K>                                                     \
    {                                                                    \
        static T g(const V& v, const V&) { return static_cast<T>(val0(v)); } \
    };
PASS(P, R)
PASS(I, int)
PASS(U, unsigned)
PASS(L, long long)
PASS(F, float)
static bool fits(int f, R v)
{
    switch (f)
    {
        case I: return v == std::floor(v) && std::fabs(v) < 2147483647. && !(v == 0 && std::signbit(v));
        case U: return v == std::floor(v) && v >= 0 && v < 4294967295. && !(v == 0 && std::signbit(v));
        case L: return v == std::floor(v) && std::fabs(v) < 4e18 && !(v == 0 && std::signbit(v));
        case F: return R(float(v)) == v;
        default: return true;
    }
}
static bool activeForm(int f) { return f <= B; }
