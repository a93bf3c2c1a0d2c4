// C11: Jacobian and Hessian helpers against exact polynomial derivatives: shapes, modes, output forms, tape states,
// styles of the user's function, misuse.
#include <XAD/XAD.hpp>
#include <XAD/Hessian.hpp>
#include <XAD/Jacobian.hpp>
#include <array>
#include <deque>
#include <functional>
#include <list>
#include <memory>
#include "../lib/mc.hpp"
typedef mc::Ctx Ctx;
#ifndef REAL
#define REAL double
#endif
typedef REAL R;
typedef xad::AReal<R> AR;
typedef xad::FReal<R> FR;
typedef xad::AReal<FR> AF_;
typedef xad::FReal<FR> FF;
static const int NMAX = 4;

// ---- functions: polynomials with small integer coefficients
struct Mono
{
    double c;
    int e[NMAX];
};
typedef std::vector<Mono> Poly;
static Mono mono(double c, std::initializer_list<int> vars)
{
    Mono m{c, {0, 0, 0, 0}};
    for (int v : vars) m.e[v]++;
    return m;
}
static double pw(double x, int e) { return e <= 0 ? 1 : e == 1 ? x : x * pw(x, e - 1); }
// derivative by the variables i and j (-1: none)
static double eval(const Poly& p, const double* x, int i = -1, int j = -1)
{
    double s = 0;
    for (auto m : p)
    {
        double c = m.c;
        for (int k : {i, j})
            if (k >= 0)
            {
                c *= m.e[k];
                m.e[k]--;
            }
        if (c == 0)
            continue;
        for (int k = 0; k < NMAX; ++k) c *= pw(x[k], m.e[k]);
        s += c;
    }
    return s;
}
template <class T>
static T evalT(const Poly& p, const std::vector<T>& x)
{
    // a single variable: return (a copy of) it
    if (p.size() == 1 && p[0].c == 1)
        for (int k = 0; k < int(x.size()); ++k)
        {
            int t = 0;
            for (int q = 0; q < NMAX; ++q) t += p[0].e[q];
            if (t == 1 && p[0].e[k] == 1)
                return x[k];
        }
    T s = R(0);
    for (auto& m : p)
    {
        T t = R(m.c);
        for (int k = 0; k < int(x.size()); ++k)
            for (int q = 0; q < m.e[k]; ++q) t = t * x[k];
        s = s + t;
    }
    return s;
}
static const std::vector<Poly>& forms(int n)
{
    static std::vector<Poly> cache[NMAX + 1];
    auto& r = cache[n];
    if (r.empty())
    {
        r.push_back({mono(5, {})});
        for (int a = 0; a < n; ++a) r.push_back({mono(1, {a})});
        for (int a = 0; a < n; ++a)
            for (int b = a; b < n; ++b) r.push_back({mono(2, {a, b})});
        for (int a = 0; a + 1 < n; ++a) r.push_back({mono(3, {a}), mono(-1, {a + 1})});
        for (int a = 0; a < n; ++a) r.push_back({mono(1, {a, a, a}), mono(-2, {0})});
        if (n)
        {
            Poly p;
            Mono all = mono(1, {});
            for (int a = 0; a < n; ++a)
            {
                p.push_back(mono(a + 1, {a, a}));
                all.e[a] = 1;
            }
            p.push_back(all);
            r.push_back(p);
        }
    }
    return r;
}
static std::string show(const Poly& p)
{
    std::string s;
    for (auto& m : p)
    {
        s += (s.empty() ? "" : " + ") + std::to_string(int(m.c));
        for (int k = 0; k < NMAX; ++k)
            for (int q = 0; q < m.e[k]; ++q) s += "*x" + std::to_string(k);
    }
    return s;
}
static const double points[2][NMAX] = {{2, -3, 5, -1}, {0, 1, 0, -2}};

// ---- how the user's function is written
enum Style
{
    PURE,      // reads its argument only
    SCALES,    // changes its argument in place after use
    SHUFFLES,  // swaps and moves its argument's elements
    CLEARS,    // clears its argument
    BYVALUE,   // takes it by value (and changes it)
    MOVESOUT,  // returns the elements of its argument by moving them (single-variable outputs)
    NSTYLES
};
static const char* const styleName[] = {"pure", "changes its argument", "swaps its argument", "clears its argument", "takes its argument by value", "moves from its argument"};
template <class T>
static void spoil(int style, std::vector<T>& x)
{
    switch (style)
    {
        case SCALES:
        case BYVALUE:
            for (auto& v : x) v = v * R(3) + R(1);
            break;
        case SHUFFLES:
            if (x.size() > 1)
            {
                std::swap(x[0], x[1]);
                T t(std::move(x[0]));
                x[0] = T(R(17));
            }
            else if (x.size() == 1)
                x[0] = R(17);
            break;
        case CLEARS: x.clear(); break;
        default: break;
    }
}
template <class T>
static std::vector<T> userFun(const std::vector<Poly>& f, int style, std::vector<T>& x)
{
    std::vector<T> y;
    if (style == MOVESOUT && f.size() == x.size())
    {
        bool ident = true;
        for (size_t i = 0; i < f.size(); ++i) ident = ident && f[i].size() == 1 && f[i][0].c == 1 && f[i][0].e[i] == 1;
        if (ident)
            return std::move(x);
    }
    for (auto& p : f) y.push_back(evalT(p, x));
    spoil(style, x);
    return y;
}
template <class T>
static std::function<std::vector<T>(std::vector<T>&)> vecFun(const std::vector<Poly>& f, int style, int& calls)
{
    if (style == BYVALUE)
        return [&f, &calls](std::vector<T> x)
        {
            ++calls;
            return userFun(f, BYVALUE, x);
        };
    return [&f, style, &calls](std::vector<T>& x)
    {
        ++calls;
        return userFun(f, style, x);
    };
}
template <class T>
static std::function<T(std::vector<T>&)> scalFun(const Poly& f, int style, int& calls)
{
    auto g = [&f, style, &calls](std::vector<T>& x) -> T
    {
        ++calls;
        T y = evalT(f, x);
        spoil(style, x);
        return y;
    };
    if (style == BYVALUE)
        return [g](std::vector<T> x) -> T { return g(x); };
    return g;
}

// ---- state of the caller's variables and tapes
enum TapeState
{
    T_NONE,        // no tape anywhere, default argument
    T_ACTIVE,      // the caller's tape is active, default argument
    T_PASSED,      // the caller's tape is active and passed
    T_INACTIVE,    // an inactive tape is passed, none is active
    T_OTHER,       // an inactive tape is passed while another one is active
    T_NULL,        // nullptr passed, none active
    T_NULLACTIVE,  // nullptr passed while a tape is active
    NTAPES
};
static const char* const tapeName[] = {"no tape", "active tape", "active tape passed", "inactive tape passed", "inactive tape passed, other tape active", "nullptr passed", "nullptr passed, tape active"};
enum VarState
{
    V_FRESH,
    V_REGISTERED,  // registered with the active tape, after a recording with seeded adjoints
    V_SEEDED,      // carries derivatives of its own (forward levels)
    NVARS
};
static const char* const varName[] = {"fresh variables", "registered variables", "variables with derivatives"};

template <class T>
struct Level;
template <>
struct Level<AR>
{
    typedef xad::Tape<R> TP;
    static const bool adj = true, fwd = false;
    static void seed(std::vector<AR>&) {}
};
template <>
struct Level<FR>
{
    struct TP
    {
        explicit TP(bool = true) {}
        static TP* getActive() { return nullptr; }
    };
    static const bool adj = false, fwd = true;
    static void seed(std::vector<FR>& x)
    {
        for (size_t i = 0; i < x.size(); ++i) xad::derivative(x[i]) = R(i + 7);
    }
};
template <>
struct Level<AF_>
{
    typedef xad::Tape<FR> TP;
    static const bool adj = true, fwd = true;
    static void seed(std::vector<AF_>& x)
    {
        for (size_t i = 0; i < x.size(); ++i) xad::derivative(xad::value(x[i])) = R(i + 7);
    }
};
template <>
struct Level<FF>
{
    typedef Level<FR>::TP TP;
    static const bool adj = false, fwd = true;
    static void seed(std::vector<FF>& x)
    {
        for (size_t i = 0; i < x.size(); ++i)
        {
            xad::derivative(xad::value(x[i])) = R(i + 7);
            xad::value(xad::derivative(x[i])) = R(i + 3);
            xad::derivative(xad::derivative(x[i])) = R(1);
        }
    }
};
static double plain(R x) { return double(x); }
template <class T>
static double plain(const T& x)
{
    return plain(xad::value(x));
}

// everything the caller has, with checks that it is as before afterwards
template <class T, bool ADJ = Level<T>::adj>
struct World
{
    int ts, vs;
    std::vector<T> x;
    World(Ctx&, int t, int v, int n, const double* p) : ts(t), vs(v)
    {
        for (int i = 0; i < n; ++i) x.push_back(T(R(p[i])));
        if (vs == V_SEEDED)
            Level<T>::seed(x);
    }
    static void same(Ctx& c, const T& a, const T& b)
    {
        (void)a, (void)b, (void)c;
    }
    void after(Ctx& c, const double* p)
    {
        std::vector<T> y;
        for (size_t i = 0; i < x.size(); ++i) y.push_back(T(R(p[i])));
        if (vs == V_SEEDED)
            Level<T>::seed(y);
        for (size_t i = 0; i < x.size(); ++i)
        {
            c.expectEq(plain(x[i]), p[i], "value of the caller's variable", int(i));
            c.expectEq(plain(xad::derivative(x[i])), plain(xad::derivative(y[i])), "derivative of the caller's variable", int(i));
        }
    }
    template <class F>
    auto call(F f) -> decltype(f(0))
    {
        return f(0);
    }
};
template <class T>
struct World<T, true>
{
    typedef typename Level<T>::TP TP;
    int ts, vs;
    std::unique_ptr<TP> own, other;
    std::vector<T> x;
    T z;
    std::vector<unsigned> slots;
    TP* act;
    World(Ctx&, int t, int v, int n, const double* p) : ts(t), vs(v)
    {
        if (ts == T_ACTIVE || ts == T_PASSED || ts == T_NULLACTIVE)
            own.reset(new TP);
        if (ts == T_INACTIVE || ts == T_OTHER)
            own.reset(new TP(false));
        if (ts == T_OTHER)
            other.reset(new TP);
        act = TP::getActive();
        x.reserve(n);
        for (int i = 0; i < n; ++i) x.push_back(T(R(p[i])));
        if (vs == V_SEEDED)
            Level<T>::seed(x);
        if (vs == V_REGISTERED && act)
        {
            act->registerInputs(x);
            act->newRecording();
            z = R(1);
            for (auto& q : x) z = z * q + q;
            act->registerOutput(z);
            xad::derivative(z) = R(1);
            if (n)
                xad::derivative(x[0]) = R(2);
        }
        for (auto& q : x) slots.push_back(q.getSlot());
    }
    // the tape given to the helper (0: default argument, else the pointer)
    TP* passed() { return ts == T_PASSED || ts == T_INACTIVE || ts == T_OTHER ? own.get() : nullptr; }
    bool dflt() const { return ts == T_NONE || ts == T_ACTIVE; }
    void after(Ctx& c, const double* p)
    {
        c.expect(TP::getActive() == act, "the caller's active tape is in place after the call");
        std::vector<T> y;
        for (size_t i = 0; i < x.size(); ++i) y.push_back(T(R(p[i])));
        if (vs == V_SEEDED)
            Level<T>::seed(y);
        for (size_t i = 0; i < x.size(); ++i)
        {
            c.expectEq(plain(x[i]), p[i], "value of the caller's variable", int(i));
            c.expectEq(x[i].getSlot(), slots[i], "slot of the caller's variable", int(i));
            c.expectEq(plain(xad::derivative(xad::value(x[i]))), plain(xad::derivative(xad::value(y[i]))), "inner derivative of the caller's variable", int(i));
        }
        // the caller's tapes are usable
        for (TP* t : {own.get(), other.get()})
        {
            if (!t)
                continue;
            TP::deactivateAll();
            t->activate();
            {
                T a(R(3)), b(R(4));
                t->registerInput(a);
                t->registerInput(b);
                t->newRecording();
                T w = a * b + a;
                t->registerOutput(w);
                xad::derivative(w) = R(1);
                t->computeAdjoints();
                c.expectEq(plain(xad::derivative(a)), 5, "derivative on the caller's tape after the call, input 0");
                c.expectEq(plain(xad::derivative(b)), 3, "derivative on the caller's tape after the call, input 1");
            }
            t->deactivate();
        }
        if (act)
            act->activate();
    }
};

// ---- output forms
enum OutForm
{
    O_RET,      // returned matrix
    O_VECVEC,
    O_LISTVEC,
    O_VECLIST,
    O_ARRAY,    // pointer to rows of std::array (full size only)
    O_SUB,      // middle rows of a bigger matrix
    NOUT
};
static const char* const outName[] = {"returned", "vector of vectors", "list of vectors", "vector of lists", "array of arrays", "rows of a bigger matrix"};
typedef std::vector<std::vector<double>> Mat;
template <class M>
static Mat toMat(const M& m)
{
    Mat r;
    for (auto& row : m)
    {
        r.emplace_back();
        for (auto& e : row) r.back().push_back(plain(e));
    }
    return r;
}
static void compare(Ctx& c, const char* what, const Mat& got, const Mat& want)
{
    if (got.size() != want.size())
        c.fail("%s has %d rows, not %d", what, int(got.size()), int(want.size()));
    uint64_t h = 7;
    for (size_t i = 0; i < want.size(); ++i)
    {
        if (got[i].size() != want[i].size())
            c.fail("%s: row %d has %d columns, not %d", what, int(i), int(got[i].size()), int(want[i].size()));
        for (size_t j = 0; j < want[i].size(); ++j)
        {
            h = mc::mix(h, mc::bits(got[i][j]));
            if (!(got[i][j] == want[i][j]))
                c.fail("%s: element (%d,%d) is %.17g, exact %.17g", what, int(i), int(j), got[i][j], want[i][j]);
        }
    }
    c.outcome(h);
}
// element types: the scalar of the mode
template <class T>
struct Elem
{
    typedef typename T::value_type type;  // Jacobian: derivative type
};
// run(first, last) fills the matrix; ret() returns it
template <class E, class Run, class Ret>
static Mat deliver(int out, int rows, int cols, Run run, Ret ret)
{
    switch (out)
    {
        case O_RET: return toMat(ret());
        case O_VECVEC:
        {
            std::vector<std::vector<E>> m(rows, std::vector<E>(cols, E(R(99))));
            run(m.begin(), m.end());
            return toMat(m);
        }
        case O_LISTVEC:
        {
            std::list<std::vector<E>> m(rows, std::vector<E>(cols, E(R(99))));
            run(m.begin(), m.end());
            return toMat(m);
        }
        case O_VECLIST:
        {
            std::vector<std::list<E>> m(rows, std::list<E>(cols, E(R(99))));
            run(m.begin(), m.end());
            return toMat(m);
        }
        case O_ARRAY:
        {
            if (cols != 2)
                return deliver<E>(O_VECVEC, rows, cols, run, ret);
            std::array<E, 2> m[5];
            for (auto& r : m) r.fill(E(R(99)));
            run(m + 0, m + rows);
            std::vector<std::array<E, 2>> v(m, m + rows);
            if (plain(m[rows][0]) != 99)
                return Mat();
            return toMat(v);
        }
        default:
        {
            std::vector<std::vector<E>> m(rows + 2, std::vector<E>(cols, E(R(99))));
            run(m.begin() + 1, m.end() - 1);
            if (cols && (plain(m.front()[0]) != 99 || plain(m.back()[cols - 1]) != 99))
                return Mat();
            return toMat(std::vector<std::vector<E>>(m.begin() + 1, m.end() - 1));
        }
    }
}
// the four kinds of call
template <class T, bool ADJ = Level<T>::adj>
struct Jac
{
    typedef std::function<std::vector<T>(std::vector<T>&)> Fn;
    typedef typename T::value_type E;
    static std::vector<std::vector<E>> ret(World<T>& w, const Fn& f) { return xad::computeJacobian(w.x, f); }
    template <class It>
    static void fill(World<T>& w, const Fn& f, It a, It b)
    {
        xad::computeJacobian(w.x, f, a, b);
    }
};
template <class T>
struct Jac<T, true>
{
    typedef std::function<std::vector<T>(std::vector<T>&)> Fn;
    typedef typename T::value_type E;
    static std::vector<std::vector<E>> ret(World<T>& w, const Fn& f)
    {
        return w.dflt() ? xad::computeJacobian(w.x, f) : xad::computeJacobian(w.x, f, w.passed());
    }
    template <class It>
    static void fill(World<T>& w, const Fn& f, It a, It b)
    {
        if (w.dflt())
            xad::computeJacobian(w.x, f, a, b);
        else
            xad::computeJacobian(w.x, f, a, b, w.passed());
    }
};
template <class T, bool ADJ = Level<T>::adj>
struct Hes
{
    typedef std::function<T(std::vector<T>&)> Fn;
    static std::vector<std::vector<R>> ret(World<T>& w, const Fn& f) { return xad::computeHessian(w.x, f); }
    template <class It>
    static void fill(World<T>& w, const Fn& f, It a, It b)
    {
        xad::computeHessian(w.x, f, a, b);
    }
};
template <class T>
struct Hes<T, true>
{
    typedef std::function<T(std::vector<T>&)> Fn;
    static std::vector<std::vector<R>> ret(World<T>& w, const Fn& f)
    {
        return w.dflt() ? xad::computeHessian(w.x, f) : xad::computeHessian(w.x, f, w.passed());
    }
    template <class It>
    static void fill(World<T>& w, const Fn& f, It a, It b)
    {
        if (w.dflt())
            xad::computeHessian(w.x, f, a, b);
        else
            xad::computeHessian(w.x, f, a, b, w.passed());
    }
};
template <class T>
static bool states(Ctx& c, int detail, int& ts, int& vs)
{
    ts = T_NONE;
    vs = V_FRESH;
    if (!detail)
    {
        ts = Level<T>::adj ? c.choose(2) : 0;
        return true;
    }
    ts = Level<T>::adj ? c.choose(NTAPES) : 0;
    vs = c.choose(NVARS);
    if (vs == V_SEEDED && !Level<T>::fwd)
        return false;
    if (vs == V_REGISTERED && !(ts == T_ACTIVE || ts == T_PASSED || ts == T_NULLACTIVE || ts == T_OTHER))
        return false;
    return true;
}
// param: 10*inputs + outputs; param2: 1 = all styles, output forms, tape and variable states; 0 = all functions
template <class T>
static void jacobian(Ctx& c)
{
    int n = c.param / 10, m = c.param % 10, ts, vs, style = PURE, out = O_RET;
    if (!states<T>(c, c.param2, ts, vs))
        return;
    if (c.param2)
    {
        style = c.choose(NSTYLES);
        out = c.choose(NOUT);
    }
    else
        out = c.choose(2);
    int pt = c.choose(2);
    auto& fs = forms(n);
    std::vector<Poly> f;
    for (int i = 0; i < m; ++i) f.push_back(fs[c.choose(int(fs.size()))]);
    const double* x = points[pt];
    c.log("%d inputs, %s, %s, function %s, matrix %s, point %d", n, tapeName[ts], varName[vs], styleName[style], outName[out], pt);
    for (auto& p : f) c.log("  output %s", show(p).c_str());
    Mat want(m, std::vector<double>(n));
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) want[i][j] = eval(f[i], x, j);
    World<T> w(c, ts, vs, n, x);
    int calls = 0;
    auto fn = vecFun<T>(f, style, calls);
    c.step();
    c.state(mc::mix(mc::mix(ts * 10 + vs, style * 10 + out), mc::mix(pt, m ? show(f[0])[0] : 0)));
    Mat got = deliver<typename Jac<T>::E>(
        out, m, n, [&](auto a, auto b) { Jac<T>::fill(w, fn, a, b); }, [&] { return Jac<T>::ret(w, fn); });
    compare(c, "Jacobian", got, want);
    w.after(c, x);
}
// param: inputs; param2: as above; the function is a sum of two forms (or the product of one with itself)
template <class T>
static void hessian(Ctx& c)
{
    int n = c.param, ts, vs, style = PURE, out = O_RET;
    if (!states<T>(c, c.param2, ts, vs))
        return;
    if (c.param2)
    {
        style = c.choose(NSTYLES - 1);
        out = c.choose(NOUT);
    }
    else
        out = c.choose(2);
    int pt = c.choose(2);
    auto& fs = forms(n);
    Poly f = fs[c.choose(int(fs.size()))];
    int second = c.choose(int(fs.size()) + 1);
    if (second)
        for (auto& mm : fs[second - 1]) f.push_back(mm);
    const double* x = points[pt];
    c.log("%d inputs, %s, %s, function %s, matrix %s, point %d", n, tapeName[ts], varName[vs], styleName[style], outName[out], pt);
    c.log("  %s", show(f).c_str());
    Mat want(n, std::vector<double>(n));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) want[i][j] = eval(f, x, i, j);
    World<T> w(c, ts, vs, n, x);
    int calls = 0;
    auto fn = scalFun<T>(f, style, calls);
    c.step();
    c.state(mc::mix(mc::mix(ts * 10 + vs, style * 10 + out), mc::mix(pt, second)));
    Mat got = deliver<R>(
        out, n, n, [&](auto a, auto b) { Hes<T>::fill(w, fn, a, b); }, [&] { return Hes<T>::ret(w, fn); });
    compare(c, "Hessian", got, want);
    w.after(c, x);
}
// every wrong shape: rows x columns of 0..n+2, and one row shorter or longer than the others; also a throwing function
template <class T, bool HESS>
static void shapes(Ctx& c)
{
    int n = c.choose(4), m = HESS ? n : c.choose(4), ts, vs;
    if (!states<T>(c, 1, ts, vs))
        return;
    int rows = c.choose(m + 3), cols = c.choose(n + 3), odd = c.choose(rows * 2 + 1);
    bool throws = c.choose(2);
    const double* x = points[0];
    typedef typename std::conditional<HESS, R, typename Jac<T>::E>::type E;
    std::vector<std::vector<E>> mat(rows, std::vector<E>(cols, E(R(99))));
    if (odd)
    {
        auto& r = mat[(odd - 1) / 2];
        if (odd & 1)
            r.push_back(E(R(99)));
        else if (r.empty())
            return;
        else
            r.pop_back();
    }
    bool good = rows == m;
    for (auto& r : mat) good = good && int(r.size()) == n;
    c.log("%d inputs, %d outputs, matrix %dx%d odd row code %d, %s, %s%s", n, m, rows, cols, odd, tapeName[ts], varName[vs], throws ? ", function throws" : "");
    // without outputs there is no row that could have the wrong size
    std::vector<Poly> f(m, n ? Poly{mono(2, {0, n - 1})} : Poly{mono(5, {})});
    World<T> w(c, ts, vs, n, x);
    int calls = 0, res = 0;
    struct Boom
    {
    };
    c.step();
    c.state(mc::mix(n * 10 + m, mc::mix(rows * 10 + cols, odd * 100 + ts * 10 + vs)));
    try
    {
        if constexpr (HESS)
        {
            if (f.empty())
                f.push_back({mono(5, {})});
            auto g = scalFun<T>(f[0], PURE, calls);
            typename Hes<T>::Fn h = [&](std::vector<T>& v) -> T
            {
                T y = g(v);
                if (throws)
                    throw Boom();
                return y;
            };
            Hes<T>::fill(w, h, mat.begin(), mat.end());
        }
        else
        {
            auto g = vecFun<T>(f, PURE, calls);
            typename Jac<T>::Fn h = [&](std::vector<T>& v)
            {
                auto y = g(v);
                if (throws)
                    throw Boom();
                return y;
            };
            Jac<T>::fill(w, h, mat.begin(), mat.end());
        }
    }
    catch (const xad::OutOfRange&)
    {
        res = 1;
    }
    catch (const Boom&)
    {
        res = 2;
    }
    c.outcome(res);
    // whether a throwing function is called at all before the shape is rejected is not specified
    if (good && throws && calls)
        c.expectEq(res, 2, "outcome with a throwing function (0 none, 1 OutOfRange, 2 the function's exception)");
    else if (!good && throws)
        c.expect(res == 1 || res == 2, "a wrong shape or throwing function raises an exception");
    else
        c.expectEq(res, good ? 0 : 1, "outcome (0 accepted, 1 OutOfRange, 2 the function's exception)");
    w.after(c, x);
}
int main(int argc, char** argv)
{
    std::vector<mc::Space> s;
    static char names[300][60];
    int k = 0;
    auto add = [&](const char* mode, const char* what, mc::Space sp)
    {
        snprintf(names[k], sizeof names[k], "%s-%s", mode, what);
        sp.name = names[k++];
        s.push_back(sp);
    };
#define ALL(T, nm)                                                                                                                      \
    for (int n = 0; n <= NMAX; ++n)                                                                                                     \
        for (int m = 0; m <= (n < 4 ? 4 : 3); ++m)                                                                                       \
        {                                                                                                                               \
            char b[40];                                                                                                                 \
            snprintf(b, sizeof b, "jacobian-%dx%d", m, n);                                                                              \
            add(nm, b, {"", "every vector function of the family with this shape", jacobian<T>, n * 10 + m, 0, 2, m * n > 9 ? 2 : 3}); \
            snprintf(b, sizeof b, "jacobian-states-%dx%d", m, n);                                                                       \
            if (m <= 3 && n <= 3)                                                                                                       \
                add(nm, b, {"", "every function style, matrix form, tape and variable state", jacobian<T>, n * 10 + m, 1, 2, m * n > 4 ? 2 : 3}); \
        }
#define ALLH(T, nm)                                                                                                             \
    for (int n = 0; n <= NMAX; ++n)                                                                                             \
    {                                                                                                                           \
        char b[40];                                                                                                             \
        snprintf(b, sizeof b, "hessian-%d", n);                                                                                 \
        add(nm, b, {"", "every sum of two functions of the family", hessian<T>, n, 0, 2, 3});                                   \
        snprintf(b, sizeof b, "hessian-states-%d", n);                                                                          \
        if (n <= 3)                                                                                                             \
            add(nm, b, {"", "every function style, matrix form, tape and variable state", hessian<T>, n, 1, 2, 3}); \
    }
    ALL(AR, "adj")
    ALL(FR, "fwd")
    ALLH(AF_, "fwdadj")
    ALLH(FF, "fwdfwd")
    add("adj", "jacobian-shapes", {"", "every matrix shape, right and wrong, and throwing functions", shapes<AR, false>, 0, 0, 2, 3});
    add("fwd", "jacobian-shapes", {"", "every matrix shape, right and wrong, and throwing functions", shapes<FR, false>, 0, 0, 2, 3});
    add("fwdadj", "hessian-shapes", {"", "every matrix shape, right and wrong, and throwing functions", shapes<AF_, true>, 0, 0, 2, 3});
    add("fwdfwd", "hessian-shapes", {"", "every matrix shape, right and wrong, and throwing functions", shapes<FF, true>, 0, 0, 2, 3});
    // Jacobians of nested types: the values of the entries
    add("fwdadj", "jacobian-2x2", {"", "Jacobian with a nested type", jacobian<AF_>, 22, 1, 2, 3});
    add("fwdfwd", "jacobian-2x2", {"", "Jacobian with a nested type", jacobian<FF>, 22, 1, 2, 3});
    return mc::mainImpl(argc, argv, s);
}
