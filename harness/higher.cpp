// C10: higher-order derivatives of every program and function in every nesting of forward and adjoint types.
// -DNESTING=<n letters A or F, outermost first>
#include "../lib/mc.hpp"
#include "../lib/forms.hpp"
#include "../lib/prog.hpp"
#include <memory>
using namespace prog;
typedef mc::Ctx Ctx;
#define STR_(x) #x
#define STR(x) STR_(x)
static const char* const nesting = STR(NESTING);
static constexpr int ORDER = sizeof(STR(NESTING)) - 1;
#ifdef THIRD
#define FEW  // fewer argument forms and contexts, to keep the compile time in bounds
#endif
constexpr char letter(int l) { return STR(NESTING)[l]; }
template <int L, bool END>
struct TypeAt
{
    typedef typename TypeAt<L + 1, L + 1 == ORDER>::type inner;
    typedef typename std::conditional<letter(L) == 'A', xad::AReal<inner>, xad::FReal<inner>>::type type;
};
template <int L>
struct TypeAt<L, true>
{
    typedef R type;
};
typedef typename TypeAt<0, false>::type T;

// directions used at the forward levels
static const double dirs[3][2] = {{2, -1}, {1, 3}, {-1, 2}};
// what is extracted at each level: the value (no differentiation), or the derivative (by input j at an adjoint level)
struct Sel
{
    int s[3];  // 0 value, 1 derivative (forward level: along dirs; adjoint level: by input 0), 2 derivative by input 1
};

template <class X>
struct Drv;
template <>
struct Drv<R>
{
    void seed(R&, R&, int) {}
    void record(R&, R&) {}
    R extract(R& y, R&, R&, const Sel&, int) { return y; }
};
template <class S>
struct Drv<xad::FReal<S>>
{
    typedef xad::FReal<S> X;
    Drv<S> in;
    void seed(X& a, X& b, int l)
    {
        xad::derivative(a) = R(dirs[l][0]);
        xad::derivative(b) = R(dirs[l][1]);
        in.seed(xad::value(a), xad::value(b), l + 1);
    }
    void record(X& a, X& b) { in.record(xad::value(a), xad::value(b)); }
    R extract(X& y, X& a, X& b, const Sel& s, int l)
    {
        return in.extract(s.s[l] ? xad::derivative(y) : xad::value(y), xad::value(a), xad::value(b), s, l + 1);
    }
};
template <class S>
struct Drv<xad::AReal<S>>
{
    typedef xad::AReal<S> X;
    Drv<S> in;
    xad::Tape<S> tape;
    void seed(X& a, X& b, int l) { in.seed(xad::value(a), xad::value(b), l + 1); }
    void record(X& a, X& b)
    {
        in.record(xad::value(a), xad::value(b));
        tape.registerInput(a);
        tape.registerInput(b);
        tape.newRecording();
    }
    R extract(X& y, X& a, X& b, const Sel& s, int l)
    {
        if (!s.s[l])
            return in.extract(xad::value(y), xad::value(a), xad::value(b), s, l + 1);
        tape.registerOutput(y);
        xad::derivative(y) = R(1);
        tape.computeAdjoints();
        return in.extract(xad::derivative(s.s[l] == 1 ? a : b), xad::value(a), xad::value(b), s, l + 1);
    }
};
// number of selections, and the k-th
static std::vector<Sel> selections()
{
    std::vector<Sel> r(1, Sel{{0, 0, 0}});
    for (int l = 0; l < ORDER; ++l)
    {
        std::vector<Sel> n;
        for (auto& x : r)
            for (int v = 0; v < (letter(l) == 'A' ? 3 : 2); ++v)
            {
                Sel y = x;
                y.s[l] = v;
                n.push_back(y);
            }
        r = n;
    }
    return r;
}
static const std::vector<Sel> sels = selections();
static std::string show(const Sel& s)
{
    std::string r;
    for (int l = 0; l < ORDER; ++l)
    {
        if (!s.s[l])
            continue;
        if (letter(l) == 'F')
            r += " along (" + std::to_string(int(dirs[l][0])) + "," + std::to_string(int(dirs[l][1])) + ")";
        else
            r += s.s[l] == 1 ? " by x" : " by y";
    }
    return r.empty() ? " value" : r;
}
// the derivative selected, from the model's partial derivatives
template <class J, class F>
static auto contract(const J& j, const Sel& s, F absval) -> decltype(j.d(0, 0))
{
    decltype(j.d(0, 0)) sum = 0;
    for (int m = 0; m < (1 << ORDER); ++m)
    {
        int a = 0, b = 0;
        double w = 1;
        for (int l = 0; l < ORDER; ++l)
        {
            int k = m >> l & 1;
            if (!s.s[l])
            {
                if (k)
                    w = 0;
                continue;
            }
            if (letter(l) == 'F')
                w *= dirs[l][k];
            else if (s.s[l] != k + 1)
                w = 0;
            (k ? b : a)++;
        }
        if (w != 0)
            sum += absval(j.d(a, b) * w);
    }
    return sum;
}

// ---- programs: exact
static std::vector<int> codesOf(int id)
{
    switch (id)
    {
        case 0: return allCodes();
        case 1: return {CONST, COPY, MOVE, SWAP, DESTROY, CTOR_COPY, CTOR_MOVE, MUL, PADD, PMUL};
        case 2: return {COPY, MUL, PMUL, SUB};
        default: return {COPY, MOVE, DESTROY, CTOR_MUL, FMA, PMULE, SQR};
    }
}
static const int K = 3;
static const std::vector<Op>& alphabetOf(int id)
{
    static std::vector<Op> cache[8];
    auto& r = cache[id];
    if (r.empty())
        r = alphabet(K, codesOf(id));
    return r;
}
static double limitFor() { return sizeof(R) == 4 ? 1 << 16 : double(1LL << 38); }
// param: alphabet*100 + length; param2: 1 = top order only
static void program(Ctx& c)
{
    int alph = c.param / 100, depth = c.param % 100;
    const auto& al = alphabetOf(alph);
    static Model<ORDER, K> m0;
    Model<ORDER, K> m = m0;
    // the program is chosen first and run once for every selection
    std::vector<const Op*> ops;
    const double x0 = 2, x1 = -3;
    for (int i = 0; i < 2; ++i)
    {
        m.v[i].alive = m.v[i].valid = true;
        m.v[i].x = prog::Jet<ORDER>(i ? x1 : x0);
        m.v[i].x.c[i == 0][i == 1] = 1;
    }
    for (int d = 0; d < depth; ++d)
    {
        const Op* o = chooseOp(c, al, m, false);
        if (!o)
            break;
        c.log("%s", prog::show(*o).c_str());
        ops.push_back(o);
        m.apply(*o);
        c.state(m.hash());
    }
    prog::Jet<ORDER> want;
    static const double wt[3] = {1, 3, 7};
    for (int i = 0; i < K; ++i)
        if (m.v[i].alive && m.v[i].valid)
            want = want + prog::Jet<ORDER>(wt[i]) * m.v[i].x;
    if (m.big > limitFor())
    {
        c.count(0);
        return;
    }
    for (auto& s : sels)
    {
        if (c.param2)
        {
            bool top = true;
            for (int l = 0; l < ORDER; ++l) top = top && s.s[l];
            if (!top)
                continue;
        }
        auto drv = std::unique_ptr<Drv<T>>(new Drv<T>);
        T x = R(x0), y = R(x1);
        drv->seed(x, y, 0);
        drv->record(x, y);
        Pool<T, K> p;
        p.make(0, x);
        p.make(1, y);
        for (auto o : ops)
        {
            p.apply(*o);
            c.step();
        }
        T out = R(0);
        for (int i = 0; i < K; ++i)
            if (m.v[i].alive && m.v[i].valid)
                out += p[i] * R(wt[i]);
        R got = drv->extract(out, x, y, s, 0);
        double w = contract(want, s, [](double v) { return v; });
        if (c.tracing())
            c.log("  derivative%s: %.17g, exact %.17g", show(s).c_str(), double(got), w);
        c.outcome(mc::bits(double(got)));
        if (!(double(got) == w))
            c.fail("%s: derivative%s is %.17g, exact %.17g", nesting, show(s).c_str(), double(got), w);
    }
}

#ifndef THIRD
template <class X>
static void inner(Ctx&, const prog::Jet<ORDER>&, int, Drv<xad::FReal<R>>&, X&, X&);
template <class X>
static void inner(Ctx&, const prog::Jet<ORDER>&, int, Drv<xad::AReal<R>>&, X&, X&);
// one recording, rolled back again and again (outer adjoint level: once per output; inner: once per input)
template <class S, class X>
static void rowsOf(Ctx& c, Pool<X, K>& p, const Model<ORDER, K>& m, Drv<xad::AReal<S>>& drv, X& x, X& y)
{
    for (int rep = 0; rep < 2; ++rep)
        for (int i = 0; i < K; ++i)
        {
            if (!m.v[i].alive || !m.v[i].valid)
                continue;
            drv.tape.registerOutput(p[i]);
            drv.tape.clearDerivatives();
            xad::derivative(p[i]) = R(1);
            drv.tape.computeAdjoints();
            inner(c, m.v[i].x, i, drv.in, x, y);
        }
}
static const char* const nmxy = "xy";
static void judgeRow(Ctx& c, int i, int j, int k, double got, double want)
{
    c.outcome(mc::bits(got));
    if (!(got == want))
        c.fail("%s: second derivative of variable %d, row %c, entry %d is %.17g, exact %.17g", nesting, i, nmxy[j], k, got, want);
}
// inner forward level: the derivative of the adjoint along the seed
template <class X>
static void inner(Ctx& c, const prog::Jet<ORDER>& w, int i, Drv<xad::FReal<R>>&, X& x, X& y)
{
    judgeRow(c, i, 0, 0, xad::derivative(xad::derivative(x)), w.d(2, 0) * dirs[1][0] + w.d(1, 1) * dirs[1][1]);
    judgeRow(c, i, 1, 0, xad::derivative(xad::derivative(y)), w.d(1, 1) * dirs[1][0] + w.d(0, 2) * dirs[1][1]);
}
template <class X>
static void inner(Ctx& c, const prog::Jet<ORDER>& w, int i, Drv<xad::AReal<R>>& in, X& x, X& y)
{
    for (int j = 0; j < 2; ++j)
    {
        in.tape.registerOutput(xad::derivative(j ? y : x));
        in.tape.clearDerivatives();
        xad::derivative(xad::derivative(j ? y : x)) = R(1);
        in.tape.computeAdjoints();
        for (int k = 0; k < 2; ++k)
            judgeRow(c, i, j, k, xad::derivative(xad::value(k ? y : x)), w.d(2 - j - k, j + k));
    }
}
// outer forward level: second derivatives along the outer direction, one inner roll back per output
template <class X>
static void rowsOf(Ctx& c, Pool<X, K>& p, const Model<ORDER, K>& m, Drv<xad::FReal<xad::AReal<R>>>& drv, X& x, X& y)
{
    for (int rep = 0; rep < 2; ++rep)
        for (int i = 0; i < K; ++i)
        {
            if (!m.v[i].alive || !m.v[i].valid)
                continue;
            auto& w = m.v[i].x;
            drv.in.tape.registerOutput(xad::derivative(p[i]));
            drv.in.tape.clearDerivatives();
            xad::derivative(xad::derivative(p[i])) = R(1);
            drv.in.tape.computeAdjoints();
            judgeRow(c, i, 0, 0, xad::derivative(xad::value(x)), w.d(2, 0) * dirs[0][0] + w.d(1, 1) * dirs[0][1]);
            judgeRow(c, i, 1, 0, xad::derivative(xad::value(y)), w.d(1, 1) * dirs[0][0] + w.d(0, 2) * dirs[0][1]);
        }
}
template <class X>
static void rowsOf(Ctx& c, Pool<X, K>& p, const Model<ORDER, K>& m, Drv<xad::FReal<xad::FReal<R>>>&, X&, X&)
{
    for (int i = 0; i < K; ++i)
    {
        if (!m.v[i].alive || !m.v[i].valid)
            continue;
        double w = 0;
        for (int j = 0; j < 2; ++j)
            for (int k = 0; k < 2; ++k) w += m.v[i].x.d(2 - j - k, j + k) * dirs[0][j] * dirs[1][k];
        judgeRow(c, i, 0, 0, xad::derivative(xad::derivative(p[i])), w);
    }
}
static void rows(Ctx& c)
{
    int alph = c.param / 100, depth = c.param % 100;
    const auto& al = alphabetOf(alph);
    Drv<T> drv;
    T x = R(2), y = R(-3);
    drv.seed(x, y, 0);
    drv.record(x, y);
    Model<ORDER, K> m;
    Pool<T, K> p;
    p.make(0, x);
    p.make(1, y);
    for (int i = 0; i < 2; ++i)
    {
        m.v[i].alive = m.v[i].valid = true;
        m.v[i].x = prog::Jet<ORDER>(i ? -3 : 2);
        m.v[i].x.c[i == 0][i == 1] = 1;
    }
    for (int d = 0; d < depth; ++d)
    {
        const Op* o = chooseOp(c, al, m, false);
        if (!o)
            break;
        c.log("%s", prog::show(*o).c_str());
        m.apply(*o);
        p.apply(*o);
        c.step();
        c.state(m.hash());
    }
    if (m.big > limitFor())
    {
        c.count(0);
        return;
    }
    rowsOf(c, p, m, drv, x, y);
}
#endif

// ---- functions: within rounding
typedef jet::Jet<ORDER> J;
typedef jet::Jet<ORDER - 1> J1;
// how the arguments are formed from the two inputs
enum
{
    U_X,      // f(x)
#ifndef FEW
    U_EXPR,   // f(1*x)
    U_PROD,   // f(x*y)
#endif
    U_NEST,   // f((x+x)*y/2)
    NUFORM
};
#ifdef FEW
static const char* const ufn[] = {"f(x)", "f((x+x)*y/2)"};
static bool argIsX(int form) { return form == U_X; }
#else
static const char* const ufn[] = {"f(x)", "f(1*x)", "f(x*y)", "f((x+x)*y/2)"};
static bool argIsX(int form) { return form < U_PROD; }
#endif
enum
{
    X_TIMES,  // z = f * y
    X_DIV,    // z = y / f
#ifdef FEW
    NCTX,
#endif
    X_PLAIN,  // z = f
    X_SQ,     // z = f * f
#ifndef FEW
    NCTX
#endif
};
static const char* const xnm[] = {"f*y", "y/f", "f", "f*f"};
template <class V, class Ex>
static void consume(int ctx, const V& y, V& z, const Ex& e)
{
    switch (ctx)
    {
        case X_TIMES: z = e * y; break;
        case X_DIV: z = y / e; break;
#ifndef FEW
        case X_PLAIN: z = e; break;
        case X_SQ: z = e * e; break;
#endif
    }
}
static J jconsume(int ctx, const J& y, const J& e)
{
    switch (ctx)
    {
        case X_PLAIN: return e;
        case X_TIMES: return e * y;
        case X_DIV: return y / e;
        default: return e * e;
    }
}
template <class Call>
static R run(R a, R b, const Sel& s, int ctx, Call call)
{
    Drv<T> drv;
    T x = a, y = b, z = R(0);
    drv.seed(x, y, 0);
    drv.record(x, y);
    call([&](const auto& e) { consume(ctx, y, z, e); }, x, y);
    return drv.extract(z, x, y, s, 0);
}
struct Fn
{
    const char* nm;
    R (*run)(int form, int ctx, R a, R b, const Sel& s);
    J (*model)(int form, LD a, LD b);
    bool (*dom)(int form, LD a, LD b);
};
template <class F>
struct UF
{
    static R go(int form, int ctx, R a, R b, const Sel& s)
    {
        return run(a, b, s, ctx,
                   [form](auto&& k, const T& x, const T& y)
                   {
                       switch (form)
                       {
                           case U_X: F::f(k, x); break;
#ifndef FEW
                           case U_EXPR: F::f(k, x * R(1)); break;
                           case U_PROD: F::f(k, x * y); break;
#endif
                           case U_NEST: F::f(k, (x + x) * y / R(2)); break;
                       }
                   });
    }
    static J model(int form, LD a, LD b)
    {
        J x = J::var(0, a), y = J::var(1, b);
        J u = argIsX(form) ? x : x * y;
        J1 d = F::d(J1::var(0, u.val()));
        LD f0 = F::p(R(u.val()));
        if (ORDER == 2)
            return u.compose({f0, d.c[0][0], d.c[1][0] / 2});
        return u.compose({f0, d.c[0][0], d.c[1][0] / 2, d.c[ORDER - 1][0] / 3});
    }
    static bool dom(int form, LD a, LD b)
    {
        LD u = argIsX(form) ? a : a * b;
        for (int i = -2; i <= 2; ++i)
            if (!F::dom(u + i * 1e-3L * (u == 0 ? 1 : std::fabs(u))))
                return false;
        return true;
    }
};
enum
{
    B_XY,     // f(x, y)
    B_EXPR,   // f(1*x, y*1)
    B_XE,     // f(x, x*y)
    B_XC,     // f(x, c)
    B_CY,     // f(c, y)
    NBFORM
};
static const char* const bfn[] = {"f(x,y)", "f(1*x,y*1)", "f(x,x*y)", "f(x,const)", "f(const,y)"};
template <class F>
struct BF
{
    static R go(int form, int ctx, R a, R b, const Sel& s)
    {
        return run(a, b, s, ctx,
                   [form, a, b](auto&& k, const T& x, const T& y)
                   {
                       switch (form)
                       {
                           case B_XY: F::f(k, x, y); break;
                           case B_EXPR: F::f(k, x * R(1), y * R(1)); break;
                           case B_XE: F::f(k, x, x * y); break;
                           case B_XC: F::f(k, x, b); break;
                           case B_CY: F::f(k, a, y); break;
                       }
                   });
    }
    static J model(int form, LD a, LD b)
    {
        J x = J::var(0, a), y = J::var(1, b);
        J u = form == B_CY ? J(a) : x, v = form == B_XC ? J(b) : form == B_XE ? x * y : y;
        LD u0 = u.val(), v0 = v.val();
        J1 da(0), db(0);
        // a derivative that may not exist by an argument that is constant is not needed
        if (form != B_CY)
            da = F::da(J1::var(0, u0), form == B_XC ? J1(v0) : J1::var(1, v0));
        if (form != B_XC)
            db = F::db(form == B_CY ? J1(u0) : J1::var(0, u0), J1::var(1, v0));
        // Taylor coefficients of f in its two arguments
        J f(F::p(R(u0), R(v0)));
        for (int i = 0; i <= ORDER; ++i)
            for (int j = 0; i + j <= ORDER; ++j)
                if (i && form != B_CY)
                    f.c[i][j] = da.c[i - 1][j] / i;
                else if (j && form != B_XC)
                    f.c[i][j] = db.c[i][j - 1] / j;
        J r(0), pu(1);
        u.c[0][0] = 0;
        v.c[0][0] = 0;
        for (int i = 0; i <= ORDER; ++i)
        {
            J pv = pu;
            for (int j = 0; i + j <= ORDER; ++j)
            {
                r = r + J(f.c[i][j]) * pv;
                pv = pv * v;
            }
            pu = pu * u;
        }
        return r;
    }
    static bool dom(int form, LD a, LD b)
    {
        LD v = form == B_XE ? a * b : b;
        for (int i = -2; i <= 2; ++i)
            for (int j = -2; j <= 2; ++j)
            {
                LD p = a, q = v;
                if (form != B_CY)
                    p += i * 1e-3L * (a == 0 ? 1 : std::fabs(a));
                if (form != B_XC)
                    q += j * 1e-3L * (v == 0 ? 1 : std::fabs(v));
                if ((form != B_CY && !F::doma(p, q)) || (form != B_XC && !F::domb(p, q)))
                    return false;
                // selections with a kink where the arguments are equal
                if (!std::strcmp(F::nm(), "max") || !std::strcmp(F::nm(), "min") || !std::strcmp(F::nm(), "fmax") || !std::strcmp(F::nm(), "fmin"))
                    if ((p > q) != (a > v) || p == q)
                        return false;
            }
        return true;
    }
};
#define UC(n) {#n, &UF<U_##n>::go, &UF<U_##n>::model, &UF<U_##n>::dom},
#define BC(n) {#n, &BF<B_##n>::go, &BF<B_##n>::model, &BF<B_##n>::dom},
// shifts by more than the exponent range, and duplicates of the same overload, are first-order matters (C08)
#define H_UNARY(X) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(sinh) X(cosh) X(tanh) X(asinh) \
    X(acosh) X(atanh) X(exp) X(exp2) X(expm1) X(log) X(log2) X(log10) X(log1p) X(sqrt) X(cbrt) \
    X(erf) X(erfc) X(abs) X(fabs) X(floor) X(ceil) X(trunc) X(round) X(degrees) X(radians) \
    X(smooth_abs) X(negate) X(plus) X(pown3) X(pown1) X(pown0) X(pownm2) X(pow2u) \
    X(pow0u) X(pow0d) X(frexp) X(modf) X(copysign_p) X(copysign_n) \
    X(mulself) X(divself) X(subself) X(powself) X(hypotself) X(maxself) X(minself) X(ldexp_1) X(scalbn_m1)
static const Fn ufns[] = {H_UNARY(UC)};
static const int NU = sizeof ufns / sizeof *ufns;
static const Fn bfns[] = {ALL_BINARY(BC)};
static const int NB = sizeof bfns / sizeof *bfns;

// arguments not judged: the smoothed functions are only once (at the joints) or twice (at zero) differentiable
static bool kink(const Fn& f, LD u, LD v)
{
    // computed as 1 - tanh^2, which is not accurate where it is nearly zero
    if (!std::strcmp(f.nm, "tanh"))
        return std::fabs(u) > 4;
    if (std::strncmp(f.nm, "smooth_", 7))
        return false;
    bool two = std::strcmp(f.nm, "smooth_abs") != 0, abs2 = !std::strcmp(f.nm, "smooth_abs2");
    LD t = !two || abs2 ? u : u - v, k = abs2 ? v : f.nm[strlen(f.nm) - 1] == '3' ? LD(0.75) : LD(R(0.001));
    return (ORDER > 2 && t == 0) || std::fabs(std::fabs(t) - k) < 1e-2L * k;
}
static void check(Ctx& c, const Fn& f, const char* formName, int form, int ctx, R a, R b, LD u, LD v, int fixed)
{
    c.log("%s: %s, %s, consumed as %s, x=%.9g y=%.9g", nesting, f.nm, formName, xnm[ctx], double(a), double(b));
    if (!f.dom(form, a, b) || kink(f, u, v))
    {
        c.count(0);
        return;
    }
    J yj = J::var(1, b), fj = f.model(form, a, b);
    if (ctx == X_DIV && std::fabs(fj.val()) < 1e-3L)
    {
        c.count(1);
        return;
    }
    J want = jconsume(ctx, yj, fj);
    // squares and cubes of the derivatives must not overflow
    for (int p = 0; p <= ORDER; ++p)
        for (int q = 0; p + q <= ORDER; ++q)
            if (!(std::fabs(want.d(p, q)) + std::fabs(fj.d(p, q)) < (sizeof(R) == 4 ? 1e9L : 1e75L)))
            {
                c.count(2);
                return;
            }
    const LD eps = std::numeric_limits<R>::epsilon();
    // sensitivity of the exact derivatives to the rounding of the arguments
    J near[4] = {want, want, want, want};
    for (int k = 0; k < 4; ++k)
    {
        LD h = (k & 1 ? -1 : 1) * 8 * eps, p = k < 2 ? a * (1 + h) : a, q = k < 2 ? b : b * (1 + h);
        if ((k < 2 && fixed == 1) || (k >= 2 && fixed == 2))
            continue;
        near[k] = jconsume(ctx, J::var(1, q), f.model(form, p, q));
    }
    LD fscale = std::fabs(fj.val()) + std::fabs(want.val()), amin = std::min(LD(1), std::fabs(LD(a)) > 0 ? std::fabs(LD(a)) : 1);
    for (auto& s : sels)
    {
        LD w = contract(want, s, [](LD v) { return v; }), mag = contract(want, s, [](LD v) { return std::fabs(v); });
        int ord = 0;
        for (int l = 0; l < ORDER; ++l) ord += s.s[l] != 0;
        LD low = 0;
        for (int p = 0; p <= ord; ++p)
            for (int q = 0; p + q <= ord; ++q) low += std::fabs(want.d(p, q)) + std::fabs(fj.d(p, q));
        LD tol = 4 * LD(std::numeric_limits<R>::min()) + 200 * eps * (mag + low) + 200 * eps * fscale / std::pow(amin, ord);
        for (auto& n : near) tol += 4 * std::fabs(contract(n, s, [](LD v) { return v; }) - w);
        c.step();
        R got = f.run(form, ctx, a, b, s);
        if (c.tracing())
            c.log("  derivative%s: %.17g, exact %.17Lg, allowed error %.3Lg", show(s).c_str(), double(got), w, tol);
        c.outcome(mc::bits(double(got)));
        if (!(std::fabs(LD(got) - w) <= tol))
            c.fail("%s %s: %s consumed as %s at x=%.9g y=%.9g: derivative%s is %.17g, exact %.17Lg", nesting, f.nm, formName, xnm[ctx], double(a),
                   double(b), show(s).c_str(), double(got), w);
    }
    c.state(mc::mix(mc::mix(mc::bits(double(a)), mc::bits(double(b))), mc::mix(f.nm[0] * 131 + f.nm[1], form * 10 + ctx)));
}
static const std::vector<R>& pts(int n)
{
    static std::vector<R> v[3];
    if (v[n].empty())
    {
        std::vector<double> base = {0.1, 0.3, 0.5, 0.75, 0.9, 1, 1.1, 1.5, 2, 2.5, 3, 3.5, 5, 8.25};
        if (n == 1)
            base = {0.5, 0.75, 1, 1.5, 2, 3, 4.25};
        if (n == 2)
        {
            base.clear();
            for (int e = -4; e <= 3; ++e)
                for (int m = 0; m < 32; ++m) base.push_back(std::ldexp(1 + m / 32., e));
        }
        v[n].push_back(0);
        for (double x : base)
        {
            v[n].push_back(R(x));
            v[n].push_back(R(-x));
        }
    }
    return v[n];
}
static void unary(Ctx& c)
{
    const Fn& f = ufns[c.choose(NU)];
    int form = c.choose(NUFORM), ctx = c.choose(NCTX);
    auto& g = pts(c.param);
    R a = g[c.choose(int(g.size()))];
    R b = c.param2 ? R(1) : g[c.choose(int(g.size()))];
    check(c, f, ufn[form], form, ctx, a, b, argIsX(form) ? LD(a) : LD(a) * b, 0, 0);
}
static void binary(Ctx& c)
{
    const Fn& f = bfns[c.choose(NB)];
    int form = c.choose(NBFORM), ctx = c.choose(NCTX);
    auto& g = pts(c.param);
    R a = g[c.choose(int(g.size()))], b = g[c.choose(int(g.size()))];
    check(c, f, bfn[form], form, ctx, a, b, a, form == B_XE ? LD(a) * b : LD(b), form == B_CY ? 1 : form == B_XC ? 2 : 0);
}
int main(int argc, char** argv)
{
    std::vector<mc::Space> s = {
        {"programs-d1", "full alphabet, length 1, every order and index", program, 1, 0, 1, 3},
        {"programs-d2", "full alphabet, length 2, every order and index", program, 2, 0, 2, 3},
#ifdef THIRD
        {"core-d4", "products and copies, length 4, top order", program, 204, 1, 2, 3},
#else
        {"core-d4", "products and copies, length 4, every order and index", program, 204, 0, 2, 3},
        {"rows-d2", "one recording, all rows of the matrix of second derivatives, twice; full alphabet, length 2", rows, 2, 0, 2, 3},
        {"rows-core-d3", "one recording, all rows of the matrix of second derivatives, twice; products and copies, length 3", rows, 203, 0, 2, 3},
#endif
        {"unary", "every unary function, argument form and consuming context at special points, every order and index", unary, 0, 1, 2, 3},
        {"binary", "every binary function, argument form and consuming context at pairs of points, every order and index", binary, 1, 0, 2, 3},
#ifndef LIGHT
        {"life-d3", "life-cycle alphabet, length 3, top order", program, 103, 1, 2, 3},
        {"poly-d3", "polynomial alphabet, length 3, top order", program, 303, 1, 2, 3},
        {"unary-y", "every unary function, argument form and consuming context at pairs of points", unary, 1, 0, 2, 3},
        {"programs-d3", "full alphabet, length 3, top order", program, 3, 1, 2, 2},
        {"core-d5", "products and copies, length 5, top order", program, 205, 1, 2, 2},
        {"unary-5", "every unary function, argument form and consuming context on a grid with 5 mantissa bits", unary, 2, 1, 2, 2},
        {"binary-s", "every binary function, argument form and consuming context at pairs of the special points", binary, 0, 0, 2, 2},
#endif
    };
    return mc::mainImpl(argc, argv, s);
}
