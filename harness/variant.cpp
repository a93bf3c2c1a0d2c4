// One build of the library with everything the C21 explorer runs on it; compiled into a shared object per build.
#define MC_STUB
#define MULTI_PORTABLE
#include <cstdint>
#include <functional>
#include <string>
#include <unordered_set>
#include <vector>
namespace mc
{
struct Ctx
{
    template <class... A>
    void fail(A...)
    {
        failed = true;
    }
    int choose(int) { return 0; }
    bool failed = false;
};
inline uint64_t mix(uint64_t h, uint64_t) { return h; }
inline uint64_t bits(double) { return 0; }
}  // namespace mc
#include <XAD/XAD.hpp>
#include <XAD/StdCompatibility.hpp>
#include "../lib/prog.hpp"
#include "../lib/session.hpp"
#include "../lib/multi.hpp"
using namespace prog;

struct Out
{
    double* v;
    int n, cap;
    const char** lab;
    void add(double x, const char* name = "")
    {
        if (n < cap && lab)
            lab[n] = name;
        if (n < cap)
            v[n] = x;
        ++n;
    }
};
static const int K = 3;
// state of the tape that does not depend on the slots
template <class TPx>
static void tapeObs(TPx& t, Out& o)
{
    o.add(t.getNumStatements());
    o.add(t.getNumOperations());
    o.add(t.getNumVariables());
    o.add(t.getPosition());
}
template <class R>
static void progReverse(const int* code, int n, Out& o)
{
    typedef xad::AReal<R> A;
    xad::Tape<R> tape;
    Pool<A, K> p;
    p.make(0, R(2));
    p.make(1, R(-3));
    tape.registerInput(p[0]);
    tape.registerInput(p[1]);
    unsigned slot[2] = {p[0].getSlot(), p[1].getSlot()};
    tape.newRecording();
    int valid = code[0];  // the variables that are alive and hold a value at the end
    if (code[1])
    {
        p.make(2, R(7));
        if (code[1] == 2)
            tape.registerOutput(p[2]);
    }
    for (int i = 2; i + 3 < n; i += 4)
    {
        prog::Op op{code[i], code[i + 1], code[i + 2], code[i + 3]};
        p.apply(op);
        tapeObs(tape, o);
    }
    for (int i = 0; i < K; ++i)
        if (valid >> i & 1)
        {
            o.add(xad::value(p[i]));
            o.add(p[i].shouldRecord());
            tape.registerOutput(p[i]);
        }
    for (int i = 0; i < K; ++i)
        if (valid >> i & 1)
        {
            tape.clearDerivatives();
            xad::derivative(p[i]) = R(1);
            tape.computeAdjoints();
            o.add(tape.derivative(slot[0]));
            o.add(tape.derivative(slot[1]));
        }
    tapeObs(tape, o);
}
template <class R>
static void progForward(const int* code, int n, Out& o)
{
    typedef xad::FReal<R> A;
    Pool<A, K> p;
    p.make(0, R(2));
    p.make(1, R(-3));
    p[0].setDerivative(R(1));
    p[1].setDerivative(R(10));
    if (code[1])
        p.make(2, R(7));
    for (int i = 2; i + 3 < n; i += 4)
    {
        prog::Op op{code[i], code[i + 1], code[i + 2], code[i + 3]};
        p.apply(op);
    }
    for (int i = 0; i < K; ++i)
        if (code[0] >> i & 1)
        {
            o.add(xad::value(p[i]));
            o.add(p[i].getDerivative());
        }
}
static double plainv(double x) { return x; }
template <class X>
static double plainv(const X& x)
{
    return plainv(xad::value(x));
}
static void setup(xad::AReal<double>& a, xad::Tape<double>* t)
{
    t->registerInput(a);
    t->newRecording();
}
static void setup(xad::FReal<double>& a, xad::Tape<double>*) { a.setDerivative(1.0); }
static double tangent(xad::AReal<double>& d, xad::AReal<double>& a, xad::Tape<double>* t)
{
    t->registerOutput(d);
    t->clearDerivatives();
    d.setDerivative(1.0);
    t->computeAdjoints();
    double r = a.getDerivative();
    t->clearDerivatives();
    return r;
}
static double tangent(xad::FReal<double>& d, xad::FReal<double>&, xad::Tape<double>*) { return d.getDerivative(); }

// nested: adjoint over adjoint, forward over adjoint
template <class X>
static void progNested(const int* code, int n, Out& o)
{
    typedef xad::AReal<X> A;
    std::unique_ptr<xad::Tape<double>> inner(std::is_same<X, xad::AReal<double>>::value ? new xad::Tape<double>() : nullptr);
    {
        xad::Tape<X> tape;
        Pool<A, K> p;
        X a(2.0);
        setup(a, inner.get());
        p.make(0, 2.0);
        p.make(1, -3.0);
        xad::value(p[0]) = a;
        tape.registerInput(p[0]);
        tape.registerInput(p[1]);
        unsigned slot[2] = {p[0].getSlot(), p[1].getSlot()};
        tape.newRecording();
        if (code[1])
            p.make(2, 7.0);
        for (int i = 2; i + 3 < n; i += 4)
        {
            prog::Op op{code[i], code[i + 1], code[i + 2], code[i + 3]};
            p.apply(op);
        }
        tapeObs(tape, o);
        for (int i = 0; i < K; ++i)
            if (code[0] >> i & 1)
            {
                tape.registerOutput(p[i]);
                tape.clearDerivatives();
                xad::derivative(p[i]) = X(1.0);
                tape.computeAdjoints();
                for (int j = 0; j < 2; ++j)
                {
                    X d = tape.derivative(slot[j]);
                    o.add(plainv(d));
                    o.add(tangent(d, a, inner.get()));
                }
            }
    }
}

static void session(const int* code, int n, Out& o)
{
    mc::Ctx c;
    Session s(c, code[0]);
    for (int i = 1; i < n; ++i) s.op(::Op(code[i]));
    s.finish();
    for (size_t i = 0; i < s.obs.v.size(); ++i)
    {
        std::string nm = s.obs.n[i];
        if (nm == "slot")
            o.add(s.obs.v[i] >= 0 ? 1 : s.obs.v[i], "slot");
        else if (nm != "memory" && nm.compare(0, 8, "reusable") != 0)
            o.add(s.obs.v[i], s.obs.n[i]);
    }
    o.add(c.failed);
    s.end();
}
static void multiRun(const int* code, int n, Out& o)
{
    multi::Sess s;
    s.init();
    for (int i = 0; i < n; ++i) s.op(code[i]);
    for (int i = 0; i < s.o.n; ++i) o.add(s.o.v[i]);
    s.end();
}
template <class F>
static void fun(F f, int nargs, double a, double b, Out& o)
{
    xad::Tape<double> tape;
    xad::AReal<double> x = a, y = b, r;
    tape.registerInput(x);
    if (nargs == 2)
        tape.registerInput(y);
    tape.newRecording();
    auto k = [&](auto&& e) { r = e; };
    f(k, x, y);
    o.add(xad::value(r));
    o.add(tape.getNumOperations());
    tape.registerOutput(r);
    r.setDerivative(1.0);
    tape.computeAdjoints();
    o.add(x.getDerivative());
    if (nargs == 2)
        o.add(y.getDerivative());
    xad::FReal<double> fx = a, fy = b, fr;
    fx.setDerivative(1.0);
    fy.setDerivative(2.0);
    auto kf = [&](auto&& e) { fr = e; };
    f(kf, fx, fy);
    o.add(fr.value());
    o.add(fr.getDerivative());
}
static void functions(const int* code, int, Out& o)
{
    static const double arg[] = {0.5, -0.75, 0.0, 1.0, 1.5, -2.25, 3.0, 0.0078125, 40.5, -0.0, 1e-200, -1e150};
    double a = arg[code[1]], b = arg[code[2]];
    int k = 0;
#define X(n)            \
    if (k++ == code[0]) \
        fun([](auto&& c, const auto& x, const auto&) { U_##n::f(c, x); }, 1, a, b, o);
    ALL_UNARY(X)
#undef X
#define X(n)            \
    if (k++ == code[0]) \
        fun([](auto&& c, const auto& x, const auto& y) { B_##n::f(c, x, y); }, 2, a, b, o);
    ALL_BINARY(X)
#undef X
    o.add(k);
}

extern "C" __attribute__((visibility("default"))) int xv_run(int mode, const int* code, int n, double* v, const char** lab, int cap)
{
    Out o{v, 0, cap, lab};
    try
    {
        switch (mode)
        {
            case 0: progReverse<double>(code, n, o); break;
            case 1: progForward<double>(code, n, o); break;
            case 2: progNested<xad::AReal<double>>(code, n, o); break;
            case 3: progNested<xad::FReal<double>>(code, n, o); break;
            case 4: progReverse<float>(code, n, o); break;
            case 5: session(code, n, o); break;
            case 6: multiRun(code, n, o); break;
            case 7: functions(code, n, o); break;
        }
    }
    catch (const std::exception& e)
    {
        o.add(-1e30);
        for (const char* p = e.what(); *p; ++p) o.add(*p);
        TP::deactivateAll();
    }
    return o.n;
}
#ifndef XV_NAME
#define XV_NAME "?"
#endif
extern "C" __attribute__((visibility("default"))) const char* xv_name() { return XV_NAME; }
