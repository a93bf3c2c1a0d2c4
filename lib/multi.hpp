// One thread's session with every part of the library, as a sequence of operations with everything observable
// collected. With MULTI_PORTABLE, what may differ between builds (slot numbers, reuse, memory) is left out.
#pragma once
#include "funcs.hpp"
#include <XAD/Complex.hpp>
#include <XAD/Hessian.hpp>
#include <XAD/Jacobian.hpp>
#include <cstring>
#include <memory>
#include <sstream>
namespace multi
{
typedef xad::AReal<double> T;
typedef xad::Tape<double> TP;
typedef xad::AReal<float> TF;
typedef xad::Tape<float> TPF;
typedef xad::AReal<xad::AReal<double>> T2;
typedef xad::Tape<xad::AReal<double>> TP2;
typedef xad::AReal<xad::FReal<double>> TM;
typedef xad::Tape<xad::FReal<double>> TPM;
typedef xad::FReal<double> F1;

// ---- one thread's session. The state before a sequence is: an active tape, two inputs, a statement (param PRE), or nothing
struct Obs
{
    double v[256];
    int n = 0;
    void add(double x)
    {
        if (n < 256)
            v[n++] = x;
    }
};
struct Seg : xad::CheckpointCallback<TP>
{
    unsigned a, b, o;
    double va, vb;
    Obs* obs;
    void computeAdjoint(TP* t) override
    {
        double adj = t->getAndResetOutputAdjoint(o);
        obs->add(adj);
        T p = va, q = vb;
        t->registerInput(p);
        t->registerInput(q);
        {
            xad::ScopedNestedRecording<TP> n(t);
            T r = p * q;
            t->registerOutput(r);
            r.setDerivative(adj);
            n.computeAdjoints();
            va = p.getDerivative();
            vb = q.getDerivative();
        }
        t->incrementAdjoint(a, va);
        t->incrementAdjoint(b, vb);
    }
};
enum Op
{
    NEWTAPE,
    INPUTS,
    STMT,
    KILL,
    BACK,
    CHK,
    ACTIVATION,
    RESET,
    CLEAR,
    ENDTAPE,
    NBASIC,
    ERRORS = NBASIC,
    UNARY,
    BINARY,
    FORWARD,
    COMPLEX,
    JACHESS,
    SECOND,
    MIXED,
    FLOAT,
    STREAM,
    MOVE,
    PASSIVE,
    STATUS,
    NOPS
};
static const char* opn[] = {"new tape", "register inputs, new recording", "y = x0*x1 + x0/x1", "destroy and recreate y", "seed, computeAdjoints, read",
                            "checkpoint, computeAdjoints", "deactivate, activate", "position, statements, clear and reset to position", "clearAll, inputs",
                            "destroy the tape", "misuse with exceptions", "all unary functions", "all binary functions", "forward mode",
                            "complex numbers", "Jacobian and Hessian", "second order: adjoint of adjoint", "second order: forward over adjoint",
                            "float tape", "streams and slot strings", "move the tape", "passive arithmetic", "sizes and memory"};
struct Sess
{
    std::unique_ptr<TP> t;
    std::unique_ptr<T> x0, x1, y;
    std::unique_ptr<T> v[3];
    Seg seg;
    Obs o;
    void slot(const T& x)
    {
#ifndef MULTI_PORTABLE
        o.add(x.shouldRecord() ? double(x.getSlot()) : -1.);
#else
        o.add(x.shouldRecord());
#endif
    }
    void init()
    {
        x0.reset(new T(1.25));
        x1.reset(new T(2.5));
        y.reset(new T(0.75));
    }
    void obsTape()
    {
        o.add(TP::getActive() == nullptr ? 0 : TP::getActive() == t.get() ? 1 : 2);
        if (t)
        {
            o.add(t->isActive());
            o.add(t->getNumStatements());
            o.add(t->getNumOperations());
            o.add(t->getNumVariables());
            o.add(t->getPosition());
#ifndef MULTI_PORTABLE
            o.add(t->getNumReusableSlots());
            o.add(double(t->getMemory()));
#endif
        }
        for (T* p : {x0.get(), x1.get(), y.get()})
        {
            o.add(p->value());
            slot(*p);
        }
    }
    void back()
    {
        if (!t || !t->isActive())
            return;
        t->registerOutput(*y);
        y->setDerivative(1.0);
        t->computeAdjoints();
        o.add(x0->shouldRecord() ? x0->getDerivative() : -1);
        o.add(x1->shouldRecord() ? x1->getDerivative() : -1);
        t->clearDerivatives();
    }
    void op(int k)
    {
        switch (k)
        {
            case NEWTAPE:
                try
                {
                    std::unique_ptr<TP> n(new TP());
                    if (!t)
                        t = std::move(n);
                }
                catch (xad::TapeAlreadyActive&)
                {
                    o.add(-77);
                }
                break;
            case INPUTS:
                if (t && t->isActive())
                {
                    t->registerInput(*x0);
                    t->registerInput(*x1);
                    t->newRecording();
                }
                break;
            case STMT:
                *y = *x0 * *x1 + *x0 / *x1;
                *x1 += *y;
                break;
            case KILL:
                y.reset();
                y.reset(new T(*x0 + 1.0));
                break;
            case BACK: back(); break;
            case CHK:
                if (t && t->isActive() && x0->shouldRecord() && x1->shouldRecord())
                {
                    seg.a = x0->getSlot();
                    seg.b = x1->getSlot();
                    seg.va = x0->value();
                    seg.vb = x1->value();
                    seg.obs = &o;
                    *y = seg.va * seg.vb;
                    t->registerOutput(*y);
                    seg.o = y->getSlot();
                    t->insertCallback(&seg);
                    back();
                }
                break;
            case ACTIVATION:
                if (t && t->isActive())
                {
                    t->deactivate();
                    o.add(TP::getActive() == nullptr);
                    t->activate();
                }
                else
                    TP::deactivateAll();
                break;
            case RESET:
                if (t && t->isActive())
                {
                    unsigned p = t->getPosition();
                    {
                        T w = *x0 * 3.0;
                        w = w * *x1;
                        if (w.shouldRecord())
                        {
                            w.setDerivative(2.0);
                            t->computeAdjointsTo(p);
                            o.add(x0->shouldRecord() ? x0->getDerivative() : -1);
                            t->clearDerivativesAfter(p);
                        }
                    }
                    t->resetTo(p);
                    t->clearDerivatives();
                }
                break;
            case CLEAR:
                if (t && t->isActive())
                {
                    x0.reset();
                    x1.reset();
                    y.reset();
                    t->clearAll();
                    init();
                    t->registerInput(*x0);
                    t->registerInput(*x1);
                    t->newRecording();
                }
                break;
            case ENDTAPE:
                x0.reset();
                x1.reset();
                y.reset();
                t.reset();
                init();
                break;
            case ERRORS:
                try
                {
                    if (t)
                        t->computeAdjoints();
                }
                catch (xad::DerivativesNotInitialized& e)
                {
                    o.add(double(strlen(e.what())));
                }
                try
                {
                    if (t)
                        t->derivative(100000);
                }
                catch (xad::OutOfRange& e)
                {
                    o.add(double(strlen(e.what())));
                }
                try
                {
                    TP other(true);
                    o.add(-5);
                }
                catch (xad::TapeAlreadyActive& e)
                {
                    o.add(double(strlen(e.what())));
                }
                try
                {
                    if (!t)
                        x0->setDerivative(1.0);
                }
                catch (xad::NoTapeException& e)
                {
                    o.add(double(strlen(e.what())));
                }
                break;
            case UNARY:
            {
                double s = 0;
                auto k = [&](auto&& e)
                {
                    T r = e;
                    s += r.value();
                };
                T z = *x0 * 0.25;
#define X(n) U_##n::f(k, z);
                ALL_UNARY(X)
#undef X
                    o.add(s);
                break;
            }
            case BINARY:
            {
                double s = 0;
                auto k = [&](auto&& e)
                {
                    T r = e;
                    s += r.value();
                };
                T z = *x0 * 0.25;
#define X(n)               \
    B_##n::f(k, z, *x1);   \
    B_##n::f(k, z, 0.5);   \
    B_##n::f(k, 0.5, *x1);
                ALL_BINARY(X)
#undef X
                    o.add(s);
                break;
            }
            case FORWARD:
            {
                F1 a = 1.5, b = 2.5;
                a.setDerivative(1.0);
                double s = 0, d = 0;
                auto k = [&](auto&& e)
                {
                    F1 r = e;
                    s += r.value();
                    d += r.getDerivative();
                };
                F1 z = a * 0.25;
#define X(n) U_##n::f(k, z);
                ALL_UNARY(X)
#undef X
#define X(n) B_##n::f(k, z, b);
                ALL_BINARY(X)
#undef X
                    o.add(s);
                o.add(d);
                break;
            }
            case COMPLEX:
            {
                std::complex<T> z(*x0, *x1), w(2.0, 1.0);
                std::complex<T> r = z * w + exp(z) / w - sqrt(z) + pow(z, w) + log(z) + sin(z) + tanh(z) + acosh(z) + std::polar(*x0, *x1);
                r *= z;
                r /= std::complex<double>(2, 1);
                T n = norm(r) + abs(r) + arg(r);
                o.add(r.real().value());
                o.add(r.imag().value());
                o.add(n.value());
                break;
            }
            case JACHESS:
            {
                typedef std::function<std::vector<T>(std::vector<T>&)> Fn;
                std::vector<T> in{T(1.5), T(2.5)};
                auto m = xad::computeJacobian<double>(in, Fn([](std::vector<T>& x) { return std::vector<T>{x[0] * x[1], sin(x[0])}; }));
                for (auto& r : m)
                    for (double d : r) o.add(d);
                typedef std::function<TM(std::vector<TM>&)> Fh;
                std::vector<TM> ih{TM(1.5), TM(2.5)};
                auto h = xad::computeHessian<double>(ih, Fh([](std::vector<TM>& x) { return TM(x[0] * x[1] * x[0]); }));
                for (auto& r : h)
                    for (double d : r) o.add(d);
                break;
            }
            case SECOND:
                if (!TP::getActive() || !TP2::getActive())
                {
                    std::unique_ptr<TP> inner;
                    if (!TP::getActive())
                        inner.reset(new TP());
                    {
                        TP2 outer;
                        T2 a = 1.5, b = 2.5;
                        TP::getActive()->registerInput(value(a));
                        outer.registerInput(a);
                        outer.registerInput(b);
                        outer.newRecording();
                        T2 r = a * sin(b) + a * a;
                        outer.registerOutput(r);
                        derivative(r) = 1.0;
                        outer.computeAdjoints();
                        o.add(value(derivative(a)));
                        o.add(value(derivative(b)));
                    }
                }
                break;
            case MIXED:
            {
                TPM tape;
                TM a = 1.5, b = 2.5;
                value(a).setDerivative(1.0);
                tape.registerInput(a);
                tape.registerInput(b);
                tape.newRecording();
                TM r = a * exp(b) + a * a * b;
                tape.registerOutput(r);
                value(derivative(r)) = 1.0;
                tape.computeAdjoints();
                o.add(value(derivative(a)));
                o.add(derivative(derivative(a)));
                o.add(derivative(derivative(b)));
                break;
            }
            case FLOAT:
            {
                TPF tape;
                TF a = 1.5f, b = 2.5f;
                tape.registerInput(a);
                tape.registerInput(b);
                tape.newRecording();
                TF r = a * exp(b);
                r += a;
                tape.registerOutput(r);
                r.setDerivative(1.0f);
                tape.computeAdjoints();
                o.add(a.getDerivative());
                o.add(b.getDerivative());
                break;
            }
            case STREAM:
            {
                std::ostringstream os;
                os << *x0 << ' ' << *y * 2.0;
                std::istringstream is("4.5");
                T w;
                is >> w;
                o.add(w.value());
                o.add(double(os.str().size()));
#ifndef MULTI_PORTABLE
                if (t)
                    o.add(double(t->getReusableSlotsString().size()));
#endif
                break;
            }
            case MOVE:
                if (t)
                {
                    std::unique_ptr<TP> n(new TP(std::move(*t)));
                    t = std::move(n);
                }
                break;
            case PASSIVE:
            {
                T a = 2.0, b = 3.0;
                T r = sin(a) * b + a / b;
                r -= 1.0;
                r *= a;
                o.add(r.value());
                o.add(r.shouldRecord());
                break;
            }
            case STATUS:
                for (int i = 0; i < 3; ++i)
                {
                    v[i].reset(new T(*x0 * double(i)));
                    slot(*v[i]);
                }
                v[1].reset();
                obsTape();
                v[2].reset();
                v[0].reset();
                break;
        }
        obsTape();
    }
    void end()
    {
        for (auto& p : v) p.reset();
        y.reset();
        x0.reset();
        x1.reset();
        t.reset();
        TP::deactivateAll();
        TPF::deactivateAll();
        TP2::deactivateAll();
        TPM::deactivateAll();
    }
};

}  // namespace multi
