// A tape session over a fixed set of variables, driven by a list of operations, with everything observable
// collected; used by the checks that compare a session with a disturbed run of the same session.
#pragma once
#ifndef MC_STUB
#include "mc.hpp"
#endif
#include <XAD/XAD.hpp>
#include <memory>
typedef mc::Ctx Ctx;
typedef xad::AReal<double> T;
typedef xad::Tape<double> TP;
typedef xad::CheckpointCallback<TP> CB;

static int g_alive = 0, g_deleted = 0;
struct OwnedCB : CB
{
    OwnedCB() { ++g_alive; }
    ~OwnedCB()
    {
        --g_alive;
        ++g_deleted;
    }
    void computeAdjoint(TP*) override {}
};
struct Obs
{
    std::vector<double> v;
    std::vector<const char*> n;
    void add(const char* name, double x)
    {
        v.push_back(x);
        n.push_back(name);
    }
};
// called from within rollback callbacks: 0 at their start, 1 in the nested recording, 2 after seeding it, 3 at the end
static std::function<void(int)> g_hook;
// checkpointed segment: out = a*b
struct Seg : CB
{
    unsigned a, b, o;
    double va, vb;
    Obs* obs;
    void computeAdjoint(TP* t) override
    {
        double adj = t->getAndResetOutputAdjoint(o);
        obs->add("adjoint seen by the callback", adj);
        if (g_hook)
            g_hook(0);
        T p = va, q = vb;
        t->registerInput(p);
        t->registerInput(q);
        double dp, dq;
        {
            xad::ScopedNestedRecording<TP> n(t);
            T r = p * q;
            t->registerOutput(r);
            if (g_hook)
                g_hook(1);
            r.setDerivative(adj);
            if (g_hook)
                g_hook(2);
            n.computeAdjoints();
            dp = p.getDerivative();
            dq = q.getDerivative();
        }
        if (g_hook)
            g_hook(3);
        t->incrementAdjoint(a, dp);
        t->incrementAdjoint(b, dq);
    }
};

enum Op
{
    REG0,
    REG1,
    NEWREC,
    S0,
    S1,
    S2,
    KILL0,
    SEED0,
    SEED1,
    BACK,
    CLRD,
    MARK,
    BACKTO,
    RESET,
    CLRAFTER,
    CHK,
    PUSHCB,
    POPCB,
    DEACT,
    ACT,
    CLEARALL,
    NOPS
};
static const char* opn[] = {"registerInput(x0)", "registerInput(x1)", "newRecording", "y0 = x0*x1 + 3*x0", "y1 = y0*x1 + y0", "x0 = y0*y1 + x1",
                            "destroy y0", "seed y0", "seed y1", "computeAdjoints", "clearDerivatives", "mark", "computeAdjointsTo(mark)",
                            "resetTo(mark)", "clearDerivativesAfter(mark)", "checkpoint y1 = y0*x1", "pushCallback", "popCallback", "deactivate",
                            "activate", "clearAll"};
struct Session
{
    Ctx& c;
    Obs obs;
    std::unique_ptr<TP> t;
    std::vector<std::unique_ptr<Seg>> segs;
    std::unique_ptr<T> x0, x1, y0, y1;
    unsigned mark = 0;
    bool init = false;  // the derivatives are initialised
    explicit Session(Ctx& c_, bool active) : c(c_), t(new TP(active))
    {
        x0.reset(new T(2));
        x1.reset(new T(3));
        y0.reset(new T(5));
        y1.reset(new T(7));
    }
    ~Session() { end(); }
    void end()
    {
        x0.reset();
        x1.reset();
        y0.reset();
        y1.reset();
        t.reset();
        TP::deactivateAll();
    }
    template <class F>
    int guarded(const char* name, F f)
    {
        int e = 0;
        try
        {
            f();
        }
        catch (xad::DerivativesNotInitialized&)
        {
            e = 1;
        }
        catch (xad::OutOfRange&)
        {
            e = 2;
        }
        catch (xad::TapeAlreadyActive&)
        {
            e = 3;
        }
        catch (xad::NoTapeException&)
        {
            e = 4;
        }
        obs.add(name, e);
        return e;
    }
    void ders(const char* n)
    {
        for (T* p : {x0.get(), x1.get(), y0.get(), y1.get()})
            if (p && p->shouldRecord())
                {
                if (guarded(n, [&] { obs.add(n, t->derivative(p->getSlot())); }) == 0)
                    init = true;
            }
    }
    void sizes()
    {
        obs.add("statements", t->getNumStatements());
        obs.add("operations", t->getNumOperations());
        obs.add("variables", t->getNumVariables());
        obs.add("reusable slots", t->getNumReusableSlots());
        obs.add("reusable sections", t->getNumReusableSlotSections());
        obs.add("memory", double(t->getMemory()));
        obs.add("position", t->getPosition());
        obs.add("callbacks", t->getNumCallbacks());
        obs.add("have callbacks", t->haveCallbacks());
        obs.add("active", t->isActive());
        for (T* p : {x0.get(), x1.get(), y0.get(), y1.get()})
            obs.add("slot", !p ? -2 : p->shouldRecord() ? double(p->getSlot()) : -1);
    }
    void op(Op o)
    {
        switch (o)
        {
            case REG0: t->registerInput(*x0); break;
            case REG1: t->registerInput(*x1); break;
            case NEWREC:
                t->newRecording();
                init = false;
                break;
            case S0: *y0 = *x0 * *x1 + 3.0 * *x0; break;
            case S1: *y1 = *y0 * *x1 + *y0; break;
            case S2: *x0 = *y0 * *y1 + *x1; break;
            case KILL0:
                y0.reset();
                y0.reset(new T(5));
                break;
            case SEED0:
                if (guarded("seed y0", [&] { t->derivative(y0->getSlot()) = 1.0; }) == 0)
                    init = true;
                break;
            case SEED1:
                if (guarded("seed y1", [&] { t->derivative(y1->getSlot()) = 2.0; }) == 0)
                    init = true;
                break;
            case BACK:
                if (guarded("computeAdjoints", [&] { t->computeAdjoints(); }) != (init ? 0 : 1))
                    c.fail("computeAdjoints() %s DerivativesNotInitialized", init ? "throws" : "does not throw");
                ders("derivative after the rollback");
                break;
            case CLRD:
                t->clearDerivatives();
                init = false;
                break;
            case MARK: mark = t->getPosition(); break;
            case BACKTO:
                if (guarded("computeAdjointsTo", [&] { t->computeAdjointsTo(mark); }) == 0)
                    init = true;
                ders("derivative after the partial rollback");
                break;
            case RESET: t->resetTo(mark); break;
            case CLRAFTER: t->clearDerivativesAfter(mark); break;
            case CHK:
            {
                std::unique_ptr<Seg> s(new Seg);
                s->a = y0->getSlot();
                s->b = x1->getSlot();
                s->va = y0->getValue();
                s->vb = x1->getValue();
                s->obs = &obs;
                *y1 = s->va * s->vb;
                t->registerOutput(*y1);
                s->o = y1->getSlot();
                t->insertCallback(s.get());
                segs.push_back(std::move(s));
                break;
            }
            case PUSHCB: t->pushCallback(new OwnedCB); break;
            case POPCB:
                guarded("popCallback",
                        [&]
                        {
                            CB* l = t->getLastCallback();
                            t->popCallback();
                            delete l;
                        });
                break;
            case DEACT: t->deactivate(); break;
            case ACT: guarded("activate", [&] { t->activate(); }); break;
            case CLEARALL:
                for (auto* p : {&x0, &x1, &y0, &y1})
                {
                    double v = (*p)->getValue();
                    p->reset();
                    p->reset(new T(v));
                }
                t->clearAll();
                init = false;
                mark = 0;
                break;
            default: break;
        }
        for (T* p : {x0.get(), x1.get(), y0.get(), y1.get()}) obs.add("value", p->getValue());
        sizes();
    }
    void finish()
    {
        // the tape goes on: pending adjoints, one more full cycle, then a new recording
        if (!t->isActive())
            guarded("activate", [&] { t->activate(); });
        T z = *x0 * 2.0 + *x1 * *y0 + *y1;
        if (z.shouldRecord())
        {
            guarded("seed", [&] { t->derivative(z.getSlot()) += 1.0; });
            guarded("rollback", [&] { t->computeAdjoints(); });
            ders("final derivative");
        }
        sizes();
        t->newRecording();
        t->registerInput(*x0);
        T w = *x0 * *x0;
        t->registerOutput(w);
        t->derivative(w.getSlot()) = 1.0;
        t->computeAdjoints();
        ders("derivative of the next recording");
        sizes();
    }
};

// abstract enabledness, so that both runs take the same operations
struct Abs
{
    bool active, r0 = false, r1 = false, ry0 = false, ry1 = false, marked = false, chk = false;
    int cbs = 0;
    int since = 0;  // statements since newRecording
    bool enabled(Op o)
    {
        switch (o)
        {
            case REG0: return active && !r0;
            case REG1: return active && !r1;
            case S0: return active;
            case S1: return active;
            case S2: return active;
            case KILL0: return ry0;
            case SEED0: return ry0;
            case SEED1: return ry1;
            case MARK: return true;
            case BACK: return active || !chk;  // the callback records
            case BACKTO: return marked && (active || !chk);
            case RESET:
            case CLRAFTER: return marked;
            case CHK: return active && ry0 && r1;
            case POPCB: return cbs > 0;
            case DEACT: return active;
            case ACT: return !active;
            default: return true;
        }
    }
    void apply(Op o)
    {
        switch (o)
        {
            case REG0: r0 = true; break;
            case REG1: r1 = true; break;
            case NEWREC: marked = chk = false; break;
            case S0: ry0 = ry0 || r0 || r1; break;
            case S1: ry1 = ry1 || ry0 || r1; break;
            case S2: r0 = r0 || ry0 || ry1 || r1; break;
            case KILL0: ry0 = false; break;
            case MARK: marked = true; break;
            case RESET: break;
            case CHK: ry1 = chk = true; break;
            case PUSHCB: ++cbs; break;
            case POPCB: --cbs; break;
            case DEACT: active = false; break;
            case ACT: active = true; break;
            case CLEARALL: r0 = r1 = ry0 = ry1 = marked = chk = false; break;
            default: break;
        }
    }
};

