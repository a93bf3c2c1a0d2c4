// C20: every allocation and every callback of every session made to fail, one at a time; the exception arrives,
// nothing is leaked or released twice, and after clearing everything or destroying the tape all works as new
#include "../lib/faultalloc.hpp"
#include "../lib/mc.hpp"
#include <XAD/XAD.hpp>
#include <XAD/Hessian.hpp>
#include <XAD/Jacobian.hpp>
#include <memory>
typedef mc::Ctx Ctx;

struct UserError
{
    int point;
};
// fault points other than allocations: places in callbacks and functions where the user may throw
static struct UserFault
{
    long count = 0, at = -1;
    bool fired = false;
} uf;
static void userPoint()
{
    if (uf.count++ == uf.at)
    {
        fa::Off off;
        uf.fired = true;
        throw UserError{int(uf.at)};
    }
}
static void resetFaults()
{
    fa::reset();
    uf = UserFault();
}

struct Obs
{
    double v[512];
    int n = 0;
    void add(double x)
    {
        if (n == 512)
            abort();
        v[n++] = x;
    }
};
static int g_cbAlive = 0;

static double plain(double x) { return x; }
template <class X>
static double plain(const X& x)
{
    return plain(xad::value(x));
}

template <class X>
struct World
{
    typedef xad::Tape<X> TP;
    typedef xad::AReal<X> T;
    typedef xad::CheckpointCallback<TP> CB;

    struct Seg : CB
    {
        unsigned a, b, o;
        double va, vb;
        int kind;
        Seg(int k) : kind(k) { ++g_cbAlive; }
        ~Seg() { --g_cbAlive; }
        void computeAdjoint(TP* t) override
        {
            userPoint();
            X adj = t->getAndResetOutputAdjoint(o);
            T p = va, q = vb;
            t->registerInput(p);
            t->registerInput(q);
            X dp, dq;
            if (kind == 0)
            {
                xad::ScopedNestedRecording<TP> n(t);
                T r = p * q;
                T u = r * 2.0;
                userPoint();
                t->registerOutput(r);
                r.setDerivative(adj);
                n.computeAdjoints();
                userPoint();
                dp = p.getDerivative();
                dq = q.getDerivative();
            }
            else
            {
                // recordings opened and closed by hand stay open when the callback throws
                t->newNestedRecording();
                {
                    T r = p * q;
                    userPoint();
                    r.setDerivative(adj);
                    t->computeAdjoints();
                    dp = p.getDerivative();
                    dq = q.getDerivative();
                }
                t->endNestedRecording();
            }
            userPoint();
            t->incrementAdjoint(a, dp);
            t->incrementAdjoint(b, dq);
        }
    };
    enum Op
    {
        S0,
        MANY,
        KILL,
        LONG,
        CHK,
        CHKM,
        BACK,
        MARK_RESET,
        NEWREC,
        CLEAR,
        NOPS
    };
    static const char* opName(int o)
    {
        static const char* n[] = {"y = x0*x1 + sin(x0)*3",
                                  "6 more variables v = x0*k + y",
                                  "destroy every other of these",
                                  "140 statements y = y*x1 + x0",
                                  "checkpointed y = x0*x1, nested recording by scope",
                                  "checkpointed y = x0*x1, nested recording by hand",
                                  "seed y, computeAdjoints, read derivatives",
                                  "mark, statement, seed, computeAdjointsTo(mark), resetTo(mark)",
                                  "new recording, inputs and y as before",
                                  "clearAll after destroying all variables, start again"};
        return n[o];
    }
    std::unique_ptr<TP> t;
    std::unique_ptr<T> x0, x1, y;
    std::unique_ptr<T> v[24];
    int nv = 0;
    Obs obs;

    void tape() { t.reset(new TP()); }
    void start()
    {
        x0.reset(new T(1.25));
        x1.reset(new T(1.5));
        y.reset(new T(0.5));
        t->registerInput(*x0);
        t->registerInput(*x1);
        t->newRecording();
    }
    void dropVars()
    {
        for (int i = 0; i < 24; ++i) v[i].reset();
        nv = 0;
        y.reset();
        x1.reset();
        x0.reset();
    }
    void ders()
    {
        obs.add(plain(*y));
        obs.add(plain(x0->getDerivative()));
        obs.add(plain(x1->getDerivative()));
        for (int i = 0; i < nv; ++i)
            if (v[i] && i % 3 == 0)
                obs.add(plain(v[i]->getDerivative()));
    }
    void chk(int kind)
    {
        // the segment is evaluated passively
        double a = plain(*x0), b = plain(*x1);
        std::unique_ptr<Seg> cb(new Seg(kind));
        Seg* s = cb.get();
        t->pushCallback(s);
        cb.release();
        s->a = x0->getSlot();
        s->b = x1->getSlot();
        s->va = a;
        s->vb = b;
        *y = a * b;
        t->registerOutput(*y);
        s->o = y->getSlot();
        t->insertCallback(s);
    }
    void op(int o)
    {
        switch (o)
        {
            case S0: *y = *x0 * *x1 + sin(*x0) * 3.0; break;
            case MANY:
                for (int i = 0; i < 6 && nv < 24; ++i, ++nv) v[nv].reset(new T(*x0 * double(i + 1) + *y));
                break;
            case KILL:
                for (int i = 0; i < nv; i += 2) v[i].reset();
                break;
            case LONG:
                for (int i = 0; i < 140; ++i) *y = *y * 0.5 + *x0;
                break;
            case CHK: chk(0); break;
            case CHKM: chk(1); break;
            case BACK:
                t->registerOutput(*y);
                y->setDerivative(X(1.0));
                t->computeAdjoints();
                ders();
                t->clearDerivatives();
                break;
            case MARK_RESET:
            {
                unsigned pos = t->getPosition();
                {
                    T w = *x0 * 2.0 + *x1;
                    w.setDerivative(X(1.0));
                    t->computeAdjointsTo(pos);
                    ders();
                }
                t->resetTo(pos);
                t->clearDerivatives();
                break;
            }
            case NEWREC: t->newRecording(); break;
            case CLEAR:
                dropVars();
                t->clearAll();
                start();
                break;
        }
    }
    void sizes()
    {
        obs.add(t->getNumStatements());
        obs.add(t->getNumOperations());
        obs.add(t->getNumVariables());
        obs.add(t->getNumReusableSlots());
        obs.add(t->getNumReusableSlotSections());
        obs.add(t->getPosition());
        obs.add(t->isActive());
    }
    // what a tape that is as new does
    void probe()
    {
        obs.n = 0;
        sizes();
        start();
        op(S0);
        sizes();
        op(MANY);
        op(KILL);
        op(CHK);
        op(S0);
        *y = *y * *v[1] + *v[3];
        op(BACK);
        sizes();
        op(CHKM);
        op(LONG);
        op(BACK);
        sizes();
        op(MARK_RESET);
        op(NEWREC);
        op(S0);
        op(BACK);
        sizes();
        for (T* p : {x0.get(), x1.get(), y.get(), v[1].get()}) obs.add(p->shouldRecord() ? double(p->getSlot()) : -1);
        dropVars();
        sizes();
    }
};

static const char* recName[] = {"destroy the variables, clearAll", "destroy the variables, then the tape; new tape",
                                "destroy the tape, then the variables; new tape", "deactivate; new tape; old one destroyed at the end"};

template <class X, bool INNER>
struct Run
{
    typedef World<X> W;
    typedef typename W::TP TP;
    std::unique_ptr<xad::Tape<double>> inner;
    std::unique_ptr<W> w;
    const std::vector<int>& prog;
    int at = -1;  // operation under way
    explicit Run(const std::vector<int>& p) : prog(p) {}
    ~Run()
    {
        fa::S().armed = false;
        w.reset();
        inner.reset();
        TP::deactivateAll();
        xad::Tape<double>::deactivateAll();
        resetFaults();
    }
    // returns 0 completed, 1 bad_alloc, 2 UserError
    int session(bool again = false)
    {
        if (!again)
            w.reset(new W);
        w->obs.n = 0;
        try
        {
            fa::On on;
            at = -2;
            if (INNER && !inner)
                inner.reset(new xad::Tape<double>());
            at = -1;
            if (!w->t)
                w->tape();
            w->start();
            for (size_t i = 0; i < prog.size(); ++i)
            {
                at = int(i);
                w->op(prog[i]);
            }
            at = int(prog.size());
            w->op(W::BACK);
        }
        catch (const std::bad_alloc&)
        {
            return 1;
        }
        catch (const UserError& e)
        {
            return e.point == uf.at ? 2 : 3;
        }
        return 0;
    }
    void end()
    {
        w->dropVars();
        w->t.reset();
        inner.reset();
    }
};

static bool same(const Obs& a, const Obs& b, int& where)
{
    where = -1;
    for (int i = 0; i < a.n || i < b.n; ++i)
    {
        where = i;
        if (i >= a.n || i >= b.n)
            return false;
        if (!(a.v[i] == b.v[i]) && !(a.v[i] != a.v[i] && b.v[i] != b.v[i]))
            return false;
    }
    return true;
}

template <class X, bool INNER>
static const Obs& freshProbe()
{
    static Obs o;
    if (o.n == 0)
    {
        std::vector<int> none;
        Run<X, INNER> r(none);
        r.w.reset(new World<X>);
        if (INNER)
            r.inner.reset(new xad::Tape<double>());
        r.w->tape();
        r.w->probe();
        o = r.w->obs;
    }
    return o;
}

// param2: 0 full alphabet, 1 without the longest operations, 2 the same with two faults

template <class X, bool INNER>
static void body(Ctx& c)
{
    typedef World<X> W;
    resetFaults();
    int cb0 = g_cbAlive;
    std::vector<int> prog;
    {
        int len = 1 + c.choose(c.param);
        for (int i = 0; i < len; ++i)
        {
            int o = c.choose(c.param2 ? W::NOPS - 3 : W::NOPS);
            if (c.param2 && o >= W::LONG)
                ++o;
            if (c.param2 && o >= W::NEWREC)
                ++o;
            prog.push_back(o);
        }
    }
    long allocs, points;
    Obs ref;
    {
        Run<X, INNER> r(prog);
        int e = r.session();
        if (e)
            c.fail("exception without any fault");
        allocs = fa::S().count;
        points = uf.count;
        ref = r.w->obs;
        r.end();
        if (fa::S().live)
            c.fail("%ld blocks of memory are leaked by a session without faults", fa::S().live);
        if (g_cbAlive != cb0)
            c.fail("%d callbacks are left after a session without faults", g_cbAlive - cb0);
    }
    c.count(0, allocs);
    c.count(1, points);
    uint64_t h = 11;
    for (int i = 0; i < ref.n; ++i) h = mc::mix(h, mc::bits(ref.v[i]));
    const Obs& fresh = freshProbe<X, INNER>();
    int nf = int(allocs * 2 + points);
    int rounds = c.param2 == 2 ? 2 : 1;
    resetFaults();
    std::unique_ptr<typename W::TP> old;
    Run<X, INNER> r(prog);
    for (int round = 0; round < rounds; ++round)
    {
        int f = c.choose(nf);
        int rec = c.choose(4);
        c.step();
        if (c.tracing())
        {
            for (size_t i = 0; i < prog.size(); ++i) c.log("op %zu: %s", i, W::opName(prog[i]));
            if (f < points)
                c.log("fault: the user's code throws at point %d", f);
            else
                c.log("fault: allocation %ld fails%s", (f - points) / 2, (f - points) % 2 ? " and so do all after it" : "");
            c.log("recovery: %s", recName[rec]);
        }
        uf = UserFault();
        fa::S().count = 0;
        fa::S().fired = false;
        if (f < points)
            uf.at = f;
        else
        {
            fa::S().failAt = (f - points) / 2;
            fa::S().sticky = (f - points) % 2;
        }
        int e = r.session(round > 0);
        if (c.tracing())
            c.log("exception %d in operation %d", e, r.at);
        c.state(mc::mix(mc::mix(mc::mix(h, f), r.at), round));
        // the tape is not built again in a second round, so that there are fewer allocations
        bool fired = f < points ? uf.fired : fa::S().fired;
        if (!fired && round == 0)
            c.fail("the session takes another course when repeated");
        if (e == 3)
            c.fail("another exception than the one thrown");
        if (e == 0)
        {
            if (f < points && fired)
                c.fail("the exception thrown by the user's code in operation %d does not arrive", r.at);
            int at;
            if (!same(r.w->obs, ref, at))
                c.fail(fired ? "a failed allocation is not reported and changes the results (observation %d)" : "results after recovery differ (observation %d)", at);
        }
        else if (!fired || (e == 2) != (f < points))
            c.fail("unexpected exception");
        // recover; with persistent failure, clearing and destroying have to do without memory
        W& w = *r.w;
        try
        {
            fa::On on;
            bool haveTape = w.t != nullptr;
            if (!haveTape)
                w.dropVars();
            else if (rec == 0)
            {
                w.dropVars();
                w.t->clearAll();
            }
            else if (rec == 1)
            {
                w.dropVars();
                w.t.reset();
            }
            else if (rec == 2)
            {
                w.t.reset();
                w.dropVars();
            }
            else
            {
                w.dropVars();
                w.t->deactivate();
                old = std::move(w.t);
            }
        }
        catch (const std::bad_alloc&)
        {
            fa::S().armed = false;
            c.fail("recovering needs memory");
        }
        fa::S().failAt = -1;
        uf.at = -1;
        if (W::TP::getActive() != w.t.get())
            c.fail("after recovery the active tape is wrong");
        c.outcome(mc::mix(mc::mix(h, r.at), e));
    }
    W& w = *r.w;
    {
        fa::On on;
        if (INNER && !r.inner)
            r.inner.reset(new xad::Tape<double>());
        if (!w.t)
            w.tape();
        w.probe();
    }
    int at;
    if (!same(w.obs, fresh, at))
        c.fail("after recovery, observation %d is %.17g, for a new tape %.17g", at, at < w.obs.n ? w.obs.v[at] : -999, at < fresh.n ? fresh.v[at] : -999);
    old.reset();
    r.end();
    if (fa::S().live)
        c.fail("%ld blocks of memory are leaked", fa::S().live);
    if (g_cbAlive != cb0)
    {
        int d = g_cbAlive - cb0;
        g_cbAlive = cb0;
        c.fail("%d callbacks are not destroyed", d);
    }
}

// computeJacobian and computeHessian with functions that throw, and with failing allocations
template <class V, bool HESS>
static void driver(Ctx& c)
{
    typedef xad::AReal<V> A;
    typedef xad::Tape<V> TP;
    typedef typename std::conditional<HESS, A, std::vector<A>>::type Out;
    typedef std::vector<std::vector<double>> Mat;
    resetFaults();
    int m = HESS ? 1 : 1 + c.choose(2);
    int mode = c.choose(3);  // no tape / inactive tape given / active tape
    int n = 1 + c.choose(c.param);
    std::function<Out(std::vector<A>&)> f = [&](std::vector<A>& x)
    {
        userPoint();
        std::vector<A> r;
        for (int i = 0; i < m; ++i)
        {
            A s = x[0];
            for (size_t j = 0; j < x.size(); ++j) s = s * x[j] + double(i);
            userPoint();
            r.push_back(s);
        }
        if constexpr (HESS)
            return r[0];
        else
            return r;
    };
    std::unique_ptr<TP> tape;
    TP* activeAfter = nullptr;
    auto run = [&](Mat& res)
    {
        std::vector<A> x(n, A(1.5));
        int e = 0;
        try
        {
            fa::On on;
            TP* t = mode == 1 ? tape.get() : TP::getActive();
            if constexpr (HESS)
                res = xad::computeHessian<double>(x, f, t);
            else
                res = xad::computeJacobian<double>(x, f, t);
        }
        catch (const std::bad_alloc&)
        {
            e = 1;
        }
        catch (const UserError& u)
        {
            e = u.point == uf.at ? 2 : 3;
        }
        activeAfter = TP::getActive();
        return e;
    };
    auto setup = [&]
    {
        tape.reset();
        TP::deactivateAll();
        fa::On on;
        if (mode)
            tape.reset(new TP(mode == 2));
    };
    struct Cleanup
    {
        std::unique_ptr<TP>& t;
        ~Cleanup()
        {
            t.reset();
            TP::deactivateAll();
            resetFaults();
        }
    } cleanup{tape};
    Mat ref;
    setup();
    fa::S().count = 0;
    if (run(ref))
        c.fail("exception without any fault");
    long allocs = fa::S().count, points = uf.count;
    {
        Mat copy = ref;  // not counted as the library's
        ref = Mat();
        ref = copy;
    }
    if (activeAfter != (mode == 2 ? tape.get() : nullptr))
        c.fail("the active tape is changed");
    setup();
    tape.reset();
    TP::deactivateAll();
    if (fa::S().live)
        c.fail("%ld blocks of memory are leaked without faults", fa::S().live);
    int k = c.choose(int(points + 2 * allocs));
    c.step();
    if (c.tracing())
        c.log("%s, %d inputs, %d outputs, %s; %s %d fails", HESS ? "Hessian" : "Jacobian", n, m,
              mode == 1 ? "inactive tape given" : mode == 2 ? "active tape" : "no tape", k < points ? "user point" : "allocation",
              int(k < points ? k : (k - points) / 2));
    setup();
    fa::S().count = 0;
    uf.count = 0;
    if (k < points)
        uf.at = k;
    else
    {
        fa::S().failAt = (k - points) / 2;
        fa::S().sticky = (k - points) % 2;
    }
    Mat res;
    int e = run(res);
    fa::S().failAt = -1;
    uf.at = -1;
    if (k < points ? !uf.fired : !fa::S().fired)
        c.fail("the session takes another course when repeated");
    if (e == 3 || (k < points && e != 2) || (k >= points && e == 2))
        c.fail("the exception does not arrive (%d)", e);
    if (activeAfter != (mode == 2 ? tape.get() : nullptr))
        c.fail("after the exception the active tape is not the one before");
    if (e == 0 && res != ref)
        c.fail("a failed allocation is not reported and changes the result");
    if (tape)
        tape->clearAll();
    res = Mat();
    if (run(res))
        c.fail("exception in the second call");
    if (res != ref)
        c.fail("after the exception the result is another");
    res = Mat();
    tape.reset();
    TP::deactivateAll();
    if (fa::S().live)
        c.fail("%ld blocks of memory are leaked", fa::S().live);
    c.state(mc::mix(mc::mix(mc::mix(k, m), mode), n));
    c.outcome(mc::mix(e, k < points));
}

int main(int argc, char** argv)
{
    std::vector<mc::Space> S;
#ifdef LIGHT
    const int d = 1;
#else
    const int d = 0;
#endif
    typedef xad::AReal<double> AR;
    typedef xad::FReal<double> FR;
    S.push_back({"double", "10-operation sessions, every fault", body<double, false>, 3 - d, 0, 3, 3});
    S.push_back({"double-short", "7-operation sessions, every fault", body<double, false>, 4 - d, 1, 4, 3});
    S.push_back({"areal", "sessions on a second-order tape with an inner tape, every fault", body<AR, true>, 3 - d, 1, 3, 3});
    S.push_back({"freal", "sessions on a tape of forward-mode values, every fault", body<FR, false>, 3 - d, 1, 3, 3});
    S.push_back({"twice", "every pair of faults, the second after recovering from the first", body<double, false>, 1, 2, 3, 3});
#ifndef LIGHT
    S.push_back({"twice-2", "every pair of faults, the second after recovering from the first", body<double, false>, 2, 2, 3, 2});
    S.push_back({"double-4", "10-operation sessions, every fault", body<double, false>, 4, 0, 3, 2});
    S.push_back({"double-5", "7-operation sessions, every fault", body<double, false>, 5, 1, 4, 2});
    S.push_back({"areal-4", "sessions on a second-order tape with an inner tape, every fault", body<AR, true>, 4, 1, 3, 2});
    S.push_back({"freal-4", "sessions on a tape of forward-mode values, every fault", body<FR, false>, 4, 1, 3, 2});
#endif
    S.push_back({"jacobian", "computeJacobian, every fault", driver<double, false>, 3, 0, 3, 3});
    S.push_back({"hessian", "computeHessian, every fault", driver<xad::FReal<double>, true>, 3, 0, 3, 3});
    return mc::mainImpl(argc, argv, S);
}
