// C12: activation state machine of several tapes of one thread
#include "../lib/mc.hpp"
#include <XAD/XAD.hpp>
#include <memory>
typedef mc::Ctx Ctx;
static const int MAXT = 3;

template <class R>
struct Group
{
    typedef xad::Tape<R> TP;
    typedef xad::AReal<R> T;
    struct One
    {
        std::unique_ptr<TP> t;
        std::unique_ptr<T> x, y;
        unsigned vars = 0, st = 0, ops = 0;
        double vx = 0, vy = 0, d = 0;  // values, dy/dx
        bool yDep = false;
        bool xIn = false;  // x was registered within the recording, whose rollback resets its derivative
    } k[MAXT];
    int active = -1;
    std::vector<std::unique_ptr<T>> grave;
    int N;
    ~Group()
    {
        TP::deactivateAll();
        grave.clear();
        for (auto& o : k)
        {
            o.x.reset();
            o.y.reset();
        }
    }
    void check(Ctx& c)
    {
        TP* want = active >= 0 ? k[active].t.get() : nullptr;
        if (TP::getActive() != want)
            c.fail("getActive() gives the wrong tape");
        for (int i = 0; i < N; ++i)
        {
            One& o = k[i];
            if (!o.t)
                continue;
            if (o.t->isActive() != (i == active))
                c.fail("tape %d: isActive() is %d", i, int(o.t->isActive()));
            if (o.t->getNumVariables() != o.vars || o.t->getNumStatements() != o.st || o.t->getNumOperations() != o.ops)
                c.fail("tape %d: %u variables, %u statements, %u operations; expected %u, %u, %u", i, o.t->getNumVariables(),
                       o.t->getNumStatements(), o.t->getNumOperations(), o.vars, o.st, o.ops);
            if (o.x && (o.x->getValue() != R(o.vx)))
                c.fail("tape %d: wrong value of its variable", i);
            if (o.y && (o.y->getValue() != R(o.vy)))
                c.fail("tape %d: wrong value of its variable", i);
            if (i == active && o.x && o.x->getTape() != o.t.get())
                c.fail("tape %d: getTape() of its variable gives another tape", i);
        }
    }
    void bury(std::unique_ptr<T>& p)
    {
        if (p)
            grave.push_back(std::move(p));
    }
};

enum Op
{
    CREATE_A,
    CREATE_I,
    ACTIVATE,
    SETACTIVE,
    DEACT,
    DESTROY,
    ROLL,
    NEWREC,
    REGX,     // on the active tape
    STMT,     // y = x*x + 2x (active tape)
    STMT2,    // y = 3*y (active tape)
    KILLY,    // active tape
    DEALL,
    PASSIVE,
    NOTAPE,
};
struct Cmd
{
    Op op;
    int i;
};
static const char* opn[] = {"create active", "create inactive", "activate", "setActive", "deactivate", "destroy", "seed, roll back, clear", "newRecording",
                            "register x on the active tape", "y = x*x + 2*x on the active tape", "y = 3*y on the active tape", "destroy y on the active tape",
                            "deactivateAll", "passive arithmetic", "derivative without tape"};

template <class R, class G>
bool apply(Ctx& c, G& g, Cmd m)
{
    typedef xad::Tape<R> TP;
    typedef xad::AReal<R> T;
    auto& o = g.k[m.i];
    switch (m.op)
    {
        case CREATE_A:
        case CREATE_I:
        {
            if (o.t)
                return false;
            bool thrown = false;
            try
            {
                if (m.op == CREATE_A && m.i == 0)
                    o.t.reset(new TP);
                else
                    o.t.reset(new TP(m.op == CREATE_A));
            }
            catch (xad::TapeAlreadyActive& e)
            {
                thrown = true;
                const xad::Exception& b = e;
                (void)b;
            }
            bool want = m.op == CREATE_A && g.active >= 0;
            if (thrown != want)
                c.fail("creating a tape %s TapeAlreadyActive", thrown ? "throws" : "does not throw");
            if (m.op == CREATE_A && !thrown)
                g.active = m.i;
            o.vars = o.st = o.ops = 0;
            o.yDep = o.xIn = false;
            return true;
        }
        case ACTIVATE:
        case SETACTIVE:
        {
            if (!o.t)
                return false;
            bool thrown = false;
            try
            {
                if (m.op == ACTIVATE)
                    o.t->activate();
                else
                    TP::setActive(o.t.get());
            }
            catch (xad::TapeAlreadyActive&)
            {
                thrown = true;
            }
            if (g.active >= 0 && g.active != m.i && !thrown)
                c.fail("activating tape %d over tape %d does not throw TapeAlreadyActive", m.i, g.active);
            if (g.active < 0 && thrown)
                c.fail("activating throws TapeAlreadyActive although no tape is active");
            if (g.active < 0)
                g.active = m.i;
            return true;
        }
        case DEACT:
            if (!o.t)
                return false;
            o.t->deactivate();
            if (g.active == m.i)
                g.active = -1;
            return true;
        case DESTROY:
            if (!o.t)
                return false;
            g.bury(o.x);
            g.bury(o.y);
            o.t.reset();
            if (g.active == m.i)
                g.active = -1;
            return true;
        case NEWREC:
            if (!o.t)
                return false;
            o.t->newRecording();
            o.st = o.ops = 0;
            o.yDep = o.xIn = false;
            o.d = 0;
            return true;
        case ROLL:
        {
            if (!o.t || !o.y || !o.x || !o.x->shouldRecord() || !o.y->shouldRecord())
                return false;
            unsigned sx = o.x->getSlot(), sy = o.y->getSlot();
            o.t->clearDerivatives();
            o.t->derivative(sy) = R(1);
            o.t->computeAdjoints();
            double got = double(o.t->derivative(sx)), want = o.yDep && !o.xIn ? o.d : 0;
            if (got != want)
                c.fail("tape %d: derivative %.17g, expected %.17g", m.i, got, want);
            return true;
        }
        case DEALL:
            TP::deactivateAll();
            g.active = -1;
            return true;
        case REGX:
        {
            if (g.active < 0)
                return false;
            auto& a = g.k[g.active];
            if (a.x && a.x->shouldRecord())
                return false;
            a.vx = 2 + g.active;
            a.x.reset(new T(R(a.vx)));
            a.t->registerInput(*a.x);
            a.xIn = true;
            a.vars++;
            a.st++;
            return true;
        }
        case STMT:
        {
            if (g.active < 0)
                return false;
            auto& a = g.k[g.active];
            if (!a.x)
                return false;
            if (!a.y)
            {
                a.y.reset(new T(R(1)));
                a.yDep = false;
            }
            if (!a.y->shouldRecord())
                a.vars++;
            *a.y = *a.x * *a.x + R(2) * *a.x;
            a.vy = a.vx * a.vx + 2 * a.vx;
            a.st++;
            a.ops += 3;
            a.d = 2 * a.vx + 2;
            a.yDep = true;
            return true;
        }
        case STMT2:
        {
            if (g.active < 0)
                return false;
            auto& a = g.k[g.active];
            if (!a.y || !a.y->shouldRecord() || a.vy > 1e5)
                return false;
            *a.y = R(3) * *a.y;
            a.vy *= 3;
            a.st++;
            a.ops++;
            a.d *= 3;
            return true;
        }
        case KILLY:
        {
            if (g.active < 0)
                return false;
            auto& a = g.k[g.active];
            if (!a.y)
                return false;
            if (a.y->shouldRecord())
                a.vars--;
            a.y.reset();
            a.yDep = false;
            return true;
        }
        case PASSIVE:
        {
            T p = R(3), q = p * p + R(1), r(q);
            r += q;
            r = p;
            p = R(4);
            T s = std::move(r);
            if (s.shouldRecord() || q.getValue() != R(10) || s.getValue() != R(3))
                c.fail("passive arithmetic is recorded or wrong");
            return true;
        }
        case NOTAPE:
        {
            if (g.active >= 0)
                return false;
            T p = R(3);
            const T& cp = p;
            int n = 0;
            auto tryIt = [&](int k)
            {
                try
                {
                    if (k == 0)
                        p.setDerivative(R(1));
                    else if (k == 1)
                        p.derivative() = R(1);
                    else if (k == 2)
                        (void)cp.derivative();
                    else if (k == 3)
                        (void)cp.getDerivative();
                    else
                        (void)xad::derivative(p);
                }
                catch (xad::NoTapeException&)
                {
                    ++n;
                }
            };
            for (int k = 0; k < 5; ++k) tryIt(k);
            if (n != 5 || p.shouldRecord())
                c.fail("using a derivative without an active tape does not throw NoTapeException");
            return true;
        }
    }
    return false;
}

static void body(Ctx& c)
{
    int N = c.param / 10, L = c.param % 10 + (c.tier ? 1 : 0);
    bool two = c.param2 & 1;      // a second group of tapes of another scalar type
    bool session = c.param2 & 2;  // with variables and rollbacks
    bool merge = c.param2 & 4;
    std::vector<Cmd> A;
    for (int i = 0; i < N; ++i)
    {
        for (Op o : {CREATE_A, CREATE_I, ACTIVATE, DEACT, DESTROY}) A.push_back({o, i});
        if (!session)
            A.push_back({SETACTIVE, i});
        if (session)
        {
            A.push_back({ROLL, i});
            A.push_back({NEWREC, i});
        }
    }
    A.push_back({DEALL, 0});
    if (session)
        for (Op o : {REGX, STMT, STMT2, KILLY}) A.push_back({o, 0});
    if (!session || merge)
    {
        A.push_back({PASSIVE, 0});
        A.push_back({NOTAPE, 0});
    }
    Group<double> g;
    Group<float> f;
    g.N = N;
    f.N = two ? N : 0;
    if (c.param2 & 8)  // start from an active tape 0 and an inactive tape 1, both with a registered input
    {
        for (int i = 1; i >= 0; --i)
        {
            apply<double>(c, g, {CREATE_A, i});
            apply<double>(c, g, {REGX, 0});
            apply<double>(c, g, {NEWREC, i});
            apply<double>(c, g, {STMT, 0});
            if (i)
                apply<double>(c, g, {DEACT, i});
        }
    }
    for (int s = 0; s < L; ++s)
    {
        int q = c.choose(int(A.size()) * (two ? 2 : 1));
        Cmd m = A[q % A.size()];
        bool second = q >= int(A.size());
        c.log("%s%s %d (active: %d)", second ? "[float] " : "", opn[m.op], m.i, second ? f.active : g.active);
        if (!(second ? apply<float>(c, f, m) : apply<double>(c, g, m)))
            throw mc::Cut();
        c.step();
        g.check(c);
        f.check(c);
        uint64_t h = mc::mix(g.active + 5, f.active + 5);
        for (int i = 0; i < N; ++i)
        {
            for (auto* u : {(void*)&g.k[i]}) (void)u;
            h = mc::mix(h, (g.k[i].t ? 1 : 0) + (g.k[i].vars << 2) + (g.k[i].st << 6) + (uint64_t(g.k[i].ops) << 12));
            h = mc::mix(h, (f.k[i].t ? 1 : 0) + (f.k[i].vars << 2) + (f.k[i].st << 6) + (uint64_t(f.k[i].ops) << 12));
        }
        c.state(h);
    }
    // all surviving tapes still deliver
    for (int i = 0; i < N; ++i) apply<double>(c, g, {ROLL, i});
    for (int i = 0; i < f.N; ++i) apply<float>(c, f, {ROLL, i});
    uint64_t h = 1;
    for (int i = 0; i < N; ++i) h = mc::mix(h, mc::bits(g.k[i].d) + g.k[i].st + 100 * g.k[i].ops);
    c.outcome(h);
}

int main(int argc, char** argv)
{
    std::vector<mc::Space> S;
#ifdef LIGHT
    const int d = 1;
#else
    const int d = 0;
#endif
    S.push_back({"activation3", "3 tapes: create, activate, set active, deactivate, destroy, deactivate all", body, 36 - d, 0, 3, 3});
    S.push_back({"activation2", "2 tapes: the same, longer", body, 27 - d, 0, 3, 3});
    S.push_back({"sessions2", "2 tapes with their own recordings, rollbacks on active and inactive tapes", body, 26 - d, 2 + 8, 3, 3});
    S.push_back({"sessions2-empty", "the same from no tapes", body, 27 - d, 2, 3, 3});
    S.push_back({"sessions3", "3 tapes with their own recordings", body, 35 - d, 2 + 8, 3, 3});
    S.push_back({"types", "2 tapes of each of two scalar types", body, 25 - d, 1 + 2 + 4, 3, 3});
    return mc::mainImpl(argc, argv, S);
}
