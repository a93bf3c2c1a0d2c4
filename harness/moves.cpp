// C14: moving a tape at any point of any session transfers the whole session
#include "../lib/session.hpp"

enum Kind
{
    NONE,
    CTOR,
    CTOR_KEEP,
    ASSIGN_FRESH,
    ASSIGN_BUSY,
    ASSIGN_ACTIVE,
    THERE_AND_BACK,
    SWAP,
    THIRD_ACTIVE,
    NKINDS
};
static const char* kn[] = {"none", "move-construct, source destroyed", "move-construct, source kept", "move-assign to a fresh tape",
                           "move-assign to a tape with a session of its own", "move-assign to the active tape", "move there and back", "std::swap with another session",
                           "move while another tape is active"};

struct MSession : Session
{
    std::vector<std::unique_ptr<TP>> kept;
    std::unique_ptr<TP> third;
    int busyCallbacks = 0;
    using Session::Session;
    ~MSession()
    {
        end();
        kept.clear();
        third.reset();
        TP::deactivateAll();
    }
    // a tape with a recording, freed slots, derivatives and an owned callback
    std::unique_ptr<TP> busy(bool leaveActive)
    {
        TP* was = TP::getActive();
        if (was)
            was->deactivate();
        std::unique_ptr<TP> b(new TP(true));
        {
            T p = 1.5, q = 2.5, r = 4;
            b->registerInput(p);
            b->registerInput(q);
            b->registerInput(r);
            b->newRecording();
            {
                T s = p * q;
                T u = s * r + s;
                xad::derivative(u) = 2;
                b->computeAdjoints();
                xad::derivative(u) = 3;  // pending
            }
            T z = r * r;
        }
        b->pushCallback(new OwnedCB);
        ++busyCallbacks;
        if (!leaveActive)
            b->deactivate();
        if (was)
            was->activate();
        return b;
    }
    void move(Kind k)
    {
        bool act = t->isActive();
        int del0 = g_deleted;
        switch (k)
        {
            case NONE: return;
            case CTOR:
            {
                std::unique_ptr<TP> n(new TP(std::move(*t)));
                if (t->isActive())
                    c.fail("the moved-from tape is still active");
                t = std::move(n);
                if (g_deleted != del0)
                    c.fail("moving released a callback of the moved tape");
                break;
            }
            case CTOR_KEEP:
            {
                std::unique_ptr<TP> n(new TP(std::move(*t)));
                kept.push_back(std::move(t));
                t = std::move(n);
                break;
            }
            case ASSIGN_FRESH:
            {
                std::unique_ptr<TP> n(new TP(false));
                *n = std::move(*t);
                t = std::move(n);
                break;
            }
            case ASSIGN_BUSY:
            {
                std::unique_ptr<TP> n = busy(false);
                *n = std::move(*t);
                if (g_deleted != del0 + 1)
                    c.fail("move assignment released %d callbacks the target owned, expected 1", g_deleted - del0);
                busyCallbacks = 0;
                t = std::move(n);
                break;
            }
            case ASSIGN_ACTIVE:
            {
                if (TP::getActive())
                    throw mc::Cut();
                std::unique_ptr<TP> n = busy(true);
                *n = std::move(*t);
                if (g_deleted != del0 + 1)
                    c.fail("move assignment released %d callbacks the target owned, expected 1", g_deleted - del0);
                busyCallbacks = 0;
                t = std::move(n);
                break;
            }
            case THERE_AND_BACK:
            {
                TP n(std::move(*t));
                *t = std::move(n);
                break;
            }
            case SWAP:
            {
                std::unique_ptr<TP> n = busy(false);
                unsigned st = n->getNumStatements(), op = n->getNumOperations(), nv = n->getNumVariables(), rs = n->getNumReusableSlots();
                size_t mem = n->getMemory();
                double d0 = n->derivative(0), d1 = n->derivative(1);
                std::swap(*n, *t);
                if (t->getNumStatements() != st || t->getNumOperations() != op || t->getNumVariables() != nv || t->getMemory() != mem ||
                    t->getNumReusableSlots() != rs || t->derivative(0) != d0 || t->derivative(1) != d1 || t->getNumCallbacks() != 1 || t->isActive())
                    c.fail("the other tape's session is not transferred by std::swap");
                kept.push_back(std::move(t));
                t = std::move(n);
                if (g_deleted != del0)
                    c.fail("swapping released a callback");
                break;
            }
            case THIRD_ACTIVE:
            {
                if (TP::getActive())
                    throw mc::Cut();
                third.reset(new TP(true));
                std::unique_ptr<TP> n(new TP(std::move(*t)));
                t.reset(new TP(false));
                *t = std::move(*n);
                if (!third->isActive() || TP::getActive() != third.get())
                    c.fail("moving inactive tapes changed which tape is active");
                third->deactivate();
                break;
            }
            default: break;
        }
        if (t->isActive() != act)
            c.fail("the tape was %sactive before and is %sactive after the move (%s)", act ? "" : "not ", t->isActive() ? "" : "not ", kn[k]);
        if (TP::getActive() != (act ? t.get() : nullptr))
            c.fail("the active tape of the thread is wrong after the move (%s)", kn[k]);
    }
};

static void body(Ctx& c)
{
    int L = c.param + (c.tier ? 1 : 0);
    static const std::vector<Op> FULL = {REG0, NEWREC, S0, S1, S2, KILL0, SEED0, SEED1, BACK, CLRD, MARK, BACKTO, RESET, CLRAFTER, CHK, PUSHCB, POPCB, DEACT, ACT, CLEARALL};
    static const std::vector<Op> MID = {NEWREC, S0, S1, KILL0, SEED1, BACK, MARK, BACKTO, RESET, CHK};
    static const std::vector<Op> SLOTS = {REG0, S0, S1, KILL0, NEWREC, CLEARALL};
    const std::vector<Op>& A = c.param2 == 1 ? MID : c.param2 == 2 ? SLOTS : FULL;
    bool pre = c.param2 != 2;  // start with both inputs registered and a recording begun
    Abs a;
    a.active = true;
    std::vector<Op> prog;
    if (pre)
    {
        for (Op o : {REG0, REG1, NEWREC, S0})
        {
            a.apply(o);
            prog.push_back(o);
        }
    }
    int P = int(prog.size());
    for (int s = 0; s < L; ++s)
    {
        std::vector<Op> en;
        for (Op o : A)
            if (a.enabled(o))
                en.push_back(o);
        Op o = en[c.choose(int(en.size()))];
        a.apply(o);
        prog.push_back(o);
    }
    // where (also before the first operation) and how to move; optionally a second move at the end
    int at = c.choose(L + 1) + P;
    if (at == P && pre && c.choose(2))
        at = c.choose(P);  // within the prologue
    Kind k = Kind(1 + c.choose(NKINDS - 1));
    Kind k2 = Kind(c.choose(3) == 2 ? THERE_AND_BACK : NONE);
    for (size_t i = 0; i < prog.size(); ++i) c.log("(%s%s)", opn[prog[i]], int(i) == at ? ", after the move" : "");
    g_alive = g_deleted = 0;
    Obs ref;
    {
        Session s(c, true);
        for (Op o : prog) s.op(o);
        s.finish();
        ref = s.obs;
    }
    if (g_alive)
        c.fail("%d callbacks not released without any move", g_alive);
    g_deleted = 0;
    uint64_t h = mc::mix(k, at);
    {
        MSession s(c, true);
        for (size_t i = 0; i <= prog.size(); ++i)
        {
            if (int(i) == at)
            {
                c.log("== %s", kn[k]);
                s.move(k);
            }
            if (i == prog.size())
                break;
            c.log("%s", opn[prog[i]]);
            s.op(prog[i]);
            c.step();
        }
        s.move(k2);
        s.finish();
        const Obs& o = s.obs;
        for (size_t i = 0; i < o.v.size() || i < ref.v.size(); ++i)
        {
            if (i >= o.v.size() || i >= ref.v.size() || o.n[i] != ref.n[i])
                c.fail("the moved session takes another course (observation %zu: %s)", i, i < o.v.size() ? o.n[i] : "none");
            if (!(o.v[i] == ref.v[i]) && !(o.v[i] != o.v[i] && ref.v[i] != ref.v[i]))
                c.fail("%s (observation %zu): %.17g, without the move %.17g", o.n[i], i, o.v[i], ref.v[i]);
        }
        uint64_t g = 3;
        for (double d : ref.v) g = mc::mix(g, mc::bits(d));
        c.state(g);
        c.outcome(mc::mix(g, h));
    }
    if (g_alive)
        c.fail("%d callbacks owned by tapes were never released", g_alive);
}

int main(int argc, char** argv)
{
    std::vector<mc::Space> S;
#ifdef LIGHT
    const int d = 1;
#else
    const int d = 0;
#endif
    S.push_back({"full", "20-operation sessions, every move kind at every point", body, 4 - d, 0, 3, 3});
    S.push_back({"mid", "recording, partial rollback and checkpoint sessions, every move kind at every point", body, 5 - d, 1, 3, 3});
    S.push_back({"slots", "registration and destruction sessions from an empty tape, every move kind at every point", body, 6 - d, 2, 3, 3});
    return mc::mainImpl(argc, argv, S);
}
