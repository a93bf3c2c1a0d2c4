// C15: every documented misuse, tried at every point of every session, raises the documented exception and
// leaves the session as if it had not been tried
#include "../lib/session.hpp"
#include <complex>
#include <typeinfo>

struct Probe
{
    const char* name;
    bool (*applies)(Session&);
    void (*call)(Session&);
    const std::type_info* expect;  // exact exception type
};
static const unsigned FAR_SLOT = 1000;
static bool always(Session&) { return true; }
static bool active(Session& s) { return s.t->isActive(); }
static bool inactive(Session& s) { return TP::getActive() == nullptr; }
static bool uninit(Session& s) { return !s.init; }
static bool noCallbacks(Session& s) { return s.t->getNumCallbacks() == 0; }
#ifndef NDEBUG
static bool initd(Session& s) { return s.init; }
#endif
// whether the first slot that has no derivative is the same for all accessors (not after
// clearDerivativesAfter, nor in a callback, nor where variables were registered since derivatives were last accessed)
static bool g_exact = false;
static bool exact(Session& s) { return s.init && g_exact; }
static unsigned firstBad(Session& s)
{
    for (unsigned k = 0;; ++k)
    {
        try
        {
            s.t->derivative(k);
        }
        catch (const xad::OutOfRange&)
        {
            return k;
        }
    }
}
struct BadCB : CB
{
    void computeAdjoint(TP*) override {}
};
static T& registered(Session& s)
{
    return s.x0->shouldRecord() ? *s.x0 : s.y0->shouldRecord() ? *s.y0 : *s.x1;
}
static std::vector<Probe> probes()
{
    const std::type_info &NI = typeid(xad::DerivativesNotInitialized), &OR = typeid(xad::OutOfRange), &TA = typeid(xad::TapeAlreadyActive),
                         &NT = typeid(xad::NoTapeException);
    std::vector<Probe> p = {
        {"computeAdjoints without derivatives", uninit, [](Session& s) { s.t->computeAdjoints(); }, &NI},
        {"derivative(out of range)", always, [](Session& s) { s.t->derivative(FAR_SLOT) = 1; }, &OR},
        {"derivative(INVALID_SLOT)", always, [](Session& s) { s.t->derivative(TP::INVALID_SLOT) = 1; }, &OR},
        {"setDerivative(out of range)", always, [](Session& s) { s.t->setDerivative(FAR_SLOT, 1.0); }, &OR},
        {"setDerivative(out of range, lvalue)", always, [](Session& s) { const double d = 1; s.t->setDerivative(FAR_SLOT, d); }, &OR},
        {"getAndResetOutputAdjoint(out of range)", always, [](Session& s) { s.t->getAndResetOutputAdjoint(FAR_SLOT); }, &OR},
        {"getAndResetOutputAdjoint(INVALID_SLOT)", always, [](Session& s) { s.t->getAndResetOutputAdjoint(TP::INVALID_SLOT); }, &OR},
        {"incrementAdjoint(out of range)", always, [](Session& s) { s.t->incrementAdjoint(FAR_SLOT, 1.0); }, &OR},
        {"incrementAdjoint(INVALID_SLOT)", always, [](Session& s) { s.t->incrementAdjoint(TP::INVALID_SLOT, 1.0); }, &OR},
        {"getAndResetOutputAdjoint(first slot out of range)", exact, [](Session& s) { s.t->getAndResetOutputAdjoint(firstBad(s)); }, &OR},
        {"incrementAdjoint(first slot out of range)", exact, [](Session& s) { s.t->incrementAdjoint(firstBad(s), 0.0); }, &OR},
        {"getLastCallback on the empty stack", noCallbacks, [](Session& s) { s.t->getLastCallback(); }, &OR},
        {"popCallback on the empty stack", noCallbacks, [](Session& s) { s.t->popCallback(); }, &OR},
        {"constructing an active tape", active, [](Session&) { TP x; }, &TA},
        {"activating another tape", active, [](Session&) { TP x(false); x.activate(); }, &TA},
        {"setActive of another tape", active, [](Session&) { TP x(false); TP::setActive(&x); }, &TA},
        {"derivative() of a registered variable without active tape", inactive, [](Session& s) { registered(s).derivative() = 1; }, &NT},
        {"const derivative() without active tape", inactive, [](Session& s) { const T& q = registered(s); (void)q.derivative(); }, &NT},
        {"getDerivative() without active tape", inactive, [](Session& s) { (void)registered(s).getDerivative(); }, &NT},
        {"setDerivative() without active tape", inactive, [](Session& s) { registered(s).setDerivative(1.0); }, &NT},
        {"getAdjoint() without active tape", inactive, [](Session& s) { (void)registered(s).getAdjoint(); }, &NT},
        {"setAdjoint() without active tape", inactive, [](Session& s) { registered(s).setAdjoint(1.0); }, &NT},
        {"xad::derivative() without active tape", inactive, [](Session& s) { xad::derivative(registered(s)) = 2.0; }, &NT},
        {"derivative() of an unregistered variable without active tape", inactive, [](Session&) { T q = 1.0; q.derivative() = 1; }, &NT},
        {"const derivative() of an unregistered variable without active tape", inactive, [](Session&) { const T q = 1.0; (void)q.derivative(); }, &NT},
        {"derivative of a complex variable without active tape", inactive, [](Session&) { std::complex<T> z(1.0, 2.0); (void)xad::derivative(z); }, &NT},
    };
#ifndef NDEBUG
    p.push_back({"const derivative() without derivatives", uninit, [](Session& s) { const TP& t = *s.t; (void)t.derivative(0); }, nullptr});
    p.push_back({"getDerivative() without derivatives", uninit, [](Session& s) { const TP& t = *s.t; (void)t.getDerivative(0); }, nullptr});
    p.push_back({"const derivative(out of range)", initd, [](Session& s) { const TP& t = *s.t; (void)t.derivative(FAR_SLOT); }, &OR});
    p.push_back({"getDerivative(out of range)", initd, [](Session& s) { const TP& t = *s.t; (void)t.getDerivative(FAR_SLOT); }, &OR});
#endif
    return p;
}
static const std::vector<Probe> PR = probes();

static void tryProbe(Ctx& c, Session& s, const Probe& p)
{
    if (!p.applies(s))
        return;
    int alive = g_alive;
    bool thrown = false;
    try
    {
        p.call(s);
    }
    catch (xad::Exception& e)
    {
        thrown = true;
        if (!dynamic_cast<std::runtime_error*>(&e) || !e.what() || !e.what()[0])
            c.fail("%s: the exception is no runtime_error with a message", p.name);
        // either documented type where both conditions hold
        bool ok = p.expect ? typeid(e) == *p.expect : typeid(e) == typeid(xad::DerivativesNotInitialized) || typeid(e) == typeid(xad::OutOfRange);
        if (!ok)
            c.fail("%s raises %s (%s)", p.name, typeid(e).name(), e.what());
    }
    catch (mc::Violation&)
    {
        throw;
    }
    catch (std::exception& e)
    {
        c.fail("%s raises %s, which is not an xad exception", p.name, typeid(e).name());
    }
    if (!thrown)
        c.fail("%s raises no exception", p.name);
    if (g_alive != alive)
        c.fail("%s destroys a callback", p.name);
    c.step();
}

static void body(Ctx& c)
{
    int L = c.param + (c.tier ? 1 : 0);
    static const std::vector<Op> FULL = {REG0, NEWREC, S0, S1, S2, KILL0, SEED0, SEED1, BACK, CLRD, MARK, BACKTO, RESET, CLRAFTER, CHK, PUSHCB, POPCB, DEACT, ACT, CLEARALL};
    static const std::vector<Op> MID = {NEWREC, S1, SEED1, BACK, CLRD, MARK, BACKTO, CLRAFTER, DEACT, ACT};
    const std::vector<Op>& A = c.param2 == 1 ? MID : FULL;
    bool pre = c.param2 != 2;
    Abs a;
    a.active = true;
    std::vector<Op> prog;
    if (pre)
        for (Op o : {REG0, REG1, NEWREC, S0})
        {
            a.apply(o);
            prog.push_back(o);
        }
    for (int s = 0; s < L; ++s)
    {
        std::vector<Op> en;
        for (Op o : A)
            if (a.enabled(o))
                en.push_back(o);
        Op o = en[c.choose(int(en.size()))];
        a.apply(o);
        prog.push_back(o);
    }
    int which = c.choose(int(PR.size()) + 1) - 1;  // -1: all of them
    for (size_t i = 0; i < prog.size(); ++i) c.log("%s", opn[prog[i]]);
    c.log("probe: %s", which < 0 ? "all" : PR[which].name);
    static std::vector<Op> lastProg;
    static Obs ref;
    if (lastProg != prog || c.tracing())
    {
        Session s(c, true);
        for (Op o : prog) s.op(o);
        s.finish();
        ref = s.obs;
        lastProg = prog;
    }
    g_alive = 0;
    {
        Session s(c, true);
        struct Unhook
        {
            ~Unhook() { g_hook = nullptr; }
        } unhook;
        g_hook = [&](int stage)
        {
            bool was = s.init, ex = g_exact;
            g_exact = false;
            s.init = stage != 1;
            for (size_t k = 0; k < PR.size(); ++k)
                if (which < 0 || int(k) == which)
                    tryProbe(c, s, PR[k]);
            s.init = was;
            g_exact = ex;
        };
        g_exact = false;
        bool lowered = false;
        for (size_t i = 0; i <= prog.size(); ++i)
        {
            for (size_t k = 0; k < PR.size(); ++k)
                if (which < 0 || int(k) == which)
                    tryProbe(c, s, PR[k]);
            if (i < prog.size())
            {
                s.op(prog[i]);
                if (prog[i] == CLRAFTER)
                    lowered = true;
                else if (prog[i] == NEWREC || prog[i] == CLEARALL)
                    lowered = false;
                g_exact = !lowered && (prog[i] == SEED0 || prog[i] == SEED1);  // all derivatives are in place then
                c.step();
            }
        }
        s.finish();
        const Obs& o = s.obs;
        for (size_t i = 0; i < o.v.size() || i < ref.v.size(); ++i)
        {
            if (i >= o.v.size() || i >= ref.v.size() || o.n[i] != ref.n[i])
                c.fail("after the failed calls the session takes another course (observation %zu: %s)", i, i < o.v.size() ? o.n[i] : "none");
            if (!(o.v[i] == ref.v[i]) && !(o.v[i] != o.v[i] && ref.v[i] != ref.v[i]))
                c.fail("%s (observation %zu): %.17g, without the failed calls %.17g", o.n[i], i, o.v[i], ref.v[i]);
        }
        uint64_t g = 3;
        for (double d : ref.v) g = mc::mix(g, mc::bits(d));
        c.state(g);
        c.outcome(mc::mix(g, which));
    }
}

int main(int argc, char** argv)
{
    std::vector<mc::Space> S;
#ifdef LIGHT
    const int d = 1;
#else
    const int d = 0;
#endif
    S.push_back({"full", "20-operation sessions, every misuse at every point", body, 4 - d, 0, 3, 3});
    S.push_back({"mid", "seeding, clearing and activation sessions, every misuse at every point", body, 5 - d, 1, 3, 3});
    S.push_back({"empty", "20-operation sessions from a new tape", body, 4 - d, 2, 3, 3});
    return mc::mainImpl(argc, argv, S);
}
