// C18: ownership of checkpoint callbacks under every session
#include "../lib/mc.hpp"
#include <XAD/XAD.hpp>
#include <memory>
typedef mc::Ctx Ctx;
typedef xad::AReal<double> T;
typedef xad::Tape<double> TP;
typedef xad::CheckpointCallback<TP> CB;

struct World;
static World* W;
struct Node : CB
{
    int id;
    explicit Node(int i) : id(i) {}
    ~Node();
    void computeAdjoint(TP* t) override;
};
struct World
{
    std::vector<Node*> node;         // live objects by id, null when destroyed
    std::vector<int> deleted;        // how often each was destroyed
    std::vector<int> invoked;
    std::vector<bool> userOwned;     // never owned by a tape any more
    std::unique_ptr<TP> t[2];
    std::vector<int> stack[2];       // model
    std::vector<int> inserted[2];    // in the current recording
    std::vector<int> expectCalls;
    unsigned slotOut = 0, slotIn = 0;
    int cur = 0;
    Ctx* c;
    World() { W = this; }
};
Node::~Node()
{
    W->deleted[id]++;
    W->node[id] = nullptr;
}
void Node::computeAdjoint(TP* t)
{
    W->invoked.push_back(id);
    if (t != W->t[W->cur].get())
        W->c->fail("callback %d is invoked with another tape", id);
    double a = t->getAndResetOutputAdjoint(W->slotOut);
    t->incrementAdjoint(W->slotIn, a);
}

enum Op
{
    PUSH,
    PUSH_INSERT,
    INSERT,
    REINSERT_LAST,
    POP_DELETE,
    POP_KEEP,
    LAST,
    ROLL,
    RESET,
    MARK,
    NEWREC,
    CLEARALL,
    CLEARD,
    DESTROY,
    MOVECTOR,
    MOVEASSIGN,
    SWAP,
    SWITCH,
    STMT,
    NOPS
};
static const char* opn[] = {"pushCallback(new)", "pushCallback(new) and insertCallback", "insertCallback(own, not pushed)", "insertCallback(getLastCallback())",
                            "pop and delete", "pop and keep", "getLastCallback", "seed and roll back", "resetTo(mark)", "mark", "newRecording", "clearAll",
                            "clearDerivatives", "destroy the tape and create a new one", "move-construct", "move-assign to the other tape", "std::swap with the other tape",
                            "switch to the other tape", "record a statement"};

static void body(Ctx& c)
{
    int L = c.param + (c.tier ? 1 : 0);
    static const std::vector<Op> FULL = {PUSH, PUSH_INSERT, INSERT, REINSERT_LAST, POP_DELETE, POP_KEEP, LAST, ROLL, RESET, MARK, NEWREC, CLEARALL, DESTROY, MOVECTOR, MOVEASSIGN, SWAP, SWITCH, STMT};
    static const std::vector<Op> OWN = {PUSH, PUSH_INSERT, POP_DELETE, POP_KEEP, ROLL, DESTROY, MOVECTOR, MOVEASSIGN, SWITCH};
    const std::vector<Op>& A = c.param2 ? OWN : FULL;
    World w;
    w.c = &c;
    std::unique_ptr<T> x;
    unsigned mark = 0;
    bool marked = false;
    std::vector<int> markIns;
    auto mk = [&]()
    {
        int id = int(w.node.size());
        w.node.push_back(new Node(id));
        w.deleted.push_back(0);
        w.userOwned.push_back(false);
        return id;
    };
    auto begin = [&]()
    {
        TP& t = *w.t[w.cur];
        if (!t.isActive())
            t.activate();
        x.reset();
        x.reset(new T(1));
        t.registerInput(*x);
        w.slotIn = w.slotOut = x->getSlot();
        t.newRecording();
        w.inserted[w.cur].clear();
        marked = false;
    };
    auto tapeGone = [&](std::vector<int> st, const std::vector<int>& before, const char* when)
    {
        for (int id : st)
            if (w.deleted[id] != 1)
                c.fail("callback %d is destroyed %d times when its tape is %s", id, w.deleted[id], when);
        for (size_t i = 0; i < before.size(); ++i)
            if (w.deleted[i] != before[i] && std::find(st.begin(), st.end(), int(i)) == st.end())
                c.fail("callback %zu is destroyed although it is not on the tape's stack", i);
    };
    w.t[0].reset(new TP(false));
    w.t[1].reset(new TP(false));
    begin();
    for (int s = 0; s < L; ++s)
    {
        Op o = A[c.choose(int(A.size()))];
        c.log("%s", opn[o]);
        c.step();
        TP& t = *w.t[w.cur];
        auto& st = w.stack[w.cur];
        auto& ins = w.inserted[w.cur];
        std::vector<int> before = w.deleted;
        bool mayDelete = false;
        switch (o)
        {
            case PUSH:
            {
                int i = mk();
                t.pushCallback(w.node[i]);
                st.push_back(i);
                break;
            }
            case PUSH_INSERT:
            {
                int i = mk();
                t.pushCallback(w.node[i]);
                t.insertCallback(w.node[i]);
                st.push_back(i);
                ins.push_back(i);
                break;
            }
            case INSERT:
            {
                int i = mk();
                w.userOwned[i] = true;
                t.insertCallback(w.node[i]);
                ins.push_back(i);
                break;
            }
            case REINSERT_LAST:
                if (st.empty())
                    throw mc::Cut();
                t.insertCallback(t.getLastCallback());
                ins.push_back(st.back());
                break;
            case POP_DELETE:
            case POP_KEEP:
            {
                bool thrown = false;
                try
                {
                    CB* l = st.empty() ? nullptr : t.getLastCallback();
                    t.popCallback();
                    if (!st.empty() && static_cast<Node*>(l)->id != st.back())
                        c.fail("getLastCallback() gives callback %d, expected %d", static_cast<Node*>(l)->id, st.back());
                }
                catch (xad::OutOfRange&)
                {
                    thrown = true;
                }
                if (thrown != st.empty())
                    c.fail("popCallback() %s", thrown ? "throws" : "does not throw on an empty stack");
                if (thrown)
                    break;
                int i = st.back();
                st.pop_back();
                if (w.deleted[i])
                    c.fail("popping destroys callback %d", i);
                w.userOwned[i] = true;
                if (o == POP_DELETE && std::find(ins.begin(), ins.end(), i) == ins.end())
                {
                    mayDelete = true;
                    delete w.node[i];
                }
                break;
            }
            case LAST:
            {
                bool thrown = false;
                CB* l = nullptr;
                try
                {
                    l = t.getLastCallback();
                }
                catch (xad::OutOfRange&)
                {
                    thrown = true;
                }
                if (thrown != st.empty() || (!thrown && static_cast<Node*>(l)->id != st.back()))
                    c.fail("getLastCallback() is wrong for a stack of %zu", st.size());
                break;
            }
            case ROLL:
            {
                w.invoked.clear();
                t.derivative(w.slotOut) = 1.0;
                t.computeAdjoints();
                std::vector<int> want(ins.rbegin(), ins.rend());
                if (w.invoked != want)
                    c.fail("%zu callbacks invoked, expected %zu in reverse order of insertion", w.invoked.size(), want.size());
                ins.clear();
                if (marked)
                    markIns.clear();
                marked = false;
                break;
            }
            case MARK:
                mark = t.getPosition();
                markIns = ins;
                marked = true;
                break;
            case RESET:
                if (!marked)
                    throw mc::Cut();
                t.resetTo(mark);
                ins = markIns;
                break;
            case NEWREC:
                t.newRecording();
                ins.clear();
                marked = false;
                break;
            case CLEARALL:
                x.reset();
                t.clearAll();
                ins.clear();
                begin();
                break;
            case CLEARD: t.clearDerivatives(); break;
            case DESTROY:
            {
                mayDelete = true;
                std::vector<int> gone = st;
                st.clear();
                w.t[w.cur].reset();
                tapeGone(gone, before, "destroyed");
                w.t[w.cur].reset(new TP(false));
                begin();
                break;
            }
            case MOVECTOR:
            {
                std::unique_ptr<TP> n(new TP(std::move(t)));
                if (w.deleted != before)
                    c.fail("move construction destroys a callback");
                w.t[w.cur] = std::move(n);
                break;
            }
            case MOVEASSIGN:
            {
                mayDelete = true;
                std::vector<int> gone = w.stack[1 - w.cur];
                *w.t[1 - w.cur] = std::move(t);
                tapeGone(gone, before, "assigned to");
                w.stack[1 - w.cur] = st;
                st.clear();
                w.inserted[1 - w.cur] = ins;
                ins.clear();
                w.t[w.cur].reset(new TP(false));
                w.cur = 1 - w.cur;
                break;
            }
            case SWAP:
                std::swap(*w.t[0], *w.t[1]);
                std::swap(w.stack[0], w.stack[1]);
                std::swap(w.inserted[0], w.inserted[1]);
                w.cur = 1 - w.cur;
                break;
            case SWITCH:
                x.reset();
                t.deactivate();
                w.cur = 1 - w.cur;
                begin();
                break;
            case STMT: *x = 1.0 * *x; break;
            default: break;
        }
        if (!mayDelete && !std::equal(before.begin(), before.end(), w.deleted.begin()))
            c.fail("\"%s\" destroys a callback", opn[o]);
        uint64_t h = w.cur;
        for (int k = 0; k < 2; ++k)
        {
            if (w.t[k]->getNumCallbacks() != w.stack[k].size() || w.t[k]->haveCallbacks() == w.stack[k].empty())
                c.fail("tape %d reports %u callbacks, expected %zu", k, w.t[k]->getNumCallbacks(), w.stack[k].size());
            if (!w.stack[k].empty() && static_cast<Node*>(w.t[k]->getLastCallback())->id != w.stack[k].back())
                c.fail("tape %d: wrong callback on top of the stack", k);
            h = mc::mix(h, w.stack[k].size());
            h = mc::mix(h, w.inserted[k].size());
            for (int i : w.inserted[k]) h = mc::mix(h, std::find(w.stack[k].begin(), w.stack[k].end(), i) - w.stack[k].begin());
        }
        c.state(mc::mix(h, marked));
    }
    x.reset();
    uint64_t h = 0;
    for (int k = 0; k < 2; ++k)
    {
        std::vector<int> before = w.deleted;
        w.t[k].reset();
        tapeGone(w.stack[k], before, "destroyed at the end");
    }
    for (size_t i = 0; i < w.node.size(); ++i)
    {
        h = mc::mix(h, w.userOwned[i]);
        if (w.node[i] && !w.userOwned[i])
            c.fail("callback %zu was pushed, never popped and is not destroyed with its tape", i);
        delete w.node[i];
    }
    c.outcome(h);
}

int main(int argc, char** argv)
{
    std::vector<mc::Space> S;
#ifdef LIGHT
    const int d = 1;
#else
    const int d = 0;
#endif
    S.push_back({"sessions", "18-operation sessions on two tapes", body, 6 - d, 0, 3, 3});
    S.push_back({"ownership", "9 ownership-relevant operations, longer", body, 7 - d, 1, 3, 3});
    return mc::mainImpl(argc, argv, S);
}
