// C19: size accounting; cycles of recording and rolling back do not grow
#include "../lib/mc.hpp"
#include <XAD/XAD.hpp>
#include <memory>
typedef mc::Ctx Ctx;
typedef xad::AReal<double> T;
typedef xad::Tape<double> TP;
typedef xad::CheckpointCallback<TP> CB;

struct Seg : CB
{
    unsigned a, o;
    int kind;  // 0 analytic, 1 nested, 2 nested with a checkpoint of its own
    void computeAdjoint(TP* t) override
    {
        double adj = t->getAndResetOutputAdjoint(o);
        if (kind == 0)
        {
            t->incrementAdjoint(a, 4 * adj);
            return;
        }
        T p = 2.0;
        t->registerInput(p);
        double d;
        {
            xad::ScopedNestedRecording<TP> n(t);
            T q = p * p;
            T r = q + p * 1.0;
            T s = r - p;
            t->registerOutput(s);
            Seg in;
            if (kind == 2)
            {
                in.kind = 1;
                in.a = s.getSlot();
                T u = 3.0;
                t->registerOutput(u);
                in.o = u.getSlot();
                t->insertCallback(&in);
                s = s + u * 0.0;
            }
            s.setDerivative(adj);
            n.computeAdjoints();
            d = p.getDerivative();
        }
        t->incrementAdjoint(a, d);
    }
};

enum Op
{
    TMUL,    // new temporary t = x*x
    TCHAIN,  // new temporary t = last*y + x
    UPD,     // last = last*2 + x
    POP,     // destroy the last temporary
    SHIFT,   // destroy the first temporary (slot reuse only)
    CHK0,
    CHK1,
    CHK2,
    ROLL,
    ROLLTO,
    MARK,
    RESET,
    CLRD,
    PASSIVE,
    CONSTANT,  // last = 3
    COPYMOVE,  // copy of last, moved into a vector that reallocates
    NOPS
};
static const char* opn[] = {"t = x*x", "t = last*y + x", "last = last*2 + x", "destroy last", "destroy first", "analytic checkpoint", "nested checkpoint",
                            "checkpoint with nested checkpoint", "seed, computeAdjoints", "seed, computeAdjointsTo(mark)", "mark", "resetTo(mark)", "clearDerivatives",
                            "passive arithmetic", "last = 3", "copies moved around"};
struct Sizes
{
    unsigned st, op, vars, reus;
    size_t mem;
    bool operator==(const Sizes& o) const { return st == o.st && op == o.op && vars == o.vars && reus == o.reus && mem == o.mem; }
};

static void body(Ctx& c)
{
    int L = c.param + (c.tier ? 1 : 0);
    static const std::vector<Op> FULL = {TMUL, TCHAIN, UPD, POP, CHK0, CHK1, CHK2, ROLL, ROLLTO, MARK, RESET, CLRD, PASSIVE, CONSTANT, COPYMOVE,
#ifdef XAD_TAPE_REUSE_SLOTS
                                         SHIFT
#endif
    };
    static const std::vector<Op> MID = {TMUL, TCHAIN, UPD, POP, CHK1, ROLL, MARK, RESET,
#ifdef XAD_TAPE_REUSE_SLOTS
                                        SHIFT
#endif
    };
    const std::vector<Op>& A = c.param2 ? MID : FULL;
    int kind = c.choose(3);  // 0 newRecording, 1 resetTo, 2 clearAll
    std::vector<Op> prog;
    {
        int n = 0, nm = 0;
        bool marked = false;
        for (int i = 0; i < L; ++i)
        {
            std::vector<Op> en;
            for (Op o : A)
            {
                bool ok = true;
                switch (o)
                {
                    case TCHAIN:
                    case UPD:
                    case POP:
                    case CONSTANT:
                    case COPYMOVE:
                    case CHK0:
                    case CHK1:
                    case CHK2:
                    case ROLL: ok = n > 0; break;
                    case SHIFT: ok = n > 1; break;
                    case ROLLTO: ok = marked && n > 0; break;
                    case RESET: ok = marked; break;
                    default: break;
                }
                if (ok)
                    en.push_back(o);
            }
            Op o = en[c.choose(int(en.size()))];
            prog.push_back(o);
            switch (o)
            {
                case TMUL:
                case TCHAIN:
                case CHK0:
                case CHK1:
                case CHK2: ++n; break;
                case POP:
                case SHIFT:
                    --n;
                    nm = std::min(nm, n);
                    break;
                case MARK:
                    marked = true;
                    nm = n;
                    break;
                case RESET: n = std::min(n, nm); break;
                default: break;
            }
        }
    }
    static const char* kindName[] = {"newRecording", "resetTo(start)", "clearAll"};
    c.log("cycles of: %s", kindName[kind]);
    TP tape;
    std::unique_ptr<T> x, y;
    std::vector<std::unique_ptr<Seg>> segs;
    auto inputs = [&]()
    {
        x.reset(new T(2));
        y.reset(new T(3));
        tape.registerInput(*x);
        tape.registerInput(*y);
        tape.newRecording();
    };
    inputs();
    if (tape.getNumStatements() != 0 || tape.getNumOperations() != 0 || tape.getNumVariables() != 2)
        c.fail("after newRecording: %u statements, %u operations, %u variables", tape.getNumStatements(), tape.getNumOperations(), tape.getNumVariables());
    if (kind == 1)
    {
        // something before the position the cycles are reset to
        *y = *y * *x;
        *y = *y * 2.0 + *x;
    }
    unsigned start = tape.getPosition();
    const unsigned baseSt = kind == 1 ? 2 : 0;
    const unsigned baseOp = kind == 1 ? 4 : 0;
    const int CYC = 5;
    std::vector<Sizes> rec[CYC];
    for (int cyc = 0; cyc < CYC; ++cyc)
    {
        if (cyc > 0)
        {
            if (kind == 0)
                tape.newRecording();
            else if (kind == 1)
                tape.resetTo(start);
            else
            {
                y.reset();
                x.reset();
                tape.clearAll();
                inputs();
            }
        }
        // model: cumulative operation count after each statement, and which statements are checkpoints
        std::vector<unsigned> ops(baseSt + 1, 0);
        std::vector<bool> chk(baseSt + 1, false);
        if (kind == 1)
        {
            ops[1] = 2;
            ops[2] = 4;
        }
        unsigned vars = 2;
        std::vector<std::unique_ptr<T>> tmp;
        unsigned mark = 0, markTmp = 0;
        auto stmt = [&](unsigned n) { ops.push_back(ops.back() + n); chk.push_back(false); };
        auto truncate = [&](size_t n) { if (ops.size() > n) { ops.resize(n); chk.resize(n); } };
        auto snapshot = [&](const char* what)
        {
            Sizes s{tape.getNumStatements(), tape.getNumOperations(), tape.getNumVariables(), tape.getNumReusableSlots(), tape.getMemory()};
            if (s.st != ops.size() - 1)
                c.fail("cycle %d, after \"%s\": %u statements, expected %zu", cyc, what, s.st, ops.size() - 1);
            if (s.op != ops.back())
                c.fail("cycle %d, after \"%s\": %u operations, expected %u", cyc, what, s.op, ops.back());
            if (s.vars != vars)
                c.fail("cycle %d, after \"%s\": %u variables, expected %u", cyc, what, s.vars, vars);
            if (tape.getPosition() != baseSt + (ops.size() - 1 - baseSt))
                c.fail("cycle %d, after \"%s\": position %u, expected %zu", cyc, what, tape.getPosition(), ops.size() - 1);
            rec[cyc].push_back(s);
        };
        snapshot(kindName[kind]);
        for (Op o : prog)
        {
            c.step();
            if (cyc == 0)
                c.log("%s", opn[o]);
            switch (o)
            {
                case TMUL:
                    tmp.emplace_back(new T(*x * *x));
                    stmt(2);
                    ++vars;
                    break;
                case TCHAIN:
                    tmp.emplace_back(new T(*tmp.back() * *y + *x));
                    stmt(3);
                    ++vars;
                    break;
                case UPD:
                    *tmp.back() = *tmp.back() * 2.0 + *x;
                    stmt(2);
                    break;
                case POP:
                    tmp.pop_back();
                    --vars;
                    markTmp = std::min<unsigned>(markTmp, unsigned(tmp.size()));
                    break;
                case SHIFT:
                    tmp.erase(tmp.begin());
                    --vars;
                    markTmp = std::min<unsigned>(markTmp, unsigned(tmp.size()));
                    break;
                case CHK0:
                case CHK1:
                case CHK2:
                {
                    std::unique_ptr<Seg> s(new Seg);
                    s->kind = o - CHK0;
                    s->a = tmp.back()->getSlot();
                    tmp.emplace_back(new T(tmp.back()->getValue() * 4));
                    tape.registerOutput(*tmp.back());
                    stmt(0);
                    ++vars;
                    s->o = tmp.back()->getSlot();
                    tape.insertCallback(s.get());
                    segs.push_back(std::move(s));
                    stmt(0);
                    chk.back() = true;
                    break;
                }
                case ROLL:
                case ROLLTO:
                {
                    tape.derivative(tmp.back()->getSlot()) = 1.0;
                    unsigned to = o == ROLL ? 0 : mark;
                    if (o == ROLL)
                        tape.computeAdjoints();
                    else
                        tape.computeAdjointsTo(mark);
                    // the tape is consumed up to the earliest checkpoint passed
                    for (size_t i = to + 1; i < chk.size(); ++i)
                        if (chk[i])
                        {
                            truncate(i);
                            break;
                        }
                    break;
                }
                case MARK:
                    mark = tape.getPosition();
                    markTmp = unsigned(tmp.size());
                    break;
                case RESET:
                    while (tmp.size() > markTmp)
                    {
                        tmp.pop_back();
                        --vars;
                    }
                    tape.resetTo(mark);
                    truncate(mark + 1);
                    break;
                case CLRD: tape.clearDerivatives(); break;
                case PASSIVE:
                {
                    T p = 3.0, q = p * p + 1.0, r(q);
                    r += q;
                    r = xad::sin(p) + p;
                    q = std::move(r);
                    q *= 2.0;
                    break;
                }
                case CONSTANT:
                    *tmp.back() = 3.0;
                    stmt(0);
                    break;
                case COPYMOVE:
                {
                    T p(*tmp.back());
                    stmt(1);
                    {
                        std::vector<T> v;
                        v.push_back(std::move(p));
                        v.emplace_back(1.0);
                        v.emplace_back(2.0);
                        T z = std::move(v[0]);
                    }
                    break;
                }
                default: break;
            }
            snapshot(opn[o]);
        }
        while (!tmp.empty())
        {
            tmp.pop_back();
            --vars;
        }
        snapshot("end of the cycle");
        uint64_t h = kind;
        for (auto& s : rec[cyc]) h = mc::mix(h, (uint64_t(s.st) << 40) + (uint64_t(s.op) << 20) + s.mem);
        c.state(h);
    }
    for (size_t i = 0; i < rec[0].size(); ++i)
    {
        for (int k = 2; k < CYC; ++k)
        {
            // the storage of the derivatives reaches its final size when the cycle has been through twice
            const Sizes &p = rec[k == 2 ? 1 : 2][i], &q = rec[k][i];
            if (p.st != q.st || p.op != q.op || p.vars != q.vars || p.reus != q.reus || (k > 2 && p.mem != q.mem))
                c.fail("step %zu: cycle %d has %u statements, %u operations, %u variables, %u reusable slots, %zu bytes; before: %u, %u, %u, %u, %zu", i, k, q.st, q.op,
                       q.vars, q.reus, q.mem, p.st, p.op, p.vars, p.reus, p.mem);
        }
        if (kind == 2 && !(rec[1][i] == rec[0][i]))
            c.fail("step %zu: after clearAll() the cycle has %zu bytes, %u reusable slots; on the new tape it had %zu, %u", i, rec[1][i].mem, rec[1][i].reus, rec[0][i].mem,
                   rec[0][i].reus);
    }
    c.outcome(mc::mix(kind, rec[1].back().mem + 1000 * rec[1].back().st));
}

int main(int argc, char** argv)
{
    std::vector<mc::Space> S;
#ifdef LIGHT
    const int d = 1;
#else
    const int d = 0;
#endif
    S.push_back({"cycles", "every cycle body over all operations, repeated 4 times with 3 kinds of restart", body, 6 - d, 0, 3, 3});
    S.push_back({"cycles-long", "longer cycle bodies over 8-9 operations", body, 8 - d, 1, 3, 3});
    return mc::mainImpl(argc, argv, S);
}
