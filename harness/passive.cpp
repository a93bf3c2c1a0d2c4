// C17: only operations that involve registered variables are recorded
#include "../lib/prog.hpp"
#include <memory>
#include <sstream>
using namespace prog;
typedef mc::Ctx Ctx;
#ifndef REAL
#define REAL double
#endif
typedef REAL R;
typedef xad::AReal<R> T;
typedef xad::Tape<R> TP;
static const int K = 3;

// upper bounds on the statements and operations an instruction may add: occurrences of registered variables
struct Cost
{
    int st, op;
};
static Cost cost(const Op& o, const Model<1, K>& m)
{
    int a = m.v[o.i].alive && m.v[o.i].reg, b = m.v[o.j].reg, c = m.v[o.k].reg;
    int r = b || c, s = a || b, w = a || r;
    switch (o.code)
    {
        case CONST: return {a, 0};
        case COPY: return {s, b};
        case MOVE: case SWAP: case DESTROY: case CTOR_DEF: case CTOR_CONST: case CTOR_MOVE: return {0, 0};
        case CTOR_COPY: return {b, b};
        case CTOR_MUL: return {r, b + c};
        case ADD: case SUB: case MUL: case LIN: case MAXF: return {w, b + c};
        case ADDS: case SADD: case SUBS: case SSUB: case MULS: case SMUL: case DIVS: case NEG: case POS: return {s, b};
        case FMA: return {w, 2 * b + c};
        case DIFFSQ: case NEST: case AUTO: case WIDE: return {w, 2 * b + 2 * c};
        case TMP: return {b + w, 2 * b + c};
        case TMPEXPR: return {r + c + w, b + c + c + r + c};
        case PADD: case PSUB: case PMUL: return {s, a + b};
        case PADDS: case PSUBS: case PADDI: return {a, a};
        case PMULS: case PDIVS: case PMULI: case INC: case DEC: return {a, a};
        case PADDE: case PMULE: return {w, a + b + c};
        case POSTINC: case POSTDEC: return {2 * b, 2 * b};
        case FUNC: return {b + r + r, b + b + c + r + b};
        case VEC: return {b + 2 * c + c + w, b + 2 * c + 2 * c + 2 * c};
        case COND:
            if (m.v[o.j].x.val() > m.v[o.k].x.val())
                return {s, b};
            return {a || c, c};
        case PASSVAL: return {a || c, c};
        case SQR: return {s, 3 * b};
    }
    return {99, 99};
}

static std::vector<int> codesOf(int id)
{
    if (id == 0)
        return allCodes();
    if (id == 2)
        return {CONST, COPY, MOVE, DESTROY, CTOR_COPY, MUL, PADD};
    return {CONST, COPY, MOVE, SWAP, DESTROY, CTOR_CONST, CTOR_COPY, CTOR_MOVE, ADD, PADD, PMULS, FUNC};
}
static const std::vector<Op>& alphabetOf(int id)
{
    static std::vector<Op> cache[4];
    if (cache[id].empty())
        cache[id] = alphabet(K, codesOf(id));
    return cache[id];
}

static void body(Ctx& c)
{
    int alph = c.param / 100, depth = c.param % 100 + (c.tier && c.param2 ? 1 : 0);
    const auto& al = alphabetOf(alph);
    // 0: no tape at all; 1: tapes exist but none is active; 2..: active tape with inputs registered by mask
    int world = c.choose(5);
    int mask = world >= 2 ? world - 2 : 0;  // 0 none, 1 first, 2 second
    std::unique_ptr<TP> t1, t2;
    if (world == 1)
    {
        t1.reset(new TP);
        t2.reset(new TP(false));
        t1->deactivate();
    }
    else if (world >= 2)
        t1.reset(new TP);
    Pool<T, K> p;
    Model<1, K> m;
    const double x0 = 2, x1 = -3;
    p.make(0, R(x0));
    p.make(1, R(x1));
    for (int i = 0; i < 2; ++i)
    {
        m.v[i].alive = m.v[i].valid = true;
        m.v[i].x = Jet<1>(i ? x1 : x0);
        if (mask >> i & 1)
        {
            t1->registerInput(p[i]);
            m.v[i].reg = true;
        }
    }
    if (t1)
        t1->newRecording();
    c.log("%s", world == 0 ? "no tape" : world == 1 ? "no active tape" : mask == 0 ? "nothing registered" : mask == 1 ? "x0 registered" : "x1 registered");
    for (int d = 0; d < depth; ++d)
    {
        const Op* o = chooseOp(c, al, m, false);
        if (!o)
            break;
        c.log("%s", show(*o).c_str());
        Cost k = cost(*o, m);
        unsigned st = t1 ? t1->getNumStatements() : 0, op = t1 ? t1->getNumOperations() : 0;
        p.apply(*o);
        m.apply(*o);
        c.step();
        c.state(mc::mix(m.hash(), world));
        int dst = t1 ? int(t1->getNumStatements()) - int(st) : 0, dop = t1 ? int(t1->getNumOperations()) - int(op) : 0;
        if (m.big > 1e14 || (sizeof(R) == 4 && m.big > 1e5))
            throw mc::Cut();
        if (dst < 0 || dop < 0 || dst > k.st)
            c.fail("%s adds %d statements, expected at most %d", show(*o).c_str(), dst, k.st);
        if (dop > k.op)
            c.fail("%s adds %d operations, it has %d occurrences of registered variables", show(*o).c_str(), dop, k.op);
        unsigned nreg = 0;
        for (int i = 0; i < K; ++i)
        {
            if (!m.v[i].alive)
                continue;
            nreg += p[i].shouldRecord();
            if (m.v[i].valid && p[i].shouldRecord() && !m.v[i].reg)
                c.fail("v%d has no registered ancestor but is registered", i);
            if (m.v[i].valid)
                c.expectEq(xad::value(p[i]), m.v[i].x.val(), "value of variable", i);
        }
        if (t1 && t1->getNumVariables() != nreg)
            c.fail("the tape counts %u variables, %u are registered", t1->getNumVariables(), nreg);
        if (t2 && (t2->getNumStatements() || t2->getNumVariables()))
            c.fail("an inactive tape recorded something");
    }
    if (t1 && t1->isActive())
    {
        unsigned st = t1->getNumStatements(), nv = t1->getNumVariables();
        for (int i = 0; i < K; ++i)
            if (m.v[i].alive && m.v[i].valid && !p[i].shouldRecord())
            {
                const T& q = p[i];
                if (q.getDerivative() != R(0) || q.derivative() != R(0) || q.getAdjoint() != R(0) || xad::derivative(q) != R(0))
                    c.fail("the derivative of the unregistered v%d is not zero", i);
                // reading through every passive route records nothing
                std::ostringstream os;
                os << q;
                (void)(q > R(1));
                (void)(q + R(1) == q);
                (void)xad::isnan(q);
                (void)xad::floor(q);
                if (q.shouldRecord())
                    c.fail("reading the unregistered v%d registers it", i);
            }
            else if (m.v[i].alive && m.v[i].valid)
            {
                const T& q = p[i];
                std::ostringstream os;
                os << q;
                (void)(q > R(1));
                (void)(q * q == q);
                (void)xad::isfinite(q * R(2));
                (void)xad::value(q);
                auto e = q * q + xad::sin(q);  // an expression that is never assigned
                (void)e;
                (void)xad::value(e);
                t1->registerInput(p[i]);  // registered already: nothing happens
                t1->registerOutput(p[i]);
            }
        if (t1->getNumStatements() != st || t1->getNumVariables() != nv)
            c.fail("reading, comparing and printing variables changes the tape");
    }
    c.outcome(mc::mix(m.hash(), world));
}

int main(int argc, char** argv)
{
    std::vector<mc::Space> S;
    S.push_back({"all-ops", "51-operation programs with none, one or other input registered, with and without tapes", body, 2, 1, 2, 3});
    S.push_back({"life-cycle", "12-operation programs, longer", body, 104, 0, 2, 3});
    S.push_back({"basic", "7-operation programs, longer", body, 204, 1, 2, 3});
    return mc::mainImpl(argc, argv, S);
}
