// C01 (reverse), C02 (forward), selected by -DHARNESS_FWD; element type by -DREAL
#include "../lib/prog.hpp"
#ifndef REAL
#define REAL double
#endif
using namespace prog;
typedef mc::Ctx Ctx;

static std::vector<int> codesOf(int id)
{
    switch (id)
    {
        case 0: return allCodes();
        case 1: return {CONST, COPY, MOVE, SWAP, DESTROY, CTOR_COPY, CTOR_MOVE, ADD, MUL, SMUL, PADD, PMUL, POSTINC};
        case 2: return {CONST, COPY, MOVE, DESTROY, CTOR_COPY, MUL, PADD};
        default: return {CONST, COPY, SWAP, DESTROY, CTOR_CONST, ADD, PMUL, SSUB};
    }
}
static const std::vector<Op>& alphabetOf(int id, int K)
{
    static std::vector<Op> cache[8][6];
    auto& r = cache[id][K];
    if (r.empty())
        r = alphabet(K, codesOf(id));
    return r;
}
static double limitFor() { return sizeof(REAL) == 4 ? 1 << 19 : double(1LL << 40); }

// param = alphabet*100 + depth ; param2: 1 = vary registration and initial padding
#ifndef HARNESS_FWD
typedef xad::AReal<REAL> T;
static const int K = 3;
static void body(Ctx& c)
{
    int alph = c.param / 100, depth = c.param % 100;
    int pad = 0, mask = 3, third = 0;
    if (c.param2 == 1)
    {
        pad = c.choose(4);
        mask = c.choose(3) + 1;
        third = c.choose(3);  // 0 dead, 1 passive value, 2 registered third variable depending on nothing
    }
    const auto& al = alphabetOf(alph, K);
    xad::Tape<REAL> tape;
    Pool<T, K> p;
    Model<1, K> m;
    const double x0 = 2, x1 = -3;
    p.make(0, REAL(x0));
    p.make(1, REAL(x1));
    unsigned slot[2] = {T::INVALID_SLOT, T::INVALID_SLOT};
    for (int i = 0; i < 2; ++i)
    {
        m.v[i].alive = m.v[i].valid = true;
        m.v[i].x = Jet<1>(i ? x1 : x0);
        if (mask >> i & 1)
        {
            tape.registerInput(p[i]);
            slot[i] = p[i].getSlot();
            m.v[i].reg = true;
            m.v[i].x.c[i == 0][i == 1] = 1;
        }
    }
    tape.newRecording();
    if (third)
    {
        p.make(2, REAL(7));
        m.v[2].alive = m.v[2].valid = true;
        m.v[2].x = Jet<1>(7);
        if (third == 2)
        {
            tape.registerOutput(p[2]);
            m.v[2].reg = true;
        }
    }
    c.log("pad=%d mask=%d third=%d", pad, mask, third);
    {
        T dummy(REAL(1));
        for (int i = 0; i < pad; ++i)
            if (mask & 1)
                dummy = p[0] + dummy;
            else
                dummy = p[1] + dummy;
    }
    for (int d = 0; d < depth; ++d)
    {
        const Op* o = chooseOp(c, al, m, false);
        if (!o)
            break;
        c.log("%s", show(*o).c_str());
        p.apply(*o);
        m.apply(*o);
        c.step();
        c.state(m.hash());
    }
    if (m.big > limitFor())
    {
        c.count(0);
        return;
    }
    for (int i = 0; i < K; ++i)
        if (m.v[i].alive && m.v[i].valid)
        {
            c.expectEq(xad::value(p[i]), m.v[i].x.val(), "value of variable", i);
            tape.registerOutput(p[i]);
        }
    for (int i = 0; i < K; ++i)
        if (m.v[i].alive && m.v[i].valid)
        {
            tape.clearDerivatives();
            xad::derivative(p[i]) = REAL(1);
            tape.computeAdjoints();
            for (int j = 0; j < 2; ++j)
                if (mask >> j & 1)
                {
                    double g = tape.derivative(slot[j]);
                    c.log("d v%d / d x%d = %g", i, j, g);
                    c.outcome(mc::bits(g));
                    c.expectEq(g, m.v[i].x.d(j == 0, j == 1), "adjoint: output, input", i, j);
                }
        }
}
// a long-lived output that depends on everything: accumulate after every statement, and keep separate
// inputs that the program never touches (the typical user pattern)
static void bodyAcc(Ctx& c)
{
    int alph = c.param / 100, depth = c.param % 100;
    const auto& al = alphabetOf(alph, K);
    xad::Tape<REAL> tape;
    T x(REAL(2)), y(REAL(-3));
    tape.registerInput(x);
    tape.registerInput(y);
    tape.newRecording();
    Pool<T, K> p;
    Model<1, K> m;
    T acc(REAL(0));
    Jet<1> macc;
    p.make(0, x);
    p.make(1, y * REAL(2));
    for (int i = 0; i < 2; ++i)
    {
        m.v[i].alive = m.v[i].valid = m.v[i].reg = true;
        m.v[i].x = Jet<1>(i ? -6 : 2);
        m.v[i].x.c[i == 0][i == 1] = i ? 2 : 1;
    }
    for (int d = 0; d < depth; ++d)
    {
        const Op* o = chooseOp(c, al, m, false);
        if (!o)
            break;
        c.log("%s", show(*o).c_str());
        p.apply(*o);
        m.apply(*o);
        if (m.v[o->i].alive && m.v[o->i].valid)
        {
            acc = acc * REAL(2) + p[o->i] * y;
            Jet<1> jy(-3);
            jy.c[0][1] = 1;
            macc = macc * Jet<1>(2) + m.v[o->i].x * jy;
            m.big = std::max(m.big, macc.maxAbs());
        }
        c.step();
        c.state(mc::mix(m.hash(), mc::bits(macc.val())));
    }
    if (m.big > limitFor())
    {
        c.count(0);
        return;
    }
    tape.registerOutput(acc);
    xad::derivative(acc) = REAL(1);
    tape.computeAdjoints();
    c.log("dx=%g dy=%g", double(xad::derivative(x)), double(xad::derivative(y)));
    c.outcome(mc::mix(mc::bits(xad::derivative(x)), mc::bits(xad::derivative(y))));
    c.expectEq(xad::value(acc), macc.val(), "value of accumulated output");
    c.expectEq(xad::derivative(x), macc.d(1, 0), "adjoint of input 0 for accumulated output");
    c.expectEq(xad::derivative(y), macc.d(0, 1), "adjoint of input 1 for accumulated output");
}
int main(int argc, char** argv)
{
    std::vector<mc::Space> s = {
        {"all-d1-pad", "full alphabet, length 1, all paddings/registrations", body, 1, 1, 2, 3},
        {"all-d2", "full alphabet, length 2", body, 2, 0, 2, 3},
        {"acc-all-d2", "accumulating output, full alphabet, length 2", bodyAcc, 2, 0, 2, 3},
        {"core-d4", "core alphabet, length 4", body, 204, 0, 2, 3},
#ifndef LIGHT
        {"life-d3-pad", "life-cycle alphabet, length 3, all paddings/registrations", body, 103, 1, 3, 3},
        {"all-d3", "full alphabet, length 3", body, 3, 0, 2, 3},
        {"life-d4", "life-cycle alphabet, length 4", body, 104, 0, 2, 3},
        {"acc-core-d5", "accumulating output, core alphabet, length 5", bodyAcc, 205, 0, 2, 3},
        {"acc-alt-d4", "accumulating output, alternative core alphabet, length 4", bodyAcc, 304, 0, 2, 3},
        {"all-d2-pad", "full alphabet, length 2, all paddings/registrations", body, 2, 1, 3, 2},
        {"core-d5", "core alphabet, length 5", body, 205, 0, 2, 3},
        {"core-d6", "core alphabet, length 6", body, 206, 0, 3, 2},
        {"life-d5", "life-cycle alphabet, length 5", body, 105, 0, 3, 2},
        {"acc-all-d3", "accumulating output, full alphabet, length 3", bodyAcc, 3, 0, 2, 2},
        {"acc-core-d6", "accumulating output, core alphabet, length 6", bodyAcc, 206, 0, 3, 2},
        {"acc-alt-d6", "accumulating output, alternative core alphabet, length 5", bodyAcc, 305, 0, 2, 2},
#endif
    };
    return mc::mainImpl(argc, argv, s);
}
#else
typedef xad::FReal<REAL> T;
static const int K = 3;
static void body(Ctx& c)
{
    int alph = c.param / 100, depth = c.param % 100;
    static const double seeds[][2] = {{1, 0}, {0, 1}, {2, -1}, {0, 0}};
    int sd = 2, third = 0;
    if (c.param2 == 1)
    {
        sd = c.choose(4);
        third = c.choose(2);
    }
    const auto& al = alphabetOf(alph, K);
    Pool<T, K> p;
    Model<1, K> m;
    for (int i = 0; i < 2; ++i)
    {
        double x = i ? -3 : 2;
        p.make(i, REAL(x), REAL(seeds[sd][i]));
        m.v[i].alive = m.v[i].valid = true;
        m.v[i].x = Jet<1>(x);
        m.v[i].x.c[i == 0][i == 1] = 1;
    }
    if (third)
    {
        p.make(2, REAL(7));
        m.v[2].alive = m.v[2].valid = true;
        m.v[2].x = Jet<1>(7);
    }
    c.log("seed=(%g,%g)", seeds[sd][0], seeds[sd][1]);
    for (int d = 0; d < depth; ++d)
    {
        const Op* o = chooseOp(c, al, m, false);
        if (!o)
            break;
        c.log("%s", show(*o).c_str());
        p.apply(*o);
        m.apply(*o);
        c.step();
        c.state(m.hash());
    }
    if (m.big > limitFor())
    {
        c.count(0);
        return;
    }
    for (int i = 0; i < K; ++i)
        if (m.v[i].alive && m.v[i].valid)
        {
            const auto& j = m.v[i].x;
            double want = j.d(1, 0) * seeds[sd][0] + j.d(0, 1) * seeds[sd][1];
            double got = xad::derivative(p[i]);
            c.log("v%d value %g tangent %g", i, double(xad::value(p[i])), got);
            c.outcome(mc::mix(mc::bits(xad::value(p[i])), mc::bits(got)));
            c.expectEq(xad::value(p[i]), j.val(), "value of variable", i);
            c.expectEq(got, want, "tangent of variable", i);
        }
}
// the same program on reverse-mode variables must give the gradient whose product with the seed is the tangent
static void bodyBoth(Ctx& c)
{
    typedef xad::AReal<REAL> A;
    int alph = c.param / 100, depth = c.param % 100;
    const double s0 = 3, s1 = -2;
    const auto& al = alphabetOf(alph, K);
    xad::Tape<REAL> tape;
    Pool<T, K> p;
    Pool<A, K> q;
    Model<1, K> m;
    unsigned slot[2];
    for (int i = 0; i < 2; ++i)
    {
        double x = i ? -3 : 2;
        p.make(i, REAL(x), REAL(i ? s1 : s0));
        q.make(i, REAL(x));
        tape.registerInput(q[i]);
        slot[i] = q[i].getSlot();
        m.v[i].alive = m.v[i].valid = true;
        m.v[i].x = Jet<1>(x);
        m.v[i].x.c[i == 0][i == 1] = 1;
    }
    tape.newRecording();
    for (int d = 0; d < depth; ++d)
    {
        const Op* o = chooseOp(c, al, m, false);
        if (!o)
            break;
        c.log("%s", show(*o).c_str());
        p.apply(*o);
        q.apply(*o);
        m.apply(*o);
        c.step();
        c.state(m.hash());
    }
    if (m.big > limitFor())
    {
        c.count(0);
        return;
    }
    for (int i = 0; i < K; ++i)
        if (m.v[i].alive && m.v[i].valid)
        {
            tape.registerOutput(q[i]);
            tape.clearDerivatives();
            xad::derivative(q[i]) = REAL(1);
            tape.computeAdjoints();
            double g = tape.derivative(slot[0]) * s0 + tape.derivative(slot[1]) * s1;
            c.outcome(mc::bits(g));
            c.expectEq(xad::value(p[i]), xad::value(q[i]), "forward value vs reverse value of variable", i);
            c.expectEq(xad::derivative(p[i]), g, "tangent vs gradient times seed, variable", i);
        }
}
int main(int argc, char** argv)
{
    std::vector<mc::Space> s = {
        {"all-d1", "full alphabet, length 1, all seeds", body, 1, 1, 1, 3},
        {"all-d2", "full alphabet, length 2, all seeds", body, 2, 1, 2, 3},
        {"both-all-d2", "forward and reverse side by side, full alphabet, length 2", bodyBoth, 2, 0, 2, 3},
        {"both-core-d4", "forward and reverse side by side, core alphabet, length 4", bodyBoth, 204, 0, 2, 3},
#ifndef LIGHT
        {"all-d3", "full alphabet, length 3", body, 3, 0, 2, 3},
        {"life-d4", "life-cycle alphabet, length 4", body, 104, 0, 2, 3},
        {"core-d5", "core alphabet, length 5", body, 205, 0, 2, 3},
        {"both-all-d3", "forward and reverse side by side, full alphabet, length 3", bodyBoth, 3, 0, 2, 2},
        {"all-d3s", "full alphabet, length 3, all seeds", body, 3, 1, 2, 2},
        {"core-d6", "core alphabet, length 6", body, 206, 0, 3, 2},
        {"life-d5", "life-cycle alphabet, length 5", body, 105, 0, 2, 2},
#endif
    };
    return mc::mainImpl(argc, argv, s);
}
#endif
