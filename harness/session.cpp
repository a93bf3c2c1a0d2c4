// C04: rollback sessions vs a boring statement-list model.
#include "../lib/mc.hpp"
#include <XAD/XAD.hpp>
#include <map>
#include <type_traits>
typedef mc::Ctx Ctx;
#ifndef REAL
#define REAL double
#endif
typedef REAL R;
typedef xad::AReal<R> T;
typedef xad::Tape<R> TP;

// ---- model: variables are identities, a recording is a list of statements, rollback is the textbook sweep
struct Model
{
    struct St
    {
        int lhs, n;
        int v[3];
        double m[3];
    };
    St st[64];
    int nst = 0, nextId = 0;
    double d[96];
    bool init = false;
    int nvars = 0;
    int sized = 0;  // identities that certainly have a stored derivative
    Model()
    {
        for (double& x : d) x = 0;
    }
    int fresh()
    {
        d[nextId] = 0;
        return nextId++;
    }
    void push(int lhs, std::initializer_list<std::pair<int, double>> r)
    {
        St& s = st[nst++];
        s.lhs = lhs;
        s.n = 0;
        for (auto& p : r)
            if (p.first >= 0)
            {
                s.v[s.n] = p.first;
                s.m[s.n++] = p.second;
            }
    }
    void clear()
    {
        for (double& x : d) x = 0;
        init = false;
    }
    void touch()
    {
        init = true;
        sized = nextId;
    }
    void roll()
    {
        for (int i = nst - 1; i >= 0; --i)
        {
            double a = d[st[i].lhs];
            d[st[i].lhs] = 0;
            for (int k = 0; k < st[i].n; ++k) d[st[i].v[k]] += a * st[i].m[k];
        }
    }
    // may the variable go away?  not while it holds a pending adjoint, and not if the recording uses it as a
    // leaf (an input, or a survivor of an earlier recording read before it is assigned): its storage receives
    // the leaf's adjoint on rollback
    bool disposable(int id) const
    {
        if (id < 0)
            return true;
        if (d[id] != 0)
            return false;
        for (int i = 0; i < nst; ++i)
        {
            for (int k = 0; k < st[i].n; ++k)
                if (st[i].v[k] == id)
                    return false;
            if (st[i].lhs == id)
                return true;
        }
        return true;
    }
    double big() const
    {
        double b = 0;
        for (int i = 0; i < nextId; ++i) b = std::max(b, std::fabs(d[i]));
        return b;
    }
};

static const int NV = 4;  // x, y inputs; a, b work variables
struct World
{
    TP tape;
    std::aligned_storage<sizeof(T), alignof(T)>::type buf[NV];
    bool alive[NV] = {false};
    int id[NV] = {-1, -1, -1, -1};  // model identity, -1 = unregistered
    double val[NV] = {0};
    bool dirty[NV];  // has a non-zero adjoint that would be lost by destroying it
    Model m;
    T& v(int i) { return *reinterpret_cast<T*>(&buf[i]); }
    void kill(int i)
    {
        alive[i] = false;
        id[i] = -1;
        v(i).~T();
    }
    ~World()
    {
        for (int i = 0; i < NV; ++i)
            if (alive[i])
                kill(i);
    }
};

enum
{
    O_AXY, O_AAA, O_BA3X, O_X2, O_YBY, O_ACONST, O_KA, O_KB, O_CPY, O_TMP, O_SEED1, O_SEEDX, O_ADD, O_ROLL, O_CLEAR, O_NEWREC,
    O_READ, O_POSROLL, O_REGOUT, O_INC, O_GETRST, O_FAN, O_RESTART
};
static const char* const nm[] = {"a=x*y", "a=a*a", "b=a+3x", "x=2x", "y=b-y", "a=4", "destroy a", "destroy b", "b=copy a",
                                 "scoped temporaries b=(x+y)*x", "seed", "seed input", "add to adjoint", "computeAdjoints", "clearDerivatives", "newRecording",
                                 "read all", "computeAdjointsTo(start)", "registerOutput",
                                 "incrementAdjoint", "getAndResetOutputAdjoint",
                                 "a larger recording, rolled back, its variables destroyed, then newRecording",
                                 "destroy a and b, newRecording"};
struct Op
{
    int c, v;
    double s;
};
static std::vector<Op> alph(int id)
{
    std::vector<Op> r;
    auto full = id == 0;
    if (id == 4)
    {
        for (int c : {O_AXY, O_BA3X, O_TMP, O_ROLL, O_CLEAR, O_READ, O_FAN, O_RESTART}) r.push_back({c, 0, 0});
        r.push_back({O_SEED1, 2, 1});
        r.push_back({O_SEED1, 3, 2});
        r.push_back({O_SEEDX, 0, 5});
        return r;
    }
    if (full)
        for (int c : {O_FAN, O_RESTART}) r.push_back({c, 0, 0});
    for (int c : {O_AXY, O_BA3X, O_KA}) r.push_back({c, 0, 0});
    if (full || id == 2)
        for (int c : {O_AAA, O_X2, O_YBY, O_ACONST, O_KB, O_CPY, O_TMP}) r.push_back({c, 0, 0});
    for (int v : {2, 3}) r.push_back({O_SEED1, v, 1});
    if (full)
    {
        r.push_back({O_SEED1, 2, 3});
        r.push_back({O_SEEDX, 0, 5});
        r.push_back({O_ADD, 3, 2});
        r.push_back({O_ADD, 0, 2});
        r.push_back({O_REGOUT, 2, 0});
        r.push_back({O_POSROLL, 0, 0});
    }
    r.push_back({O_ROLL, 0, 0});
    if (id == 0 || id == 3)
    {
        r.push_back({O_INC, 2, 2});
        r.push_back({O_INC, 1, 3});
        r.push_back({O_GETRST, 2, 0});
        r.push_back({O_GETRST, 3, 0});
    }
    if (id != 2)
        for (int c : {O_CLEAR, O_NEWREC, O_READ}) r.push_back({c, 0, 0});
    else
    {
        r.push_back({O_CLEAR, 0, 0});
        r.push_back({O_NEWREC, 0, 0});
    }
    return r;
}
static void readAll(Ctx& c, World& w, const char* where)
{
    uint64_t h = 3;
    for (int i = 0; i < NV; ++i)
        if (w.alive[i])
        {
            // the const accessor is only specified once derivatives are initialised
            double g = w.id[i] < 0      ? 0.0
                       : w.m.init ? double(w.tape.getDerivative(w.v(i).getSlot()))
                                  : double(w.tape.derivative(w.v(i).getSlot()));
            if (w.id[i] >= 0)
                w.m.touch();
            double e = w.id[i] >= 0 ? w.m.d[w.id[i]] : 0;
            c.log("   d%d=%g (model %g)", i, g, e);
            h = mc::mix(h, mc::bits(g));
            c.expectEq(g, e, where, i);
            const T& cv = w.v(i);
            if (w.id[i] >= 0)
                c.expectEq(double(xad::derivative(cv)), e, where, i);
        }
    c.outcome(h);
}
static void body(Ctx& c)
{
    static std::vector<Op> cache[5];
    int aid = c.param / 100, depth = c.param % 100;
    auto& al = cache[aid];
    if (al.empty())
        al = alph(aid);
    World w;
    Model& m = w.m;
    int pad = c.param2 ? c.choose(c.param2) : 0;
    auto mk = [&](int i, double x)
    {
        ::new (&w.buf[i]) T(R(x));
        w.alive[i] = true;
        w.id[i] = -1;
        w.val[i] = x;
    };
    mk(0, 2);
    mk(1, -3);
    w.tape.registerInput(w.v(0));
    w.id[0] = m.fresh();
    w.tape.registerInput(w.v(1));
    w.id[1] = m.fresh();
    w.tape.newRecording();
    auto start = w.tape.getPosition();
    if (pad)
    {
        c.log("pad %d", pad);
        T p(R(0));
        int pid = -1;
        for (int i = 0; i < pad; ++i)
        {
            p = p + w.v(1);
            (void)pid;
        }
    }
    for (int dd = 0; dd < depth; ++dd)
    {
        const Op* en[64];
        int n = 0;
        for (auto& o : al)
        {
            bool ok = true;
            switch (o.c)
            {
                case O_AAA: case O_BA3X: ok = w.alive[2]; break;
                case O_CPY: ok = w.alive[2]; break;
                case O_YBY: ok = w.alive[3]; break;
                case O_KA: ok = w.alive[2] && m.disposable(w.id[2]); break;
                case O_KB: ok = w.alive[3] && m.disposable(w.id[3]); break;
                case O_POSROLL: ok = m.init; break;
                case O_SEED1: case O_ADD: case O_REGOUT: ok = w.alive[o.v]; break;
                case O_INC: case O_GETRST: ok = w.alive[o.v] && w.id[o.v] >= 0; break;
                default: break;
            }
            if (ok)
                en[n++] = &o;
        }
        const Op& o = *en[c.choose(n)];
        c.log("%s v%d %g", nm[o.c], o.v, o.s);
        c.step();
        double *V = w.val;
        int* I = w.id;
        auto target = [&](int i, bool reg)
        {
            if (!w.alive[i])
                I[i] = -1;
            if (reg && I[i] < 0)
                I[i] = m.fresh();
            return I[i];
        };
        switch (o.c)
        {
            case O_AXY:
            {
                if (w.alive[2])
                    w.v(2) = w.v(0) * w.v(1);
                else
                    ::new (&w.buf[2]) T(w.v(0) * w.v(1));
                target(2, true);
                w.alive[2] = true;
                m.push(I[2], {{I[0], V[1]}, {I[1], V[0]}});
                V[2] = V[0] * V[1];
                break;
            }
            case O_AAA:
                w.v(2) = w.v(2) * w.v(2);
                if (I[2] >= 0)
                    m.push(I[2], {{I[2], V[2]}, {I[2], V[2]}});
                V[2] *= V[2];
                break;
            case O_BA3X:
            {
                if (w.alive[3])
                    w.v(3) = w.v(2) + R(3) * w.v(0);
                else
                    ::new (&w.buf[3]) T(w.v(2) + R(3) * w.v(0));
                target(3, true);
                w.alive[3] = true;
                m.push(I[3], {{I[2], 1}, {I[0], 3}});
                V[3] = V[2] + 3 * V[0];
                break;
            }
            case O_X2:
                w.v(0) *= R(2);
                m.push(I[0], {{I[0], 2}});
                V[0] *= 2;
                break;
            case O_YBY:
                w.v(1) = w.v(3) - w.v(1);
                m.push(I[1], {{I[3], 1}, {I[1], -1}});
                V[1] = V[3] - V[1];
                break;
            case O_ACONST:
                if (w.alive[2])
                {
                    w.v(2) = R(4);
                    if (I[2] >= 0)
                        m.push(I[2], {});
                    V[2] = 4;
                }
                else
                    mk(2, 4);
                break;
            case O_KA: w.kill(2); break;
            case O_KB: w.kill(3); break;
            case O_CPY:
            {
                bool reg = I[2] >= 0 || (w.alive[3] && I[3] >= 0);
                if (w.alive[3])
                    w.v(3) = w.v(2);
                else
                    ::new (&w.buf[3]) T(w.v(2));
                target(3, reg);
                w.alive[3] = true;
                if (reg)
                    m.push(I[3], {{I[2], 1}});
                V[3] = V[2];
                break;
            }
            case O_TMP:
            {
                bool was = w.alive[3];
                {
                    T t = w.v(0) + w.v(1);
                    T u = t * w.v(0);
                    int it = m.fresh(), iu = m.fresh();
                    m.push(it, {{I[0], 1}, {I[1], 1}});
                    m.push(iu, {{it, V[0]}, {I[0], V[0] + V[1]}});
                    if (was)
                        w.v(3) = u;
                    else
                        ::new (&w.buf[3]) T(u);
                    target(3, true);
                    w.alive[3] = true;
                    m.push(I[3], {{iu, 1}});
                }
                V[3] = (V[0] + V[1]) * V[0];
                break;
            }
            case O_SEED1: case O_SEEDX:
                xad::derivative(w.v(o.v)) = R(o.s);
                if (I[o.v] < 0)
                {
                    I[o.v] = m.fresh();
                    m.push(I[o.v], {});
                }
                m.d[I[o.v]] = o.s;
                m.touch();
                break;
            case O_ADD:
                xad::derivative(w.v(o.v)) += R(o.s);
                if (I[o.v] < 0)
                {
                    I[o.v] = m.fresh();
                    m.push(I[o.v], {});
                }
                m.d[I[o.v]] += o.s;
                m.touch();
                break;
            case O_REGOUT:
                w.tape.registerOutput(w.v(2));
                if (I[2] < 0)
                {
                    I[2] = m.fresh();
                    m.push(I[2], {});
                }
                break;
            case O_ROLL: case O_POSROLL:
            {
                bool threw = false;
                try
                {
                    if (o.c == O_ROLL)
                        w.tape.computeAdjoints();
                    else
                        w.tape.computeAdjointsTo(start);
                }
                catch (xad::DerivativesNotInitialized&)
                {
                    threw = true;
                }
                c.log("   threw=%d", threw);
                if (threw != !m.init)
                    c.fail("computeAdjoints %s DerivativesNotInitialized", threw ? "threw" : "did not throw");
                if (!threw)
                {
                    m.roll();
                    readAll(c, w, "derivative after rollback of variable");
                }
                break;
            }
            case O_INC: case O_GETRST:
            {
                // may be rejected as long as the variable has no stored derivative yet
                bool threw = false;
                double got = 0;
                try
                {
                    if (o.c == O_INC)
                        w.tape.incrementAdjoint(w.v(o.v).getSlot(), R(o.s));
                    else
                        got = double(w.tape.getAndResetOutputAdjoint(w.v(o.v).getSlot()));
                }
                catch (xad::OutOfRange&)
                {
                    threw = true;
                }
                c.log("   threw=%d got=%g", threw, got);
                if (threw && m.init && I[o.v] < m.sized)
                    c.fail("%s throws OutOfRange for a variable with a stored derivative", nm[o.c]);
                if (!threw)
                {
                    if (o.c == O_INC)
                        m.d[I[o.v]] += o.s;
                    else
                    {
                        c.expectEq(got, m.d[I[o.v]], "output adjoint of variable", o.v);
                        m.d[I[o.v]] = 0;
                    }
                    m.touch();
                }
                break;
            }
            case O_CLEAR: w.tape.clearDerivatives(); m.clear(); break;
            case O_NEWREC: w.tape.newRecording(); m.nst = 0; m.clear(); break;
            case O_FAN:
            {
                // variables that go away with a non-zero adjoint leave nothing to the next recording
                {
                    std::vector<T> in;
                    in.reserve(6);
                    for (int i = 0; i < 6; ++i)
                    {
                        in.push_back(T(R(i + 1)));
                        w.tape.registerInput(in.back());
                    }
                    w.tape.newRecording();
                    {
                        T sum = in[0] * w.v(0);
                        for (int i = 1; i < 6; ++i) sum += in[i] * w.v(0);
                        xad::derivative(sum) = R(1);
                        w.tape.computeAdjoints();
                        for (int i = 0; i < 6; ++i) c.expectEq(double(xad::derivative(in[i])), V[0], "derivative of input of the larger recording", i);
                        xad::derivative(sum) = R(9);
                    }
                    while (!in.empty()) in.pop_back();
                }
                w.tape.newRecording();
                m.nst = 0;
                m.clear();
                break;
            }
            case O_RESTART:
                for (int i : {3, 2})
                    if (w.alive[i])
                        w.kill(i);
                w.tape.newRecording();
                m.nst = 0;
                m.clear();
                break;
            case O_READ: readAll(c, w, "derivative read of variable"); break;
        }
        if (std::fabs(V[2]) + std::fabs(V[3]) + std::fabs(V[1]) > 1e8 || m.big() > 1e12)
        {
            c.count(0);
            return;
        }
        uint64_t h = mc::mix(5, m.nst);
        for (int i = 0; i < NV; ++i) h = mc::mix(h, w.alive[i] ? mc::mix(mc::bits(V[i]), I[i] >= 0 ? mc::bits(m.d[I[i]]) : 77) : 1);
        c.state(mc::mix(h, m.init));
    }
    readAll(c, w, "derivative at the end of variable");
    for (int i = 0; i < NV; ++i)
        if (w.alive[i])
            c.expectEq(double(xad::value(w.v(i))), w.val[i], "value of variable", i);
    // final: fresh rollback of every live variable
    for (int i = 0; i < NV; ++i)
        if (w.alive[i] && w.id[i] >= 0)
        {
            w.tape.clearDerivatives();
            m.clear();
            xad::derivative(w.v(i)) = R(1);
            m.d[w.id[i]] = 1;
            m.touch();
            w.tape.computeAdjoints();
            m.roll();
            readAll(c, w, "derivative after final rollback of variable");
        }
}
int main(int argc, char** argv)
{
    std::vector<mc::Space> s = {
        {"sess-3", "full session alphabet, depth 3, all paddings", body, 3, 5, 2, 1},
        {"core-6", "core session alphabet, depth 6", body, 106, 0, 2, 3},
        {"sess-4p", "full session alphabet, depth 4, all paddings", body, 4, 5, 2, 3},
        {"again-5", "several recordings of different sizes, depth 5", body, 405, 0, 2, 3},
        {"sess-5", "full session alphabet, depth 5", body, 5, 0, 2, 3},
#ifndef LIGHT
        {"again-7", "several recordings of different sizes, depth 7", body, 407, 0, 3, 3},
        {"adj-6", "core and adjoint access alphabet, depth 6", body, 306, 0, 3, 3},
        {"core-8", "core session alphabet, depth 8", body, 108, 0, 3, 3},
        {"mid-6", "recording/rollback alphabet, depth 6", body, 206, 0, 3, 3},
        {"sess-6", "full session alphabet, depth 6", body, 6, 0, 3, 3},
        {"again-8", "several recordings of different sizes, depth 8", body, 408, 0, 3, 2},
        {"adj-7", "core and adjoint access alphabet, depth 7", body, 307, 0, 3, 2},
        {"core-9", "core session alphabet, depth 9", body, 109, 0, 4, 2},
        {"mid-7", "recording/rollback alphabet, depth 7", body, 207, 0, 3, 2},
        {"sess-7", "full session alphabet, depth 7", body, 7, 0, 3, 2},
#endif
    };
    return mc::mainImpl(argc, argv, s);
}
