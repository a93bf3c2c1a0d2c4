// C05: partial rollback, position reset and clearDerivativesAfter vs a statement-list model.
#include "../lib/mc.hpp"
#include <XAD/XAD.hpp>
#include <type_traits>
typedef mc::Ctx Ctx;
#ifndef REAL
#define REAL double
#endif
typedef REAL R;
typedef xad::AReal<R> T;
typedef xad::Tape<R> TP;

struct Model
{
    struct St
    {
        int lhs, n;
        int v[2];
        double m[2];
    };
    St st[80];
    int nst = 0, nextId = 0;
    double d[80];
    int birth[80], death[80];  // statement counts; death < 0: still there
    bool oor[80];              // derivative may be reported out of range (cleared by clearDerivativesAfter)
    bool unk[80];              // derivative unspecified
    bool init = false, everDied = false;
    Model()
    {
        for (int i = 0; i < 80; ++i) d[i] = 0, oor[i] = unk[i] = false, death[i] = -1;
    }
    int fresh()
    {
        birth[nextId] = nst + 1;  // the statement that defines it is the next one
        return nextId++;
    }
    void push(int lhs, int a, double ma, int b = -1, double mb = 0)
    {
        St& s = st[nst++];
        s.lhs = lhs;
        s.n = 0;
        if (a >= 0)
        {
            s.v[s.n] = a;
            s.m[s.n++] = ma;
        }
        if (b >= 0)
        {
            s.v[s.n] = b;
            s.m[s.n++] = mb;
        }
    }
    void clear()
    {
        for (int i = 0; i < 80; ++i) d[i] = 0, unk[i] = false;
        init = false;
    }
    void rollTo(int p)
    {
        for (int i = nst - 1; i >= p; --i)
        {
            double a = d[st[i].lhs];
            d[st[i].lhs] = 0;
            for (int k = 0; k < st[i].n; ++k) d[st[i].v[k]] += a * st[i].m[k];
        }
    }
    bool deadPending(int afterBirth = 1 << 30) const
    {
        for (int i = 0; i < nextId; ++i)
            if (death[i] >= 0 && (d[i] != 0 || unk[i]) && death[i] <= afterBirth)
                return true;
        return false;
    }
    bool leaf(int id) const
    {
        for (int i = 0; i < nst; ++i)
        {
            for (int k = 0; k < st[i].n; ++k)
                if (st[i].v[k] == id)
                    return true;
            if (st[i].lhs == id)
                return false;
        }
        return false;
    }
    double big() const
    {
        double b = 0;
        for (int i = 0; i < nextId; ++i) b = std::max(b, std::fabs(d[i]));
        return b;
    }
};
static const int NV = 5;  // x y a b t
struct World
{
    TP tape;
    std::aligned_storage<sizeof(T), alignof(T)>::type buf[NV];
    bool alive[NV] = {false};
    int id[NV] = {-1, -1, -1, -1, -1};
    double val[NV] = {0};
    Model m;
    struct Mark
    {
        TP::position_type pos;
        int n;
    };
    Mark mk[4];
    int nmk = 0;
    T& v(int i) { return *reinterpret_cast<T*>(&buf[i]); }
    void kill(int i)
    {
        alive[i] = false;
        if (id[i] >= 0)
        {
            m.death[id[i]] = m.nst;
            m.everDied = true;
        }
        id[i] = -1;
        v(i).~T();
    }
    ~World()
    {
        for (int i = 0; i < NV; ++i)
            if (alive[i])
                kill(i);
    }
};
enum
{
    S_AXY, S_BAX, S_AAA, S_X2, S_TXY, S_BTA, S_AT, S_KA, S_KB, S_KT, S_CONST, S_SEED, S_MARK, S_ROLLTO, S_ROLL, S_RESET, S_CLEAR, S_CLEARAFTER
};
static const char* const nm[] = {"a=x*y", "b=a+3x", "a=a*a", "x=2x", "t=x-2y", "b=t*a", "a=t", "destroy a", "destroy b", "destroy t", "a=4",
                                 "seed", "mark position", "computeAdjointsTo mark", "computeAdjoints", "resetTo mark", "clearDerivatives", "clearDerivativesAfter mark"};
struct Op
{
    int c, v;
    double s;
};
static std::vector<Op> alph(int id)
{
    std::vector<Op> r;
    std::vector<int> stm[4] = {{S_AXY, S_BAX, S_AAA, S_X2, S_TXY, S_BTA, S_AT, S_KA, S_KB, S_KT, S_CONST},
                               {S_AXY, S_BAX, S_X2, S_KA},
                               {S_TXY, S_BTA, S_AXY, S_KT},
                               {S_AXY, S_BAX, S_AAA}};
    for (int c : stm[id]) r.push_back({c, 0, 0});
    if (id == 0)
    {
        r.push_back({S_SEED, 0, 7});
        r.push_back({S_SEED, 2, 3});
    }
    r.push_back({S_SEED, 3, 1});
    if (id == 3)
        r.push_back({S_SEED, 2, 1});
    r.push_back({S_MARK, 0, 0});
    for (int k = 0; k < 2; ++k) r.push_back({S_ROLLTO, k, 0});
    for (int k = 0; k < 2; ++k) r.push_back({S_RESET, k, 0});
    r.push_back({S_ROLL, 0, 0});
    r.push_back({S_CLEAR, 0, 0});
    if (id == 0 || id == 3)
        for (int k = 0; k < 2; ++k) r.push_back({S_CLEARAFTER, k, 0});
    return r;
}
static void readAll(Ctx& c, World& w, const char* where)
{
    Model& m = w.m;
    uint64_t h = 3;
    for (int i = 0; i < NV; ++i)
    {
        if (!w.alive[i] || w.id[i] < 0)
            continue;
        int id = w.id[i];
        double g = 0;
        bool thrown = false;
        try
        {
            g = double(xad::derivative(w.v(i)));
        }
        catch (xad::OutOfRange&)
        {
            thrown = true;
        }
        m.init = true;
        c.log("   d%d=%g%s (model %g)%s", i, g, thrown ? " OutOfRange" : "", m.d[id], m.unk[id] ? " unspecified" : "");
        if (thrown)
        {
            if (!m.oor[id])
                c.fail("%s: OutOfRange reading the derivative of variable %d", where, i);
            continue;
        }
        if (m.unk[id] || m.deadPending(m.birth[id]))
            continue;
        h = mc::mix(h, mc::bits(g));
        c.expectEq(g, m.d[id], where, i);
    }
    c.outcome(h);
}
static void body(Ctx& c)
{
    static std::vector<Op> cache[4];
    int aid = c.param / 100, depth = c.param % 100;
    int pads = c.param2 % 10;
    bool killFirst = c.param2 >= 10;
    auto& al = cache[aid];
    if (al.empty())
        al = alph(aid);
    World w;
    Model& m = w.m;
    auto mkv = [&](int i, double x)
    {
        ::new (&w.buf[i]) T(R(x));
        w.alive[i] = true;
        w.id[i] = -1;
        w.val[i] = x;
    };
    mkv(0, 2);
    mkv(1, -3);
    for (int i = 0; i < 2; ++i)
    {
        w.tape.registerInput(w.v(i));
        w.id[i] = m.fresh();
        m.birth[w.id[i]] = 0;
    }
    w.tape.newRecording();
    int pad = pads ? c.choose(pads) : 0;
    for (int i = 0; i < pad; ++i)
    {
        // statements without influence on the variables under test
        w.v(1) = w.v(1) + R(0) * w.v(0);
        m.push(w.id[1], w.id[1], 1, w.id[0], 0);
    }
    w.mk[w.nmk++] = {w.tape.getPosition(), m.nst};
    double* V = w.val;
    int* I = w.id;
    for (int dd = 0; dd < depth; ++dd)
    {
        const Op* en[64];
        int n = 0;
        bool pend = m.deadPending();
        bool unkAlive = false;
        for (int i = 0; i < NV; ++i)
            if (w.alive[i] && I[i] >= 0 && m.unk[I[i]])
                unkAlive = true;
        auto disp = [&](int i) { return w.alive[i] && (I[i] < 0 || (m.d[I[i]] == 0 && !m.unk[I[i]] && !m.leaf(I[i]))); };
        for (auto& o : al)
        {
            bool ok = true;
            if (o.c <= S_CONST && (pend || unkAlive))
                ok = false;  // storage of a vanished variable still holds a pending adjoint
            switch (o.c)
            {
                case S_BAX: ok = ok && w.alive[2]; break;
                case S_AAA: ok = ok && w.alive[2]; break;
                case S_BTA: ok = ok && w.alive[4] && w.alive[2]; break;
                case S_AT: ok = ok && w.alive[4]; break;
                case S_KA: ok = ok && disp(2); break;
                case S_KB: ok = ok && disp(3); break;
                case S_KT: ok = ok && disp(4); break;
                case S_SEED: ok = w.alive[o.v] && I[o.v] >= 0 && !m.oor[I[o.v]] && !m.unk[I[o.v]] && !pend; break;
                case S_MARK: ok = w.nmk < 3 && w.mk[w.nmk - 1].n != m.nst; break;
                case S_ROLLTO: ok = o.v < w.nmk && m.init && !unkAlive && !pend; break;
                case S_ROLL: ok = m.init && !unkAlive && !pend; break;
                case S_RESET:
                    ok = o.v < w.nmk && w.mk[w.nmk - 1 - o.v].n < m.nst;
                    if (ok)
                        for (int i = 0; i < m.nextId; ++i)
                            if (m.birth[i] > w.mk[w.nmk - 1 - o.v].n && (m.d[i] != 0 || m.unk[i]))
                                ok = false;
                    if (ok && pend)
                        ok = false;
                    break;
                case S_CLEARAFTER: ok = o.v < w.nmk && m.init && !unkAlive && !pend; break;
                default: break;
            }
            if (ok)
                en[n++] = &o;
        }
        const Op& o = *en[c.choose(n)];
        c.log("%s v%d %g", nm[o.c], o.v, o.s);
        c.step();
        // assignment target: registered variables keep their identity
        auto target = [&](int i)
        {
            if (!w.alive[i])
                I[i] = -1;
            if (I[i] < 0)
                I[i] = m.fresh();
            w.alive[i] = true;
        };
        auto set = [&](int i, auto&& e)
        {
            if (w.alive[i])
                w.v(i) = e;
            else
                ::new (&w.buf[i]) T(e);
        };
        auto roll = [&](int k)
        {
            if (k < 0)
                w.tape.computeAdjoints();
            else
                w.tape.computeAdjointsTo(w.mk[k].pos);
            m.rollTo(k < 0 ? 0 : w.mk[k].n);
            readAll(c, w, "derivative after rollback of variable");
        };
        switch (o.c)
        {
            case S_AXY:
                set(2, w.v(0) * w.v(1));
                target(2);
                m.push(I[2], I[0], V[1], I[1], V[0]);
                V[2] = V[0] * V[1];
                break;
            case S_BAX:
                set(3, w.v(2) + R(3) * w.v(0));
                target(3);
                m.push(I[3], I[2], 1, I[0], 3);
                V[3] = V[2] + 3 * V[0];
                break;
            case S_AAA:
                w.v(2) = w.v(2) * w.v(2);
                if (I[2] >= 0)
                    m.push(I[2], I[2], V[2], I[2], V[2]);
                V[2] *= V[2];
                break;
            case S_X2:
                w.v(0) *= R(2);
                m.push(I[0], I[0], 2);
                V[0] *= 2;
                break;
            case S_TXY:
                set(4, w.v(0) - R(2) * w.v(1));
                target(4);
                m.push(I[4], I[0], 1, I[1], -2);
                V[4] = V[0] - 2 * V[1];
                break;
            case S_BTA:
                set(3, w.v(4) * w.v(2));
                target(3);
                m.push(I[3], I[4], V[2], I[2], V[4]);
                V[3] = V[4] * V[2];
                break;
            case S_AT:
                set(2, w.v(4));
                target(2);
                m.push(I[2], I[4], 1);
                V[2] = V[4];
                break;
            case S_KA: w.kill(2); break;
            case S_KB: w.kill(3); break;
            case S_KT: w.kill(4); break;
            case S_CONST:
                if (w.alive[2])
                {
                    w.v(2) = R(4);
                    if (I[2] >= 0)
                        m.push(I[2], -1, 0);
                    V[2] = 4;
                }
                else
                    mkv(2, 4);
                break;
            case S_SEED:
                xad::derivative(w.v(o.v)) = R(o.s);
                m.d[I[o.v]] = o.s;
                m.init = true;
                break;
            case S_MARK: w.mk[w.nmk++] = {w.tape.getPosition(), m.nst}; break;
            case S_ROLLTO: roll(w.nmk - 1 - o.v); break;
            case S_ROLL: roll(-1); break;
            case S_RESET:
            {
                int k = w.nmk - 1 - o.v;
                auto drop = [&]
                {
                    for (int i = NV - 1; i >= 0; --i)
                        if (w.alive[i] && I[i] >= 0 && m.birth[I[i]] > w.mk[k].n)
                            w.kill(i);
                };
                if (killFirst)
                    drop();
                w.tape.resetTo(w.mk[k].pos);
                if (!killFirst)
                    drop();
                m.nst = w.mk[k].n;
                for (int i = 0; i < m.nextId; ++i) m.death[i] = std::min(m.death[i], m.nst);
                w.nmk = k + 1;
                if (w.tape.getPosition() != w.mk[k].pos)
                    c.fail("position after resetTo is %u, expected %u", w.tape.getPosition(), w.mk[k].pos);
                break;
            }
            case S_CLEAR: w.tape.clearDerivatives(); m.clear(); break;
            case S_CLEARAFTER:
            {
                int k = w.nmk - 1 - o.v;
                w.tape.clearDerivativesAfter(w.mk[k].pos);
                for (int i = 0; i < m.nextId; ++i)
                    if (m.birth[i] > w.mk[k].n)
                    {
                        m.oor[i] = true;
                        // with reused storage it is not specified which of the later ones are cleared
                        if (m.everDied)
                            m.unk[i] = m.unk[i] || m.d[i] != 0;
                        m.d[i] = 0;
                    }
                readAll(c, w, "derivative after clearDerivativesAfter of variable");
                break;
            }
        }
        if (std::fabs(V[2]) + std::fabs(V[3]) + std::fabs(V[0]) > 1e8 || m.big() > 1e12)
        {
            c.count(0);
            return;
        }
        uint64_t h = mc::mix(5, mc::mix(m.nst, w.nmk));
        for (int i = 0; i < NV; ++i) h = mc::mix(h, w.alive[i] ? mc::mix(mc::bits(V[i]), I[i] >= 0 ? mc::bits(m.d[I[i]]) : 77) : 1);
        c.state(mc::mix(h, m.init));
    }
    if (unsigned(m.nst) != w.tape.getNumStatements())
        c.fail("tape holds %u statements, model %d", w.tape.getNumStatements(), m.nst);
    readAll(c, w, "derivative at the end of variable");
    for (int i = 0; i < NV; ++i)
        if (w.alive[i])
            c.expectEq(double(xad::value(w.v(i))), w.val[i], "value of variable", i);
    // staged: to every mark from last to first, resetting on the way, then to the start
    if (!m.deadPending())
    {
        Model keep = m;
        for (int out = 2; out <= 3; ++out)
        {
            if (!w.alive[out] || I[out] < 0 || m.oor[I[out]])
                continue;
            w.tape.clearDerivatives();
            m.clear();
            xad::derivative(w.v(out)) = R(1);
            m.d[I[out]] = 1;
            m.init = true;
            w.tape.computeAdjoints();
            m.rollTo(0);
            readAll(c, w, "derivative after full rollback of variable");
            double fx = m.d[I[0]], fy = m.d[I[1]];
            if (out == 3 || !w.alive[3] || I[3] < 0 || m.oor[I[3]])
            {
                w.tape.clearDerivatives();
                m.clear();
                xad::derivative(w.v(out)) = R(1);
                m.d[I[out]] = 1;
                for (int k = w.nmk - 1; k >= 0; --k)
                {
                    c.log("staged rollback to mark %d", k);
                    w.tape.computeAdjointsTo(w.mk[k].pos);
                    m.rollTo(w.mk[k].n);
                    m.init = true;
                    readAll(c, w, "derivative after staged rollback of variable");
                    w.tape.resetTo(w.mk[k].pos);
                    m.nst = w.mk[k].n;
                    readAll(c, w, "derivative after staged rollback and reset of variable");
                }
                w.tape.computeAdjoints();
                m.rollTo(0);
                readAll(c, w, "derivative after the last stage of variable");
                c.expectEq(m.d[I[0]], fx, "staged vs full", 0);
                c.expectEq(m.d[I[1]], fy, "staged vs full", 1);
            }
        }
    }
}
int main(int argc, char** argv)
{
    std::vector<mc::Space> s = {
        {"full-3p", "full alphabet, depth 3, all paddings", body, 3, 5, 2, 3},
        {"full-4", "full alphabet, depth 4", body, 4, 0, 2, 3},
        {"core-6", "core alphabet with variable destruction, depth 6", body, 106, 0, 2, 3},
        {"after-6", "clearDerivativesAfter alphabet, depth 6", body, 306, 0, 2, 3},
        {"temps-6", "temporaries alphabet, depth 6", body, 206, 10, 2, 3},
#ifndef LIGHT
        {"core-7", "core alphabet with variable destruction, depth 7", body, 107, 10, 3, 3},
        {"after-8", "clearDerivativesAfter alphabet, depth 8", body, 308, 0, 3, 3},
        {"temps-8", "temporaries alphabet, depth 8", body, 208, 0, 3, 3},
        {"full-5p", "full alphabet, depth 5, all paddings", body, 5, 15, 3, 3},
        {"full-6", "full alphabet, depth 6", body, 6, 0, 3, 3},
        {"full-7", "full alphabet, depth 7", body, 7, 0, 3, 3},
        {"core-9", "core alphabet with variable destruction, depth 9", body, 109, 0, 3, 2},
        {"after-9", "clearDerivativesAfter alphabet, depth 9", body, 309, 0, 3, 2},
        {"temps-9", "temporaries alphabet, depth 9", body, 209, 0, 3, 2},
        {"full-8", "full alphabet, depth 8", body, 8, 0, 4, 2},
#endif
    };
    return mc::mainImpl(argc, argv, s);
}
