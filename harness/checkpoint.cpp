// C06: checkpoint callbacks, external functions and nested recordings vs the fully recorded computation.
#include "../lib/mc.hpp"
#include <XAD/XAD.hpp>
#include <memory>
#include <type_traits>
typedef mc::Ctx Ctx;
#ifndef REAL
#define REAL double
#endif
typedef REAL R;
typedef xad::AReal<R> T;
typedef xad::Tape<R> TP;
typedef xad::CheckpointCallback<TP> CB;

struct Model
{
    struct St
    {
        int nl, lhs[2];      // simultaneous left hand sides
        int n[2], v[2][2];   // operands of each
        double m[2][2];
        int seg;             // checkpoint id or -1
    };
    St st[48];
    int nst = 0, nextId = 0;
    double d[64];
    int birth[64], death[64];
    struct Call
    {
        int seg;
        double adj[2];
    };
    Call calls[48];  // expected callback invocations of the last rollback
    int ncalls = 0;
    Model()
    {
        for (int i = 0; i < 64; ++i) d[i] = 0, death[i] = -1;
    }
    int fresh()
    {
        birth[nextId] = nst + 1;
        return nextId++;
    }
    St& push(int lhs, int seg = -1)
    {
        St& s = st[nst++];
        s.nl = 1;
        s.lhs[0] = lhs;
        s.n[0] = s.n[1] = 0;
        s.seg = seg;
        return s;
    }
    static void op(St& s, int k, int id, double mul)
    {
        s.v[k][s.n[k]] = id;
        s.m[k][s.n[k]++] = mul;
    }
    void roll(int to)
    {
        ncalls = 0;
        for (int i = nst - 1; i >= to; --i)
        {
            double a[2] = {0, 0};
            for (int k = 0; k < st[i].nl; ++k)
            {
                a[k] = d[st[i].lhs[k]];
                d[st[i].lhs[k]] = 0;
            }
            if (st[i].seg >= 0)
                calls[ncalls++] = {st[i].seg, {a[0], a[1]}};
            for (int k = 0; k < st[i].nl; ++k)
                for (int j = 0; j < st[i].n[k]; ++j) d[st[i].v[k][j]] += a[k] * st[i].m[k][j];
        }
    }
    bool deadPending(int birthOf) const
    {
        for (int i = 0; i < nextId; ++i)
            if (death[i] >= 0 && d[i] != 0 && death[i] <= birthOf)
                return true;
        return false;
    }
    bool leaf(int id) const
    {
        for (int i = 0; i < nst; ++i)
        {
            for (int k = 0; k < st[i].nl; ++k)
                for (int j = 0; j < st[i].n[k]; ++j)
                    if (st[i].v[k][j] == id)
                        return true;
            for (int k = 0; k < st[i].nl; ++k)
                if (st[i].lhs[k] == id)
                    return false;
        }
        return false;
    }
};

enum Form { REC, NESTA, NESTB, ANALYTIC, INNER_AN, INNER_NEST, SPLIT, CLEARS, NFORM };
static const char* const fn[] = {"recorded", "nested", "nested with unused and reordered inputs", "analytic", "nested with analytic checkpoint inside",
                                 "nested with nested checkpoint inside", "two nested recordings",
                                 "one nested recording rolled back once per output, adjoints cleared between"};
static const int NV = 5;  // x y a b t
struct World;
struct Seg : CB
{
    World* w = nullptr;
    int kind = 0, form = 0, id = 0;
    R in[2];
    TP::slot_type is[2], os[2];
    void computeAdjoint(TP* tape) override;
};
struct InnerAn : CB
{  // o = p*q inside a nested recording
    TP::slot_type p, q, o;
    R vp, vq;
    void computeAdjoint(TP* tape) override
    {
        R a = tape->getAndResetOutputAdjoint(o);
        tape->incrementAdjoint(p, a * vq);
        tape->incrementAdjoint(q, a * vp);
    }
};
struct InnerNest : CB
{
    TP::slot_type p, q, o;
    R vp, vq;
    void computeAdjoint(TP* tape) override
    {
        R a = tape->getAndResetOutputAdjoint(o);
        T u = vp, v = vq;
        tape->registerInput(u);
        tape->registerInput(v);
        xad::ScopedNestedRecording<TP> n(tape);
        T t = u;
        T r = t * v;
        tape->registerOutput(r);
        xad::derivative(r) = a;
        n.computeAdjoints();
        R du = xad::derivative(u), dv = xad::derivative(v);
        n.incrementAdjoint(p, du);
        n.incrementAdjoint(q, dv);
    }
};
struct World
{
    std::vector<std::unique_ptr<Seg>> segs;
    std::vector<std::unique_ptr<CB>> inner;
    TP tape;
    std::aligned_storage<sizeof(T), alignof(T)>::type buf[NV];
    bool alive[NV] = {false};
    int id[NV] = {-1, -1, -1, -1, -1};
    double val[NV] = {0};
    Model m;
    int invoked[64], ninv = 0;
    double got[64][2];
    Ctx* c = nullptr;
    T& v(int i) { return *reinterpret_cast<T*>(&buf[i]); }
    void kill(int i)
    {
        alive[i] = false;
        if (id[i] >= 0)
            m.death[id[i]] = m.nst;
        id[i] = -1;
        v(i).~T();
    }
    ~World()
    {
        for (int i = 0; i < NV; ++i)
            if (alive[i])
                kill(i);
    }
};
// segment kinds:  0: o = p*q          1: o = p*p + 3q       2: in place p = p*p      3: (o1,o2) = (p*q, p+q)
static void evalActive(World* w, int kind, int form, T& p, T& q, T* o)
{
    // deliberately allocates and frees temporaries in several orders
    std::unique_ptr<T> t1(new T(p)), t2, t3;
    switch (kind)
    {
        case 0:
        case 3:
            t2.reset(new T(q));
            if (form == INNER_AN || form == INNER_NEST)
            {
                TP* tape = TP::getActive();
                T r = xad::value(*t1) * xad::value(*t2);
                tape->registerOutput(r);
                if (form == INNER_AN)
                {
                    InnerAn* cb = new InnerAn;
                    w->inner.emplace_back(cb);
                    cb->p = t1->getSlot();
                    cb->q = t2->getSlot();
                    cb->o = r.getSlot();
                    cb->vp = xad::value(*t1);
                    cb->vq = xad::value(*t2);
                    tape->insertCallback(cb);
                }
                else
                {
                    InnerNest* cb = new InnerNest;
                    w->inner.emplace_back(cb);
                    cb->p = t1->getSlot();
                    cb->q = t2->getSlot();
                    cb->o = r.getSlot();
                    cb->vp = xad::value(*t1);
                    cb->vq = xad::value(*t2);
                    tape->insertCallback(cb);
                }
                t1.reset();
                o[0] = r * R(1);
            }
            else
            {
                t3.reset(new T(*t1 * *t2));
                t1.reset();
                t2.reset();
                o[0] = *t3;
            }
            if (kind == 3)
                o[1] = p + q;
            break;
        case 1:
            t2.reset(new T(p * *t1));
            t1.reset();
            t3.reset(new T(R(3) * q));
            o[0] = *t2 + *t3;
            t2.reset();
            break;
        case 2:
            t2.reset(new T(*t1 * p));
            t1.reset();
            o[0] = *t2;
            break;
    }
}
void Seg::computeAdjoint(TP* tape)
{
    int no = kind == 3 ? 2 : 1;
    unsigned vars = tape->getNumVariables();
    R adj[2] = {0, 0};
    for (int k = 0; k < no; ++k) adj[k] = tape->getAndResetOutputAdjoint(os[k]);
    if (w->ninv < 64)
    {
        w->invoked[w->ninv] = id;
        w->got[w->ninv][0] = double(adj[0]);
        w->got[w->ninv][1] = double(adj[1]);
    }
    ++w->ninv;
    if (form == ANALYTIC)
    {
        switch (kind)
        {
            case 0: tape->incrementAdjoint(is[0], adj[0] * in[1]); tape->incrementAdjoint(is[1], adj[0] * in[0]); break;
            case 1: tape->incrementAdjoint(is[0], adj[0] * 2 * in[0]); tape->incrementAdjoint(is[1], adj[0] * 3); break;
            case 2: tape->incrementAdjoint(is[0], adj[0] * 2 * in[0]); break;
            case 3:
                tape->incrementAdjoint(is[0], adj[0] * in[1] + adj[1]);
                tape->incrementAdjoint(is[1], adj[0] * in[0] + adj[1]);
                break;
        }
    }
    else if (form == NESTA)
    {
        T p = in[0], q = in[1];
        tape->registerInput(p);
        tape->registerInput(q);
        xad::ScopedNestedRecording<TP> nested(tape);
        T o[2];
        evalActive(w, kind, form, p, q, o);
        for (int k = 0; k < no; ++k)
        {
            tape->registerOutput(o[k]);
            xad::derivative(o[k]) = adj[k];
        }
        nested.computeAdjoints();
        R dp = xad::derivative(p), dq = xad::derivative(q);
        nested.incrementAdjoint(is[0], dp);
        if (kind != 2)
            nested.incrementAdjoint(is[1], dq);
    }
    else if (form == CLEARS)
    {
        T p = in[0], q = in[1];
        tape->registerInput(p);
        tape->registerInput(q);
        xad::ScopedNestedRecording<TP> nested(tape);
        T o[2];
        evalActive(w, kind, form, p, q, o);
        for (int k = 0; k < no; ++k) tape->registerOutput(o[k]);
        // a throw-away sweep first, then one sweep per output; every sweep starts from cleared adjoints
        xad::derivative(o[0]) = R(7);
        nested.computeAdjoints();
        R dp = 0, dq = 0;
        for (int k = 0; k < no; ++k)
        {
            tape->clearDerivatives();
            xad::derivative(o[k]) = adj[k];
            nested.computeAdjoints();
            dp += xad::derivative(p);
            dq += xad::derivative(q);
        }
        nested.incrementAdjoint(is[0], dp);
        if (kind != 2)
            nested.incrementAdjoint(is[1], dq);
    }
    else
    {
        // SPLIT: one nested recording per output adjoint half
        int parts = form == SPLIT ? 2 : 1;
        for (int s = 0; s < parts; ++s)
        {
            // inputs are registered before the recording starts, as for newRecording()
            T q = in[1], p = in[0], unused = R(1);
            tape->registerInput(q);
            tape->registerInput(p);
            tape->registerInput(unused);
            xad::ScopedNestedRecording<TP> nested(tape);
            T o[2];
            evalActive(w, kind, form, p, q, o);
            for (int k = 0; k < no; ++k)
            {
                tape->registerOutput(o[k]);
                xad::derivative(o[k]) = parts == 1 ? adj[k] : s == 0 ? R(2) * adj[k] : -adj[k];
            }
            nested.computeAdjoints();
            R dp = xad::derivative(p), dq = xad::derivative(q);
            nested.incrementAdjoint(is[0], dp);
            if (kind != 2)
                nested.incrementAdjoint(is[1], dq);
        }
    }
    if (tape->getNumVariables() != vars)
        w->c->fail("getNumVariables() is %u at the end of a callback, %u at its start", tape->getNumVariables(), vars);
}
enum { O_SEG, O_BAX, O_AAA, O_TXA, O_KA, O_KB, O_KT, O_X2 };
static const char* const nm[] = {"segment", "b=a+3x", "a=a*a", "t=x*a", "destroy a", "destroy b", "destroy t", "x=2x"};
struct Op
{
    int c, kind, form;
};
static std::vector<Op> alph(int id)
{
    std::vector<Op> r;
    std::vector<int> forms[3] = {{REC, NESTA, NESTB, ANALYTIC, INNER_AN, INNER_NEST, SPLIT, CLEARS}, {NESTA, ANALYTIC}, {NESTB, INNER_NEST}};
    for (int f : forms[id])
        for (int k = 0; k < 4; ++k)
        {
            if ((f == INNER_AN || f == INNER_NEST) && (k == 1 || k == 2))
                continue;
            if (f == SPLIT && k != 3)
                continue;
            if (f == CLEARS && k == 1)
                continue;
            if (id && k == 3)
                continue;
            r.push_back({O_SEG, k, f});
        }
    if (id == 0)
        for (int c : {O_BAX, O_AAA, O_TXA, O_KA, O_KB, O_KT, O_X2}) r.push_back({c, 0, 0});
    else
        for (int c : {O_TXA, O_KA, O_KT, O_KB}) r.push_back({c, 0, 0});
    return r;
}
static void doOp(Ctx& c, World& w, const Op& o)
{
    Model& m = w.m;
    double* V = w.val;
    int* I = w.id;
    auto target = [&](int i)
    {
        if (!w.alive[i])
            I[i] = -1;
        if (I[i] < 0)
            I[i] = m.fresh();
        w.alive[i] = true;
    };
    auto set = [&](int i, auto&& e)
    {
        if (w.alive[i])
            w.v(i) = e;
        else
            ::new (&w.buf[i]) T(e);
    };
    switch (o.c)
    {
        case O_SEG:
        {
            // operands and targets
            int p = 0, q = 1, out[2] = {2, 3};
            if (o.kind == 1)
            {
                p = 2;
                q = 0;
                out[0] = 3;
            }
            if (o.kind == 2)
                out[0] = 0;
            double vp = V[p], vq = V[q];
            double ov[2] = {0, 0};
            switch (o.kind)
            {
                case 0: ov[0] = vp * vq; break;
                case 1: ov[0] = vp * vp + 3 * vq; break;
                case 2: ov[0] = vp * vp; break;
                case 3: ov[0] = vp * vq; ov[1] = vp + vq; break;
            }
            int no = o.kind == 3 ? 2 : 1;
            int ip = I[p], iq = I[q];
            int segId = -1;
            if (o.form == REC)
            {
                T r[2];
                evalActive(&w, o.kind, REC, w.v(p), w.v(q), r);
                for (int k = 0; k < no; ++k)
                {
                    if (w.alive[out[k]])
                        w.v(out[k]) = r[k];
                    else
                        ::new (&w.buf[out[k]]) T(r[k]);
                }
            }
            else
            {
                Seg* s = new Seg;
                w.segs.emplace_back(s);
                s->w = &w;
                s->kind = o.kind;
                s->form = o.form;
                segId = s->id = int(w.segs.size()) - 1;
                s->in[0] = R(vp);
                s->in[1] = R(vq);
                s->is[0] = w.v(p).getSlot();
                s->is[1] = w.v(q).getSlot();
                for (int k = 0; k < no; ++k)
                {
                    if (!w.alive[out[k]])
                        ::new (&w.buf[out[k]]) T(R(ov[k]));
                    else
                        xad::value(w.v(out[k])) = R(ov[k]);
                    w.tape.registerOutput(w.v(out[k]));
                    s->os[k] = w.v(out[k]).getSlot();
                }
                w.tape.insertCallback(s);
            }
            for (int k = 0; k < no; ++k) target(out[k]);
            Model::St& st = m.push(I[out[0]], segId);
            switch (o.kind)
            {
                case 0: case 3: Model::op(st, 0, ip, vq); Model::op(st, 0, iq, vp); break;
                case 1: Model::op(st, 0, ip, 2 * vp); Model::op(st, 0, iq, 3); break;
                case 2: Model::op(st, 0, ip, 2 * vp); break;
            }
            if (no == 2)
            {
                st.nl = 2;
                st.lhs[1] = I[out[1]];
                Model::op(st, 1, ip, 1);
                Model::op(st, 1, iq, 1);
            }
            for (int k = 0; k < no; ++k) V[out[k]] = ov[k];
            break;
        }
        case O_BAX:
        {
            int ia = I[2];
            set(3, w.v(2) + R(3) * w.v(0));
            target(3);
            Model::St& st = m.push(I[3]);
            Model::op(st, 0, ia, 1);
            Model::op(st, 0, I[0], 3);
            V[3] = V[2] + 3 * V[0];
            break;
        }
        case O_AAA:
        {
            w.v(2) = w.v(2) * w.v(2);
            Model::St& st = m.push(I[2]);
            Model::op(st, 0, I[2], 2 * V[2]);
            V[2] *= V[2];
            break;
        }
        case O_TXA:
        {
            set(4, w.v(0) * w.v(2));
            target(4);
            Model::St& st = m.push(I[4]);
            Model::op(st, 0, I[0], V[2]);
            Model::op(st, 0, I[2], V[0]);
            V[4] = V[0] * V[2];
            break;
        }
        case O_X2:
        {
            w.v(0) = w.v(0) * R(2);
            Model::St& st = m.push(I[0]);
            Model::op(st, 0, I[0], 2);
            V[0] *= 2;
            break;
        }
        case O_KA: w.kill(2); break;
        case O_KB: w.kill(3); break;
        case O_KT: w.kill(4); break;
    }
}
static void rollback(Ctx& c, World& w, int toModel, TP::position_type toPos, bool full, const char* where)
{
    Model& m = w.m;
    w.ninv = 0;
    if (full)
        w.tape.computeAdjoints();
    else
        w.tape.computeAdjointsTo(toPos);
    m.roll(toModel);
    for (int i = 0; i < w.ninv && i < 64; ++i) c.log("   callback %d adj %g %g", w.invoked[i], w.got[i][0], w.got[i][1]);
    if (w.ninv != m.ncalls)
        c.fail("%d callbacks invoked, expected %d", w.ninv, m.ncalls);
    for (int i = 0; i < w.ninv; ++i)
    {
        if (w.invoked[i] != m.calls[i].seg)
            c.fail("callback %d invoked in place of callback %d", w.invoked[i], m.calls[i].seg);
        c.expectEq(w.got[i][0], m.calls[i].adj[0], "output adjoint seen by callback", w.invoked[i]);
        if (w.segs[w.invoked[i]]->kind == 3)
            c.expectEq(w.got[i][1], m.calls[i].adj[1], "second output adjoint seen by callback", w.invoked[i]);
    }
    uint64_t h = 11;
    for (int i = 0; i < NV; ++i)
        if (w.alive[i] && w.id[i] >= 0)
        {
            double g = double(xad::derivative(w.v(i)));
            c.log("   d%d=%g (model %g)", i, g, m.d[w.id[i]]);
            if (m.birth[w.id[i]] > toModel && toModel > 0)
                continue;
            if (m.deadPending(m.birth[w.id[i]]))
                continue;
            h = mc::mix(h, mc::bits(g));
            c.expectEq(g, m.d[w.id[i]], where, i);
        }
    c.outcome(h);
}
static void body(Ctx& c)
{
    static std::vector<Op> cache[3];
    int aid = c.param / 100, depth = c.param % 100;
    int pads = c.param2 % 10;
    bool dtorFirst = c.param2 >= 10;
    auto& al = cache[aid];
    if (al.empty())
        al = alph(aid);
    World w;
    w.c = &c;
    Model& m = w.m;
    for (int i = 0; i < 2; ++i)
    {
        ::new (&w.buf[i]) T(R(i ? -3 : 2));
        w.alive[i] = true;
        w.val[i] = i ? -3 : 2;
        w.tape.registerInput(w.v(i));
        w.id[i] = m.fresh();
        m.birth[w.id[i]] = 0;
    }
    w.tape.newRecording();
    int pad = pads ? c.choose(pads) : 0;
    for (int i = 0; i < pad; ++i)
    {
        w.v(1) = w.v(1) + R(0) * w.v(0);
        Model::op(m.push(w.id[1]), 0, w.id[1], 1);
    }
    TP::position_type pos[16];
    int mst[16];
    for (int dd = 0; dd < depth; ++dd)
    {
        pos[dd] = w.tape.getPosition();
        mst[dd] = m.nst;
        const Op* en[64];
        int n = 0;
        auto disp = [&](int i) { return w.alive[i] && !m.leaf(w.id[i]); };
        for (auto& o : al)
        {
            bool ok = true;
            switch (o.c)
            {
                case O_SEG: ok = o.kind != 1 || w.alive[2]; break;
                case O_BAX: case O_AAA: case O_TXA: ok = w.alive[2]; break;
                case O_KA: ok = disp(2); break;
                case O_KB: ok = disp(3); break;
                case O_KT: ok = disp(4); break;
                default: break;
            }
            if (ok)
                en[n++] = &o;
        }
        const Op& o = *en[c.choose(n)];
        c.log("%s kind %d form %s", nm[o.c], o.kind, fn[o.form]);
        c.step();
        doOp(c, w, o);
        double b = 0;
        for (int i = 0; i < NV; ++i) b = std::max(b, std::fabs(w.val[i]));
        if (b > 1e6)
        {
            c.count(0);
            return;
        }
        uint64_t h = mc::mix(5, m.nst);
        for (int i = 0; i < NV; ++i) h = mc::mix(h, w.alive[i] ? mc::bits(w.val[i]) : 1);
        c.state(h);
    }
    // seed: one live variable, or all of them
    int lv[NV], nl = 0;
    for (int i = 2; i < NV; ++i)
        if (w.alive[i])
            lv[nl++] = i;
    lv[nl++] = 0;
    int pick = c.choose(nl + (nl > 1));
    for (int k = 0; k < nl; ++k)
        if (pick == nl || k == pick)
        {
            double s = k + 1;
            c.log("seed v%d %g", lv[k], s);
            xad::derivative(w.v(lv[k])) = R(s);
            m.d[w.id[lv[k]]] = s;
        }
    int stage = c.choose(pick ? depth : 2 * depth);  // 0: full rollback at once; from depth on: the recording is abandoned
    bool abandon = stage >= depth;
    if (abandon)
        stage -= depth;
    if (stage)
    {
        c.log("rollback to position %d", stage);
        rollback(c, w, mst[stage], pos[stage], false, "derivative after partial rollback of variable");
        w.tape.resetTo(pos[stage]);
        m.nst = mst[stage];
    }
    if (!abandon)
        rollback(c, w, 0, 0, true, "derivative after rollback of variable");
    else
        c.log("abandon the recording");
    // the same tape must be fit for another recording
    if (dtorFirst)
        for (int i = NV - 1; i >= 2; --i)
            if (w.alive[i])
                w.kill(i);
    w.tape.newRecording();
    m.nst = 0;
    for (double& x : m.d) x = 0;
    for (int i = 0; i < 64; ++i) m.death[i] = m.death[i] >= 0 ? 0 : -1;
    for (int i = 0; i < 64; ++i) m.birth[i] = 0;
    static const Op second[] = {{O_SEG, 0, NESTA}, {O_TXA, 0, 0}, {O_SEG, 1, NESTB}, {O_KA, 0, 0}, {O_SEG, 3, INNER_NEST}};
    c.log("second recording");
    bool a0 = w.alive[2] && w.id[2] >= 0;  // would be a leaf of the second recording only if read before written: it is not
    (void)a0;
    for (auto& o : second) doOp(c, w, o);
    xad::derivative(w.v(3)) = R(1);
    xad::derivative(w.v(4)) = R(2);
    m.d[w.id[3]] = 1;
    m.d[w.id[4]] = 2;
    rollback(c, w, 0, 0, true, "derivative in the second recording of variable");
}
int main(int argc, char** argv)
{
    std::vector<mc::Space> s = {
        {"all-2p", "all segment forms and statements, depth 2, all paddings", body, 2, 5, 2, 3},
        {"all-3", "all segment forms and statements, depth 3", body, 3, 0, 2, 3},
        {"ext-5", "sample-style nested and analytic segments with destruction, depth 5", body, 105, 0, 2, 3},
        {"inner-5", "nested checkpoints with destruction, depth 5", body, 205, 10, 2, 3},
#ifndef LIGHT
        {"all-4", "all segment forms and statements, depth 4", body, 4, 10, 3, 3},
        {"all-3p", "all segment forms and statements, depth 3, all paddings", body, 3, 15, 2, 3},
        {"ext-7", "sample-style nested and analytic segments with destruction, depth 7", body, 107, 10, 2, 2},
        {"inner-7", "nested checkpoints with destruction, depth 7", body, 207, 0, 2, 2},
        {"all-5", "all segment forms and statements, depth 5", body, 5, 0, 3, 2},
#endif
    };
    return mc::mainImpl(argc, argv, s);
}
