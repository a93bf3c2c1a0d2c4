// C03: slot ownership under every life-cycle history
#include "../lib/mc.hpp"
#include <XAD/XAD.hpp>
#include <type_traits>
typedef mc::Ctx Ctx;
#ifndef REAL
#define REAL double
#endif
typedef REAL R;
typedef xad::AReal<R> T;
typedef xad::Tape<R> TP;

static const int MAXV = 10;
struct Pool
{
    std::aligned_storage<sizeof(T), alignof(T)>::type buf[MAXV];
    bool alive[MAXV] = {false};
    T& operator[](int i) { return *reinterpret_cast<T*>(&buf[i]); }
    int freeCell(int n) const
    {
        for (int i = 0; i < n; ++i)
            if (!alive[i])
                return i;
        return -1;
    }
    ~Pool()
    {
        for (int i = 0; i < MAXV; ++i)
            if (alive[i])
                kill(i);
    }
    void kill(int i)
    {
        alive[i] = false;
        (*this)[i].~T();
    }
};
struct World
{
    TP tape;
    Pool p;
    int N;
    unsigned peak = 0, peakTransient = 0;
    unsigned live() 
    {
        unsigned n = 0;
        for (int i = 0; i < N; ++i) n += p.alive[i] && p[i].shouldRecord();
        return n;
    }
    void check(Ctx& c, bool full)
    {
        unsigned n = 0;
        unsigned sl[MAXV];
        for (int i = 0; i < N; ++i)
            if (p.alive[i] && p[i].shouldRecord())
            {
                unsigned s = p[i].getSlot();
                for (unsigned k = 0; k < n; ++k)
                    if (sl[k] == s)
                        c.fail("two live registered variables share slot %u", s);
                sl[n++] = s;
            }
        peak = std::max(peak, n);
        if (tape.getNumVariables() != n)
            c.fail("getNumVariables() is %u with %u live registered variables", tape.getNumVariables(), n);
#ifdef XAD_TAPE_REUSE_SLOTS
        for (unsigned k = 0; k < n; ++k)
            if (sl[k] >= peak)
                c.fail("slot %u in use although at most %u variables were ever live", sl[k], peak);
        if (tape.getNumReusableSlots() + n > peak)
            c.fail("%u reusable slots + %u live > peak %u", tape.getNumReusableSlots(), n, peak);
#else
        if (tape.getNumReusableSlots() != 0)
            c.fail("reusable slots reported without slot reuse");
#endif
        if (full)
        {
            for (int i = 0; i < N; ++i)
                if (p.alive[i] && p[i].shouldRecord())
                    xad::derivative(p[i]) = R(100 + i);
            for (int i = 0; i < N; ++i)
                if (p.alive[i] && p[i].shouldRecord())
                    c.expectEq(double(xad::derivative(p[i])), 100 + i, "derivative read back of variable", i);
        }
    }
    // fill up again: every freed slot must be offered
    void fillCheck(Ctx& c)
    {
#ifdef XAD_TAPE_REUSE_SLOTS
        unsigned n = live(), want = peak;
        std::vector<T> extra;
        extra.reserve(MAXV + 2);
        for (unsigned k = n; k < want; ++k)
        {
            extra.emplace_back(R(1));
            tape.registerInput(extra.back());
            unsigned s = extra.back().getSlot();
            if (s >= want)
                c.fail("new variable got slot %u although only %u of %u slots were in use", s, k, want);
            for (int i = 0; i < N; ++i)
                if (p.alive[i] && p[i].shouldRecord() && p[i].getSlot() == s)
                    c.fail("new variable shares slot %u with a live variable", s);
            for (unsigned q = 0; q + 1 < extra.size(); ++q)
                if (extra[q].getSlot() == s)
                    c.fail("two new variables share slot %u", s);
        }
        if (tape.getNumReusableSlots() != 0)
            c.fail("%u slots still reported reusable with all %u slots in use", tape.getNumReusableSlots(), want);
        if (want > 0)
        {
            std::string str = tape.getReusableSlotsString();
            if (!str.empty())
                c.fail("reusable slot ranges '%s' reported with all slots in use", str.c_str());
        }
#else
        (void)c;
#endif
    }
    uint64_t hash()
    {
        std::vector<unsigned> s;
        for (int i = 0; i < N; ++i)
            if (p.alive[i])
                s.push_back(p[i].shouldRecord() ? p[i].getSlot() : 0xffff);
        std::sort(s.begin(), s.end());
        uint64_t h = 7;
        for (unsigned x : s) h = mc::mix(h, x);
        for (char ch : tape.getReusableSlotsString()) h = mc::mix(h, uint64_t(ch));
        return mc::mix(h, peak);
    }
};

// create/destroy (+ newRecording up to twice) in any order; stateful: merged by (live slots, free ranges, last
// freed slot = search hint, peak, next unused slot as seen by a probe)
static void bodyAlloc(Ctx& c)
{
    World w;
    w.N = c.param;
    int depth = c.param2 % 100;
    bool dedup = c.param2 >= 100;
    int nrec = 0;
    unsigned lastFreed = 999, lastOp = 0, hint2 = 999;
    for (int d = 0; d < depth; ++d)
    {
        // alternatives: create, destroy each live, newRecording
        int lv[MAXV], nl = 0;
        for (int i = 0; i < w.N; ++i)
            if (w.p.alive[i])
                lv[nl++] = i;
        int cell = w.p.freeCell(w.N);
        int n = nl + (cell >= 0) + (nrec < 2);
        int x = c.choose(n);
        c.step();
        if (cell >= 0)
        {
            if (x == 0)
            {
                ::new (&w.p.buf[cell]) T(R(1));
                w.p.alive[cell] = true;
                w.tape.registerInput(w.p[cell]);
                c.log("create v%d -> slot %u", cell, w.p[cell].getSlot());
                lastOp = 1;
                goto done;
            }
            --x;
        }
        if (x < nl)
        {
            hint2 = lastFreed;
            lastFreed = w.p[lv[x]].getSlot();
            c.log("destroy v%d (slot %u)", lv[x], lastFreed);
            w.p.kill(lv[x]);
            lastOp = 2;
        }
        else
        {
            c.log("newRecording");
            w.tape.newRecording();
            ++nrec;
            lastOp = 3;
        }
    done:
        c.log("  free: %s", w.tape.getReusableSlotsString().c_str());
        w.check(c, false);
        uint64_t h = w.hash();
        c.state(h);
        if (dedup)
        {
            h = mc::mix(mc::mix(h, lastFreed), mc::mix(hint2, lastOp + 10 * nrec));
#ifndef XAD_TAPE_REUSE_SLOTS
            h = mc::mix(h, d);
#endif
            if (c.seen(h, depth - d))
                return;
        }
    }
    w.tape.newRecording();
    w.check(c, true);
    c.outcome(w.hash());
    w.fillCheck(c);
    w.check(c, false);
}

// all kinds of operations that create, rebind or release slots
static void bodyOps(Ctx& c)
{
    World w;
    w.N = c.param;
    int depth = c.param2;
    auto mk = [&](int i, bool reg)
    {
        ::new (&w.p.buf[i]) T(R(i + 1));
        w.p.alive[i] = true;
        if (reg)
            w.tape.registerInput(w.p[i]);
    };
    mk(0, true);
    mk(1, true);
    w.tape.newRecording();
    w.check(c, false);
    for (int d = 0; d < depth; ++d)
    {
        struct A
        {
            int op, i, j;
        };
        A a[160];
        int n = 0;
        int cell = w.p.freeCell(w.N);
        for (int i = 0; i < w.N; ++i)
            if (w.p.alive[i])
            {
                a[n++] = {0, i, 0};  // destroy
                a[n++] = {1, i, 0};  // v *= 2
                a[n++] = {7, i, 0};  // = constant
                a[n++] = {8, i, 0};  // registerOutput
                if (cell >= 0)
                {
                    a[n++] = {2, i, 0};  // copy construct
                    a[n++] = {3, i, 0};  // move construct, source destroyed
                    a[n++] = {9, i, 0};  // construct from expression
                    a[n++] = {10, i, 0};  // default construct then assign
                }
                for (int j = 0; j < w.N; ++j)
                    if (w.p.alive[j] && i != j)
                    {
                        a[n++] = {4, i, j};  // copy assign i = j
                        a[n++] = {5, i, j};  // move assign i = move(j), j destroyed
                        if (i < j)
                        {
                            a[n++] = {6, i, j};   // swap
                            a[n++] = {11, i, j};  // scoped temporaries
                        }
                        a[n++] = {14, i, j};  // move assign, source stays alive
                    }
            }
        if (cell >= 0)
        {
            a[n++] = {12, 0, 0};  // create registered
            a[n++] = {15, 0, 0};  // create unregistered
        }
        a[n++] = {13, 0, 0};  // newRecording
        if (n == 0)
            break;
        A o = a[c.choose(n)];
        c.step();
        c.log("op %d on v%d,v%d (new cell %d)", o.op, o.i, o.j, cell);
        switch (o.op)
        {
            case 0: w.p.kill(o.i); break;
            case 1: w.p[o.i] = w.p[o.i] * R(2); break;
            case 2: ::new (&w.p.buf[cell]) T(w.p[o.i]); w.p.alive[cell] = true; break;
            case 3: ::new (&w.p.buf[cell]) T(std::move(w.p[o.i])); w.p.alive[cell] = true; w.p.kill(o.i); break;
            case 4: w.p[o.i] = w.p[o.j]; break;
            case 5: w.p[o.i] = std::move(w.p[o.j]); w.p.kill(o.j); break;
            case 6: std::swap(w.p[o.i], w.p[o.j]); break;
            case 7: w.p[o.i] = R(4); break;
            case 8: w.tape.registerOutput(w.p[o.i]); break;
            case 9: ::new (&w.p.buf[cell]) T(w.p[o.i] * w.p[o.i] + R(1)); w.p.alive[cell] = true; break;
            case 10: ::new (&w.p.buf[cell]) T(); w.p.alive[cell] = true; w.p[cell] = w.p[o.i]; break;
            case 11:
            {
                unsigned l = w.live();
                T t = w.p[o.i] + w.p[o.j];
                T u = t * t;
                t = u;
                unsigned extra = (t.shouldRecord() ? 1 : 0) + (u.shouldRecord() ? 1 : 0);
                w.peak = std::max(w.peak, l + extra);
                if (w.tape.getNumVariables() != l + extra)
                    c.fail("getNumVariables() wrong with temporaries alive");
                for (int i = 0; i < w.N; ++i)
                    if (w.p.alive[i] && w.p[i].shouldRecord() &&
                        ((t.shouldRecord() && t.getSlot() == w.p[i].getSlot()) || (u.shouldRecord() && u.getSlot() == w.p[i].getSlot())))
                        c.fail("temporary shares slot with v%d", i);
                break;
            }
            case 12: mk(cell, true); break;
            case 13: w.tape.newRecording(); break;
            case 14: w.p[o.i] = std::move(w.p[o.j]); break;
            case 15: mk(cell, false); break;
        }
        w.check(c, false);
        c.state(w.hash());
    }
    w.check(c, true);
    c.outcome(w.hash());
    w.fillCheck(c);
    w.check(c, false);
}

// N variables destroyed in every order, with one re-creation at every point, then filled up
static void bodyPerm(Ctx& c)
{
    World w;
    w.N = c.param;
    for (int i = 0; i < w.N; ++i)
    {
        ::new (&w.p.buf[i]) T(R(i));
        w.p.alive[i] = true;
        w.tape.registerInput(w.p[i]);
    }
    w.tape.newRecording();
    w.check(c, false);
    int order[MAXV], k = 0;
    int recreateAt = c.choose(w.N);  // after how many destructions one variable is created again
    int extra = -1;
    while (k < w.N)
    {
        int lv[MAXV], nl = 0;
        for (int i = 0; i < w.N; ++i)
            if (w.p.alive[i] && i != extra)
                lv[nl++] = i;
        if (!nl)
            break;
        int x = lv[c.choose(nl)];
        order[k++] = x;
        c.log("destroy v%d slot %u", x, w.p[x].getSlot());
        w.p.kill(x);
        c.step();
        w.check(c, false);
        if (k == recreateAt)
        {
            extra = x;
            ::new (&w.p.buf[x]) T(R(9));
            w.p.alive[x] = true;
            w.tape.registerInput(w.p[x]);
            c.log("create again -> slot %u", w.p[x].getSlot());
            w.check(c, false);
        }
        c.state(w.hash());
    }
    w.fillCheck(c);
    w.check(c, true);
    c.outcome(w.hash());
}
int main(int argc, char** argv)
{
    std::vector<mc::Space> s = {
        {"alloc-4-d8", "4 variables: create/destroy/newRecording, depth 8, no merging", bodyAlloc, 4, 8, 2, 3},
        {"ops-4-d3", "4 variables: all slot-affecting operations, depth 3", bodyOps, 4, 3, 2, 3},
        {"alloc-7-d10", "7 variables: create/destroy/newRecording, depth 10, no merging", bodyAlloc, 7, 10, 3, 3},
#ifdef XAD_TAPE_REUSE_SLOTS
        {"alloc-7-d18", "7 variables: create/destroy/newRecording, depth 18, states merged", bodyAlloc, 7, 118, 8, 1},
        {"alloc-9-d24", "9 variables: create/destroy/newRecording, depth 24, states merged", bodyAlloc, 9, 124, 9, 2},
#endif
        {"perm-7", "7 variables destroyed in every order with a re-creation at every point", bodyPerm, 7, 0, 3, 3},
        {"perm-8", "8 variables destroyed in every order with a re-creation at every point", bodyPerm, 8, 0, 3, 3},
        {"perm-9", "9 variables destroyed in every order with a re-creation at every point", bodyPerm, 9, 0, 3, 2},
        {"ops-3-d4", "3 variables: all slot-affecting operations, depth 4", bodyOps, 3, 4, 2, 3},
        {"ops-3-d5", "3 variables: all slot-affecting operations, depth 5", bodyOps, 3, 5, 2, 3},
        {"ops-4-d4", "4 variables: all slot-affecting operations, depth 4", bodyOps, 4, 4, 2, 3},
        {"ops-4-d5", "4 variables: all slot-affecting operations, depth 5", bodyOps, 4, 5, 2, 2},
        {"ops-3-d6", "3 variables: all slot-affecting operations, depth 6", bodyOps, 3, 6, 2, 2},
        {"alloc-8-d13", "8 variables: create/destroy/newRecording, depth 13, no merging", bodyAlloc, 8, 13, 3, 2},
    };
    return mc::mainImpl(argc, argv, s);
}
