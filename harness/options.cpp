// C21: every program and session in every build of the library, with the same observations
#include "../lib/prog.hpp"
#include "../lib/mc.hpp"
#include "../lib/session.hpp"
#include <cmath>
#include <dlfcn.h>
using namespace prog;
typedef mc::Ctx Ctx;
typedef int (*RunF)(int, const int*, int, double*, const char**, int);
struct Variant
{
    RunF run;
    std::string name;
};
static std::vector<Variant> V;

static std::vector<int> codesOf(int id)
{
    switch (id)
    {
        case 0: return allCodes();
        case 1: return {CONST, COPY, MOVE, SWAP, DESTROY, CTOR_COPY, CTOR_MOVE, ADD, MUL, SMUL, PADD, PMUL, POSTINC};
        case 2: return {CONST, COPY, MOVE, DESTROY, CTOR_COPY, MUL, PADD};
        default: return {COPY, DESTROY, CTOR_MUL, CTOR_COPY};
    }
}
static const int K = 3, CAP = 4096;
static void compare(Ctx& c, int mode, const std::vector<int>& code, double tol)
{
    static std::vector<double> ref(CAP), got(CAP);
    static std::vector<const char*> lab(CAP);
    int n = V[0].run(mode, code.data(), int(code.size()), ref.data(), c.tracing() ? lab.data() : nullptr, CAP);
    if (n > CAP)
        c.fail("too many observations");
    uint64_t h = mode;
    for (int i = 0; i < n; ++i)
    {
        h = mc::mix(h, mc::bits(ref[i]));
        if (c.tracing())
            c.log("%s: observation %d: %.17g %s", V[0].name.c_str(), i, ref[i], lab[i]);
    }
    c.outcome(h);
    for (size_t k = 1; k < V.size(); ++k)
    {
        int m = V[k].run(mode, code.data(), int(code.size()), got.data(), nullptr, CAP);
        c.step();
        for (int i = 0; c.tracing() && i < m; ++i)
            if (i >= n || !(got[i] == ref[i] || (got[i] != got[i] && ref[i] != ref[i])))
                c.log("%s: observation %d: %.17g", V[k].name.c_str(), i, got[i]);
        if (m != n)
            c.fail("%s: %d observations, %s: %d", V[k].name.c_str(), m, V[0].name.c_str(), n);
        for (int i = 0; i < n; ++i)
        {
            double a = got[i], b = ref[i];
            if (a == b || (a != a && b != b) || (tol > 0 && std::fabs(a - b) <= tol * std::fabs(b)))
                continue;
            c.fail("observation %d is %.17g in %s, %.17g in %s", i, a, V[k].name.c_str(), b, V[0].name.c_str());
        }
    }
}
// programs; param = alphabet*100 + depth; param2 = mode
static void programs(Ctx& c)
{
    int alph = c.param / 100, depth = c.param % 100;
    static std::vector<prog::Op> cache[4];
    auto& al = cache[alph];
    if (al.empty())
        al = alphabet(K, codesOf(alph));
    int third = c.choose(3);
    Model<1, K> m;
    for (int i = 0; i < 2 + (third > 0); ++i)
    {
        m.v[i].alive = m.v[i].valid = true;
        m.v[i].reg = i < 2 || third == 2;
        m.v[i].x = Jet<1>(i == 0 ? 2 : i == 1 ? -3 : 7);
        if (i < 2)
            m.v[i].x.c[i == 0][i == 1] = 1;
    }
    std::vector<int> code{0, third};
    for (int d = 0; d < depth; ++d)
    {
        const prog::Op* o = chooseOp(c, al, m, false);
        if (!o)
            break;
        if (c.tracing())
            c.log("%s", show(*o).c_str());
        code.insert(code.end(), {o->code, o->i, o->j, o->k});
        m.apply(*o);
        c.state(m.hash());
    }
    for (int i = 0; i < K; ++i)
        if (m.v[i].alive && m.v[i].valid)
            code[0] |= 1 << i;
    // small integers: exact
    compare(c, c.param2, code, m.big > (c.param2 == 4 ? 1 << 19 : double(1LL << 40)) ? 1e-6 : 0);
}
// sessions: param = length, param2 = 1: after a prologue
static void sessions(Ctx& c)
{
    std::vector<int> code{1};
    Abs a{true};
    // a variable that holds a pending adjoint, or that the recording reads as an input, is not destroyed: with slot
    // reuse its adjoint belongs to the next owner of the slot
    bool written = false, input = false, pending = false;
    // clearDerivativesAfter() hides all slots above a limit, so it depends on which slots are reused
    bool freed = false, limited = false;
    // nor does it use a variable that got a reused slot in the part of the recording that resetTo(), or a rollback
    // with checkpoints, drops
    bool since = false, killed = false;
    auto go = [&](::Op o)
    {
        a.apply(o);
        code.push_back(o);
        if (o == S0)
            written = true;
        else if (o == S1 || o == S2 || o == CHK)
            input |= !written;
        else if (o == SEED0 || o == SEED1 || o == BACKTO)
            pending = true;
        else if (o == CLRD)
            pending = false;
        else if (o == NEWREC || o == CLEARALL)
            written = input = pending = false;
        if (o == CLEARALL)
            freed = limited = false;
        if (o == MARK)
            since = false;
        since |= o == S0 || o == S1 || o == S2 || o == CHK || o == REG0 || o == REG1;
        killed |= o == KILL0;
        if (o == CLEARALL || o == NEWREC)
            killed = false;
        freed |= o == KILL0 || o == CHK;
        limited |= o == CLRAFTER;
        if (c.tracing())
            c.log("%s", opn[o]);
    };
    if (c.param2)
        for (::Op o : {REG0, REG1, NEWREC, S0}) go(o);
    uint64_t h = 5;
    for (int i = 0; i < c.param; ++i)
    {
        std::vector< ::Op> en;
        for (int o = 0; o < NOPS; ++o)
            if (a.enabled(::Op(o)) && !(o == KILL0 && (input || pending || limited)) && !(o == CLRAFTER && freed) && !(o == RESET && freed && since) &&
                !(o == BACK && a.chk && killed) && !(o == BACKTO && killed) &&
                !(o == CHK && limited))
                en.push_back(::Op(o));
        go(en[c.choose(int(en.size()))]);
        h = mc::mix(h, code.back());
        c.state(h);
    }
    compare(c, 5, code, 0);
}
// sequences over the rest of the library: param = length
static void sequences(Ctx& c)
{
    std::vector<int> code;
    if (c.choose(2))
        code = {0, 1};
    uint64_t h = 6;
    for (int i = 0; i < c.param; ++i)
    {
        code.push_back(c.choose(23));
        h = mc::mix(h, code.back());
        c.state(h);
    }
    if (c.tracing())
        for (int k : code) c.log("%d", k);
    compare(c, 6, code, 1e-11);
}
static void functions(Ctx& c)
{
    std::vector<int> code{1000, 0, 0};
    double v[64];
    int n = V[0].run(7, code.data(), 3, v, nullptr, 64);
    code[0] = c.choose(int(v[n - 1]));
    code[1] = c.choose(12);
    code[2] = c.choose(12);
    c.state(mc::mix(mc::mix(code[0], code[1]), code[2]));
    compare(c, 7, code, 1e-11);
}

int main(int argc, char** argv)
{
    const char* libs = getenv("XV_LIBS");
    for (std::string s(libs ? libs : ""); !s.empty();)
    {
        size_t p = s.find(':');
        std::string f = s.substr(0, p);
        s = p == std::string::npos ? "" : s.substr(p + 1);
        void* h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h)
        {
            fprintf(stderr, "%s\n", dlerror());
            return 3;
        }
        V.push_back({RunF(dlsym(h, "xv_run")), ((const char* (*)())dlsym(h, "xv_name"))()});
    }
    if (V.size() < 2)
    {
        fprintf(stderr, "no builds in XV_LIBS\n");
        return 3;
    }
    std::vector<mc::Space> S;
    S.push_back({"functions", "every function on a 12x12 argument lattice", functions, 0, 0, 2, 3});
    S.push_back({"reverse-2", "reverse mode, full alphabet, length 2", programs, 2, 0, 2, 3});
    S.push_back({"forward-2", "forward mode, full alphabet, length 2", programs, 2, 1, 2, 3});
    S.push_back({"float-2", "reverse mode in float, full alphabet, length 2", programs, 2, 4, 2, 2});
    S.push_back({"areal-1", "adjoint over adjoint, full alphabet", programs, 1, 2, 2, 3});
    S.push_back({"freal-1", "forward over adjoint, full alphabet", programs, 1, 3, 2, 3});
    S.push_back({"areal-2", "adjoint over adjoint, full alphabet, length 2", programs, 2, 2, 2, 3});
    S.push_back({"freal-2", "forward over adjoint, full alphabet, length 2", programs, 2, 3, 2, 3});
    S.push_back({"lives-5", "creation, destruction, copies, length 5", programs, 305, 0, 3, 3});
    S.push_back({"lives-6", "creation, destruction, copies, length 6", programs, 306, 0, 3, 2});
    S.push_back({"reverse-3", "reverse mode, 7 kinds of operation, length 3", programs, 203, 0, 2, 3});
    S.push_back({"sessions-3", "21-operation tape sessions", sessions, 3, 0, 2, 3});
    S.push_back({"sessions-p4", "21-operation tape sessions after a prologue", sessions, 4, 1, 3, 3});
    S.push_back({"sessions-5", "21-operation tape sessions", sessions, 5, 0, 3, 3});
    S.push_back({"sessions-p5", "21-operation tape sessions after a prologue", sessions, 5, 1, 3, 3});
    S.push_back({"sessions-6", "21-operation tape sessions", sessions, 6, 0, 3, 2});
    S.push_back({"sessions-p6", "21-operation tape sessions after a prologue", sessions, 6, 1, 3, 2});
    S.push_back({"reverse-4", "reverse mode, 4 kinds of operation, length 4", programs, 304, 0, 2, 2});
    S.push_back({"everything-2", "23 operations over all parts of the library", sequences, 2, 0, 2, 3});
    S.push_back({"everything-3", "23 operations over all parts of the library", sequences, 3, 0, 3, 3});
    S.push_back({"everything-4", "23 operations over all parts of the library", sequences, 4, 0, 3, 2});
    return mc::mainImpl(argc, argv, S);
}
