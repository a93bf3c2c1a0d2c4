// C13: threads that use their own tapes do not influence each other: every interleaving of their operations under a
// controlled scheduler, with all memory accesses within the operations checked for conflicts
#include "../lib/race.hpp"
#include "../lib/mc.hpp"
#include "../lib/multi.hpp"
#include <dlfcn.h>
#include <atomic>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <thread>
#include <sys/wait.h>
#include <unistd.h>
typedef mc::Ctx Ctx;
using namespace multi;

// ---- threads under the scheduler
struct Worker
{
    std::thread th;
    sem_t go, done;
    int id = 0, cmd = 0;
    Sess* s = nullptr;
    enum
    {
        QUIT = -1,
        INIT = -2,
        END = -3
    };
    static void loop(Worker* w)
    {
        rt::tid = w->id;
        for (;;)
        {
            while (sem_wait(&w->go)) {}
            int c = w->cmd;
            rt::rec = true;
            if (c == INIT)
            {
                w->s = new Sess;
                w->s->init();
            }
            else if (c == END)
            {
                w->s->end();
                // the observations are read before this
            }
            else if (c >= 0)
                w->s->op(c);
            rt::rec = false;
            sem_post(&w->done);
            if (c == QUIT)
                break;
        }
        rt::tid = -1;
    }
    void start(int i)
    {
        id = i;
        sem_init(&go, 0, 0);
        sem_init(&done, 0, 0);
        th = std::thread(loop, this);
    }
    void run(int c)
    {
        rt::G.op[id] = c;
        cmd = c;
        sem_post(&go);
        while (sem_wait(&done)) {}
    }
    void stop()
    {
        run(QUIT);
        th.join();
    }
};
// new threads for every execution
struct Threads
{
    Worker w[rt::MAXT];
    int n;
    explicit Threads(int n_) : n(n_)
    {
        rt::begin();
        for (int i = 0; i < n; ++i) w[i].start(i);
    }
    void init()
    {
        for (int i = 0; i < n; ++i) w[i].run(Worker::INIT);
    }
    void end()
    {
        for (int i = 0; i < n; ++i) w[i].run(Worker::END);
    }
    ~Threads()
    {
        for (int i = 0; i < n; ++i) w[i].stop();
    }
};
static std::string symbol(void* pc)
{
    Dl_info d;
    char b[300];
    if (dladdr(pc, &d) && d.dli_sname)
        snprintf(b, sizeof b, "%.250s", d.dli_sname);
    else
        snprintf(b, sizeof b, "%p", pc);
    return b;
}
static const char* on(int op) { return op >= 0 ? opn[op] : op == Worker::INIT ? "creating variables" : "clean-up"; }
static void checkRace(Ctx& c)
{
    if (rt::G.overflow)
        c.fail("too many memory accesses for the table");
    if (rt::G.raced)
    {
        const rt::Race& r = rt::G.race;
        c.fail("data race: thread %d in '%s' (%s) %s memory at %s that thread %d accessed in '%s' (%s)", r.t, on(r.opt), symbol(r.pct).c_str(),
               r.wt ? "writes" : "reads", symbol((void*)r.addr).c_str(), r.u, on(r.opu), symbol(r.pcu).c_str());
    }
}
// static objects of the standard library are set up by the main thread
static void warmUp()
{
    static bool done = false;
    if (done)
        return;
    done = true;
    Sess s;
    s.init();
    s.op(NEWTAPE);
    s.op(INPUTS);
    for (int k = 0; k < NOPS; ++k) s.op(k);
    s.end();
}
typedef std::vector<int> Script;
static const Obs& solo(const Script& p)
{
    static std::map<Script, Obs> memo;
    auto it = memo.find(p);
    if (it != memo.end())
        return it->second;
    Obs& o = memo[p];
    Threads t(1);
    t.init();
    for (int k : p) t.w[0].run(k);
    o = t.w[0].s->o;
    t.end();
    return o;
}
static void compare(Ctx& c, const Obs& o, const Obs& ref, int thread)
{
    for (int i = 0; i < o.n || i < ref.n; ++i)
        if (i >= o.n || i >= ref.n || (!(o.v[i] == ref.v[i]) && !(o.v[i] != o.v[i] && ref.v[i] != ref.v[i])))
            c.fail("thread %d: observation %d is %.17g, when alone %.17g", thread, i, i < o.n ? o.v[i] : -999, i < ref.n ? ref.v[i] : -999);
}

// every interleaving of every tuple of scripts; param: operations per thread; param2: threads, alphabet
static const int alpha[][8] = {{NEWTAPE, INPUTS, STMT, BACK, CHK, ACTIVATION, ENDTAPE, -1},
                               {STMT, KILL, BACK, CHK, RESET, CLEAR, ENDTAPE, -1},
                               {STMT, BACK, CHK, ENDTAPE, -1},
                               {STMT, BACK, -1}};
static void interleave(Ctx& c)
{
    warmUp();
    int n = c.param2 / 10, a = c.param2 % 10, len = c.param;
    int na = 0;
    while (alpha[a][na] >= 0) ++na;
    Script s[rt::MAXT];
    for (int i = 0; i < n; ++i)
    {
        if (a != 0)
            s[i] = {NEWTAPE, INPUTS};
        for (int k = 0; k < len; ++k)
        {
            int x = c.choose(na);
            s[i].push_back(alpha[a][x]);
        }
        // threads are alike: unordered tuples are enough
        if (i && s[i] < s[i - 1])
            throw mc::Cut();
    }
    uint64_t h = a;
    for (int i = 0; i < n; ++i)
        for (int k : s[i]) h = mc::mix(h, k);
    Obs ref[rt::MAXT];
    for (int i = 0; i < n; ++i) ref[i] = solo(s[i]);
    Threads t(n);
    t.init();
    size_t at[rt::MAXT] = {0};
    // prefixes that set up tapes run first, in turn
    if (a != 0)
        for (int k = 0; k < 2; ++k)
            for (int i = 0; i < n; ++i) t.w[i].run(s[i][at[i]++]);
    for (;;)
    {
        int r[rt::MAXT], m = 0;
        for (int i = 0; i < n; ++i)
            if (at[i] < s[i].size())
                r[m++] = i;
        if (!m)
            break;
        int i = r[m == 1 ? 0 : c.choose(m)];
        if (c.tracing())
            c.log("thread %d: %s", i, opn[s[i][at[i]]]);
        t.w[i].run(s[i][at[i]++]);
        c.step();
        for (int j = 0; j < n; ++j) h = mc::mix(h, at[j]);
        c.state(h);
    }
    Obs got[rt::MAXT];
    for (int i = 0; i < n; ++i) got[i] = t.w[i].s->o;
    t.end();
    c.count(0, rt::G.accesses);
    for (int i = 0; i < n; ++i) compare(c, got[i], ref[i], i);
    checkRace(c);
    for (int i = 0; i < n; ++i)
        for (int k = 0; k < got[i].n; ++k) h = mc::mix(h, mc::bits(got[i].v[k]));
    c.outcome(h);
}

// all operations against all: scripts (new tape, inputs, op, op') in each of two threads, in three orders
static void conflict(Ctx& c)
{
    warmUp();
    Script s[2];
    for (int i = 0; i < 2; ++i)
    {
        s[i] = {NEWTAPE, INPUTS};
        if (i && c.param2)
            s[i] = {PASSIVE, PASSIVE};  // no tape
        for (int k = 0; k < c.param; ++k) s[i].push_back(c.choose(NOPS));
        if (i && !c.param2 && s[1] < s[0])
            throw mc::Cut();
    }
    int order = c.choose(3);
    Obs ref[2] = {solo(s[0]), solo(s[1])};
    Threads t(2);
    t.init();
    uint64_t h = order;
    auto step = [&](int i, int k)
    {
        if (c.tracing())
            c.log("thread %d: %s", i, opn[s[i][k]]);
        t.w[i].run(s[i][k]);
        c.step();
        h = mc::mix(mc::mix(h, i), s[i][k]);
        c.state(h);
    };
    int len = int(s[0].size());
    if (order < 2)
        for (int i = 0; i < 2; ++i)
            for (int k = 0; k < len; ++k) step(order ? 1 - i : i, k);
    else
        for (int k = 0; k < len; ++k)
            for (int i = 0; i < 2; ++i) step(i, k);
    Obs got[2] = {t.w[0].s->o, t.w[1].s->o};
    t.end();
    c.count(0, rt::G.accesses);
    for (int i = 0; i < 2; ++i) compare(c, got[i], ref[i], i);
    checkRace(c);
    for (int i = 0; i < 2; ++i)
        for (int k = 0; k < got[i].n; ++k) h = mc::mix(h, mc::bits(got[i].v[k]));
    c.outcome(h);
}

// the first use in a process: every pair of operations, each in a new process
static void firstUse(Ctx& c)
{
    int a = c.choose(NOPS), b = c.choose(NOPS), tapes = c.choose(2);
    if (c.tracing())
        c.log("thread 0: %s; thread 1: %s%s", opn[a], opn[b], tapes ? " (with tapes)" : "");
    int fd[2];
    if (pipe(fd))
        c.fail("pipe");
    pid_t p = fork();
    if (p == 0)
    {
        close(fd[0]);
        std::string msg;
        {
            Threads t(2);
            t.init();
            if (tapes)
                for (int k : {NEWTAPE, INPUTS})
                    for (int i = 0; i < 2; ++i) t.w[i].run(k);
            t.w[0].run(a);
            t.w[1].run(b);
            Obs o[2] = {t.w[0].s->o, t.w[1].s->o};
            t.end();
            try
            {
                if (a == b)
                    compare(c, o[1], o[0], 1);
                checkRace(c);
            }
            catch (mc::Violation& v)
            {
                msg = v.what;
            }
        }
        msg += '\n';
        if (write(fd[1], msg.data(), msg.size()) < 0)
            _exit(3);
        _exit(0);
    }
    close(fd[1]);
    std::string msg;
    char buf[512];
    for (ssize_t r; (r = read(fd[0], buf, sizeof buf)) > 0;) msg.append(buf, size_t(r));
    close(fd[0]);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    c.step();
    c.state(mc::mix(mc::mix(a, b), tapes));
    c.outcome(mc::mix(a, b));
    if (st || msg.empty())
        c.fail("crash (status %d)", st);
    if (msg != "\n")
        c.fail("%s", msg.substr(0, msg.size() - 1).c_str());
}

// the detector itself: conflicts on a global, a heap object and a lazily set up static are found, ordered accesses are not
int g_shared;
static std::atomic<int> g_flag;
__attribute__((noinline)) static void selfOp(int k, double* heap)
{
    switch (k)
    {
        case 0: break;
        case 1: g_shared = 1; break;
        case 2:
            if (g_shared == 12345)
                heap[0] = 1;
            break;
        case 3: heap[1] = 2; break;
        case 4: heap[2] += 2; break;
        case 5:
            heap[3] = 1;
            g_flag.store(1, std::memory_order_release);
            break;
        case 6:
            if (g_flag.load(std::memory_order_acquire))
                heap[3] = 2;
            break;
        case 7:
        {
            static const std::vector<int> table{1, 2, int(heap[5])};
            heap[4 + 2 * rt::tid] = table[1];
            break;
        }
    }
}
static void selfTest(Ctx& c)
{
    int a = c.choose(8), b = c.choose(8);
    // 5 publishes heap[3], 6 overwrites it once it is published: only 5 before 6 is ordered
    bool expect = (a == 1 && (b == 1 || b == 2)) || (a == 2 && b == 1) || (a == 3 && b == 3) || (a == 4 && b == 4) || (a == 5 && b == 5);
    g_flag.store(0);
    rt::begin();
    double* heap = new double[10]();
    sem_t done, go;
    sem_init(&done, 0, 0);
    sem_init(&go, 0, 0);
    std::thread th[2];
    for (int i = 0; i < 2; ++i)
    {
        th[i] = std::thread(
            [&, i]
            {
                rt::tid = i;
                rt::rec = true;
                selfOp(i ? b : a, heap);
                rt::rec = false;
                rt::tid = -1;
                sem_post(&done);
                while (sem_wait(&go)) {}  // both exist at the same time
            });
        while (sem_wait(&done)) {}
    }
    for (int i = 0; i < 2; ++i) sem_post(&go);
    for (auto& t : th) t.join();
    delete[] heap;
    c.step();
    c.state(mc::mix(a, b));
    c.outcome(rt::G.raced);
    if (rt::G.raced != expect)
        c.fail("the race detector reports %d for %d and %d", int(rt::G.raced), a, b);
}

int main(int argc, char** argv)
{
    std::vector<mc::Space> S;
    S.push_back({"detector", "the conflict detection on known cases", selfTest, 0, 0, 1, 3});
    S.push_back({"first-use", "every pair of 23 operations as the first of a process, in two threads", firstUse, 0, 0, 2, 3});
    S.push_back({"conflicts-1", "every operation against every other, three orders", conflict, 1, 0, 2, 3});
    S.push_back({"conflicts-passive-1", "every operation against every other in a thread without a tape, three orders", conflict, 1, 1, 2, 3});
    S.push_back({"three", "3 threads with tapes, 4 operations, every interleaving", interleave, 2, 32, 5, 3});
#ifdef LIGHT
    S.push_back({"two-create-2", "2 threads, 7 operations from nothing, every interleaving", interleave, 2, 20, 4, 3});
    S.push_back({"two-record-2", "2 threads with tapes, 7 operations, every interleaving", interleave, 2, 21, 4, 3});
    const int q = 2;
#else
    const int q = 3;
#endif
    S.push_back({"conflicts-2", "every pair of operations against every other, three orders", conflict, 2, 0, 2, q});
    S.push_back({"conflicts-passive-2", "every pair of operations against every other in a thread without a tape, three orders", conflict, 2, 1, 2, 2});
    S.push_back({"two-create", "2 threads, 7 operations from nothing, every interleaving", interleave, 3, 20, 4, q});
    S.push_back({"two-record", "2 threads with tapes, 7 operations, every interleaving", interleave, 3, 21, 4, 2});
    S.push_back({"two-record-4", "2 threads with tapes, 4 operations, every interleaving", interleave, 4, 22, 4, 2});
    S.push_back({"two-record-5", "2 threads with tapes, 2 operations, every interleaving", interleave, 5, 23, 4, 2});
    S.push_back({"three-3", "3 threads with tapes, 2 operations, every interleaving", interleave, 3, 33, 5, 2});
    return mc::mainImpl(argc, argv, S);
}
