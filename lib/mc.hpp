// Bounded exhaustive explorer used by all harnesses.
//
// A "space" is a function body(Ctx&) that makes every decision through Ctx::choose(n).  The explorer
// re-executes the body for every possible sequence of choices (depth-first, replay based), so what is
// enumerated is exactly the tree of choices, and each leaf is one execution of the real code.
// Workers are forked processes that claim sub-trees (prefixes of a given depth) from a shared counter,
// so a crash, assertion failure, sanitizer report or hang of the code under test is attributed to the
// choice sequence that was running.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc
{
struct Cut
{
};
struct Violation
{
    std::string what, sig;
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 32;
    return h;
}
inline uint64_t bits(double d)
{
    uint64_t u;
    if (d == 0)
        d = 0;
    std::memcpy(&u, &d, 8);
    return u;
}

static const int MAXPATH = 4096;
// shared between the parent and one worker
struct WorkerShm
{
    volatile uint64_t heartbeat;
    volatile uint64_t runs, transitions;
    volatile int pathLen;
    volatile int path[MAXPATH];
    volatile int violated;  // 1 = violation text filled in
    volatile int done;
    char what[4096];
    char sig[512];
    volatile uint64_t nstates, noutcomes, maxDepth;
    volatile uint64_t counters[16];
    volatile int capped;
};

struct HashSet
{
    std::vector<uint64_t> t;
    size_t n = 0;
    size_t cap;
    bool capped = false;
    explicit HashSet(size_t maxn) : t(1 << 12, 0), cap(maxn) {}
    void insert(uint64_t h)
    {
        if (h == 0)
            h = 1;
        size_t m = t.size() - 1, i = h & m;
        while (t[i] != 0)
        {
            if (t[i] == h)
                return;
            i = (i + 1) & m;
        }
        if (n >= cap)
        {
            capped = true;
            return;
        }
        t[i] = h;
        if (++n * 2 > t.size())
        {
            std::vector<uint64_t> o(t.size() * 2, 0);
            o.swap(t);
            m = t.size() - 1;
            for (uint64_t x : o)
                if (x)
                {
                    size_t j = x & m;
                    while (t[j]) j = (j + 1) & m;
                    t[j] = x;
                }
        }
    }
};

class Ctx
{
  public:
    // ---- used by bodies
    int choose(int n)
    {
        if (n <= 0)
        {
            std::fprintf(stderr, "mc: choose(%d)\n", n);
            _exit(97);
        }
        int v;
        if (pos_ < path_.size())
        {
            v = path_[pos_];
            if (fixed_ && v >= n)
            {
                std::fprintf(stderr, "mc: replay diverged\n");
                _exit(96);
            }
            arity_[pos_] = n;
        }
        else
        {
            v = 0;
            path_.push_back(0);
            arity_.push_back(n);
        }
        ++pos_;
        if (shm_)
        {
            if (pos_ <= MAXPATH)
                shm_->path[pos_ - 1] = v;
            shm_->pathLen = int(pos_);
        }
        if (!fixed_ && int(pos_) == cutDepth_ && !owned_)
        {
            // entering a new sub-tree of the sharding depth
            owned_ = claim_(*this);
            if (!owned_)
                throw Cut();
        }
        return v;
    }
    // Stateful pruning: true if this worker already explored a state with this hash with at least as many
    // remaining steps.  Only asked at the frontier (never on the replayed prefix).
    bool seen(uint64_t h, int remaining)
    {
        if (fixed_ || pos_ < path_.size() || !owned_)
            return false;
        auto it = visited_.find(h);
        if (it != visited_.end() && it->second >= remaining)
            return true;
        if (it != visited_.end())
            it->second = remaining;
        else if (visited_.size() < (1u << 22))
            visited_[h] = remaining;
        return false;
    }
    bool tracing() const { return tracing_; }
    void log(const char* f, ...) __attribute__((format(printf, 2, 3)))
    {
        if (!tracing_)
            return;
        char b[2048];
        va_list a;
        va_start(a, f);
        vsnprintf(b, sizeof b, f, a);
        va_end(a);
        trace_ += b;
        trace_ += '\n';
    }
    void step() { ++transitions_; }
    void steps(uint64_t n) { transitions_ += n; }
    void state(uint64_t h) { states_.insert(h); }
    void outcome(uint64_t h) { outcomes_.insert(h); }
    void count(int i, uint64_t n = 1) { counters_[i] += n; }
    [[noreturn]] void fail(const char* f, ...) __attribute__((format(printf, 2, 3)))
    {
        char b[2048];
        va_list a;
        va_start(a, f);
        vsnprintf(b, sizeof b, f, a);
        va_end(a);
        throw Violation{b, sig_};
    }
    void expectEq(double got, double want, const char* what, int i = -1, int j = -1)
    {
        if (!(got == want) && !(got != got && want != want))
        {
            if (i < 0)
                fail("%s: got %.17g, expected %.17g", what, got, want);
            else if (j < 0)
                fail("%s[%d]: got %.17g, expected %.17g", what, i, got, want);
            else
                fail("%s[%d,%d]: got %.17g, expected %.17g", what, i, j, got, want);
        }
    }
    void expect(bool ok, const char* what)
    {
        if (!ok)
            fail("%s", what);
    }
    // the specific input / history identity used to match listed known findings
    void setSig(const std::string& s) { sig_ = s; }
    const std::string& sig() const { return sig_; }
    // Report a violation if not listed as a known finding with exactly this signature; returns normally
    // (true) when it is a listed one, so that enumeration goes on behind it.
    bool failKnown(const std::string& sig, const std::string& what)
    {
        if (known_)
            for (auto& k : *known_)
                if (k == sig)
                {
                    knownHit_->insert(sig);
                    return true;
                }
        throw Violation{what, sig};
    }
    // data for bodies
    int tier = 0;  // 0 quick, 1 thorough
    int param = 0, param2 = 0;

    // ---- engine
    std::vector<int> path_, arity_;
    size_t pos_ = 0;
    bool tracing_ = false, fixed_ = false, owned_ = false;
    int cutDepth_ = 0;
    std::string trace_, sig_;
    uint64_t transitions_ = 0;
    std::unordered_map<uint64_t, int> visited_;
    HashSet states_{1u << 21}, outcomes_{1u << 20};
    uint64_t counters_[16] = {0};
    WorkerShm* shm_ = nullptr;
    std::function<bool(Ctx&)> claim_;
    const std::vector<std::string>* known_ = nullptr;
    std::unordered_set<std::string>* knownHit_ = nullptr;

    // next path in DFS order; false when exhausted
    bool advance()
    {
        path_.resize(pos_);
        arity_.resize(pos_);
        while (!path_.empty())
        {
            if (path_.back() + 1 < arity_.back())
            {
                ++path_.back();
                break;
            }
            path_.pop_back();
            arity_.pop_back();
        }
        if (path_.empty())
            return false;
        if (int(path_.size()) <= cutDepth_)
            owned_ = false;
        return true;
    }
};

typedef void (*Body)(Ctx&);
struct Space
{
    std::string name, desc;
    Body body;
    int param, param2;
    int shardDepth;
    int tierMask;  // 1 quick, 2 thorough, 3 both
};

struct Result
{
    uint64_t runs = 0, transitions = 0, states = 0, outcomes = 0, maxDepth = 0;
    uint64_t counters[16] = {0};
    bool capped = false, exhaustive = true;
    double wall = 0;
    std::vector<std::string> samples;
    std::unordered_set<std::string> knownHit;
    bool violated = false;
    std::string what, sig, trace;
    std::vector<int> path;
    bool reproduced = false;
};

inline double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

inline std::string jsonEsc(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
            o += '\\', o += char(c);
        else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += char(c);
    }
    return o + "\"";
}

// run the body once on a fixed path with tracing
struct RunOut
{
    bool violated = false;
    std::string what, sig, trace;
};
inline void invoke(Body body, Ctx& c, RunOut& o)
{
    try
    {
        body(c);
    }
    catch (Cut&)
    {
        throw;
    }
    catch (Violation& v)
    {
        o.violated = true;
        o.what = v.what;
        o.sig = v.sig;
    }
    catch (std::exception& e)
    {
        o.violated = true;
        o.what = std::string("unexpected exception: ") + e.what();
        o.sig = c.sig();
    }
    catch (const char* e)
    {
        o.violated = true;
        o.what = std::string("unexpected exception (char*): ") + e;
    }
}
inline RunOut runFixed(const Space& sp, int tier, const std::vector<int>& path, Ctx* share = nullptr)
{
    RunOut o;
    Ctx c;
    c.tier = tier;
    c.param = sp.param;
    c.param2 = sp.param2;
    c.path_ = path;
    c.arity_.assign(path.size(), 0);
    c.fixed_ = true;
    c.tracing_ = true;
    if (share)
    {
        c.known_ = share->known_;
        c.knownHit_ = share->knownHit_;
    }
    invoke(sp.body, c, o);
    o.trace = c.trace_;
    return o;
}

inline std::string pathStr(const std::vector<int>& p)
{
    std::string s;
    for (int x : p) s += (s.empty() ? "" : ",") + std::to_string(x);
    return s;
}

struct Options
{
    int tier = 0, jobs = 8;
    double deadline = 1e18;
    double hang = 30;
    size_t asLimitMB = 4096;
    bool sanitizer = false;
    std::vector<std::string> known;
};

inline void workerMain(const Space& sp, const Options& opt, WorkerShm* shm,
                       std::atomic<uint64_t>* nextOrd, std::atomic<int>* stop, int wid,
                       const std::string& tmpPrefix)
{
    if (!opt.sanitizer && opt.asLimitMB)
    {
        rlimit r;
        r.rlim_cur = r.rlim_max = rlim_t(opt.asLimitMB) << 20;
        setrlimit(RLIMIT_AS, &r);
    }
    rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    Ctx c;
    c.tier = opt.tier;
    c.param = sp.param;
    c.param2 = sp.param2;
    c.cutDepth_ = sp.shardDepth;
    c.shm_ = shm;
    std::unordered_set<std::string> knownHit;
    c.known_ = &opt.known;
    c.knownHit_ = &knownHit;
    uint64_t mine = nextOrd->fetch_add(1), ord = 0;
    c.claim_ = [&](Ctx&)
    {
        uint64_t me = ord++;
        if (me == mine)
        {
            mine = nextOrd->fetch_add(1);
            return true;
        }
        return false;
    };
    std::vector<std::string> samples;
    uint64_t runs = 0;
    bool capped = false;
    for (;;)
    {
        c.pos_ = 0;
        c.sig_.clear();
        RunOut o;
        bool complete = true;
        uint64_t before = c.transitions_;
        try
        {
            invoke(sp.body, c, o);
            if (int(c.pos_) < c.cutDepth_ && !c.owned_)
            {
                // finished above the sharding depth: belongs to exactly one worker too
                uint64_t me = ord++;
                if (me == mine)
                    mine = nextOrd->fetch_add(1);
                else
                {
                    complete = false;
                    c.transitions_ = before;
                }
            }
        }
        catch (Cut&)
        {
            complete = false;
            c.transitions_ = before;
        }
        if (complete)
        {
            ++runs;
            shm->runs = runs;
            shm->transitions = c.transitions_;
            if (c.pos_ > shm->maxDepth)
                shm->maxDepth = c.pos_;
            if (!o.violated && (runs & (runs - 1)) == 0 && runs <= 1024)
            {
                // determinism: replay this execution twice, traces must agree
                std::vector<int> p(c.path_.begin(), c.path_.begin() + c.pos_);
                RunOut a = runFixed(sp, opt.tier, p, &c), b = runFixed(sp, opt.tier, p, &c);
                if (a.trace != b.trace || a.violated || b.violated)
                {
                    o.violated = true;
                    o.what = a.violated ? a.what
                             : b.violated
                                 ? b.what
                                 : "non-deterministic behaviour: two replays of one choice sequence differ";
                }
                if (wid == 0 || runs >= 64)
                    samples.push_back(pathStr(p) + "\n" + a.trace);
            }
        }
        ++shm->heartbeat;
        if (o.violated)
        {
            snprintf(shm->what, sizeof shm->what, "%s", o.what.c_str());
            snprintf(shm->sig, sizeof shm->sig, "%s", o.sig.c_str());
            shm->violated = 1;
            stop->store(1);
            break;
        }
        if (stop->load(std::memory_order_relaxed))
            break;
        if ((runs & 255) == 0 && now() > opt.deadline)
        {
            capped = true;
            break;
        }
        if (!c.advance())
            break;
    }
    shm->capped = capped;
    shm->nstates = c.states_.n;
    for (int i = 0; i < 16; ++i) shm->counters[i] = c.counters_[i];
    FILE* f = fopen((tmpPrefix + std::to_string(wid)).c_str(), "wb");
    if (f)
    {
        auto dump = [&](HashSet& h)
        {
            uint64_t n = h.n;
            fwrite(&n, 8, 1, f);
            for (uint64_t x : h.t)
                if (x)
                    fwrite(&x, 8, 1, f);
            uint64_t cp = h.capped;
            fwrite(&cp, 8, 1, f);
        };
        dump(c.states_);
        dump(c.outcomes_);
        std::string s;
        if (samples.size() > 4)
            samples.erase(samples.begin(), samples.end() - 4);
        for (auto& x : samples) s += x + std::string(1, '\0');
        uint64_t n = s.size();
        fwrite(&n, 8, 1, f);
        fwrite(s.data(), 1, n, f);
        s.clear();
        for (auto& x : knownHit) s += x + std::string(1, '\0');
        n = s.size();
        fwrite(&n, 8, 1, f);
        fwrite(s.data(), 1, n, f);
        fclose(f);
    }
    shm->done = 1;
    fflush(stdout);
    _exit(0);
}

// replay in a child process so that crashes and hangs are classified
inline RunOut replayChild(const Space& sp, const Options& opt, const std::vector<int>& path, double limit)
{
    struct Shm
    {
        int state;
        char what[4096], sig[512];
        char trace[1 << 16];
    };
    Shm* s = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0)
    {
        rlimit core = {0, 0};
        setrlimit(RLIMIT_CORE, &core);
        if (!opt.sanitizer && opt.asLimitMB)
        {
            rlimit r;
            r.rlim_cur = r.rlim_max = rlim_t(opt.asLimitMB) << 20;
            setrlimit(RLIMIT_AS, &r);
        }
        int fd = open("/dev/null", O_WRONLY);
        if (fd >= 0 && !getenv("MC_VERBOSE"))
        {
            dup2(fd, 2);
        }
        RunOut o;
        Ctx c;
        c.tier = opt.tier;
        c.param = sp.param;
        c.param2 = sp.param2;
        c.path_ = path;
        c.arity_.assign(path.size(), 0);
        c.fixed_ = true;
        c.tracing_ = true;
        std::unordered_set<std::string> kh;
        c.known_ = &opt.known;
        c.knownHit_ = &kh;
        // keep the trace visible even if we crash: body logs into trace_, copied by a signal-safe hook
        static Ctx* gc;
        static Shm* gs;
        gc = &c;
        gs = s;
        auto h = [](int sig)
        {
            size_t n = std::min(sizeof(gs->trace) - 1, gc->trace_.size());
            memcpy(gs->trace, gc->trace_.data(), n);
            _exit(128 + sig);
        };
        for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGTERM})
            if (!opt.sanitizer || sg == SIGABRT || sg == SIGTERM)
                signal(sg, h);
        invoke(sp.body, c, o);
        snprintf(s->what, sizeof s->what, "%s", o.what.c_str());
        snprintf(s->sig, sizeof s->sig, "%s", o.sig.c_str());
        snprintf(s->trace, sizeof s->trace, "%s", c.trace_.c_str());
        s->state = o.violated ? 2 : 1;
        _exit(0);
    }
    double t0 = now();
    int st = 0;
    bool hung = false;
    for (;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid)
            break;
        if (now() - t0 > limit)
        {
            hung = true;
            kill(pid, SIGTERM);
            usleep(200000);
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            break;
        }
        usleep(2000);
    }
    RunOut o;
    o.trace = s->trace;
    if (s->state == 1)
        ;
    else if (s->state == 2)
    {
        o.violated = true;
        o.what = s->what;
        o.sig = s->sig;
    }
    else
    {
        o.violated = true;
        char b[128];
        if (hung)
            snprintf(b, sizeof b, "hang: no result within %.0f s", limit);
        else
            snprintf(b, sizeof b, "crash: process ended with status %d%s", WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st),
                     opt.sanitizer ? " (sanitizer report or signal)" : " (signal/abort)");
        o.what = b;
    }
    munmap(s, sizeof(Shm));
    return o;
}

inline Result explore(const Space& sp, const Options& opt, const std::string& tmpPrefix)
{
    Result R;
    double t0 = now();
    int J = opt.jobs;
    size_t sz = sizeof(WorkerShm) * J + 4096;
    char* base = (char*)mmap(0, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto* nextOrd = new (base) std::atomic<uint64_t>(0);
    auto* stop = new (base + 64) std::atomic<int>(0);
    WorkerShm* shm = (WorkerShm*)(base + 4096);
    std::vector<pid_t> pid(J);
    fflush(stdout);
    fflush(stderr);
    for (int i = 0; i < J; ++i)
    {
        pid[i] = fork();
        if (pid[i] == 0)
            workerMain(sp, opt, &shm[i], nextOrd, stop, i, tmpPrefix);
    }
    std::vector<uint64_t> hb(J, 0);
    std::vector<double> hbT(J, now());
    int live = J;
    std::vector<bool> alive(J, true);
    auto takePath = [&](int i)
    {
        int n = std::min<int>(int(shm[i].pathLen), MAXPATH);
        R.path.assign(shm[i].path, shm[i].path + n);
    };
    auto report = [&](int i, const std::string& what)
    {
        if (!R.violated)
        {
            R.violated = true;
            R.what = what;
            R.sig = shm[i].sig;
            takePath(i);
        }
        stop->store(1);
    };
    while (live)
    {
        int st;
        pid_t r;
        while ((r = waitpid(-1, &st, WNOHANG)) > 0)
        {
            for (int i = 0; i < J; ++i)
                if (pid[i] == r)
                {
                    alive[i] = false;
                    --live;
                    if (shm[i].violated)
                        report(i, shm[i].what);
                    else if (WIFEXITED(st) && (WEXITSTATUS(st) == 96 || WEXITSTATUS(st) == 97))
                    {
                        fprintf(stderr, "mc: engine error %d in space %s\n", WEXITSTATUS(st), sp.name.c_str());
                        exit(3);
                    }
                    else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) || !shm[i].done)
                    {
                        char b[128];
                        snprintf(b, sizeof b, "crash: worker ended with status %d",
                                 WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
                        report(i, b);
                    }
                }
        }
        for (int i = 0; i < J; ++i)
            if (alive[i])
            {
                if (shm[i].heartbeat != hb[i])
                {
                    hb[i] = shm[i].heartbeat;
                    hbT[i] = now();
                }
                else if (now() - hbT[i] > opt.hang)
                {
                    std::vector<int> p;
                    int n = std::min<int>(int(shm[i].pathLen), MAXPATH);
                    p.assign(shm[i].path, shm[i].path + n);
                    kill(pid[i], SIGKILL);
                    snprintf(shm[i].what, sizeof shm[i].what, "hang: one execution made no progress for %.0f s", opt.hang);
                    shm[i].violated = 1;
                    hbT[i] = now();
                }
            }
        usleep(live ? 3000 : 0);
    }
    std::vector<uint64_t> S, O;
    for (int i = 0; i < J; ++i)
    {
        R.runs += shm[i].runs;
        R.transitions += shm[i].transitions;
        R.maxDepth = std::max<uint64_t>(R.maxDepth, uint64_t(shm[i].maxDepth));
        if (shm[i].capped)
            R.exhaustive = false;
        for (int k = 0; k < 16; ++k) R.counters[k] += shm[i].counters[k];
        std::string fn = tmpPrefix + std::to_string(i);
        FILE* f = fopen(fn.c_str(), "rb");
        if (f)
        {
            auto load = [&](std::vector<uint64_t>& v)
            {
                uint64_t n = 0, cp = 0;
                if (fread(&n, 8, 1, f) != 1)
                    return;
                size_t o = v.size();
                v.resize(o + n);
                if (n && fread(&v[o], 8, n, f) != n)
                    return;
                if (fread(&cp, 8, 1, f) == 1 && cp)
                    R.capped = true;
            };
            load(S);
            load(O);
            auto loadS = [&]()
            {
                std::vector<std::string> out;
                uint64_t n = 0;
                if (fread(&n, 8, 1, f) != 1)
                    return out;
                std::string s(n, 0);
                if (n && fread(&s[0], 1, n, f) != n)
                    return out;
                size_t b = 0;
                while (b < s.size())
                {
                    size_t e = s.find('\0', b);
                    out.push_back(s.substr(b, e - b));
                    b = e + 1;
                }
                return out;
            };
            for (auto& x : loadS())
                if (R.samples.size() < 3)
                    R.samples.push_back(x);
            for (auto& x : loadS()) R.knownHit.insert(x);
            fclose(f);
            unlink(fn.c_str());
        }
    }
    auto uniq = [](std::vector<uint64_t>& v)
    {
        std::sort(v.begin(), v.end());
        return uint64_t(std::unique(v.begin(), v.end()) - v.begin());
    };
    R.states = uniq(S);
    R.outcomes = uniq(O);
    munmap(base, sz);
    if (R.violated)
    {
        R.exhaustive = false;
        RunOut o = replayChild(sp, opt, R.path, opt.hang * 2);
        R.reproduced = o.violated;
        R.trace = o.trace;
        if (o.violated && R.what.compare(0, 5, "crash") == 0)
            R.what = o.what;
    }
    R.wall = now() - t0;
    return R;
}

// ---- main program shared by all harnesses
inline int mainImpl(int argc, char** argv, const std::vector<Space>& spaces)
{
    Options opt;
    std::string out, replaySpace, replayPath, only;
    bool replay = false, list = false;
    double budget = 1e9;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--tier")
            opt.tier = next() == "thorough";
        else if (a == "--jobs")
            opt.jobs = atoi(next().c_str());
        else if (a == "--out")
            out = next();
        else if (a == "--budget")
            budget = atof(next().c_str());
        else if (a == "--known")
            opt.known.push_back(next());
        else if (a == "--only")
            only = next();
        else if (a == "--list")
            list = true;
        else if (a == "--replay")
        {
            replay = true;
            replaySpace = next();
            replayPath = next();
        }
    }
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(thread_sanitizer)
    opt.sanitizer = true;
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
    opt.sanitizer = true;
#endif
    if (list)
    {
        for (auto& s : spaces) printf("%s [%d] %s\n", s.name.c_str(), s.tierMask, s.desc.c_str());
        return 0;
    }
    if (replay)
    {
        std::vector<int> p;
        size_t b = 0;
        while (b < replayPath.size())
        {
            size_t e = replayPath.find(',', b);
            if (e == std::string::npos)
                e = replayPath.size();
            p.push_back(atoi(replayPath.substr(b, e - b).c_str()));
            b = e + 1;
        }
        for (auto& s : spaces)
            if (s.name == replaySpace)
            {
                setenv("MC_VERBOSE", "1", 1);
                RunOut o = replayChild(s, opt, p, 120);
                printf("%s", o.trace.c_str());
                printf("%s %s\n", o.violated ? "VIOLATED:" : "no violation", o.what.c_str());
                return o.violated ? 1 : 0;
            }
        fprintf(stderr, "no space %s\n", replaySpace.c_str());
        return 2;
    }
    opt.deadline = now() + budget;
    std::string js = "{\"spaces\":[";
    bool bad = false, first = true;
    std::string tmp = out + ".tmp.";
    for (auto& s : spaces)
    {
        if (!(s.tierMask & (opt.tier ? 2 : 1)))
            continue;
        if (!only.empty() && s.name != only)
            continue;
        Result r = explore(s, opt, tmp);
        fprintf(stderr, "  space %-28s runs=%llu transitions=%llu states=%llu outcomes=%llu depth=%llu %.1fs%s%s\n",
                s.name.c_str(), (unsigned long long)r.runs, (unsigned long long)r.transitions,
                (unsigned long long)r.states, (unsigned long long)r.outcomes,
                (unsigned long long)r.maxDepth, r.wall, r.exhaustive ? "" : " CAPPED",
                r.violated ? (" VIOLATION " + r.what).c_str() : "");
        if (!first)
            js += ",";
        first = false;
        char b[1024];
        snprintf(b, sizeof b,
                 "{\"runs\":%llu,\"transitions\":%llu,\"states\":%llu,\"outcomes\":%llu,\"max_choices\":%llu,"
                 "\"hash_capped\":%s,\"exhaustive\":%s,\"wall_s\":%.3f,\"violated\":%s,\"reproduced\":%s,",
                 (unsigned long long)r.runs, (unsigned long long)r.transitions, (unsigned long long)r.states,
                 (unsigned long long)r.outcomes, (unsigned long long)r.maxDepth, r.capped ? "true" : "false",
                 r.exhaustive ? "true" : "false", r.wall, r.violated ? "true" : "false",
                 r.reproduced ? "true" : "false");
        js += b;
        js += "\"name\":" + jsonEsc(s.name) + ",\"desc\":" + jsonEsc(s.desc);
        js += ",\"counters\":[";
        for (int k = 0; k < 16; ++k) js += (k ? "," : "") + std::to_string(r.counters[k]);
        js += "],\"known_hit\":[";
        bool f2 = true;
        for (auto& k : r.knownHit)
        {
            js += (f2 ? "" : ",") + jsonEsc(k);
            f2 = false;
        }
        js += "],\"samples\":[";
        for (size_t k = 0; k < r.samples.size(); ++k) js += (k ? "," : "") + jsonEsc(r.samples[k].substr(0, 1500));
        js += "]";
        if (r.violated)
            js += ",\"what\":" + jsonEsc(r.what) + ",\"sig\":" + jsonEsc(r.sig) + ",\"path\":" + jsonEsc(pathStr(r.path)) +
                  ",\"trace\":" + jsonEsc(r.trace);
        js += "}";
        if (r.violated)
        {
            bad = true;
            break;
        }
    }
    js += "]}\n";
    if (!out.empty())
    {
        FILE* f = fopen(out.c_str(), "w");
        fputs(js.c_str(), f);
        fclose(f);
    }
    return bad ? 1 : 0;
}
}  // namespace mc
