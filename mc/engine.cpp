#include "engine.hpp"
#include <atomic>
#include <cassert>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <cxxabi.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

namespace vf
{
bool unlock_points = true;
bool spurious = false;
int horizon = 20000;

// ------------------------------------------------------------------------------------------
// Context switch
// ------------------------------------------------------------------------------------------
#if !defined(__x86_64__)
#error "x86-64 only"
#endif
extern "C" void vf_ctx_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl vf_ctx_switch
.type vf_ctx_switch,@function
vf_ctx_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vf_ctx_switch,.-vf_ctx_switch
)");

struct EhGlobals { void* caught; unsigned int uncaught; };
static EhGlobals* eh() { return reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals()); }

enum class FS { runnable, mutex, cond, pred, done };
struct Fiber
{
    int id = 0;
    std::string name;
    std::function<void()> fn;
    void* sp = nullptr;
    char* stack = nullptr;
    FS st = FS::runnable;
    Mutex* mx = nullptr;
    Cond* cv = nullptr;
    std::function<bool()> pred;
    const char* label = "";
    bool daemon = false;
    EhGlobals ehg{nullptr, 0};
};
static const size_t STACK = 256 * 1024;
static std::vector<char*> stack_pool;

struct ChoiceRec
{
    uint16_t n, chosen;
    uint8_t kind;      // 0 sched-preempt, 1 sched-free, 2 env, 3 pick
    uint8_t p_before, d_before;
};
enum { KP = 0, KF = 1, KE = 2, KK = 3 };

// Per-worker shared memory, so that the master can see what a crashed or hung worker was doing.
static const int MAXC = 1 << 16;
struct Shm
{
    std::atomic<uint64_t> execs, steps, progress;
    std::atomic<int> job;
    std::atomic<uint32_t> nc;
    uint16_t ch[MAXC];
    uint16_t cn[MAXC];
};
static Shm* shm;

struct Exec
{
    std::vector<Fiber*> fibers;
    int cur = -1;
    void* main_sp = nullptr;
    EhGlobals main_eh{nullptr, 0};
    std::vector<ChoiceRec> recs;
    const std::vector<std::pair<uint16_t, uint16_t>>* prefix = nullptr; // chosen, n
    Bounds b{0, 0};
    int p_used = 0, d_used = 0;
    uint64_t steps = 0;
    bool aborted = false, violated = false, stopped = false, quiet = false;
    std::string msg, out;
    uint64_t vtime = 1000000000ULL;
    std::function<uint64_t()> state_fn;
};
static Exec* X;
static bool g_trace = false;
static std::unordered_set<uint64_t> g_states;
static uint64_t g_steps_total = 0;

static void fatal_engine(const std::string& m)
{
    fprintf(stderr, "ENGINE-ERROR: %s\n", m.c_str());
    fflush(stderr);
    _exit(3);
}

static int choose(int n, int kind, const char* label)
{
    // n > 1
    size_t i = X->recs.size();
    uint16_t c = 0;
    if (X->prefix && i < X->prefix->size())
    {
        c = (*X->prefix)[i].first;
        if ((*X->prefix)[i].second != n || c >= n)
            fatal_engine("nondeterministic replay at choice " + std::to_string(i) + " label " + label
                         + " n=" + std::to_string(n) + " expected n="
                         + std::to_string((*X->prefix)[i].second));
    }
    if (i >= (size_t)MAXC - 1) fail("too many choice points (possible livelock)");
    X->recs.push_back({(uint16_t)n, c, (uint8_t)kind, (uint8_t)X->p_used, (uint8_t)X->d_used});
    shm->ch[i] = c; shm->cn[i] = (uint16_t)n;
    shm->nc.store(i + 1, std::memory_order_release);
    if (c)
    {
        if (kind == KP) ++X->p_used;
        if (kind == KE) ++X->d_used;
    }
    if (g_trace) printf("    [choice %zu %s %s: %d/%d]\n", i, kind == KP ? "preempt" : kind == KF ? "switch" : kind == KE ? "env" : "pick", label, c, n);
    return c;
}

int env(int n, const char* label)
{
    if (n < 2) return 0;
    if (X->d_used >= X->b.dev) return 0;
    return choose(n, KE, label);
}
int pick(int n, const char* label)
{
    if (n < 2) return 0;
    return choose(n, KK, label);
}

static bool enabled(Fiber* f)
{
    switch (f->st)
    {
    case FS::runnable: return true;
    case FS::mutex: return f->mx->owner < 0;
    case FS::cond: return false;
    case FS::pred: return f->pred();
    case FS::done: return false;
    }
    return false;
}

static void switch_to_main()
{
    Fiber* f = X->fibers[X->cur];
    f->ehg = *eh();
    *eh() = X->main_eh;
    void* dummy;
    vf_ctx_switch(f ? &f->sp : &dummy, X->main_sp);
    // resumed only if someone switches back (never for aborted)
}

static void do_switch(Fiber* to)
{
    Fiber* from = X->fibers[X->cur];
    if (to == from) return;
    from->ehg = *eh();
    *eh() = to->ehg;
    X->cur = to->id;
    vf_ctx_switch(&from->sp, to->sp);
}

[[noreturn]] static void abandon()
{
    X->aborted = true;
    switch_to_main();
    abort();
}

static std::string blocked_desc()
{
    std::string s;
    for (auto f : X->fibers)
    {
        if (f->st == FS::done) continue;
        s += " [" + f->name + ": ";
        switch (f->st)
        {
        case FS::runnable: s += "runnable"; break;
        case FS::mutex: s += std::string("lock ") + f->mx->name + " held by "
                + (f->mx->owner >= 0 ? X->fibers[f->mx->owner]->name : "-"); break;
        case FS::cond: s += std::string("cond ") + f->cv->name; break;
        case FS::pred: s += std::string("wait ") + f->label; break;
        default: break;
        }
        s += "]";
    }
    return s;
}

static void record_state()
{
    if (X->state_fn) { uint64_t h = X->state_fn(); g_states.insert(h); }
}

// Pick who runs next.  Called by the running fiber (which may have become blocked or done).
static void schedule(const char* label)
{
    ++X->steps; ++g_steps_total;
    if (X->steps > (uint64_t)horizon) fail("step horizon exceeded (livelock) at %s;%s", label, blocked_desc().c_str());
    record_state();
    Fiber* cur = X->fibers[X->cur];
    bool cur_en = enabled(cur);
    if (cur_en && X->p_used >= X->b.preempt)
    {
        cur->st = FS::runnable;
        return;
    }
    Fiber* cand[64]; int n = 0;
    if (cur_en) cand[n++] = cur;
    for (auto f : X->fibers)
    {
        if (f == cur || (X->quiet && f->daemon)) continue;
        if (enabled(f)) cand[n++] = f;
        if (n == 64) break;
    }
    if (n == 0)
    {
        bool all = true;
        for (auto f : X->fibers) if (f->st != FS::done && !f->daemon) all = false;
        if (all)
        {
            // execution complete
            switch_to_main();
            return; // not reached
        }
        fail("deadlock:%s", blocked_desc().c_str());
    }
    int c = 0;
    if (n > 1) c = choose(n, cur_en ? KP : KF, label);
    Fiber* to = cand[c];
    if (g_trace && to != cur) printf("  -> %s\n", to->name.c_str());
    to->st = FS::runnable;
    if (to != cur) do_switch(to);
}

static void fiber_main();
static void fiber_entry()
{
    fiber_main();
    abort();
}

static void fiber_main()
{
    Fiber* f = X->fibers[X->cur];
    try
    {
        f->fn();
    }
    catch (const std::exception& e)
    {
        fail("uncaught exception in %s: %s", f->name.c_str(), e.what());
    }
    catch (...)
    {
        fail("uncaught exception in %s", f->name.c_str());
    }
    f->st = FS::done;
    if (g_trace) printf("  %s done\n", f->name.c_str());
    schedule("exit");
    abort();
}

static Fiber* new_fiber(const char* name, std::function<void()> fn, bool daemon)
{
    Fiber* f = new Fiber;
    f->id = (int)X->fibers.size();
    f->name = name;
    f->fn = std::move(fn);
    f->daemon = daemon;
    if (stack_pool.empty())
    {
        char* p = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE,
                              MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) fatal_engine("mmap");
        mprotect(p, 4096, PROT_NONE);
        stack_pool.push_back(p);
    }
    f->stack = stack_pool.back(); stack_pool.pop_back();
    uintptr_t top = (uintptr_t)(f->stack + STACK);
    top &= ~(uintptr_t)15;
    void** sp = (void**)top;
    *--sp = nullptr;              // fake return address (alignment)
    *--sp = (void*)&fiber_entry;  // ret target
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    f->sp = sp;
    X->fibers.push_back(f);
    return f;
}

int spawn(const char* name, std::function<void()> fn, bool daemon)
{
    Fiber* f = new_fiber(name, std::move(fn), daemon);
    return f->id;
}

void point(const char* label)
{
    if (g_trace) printf("  %s @ %s\n", self_name(), label);
    schedule(label);
}

void block_until(std::function<bool()> pred, const char* label)
{
    Fiber* f = X->fibers[X->cur];
    f->pred = std::move(pred);
    f->label = label;
    f->st = FS::pred;
    if (g_trace) printf("  %s waits %s\n", f->name.c_str(), label);
    schedule(label);
}
void join(int id) { block_until([id] { return X->fibers[id]->st == FS::done; }, "join"); }
void join_all()
{
    int me = self();
    block_until([me] { for (auto f : X->fibers) if (f->id != me && !f->daemon && f->st != FS::done) return false; return true; }, "join_all");
}
void quiesce() { X->quiet = true; }
bool in_cond(int id) { return X->fibers[id]->st == FS::cond; }
bool finished(int id) { return X->fibers[id]->st == FS::done; }
int self() { return X ? X->cur : -1; }
const char* self_name() { return X && X->cur >= 0 ? X->fibers[X->cur]->name.c_str() : "main"; }

void Mutex::lock()
{
    if (!X || X->cur < 0) return;
    Fiber* f = X->fibers[X->cur];
    if (owner == f->id) fail("self-deadlock: %s locks %s it already holds", f->name.c_str(), name);
    f->mx = this; f->st = FS::mutex;
    if (g_trace) printf("  %s lock %s\n", f->name.c_str(), name);
    schedule("lock");
    assert(owner < 0);
    owner = f->id;
}
void Mutex::unlock()
{
    if (!X || X->cur < 0) return;
    Fiber* f = X->fibers[X->cur];
    if (owner != f->id) fail("%s unlocks %s it does not hold", f->name.c_str(), name);
    owner = -1;
    if (unlock_points) schedule("unlock");
}
void Cond::wait(Mutex& m)
{
    Fiber* f = X->fibers[X->cur];
    if (m.owner != f->id) fail("%s waits on %s without holding the mutex", f->name.c_str(), name);
    m.owner = -1;
    f->mx = &m; f->cv = this;
    if (spurious && env(2, "spurious-wakeup") == 1) { f->st = FS::mutex; f->cv = nullptr; }
    else f->st = FS::cond;
    if (g_trace) printf("  %s cond-wait %s\n", f->name.c_str(), name);
    schedule("cond-wait");
    m.owner = f->id;
}
void Cond::notify_all()
{
    if (!X || X->cur < 0) return;
    for (auto f : X->fibers)
        if (f->st == FS::cond && f->cv == this) { f->st = FS::mutex; f->cv = nullptr; }
}
void Cond::notify_one()
{
    if (!X || X->cur < 0) return;
    Fiber* w[64]; int n = 0;
    for (auto f : X->fibers) if (f->st == FS::cond && f->cv == this && n < 64) w[n++] = f;
    if (!n) return;
    int c = n > 1 ? choose(n, KF, "notify_one") : 0;
    w[c]->st = FS::mutex; w[c]->cv = nullptr;
}

void fail(const char* fmt, ...)
{
    char buf[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (!X || X->cur < 0) { fatal_engine(std::string("failure outside execution: ") + buf); }
    X->violated = true;
    X->msg = buf;
    if (g_trace) printf("  !! %s: %s\n", self_name(), buf);
    abandon();
}
void stop_execution(const char* why)
{
    X->stopped = true;
    X->out += std::string("|stop:") + why;
    abandon();
}
void outcome(const std::string& s) { X->out += s; }
void state_hash(uint64_t h) { g_states.insert(h); }
void set_state_fn(std::function<uint64_t()> fn) { X->state_fn = std::move(fn); }
uint64_t hash_str(const std::string& s)
{
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}
bool tracing() { return g_trace; }
void trace(const char* fmt, ...)
{
    if (!g_trace) return;
    va_list ap; va_start(ap, fmt); printf("  # %s: ", self_name()); vprintf(fmt, ap); printf("\n"); va_end(ap);
}
uint64_t vtime_ns() { return X ? X->vtime : 0; }
void vtime_advance(uint64_t ns) { if (X) X->vtime += ns; }

// ------------------------------------------------------------------------------------------
// Interposed libc functions
// ------------------------------------------------------------------------------------------
} // namespace vf

extern "C" {
void __assert_fail(const char* expr, const char* file, unsigned int line, const char* func)
    noexcept(true);
void __assert_fail(const char* expr, const char* file, unsigned int line, const char* func) noexcept(true)
{
    (void)func;
    const char* b = strrchr(file, '/');
    if (vf::X && vf::X->cur >= 0)
    {
        (void)line;
        vf::fail("assertion failed in %s: %s", b ? b + 1 : file, expr);
    }
    fprintf(stderr, "assert outside execution %s:%u %s\n", file, line, expr);
    _exit(3);
}
pthread_t pthread_self() noexcept(true);
pthread_t pthread_self() noexcept(true)
{
    int id = (vf::X && vf::X->cur >= 0) ? vf::X->cur : -1;
    return (pthread_t)(1000 + id);
}
static void vf_sleep(uint64_t ns)
{
    if (vf::X && vf::X->cur >= 0) { vf::vtime_advance(ns); vf::point("sleep"); }
}
int usleep(useconds_t us) { vf_sleep((uint64_t)us * 1000); return 0; }
int nanosleep(const struct timespec* r, struct timespec*)
{ vf_sleep((uint64_t)r->tv_sec * 1000000000ULL + (uint64_t)r->tv_nsec); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec* r, struct timespec*)
{ vf_sleep((uint64_t)r->tv_sec * 1000000000ULL + (uint64_t)r->tv_nsec); return 0; }
int clock_gettime(clockid_t id, struct timespec* ts) noexcept(true);
int clock_gettime(clockid_t id, struct timespec* ts) noexcept(true)
{
    if (vf::X && vf::X->cur >= 0)
    {
        uint64_t t = vf::X->vtime;
        ts->tv_sec = (time_t)(t / 1000000000ULL);
        ts->tv_nsec = (long)(t % 1000000000ULL);
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
}

namespace vf
{
static double wall()
{
    struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }

// ------------------------------------------------------------------------------------------
// One execution
// ------------------------------------------------------------------------------------------
static void run_one(const Scenario& sc, Bounds b,
                    const std::vector<std::pair<uint16_t, uint16_t>>* prefix, Exec& x)
{
    x.prefix = prefix;
    x.b = b;
    shm->nc.store(0);
    unlock_points = true; spurious = false; horizon = 20000;
    X = &x;
    Fiber* root = new_fiber("main", sc.body, false);
    X->cur = root->id;
    x.main_eh = *eh();
    *eh() = root->ehg;
    vf_ctx_switch(&x.main_sp, root->sp);
    // back in main
    x.cur = -1;
    X = nullptr;
    for (auto f : x.fibers)
    {
        stack_pool.push_back(f->stack);
        if (x.aborted) { new std::function<void()>(std::move(f->fn)); } // leak captured state
        delete f;
    }
    x.fibers.clear();
    shm->execs.fetch_add(1, std::memory_order_relaxed);
    shm->steps.fetch_add(x.steps, std::memory_order_relaxed);
    shm->progress.fetch_add(1, std::memory_order_relaxed);
}

struct Job { int scn; Bounds b; };

struct ViolFile
{
    std::string scenario, msg; Bounds b; std::vector<std::pair<uint16_t, uint16_t>> ch;
};

static std::string g_dir;     // scratch directory
static std::string g_prop, g_tier, g_known;
static int g_workers = 8;
static double g_budget = 600, g_t0;
static const int CLAIM = 1 << 16;
struct JobShared
{
    std::atomic<int> stop, capped;
    std::atomic<uint64_t> execs, steps;
    std::atomic<uint8_t> claim[CLAIM];
};
static JobShared* jobsh;
static std::vector<std::pair<std::string, std::string>> g_known_list; // scenario, signature

static bool is_known(const std::string& scn, const std::string& msg)
{
    for (auto& k : g_known_list)
        if ((k.first == "*" || k.first == scn) && msg.find(k.second) != std::string::npos) return true;
    return false;
}

static void write_violation(const std::string& path, const std::string& scn, Bounds b,
                            const std::vector<std::pair<uint16_t, uint16_t>>& ch,
                            const std::string& msg)
{
    FILE* f = fopen(path.c_str(), "w");
    if (!f) fatal_engine("cannot write " + path);
    std::string m = msg; for (auto& c : m) if (c == '\n') c = ' ';
    fprintf(f, "scenario %s\nbounds %d %d\nmessage %s\nchoices", scn.c_str(), b.preempt, b.dev, m.c_str());
    for (auto& c : ch) fprintf(f, " %u/%u", c.first, c.second);
    fprintf(f, "\n");
    fclose(f);
}
static bool read_violation(const std::string& path, ViolFile& v)
{
    FILE* f = fopen(path.c_str(), "r");
    if (!f) return false;
    std::string all; char buf[65536]; size_t r;
    while ((r = fread(buf, 1, sizeof buf, f)) > 0) all.append(buf, r);
    fclose(f);
    auto line = [&](const char* key) -> std::string {
        size_t p = all.find(std::string("\n") + key + " ");
        if (all.compare(0, strlen(key) + 1, std::string(key) + " ") == 0) p = (size_t)-1;
        else if (p == std::string::npos) return "";
        size_t s = p + 1 + strlen(key) + 1;
        size_t e = all.find('\n', s);
        return all.substr(s, e - s);
    };
    v.scenario = line("scenario");
    v.msg = line("message");
    sscanf(line("bounds").c_str(), "%d %d", &v.b.preempt, &v.b.dev);
    std::string c = all.substr(all.find("\nchoices") + 8);
    const char* p = c.c_str();
    while (*p)
    {
        unsigned a, n; int used = 0;
        if (sscanf(p, " %u/%u%n", &a, &n, &used) < 2) break;
        v.ch.push_back({(uint16_t)a, (uint16_t)n});
        p += used;
    }
    return true;
}

static std::map<std::string, uint64_t> g_outcomes;
static std::map<std::string, uint64_t> g_known_hits;
static int g_worker = 0;
static JobShared* g_stop = nullptr; // a violation was found: no need to explore further
static int g_viol_seq = 0;

static void post_exec(const Scenario& sc, const Job& j, JobShared& js, Exec& x)
{
    js.execs.fetch_add(1, std::memory_order_relaxed);
    js.steps.fetch_add(x.steps, std::memory_order_relaxed);
    if (x.violated)
    {
        if (is_known(sc.name, x.msg)) { ++g_known_hits[sc.name + "\t" + x.msg]; return; }
        std::vector<std::pair<uint16_t, uint16_t>> ch;
        for (auto& r : x.recs) ch.push_back({r.chosen, r.n});
        write_violation(g_dir + "/viol." + std::to_string(g_worker) + "." + std::to_string(g_viol_seq++),
                        sc.name, j.b, ch, x.msg);
        js.stop.store(1);
        g_stop->stop.store(1);
    }
    else
    {
        if (g_outcomes.size() < 20000) ++g_outcomes[sc.name + ":" + x.out];
    }
}

// Backtrack: advance recs to the next unexplored choice at index >= from; false if none.
static bool backtrack(std::vector<ChoiceRec>& recs, Bounds b, size_t from,
                      std::vector<std::pair<uint16_t, uint16_t>>& prefix, size_t limit)
{
    size_t i = std::min(recs.size(), limit);
    while (i > from)
    {
        --i;
        ChoiceRec& r = recs[i];
        if (r.chosen + 1 < r.n)
        {
            bool ok = true;
            if (r.kind == KP && r.p_before >= b.preempt) ok = false;
            if (r.kind == KE && r.d_before >= b.dev) ok = false;
            if (ok)
            {
                prefix.clear();
                for (size_t k = 0; k < i; ++k) prefix.push_back({recs[k].chosen, recs[k].n});
                prefix.push_back({(uint16_t)(r.chosen + 1), r.n});
                return true;
            }
        }
    }
    return false;
}

static void explore_job(int ji, const Job& j)
{
    const Scenario& sc = scenarios()[j.scn];
    JobShared& js = jobsh[ji];
    shm->job.store(ji);
    const size_t D = 12;
    std::vector<std::pair<uint16_t, uint16_t>> outer;
    uint64_t leaf = 0;
    for (;;)
    {
        if (js.stop.load() || g_stop->stop.load()) { js.stop.store(1); return; }
        bool mine;
        if (leaf < (uint64_t)CLAIM) mine = (js.claim[leaf].exchange(1) == 0);
        else mine = (int)(leaf % (uint64_t)g_workers) == g_worker;
        ++leaf;
        std::vector<ChoiceRec> recs;
        {
            Exec x;
            run_one(sc, j.b, &outer, x);
            recs = x.recs;
            if (mine || x.violated) post_exec(sc, j, js, x);
        }
        if (mine)
        {
            std::vector<ChoiceRec> in = recs;
            std::vector<std::pair<uint16_t, uint16_t>> pfx;
            while (backtrack(in, j.b, std::min(D, in.size()), pfx, (size_t)-1))
            {
                if (js.stop.load() || g_stop->stop.load()) { js.stop.store(1); return; }
                if (wall() - g_t0 > g_budget)
                { js.capped.store(1); return; }
                Exec x;
                run_one(sc, j.b, &pfx, x);
                in = x.recs;
                post_exec(sc, j, js, x);
            }
        }
        if (wall() - g_t0 > g_budget) { js.capped.store(1); return; }
        std::vector<std::pair<uint16_t, uint16_t>> nx;
        if (!backtrack(recs, j.b, 0, nx, D)) return;
        outer = nx;
    }
}

static void crash_handler(int sig)
{
    // The explorer cannot continue in this process: state may be corrupted.
    char name[512];
    snprintf(name, sizeof name, "%s/crash.%d", g_dir.c_str(), g_worker);
    FILE* f = fopen(name, "w");
    if (f) { fprintf(f, "%d", sig); fclose(f); }
    _exit(70);
}

static void install_handlers()
{
    static char alt[65536];
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = crash_handler; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
}

static void worker_main(int w, const std::vector<Job>& jobs, Shm* my)
{
    g_worker = w; shm = my;
    install_handlers();
    for (size_t i = 0; i < jobs.size(); ++i)
    {
        // a violation found at lower bounds stops the scenario
        bool stop = false;
        for (size_t k = 0; k < i; ++k) if (jobs[k].scn == jobs[i].scn && jobsh[k].stop.load()) stop = true;
        if (stop) { jobsh[i].stop.store(1); continue; }
        explore_job((int)i, jobs[i]);
    }
    // dump states, outcomes
    std::string base = g_dir + "/w." + std::to_string(w);
    FILE* f = fopen((base + ".states").c_str(), "w");
    for (auto h : g_states) fwrite(&h, 8, 1, f);
    fclose(f);
    f = fopen((base + ".out").c_str(), "w");
    for (auto& o : g_outcomes) fprintf(f, "%llu\t%s\n", (unsigned long long)o.second, o.first.c_str());
    fclose(f);
    f = fopen((base + ".known").c_str(), "w");
    for (auto& o : g_known_hits) fprintf(f, "%llu\t%s\n", (unsigned long long)o.second, o.first.c_str());
    fclose(f);
    _exit(0);
}

static int find_scenario(const std::string& n)
{
    for (size_t i = 0; i < scenarios().size(); ++i) if (scenarios()[i].name == n) return (int)i;
    return -1;
}

// Replay one violation in a child; returns the message observed ("" = no violation).
static std::string replay_child(const ViolFile& v, bool trace, double limit)
{
    std::string out = g_dir + "/replay.out";
    unlink(out.c_str());
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        g_worker = 999;
        install_handlers();
        g_trace = trace;
        Exec x;
        run_one(scenarios()[find_scenario(v.scenario)], v.b, &v.ch, x);
        fflush(stdout);
        if (x.violated)
        {
            FILE* f = fopen(out.c_str(), "w"); fputs(x.msg.c_str(), f); fclose(f);
        }
        _exit(0);
    }
    double t = wall();
    int st = 0;
    for (;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (wall() - t > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return "hang: execution does not terminate"; }
        struct timespec ts{0, 2000000}; syscall(SYS_nanosleep, &ts, nullptr);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return "ENGINE-ERROR";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 70) return "crash: process received a fatal signal";
    if (WIFSIGNALED(st)) return "crash: process received a fatal signal";
    std::string m;
    FILE* f = fopen(out.c_str(), "r");
    if (f) { char b[4096]; size_t r = fread(b, 1, sizeof b, f); m.assign(b, r); fclose(f); }
    return m;
}

static std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

int main(int argc, char** argv)
{
    std::string replay, only, out_json, replay_out;
    bool list = false;
    Bounds ob{-1, -1};
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nxt = [&] { return std::string(argv[++i]); };
        if (a == "--prop") g_prop = nxt();
        else if (a == "--tier") g_tier = nxt();
        else if (a == "--dir") g_dir = nxt();
        else if (a == "--workers") g_workers = atoi(nxt().c_str());
        else if (a == "--budget") g_budget = atof(nxt().c_str());
        else if (a == "--known") g_known = nxt();
        else if (a == "--replay") replay = nxt();
        else if (a == "--only") only = nxt();
        else if (a == "--json") out_json = nxt();
        else if (a == "--replay-out") replay_out = nxt();
        else if (a == "--bounds") { sscanf(nxt().c_str(), "%d,%d", &ob.preempt, &ob.dev); }
        else if (a == "--list") list = true;
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if (list)
    {
        for (auto& s : scenarios())
        {
            printf("%s:", s.name.c_str());
            for (auto& p : s.props) printf(" %s", p.c_str());
            printf("\n");
        }
        return 0;
    }
    if (g_dir.empty()) { fprintf(stderr, "--dir needed\n"); return 2; }
    shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (!replay.empty())
    {
        ViolFile v;
        if (!read_violation(replay, v) || find_scenario(v.scenario) < 0) { fprintf(stderr, "bad replay file\n"); return 2; }
        std::string m = replay_child(v, true, 60);
        printf("replay: %s\n", m.empty() ? "no violation" : m.c_str());
        return m.empty() ? 0 : 1;
    }
    if (!g_known.empty())
    {
        FILE* f = fopen(g_known.c_str(), "r");
        if (f)
        {
            char line[4096];
            while (fgets(line, sizeof line, f))
            {
                // property \t scenario \t signature
                std::string l(line);
                while (!l.empty() && (l.back() == '\n')) l.pop_back();
                size_t a = l.find('\t'), b = l.find('\t', a + 1);
                if (a == std::string::npos || b == std::string::npos) continue;
                if (l.substr(0, a) == g_prop) g_known_list.push_back({l.substr(a + 1, b - a - 1), l.substr(b + 1)});
            }
            fclose(f);
        }
    }
    std::vector<Job> jobs;
    for (size_t i = 0; i < scenarios().size(); ++i)
    {
        auto& s = scenarios()[i];
        if (!only.empty()) { if (!(only.back() == (char)46 ? s.name.compare(0, only.size(), only) == 0 : s.name == only)) continue; }
        else if (!g_prop.empty() && std::find(s.props.begin(), s.props.end(), g_prop) == s.props.end()) continue;
        if (ob.preempt >= 0) { jobs.push_back({(int)i, ob}); continue; }
        for (auto& b : (g_tier == "thorough" ? s.thorough : s.quick)) jobs.push_back({(int)i, b});
    }
    if (jobs.empty()) { fprintf(stderr, "no scenarios selected\n"); return 2; }
    // cheap bounds of all scenarios first
    std::stable_sort(jobs.begin(), jobs.end(), [](const Job& a, const Job& b) {
        return a.b.preempt + a.b.dev < b.b.preempt + b.b.dev; });
    jobsh = (JobShared*)mmap(nullptr, sizeof(JobShared) * (jobs.size() + 1), PROT_READ | PROT_WRITE,
                             MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_stop = jobsh + jobs.size();
    g_t0 = wall();
    std::vector<Shm*> shms; std::vector<pid_t> pids; std::vector<uint64_t> lastp; std::vector<double> lastt;
    auto start = [&](int w) {
        pid_t p = fork();
        if (p == 0) worker_main(w, jobs, shms[w]);
        pids[w] = p; lastp[w] = 0; lastt[w] = wall();
    };
    for (int w = 0; w < g_workers; ++w)
    {
        shms.push_back((Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        pids.push_back(0); lastp.push_back(0); lastt.push_back(0);
    }
    for (int w = 0; w < g_workers; ++w) start(w);
    std::vector<ViolFile> viols;
    int running = g_workers;
    std::vector<bool> live(g_workers, true);
    bool engine_error = false;
    while (running)
    {
        for (int w = 0; w < g_workers; ++w)
        {
            if (!live[w]) continue;
            int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
            bool dead = false, hang = false;
            if (r == pids[w])
            {
                dead = true;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { live[w] = false; --running; continue; }
                if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { engine_error = true; live[w] = false; --running; continue; }
            }
            else
            {
                uint64_t p = shms[w]->progress.load();
                if (p != lastp[w]) { lastp[w] = p; lastt[w] = wall(); }
                else if (wall() - lastt[w] > 30) { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); dead = hang = true; }
            }
            if (dead)
            {
                int ji = shms[w]->job.load();
                ViolFile v; v.scenario = scenarios()[jobs[ji].scn].name; v.b = jobs[ji].b;
                uint32_t nc = shms[w]->nc.load();
                for (uint32_t k = 0; k < nc; ++k) v.ch.push_back({shms[w]->ch[k], shms[w]->cn[k]});
                v.msg = hang ? "hang: execution does not terminate" : "crash: process received a fatal signal";
                if (hang)
                {
                    // re-run alone with a longer limit before calling it a hang
                    if (replay_child(v, false, 60) != v.msg)
                    {
                        fprintf(stderr, "note: worker %d stalled but its schedule terminates; restarting\n", w);
                        start(w); continue;
                    }
                }
                if (!is_known(v.scenario, v.msg)) { viols.push_back(v); jobsh[ji].stop.store(1); g_stop->stop.store(1); }
                live[w] = false; --running;
                // the remaining workers go on; stop the scenario for them
            }
        }
        struct timespec ts{0, 5000000}; syscall(SYS_nanosleep, &ts, nullptr);
    }
    if (engine_error) { fprintf(stderr, "engine error in a worker\n"); return 3; }
    for (int w = 0; w < g_workers; ++w)
        for (int k = 0; k < 1000; ++k)
        {
            ViolFile v;
            if (!read_violation(g_dir + "/viol." + std::to_string(w) + "." + std::to_string(k), v)) break;
            viols.push_back(v);
        }
    // Confirm: replay twice, identical message; prefer short schedules.
    std::stable_sort(viols.begin(), viols.end(), [](const ViolFile& a, const ViolFile& b) {
        int ca = a.b.preempt + a.b.dev, cb = b.b.preempt + b.b.dev;
        if (ca != cb) return ca < cb;
        return a.ch.size() < b.ch.size(); });
    std::vector<ViolFile> conf;
    for (auto& v : viols)
    {
        if (conf.size() >= 3) break;
        std::string m1 = replay_child(v, false, 60), m2 = replay_child(v, false, 60);
        if (m1 == v.msg && m2 == v.msg) conf.push_back(v);
        else if (!m1.empty() && m1 == m2 && m1 != "ENGINE-ERROR") { v.msg = m1; conf.push_back(v); }
        else { fprintf(stderr, "unconfirmed violation in %s: '%s' replayed as '%s' / '%s'\n", v.scenario.c_str(), v.msg.c_str(), m1.c_str(), m2.c_str()); }
    }
    // A crash may depend on memory already damaged by earlier executions of the same worker.
    if (conf.empty())
        for (auto& v : viols)
            if (v.msg.compare(0, 6, "crash:") == 0) { conf.push_back(v); break; }
    if (!viols.empty() && conf.empty()) { fprintf(stderr, "violations could not be confirmed by replay\n"); return 3; }
    // merge statistics
    uint64_t execs = 0, steps = 0, capped = 0;
    for (size_t i = 0; i < jobs.size(); ++i)
    { execs += jobsh[i].execs.load(); steps += jobsh[i].steps.load(); capped += (uint64_t)(jobsh[i].capped.load() != 0); }
    std::vector<uint64_t> st;
    std::map<std::string, uint64_t> outs, known;
    for (int w = 0; w < g_workers; ++w)
    {
        std::string base = g_dir + "/w." + std::to_string(w);
        FILE* f = fopen((base + ".states").c_str(), "r");
        if (f) { uint64_t h; while (fread(&h, 8, 1, f) == 1) st.push_back(h); fclose(f); }
        for (int z = 0; z < 2; ++z)
        {
            f = fopen((base + (z ? ".known" : ".out")).c_str(), "r");
            if (!f) continue;
            char* line = nullptr; size_t cap = 0; ssize_t n;
            while ((n = getline(&line, &cap, f)) > 0)
            {
                if (line[n - 1] == '\n') line[n - 1] = 0;
                char* tab = strchr(line, '\t'); if (!tab) continue;
                (z ? known : outs)[tab + 1] += strtoull(line, nullptr, 10);
            }
            free(line); fclose(f);
        }
    }
    std::sort(st.begin(), st.end());
    uint64_t states = (uint64_t)(std::unique(st.begin(), st.end()) - st.begin());
    std::string rep;
    for (size_t i = 0; i < conf.size(); ++i)
    {
        std::string p = (replay_out.empty() ? g_dir + "/replay" : replay_out) + (i ? "." + std::to_string(i) : "") + ".txt";
        write_violation(p, conf[i].scenario, conf[i].b, conf[i].ch, conf[i].msg);
        if (i == 0) rep = p;
        printf("violation: scenario=%s preempt<=%d dev<=%d: %s\n", conf[i].scenario.c_str(), conf[i].b.preempt, conf[i].b.dev, conf[i].msg.c_str());
    }
    double w = wall() - g_t0;
    printf("executions=%llu transitions=%llu states=%llu outcomes=%zu jobs=%zu capped=%llu wall=%.1fs\n",
           (unsigned long long)execs, (unsigned long long)steps, (unsigned long long)states, outs.size(),
           jobs.size(), (unsigned long long)capped, w);
    if (!only.empty())
        for (auto& o : outs) printf("  %8llu %s\n", (unsigned long long)o.second, o.first.c_str());
    if (!out_json.empty())
    {
        FILE* f = fopen(out_json.c_str(), "w");
        fprintf(f, "{\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"distinct_outcomes\":%zu,\"capped_jobs\":%llu,\"wall\":%.2f,\"violations\":%zu,\n\"jobs\":[",
                (unsigned long long)execs, (unsigned long long)steps, (unsigned long long)states, outs.size(), (unsigned long long)capped, w, conf.size());
        for (size_t i = 0; i < jobs.size(); ++i)
            fprintf(f, "%s\n{\"scenario\":\"%s\",\"preemptions\":%d,\"deviations\":%d,\"executions\":%llu,\"transitions\":%llu,\"complete\":%s}", i ? "," : "",
                    jesc(scenarios()[jobs[i].scn].name).c_str(), jobs[i].b.preempt, jobs[i].b.dev,
                    (unsigned long long)jobsh[i].execs.load(), (unsigned long long)jobsh[i].steps.load(),
                    (jobsh[i].capped.load() || jobsh[i].stop.load()) ? "false" : "true");
        fprintf(f, "],\n\"outcomes\":[");
        int k = 0;
        for (auto& o : outs) { if (k >= 40) break; fprintf(f, "%s\n{\"count\":%llu,\"outcome\":\"%s\"}", k++ ? "," : "", (unsigned long long)o.second, jesc(o.first).c_str()); }
        fprintf(f, "],\n\"known\":[");
        k = 0;
        for (auto& o : known) fprintf(f, "%s\n{\"count\":%llu,\"what\":\"%s\"}", k++ ? "," : "", (unsigned long long)o.second, jesc(o.first).c_str());
        fprintf(f, "],\n\"found\":[");
        for (size_t i = 0; i < conf.size(); ++i) fprintf(f, "%s{\"scenario\":\"%s\",\"message\":\"%s\"}", i ? "," : "", jesc(conf[i].scenario).c_str(), jesc(conf[i].msg).c_str());
        fprintf(f, "],\n\"replay\":\"%s\"}\n", jesc(rep).c_str());
        fclose(f);
    }
    for (auto& o : known) printf("known\t%s\n", o.first.c_str());
    return conf.empty() ? 0 : 1;
}
} // namespace vf
