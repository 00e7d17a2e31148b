// Deterministic simulator core: one OS thread, every thread of the program under test is a fiber.
// The code under test is compiled with -fsanitize=thread but linked against the hooks below, so
// each of its memory accesses and atomic operations is a possible preemption point.
#include "rt.h"
#include <atomic>
#include <algorithm>
#include <vector>
#include <map>
#include <unordered_set>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <new>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <poll.h>

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define INL static inline __attribute__((always_inline))

static const uintptr_t ARENA = 0x100000000000ull, ARENA_SZ = 1ull << 30;
static const uintptr_t STK = 0x110000000000ull, STK_ONE = 512 * 1024, STK_SZ = STK_ONE * rt::MAXF;
static const uintptr_t SHA = 0x120000000000ull;   // shadow of arena
static const uintptr_t SHS = 0x130000000000ull;   // shadow of stacks
static const uintptr_t SHG = 0x140000000000ull;   // shadow of globals
static const uintptr_t PRIV = 0x150000000000ull, PRIV_SZ = 1ull << 30; // runtime private bump memory
extern "C" char __data_start, _end;

// shadow word: bits0-1 state (0 none 1 live 2 freed 3 redzone) bits 4-7 tail valid bytes (0=all)
// bits 8-15 last fiber+1, bit 16 shared
enum { S_NONE = 0, S_LIVE = 1, S_FREED = 2, S_RED = 3 };

namespace rt {
bool g_active = false;
int g_quiet = 0;
Fiber *g_cur = nullptr;
Fiber g_fib[MAXF];
int g_nfib = 0;
uint64_t g_now = 0;
bool g_fair = false;
uint64_t (*g_nextEvent)() = nullptr;
void (*g_kernelOp)() = nullptr;
}
using namespace rt;

// ------------------------------------------------------------------ result record
enum { NPROBE = 96, NFAULT = 64, NNOTE = 24 };
struct Named { char name[40]; uint64_t n; };
struct Result {
    int status;                 // 0 none(crash) 1 ok 2 violation 3 error
    char cls[160];
    char msg[6000];
    uint64_t hash, schedHash, steps, simns, switches, preempts;
    char scenario[48];
    Named probes[NPROBE];
    Named faults[NFAULT];
    Named notes[NNOTE];
    void *stack[64];
    int nstack;
    char params[512];
};
static Result *g_res = nullptr;

static void addNamed(Named *t, int n, const char *name, uint64_t v) {
    for (int i = 0; i < n; i++) {
        if (!t[i].name[0]) { strncpy(t[i].name, name, sizeof(t[i].name) - 1); t[i].n = v; return; }
        if (!strncmp(t[i].name, name, sizeof(t[i].name) - 1)) { t[i].n += v; return; }
    }
}

// ------------------------------------------------------------------ PRNG
static uint64_t g_rs[2];
static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t rt::rnd() {
    uint64_t s1 = g_rs[0], s0 = g_rs[1], r = s0 + s1;
    g_rs[0] = s0; s1 ^= s1 << 23;
    g_rs[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
}
static uint64_t rndn(uint64_t n) { return n ? (rnd() >> 11) % n : 0; }
static uint64_t geom(uint64_t mean) { // roughly exponential
    uint64_t r = rnd() >> 40; // 24 bits
    double u = (double)(r + 1) / 16777217.0;
    double v = -__builtin_log(u) * (double)mean;
    return (uint64_t)v + 1;
}
static uint64_t strh(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; } return h; }

// ------------------------------------------------------------------ private memory
static uintptr_t g_priv = PRIV;
void *rt::rawAlloc(size_t n) {
    n = (n + 15) & ~15ull;
    uintptr_t r = g_priv; g_priv += n;
    if (g_priv > PRIV + PRIV_SZ) { write(2, "rt private memory exhausted\n", 28); _exit(3); }
    return (void *)r;
}

// ------------------------------------------------------------------ run state
static bool g_replay = false;
static uint64_t g_hash, g_shash, g_steps, g_switches, g_preempts, g_stamp;
static int64_t g_cd;            // countdown to the next random preemption
static uint64_t g_mean = 256;
static int g_mode = 0;          // 0 random 1 pct 2 stall
static unsigned g_pTimer = 0;   // 1/x chance at preemption of jumping the clock to next deadline
static unsigned g_wUnshared = 1, g_wShared = 16, g_wSync = 64;
static uint64_t g_slice = 0, g_sliceMax = 2000;
static uint64_t g_stepLimit = 600000, g_hardLimit = 1600000;
static bool g_faults = false, g_faultMaster = true;
static unsigned g_faultDen = 0; // base rate
static uint64_t g_faultSalt;
static bool g_expectDeadlock = false;
static uint64_t g_nextPrio = 0;
static const char *g_scn = "";
static int g_logfd = -1;
static bool g_inViolation = false;

void rt::mix(uint64_t v) { g_hash = (g_hash ^ v) * 0x9E3779B97F4A7C15ull; g_hash ^= g_hash >> 29; }
void rt::mixs(const char *s) { mix(strh(s)); }
static void smix(uint64_t v) { g_shash = (g_shash ^ v) * 0xD6E8FEB86659FD93ull; g_shash ^= g_shash >> 32; }

void rt::logf(const char *fmt, ...) {
    if (g_logfd < 0) return;
    static char b[4096];
    int n = snprintf(b, sizeof b, "[%6llu t=%llu f%d] ", (unsigned long long)g_steps, (unsigned long long)(g_now / 1000), g_cur ? g_cur->id : -1);
    va_list ap; va_start(ap, fmt);
    n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    if (write(g_logfd, b, n)) {}
}

// ------------------------------------------------------------------ trace (recorded / replayed decisions)
struct Ent { char type; int fiber; char kind[28]; uint64_t idx; int64_t val; };
static Ent *g_rec = nullptr; static size_t g_nrec = 0; static const size_t MAXREC = 400000;
static bool g_recording = false;
static void record(char t, int f, const char *kind, uint64_t idx, int64_t val) {
    if (!g_recording || g_nrec >= MAXREC) return;
    Ent &e = g_rec[g_nrec++];
    e.type = t; e.fiber = f; e.idx = idx; e.val = val;
    strncpy(e.kind, kind, sizeof e.kind - 1); e.kind[sizeof e.kind - 1] = 0;
}
// replay tables (built before the run with ordinary memory of the zygote)
struct KeyC { int fiber; uint64_t kh; uint64_t idx; bool operator<(const KeyC &o) const { return fiber != o.fiber ? fiber < o.fiber : kh != o.kh ? kh < o.kh : idx < o.idx; } };
struct RepP { uint64_t idx; int64_t val; char type; };
static std::map<KeyC, int64_t> *g_repC = nullptr;          // 'c' and 'b'
static std::vector<RepP> g_repP[MAXF];                      // 'p' and 't' sorted
static void loadReplay(const std::vector<Ent> &es) {
    delete g_repC; g_repC = new std::map<KeyC, int64_t>();
    for (int i = 0; i < MAXF; i++) g_repP[i].clear();
    for (auto &e : es) {
        if (e.fiber < 0 || e.fiber >= MAXF) continue;
        if (e.type == 'p' || e.type == 't') g_repP[e.fiber].push_back(RepP{e.idx, e.val, e.type});
        else if (e.type == 'c') (*g_repC)[KeyC{e.fiber, strh(e.kind), e.idx}] = e.val;
        else if (e.type == 'b') (*g_repC)[KeyC{e.fiber, 1, e.idx}] = e.val;
    }
    for (int i = 0; i < MAXF; i++) std::stable_sort(g_repP[i].begin(), g_repP[i].end(), [](const RepP &a, const RepP &b) { return a.idx < b.idx; });
}
// per (fiber,kind) counters for choices: small open-addressing table
struct Cnt { uint64_t key; uint64_t n; };
static Cnt *g_cnt = nullptr; static const size_t NCNT = 1 << 13;
static uint64_t nextIdx(int fiber, uint64_t kh) {
    uint64_t key = (kh * 31 + fiber + 1) | 1;
    size_t i = key % NCNT;
    while (g_cnt[i].key && g_cnt[i].key != key) i = (i + 1) % NCNT;
    g_cnt[i].key = key;
    return g_cnt[i].n++;
}

int rt::choose(const char *kind, int n, int def, unsigned num, unsigned den) {
    if (n <= 1) return def;
    int f = g_cur ? g_cur->id : 0;
    uint64_t kh = strh(kind);
    uint64_t idx = nextIdx(f, kh);
    int v = def;
    if (g_replay) {
        auto it = g_repC->find(KeyC{f, kh, idx});
        if (it != g_repC->end()) { v = (int)it->second; if (v < 0 || v >= n) v = def; }
    } else {
        if (den == 0 || rndn(den) < num) v = (int)rndn(n);
    }
    if (v != def) record('c', f, kind, idx, v);
    mix(kh ^ (uint64_t)v * 7919);
    return v;
}

// ------------------------------------------------------------------ finishing a run
static void captureStack() {
    if (!g_cur) return;
    int n = 0;
    for (int i = g_cur->depth - 1; i >= 0 && n < 40; i--) g_res->stack[n++] = g_cur->frames[i].pc;
    g_res->nstack = n;
}
static void dumpTrace();
static const char *fiberDump();
void rt::finishRun(int status, const char *cls, const char *msg) {
    g_active = false;
    g_res->hash = g_hash; g_res->schedHash = g_shash; g_res->steps = g_steps; g_res->simns = g_now;
    g_res->switches = g_switches; g_res->preempts = g_preempts;
    if (status != 1) {
        strncpy(g_res->cls, cls, sizeof g_res->cls - 1);
        strncpy(g_res->msg, msg, sizeof g_res->msg - 1);
        captureStack();
        g_res->hash = g_hash ^ strh(cls);
    }
    std::atomic_thread_fence(std::memory_order_seq_cst);
    g_res->status = status;
    if (status != 1) logf("END status=%d class=%s %s", status, cls, msg), logf("FIBERS %s", fiberDump());
    else logf("END ok");
    dumpTrace();
    _exit(status == 1 ? 0 : status);
}
void rt::unsupported(const char *what) {
    char b[200]; snprintf(b, sizeof b, "unsupported call in simulation: %s", what);
    finishRun(3, "unsupported", b);
}
static const char *fiberDump() {
    static char b[3000]; size_t n = 0;
    for (int i = 0; i < g_nfib && n < sizeof b - 200; i++) {
        Fiber &f = g_fib[i];
        if (f.state == 3) continue;
        n += snprintf(b + n, sizeof b - n, " | fiber %d '%s' %s%s%s frames:", i, f.name, f.state == 2 ? "blocked on " : "runnable", f.state == 2 ? f.why : "", f.deadline != NEVER ? " (timed)" : "");
        for (int k = f.depth - 1, c = 0; k >= 0 && c < 6 && n < sizeof b - 40; k--, c++) n += snprintf(b + n, sizeof b - n, " @%p", f.frames[k].pc);
    }
    return b;
}

// ------------------------------------------------------------------ context switch
extern "C" void rt_switch(void **save, void *to);
asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size rt_switch,.-rt_switch
)");
static char *g_tlsLo; static size_t g_tlsSz; static void *g_tlsInit;
static void initTls() {
    extern const ElfW(Ehdr) __ehdr_start;
    const ElfW(Phdr) *ph = (const ElfW(Phdr) *)((const char *)&__ehdr_start + __ehdr_start.e_phoff);
    for (int i = 0; i < __ehdr_start.e_phnum; i++) if (ph[i].p_type == PT_TLS) {
        size_t al = ph[i].p_align ? ph[i].p_align : 1;
        g_tlsSz = (ph[i].p_memsz + al - 1) & ~(al - 1);
    }
    uintptr_t fs; asm("movq %%fs:0,%0" : "=r"(fs));
    g_tlsLo = (char *)fs - g_tlsSz;
}

static void switchTo(Fiber *t, uintptr_t usersp) {
    Fiber *c = g_cur;
    if (t == c) { c->state = 1; return; }
    g_switches++;
    g_slice = 0;
    smix((uint64_t)t->id << 32 | (c->npoints & 0xffffffff));
    mix((uint64_t)c->id << 40 ^ (uint64_t)t->id << 32 ^ c->npoints);
    c->userSp = usersp >= (uintptr_t)c->stackLo && usersp <= (uintptr_t)c->stackHi ? usersp : (uintptr_t)c->stackLo; /* elsewhere: a stack switched by the code under test */
    memcpy(c->tls, g_tlsLo, g_tlsSz);
    memcpy(g_tlsLo, t->tls, g_tlsSz);
    g_cur = t;
    t->lastRun = g_steps;
    rt_switch(&c->sp, t->sp);
}

static bool isReady(Fiber &f) {
    if (f.state == 1) return true;
    if (f.state != 2) return false;
    if (f.ready && f.ready(f.readyArg)) return true;
    return f.deadline <= g_now;
}
static void unblock(Fiber &f) {
    if (f.state == 2) {
        f.timedOut = !(f.ready && f.ready(f.readyArg));
        f.state = 1; f.deadline = NEVER; f.ready = nullptr;
    }
}
static uint64_t minDeadline() {
    uint64_t m = NEVER;
    for (int i = 0; i < g_nfib; i++) if (g_fib[i].state == 2 && g_fib[i].deadline < m) m = g_fib[i].deadline;
    if (g_nextEvent) { uint64_t e = g_nextEvent(); if (e < m) m = e; }
    return m;
}
// candidates in cyclic order after the current fiber; excludes cur unless inclCur
static int candidates(Fiber **out, bool inclCur, bool noStalled) {
    int n = 0, c = g_cur->id;
    for (int k = 1; k <= g_nfib; k++) {
        int i = (c + k) % g_nfib;
        if (i == c && !inclCur) continue;
        Fiber &f = g_fib[i];
        if (noStalled && f.stallUntil > g_steps) continue;
        if (isReady(f)) out[n++] = &f;
    }
    return n;
}
static Fiber *pickRandom(Fiber **cs, int n) {
    if (g_mode == 1) { Fiber *b = cs[0]; for (int i = 1; i < n; i++) if (cs[i]->prio > b->prio) b = cs[i]; return b; }
    return cs[rndn(n)];
}
static void hangViolation(const char *kind) {
    char m[4000];
    snprintf(m, sizeof m, "%s in scenario %s after %llu steps%s", kind, g_scn, (unsigned long long)g_steps, fiberDump());
    violation(!strcmp(kind, "deadlock") ? "deadlock" : "no-progress", "%s", m);
}

// forced choice of a fiber because the current cannot go on
static Fiber *pickNext(bool inclCur) {
    Fiber *cs[MAXF];
    for (;;) {
        int n = candidates(cs, inclCur, !g_fair && !g_replay);
        if (!n) n = candidates(cs, inclCur, false);
        if (n) {
            Fiber *t = cs[0];
            if (g_fair) { for (int i = 1; i < n; i++) if (cs[i]->lastRun < t->lastRun) t = cs[i]; return t; }
            uint64_t idx = g_cur->nblocks++;
            if (g_replay) {
                auto it = g_repC->find(KeyC{g_cur->id, 1, idx});
                if (it != g_repC->end()) for (int i = 0; i < n; i++) if (cs[i]->id == it->second) t = cs[i];
            } else if (n > 1) t = pickRandom(cs, n);
            // deviation from the canonical choice is recorded against the full candidate list
            Fiber *ca[MAXF]; candidates(ca, inclCur, false);
            if (t != ca[0]) record('b', g_cur->id, "b", idx, t->id);
            return t;
        }
        uint64_t d = minDeadline();
        if (d == NEVER) {
            if (g_expectDeadlock) { g_now += 1000000; finishRun(1, "", ""); }
            hangViolation("deadlock");
        }
        if (d > g_now) g_now = d;
    }
}

static void enterFair() { g_fair = true; g_faults = false; for (int i = 0; i < g_nfib; i++) g_fib[i].stallUntil = 0; }

static __attribute__((noinline)) void hardCheck() {
    if (g_steps >= g_hardLimit) hangViolation("no progress");
    if (g_steps >= g_stepLimit && !g_fair) enterFair();
}

static __attribute__((noinline)) void preemptTo(Fiber *t, uintptr_t usersp) {
    unblock(*t);
    switchTo(t, usersp);
}

static __attribute__((noinline)) void randomPreempt(uintptr_t usersp) {
    g_cd = (int64_t)geom(g_mean);
    Fiber *c = g_cur;
    if (g_pTimer && rndn(g_pTimer) == 0) {
        uint64_t d = minDeadline();
        if (d != NEVER && d > g_now) { g_now = d; record('t', c->id, "t", c->npoints, 0); mix(0x7133); }
    }
    if (g_mode == 1) c->prio = -(int)(++g_nextPrio);
    else if (g_mode == 2 && rndn(4) == 0) c->stallUntil = g_steps + (1ull << (7 + rndn(10)));
    Fiber *cs[MAXF];
    int n = candidates(cs, false, true);
    if (!n) return;
    Fiber *t = pickRandom(cs, n);
    g_preempts++;
    record('p', c->id, "p", c->npoints, t->id);
    preemptTo(t, usersp);
}
static __attribute__((noinline)) void replayPreempt(uintptr_t usersp) {
    Fiber *c = g_cur;
    auto &v = g_repP[c->id];
    while (c->repCur < v.size() && v[c->repCur].idx <= c->npoints) {
        RepP e = v[c->repCur++];
        if (e.idx != c->npoints) continue;
        if (e.type == 't') { uint64_t d = minDeadline(); if (d != NEVER && d > g_now) { g_now = d; record('t', c->id, "t", c->npoints, 0); mix(0x7133); } continue; }
        if (e.val < 0 || e.val >= g_nfib) continue;
        Fiber *t = &g_fib[e.val];
        if (t != c && isReady(*t)) { g_preempts++; record('p', c->id, "p", c->npoints, t->id); preemptTo(t, usersp); return; }
    }
}
static __attribute__((noinline)) void forcedSlice(uintptr_t usersp) {
    g_slice = 0;
    Fiber *cs[MAXF];
    int n = candidates(cs, false, false);
    if (g_fair && n) { for (int i = 1; i < n; i++) if (cs[i]->lastRun < cs[0]->lastRun) std::swap(cs[0], cs[i]); }
    if (!n) { // everybody else waits: a spinning thread lets time pass
        uint64_t d = minDeadline();
        if (d != NEVER && d > g_now) g_now = d;
        n = candidates(cs, false, false);
        if (!n) return;
    }
    if (g_mode == 1) g_cur->prio = -(int)(++g_nextPrio);
    preemptTo(cs[0], usersp);
}

INL void pointAt(int weight, uintptr_t usersp) {
    Fiber *c = g_cur;
    c->npoints++;
    g_now += 20;
    if (UNLIKELY((++g_steps & 1023) == 0)) hardCheck();
    if (UNLIKELY(++g_slice > (g_fair ? 64 : g_sliceMax))) { forcedSlice(usersp); return; }
    if (UNLIKELY(g_fair)) return;
    if (g_replay) {
        if (UNLIKELY(c->repCur < g_repP[c->id].size() && g_repP[c->id][c->repCur].idx <= c->npoints)) replayPreempt(usersp);
        return;
    }
    if (UNLIKELY((g_cd -= weight) <= 0)) randomPreempt(usersp);
}
void rt::point(int weight) {
    if (!g_active || g_quiet) return;
    pointAt(weight == 0 ? 0 : weight < 0 ? g_wSync : weight, (uintptr_t)__builtin_frame_address(0));
}

bool rt::block(const char *why, bool (*ready)(void *), void *arg, uint64_t deadline) {
    if (!g_active) { if (ready && ready(arg)) return true; write(2, "block outside simulation\n", 25); _exit(3); }
    if (g_quiet) { finishRun(3, "block-in-quiet", why); }
    Fiber *c = g_cur;
    c->npoints++;
    g_steps++;
    if ((g_steps & 1023) == 0) hardCheck();
    c->state = 2; c->ready = ready; c->readyArg = arg; c->deadline = deadline; c->why = why; c->timedOut = false;
    Fiber *t = pickNext(true);
    unblock(*t);
    switchTo(t, (uintptr_t)__builtin_frame_address(0));
    return !c->timedOut;
}

// ------------------------------------------------------------------ fibers
static void fiberMain() {
    Fiber *f = g_cur;
    (*f->fn)();
    f = g_cur;
    f->state = 3;
    f->depth = 0;
    mix(0xdead ^ f->id);
    if (f->id == 0) finishRun(1, "", "");
    // the stack is dead from here on
    Fiber *t = pickNext(false);
    unblock(*t);
    switchTo(t, (uintptr_t)f->stackHi);
    __builtin_trap();
}
void rt::killFrom(int lo) {
    for (int i = lo; i < g_nfib; i++) { g_fib[i].state = 3; g_fib[i].depth = 0; }
    if (g_cur->id < lo) return;
    Fiber *f = g_cur;
    Fiber *t = pickNext(false);
    unblock(*t);
    switchTo(t, (uintptr_t)f->stackHi);
    __builtin_trap();
}
void rt::killProc(void *proc) {
    for (int i = 0; i < g_nfib; i++) if (g_fib[i].proc == proc) { g_fib[i].state = 3; g_fib[i].depth = 0; }
    if (g_cur->proc != proc) return;
    Fiber *f = g_cur;
    Fiber *t = pickNext(false);
    unblock(*t);
    switchTo(t, (uintptr_t)f->stackHi);
    __builtin_trap();
}
int rt::newFiber(const char *name, std::function<void()> fn) {
    if (g_nfib >= MAXF) finishRun(3, "too-many-fibers", "simulator fiber limit");
    int id = g_nfib++;
    Fiber &f = g_fib[id];
    f.id = id; f.state = 1; f.name = name;
    f.stackLo = (char *)(STK + STK_ONE * id);
    f.stackHi = f.stackLo + STK_ONE;
    f.tls = rawAlloc(g_tlsSz);
    memcpy(f.tls, g_tlsInit, g_tlsSz);
    f.fn = new (rawAlloc(sizeof(std::function<void()>))) std::function<void()>(fn);
    f.frames = (Frame *)rawAlloc(sizeof(Frame) * 4096);
    memset(f.stackHi - 24 * 1024, 0xA7, 24 * 1024);
    uintptr_t *sp = (uintptr_t *)(f.stackHi - 64);
    sp = (uintptr_t *)((uintptr_t)sp & ~15ull);
    *--sp = 0;                       // return address of fiberMain: end of unwinding
    *--sp = (uintptr_t)&fiberMain;
    for (int i = 0; i < 6; i++) *--sp = 0;
    f.sp = sp;
    f.userSp = (uintptr_t)sp;
    f.prio = g_replay ? 0 : (int)rndn(1000);
    f.lastRun = g_steps;
    if (g_cur) { f.proc = g_cur->proc; f.sigmask = g_cur->sigmask; }
    return id;
}

// ------------------------------------------------------------------ memory access hook
INL uint32_t *shadowOf(uintptr_t a, int &region) {
    if (a - ARENA < ARENA_SZ) { region = 0; return (uint32_t *)(SHA + ((a - ARENA) >> 3) * 4); }
    if (a - STK < STK_SZ) { region = 1; return (uint32_t *)(SHS + ((a - STK) >> 3) * 4); }
    uintptr_t g = a - (uintptr_t)&__data_start;
    if (g < (uintptr_t)&_end - (uintptr_t)&__data_start) { region = 2; return (uint32_t *)(SHG + (g >> 3) * 4); }
    region = 3; return nullptr;
}
static bool exemptUaf() { // SList deliberately reads the link of a possibly freed node behind a guard
    return false;
}
static __attribute__((noinline)) void badHeap(uintptr_t a, size_t sz, bool wr, uint32_t st) {
    if (exemptUaf()) return;
    const char *k = st == S_FREED ? "heap-use-after-free" : "heap-overflow";
    violation(k, "%s of %zu bytes in %s heap memory (fiber %d '%s')", wr ? "write" : "read", sz, st == S_FREED ? "freed" : "out-of-bounds", g_cur->id, g_cur->name);
}
static __attribute__((noinline)) void badStack(uintptr_t a, size_t sz, bool wr, int owner) {
    violation("dead-stack-access", "%s of %zu bytes in a finished stack frame of fiber %d '%s' by fiber %d '%s'", wr ? "write" : "read", sz, owner, g_fib[owner].name, g_cur->id, g_cur->name);
}
INL void access(uintptr_t a, size_t sz, bool wr, int extra, uintptr_t fp) {
    if (UNLIKELY(!g_active || g_quiet)) return;
    int region;
    uint32_t *s = shadowOf(a, region);
    int w = 0;
    if (LIKELY(s != nullptr)) {
        uint32_t v = *s, me = (uint32_t)(g_cur->id + 1) & 0xff;
        if (region == 0) {
            uint32_t st = v & 3;
            if (UNLIKELY(st != S_LIVE)) badHeap(a, sz, wr, st);
            else if (UNLIKELY((v & 0xf0) && (a & 7) + (sz > 8 ? 8 : sz) > ((v >> 4) & 15))) badHeap(a, sz, wr, S_RED);
            w = g_wUnshared;
        } else if (region == 1) {
            int owner = (int)((a - STK) / STK_ONE);
            if (UNLIKELY(owner != g_cur->id) && (g_fib[owner].state == 3 || g_fib[owner].state == 0 || a < g_fib[owner].userSp)) badStack(a, sz, wr, owner);
        } else w = g_wUnshared;
        uint32_t last = (v >> 8) & 0xff;
        if (UNLIKELY(last != me)) {
            v = (v & ~0xff00u) | me << 8;
            if (last) v |= 1u << 16;
            *s = v;
        }
        if (v & (1u << 16)) w = g_wShared;
    }
    pointAt(w + extra, fp);
}
#define FP ((uintptr_t)__builtin_frame_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_read1(void *p) { access((uintptr_t)p, 1, 0, 0, FP); }
void __tsan_read2(void *p) { access((uintptr_t)p, 2, 0, 0, FP); }
void __tsan_read4(void *p) { access((uintptr_t)p, 4, 0, 0, FP); }
void __tsan_read8(void *p) { access((uintptr_t)p, 8, 0, 0, FP); }
void __tsan_read16(void *p) { access((uintptr_t)p, 16, 0, 0, FP); }
void __tsan_write1(void *p) { access((uintptr_t)p, 1, 1, 0, FP); }
void __tsan_write2(void *p) { access((uintptr_t)p, 2, 1, 0, FP); }
void __tsan_write4(void *p) { access((uintptr_t)p, 4, 1, 0, FP); }
void __tsan_write8(void *p) { access((uintptr_t)p, 8, 1, 0, FP); }
void __tsan_write16(void *p) { access((uintptr_t)p, 16, 1, 0, FP); }
void __tsan_unaligned_read2(void *p) { access((uintptr_t)p, 2, 0, 0, FP); }
void __tsan_unaligned_read4(void *p) { access((uintptr_t)p, 4, 0, 0, FP); }
void __tsan_unaligned_read8(void *p) { access((uintptr_t)p, 8, 0, 0, FP); }
void __tsan_unaligned_read16(void *p) { access((uintptr_t)p, 16, 0, 0, FP); }
void __tsan_unaligned_write2(void *p) { access((uintptr_t)p, 2, 1, 0, FP); }
void __tsan_unaligned_write4(void *p) { access((uintptr_t)p, 4, 1, 0, FP); }
void __tsan_unaligned_write8(void *p) { access((uintptr_t)p, 8, 1, 0, FP); }
void __tsan_unaligned_write16(void *p) { access((uintptr_t)p, 16, 1, 0, FP); }
void __tsan_read_write1(void *p) { access((uintptr_t)p, 1, 1, 0, FP); }
void __tsan_read_write2(void *p) { access((uintptr_t)p, 2, 1, 0, FP); }
void __tsan_read_write4(void *p) { access((uintptr_t)p, 4, 1, 0, FP); }
void __tsan_read_write8(void *p) { access((uintptr_t)p, 8, 1, 0, FP); }
void __tsan_read_write16(void *p) { access((uintptr_t)p, 16, 1, 0, FP); }
void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, 0, 0, FP); }
void __tsan_vptr_update(void **p, void *) { access((uintptr_t)p, 8, 1, 0, FP); }
static void range(uintptr_t a, size_t n, bool wr, uintptr_t fp) {
    if (!n) return;
    if (!g_active || g_quiet) return;
    // check the whole range, one scheduling point
    for (uintptr_t x = a & ~7ull; x < a + n; x += 8) {
        int region; uint32_t *s = shadowOf(x, region);
        if (!s) break;
        if (region == 0) {
            uint32_t v = *s, st = v & 3;
            uintptr_t end = a + n < x + 8 ? a + n - x : 8;
            if (st != S_LIVE) badHeap(x, n, wr, st);
            else if ((v & 0xf0) && end > ((v >> 4) & 15)) badHeap(x, n, wr, S_RED);
        }
        uint32_t me = (uint32_t)(g_cur->id + 1) & 0xff, last = (*s >> 8) & 0xff;
        if (last != me) *s = (*s & ~0xff00u) | me << 8 | (last ? 1u << 16 : 0);
    }
    access(a, 1, wr, 0, fp);
}
}
void rt::touchMem(const void *p, size_t n, bool wr) { range((uintptr_t)p, n, wr, FP); }
extern "C" {
void __tsan_read_range(void *p, unsigned long n) { range((uintptr_t)p, n, 0, FP); }
void __tsan_write_range(void *p, unsigned long n) { range((uintptr_t)p, n, 1, FP); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { range((uintptr_t)s, n, 0, FP); range((uintptr_t)d, n, 1, FP); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { range((uintptr_t)s, n, 0, FP); range((uintptr_t)d, n, 1, FP); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { range((uintptr_t)d, n, 1, FP); return memset(d, c, n); }
// libc memory functions called by the code under test (renamed at link time)
void *sim_memcpy(void *d, const void *s, size_t n) { range((uintptr_t)s, n, 0, FP); range((uintptr_t)d, n, 1, FP); return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { range((uintptr_t)s, n, 0, FP); range((uintptr_t)d, n, 1, FP); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { range((uintptr_t)d, n, 1, FP); return memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { range((uintptr_t)a, n, 0, FP); range((uintptr_t)b, n, 0, FP); return memcmp(a, b, n); }
size_t sim_strlen(const char *s) { size_t n = strlen(s); range((uintptr_t)s, n + 1, 0, FP); return n; }

void __tsan_func_entry(void *) {
    if (UNLIKELY(!g_active)) return;
    Fiber *c = g_cur;
    uintptr_t fp = FP;
    while (c->depth && c->frames[c->depth - 1].sp <= fp) c->depth--;
    if (c->depth < 4096) { c->frames[c->depth].sp = fp; c->frames[c->depth].pc = __builtin_return_address(0); c->depth++; }
    if (UNLIKELY((++g_steps & 1023) == 0)) hardCheck();
    if (UNLIKELY((char *)fp < c->stackLo + 16 * 1024 && (char *)fp >= c->stackLo)) violation("stack-overflow", "runaway recursion in fiber %d '%s'", c->id, c->name);
}
void __tsan_func_exit() {
    if (UNLIKELY(!g_active)) return;
    Fiber *c = g_cur;
    if (c->depth) c->depth--;
}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define ATOM(N, T)                                                                                       \
    T __tsan_atomic##N##_load(const volatile T *a, int) { access((uintptr_t)a, N / 8, 0, 8, FP); return *a; }  \
    void __tsan_atomic##N##_store(volatile T *a, T v, int) { access((uintptr_t)a, N / 8, 1, 8, FP); *a = v; }  \
    T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { access((uintptr_t)a, N / 8, 1, 8, FP); T o = *a; *a = v; return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { access((uintptr_t)a, N / 8, 1, 8, FP); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { access((uintptr_t)a, N / 8, 1, 8, FP); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { access((uintptr_t)a, N / 8, 1, 8, FP); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { access((uintptr_t)a, N / 8, 1, 8, FP); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { access((uintptr_t)a, N / 8, 1, 8, FP); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { access((uintptr_t)a, N / 8, 1, 8, FP); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access((uintptr_t)a, N / 8, 1, 8, FP); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access((uintptr_t)a, N / 8, 1, 8, FP); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access((uintptr_t)a, N / 8, 1, 8, FP); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
typedef unsigned __int128 u128;
ATOM(128, u128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------ heap
struct Hdr { uint32_t cls; uint32_t magic; uint64_t size; };
enum : uint32_t { MLIVE = 0x51aab1e5, MFREE = 0xdeadf4ee };
static uintptr_t g_brk = ARENA + 64;
static const int NCLS = 160;
static uintptr_t g_free[NCLS];
static uintptr_t g_quar[4096]; static size_t g_qh, g_qt; static size_t g_qmax = 4096;
static size_t g_liveBytes, g_liveBlocks; static long g_libAllocs, g_failAt; static bool g_failed; static bool g_noAllocFail;
static int g_fillA = 0xBE;
static bool g_arenaReady = false;
static void arenaInit() {
    if (g_arenaReady) return;
    g_arenaReady = true;
    auto mapf = [](uintptr_t a, size_t n) {
        void *r = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
        if (r != (void *)a) { write(2, "sim: mmap failed\n", 17); _exit(3); }
    };
    mapf(ARENA, ARENA_SZ); mapf(STK, STK_SZ); mapf(SHA, ARENA_SZ / 2); mapf(SHS, STK_SZ / 2);
    mapf(SHG, (((uintptr_t)&_end - (uintptr_t)&__data_start) / 2 + 8192) & ~4095ull);
    mapf(PRIV, PRIV_SZ);
}
static int clsOf(size_t n, size_t &cap) {
    if (n <= 1024) { int c = (int)((n + 15) / 16); if (!c) c = 1; cap = c * 16; return c; }
    int c = 65; size_t s = 1024;
    while (s < n) { // 4 steps per power of two
        size_t q = s / 4;
        for (int i = 1; i <= 4; i++) { c++; if (s + q * i >= n) { cap = s + q * i; return c; } }
        s *= 2;
    }
    cap = s; return c;
}
INL uint32_t *shA(uintptr_t a) { return (uint32_t *)(SHA + ((a - ARENA) >> 3) * 4); }
static void *arenaAlloc(size_t n, size_t align = 16) {
    arenaInit();
    size_t want = n + (align > 16 ? align : 0), cap;
    int c = clsOf(want, cap);
    if (c >= NCLS) return nullptr;
    uintptr_t p;
    if (g_free[c] && align <= 16) { p = g_free[c]; g_free[c] = *(uintptr_t *)p; }
    else {
        p = g_brk + 16;
        if (align > 16) p = (p + align - 1) & ~(align - 1);
        if (p + cap + 16 > ARENA + ARENA_SZ) return nullptr;
        g_brk = p + cap + 16;   // >=16 bytes of redzone after
        g_brk = (g_brk + 15) & ~15ull;
    }
    Hdr *h = (Hdr *)(p - 16);
    h->cls = c; h->magic = MLIVE; h->size = n;
    *shA(p - 16) = S_RED; *shA(p - 8) = S_RED;
    size_t g = n / 8;
    uint32_t *s = shA(p);
    for (size_t i = 0; i < g; i++) s[i] = S_LIVE;
    size_t cg = cap / 8;
    if (n & 7) { s[g] = S_LIVE | (uint32_t)(n & 7) << 4; g++; }
    for (size_t i = g; i < cg + 2 && p + i * 8 < ARENA + ARENA_SZ; i++) s[i] = S_RED;
    if (g_active) memset((void *)p, g_fillA, n < 65536 ? n : 65536);
    g_liveBytes += n; g_liveBlocks++;
    return (void *)p;
}
static void reallyFree(uintptr_t p) { Hdr *h = (Hdr *)(p - 16); *(uintptr_t *)p = g_free[h->cls]; g_free[h->cls] = p; }
static void arenaFree(void *q) {
    if (!q) return;
    uintptr_t p = (uintptr_t)q;
    if (p - ARENA >= ARENA_SZ || (p & 15)) { if (g_active) violation("bad-free", "free of a pointer that is not a heap block"); _exit(3); }
    Hdr *h = (Hdr *)(p - 16);
    if (h->magic != MLIVE || (*shA(p - 8) & 3) != S_RED) {
        if (g_active) violation(h->magic == MFREE ? "double-free" : "bad-free", "block of %llu bytes freed %s", (unsigned long long)h->size, h->magic == MFREE ? "twice" : "through an invalid pointer");
        _exit(3);
    }
    h->magic = MFREE;
    g_liveBytes -= h->size; g_liveBlocks--;
    size_t g = (h->size + 7) / 8; uint32_t *s = shA(p);
    for (size_t i = 0; i < g; i++) s[i] = S_FREED;
    if (g_active) memset((void *)p, 0xDD, h->size < 65536 ? h->size : 65536);
    if (g_qmax == 0) { reallyFree(p); return; }
    g_quar[g_qt++ % 4096] = p;
    while (g_qt - g_qh > g_qmax) reallyFree(g_quar[g_qh++ % 4096]);
    if (g_qt - g_qh >= 4095) reallyFree(g_quar[g_qh++ % 4096]);
}
extern "C" {
void *malloc(size_t n) { return arenaAlloc(n); }
void free(void *p) { arenaFree(p); }
void *calloc(size_t a, size_t b) { void *p = arenaAlloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *realloc(void *p, size_t n) {
    if (!p) return arenaAlloc(n);
    if (!n) { arenaFree(p); return nullptr; }
    size_t o = ((Hdr *)((uintptr_t)p - 16))->size;
    void *q = arenaAlloc(n);
    if (q) { memcpy(q, p, o < n ? o : n); arenaFree(p); }
    return q;
}
void *memalign(size_t a, size_t n) { return arenaAlloc(n, a); }
void *aligned_alloc(size_t a, size_t n) { return arenaAlloc(n, a); }
int posix_memalign(void **r, size_t a, size_t n) { *r = arenaAlloc(n, a); return *r ? 0 : ENOMEM; }
void *valloc(size_t n) { return arenaAlloc(n, 4096); }
void *pvalloc(size_t n) { return arenaAlloc(n, 4096); }
size_t malloc_usable_size(void *p) { return p ? ((Hdr *)((uintptr_t)p - 16))->size : 0; }

static bool libAllocFails() {
    if (!g_active || g_quiet || g_noAllocFail) return false;
    g_libAllocs++;
    if (g_failAt > 0 && --g_failAt == 0) { g_failed = true; countFault("alloc_fail"); return true; }
    return false;
}
void *sim_malloc(size_t n) { rt::point(2); if (libAllocFails()) { errno = ENOMEM; return nullptr; } return arenaAlloc(n); }
void *sim_calloc(size_t a, size_t b) { rt::point(2); if (libAllocFails()) { errno = ENOMEM; return nullptr; } return calloc(a, b); }
void *sim_realloc(void *p, size_t n) { rt::point(2); if (libAllocFails()) { errno = ENOMEM; return nullptr; } return realloc(p, n); }
void sim_free(void *p) { rt::point(2); arenaFree(p); }
void *sim__Znwm(size_t n) { rt::point(2); if (libAllocFails()) throw std::bad_alloc(); void *p = arenaAlloc(n); if (!p) throw std::bad_alloc(); return p; }
void *sim__Znam(size_t n) { rt::point(2); if (libAllocFails()) throw std::bad_alloc(); void *p = arenaAlloc(n); if (!p) throw std::bad_alloc(); return p; }
void *sim__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t &) { rt::point(2); if (libAllocFails()) return nullptr; return arenaAlloc(n); }
void *sim__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t &) { rt::point(2); if (libAllocFails()) return nullptr; return arenaAlloc(n); }
void sim__ZdlPv(void *p) { rt::point(2); arenaFree(p); }
void sim__ZdaPv(void *p) { rt::point(2); arenaFree(p); }
void sim__ZdlPvm(void *p, size_t) { rt::point(2); arenaFree(p); }
void sim__ZdaPvm(void *p, size_t) { rt::point(2); arenaFree(p); }

// fiber aware initialisation of function-local statics
int sim___cxa_guard_acquire(uint64_t *g) {
    char *b = (char *)g;
    rt::point(8);
    while (true) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        rt::block("static initialisation", [](void *a) { return ((char *)a)[1] == 0; }, g, NEVER);
    }
}
void sim___cxa_guard_release(uint64_t *g) { char *b = (char *)g; b[0] = 1; b[1] = 0; rt::point(8); }
void sim___cxa_guard_abort(uint64_t *g) { ((char *)g)[1] = 0; }
}

// ------------------------------------------------------------------ sim:: API
namespace sim {
Scenario *&Scenario::head() { static Scenario *h; return h; }
Scenario::Scenario(const char *n, const char *p, double w, void (*f)()) : name(n), props(p), fn(f), weight(w), next(head()) { head() = this; }

Quiet::Quiet() { g_quiet++; }
Quiet::~Quiet() { g_quiet--; }

int param(const char *name, int lo, int hi) {
    char k[28]; snprintf(k, sizeof k, "P.%s", name);
    int v = lo + choose(k, hi - lo + 1, 0, 0, 0);
    if (g_res) { size_t n = strlen(g_res->params); if (n < sizeof(g_res->params) - 40) snprintf(g_res->params + n, sizeof(g_res->params) - n, "%s=%d ", name, v); }
    return v;
}
bool chance(const char *name, unsigned num, unsigned den) {
    char k[28]; snprintf(k, sizeof k, "X.%s", name);
    // value 1 with probability num/den
    int f = g_cur ? g_cur->id : 0; uint64_t kh = strh(k), idx = nextIdx(f, kh);
    int v = 0;
    if (g_replay) { auto it = g_repC->find(KeyC{f, kh, idx}); if (it != g_repC->end()) v = (int)it->second; }
    else v = rndn(den) < num;
    if (v) record('c', f, k, idx, v);
    rt::mix(kh ^ v);
    return v != 0;
}
void faultsEnable(bool on) { g_faultMaster = on; }
bool faultsEnabled() { return g_faults && g_faultMaster && !g_fair; }
static char g_enabled[1024];
void enableFaults(const char *kinds) { strncat(g_enabled, " ", 2); strncat(g_enabled, kinds, sizeof g_enabled - strlen(g_enabled) - 2); strcat(g_enabled, " "); for (char *p = g_enabled; *p; p++) if (*p == ',') *p = ' '; }
static bool faultListed(const char *kind) {
    size_t n = strlen(kind);
    for (const char *p = g_enabled; (p = strstr(p, kind)); p += n) if (p > g_enabled && p[-1] == ' ' && p[n] == ' ') return true;
    return false;
}
bool faultKindOn(const char *kind) {
    uint64_t h = strh(kind) ^ g_faultSalt; h ^= h >> 31; h *= 0x94d049bb133111ebull; h ^= h >> 29;
    return (h & 3) != 0;      // 3/4 of kinds are active in a fault run
}
bool fault(const char *kind) { return rt::fault(kind); }
int faultValue(const char *kind, int lo, int hi) { char k[28]; snprintf(k, sizeof k, "V.%s", kind); return lo + choose(k, hi - lo + 1, 0, 0, 0); }

void violation(const char *cls, const char *fmt, ...) {
    static char m[5500];
    if (g_inViolation) finishRun(3, "nested-violation", cls);
    g_inViolation = true;
    va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
    finishRun(2, cls, m);
}
void event(const char *fmt, ...) {
    static char b[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    g_stamp++;
    rt::mixs(b);
    rt::logf("%s", b);
}
void probe(const char *name) { if (g_res) addNamed(g_res->probes, NPROBE, name, 1); }
void note(const char *name, uint64_t v) { if (g_res) addNamed(g_res->notes, NNOTE, name, v); }
void mix(uint64_t v) { rt::mix(v); }
int self() { return g_cur ? g_cur->id : -1; }
int spawn(const char *name, std::function<void()> fn) { Quiet q; return newFiber(name, fn); }
void joinFiber(int id) { rt::point(-1); while (g_fib[id].state != 3) rt::block("join", [](void *a) { return g_fib[(intptr_t)a].state == 3; }, (void *)(intptr_t)id, NEVER); }
bool fiberDone(int id) { return g_fib[id].state == 3; }
int liveFibers() { int n = 0; for (int i = 0; i < g_nfib; i++) if (&g_fib[i] != g_cur && g_fib[i].state != 3) n++; return n; }
void yield() { rt::point(-1); }
void pass() {
    // the caller waits for one scheduling round
    struct S { uint64_t sw; } s = {g_switches};
    bool any = false;
    for (int i = 0; i < g_nfib; i++) if (&g_fib[i] != g_cur && isReady(g_fib[i])) any = true;
    if (!any) { uint64_t d = minDeadline(); if (d != NEVER && d > g_now) g_now = d; else return; }
    rt::block("pass", [](void *a) { return g_switches > ((S *)a)->sw; }, &s, g_now + 1000000);
}
uint64_t now_us() { return g_now / 1000; }
void advance(uint64_t us) { g_now += us * 1000; }
void sleep_us(uint64_t us) { rt::block("sleep", nullptr, nullptr, g_now + us * 1000); }
bool waitUntil(const std::function<bool()> &pred, uint64_t timeout_us) {
    return rt::block("waitUntil", [](void *a) { g_quiet++; bool r = (*(const std::function<bool()> *)a)(); g_quiet--; return r; }, (void *)&pred, timeout_us == NEVER ? NEVER : g_now + timeout_us * 1000);
}
uint64_t steps() { return g_steps; }
uint64_t stamp() { return ++g_stamp; }
void setStepLimit(uint64_t n) { g_stepLimit = n; g_hardLimit = n * 2 + 400000; }
void expectDeadlock(bool v) { g_expectDeadlock = v; }
bool isBlocked(int f) { return g_fib[f].state == 2 && !isReady(g_fib[f]); }
const char *blockedOn(int f) { return g_fib[f].state == 2 ? g_fib[f].why : ""; }
bool othersIdle() {
    for (int i = 0; i < g_nfib; i++) { Fiber &f = g_fib[i]; if (&f == g_cur) continue; if (f.state == 1 || (f.state == 2 && (isReady(f) || f.deadline != NEVER))) return false; }
    return true;
}
void settle(uint64_t us) {
    uint64_t end = g_now + us * 1000;
    for (;;) {
        struct S { Fiber *me; } s = {g_cur};
        // wake when no other fiber is ready
        bool idle = rt::block("settle", [](void *a) {
            for (int i = 0; i < g_nfib; i++) { Fiber &f = g_fib[i]; if (&f == ((S *)a)->me) continue; if (f.state == 1 || (f.state == 2 && strcmp(f.why, "settle") && isReady(f))) return false; }
            return true; }, &s, end);
        (void)idle;
        uint64_t d = NEVER;
        for (int i = 0; i < g_nfib; i++) if (&g_fib[i] != g_cur && g_fib[i].state == 2 && g_fib[i].deadline < d) d = g_fib[i].deadline;
        if (g_now >= end || d == NEVER || d > end) return;
        if (d > g_now) g_now = d;
    }
}
void fairPhase() { enterFair(); }
size_t liveBytes() { return g_liveBytes; }
size_t liveBlocks() { return g_liveBlocks; }
bool isFreed(const void *p) { uintptr_t a = (uintptr_t)p; return a - ARENA < ARENA_SZ && (*shA(a) & 3) == S_FREED; }
void allocFailAfter(long n) { g_failAt = n; g_failed = false; }
bool allocFailed() { return g_failed; }
long allocCount() { return g_libAllocs; }
NoAllocFail::NoAllocFail() : old(g_noAllocFail) { g_noAllocFail = true; }
NoAllocFail::~NoAllocFail() { g_noAllocFail = old; }
}
int sim::faultCount(const char *kind) { if (!g_res) return 0; int n = 0; for (int i = 0; i < NFAULT && g_res->faults[i].name[0]; i++) if (!kind || !strcmp(g_res->faults[i].name, kind)) n += (int)g_res->faults[i].n; return n; }
void rt::countFault(const char *kind) { if (g_res) addNamed(g_res->faults, NFAULT, kind, 1); }
bool rt::fault(const char *kind) {
    if (!g_active || g_quiet || !g_faults || !g_faultMaster || g_fair || !sim::faultListed(kind)) return false;
    char k[28]; snprintf(k, sizeof k, "F.%s", kind);
    int f = g_cur->id; uint64_t kh = strh(k), idx = nextIdx(f, kh);
    int v = 0;
    if (g_replay) { auto it = g_repC->find(KeyC{f, kh, idx}); if (it != g_repC->end()) v = (int)it->second; }
    else if (sim::faultKindOn(kind)) v = rndn(g_faultDen) == 0;
    if (v) { record('c', f, k, idx, v); countFault(kind); rt::mix(kh); rt::logf("fault %s", kind); }
    return v != 0;
}

// ------------------------------------------------------------------ crash handling
static void onCrash(int sig, siginfo_t *, void *) {
    if (g_cur && !g_inViolation) {
        g_inViolation = true;
        const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : sig == SIGALRM ? "SIGALRM" : "signal";
        char c[64], m[200];
        if (sig == SIGALRM) { snprintf(c, sizeof c, "wallclock-hang"); snprintf(m, sizeof m, "run did not finish: loop without scheduling points"); }
        else { snprintf(c, sizeof c, "crash:%s", n); snprintf(m, sizeof m, "program under test died with %s (uncaught exception, failed assertion or bad memory access) in fiber %d '%s'", n, g_cur->id, g_cur->name); }
        if (sig == SIGALRM) { g_hash = 0; g_steps = 0; g_now = 0; g_shash = 0; }
        finishRun(2, c, m);
    }
    _exit(3);
}
static char g_altstack[65536];

// ------------------------------------------------------------------ running one simulation in this (forked) process
struct RunSpec { std::string scenario; std::string prop; uint64_t seed = 0; bool replay = false; std::vector<Ent> ents; std::string traceOut, logOut; bool record = false; unsigned wall = 20; };
static const char *g_prop = "";
static const RunSpec *g_spec;
static void dumpTrace() {
    if (!g_recording || !g_spec || g_spec->traceOut.empty()) return;
    int fd = open(g_spec->traceOut.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return;
    FILE *f = fdopen(fd, "w");
    fprintf(f, "simtrace 1\nscenario %s\nprop %s\nseed %llu\nclass %s\nhash %016llx\n", g_scn, g_prop, (unsigned long long)g_spec->seed, g_res->status == 2 ? g_res->cls : "-", (unsigned long long)g_res->hash);
    for (size_t i = 0; i < g_nrec; i++) fprintf(f, "%c %d %s %llu %lld\n", g_rec[i].type, g_rec[i].fiber, g_rec[i].kind, (unsigned long long)g_rec[i].idx, (long long)g_rec[i].val);
    fclose(f);
}
const char *simProp() { return g_prop; }

static std::vector<sim::Scenario *> scenariosFor(const std::string &prop) {
    std::vector<sim::Scenario *> v;
    for (sim::Scenario *s = sim::Scenario::head(); s; s = s->next) {
        std::string p = std::string(" ") + s->props + " ";
        if (prop.empty() || p.find(" " + prop + " ") != std::string::npos) v.push_back(s);
    }
    std::sort(v.begin(), v.end(), [](sim::Scenario *a, sim::Scenario *b) { return strcmp(a->name, b->name) < 0; });
    return v;
}
static void *g_osp;
[[noreturn]] static void runHere(const RunSpec &spec) {
    g_spec = &spec; g_prop = spec.prop.c_str();
    uint64_t x = spec.seed * 0x9E3779B97F4A7C15ull + 12345;
    g_rs[0] = splitmix(x); g_rs[1] = splitmix(x);
    g_replay = spec.replay;
    g_recording = spec.record;
    if (g_recording) g_rec = (Ent *)rawAlloc(sizeof(Ent) * MAXREC);
    g_cnt = (Cnt *)rawAlloc(sizeof(Cnt) * NCNT);
    if (!spec.logOut.empty()) g_logfd = open(spec.logOut.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    g_hash = 0x1234; g_shash = 0x4321;
    // scenario
    sim::Scenario *sc = nullptr;
    if (!spec.scenario.empty()) { for (auto s : scenariosFor("")) if (spec.scenario == s->name) sc = s; }
    else {
        auto v = scenariosFor(spec.prop);
        double tot = 0; for (auto s : v) tot += s->weight;
        double r = (double)(rnd() >> 11) / (double)(1ull << 53) * tot;
        for (auto s : v) { sc = s; r -= s->weight; if (r < 0) break; }
    }
    if (!sc) { fprintf(stderr, "no scenario\n"); _exit(3); }
    g_scn = sc->name;
    strncpy(g_res->scenario, g_scn, sizeof g_res->scenario - 1);
    // strategy
    static const uint64_t means[] = {24, 48, 96, 192, 400, 800, 2000, 6000, 20000, 100000};
    static const unsigned ptm[] = {0, 0, 30, 8};
    g_now = 1700000000ull * 1000000000ull;
    if (!g_replay) {
        g_mean = means[rndn(10)];
        g_mode = (int)rndn(4); if (g_mode == 3) g_mode = 0;
        g_pTimer = ptm[rndn(4)];
        g_wUnshared = rndn(3) == 0 ? 2 : rndn(2);
        g_faults = rndn(4) != 0;
        static const unsigned fd[] = {2, 4, 8, 20, 60, 200};
        g_faultDen = fd[rndn(6)];
        g_faultSalt = rnd();
        g_cd = (int64_t)geom(g_mean);
    } else g_faults = true;
    // recorded tunables of the environment
    { static const int sl[] = {2000, 500, 10000, 200}; g_sliceMax = sl[choose("E.slice", 4, 0, 0, 0)]; }
    { int q = choose("E.reuse", 4, 0, 0, 0); g_qmax = q == 1 ? 0 : q == 2 ? 6 : 4096; }
    { static const int fl[] = {0xBE, 0x00, 0xFF, 0x01}; g_fillA = fl[choose("E.fill", 4, 0, 0, 0)]; }
    g_brk = ARENA + (256ull << 20); memset(g_free, 0, sizeof g_free); g_qh = g_qt = 0; g_liveBytes = g_liveBlocks = 0;
    g_priv = PRIV + (64ull << 20) + (g_recording ? 0 : 0);
    g_tlsInit = rawAlloc(g_tlsSz); memcpy(g_tlsInit, g_tlsLo, g_tlsSz);
    std::function<void()> body = sc->fn;
    newFiber("main", body);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onCrash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = g_altstack; ss.ss_size = sizeof g_altstack; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
    alarm(spec.wall);
    g_cur = &g_fib[0];
    memcpy(g_tlsLo, g_fib[0].tls, g_tlsSz);
    g_active = true;
    rt_switch(&g_osp, g_fib[0].sp);
    _exit(3);
}

// ------------------------------------------------------------------ coordinator
static Result *sharedResult() { return (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static void runForked(const RunSpec &s, Result *r) {
    memset(r, 0, sizeof *r);
    g_res = r;
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (s.replay) loadReplay(s.ents);
        int dn = open("/dev/null", O_RDWR);
        if (dn >= 0 && !getenv("SIM_STDERR")) { dup2(dn, 2); dup2(dn, 1); dup2(dn, 0); }
        runHere(s);
    }
    int st; waitpid(p, &st, 0);
    if (r->status == 0) {
        r->status = 3;
        snprintf(r->cls, sizeof r->cls, "harness");
        snprintf(r->msg, sizeof r->msg, "run process ended with wait status %x without a result", st);
    }
    r->scenario[sizeof r->scenario - 1] = 0;
}
static void jsonStr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}
static void printResult(FILE *f, const Result &r, uint64_t seed) {
    static const char *st[] = {"none", "ok", "violation", "error"};
    fprintf(f, "{\"status\":\"%s\",\"seed\":%llu,\"scenario\":", st[r.status & 3], (unsigned long long)seed); jsonStr(f, r.scenario);
    fprintf(f, ",\"class\":"); jsonStr(f, r.cls); fprintf(f, ",\"msg\":"); jsonStr(f, r.msg);
    fprintf(f, ",\"hash\":\"%016llx\",\"sched\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"preempts\":%llu,\"params\":", (unsigned long long)r.hash, (unsigned long long)r.schedHash, (unsigned long long)r.steps, (unsigned long long)r.switches, (unsigned long long)r.preempts);
    jsonStr(f, r.params);
    fprintf(f, ",\"stack\":[");
    for (int i = 0; i < r.nstack; i++) fprintf(f, "%s\"%p\"", i ? "," : "", r.stack[i]);
    fprintf(f, "]}\n");
}
static bool loadTrace(const char *path, RunSpec &s) {
    FILE *f = fopen(path, "r");
    if (!f) return false;
    char line[400];
    while (fgets(line, sizeof line, f)) {
        char a[200], t; Ent e; memset(&e, 0, sizeof e);
        unsigned long long u; long long v;
        if (sscanf(line, "scenario %199s", a) == 1) s.scenario = a;
        else if (sscanf(line, "prop %199s", a) == 1) s.prop = a;
        else if (sscanf(line, "seed %llu", &u) == 1) s.seed = u;
        else if (!strncmp(line, "class ", 6) || !strncmp(line, "hash ", 5) || !strncmp(line, "simtrace", 8) || line[0] == '#') continue;
        else if (sscanf(line, "%c %d %27s %llu %lld", &t, &e.fiber, e.kind, &u, &v) == 5) { e.type = t; e.idx = u; e.val = v; s.ents.push_back(e); }
    }
    fclose(f);
    s.replay = true;
    return true;
}
static void saveTrace(const char *path, const RunSpec &s, const Result &r) {
    FILE *f = fopen(path, "w");
    fprintf(f, "simtrace 1\nscenario %s\nprop %s\nseed %llu\nclass %s\nhash %016llx\n", s.scenario.c_str(), s.prop.c_str(), (unsigned long long)s.seed, r.cls, (unsigned long long)r.hash);
    for (auto &e : s.ents) fprintf(f, "%c %d %s %llu %lld\n", e.type, e.fiber, e.kind, (unsigned long long)e.idx, (long long)e.val);
    fclose(f);
}
static double wallNow() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static int minimise(const char *in, const char *out, double budget) {
    RunSpec s; if (!loadTrace(in, s)) return 3;
    Result *r = sharedResult();
    s.wall = 10;
    runForked(s, r);
    if (r->status != 2) { printResult(stdout, *r, s.seed); return 4; }
    std::string cls = r->cls;
    Result best = *r;
    double end = wallNow() + budget;
    size_t tries = 0, before = s.ents.size();
    auto attempt = [&](std::vector<Ent> &cand) -> bool {
        RunSpec c = s; c.ents = cand; tries++;
        runForked(c, r);
        if (r->status == 2 && cls == r->cls) { s.ents.swap(cand); best = *r; return true; }
        return false;
    };
    // ddmin
    size_t chunk = s.ents.size() / 2;
    while (chunk >= 1 && wallNow() < end) {
        bool any = false;
        for (size_t i = 0; i < s.ents.size() && wallNow() < end;) {
            std::vector<Ent> c(s.ents.begin(), s.ents.begin() + i);
            size_t e = std::min(i + chunk, s.ents.size());
            c.insert(c.end(), s.ents.begin() + e, s.ents.end());
            if (attempt(c)) any = true; else i = e;
        }
        if (chunk == 1 && !any) break;
        if (chunk > 1) chunk /= 2;
    }
    // shrink values
    for (size_t i = 0; i < s.ents.size() && wallNow() < end; i++) {
        if (s.ents[i].type != 'c' || s.ents[i].val <= 1) continue;
        for (int64_t v = 1; v < s.ents[i].val && wallNow() < end; v++) { auto c = s.ents; c[i].val = v; if (attempt(c)) break; if (v > 6) break; }
    }
    saveTrace(out, s, best);
    fprintf(stderr, "minimised %zu -> %zu decisions in %zu runs\n", before, s.ents.size(), tries);
    printResult(stdout, best, s.seed);
    return 0;
}

struct Totals {
    uint64_t runs, ok, viol, err, steps, simns, switches, preempts, nontrivial;
    Named probes[NPROBE], faults[NFAULT], notes[NNOTE], scen[64];
};
static int batch(const std::string &prop, const std::string &scenario, uint64_t seed, double secs, uint64_t maxruns, int workers, const char *out) {
    struct Shared { volatile int stop; };
    Shared *sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Totals *tot = (Totals *)mmap(nullptr, sizeof(Totals) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = wallNow();
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; w++) {
        fflush(stdout);
        pid_t p = fork();
        if (p) { pids.push_back(p); continue; }
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        Totals &T = tot[w];
        Result *r = sharedResult();
        std::string of = std::string(out) + ".w" + std::to_string(w);
        FILE *f = fopen(of.c_str(), "w");
        static uint64_t buf[8192]; size_t nb = 0;
        std::string hf = std::string(out) + ".h" + std::to_string(w);
        int hfd = open(hf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        uint64_t nv = 0;
        for (uint64_t i = w; i < maxruns && !sh->stop && wallNow() - t0 < secs; i += workers) {
            uint64_t x = seed * 1000003ull + i; uint64_t rs = splitmix(x) >> 1;
            RunSpec s; s.prop = prop; s.scenario = scenario; s.seed = rs;
            runForked(s, r);
            T.runs++; T.steps += r->steps; T.simns += r->simns - 1700000000ull * 1000000000ull; T.switches += r->switches; T.preempts += r->preempts;
            if (r->status == 1) T.ok++; else if (r->status == 2) T.viol++; else T.err++;
            bool nontriv = r->preempts > 0;
            for (int k = 0; k < NFAULT && r->faults[k].name[0]; k++) { addNamed(T.faults, NFAULT, r->faults[k].name, r->faults[k].n); nontriv = true; }
            for (int k = 0; k < NPROBE && r->probes[k].name[0]; k++) addNamed(T.probes, NPROBE, r->probes[k].name, r->probes[k].n);
            for (int k = 0; k < NNOTE && r->notes[k].name[0]; k++) addNamed(T.notes, NNOTE, r->notes[k].name, r->notes[k].n);
            addNamed(T.scen, 64, r->scenario, 1);
            if (nontriv) { T.nontrivial++; buf[nb++] = r->hash; if (nb == 8192) { write(hfd, buf, nb * 8); nb = 0; } }
            if (r->status != 1) { if (nv < 400) printResult(f, *r, rs); nv++; fflush(f); if (nv >= 400) { break; } }
            else if (T.runs % 997 == 3 && T.runs < 5000) printResult(f, *r, rs);
        }
        if (nb) write(hfd, buf, nb * 8);
        fclose(f);
        _exit(0);
    }
    for (pid_t p : pids) { int st; waitpid(p, &st, 0); }
    double wall = wallNow() - t0;
    static Totals A; memset(&A, 0, sizeof A);
    std::vector<uint64_t> hs;
    for (int w = 0; w < workers; w++) {
        Totals &T = tot[w];
        A.runs += T.runs; A.ok += T.ok; A.viol += T.viol; A.err += T.err; A.steps += T.steps; A.simns += T.simns; A.switches += T.switches; A.preempts += T.preempts; A.nontrivial += T.nontrivial;
        for (int k = 0; k < NFAULT && T.faults[k].name[0]; k++) addNamed(A.faults, NFAULT, T.faults[k].name, T.faults[k].n);
        for (int k = 0; k < NPROBE && T.probes[k].name[0]; k++) addNamed(A.probes, NPROBE, T.probes[k].name, T.probes[k].n);
        for (int k = 0; k < NNOTE && T.notes[k].name[0]; k++) addNamed(A.notes, NNOTE, T.notes[k].name, T.notes[k].n);
        for (int k = 0; k < 64 && T.scen[k].name[0]; k++) addNamed(A.scen, 64, T.scen[k].name, T.scen[k].n);
        std::string hf = std::string(out) + ".h" + std::to_string(w);
        int fd = open(hf.c_str(), O_RDONLY);
        if (fd >= 0) {
            off_t sz = lseek(fd, 0, SEEK_END); lseek(fd, 0, SEEK_SET);
            size_t o = hs.size(); hs.resize(o + sz / 8);
            size_t got = 0; while (got < (size_t)sz) { ssize_t k = read(fd, (char *)&hs[o] + got, sz - got); if (k <= 0) break; got += k; }
            close(fd);
        }
        unlink(hf.c_str());
    }
    std::sort(hs.begin(), hs.end());
    uint64_t distinct = std::unique(hs.begin(), hs.end()) - hs.begin();
    FILE *f = fopen(out, "w");
    auto dump = [&](const char *n, Named *t, int cnt) {
        fprintf(f, ",\"%s\":{", n);
        for (int k = 0; k < cnt && t[k].name[0]; k++) { if (k) fputc(',', f); jsonStr(f, t[k].name); fprintf(f, ":%llu", (unsigned long long)t[k].n); }
        fprintf(f, "}");
    };
    fprintf(f, "{\"runs\":%llu,\"ok\":%llu,\"violations\":%llu,\"errors\":%llu,\"steps\":%llu,\"sim_s\":%.3f,\"switches\":%llu,\"preempts\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"wall\":%.2f",
            (unsigned long long)A.runs, (unsigned long long)A.ok, (unsigned long long)A.viol, (unsigned long long)A.err, (unsigned long long)A.steps, (double)A.simns / 1e9, (unsigned long long)A.switches, (unsigned long long)A.preempts, (unsigned long long)A.nontrivial, (unsigned long long)distinct, wall);
    dump("faults", A.faults, NFAULT); dump("probes", A.probes, NPROBE); dump("notes", A.notes, NNOTE); dump("scenarios", A.scen, 64);
    fprintf(f, ",\"results\":[\n");
    bool first = true;
    for (int w = 0; w < workers; w++) {
        std::string of = std::string(out) + ".w" + std::to_string(w);
        FILE *g = fopen(of.c_str(), "r");
        if (g) { static char line[20000]; while (fgets(line, sizeof line, g)) { if (!first) fputs(",", f); first = false; fputs(line, f); } fclose(g); }
        unlink(of.c_str());
    }
    fprintf(f, "]}\n");
    fclose(f);
    return 0;
}

void simFsZygoteInit() __attribute__((weak));
int main(int argc, char **argv) {
    arenaInit();
    initTls();
    if (argc < 2) { fprintf(stderr, "usage: %s list|batch|one|replay|min ...\n", argv[0]); return 3; }
    std::string cmd = argv[1];
    std::map<std::string, std::string> o; std::vector<std::string> pos;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0 && i + 1 < argc) { o[a.substr(2)] = argv[i + 1]; i++; } else pos.push_back(a);
    }
    if (cmd == "list") { for (auto s : scenariosFor(o["prop"])) printf("%s\t%s\t%g\n", s->name, s->props, s->weight); return 0; }
    if (cmd == "hashes") { // one line per run: used to prove determinism across processes and worker counts
        uint64_t n = strtoull(o["runs"].c_str(), 0, 10), base = strtoull(o["seed"].c_str(), 0, 10);
        int step = o.count("step") ? atoi(o["step"].c_str()) : 1, off = o.count("off") ? atoi(o["off"].c_str()) : 0;
        Result *r = sharedResult();
        for (uint64_t i = off; i < n; i += step) {
            uint64_t x = base * 1000003ull + i; RunSpec s; s.prop = o["prop"]; s.seed = splitmix(x) >> 1;
            runForked(s, r);
            printf("%llu %d %016llx %016llx %llu %llu\n", (unsigned long long)i, r->status, (unsigned long long)r->hash, (unsigned long long)r->schedHash, (unsigned long long)r->steps, (unsigned long long)r->simns);
        }
        return 0;
    }
    if (cmd == "batch") return batch(o["prop"], o["scenario"], strtoull(o["seed"].c_str(), 0, 10), atof(o["secs"].c_str()), o.count("runs") ? strtoull(o["runs"].c_str(), 0, 10) : ~0ull, o.count("workers") ? atoi(o["workers"].c_str()) : 8, o["out"].c_str());
    Result *r = sharedResult();
    if (cmd == "one") {
        RunSpec s; s.prop = o["prop"]; s.scenario = o["scenario"]; s.seed = strtoull(o["runseed"].c_str(), 0, 10);
        s.traceOut = o["trace"]; s.logOut = o["log"]; s.record = !s.traceOut.empty();
        runForked(s, r); printResult(stdout, *r, s.seed); return r->status == 1 ? 0 : r->status == 2 ? 1 : 3;
    }
    if (cmd == "replay") {
        RunSpec s; if (pos.empty() || !loadTrace(pos[0].c_str(), s)) return 3;
        s.traceOut = o["trace"]; s.logOut = o["log"]; s.record = !s.traceOut.empty();
        runForked(s, r); printResult(stdout, *r, s.seed); return r->status == 1 ? 0 : r->status == 2 ? 1 : 3;
    }
    if (cmd == "min") { if (pos.size() < 2) return 3; return minimise(pos[0].c_str(), pos[1].c_str(), o.count("budget") ? atof(o["budget"].c_str()) : 20); }
    return 3;
}
