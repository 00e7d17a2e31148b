// internal runtime interface shared by rt.cpp / os.cpp / fs.cpp / net.cpp (never instrumented)
#pragma once
#include "sim.h"
#include <stdio.h>
#include <string.h>

namespace rt {
using sim::violation;

enum { MAXF = 240 };
static const uint64_t NEVER = ~0ull;

struct Frame { uintptr_t sp; void *pc; };
struct Fiber {
    int id = 0;
    int state = 0;              // 0 unused 1 runnable 2 blocked 3 done
    void *sp = nullptr;         // saved context
    uintptr_t userSp = 0;       // lowest live user frame while parked
    char *stackLo = nullptr, *stackHi = nullptr;
    void *tls = nullptr;
    uint64_t npoints = 0, nblocks = 0;
    uint64_t deadline = NEVER;  // ns
    bool timedOut = false;
    bool (*ready)(void *) = nullptr;
    void *readyArg = nullptr;
    const char *why = "";
    uint64_t stallUntil = 0;
    int prio = 0;
    const char *name = "";
    std::function<void()> *fn = nullptr;
    Frame *frames = nullptr;
    int depth = 0;
    uint64_t lastRun = 0;
    uint64_t nchoice = 0;
    void *proc = nullptr;       // simulated process (nullptr: the root one)
    uint64_t sigmask = 0;       // blocked signals
    uint64_t sigwait = 0;       // signals this fiber waits for
    // replay cursor
    size_t repCur = 0;
};

extern bool g_active;
extern int g_quiet;
extern Fiber *g_cur;
extern Fiber g_fib[MAXF];
extern int g_nfib;
extern uint64_t g_now;    // ns
extern bool g_fair;

// block the current fiber until ready(arg) or the deadline (ns, NEVER = none); returns false on timeout
bool block(const char *why, bool (*ready)(void *), void *arg, uint64_t deadline);
void point(int weight);                 // scheduling point of given weight
bool fault(const char *kind);
int choose(const char *kind, int n, int def, unsigned num, unsigned den);   // value in [0,n)
uint64_t rnd();
void mix(uint64_t);
void mixs(const char *);
extern uint64_t (*g_nextEvent)();       // next pending network arrival (ns), NEVER if none
void killFrom(int lo);                  // fibers id >= lo vanish (a process dies)
void killProc(void *proc);              // fibers of one simulated process vanish
extern void (*g_kernelOp)();            // called on entry of simulated system calls
void touchMem(const void *p, size_t n, bool wr);   // checks a memory range as an access of the current fiber
int newFiber(const char *name, std::function<void()> fn);
[[noreturn]] void unsupported(const char *what);
[[noreturn]] void finishRun(int status, const char *cls, const char *msg);
void countFault(const char *kind);
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void *rawAlloc(size_t n);               // runtime-private memory (never reused, not in the arena)
}
