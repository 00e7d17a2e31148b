// Deterministic simulator: public API for workloads (includable from C++11, instrumented or not).
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <functional>

namespace sim {

// ---- scenario registration -------------------------------------------------
struct Scenario {
    const char *name;
    const char *props;      // space separated property ids
    void (*fn)();
    double weight;
    Scenario *next;
    Scenario(const char *name, const char *props, double weight, void (*fn)());
    static Scenario *&head();
};
#define SCENARIO(ident, props, weight)                                         \
    static void scn_##ident();                                                 \
    static ::sim::Scenario scn_reg_##ident(#ident, props, weight, &scn_##ident); \
    static void scn_##ident()

// ---- nondeterminism ---------------------------------------------------------
// every value is drawn from the run's PRNG, recorded, and replayable; the
// default (what minimisation reverts to) is lo / 0 / false.
int param(const char *name, int lo, int hi);           // workload knob
inline bool coin(const char *name) { return param(name, 0, 1) != 0; }
bool chance(const char *name, unsigned num, unsigned den);
bool fault(const char *kind);                          // swarm-rate fault point
int faultCount(const char *kind);                      // how often it fired in this run (nullptr: any kind)
inline bool faultsInjected() { return faultCount(nullptr) != 0; }
int faultValue(const char *kind, int lo, int hi);      // magnitude of a fault
void enableFaults(const char *kinds);                  // space separated fault kinds the workload tolerates
void faultsEnable(bool on);                            // master switch (per run)
bool faultsEnabled();
bool faultKindOn(const char *kind);                    // is this kind in this run's swarm

// ---- oracle ------------------------------------------------------------------
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void event(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // goes to the event log and its hash
void probe(const char *name);                          // reach counter
void mix(uint64_t v);                                  // fold a value in the run hash
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::violation(cls, __VA_ARGS__); } while (0)

// no preemption, no faults, no UAF checking inside
struct Quiet { Quiet(); ~Quiet(); Quiet(const Quiet&) = delete; };

// ---- fibers / time -------------------------------------------------------------
int self();                                            // fiber id
int spawn(const char *name, std::function<void()> fn); // raw fiber (a thread not made by the library)
void joinFiber(int id);
bool fiberDone(int id);
int liveFibers();                                      // not finished, excluding the caller
void yield();                                          // scheduling point
void pass();                                           // let others run (caller is put last)
uint64_t now_us();                                     // simulated time
void advance(uint64_t us);                             // push simulated clock
void sleep_us(uint64_t us);                            // block current fiber
bool waitUntil(const std::function<bool()> &pred, uint64_t timeout_us); // polled at scheduling points; pred runs quiet
uint64_t steps();                                      // global event sequence number
uint64_t stamp();                                      // strictly increasing event stamp
void setStepLimit(uint64_t n);
void note(const char *key, uint64_t v);                // accumulate in run notes
void expectDeadlock(bool v);
void settle(uint64_t us);                              // let everything else run until idle or us passed
bool othersIdle();                                     // all other fibers blocked without timer (or finished)
void clockSkew(int64_t us);                             // wall clock jump
void runAtExit();                                      // run handlers registered through atexit()
bool isBlocked(int fiber);                             // fiber blocked (not runnable)
const char *blockedOn(int fiber);
void fairPhase();                                      // enter the fault-free fair phase now

// ---- memory ----------------------------------------------------------------------
size_t liveBytes();                                    // bytes in live heap blocks
size_t liveBlocks();
bool isFreed(const void *p);
void allocFailAfter(long n);                           // n-th following library allocation fails (0 = off)
bool allocFailed();                                    // did it fire
long allocCount();                                     // library allocations so far
struct NoAllocFail { NoAllocFail(); ~NoAllocFail(); bool old; };

template<class T> struct Q { // tiny helper: value only touched quietly
    T v; Q():v(){}
};
}
