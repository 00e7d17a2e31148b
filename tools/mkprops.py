#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and tools/config.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/lightspeed/"
TESTS = "the repository's tests are single threaded conversions, parsers and HTTP examples; none of them touches this"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
            state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
            mechanism=[dict(name=a, where=S + b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Locks exclude each other's critical sections and always hand over",
  "At any moment at most one thread is between a successful lock/tryLock (with or without a timeout, including asynchronously queued and recursively nested acquisitions) and the matching unlock of one FastLock, FastLockR, MicroLock, SpinLock, SpinLockRecursive or Mutex. When every holder has released it the lock is free again, no blocked thread stays blocked for ever, and a failed tryLock or timed lock leaves no trace. Neither locking nor unlocking touches memory of the lock's waiters after they were let go.",
  ["schedules", "fault_sequences"], "every interleaving of the instructions of the threads using one lock, every timeout, with interrupted system waits",
  "Schedules are unbounded; " + TESTS,
  ["mt/fastlock.h", "mt/microlock.h", "mt/spinlock.h", "mt/mutex.h", "mt/mutex.cpp"],
  [("queue of waiting slots handed over by unlock", "mt/fastlock.h"), ("queue through the owner pointer", "mt/microlock.h"), ("owner and recursion counter", "mt/mutex.cpp")],
  [("queue/owner", "who holds and who waits", "mt/fastlock.h")], ["critical sections of simulated threads", "state of the lock after all threads finished"])
prop("C02", "Shared/exclusive locks never mix readers with a writer",
  "While a writer holds an RWLock nobody else is inside, readers share it only with readers, and owners of a LevelLock always hold one common level. A request which finds the lock compatible but somebody already waiting queues behind (tryLock fails) so nobody is overtaken, a cancelled request holds nothing and wakes nobody wrongly, and once all owners leave the lock is free and every waiter is let in.",
  ["schedules"], "every interleaving of readers, writers, try-locks, asynchronous requests and cancellations",
  "Schedules are unbounded; " + TESTS, ["mt/rwlock.h"],
  [("waiting queue with levels and use counter", "mt/rwlock.h")], [("useCount/curLevel", "owners and their level", "mt/rwlock.h")], ["critical sections of simulated threads", "tryLock results"])
prop("C03", "Semaphore permits are neither lost nor invented",
  "A semaphore created with N permits never lets more than N threads through without an unlock in between, for every way of locking it (blocking, try, timed, interruptible, asynchronous with cancellation). A lock attempt which fails, times out, is interrupted or is cancelled takes no permit, so after everybody finished exactly N permits are available; a timed attempt does not give up before its timeout.",
  ["schedules", "fault_sequences"], "every interleaving of lockers and unlockers, every timeout, interrupted waits, finish requests",
  "The lost-permit cases need a timeout or cancellation racing with an unlock; " + TESTS, ["mt/semaphore.h", "mt/syncPt.h", "mt/syncPt.cpp"],
  [("permit passed directly to the first waiting slot", "mt/semaphore.h")], [("counter", "free permits", "mt/semaphore.h")], ["threads inside the guarded region", "permits left at the end"])
prop("C04", "Wait queues, gates and notifiers deliver every wake-up exactly once",
  "A slot registered in a wait queue is signaled by the next notifyAll, or by exactly one notifyOne in the configured order (oldest or newest first); a slot that was removed before that is never signaled, removal reports truthfully which of both happened, and value-passing queues deliver the value sent to that slot. Waiting on a gate returns success only if the gate was open at some moment of the wait, and opening it releases every waiter; a notifier's signal and reason are never lost. Timed waits do not give up early, and the waited-on object may be destroyed as soon as its waiter was released.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of registering, removing, waiting, notifying, opening and closing; interrupted waits; timeouts",
  "Lost wake-ups need specific interleavings; " + TESTS, ["mt/syncPt.h", "mt/syncPt.cpp", "mt/gate.h", "mt/notifier.h", "mt/notifier.cpp"],
  [("slot queue under the queue lock", "mt/syncPt.cpp"), ("state re-checked after registration", "mt/gate.h"), ("signaled flag before wake-up", "mt/notifier.h")], [("curQueue", "waiting slots", "mt/syncPt.h"), ("state", "gate state", "mt/gate.h")], ["slot state", "return values of wait/remove/notify"])
prop("C05", "A thread runs its function exactly once per start and join waits for it",
  "Each successful start of a Thread runs the given function exactly once, in a thread for which the Thread object is the current one, and join, stop, the join object and the destructor return only after that run (and destruction of the function object) is over, and always return, even when the function or a thread hook throws. Starting a running thread fails as busy without disturbing it, a failed start leaves the object startable and not running, init hooks are called once per thread in the order of installation and exit hooks in the reversed order, an exception leaving the function or a hook is reported exactly to the hooks already initialized, and foreign threads can attach, detach and attach again.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of starters, joiners, finishing threads and hooks; failing thread creation; functions which throw",
  "The races are between a finishing thread and its owner; " + TESTS, ["mt/thread.h", "mt/linux/thread.cpp", "mt/threadHook.cpp", "mt/threadHook.h"],
  [("context pointer CAS + join gate", "mt/linux/thread.cpp"), ("hook chain under a lock", "mt/threadHook.cpp")], [("threadContext/joinObject", "running state", "mt/thread.h")], ["runs of the thread function", "join results", "isRunning", "live copies of the function"])
prop("C06", "Wake-ups are not lost and sleeps respect their timeouts",
  "A wake-up sent to a thread, before or during its sleep, makes its current or next sleep return; sleep reports a timeout only after the timeout elapsed and an interruption only if somebody woke the thread (or the system wait was interrupted), delivering the reason that was sent. deepSleep never returns early, and a request to finish wakes a thread from every interruptible wait, is visible to it, and does not survive into the next run of the same Thread object.",
  ["schedules", "fault_sequences"], "every interleaving of sleepers and wakers, every timeout, interrupted waits",
  "A lost wake-up needs the waker between the check and the sleep; " + TESTS, ["mt/linux/threadSleeper.cpp", "mt/linux/thread.cpp", "mt/thread.h", "mt/timeout.h", "mt/syncPt.cpp", "mt/notifier.cpp"],
  [("semaphore drained after wake-up", "mt/linux/threadSleeper.cpp"), ("finish flag + wake-up", "mt/linux/thread.cpp")], [], ["return values of sleep", "simulated clock"])
prop("C07", "Shared objects live exactly as long as somebody refers to them",
  "An object owned by reference-counting pointers is destroyed exactly once, when the last reference disappears, regardless of which threads copy, move, assign (also to itself), clear and destroy references; a String shared by threads keeps its content. A locked weak reference keeps its target alive, after the target is destroyed or replaced every weak reference taken from it reads as null, and destruction waits for all locks without touching threads or objects that are already gone.",
  ["schedules", "histories"], "every interleaving of reference operations by several threads",
  "Double release and use after destruction need races of the last two references; " + TESTS, ["base/memory/refCntPtr.h", "base/memory/weakref.h", "base/containers/stringBase.h", "mt/linux/atomic.h"],
  [("atomic reference counter", "base/memory/refCntPtr.h"), ("lock counter with initialised flag", "base/memory/weakref.h")], [("counter", "number of references", "base/memory/refCntPtr.h")], ["constructions and destructions", "checking heap"])
prop("C08", "Lock-free lists and pools never lose, duplicate or overlap memory",
  "Every item pushed to a lock-free list is obtained by exactly one pop (or one take/swap of the whole list) and pops are last-in-first-out; nothing is lost or returned twice under concurrent use. Blocks handed out by the thread-safe pool allocators never overlap a live block, keep their content until freed, are large enough, and may be freed by any thread.",
  ["schedules", "histories"], "every interleaving of push, pop, take, alloc and dealloc by several threads",
  "ABA and double-pop errors need a thread stopped inside pop; " + TESTS, ["mt/slist.h", "base/memory/poolalloc.h", "base/memory/runtimeAlloc.cpp"],
  [("tagged head pointer CAS", "mt/slist.h"), ("free lists per size class", "base/memory/poolalloc.h")], [("_top", "head with modification tag", "mt/slist.h")], ["ownership ledger of nodes", "map of live blocks", "block contents"])
prop("C09", "Singletons are built once; thread variables belong to one thread",
  "However many threads ask for a singleton for the first time at once, it is constructed exactly once, nobody sees it half constructed, a failing constructor leaves it to be built by the next caller, and at exit every built singleton is destroyed exactly once. A thread variable keeps a separate value for each thread, two living variables never share storage, and values are destroyed by their own thread, before the thread is reported as finished, never leaked.",
  ["schedules", "histories"], "every interleaving of first uses by several threads, creations and removals of variables, constructors which throw",
  "Needs simultaneous first use; " + TESTS, ["base/memory/singleton.h", "base/memory/singleton.cpp", "base/sync/threadVar.h", "base/sync/tls.cpp", "base/sync/tlsalloc.cpp", "mt/linux/thread.cpp"],
  [("init state CAS", "base/memory/singleton.cpp"), ("index allocator under a lock", "mt/linux/thread.cpp"), ("table cleared by the finishing thread", "mt/linux/thread.cpp")], [("inited", "state of the singleton", "base/memory/singleton.h")], ["constructor and destructor counters", "values read by threads"])
NA = []
TECH = "deterministic simulation with fault injection: seeded scheduler over instrumented real code, history and invariant oracles"
def main():
    exec(open(os.path.join(V, "tools", "props_more.py")).read(), globals()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None
    P.sort(key=lambda p: p["id"])
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    na = {n["property"] for n in NA}
    m = dict(version=1, setup_cmd="python3 tools/build.py",
        hooks=dict(guard="LIGHTSPEED_SIM", enable="no hooks were added to /repo: the checks compile the unmodified sources with memory-access instrumentation and redirect library calls at link level", source_commits=[]),
        checks=[], not_applicable=NA)
    for p in P:
        if p["id"] in na: continue
        c = PROPS[p["id"]]
        m["checks"].append(dict(property=p["id"], quick_cmd="python3 tools/check.py %s quick" % p["id"], thorough_cmd="python3 tools/check.py %s thorough" % p["id"],
            technique=TECH, level="exploration",
            level_note=c.get("note", "Samples schedules and faults by seed on the real code; a clean run is evidence within the explored runs, not a proof. Sequentially consistent memory, scheduling points at every memory access and system call of the library.")))
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")
if __name__ == "__main__": main()
