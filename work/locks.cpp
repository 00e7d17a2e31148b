#include "common.h"
#include "lightspeed/mt/fastlock.h"
#include "lightspeed/mt/microlock.h"
#include "lightspeed/mt/spinlock.h"
#include "lightspeed/mt/mutex.h"

// C01: mutual exclusion and progress of every mutex-like lock
template<class L> struct Plain { L l; void lock() { l.lock(); } bool tryLock() { return l.tryLock(); } void unlock() { l.unlock(); } };

template<class L, class F> static void lockBody(const char *name, int maxThreads, F locker) {
    int nt = sim::param("threads", 2, maxThreads);
    int it = sim::param("iters", 1, 4);
    Region r(name);
    std::vector<int> order;
    long shared = 0;
    {
        Crew c;
        for (int i = 0; i < nt; i++) c.go([&, i] {
            for (int k = 0; k < it; k++) locker(r, shared, i, k);
        });
    }
    SIM_CHECK(r.inside == 0, "mutual-exclusion", "region not left");
    SIM_CHECK(shared == r.entries, "lost-update", "%s: counter %ld after %ld exclusive increments", name, shared, r.entries);
}
static void crit(Region &r, long &shared) {
    r.enter(1);
    long v = shared;
    dwell();
    shared = v + 1;
    r.leave();
}
SCENARIO(fastlock, "C01", 3) {
    FastLock l;
    lockBody<FastLock>("FastLock", 4, [&](Region &r, long &sh, int, int) {
        int how = sim::param("how", 0, 3);
        if (how == 3) { if (!l.tryLock()) { sim::probe("fastlock.try-failed"); return; } crit(r, sh); l.unlock(); }
        else if (how == 2) {
            // wait in the queue without blocking; ownership is collected by the destructor
            { FastLock::Async a(l); sim::yield(); }
            crit(r, sh); l.unlock();
        }
        else { l.lock(); crit(r, sh); l.unlock(); }
    });
    // nobody holds it any more: it must be free again
    bool free = l.tryLock();
    SIM_CHECK(free, "lock-not-free", "FastLock still locked after every holder left");
    l.unlock();
}
SCENARIO(fastlock_recursive, "C01", 2) {
    FastLockR l;
    lockBody<FastLockR>("FastLockR", 4, [&](Region &r, long &sh, int, int) {
        int depth = sim::param("depth", 1, 3);
        int how = sim::param("how", 0, 2);
        // a thread which does not own the lock cannot release it
        if (sim::coin("foreign-unlock")) l.unlock();
        if (how == 1) { if (!l.tryLock()) return; } else l.lock();
        r.enter(1);
        for (int i = 1; i < depth; i++) { if (i & 1) l.lock(); else { bool b = l.tryLock(); SIM_CHECK(b, "recursion", "owner failed to relock"); } }
        long v = sh; sim::yield(); sh = v + 1;
        for (int i = 1; i < depth; i++) { l.unlock(); sim::yield(); }
        if (how == 2) {
            // leave the lock completely from any depth, come back at the same depth
            int d2 = sim::param("save-depth", 1, 3);
            for (int i = 1; i < d2; i++) l.lock();
            r.leave();
            natural n = l.unlockSaveRecusion();
            SIM_CHECK((int)n == d2, "recursion", "saved recursion %d expected %d", (int)n, d2);
            dwell();
            if (sim::coin("restore-try")) {
                while (!l.lockRestoreRecursion(n, true)) { sim::probe("fastlockr.restore-busy"); sim::sleep_us(50); }
            } else {
                bool ok = l.lockRestoreRecursion(n, false);
                SIM_CHECK(ok, "recursion", "saved lock state could not be restored");
            }
            r.enter(1); sh = sh + 1;
            if (sim::coin("restore-owned")) {
                // the lock is owned already: nothing to restore, and nothing changes
                bool tr = sim::coin("restore-owned-try");
                bool ok = l.lockRestoreRecursion(2, tr);
                SIM_CHECK(!ok, "recursion", "state restored into a lock which is already owned");
            }
            for (int i = 1; i < d2; i++) { l.unlock(); sim::yield(); }
        }
        r.leave();
        l.unlock();
    });
    SIM_CHECK(l.tryLock(), "lock-not-free", "FastLockR still locked");
}
SCENARIO(microlock, "C01", 2) {
    MicroLock l;
    lockBody<MicroLock>("MicroLock", 4, [&](Region &r, long &sh, int, int) {
        Synchronized<MicroLock> _(l);
        crit(r, sh);
    });
}
SCENARIO(spinlock, "C01", 1) {
    SpinLock l;
    lockBody<SpinLock>("SpinLock", 3, [&](Region &r, long &sh, int, int) {
        if (sim::coin("foreign-unlock")) l.unlock();
        int how = sim::param("how", 0, 2);
        if (how == 2) { if (!l.tryLock()) return; }
        else if (how == 1) { if (!l.tryLock(10)) return; } else l.lock();
        SIM_CHECK(l.isOwned(), "spinlock-owner", "owner not reported");
        SIM_CHECK(l.isOwned(ThreadId::current()) && l.getOwner() == ThreadId::current(), "spinlock-owner", "owner not reported by its id");
        crit(r, sh);
        l.unlock();
    });
    SIM_CHECK(l.isUnlocked(), "lock-not-free", "SpinLock still locked");
}
// the lock is handed over to a thread which never locks it itself
SCENARIO(spinlock_handover, "C01", 1) {
    SpinLock l;
    Region r("SpinLock handover");
    long sh = 0;
    ThreadId ids[2] = {ThreadId::current(), ThreadId::current()};
    volatile int known = 0, turn = -1;
    int rounds = sim::param("rounds", 1, 4);
    bool steal = sim::coin("steal");
    {
        Crew c;
        for (int i = 0; i < 2; i++) c.go([&, i] {
            if (i == 1) {
                SIM_CHECK(!l.give(ThreadId::current()), "spinlock-give", "a lock was given by a thread which does not own it");
                if (steal) SIM_CHECK(!l.steal(ThreadId::current()), "spinlock-steal", "the lock was stolen from a thread which does not own it");
            }
            { sim::Quiet q; ids[i] = ThreadId::current(); known = known + 1; }
            while (known < 2) sim::sleep_us(50);
            if (i == 0) { l.lock(); r.enter(1); for (int k = 0; k < rounds; k++) { sh = sh + 1; sim::yield(); }
                          r.leave();
                          if (!steal) { bool ok = l.give(ids[1]); SIM_CHECK(ok, "spinlock-give", "the owner cannot give the lock away"); }
                          { sim::Quiet q; turn = 1; }
                          if (!steal) SIM_CHECK(!l.give(ids[0]), "spinlock-give", "a lock given away was given again");
            } else {
                while (turn != 1) sim::sleep_us(50);
                if (steal) {
                    SIM_CHECK(l.steal(ids[0]), "spinlock-steal", "the lock cannot be stolen from its owner");
                }
                SIM_CHECK(l.isOwned(), "spinlock-owner", "owner not reported after the hand-over");
                r.enter(1); for (int k = 0; k < rounds; k++) { sh = sh + 1; sim::yield(); } r.leave();
                l.unlock();
            }
        });
        c.go([&] { for (int k = 0; k < 3; k++) { l.lock(); r.enter(1); sh = sh + 1; sim::yield(); r.leave(); l.unlock(); } });
    }
    SIM_CHECK(sh == 2 * rounds + 3, "lost-update", "counter %ld", sh);
    SIM_CHECK(l.isUnlocked(), "lock-not-free", "SpinLock still locked");
}
SCENARIO(spinlock_recursive, "C01", 1) {
    SpinLockRecursive l;
    lockBody<SpinLockRecursive>("SpinLockRecursive", 3, [&](Region &r, long &sh, int, int) {
        int depth = sim::param("depth", 1, 3);
        if (sim::coin("foreign-unlock")) l.unlock();
        int how = sim::param("how", 0, 2);
        if (how == 1) { if (!l.tryLock()) return; }
        else if (how == 2) { if (!l.tryLock(5)) return; } else l.lock();
        for (int i = 1; i < depth; i++) {
            if (i & 1) l.lock(); else { bool ok = sim::coin("n") ? l.tryLock(1) : l.tryLock(); SIM_CHECK(ok, "recursion", "owner failed to relock"); }
        }
        r.enter(1); long v = sh; 
        for (int i = 1; i < depth; i++) l.unlock();
        sim::yield(); sh = v + 1; r.leave();
        l.unlock();
    });
    SIM_CHECK(l.isUnlocked(), "lock-not-free", "SpinLockRecursive still locked");
}
SCENARIO(mutex, "C01", 3) {
    Mutex l;
    lockBody<Mutex>("Mutex", 4, [&](Region &r, long &sh, int, int) {
        int how = sim::param("how", 0, 4);
        Mutex::WaitPt::Slot sl;
        if (how == 1) { if (!l.tryLock()) return; }
        else if (how == 2) {
            if (!l.lock(Timeout(sim::param("ms", 0, 5)))) { sim::probe("mutex.timeout"); return; }
        } else if (how == 4) {
            // wait in the queue without blocking, possibly give up
            bool now = l.lockAsync(sl);
            SIM_CHECK(!now || sl, "async-slot", "lock achieved but its slot is not signaled");
            if (!now) {
                int polls = sim::param("polls", 0, 20);
                for (int i = 0; i < polls && !sl; i++) sim::sleep_us(100);
                if (polls < 15) { sim::probe(sl ? "mutex.cancel-granted" : "mutex.cancel-waiting"); l.cancelAsync(sl); return; }
                while (!sl) sim::sleep_us(100);
                sim::probe("mutex.async-granted");
            }
            SIM_CHECK(l.getOwner() == ThreadId::current().asAtomic(), "mutex-owner", "granted to somebody else");
        } else l.lock();
        r.enter(1);
        long v = sh;
        SIM_CHECK(l.getTurns() == 1, "recursion", "%d turns after the first lock", (int)l.getTurns());
        if (how == 3) {
            int d = sim::param("depth", 1, 3);
            for (int i = 0; i < d; i++) {
                if (i == 1) { Mutex::WaitPt::Slot s2; bool b = l.lockAsync(s2); SIM_CHECK(b && s2, "recursion", "owner failed to relock"); }
                else if (i == 2) { bool b = l.lock(Timeout(0)); SIM_CHECK(b, "recursion", "owner failed to relock"); }
                else l.lock();
            }
            SIM_CHECK((int)l.getTurns() == d + 1, "recursion", "%d turns after %d locks", (int)l.getTurns(), d + 1);
            for (int i = 0; i < d; i++) { sim::yield(); l.unlock(); }
        }
        if (how == 0 && sim::coin("hold")) sim::sleep_us(2000);
        sh = v + 1;
        r.leave();
        l.unlock();
    });
    SIM_CHECK(l.tryLock(), "lock-not-free", "Mutex still locked");
}
// ownership of a mutex is given to another thread, which unlocks it
SCENARIO(mutex_handover, "C01", 1) {
    Mutex l;
    Region r("Mutex handover");
    long sh = 0;
    atomic ids[2] = {0, 0};
    volatile int known = 0, turn = -1;
    {
        Crew c;
        for (int i = 0; i < 2; i++) c.go([&, i] {
            atomic self = ThreadId::current().asAtomic();
            if (i == 1) SIM_CHECK(!l.setOwner(self), "mutex-give", "a mutex was given by a thread which does not own it");
            { sim::Quiet q; ids[i] = self; known = known + 1; }
            while (known < 2) sim::sleep_us(50);
            if (i == 0) { l.lock(); r.enter(1); sh = sh + 1; sim::yield(); r.leave();
                          bool ok = l.setOwner(ids[1]); SIM_CHECK(ok, "mutex-give", "the owner cannot give the mutex away");
                          { sim::Quiet q; turn = 1; } }
            else {
                while (turn != 1) sim::sleep_us(50);
                SIM_CHECK(l.getOwner() == ids[1], "mutex-owner", "owner not reported after the hand-over");
                r.enter(1); sh = sh + 1; sim::yield(); r.leave();
                l.unlock();
            }
        });
        for (int i = 0; i < 2; i++) c.go([&] { for (int k = 0; k < 2; k++) { l.lock(); r.enter(1); sh = sh + 1; sim::yield(); r.leave(); l.unlock(); } });
    }
    SIM_CHECK(sh == 6, "lost-update", "counter %ld", sh);
    SIM_CHECK(l.tryLock(), "lock-not-free", "Mutex still locked");
}
