#include "common.h"
#include <map>
#include <set>
#include "lightspeed/mt/rwlock.h"
#include "lightspeed/mt/semaphore.h"
#include "lightspeed/mt/syncPt.h"
#include "lightspeed/mt/gate.h"
#include "lightspeed/mt/notifier.h"

// ---------------------------------------------------------------- C02 shared / exclusive locks
struct RWRegion {
    int readers = 0, writers = 0; long entries = 0;
    void enter(bool wr) {
        sim::Quiet q; entries++;
        if (wr) { SIM_CHECK(!readers && !writers, "rw-exclusion", "writer entered with %d readers and %d writers inside", readers, writers); writers++; }
        else { SIM_CHECK(!writers, "rw-exclusion", "reader entered with a writer inside"); readers++; }
        if (readers > 1) sim::probe("rw.readers-share");
        sim::event("enter %s r=%d w=%d", wr ? "W" : "R", readers, writers);
    }
    void leave(bool wr) { sim::Quiet q; if (wr) writers--; else readers--; }
};
SCENARIO(rwlock, "C02", 3) {
    RWLock l;
    RWRegion r;
    int nt = sim::param("threads", 2, 4), it = sim::param("iters", 1, 4);
    bool iface = sim::coin("iface");
    {
        Crew c;
        for (int i = 0; i < nt; i++) c.go([&] {
            for (int k = 0; k < it; k++) {
                bool wr = sim::coin("write"), tr = sim::chance("try", 1, 4);
                if (iface) {
                    if (wr) {
                        RWLock::WriteLock &w = l;
                        if (tr) { if (!w.tryLock()) continue; } else w.lock();
                    } else {
                        RWLock::ReadLock &w = l;
                        if (tr) { if (!w.tryLock()) continue; } else w.lock();
                    }
                } else if (wr) { if (tr) { if (!l.tryLockWrite()) continue; } else l.lockWrite(); }
                else { if (tr) { if (!l.tryLockRead()) continue; } else l.lockRead(); }
                r.enter(wr);
                dwell();
                r.leave(wr);
                if (iface) { if (wr) static_cast<RWLock::WriteLock &>(l).unlock(); else static_cast<RWLock::ReadLock &>(l).unlock(); }
                else if (sim::chance("any-unlock", 1, 4)) l.RWLockBase::unlock(); else if (wr) l.unlockWrite(); else l.unlockRead();
            }
        });
    }
    // everybody left: the lock is free for both kinds
    SIM_CHECK(l.tryLockRead(), "rw-not-free", "read lock refused though nobody holds the lock");
    SIM_CHECK(l.tryLockRead(), "rw-not-free", "second reader refused though only readers hold the lock");
    l.unlockRead(); l.unlockRead();
    SIM_CHECK(l.tryLockWrite(), "rw-not-free", "write lock refused though nobody holds the lock");
    l.unlockWrite();
    l.lockWrite(); l.unlockWrite(); l.lockRead(); l.unlockRead();
}
SCENARIO(levellock, "C02", 3) {
    LevelLock l;
    int nt = sim::param("threads", 2, 4), it = sim::param("iters", 1, 4), lv = sim::param("levels", 1, 3);
    int level = -1, inside = 0;
    std::map<int, LevelLock::Slot *> queued;   // tickets which are known to wait
    int ticket = 0;
    auto enter = [&](int lev) {
        sim::Quiet q;
        SIM_CHECK(!inside || level == lev, "rw-exclusion", "level %d entered while %d owners hold level %d", lev, inside, level);
        level = lev; inside++; sim::event("enter level %d n=%d", lev, inside);
    };
    auto leave = [&] { sim::Quiet q; inside--; };
    {
        Crew c;
        for (int i = 0; i < nt; i++) c.go([&] {
            for (int k = 0; k < it; k++) {
                int lev = sim::param("level", 0, lv - 1), how = sim::param("how", 0, 3);
                if (how == 3) {
                    std::map<int, LevelLock::Slot *> before; { sim::Quiet q; before = queued; }
                    bool ok = l.tryLock(lev);
                    if (!ok) continue;
                    { sim::Quiet q; for (auto &x : before) SIM_CHECK(!queued.count(x.first) || x.second->signaled, "rw-overtake", "tryLock(%d) succeeded while an earlier request was waiting in the queue", lev); }
                } else if (how == 2 || how == 1) {
                    RefCntPtr<IThreadSleeper> me = getCurThreadSleepingObj();
                    LevelLock::Slot s(me, lev);
                    l.lockAsync(s);
                    int t; { sim::Quiet q; t = ticket++; if (!s.signaled) { queued[t] = &s; sim::probe("levellock.queued"); } }
                    if (how == 1) {
                        for (int n = sim::param("patience", 0, 6); n > 0; n--) sim::yield();
                        { sim::Quiet q; queued.erase(t); }
                        sim::probe(s.signaled ? "levellock.cancel-signaled" : "levellock.cancel-waiting");
                        l.cancelAsync(s);
                        continue;
                    }
                    while (!s.signaled) { sim::Quiet *q = 0; (void)q; Thread::sleep(nil); }
                    { sim::Quiet q; queued.erase(t); }
                } else l.lock(lev);
                enter(lev);
                dwell();
                leave();
                l.unlock();
            }
        });
    }
    for (int i = 0; i < 2; i++) {
        SIM_CHECK(l.tryLock(i + 7), "rw-not-free", "LevelLock refused level though nobody holds it");
        l.unlock();
    }
}
// ---------------------------------------------------------------- C03 semaphore
SCENARIO(semaphore, "C03", 4) {
    int count = sim::param("count", 1, 3);
    int nt = sim::param("threads", 2, 5), it = sim::param("iters", 1, 4);
    if (sim::coin("eintr")) sim::enableFaults("sem_eintr");
    bool fin = sim::chance("finishing", 1, 4);
    Semaphore s(count);
    Region r("semaphore");
    {
        Crew c;
        for (int i = 0; i < nt; i++) c.go([&, i] {
            for (int k = 0; k < it; k++) {
                int how = sim::param("how", 0, 5);
                if (how == 1) { if (!s.tryLock()) continue; }
                else if (how == 2) {
                    int ms = sim::param("ms", 0, 5); uint64_t t0 = sim::now_us();
                    bool ok = s.lock(Timeout(ms));
                    if (!ok) {
                        sim::probe("semaphore.timeout");
                        uint64_t el = sim::now_us() - t0;
                        SIM_CHECK(el >= (uint64_t)ms * 1000, "early-timeout", "timed lock failed after %lld us, timeout %d ms", (long long)el, ms);
                        continue;
                    }
                } else if (how == 3) {
                    bool ok = s.lock(Timeout(sim::param("ms", 0, 5)), sim::coin("intr") ? SyncPt::interruptable : SyncPt::interruptOnExit);
                    if (!ok) { sim::probe("semaphore.interrupted"); continue; }
                } else if (how == 4) {
                    Semaphore::Slot sl;
                    s.lockAsync(sl);
                    for (int n = sim::param("patience", 0, 6); n > 0; n--) sim::yield();
                    if (!sl || sim::coin("giveup")) { s.cancelLockAsync(sl); sim::probe("semaphore.cancel"); continue; }
                } else if (how == 5 && fin) {
                    if (!s.lock(SyncPt::interruptOnExit)) { sim::probe("semaphore.exit"); continue; }
                } else s.lock();
                r.enter(count);
                dwell();
                r.leave();
                s.unlock();
            }
        });
        if (fin) { sim::yield(); c.th[0]->finish(); }
    }
    // no permit lost, none invented
    int got = 0;
    while (got < count + 2 && s.tryLock()) got++;
    SIM_CHECK(got == count, "permits", "%d permits available after everybody finished, expected %d", got, count);
    for (int i = 0; i < got; i++) s.unlock();
    for (int i = 0; i < count; i++) s.lock();
    SIM_CHECK(!s.tryLock(), "permits", "more permits than released");
}
// producer / consumer: every unlock lets exactly one lock through
SCENARIO(semaphore_signal, "C03", 1) {
    Semaphore s(0);
    int n = sim::param("signals", 1, 6), prod = sim::param("producers", 1, 2), cons = sim::param("consumers", 1, 3);
    long sent = 0, got = 0;
    {
        Crew c;
        for (int i = 0; i < cons; i++) c.go([&, i] {
            for (int k = i; k < n * prod; k += cons) {
                s.lock();
                sim::Quiet q; got++;
                SIM_CHECK(got <= sent, "permits", "lock passed %ld times after %ld unlocks", got, sent);
            }
        });
        for (int i = 0; i < prod; i++) c.go([&] { for (int k = 0; k < n; k++) { { sim::Quiet q; sent++; } s.unlock(); } });
    }
    SIM_CHECK(!s.tryLock(), "permits", "permit left over");
}
// ---------------------------------------------------------------- C04 wait queues and gates
SCENARIO(syncpt, "C04", 4) {
    bool stack = sim::coin("stack");
    SyncPt sp(stack ? SyncPt::stack : SyncPt::queue);
    int nt = sim::param("waiters", 1, 4), it = sim::param("iters", 1, 3), nn = sim::param("notifies", 0, 4);
    struct Rec { uint64_t a0, a1; uint64_t seen = 0; bool removed = false, signaled = false; };
    std::vector<std::unique_ptr<Rec>> recs;
    long one = 0, waiting = 0, all = 0;
    std::vector<std::pair<uint64_t, uint64_t>> ones, alls;
    long left = nt;
    {
        Crew c;
        for (int i = 0; i < nt; i++) c.go([&] {
            SyncPt::Slot reuse;
            bool useReuse = sim::coin("reuse");
            for (int k = 0; k < it; k++) {
                SyncPt::Slot fresh;
                SyncPt::Slot &sl = useReuse ? reuse : fresh;
                Rec *r; { sim::Quiet q; recs.emplace_back(new Rec); r = recs.back().get(); r->a0 = sim::stamp(); }
                bool ok = sp.add(sl);
                SIM_CHECK(ok, "add", "slot which waits nowhere was refused");
                { sim::Quiet q; r->a1 = sim::stamp(); waiting++; }
                if (sim::chance("again", 1, 6)) { bool again = sl.isSignaled() ? false : sp.add(sl); (void)again; SIM_CHECK(!again || false, "add", "waiting slot registered twice"); }
                int how = sim::param("how", 0, 3);
                bool sig;
                if (how == 3) {
                    for (int n = sim::param("patience", 0, 5); n > 0; n--) sim::yield();
                    bool rem = sp.remove(sl);
                    sig = sl;
                    SIM_CHECK(rem != sig, "remove", "remove() returned %d but the slot is %ssignaled", rem, sig ? "" : "not ");
                    sim::Quiet q; r->removed = rem;
                } else if (how == 2) {
                    int ms = sim::param("ms", 0, 4); uint64_t t0 = sim::now_us();
                    sig = SyncPt::wait(sl, Timeout(ms));
                    if (!sig) {
                        SIM_CHECK(sim::now_us() - t0 >= (uint64_t)ms * 1000, "early-timeout", "wait gave up early");
                        bool rem = sp.remove(sl); sig = sl;
                        SIM_CHECK(rem != sig, "remove", "remove() returned %d but the slot is %ssignaled", rem, sig ? "" : "not ");
                        sim::Quiet q; r->removed = rem; sim::probe("syncpt.timeout");
                    }
                } else {
                    sig = SyncPt::wait(sl, nil);
                    SIM_CHECK(sig, "wait", "unlimited wait returned without a signal");
                }
                { sim::Quiet q; r->signaled = sig; r->seen = sim::stamp(); waiting--; }
                if (useReuse && sig) { bool b = sl.reset(); SIM_CHECK(b, "reset", "signaled slot cannot be reset"); }
            }
            { sim::Quiet q; left--; }
        });
        c.go([&] {
            for (int k = 0; k < nn; k++) {
                dwell();
                if (sim::chance("all", 1, 3)) { uint64_t a = sim::stamp(); bool b = sp.notifyAll(); (void)b; sim::Quiet q; alls.push_back({a, sim::stamp()}); }
                else { uint64_t a = sim::stamp(); bool b = sp.notifyOne(); sim::Quiet q; if (b) { one++; ones.push_back({a, sim::stamp()}); } }
            }
        });
        // drain: every registered slot is eventually notified
        while (left > 0) { if (sim::coin("drain")) { uint64_t a = sim::stamp(); sp.notifyAll(); sim::Quiet q; all++; alls.push_back({a, sim::stamp()}); } else { uint64_t a = sim::stamp(); bool b = sp.notifyOne(); sim::Quiet q; if (b) { one++; ones.push_back({a, sim::stamp()}); } } sim::pass(); }
    }
    SIM_CHECK(sp.empty(), "queue-leak", "wait queue not empty after everybody left");
    long sigs = 0; for (auto &r : recs) sigs += r->signaled;
    SIM_CHECK(sigs >= one, "notify-one", "%ld notifyOne() calls reported success but only %ld slots were signaled", one, sigs);
    if (alls.empty()) SIM_CHECK(sigs == one, "notify-one", "%ld notifyOne() successes signaled %ld slots", one, sigs);
    // a slot registered before a notifyAll() began is signaled by it (unless it left before)
    for (auto &r : recs) for (auto &a : alls)
        if (r->a1 < a.first && !r->signaled) SIM_CHECK(r->removed && r->seen > 0, "notify-all", "slot lost");
}
// order of wake ups: registered one after another, notified one after another
SCENARIO(syncpt_order, "C04", 1) {
    bool stack = sim::coin("stack");
    SyncPt sp(stack ? SyncPt::stack : SyncPt::queue);
    int n = sim::param("slots", 1, 6);
    std::vector<std::unique_ptr<SyncPt::Slot>> sl;
    std::vector<int> q;
    for (int i = 0; i < n; i++) { sl.emplace_back(new SyncPt::Slot); }
    int next = 0, ops = sim::param("ops", 0, 14);
    for (int k = 0; k < ops; k++) {
        int op = sim::param("op", 0, 2);
        if (op == 0 && next < n) { bool b = sp.add(*sl[next]); SIM_CHECK(b, "add", "refused"); q.push_back(next++);
            // a slot which is waiting or which is already signaled cannot be added
            int w = sim::param("again", 0, next - 1);
            b = sp.add(*sl[w]); 
            bool waiting = false; for (int x : q) if (x == w) waiting = true;
            if (waiting || *sl[w]) SIM_CHECK(!b, "add", "%s slot added", waiting ? "waiting" : "signaled");
            else if (b) q.push_back(w); }
        else if (op == 1) {
            bool b = sp.notifyOne();
            SIM_CHECK(b == !q.empty(), "notify-one", "notifyOne()=%d with %d waiting", b, (int)q.size());
            if (b) { int w = stack ? q.back() : q.front(); if (stack) q.pop_back(); else q.erase(q.begin());
                SIM_CHECK(*sl[w], "notify-order", "notifyOne() did not signal the %s waiting slot", stack ? "newest" : "oldest"); }
        } else if (op == 2 && !q.empty()) {
            int at = sim::param("at", 0, (int)q.size() - 1); int w = q[at]; q.erase(q.begin() + at);
            bool b = sp.remove(*sl[w]); SIM_CHECK(b, "remove", "waiting slot cannot be removed");
            if (sim::coin("readd")) { b = sp.add(*sl[w]); SIM_CHECK(b, "add", "removed slot refused"); q.push_back(w); }
        }
        for (int x : q) SIM_CHECK(!*sl[x], "notify-order", "waiting slot %d signaled", x);
        SIM_CHECK(sp.empty() == q.empty(), "queue-leak", "empty()=%d with %d waiting", sp.empty(), (int)q.size());
    }
    bool b = sp.notifyAll(); SIM_CHECK(b == !q.empty(), "notify-all", "notifyAll()=%d with %d waiting", b, (int)q.size());
    for (int x : q) SIM_CHECK(*sl[x], "notify-all", "waiting slot not signaled by notifyAll");
    SIM_CHECK(sp.empty(), "queue-leak", "not empty");
}
// value passing wait queue
SCENARIO(syncpt_value, "C04", 1) {
    SyncPtT<int> sp(sim::coin("stack") ? SyncPt::stack : SyncPt::queue);
    int nt = sim::param("waiters", 1, 4);
    std::vector<int> got; int next = 1; int left = nt;
    std::set<int> sentOne;
    {
        Crew c;
        for (int i = 0; i < nt; i++) c.go([&] {
            SyncPtT<int>::Slot s(-1);
            sp.add(s);
            SyncPt::wait(s, nil);
            int v = s.value;
            sim::Quiet q; SIM_CHECK(v > 0 && v < next + 1, "value", "waiter got value %d which nobody sent", v); got.push_back(v); left--;
        });
        while (left > 0) {
            int v = next; { sim::Quiet q; next++; }
            if (sim::coin("all")) sp.notifyAll(v); else { if (sp.notifyOne(v)) { sim::Quiet q; sentOne.insert(v); } }
            sim::pass();
        }
    }
    std::map<int, int> cnt; for (int v : got) cnt[v]++;
    for (int v : sentOne) SIM_CHECK(cnt[v] == 1, "value", "value %d sent to one waiter was received %d times", v, cnt[v]);
}
SCENARIO(gate, "C04", 3) {
    bool initOpen = sim::coin("open");
    std::unique_ptr<Gate> gp(new Gate(initOpen ? Gate::stateOpen : Gate::stateClose));
    Gate &g = *gp;
    int nt = sim::param("waiters", 1, 4), it = sim::param("iters", 1, 3), cyc = sim::param("cycles", 0, 3);
    if (sim::coin("eintr")) sim::enableFaults("sem_eintr");
    // history of the states: [from,to] intervals in which the gate may have been open
    struct Ch { uint64_t a, b; bool open; };
    std::vector<Ch> hist;
    auto mayBeOpen = [&](uint64_t from, uint64_t to) {   // gate possibly open at some moment of [from,to]
        bool st = initOpen;
        uint64_t since = 0;
        for (auto &h : hist) {
            if (st && h.b >= from && since <= to) return true;
            if (h.open) since = h.a;
            st = h.open;
        }
        return st && since <= to;
    };
    {
        Crew c;
        for (int i = 0; i < nt; i++) c.go([&] {
            for (int k = 0; k < it; k++) {
                uint64_t t0 = sim::stamp();
                int how = sim::param("how", 0, 2);
                bool ok;
                if (how == 0) { ok = g.wait(nil); SIM_CHECK(ok, "wait", "unlimited wait failed"); }
                else if (how == 1) {
                    int ms = sim::param("ms", 0, 4); uint64_t u0 = sim::now_us();
                    ok = g.wait(Timeout(ms));
                    if (!ok) { SIM_CHECK(sim::now_us() - u0 >= (uint64_t)ms * 1000, "early-timeout", "gate wait gave up early"); sim::probe("gate.timeout"); }
                } else {
                    Gate::Slot s; g.waitAsync(s);
                    for (int n = sim::param("patience", 0, 4); n > 0; n--) sim::yield();
                    ok = s;
                    if (!ok) { bool rem = g.cancelWaitAsync(s); ok = s; SIM_CHECK(rem != ok, "remove", "cancelWaitAsync()=%d, signaled=%d", rem, ok); }
                }
                sim::Quiet q; uint64_t t1 = sim::stamp();
                if (ok) SIM_CHECK(mayBeOpen(t0, t1), "gate", "wait passed through a closed gate");
            }
        });
        for (int k = 0; k < cyc; k++) {
            bool open = sim::coin("set");
            sim::pass();
            size_t at; { sim::Quiet q; at = hist.size(); hist.push_back({sim::stamp(), ~0ull, open}); }
            if (open) g.open(); else g.close();
            { sim::Quiet q; hist[at].b = sim::stamp(); }
            if (sim::coin("pause")) sim::sleep_us(1000);
        }
        size_t at; { sim::Quiet q; at = hist.size(); hist.push_back({sim::stamp(), ~0ull, true}); }
        g.open();
        { sim::Quiet q; hist[at].b = sim::stamp(); }
        SIM_CHECK(g.isOpened(), "gate", "opened gate reports closed");
        c.join();   // an open gate holds nobody
    }
}
// gate destroyed by the released waiter (the way join objects are used)
SCENARIO(gate_destroy, "C04", 1) {
    Gate *g = new Gate();
    Crew c;
    c.go([&] { bool ok = g->wait(nil); SIM_CHECK(ok, "wait", "unlimited wait failed"); delete g; });
    c.go([&] { sim::yield(); g->open(); });
    c.join();
}
SCENARIO(notifier, "C04", 1) {
    int rounds = sim::param("rounds", 1, 4);
    if (sim::coin("eintr")) sim::enableFaults("sem_eintr");
    Crew c;
    c.go([&] {
        for (int i = 0; i < rounds; i++) {
            Notifier n;
            bool sent = false;
            int val = sim::param("reason", 1, 1000);
            Crew w;
            w.go([&] { { sim::Quiet q; sent = true; } n.wakeUp(val); });
            bool timed = sim::coin("timed");
            int ms = timed ? sim::param("ms", 0, 3) : 0; uint64_t t0 = sim::now_us();
            bool ok = timed ? n.wait(Timeout(ms)) : n.wait(nil);
            if (ok) { SIM_CHECK(sent, "notify", "notifier signaled by nobody"); SIM_CHECK((int)n.reason == val, "notify", "reason %d, expected %d", (int)n.reason, val); }
            else { SIM_CHECK(timed, "wait", "unlimited wait failed"); (void)t0; }
            w.join();
            SIM_CHECK(n, "notify", "signal lost");
        }
    });
    c.join();
}
