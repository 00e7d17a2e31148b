#include "common.h"
#include <map>
#include <algorithm>
#include <string>
#include <stdexcept>
#include "lightspeed/mt/threadHook.h"
#include "lightspeed/mt/exceptions/threadException.h"
#include "lightspeed/base/exceptions/exception.h"
#include "lightspeed/base/exceptions/errorMessageException.h"
#include "lightspeed/mt/notifier.h"

// counts live copies of the thread's function
struct FnTok {
    std::function<void()> f; int *live;
    FnTok(std::function<void()> f, int *live) : f(f), live(live) { sim::Quiet q; ++*live; }
    FnTok(const FnTok &o) : f(o.f), live(o.live) { sim::Quiet q; ++*live; }
    ~FnTok() { sim::Quiet q; --*live; }
    void operator()() const { f(); }
};
static void maybeThrow() {
    switch (sim::param("throw", 0, 6)) {
        case 1: sim::probe("thread.throws-lightspeed"); throw ErrorMessageException(THISLOCATION, "simulated failure");
        case 2: sim::probe("thread.throws-std"); throw std::runtime_error("simulated failure");
        case 3: sim::probe("thread.throws-other"); throw 42;
        default: break;
    }
}
struct HookCount : AbstractThreadHook {
    std::map<Thread *, int> st; long init = 0, fin = 0, exc = 0; bool failInit = false;
    void onThreadInit(Thread &t) {
        { sim::Quiet q; init++; SIM_CHECK(!st[&t], "hooks", "init hook called twice for one thread"); st[&t] = 1; }
        if (failInit && sim::chance("hookthrow", 1, 3)) { { sim::Quiet q; st[&t] = 0; init--; } sim::probe("thread.init-hook-throws"); throw ErrorMessageException(THISLOCATION, "init hook failure"); }
    }
    void onThreadExit(Thread &t) { sim::Quiet q; fin++; SIM_CHECK(st[&t] == 1, "hooks", "exit hook called for a thread which is not initialised or already left"); st[&t] = 0; }
    void onThreadException(Thread &t) throw() { sim::Quiet q; if (st[&t]) { exc++; st[&t] = 0; } }
};
// C05: life of one thread object driven by its owner
SCENARIO(thread_cycle, "C05", 3) {
    if (sim::coin("nothread")) sim::enableFaults("thread_create_fail");
    if (sim::coin("eintr")) sim::enableFaults("sem_eintr");
    std::unique_ptr<HookCount> hk;
    if (sim::coin("hooks")) { Thread::getMaster(); hk.reset(new HookCount); hk->failInit = sim::coin("failinit"); hk->install(); }
    int nt = sim::param("threads", 1, 3), cyc = sim::param("cycles", 1, 4);
    std::vector<std::unique_ptr<Thread>> th(nt);
    struct St { int runs = 0, live = 0, started = 0; bool inside = false, done = true; };
    std::vector<St> st(nt);
    for (auto &t : th) t.reset(new Thread());
    for (int c = 0; c < cyc; c++) for (int i = 0; i < nt; i++) {
        St &s = st[i];
        Thread &t = *th[i], *tp = &t;
        int op = sim::param("op", 0, 6);
        if (op <= 2) {
            bool wasRunning = t.isRunning(), wasDone; { sim::Quiet q; wasDone = s.done; }
            std::function<void()> body = [&, tp] {
                { sim::Quiet q; SIM_CHECK(!s.inside, "exactly-once", "function executed by two threads at once"); s.inside = true; s.runs++; }
                struct Leave { St &s; ~Leave() { sim::Quiet q; s.inside = false; s.done = true; } } lv{s};
                SIM_CHECK(&Thread::current() == tp, "current", "Thread::current() is not the thread which runs the function");
                dwell();
                if (sim::coin("wait")) while (!Thread::canFinish()) if (Thread::sleep(Timeout(3))) break;
                maybeThrow();
            };
            bool ok = true, busy = false, hookFail = false;
            FnTok fn(body, &s.live);
            long in0 = 0; if (hk) { sim::Quiet q; in0 = hk->init; }
            { sim::Quiet q; if (!wasRunning) s.done = false; }
            try { t >> fn; }
            catch (const ThreadBusyException &) { busy = true; ok = false; }
            catch (const UnableToStartThreadException &) { ok = false; sim::probe("thread.create-failed"); }
            if (busy) SIM_CHECK(wasRunning, "start", "thread which is not running refused to start as busy");
            if (!ok && !busy) { sim::Quiet q; SIM_CHECK(sim::faultsEnabled(), "start", "thread refused to start"); SIM_CHECK(s.live == 1, "function-leak", "copy of the function left behind by a failed start"); s.done = true; }
            if (!ok && !busy) SIM_CHECK(!t.isRunning(), "start", "thread which failed to start reports running");
            (void)hookFail; (void)in0; (void)wasDone;
            if (ok) { sim::Quiet q; s.started++; }
        } else if (op == 3) { t.join(); }
        else if (op == 4) { t.stop(); }
        else if (op == 5) { while (t.isRunning()) sim::pass(); }
        else { th[i].reset(); }
        if (op >= 3) {
            sim::Quiet q;
            SIM_CHECK(!s.inside, "join", "join returned while the thread's function is running");
            SIM_CHECK(s.runs == s.started || (hk && hk->failInit), "exactly-once", "function executed %d times after %d starts", s.runs, s.started);
            SIM_CHECK(s.runs <= s.started, "exactly-once", "function executed %d times after %d starts", s.runs, s.started);
            if (op != 5) SIM_CHECK(s.live == 0, "function-leak", "%d copies of the thread's function alive after join", s.live);
            if (op == 6) { s.runs = s.started = 0; th[i].reset(new Thread()); }
        }
        if (op >= 3) SIM_CHECK(!th[i]->isRunning(), "join", "thread reports running after join");
    }
    th.clear();
    for (auto &s : st) { SIM_CHECK(!s.inside && s.live == 0, "join", "thread object destroyed before its function finished"); }
    if (hk) {
        hk->uninstall();
        for (auto &x : hk->st) SIM_CHECK(x.second == 0 || x.first == &Thread::getMaster(), "hooks", "finished thread has not called its exit hook");
        SIM_CHECK(hk->fin + hk->exc == hk->init, "hooks", "%ld initialisations, %ld exits", hk->init, hk->fin + hk->exc);
    }
}
// C05: one thread object shared by several callers
SCENARIO(thread_shared, "C05", 2) {
    std::unique_ptr<Thread> tp(new Thread());
    Thread &t = *tp;
    int nt = sim::param("callers", 2, 3), it = sim::param("iters", 1, 3);
    int inside = 0; long runs = 0, starts = 0;
    {
        Crew c;
        for (int i = 0; i < nt; i++) c.go([&] {
            for (int k = 0; k < it; k++) {
                bool myDone = false; int live = 0;
                FnTok fn([&] {
                    { sim::Quiet q; inside++; SIM_CHECK(inside == 1, "exactly-once", "two functions run by one thread object at the same time"); runs++; }
                    dwell();
                    sim::Quiet q; inside--; myDone = true;
                }, &live);
                bool ok = true;
                try { t >> fn; } catch (const ThreadBusyException &) { ok = false; sim::probe("thread.busy"); }
                if (ok) {
                    { sim::Quiet q; starts++; }
                    if (sim::coin("poll")) { for (int n = 0; n < 3; n++) { t.isRunning(); sim::yield(); } }
                    t.join();
                    sim::Quiet q; SIM_CHECK(myDone, "join", "join returned before the function finished");
                    SIM_CHECK(live == 1, "function-leak", "%d copies of finished function", live - 1);
                } else if (sim::coin("wait")) t.join();
            }
        });
    }
    SIM_CHECK(runs == starts, "exactly-once", "%ld starts, %ld runs", starts, runs);
}
// C05: thread object destroyed while running (stop + join), several waiters on the join object
SCENARIO(thread_joiners, "C05", 2) {
    int nj = sim::param("joiners", 1, 3);
    bool done = false; int joined = 0;
    Thread *t = new Thread();
    (*t) >> Crew::Call{[&] {
        bool sl = sim::coin("sleep");
        if (sl) while (!Thread::canFinish()) Thread::sleep(nil); else dwell();
        sim::Quiet q; done = true;
    }};
    {
        Crew c;
        for (int i = 0; i < nj; i++) c.go([&] {
            if (sim::coin("timed")) {
                uint64_t u0 = sim::now_us(); int ms = sim::param("ms", 0, 3);
                bool r = t->getJoinObject().wait(Timeout(ms));
                sim::Quiet q;
                if (r) SIM_CHECK(done, "join", "join object signaled while the thread runs");
                else SIM_CHECK(sim::now_us() - u0 >= (uint64_t)ms * 1000, "early-timeout", "early");
            } else {
                t->join();
                sim::Quiet q; SIM_CHECK(done, "join", "join returned while the thread runs"); joined++;
            }
        });
        dwell();
        t->finish();
    }
    { sim::Quiet q; }
    delete t;
    SIM_CHECK(done, "join", "thread object destroyed before its function finished");
}
// C05: foreign threads attach, work, detach, attach again
SCENARIO(thread_attach, "C05", 1) {
    Thread::getMaster();
    HookCount hk; hk.install();
    int n = sim::param("foreign", 1, 3), rounds = sim::param("rounds", 1, 3);
    std::vector<int> f;
    long tot = 0;
    for (int i = 0; i < n; i++) f.push_back(sim::spawn("foreign", [&] {
        for (int k = 0; k < rounds; k++) {
            bool keep = sim::coin("keep");
            Thread t;
            bool ok = t.attach(keep);
            SIM_CHECK(ok, "attach", "foreign thread refused");
            SIM_CHECK(&Thread::current() == &t, "current", "attached thread is not current");
            Thread t2; SIM_CHECK(!t2.attach(keep), "attach", "thread attached twice");
            Thread::sleep(Timeout(1));
            { Notifier nt; Crew c; c.go([&] { nt.wakeUp(5); }); SIM_CHECK(nt.wait(nil), "notify", "lost"); }
            sim::Quiet q; tot++;
        }
    }));
    for (int x : f) sim::joinFiber(x);
    hk.uninstall();
    SIM_CHECK(hk.init == hk.fin, "hooks", "%ld init hooks, %ld exit hooks", hk.init, hk.fin);
    SIM_CHECK(tot == (long)n * rounds, "attach", "lost");
}
// C05: several hooks, installed and uninstalled, any of which may throw
namespace hooksN {
struct Plan { int throwInit = -1, throwExit = -1; bool fnThrows = false; };
struct Many : AbstractThreadHook {
    int id; Plan *plan; std::vector<std::string> *log; Thread **who;
    Many(int id, Plan *p, std::vector<std::string> *l, Thread **w) : id(id), plan(p), log(l), who(w) {}
    void rec(char c, Thread &t) { sim::Quiet q; SIM_CHECK(&t == *who, "hooks", "hook %d called for a thread which was not started", id); log->push_back(std::string(1, c) + std::to_string(id)); }
    void onThreadInit(Thread &t) { rec('i', t); sim::yield(); if (plan->throwInit == id) { sim::probe("hooks.init-throws"); throw ErrorMessageException(THISLOCATION, "init hook failure"); } }
    void onThreadExit(Thread &t) { rec('x', t); sim::yield(); if (plan->throwExit == id) { sim::probe("hooks.exit-throws"); throw ErrorMessageException(THISLOCATION, "exit hook failure"); } }
    void onThreadException(Thread &t) throw() { rec('e', t); }
};
static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + " "; return s; }
}
SCENARIO(thread_hooks, "C05", 2) {
    using namespace hooksN;
    Thread::getMaster();
    Plan plan; std::vector<std::string> log; Thread *who = 0;
    int nh = sim::param("hooks", 1, 4), steps = sim::param("steps", 4, 14);
    std::vector<std::unique_ptr<Many>> h; std::vector<int> order;
    for (int i = 0; i < nh; i++) h.emplace_back(new Many(i, &plan, &log, &who));
    for (int k = 0; k < steps; k++) {
        int op = sim::param("op", 0, 5), x = sim::param("hook", 0, nh - 1);
        auto at = std::find(order.begin(), order.end(), x);
        if (op == 0) { h[x]->install(); if (at == order.end()) { sim::Quiet q; order.push_back(x); } }
        else if (op == 1) { h[x]->uninstall(); if (at != order.end()) { sim::Quiet q; order.erase(at); } }
        else if (op == 2) { // replaced by another one
            { sim::Quiet q; if (at != order.end()) order.erase(at); }
            h[x].reset(); h[x].reset(new Many(x, &plan, &log, &who));
        } else {
            bool attach = op == 5, keep = false;
            plan = Plan();
            if (sim::chance("fail", 1, 2) && !order.empty()) {
                int v = order[sim::param("which", 0, (int)order.size() - 1)];
                switch (sim::param("where", 0, attach ? 0 : 2)) { case 0: plan.throwInit = v; break; case 1: plan.throwExit = v; break; default: plan.fnThrows = true; }
            }
            std::vector<std::string> want; bool ran = false, runs = true;
            { sim::Quiet q;
                size_t i = 0;
                for (; i < order.size(); i++) { want.push_back("i" + std::to_string(order[i])); if (plan.throwInit == order[i]) { runs = false; break; } }
                if (!runs || plan.fnThrows) { if (runs) i = order.size(); while (i--) want.push_back("e" + std::to_string(order[i])); }
                else { bool ex = false; for (i = order.size(); i--;) { want.push_back((ex ? "e" : "x") + std::to_string(order[i])); if (plan.throwExit == order[i]) ex = true; } }
                log.clear();
            }
            if (attach) {
                keep = sim::coin("keep");
                sim::joinFiber(sim::spawn("foreign", [&] {
                    Thread t; { sim::Quiet q; who = &t; }
                    bool ok = false;
                    try { ok = t.attach(keep); } catch (const ErrorMessageException &) { sim::probe("hooks.attach-refused"); }
                    SIM_CHECK(ok == runs, "attach", "attach %s", ok ? "succeeded although an init hook failed" : "refused");
                    SIM_CHECK(t.isRunning() == ok, "attach", "%s thread reports %s", ok ? "attached" : "refused", ok ? "not running" : "running");
                    if (!ok && (keep || sim::coin("again"))) { // the refused thread can try again (with the context kept, the thread has to be attached to destroy threads)
                        plan.throwInit = -1; { sim::Quiet q; for (int o : order) want.push_back("i" + std::to_string(o)); for (size_t i = order.size(); i--;) want.push_back("x" + std::to_string(order[i])); }
                        SIM_CHECK(t.attach(keep), "attach", "thread refused once can't be attached"); ok = true;
                    }
                    if (ok) { SIM_CHECK(&Thread::current() == &t, "current", "attached thread is not current"); sim::Quiet q; ran = true; }
                    else { sim::Quiet q; ran = false; }
                    if (!runs) ran = false;
                }));
            } else {
                Thread t; { sim::Quiet q; who = &t; }
                std::function<void()> body = [&] { { sim::Quiet q; ran = true; } sim::yield(); if (plan.fnThrows) { sim::probe("hooks.function-throws"); throw ErrorMessageException(THISLOCATION, "simulated failure"); } };
                t >> body;
                t.join();
            }
            sim::Quiet q;
            SIM_CHECK(ran == runs, "hooks", ran ? "function executed although an init hook failed" : "function not executed");
            SIM_CHECK(log == want, "hooks", "hooks called: %s, expected: %s", join(log).c_str(), join(want).c_str());
        }
        for (int i = 0; i < nh; i++) SIM_CHECK(h[i]->isInstalled() == (std::find(order.begin(), order.end(), i) != order.end()), "hooks", "hook %d reports wrong state", i);
    }
    for (auto &x : h) x->uninstall();
}
// C05: hooks come and go while threads are started; one which is installed all the time sees every thread
SCENARIO(thread_hooks_race, "C05", 1) {
    Thread::getMaster();
    struct Lone : HookCount {};
    HookCount stay; stay.install();
    int toggles = sim::param("togglers", 1, 2), rounds = sim::param("rounds", 1, 5);
    {
        Crew c;
        for (int i = 0; i < toggles; i++) c.go([&] {
            struct Seen : AbstractThreadHook { bool live = false; int calls = 0; void onThreadInit(Thread &) { sim::Quiet q; SIM_CHECK(live, "hooks", "hook called while it is not installed"); calls++; } };
            Seen s;
            for (int k = 0; k < rounds; k++) {
                { sim::Quiet q; s.live = true; }
                s.install(); SIM_CHECK(s.isInstalled(), "hooks", "installed hook is not installed");
                dwell();
                s.uninstall(); SIM_CHECK(!s.isInstalled(), "hooks", "uninstalled hook is installed");
                { sim::Quiet q; s.live = false; }
                sim::yield();
            }
        });
        for (int i = 0; i < 2; i++) c.go([&] {
            for (int k = 0; k < rounds; k++) { long r = 0; Thread t; t >> Crew::Call{[&] { dwell(); sim::Quiet q; r++; SIM_CHECK(stay.st[&t] == 1, "hooks", "thread runs without its init hook"); }}; t.join(); sim::Quiet q; SIM_CHECK(r == 1, "exactly-once", "function not executed"); SIM_CHECK(stay.st[&t] == 0, "hooks", "finished thread has not called its exit hook"); }
        });
    }
    stay.uninstall();
    SIM_CHECK(stay.init == (long)2 * rounds + 2 + toggles && stay.fin == stay.init, "hooks", "%ld init hooks, %ld exit hooks", stay.init, stay.fin);
}
// ---------------------------------------------------------------- C06 sleeping
SCENARIO(sleep_wake, "C06", 3) {
    bool eintr = sim::coin("eintr"); if (eintr) sim::enableFaults("sem_eintr");
    int wakers = sim::param("wakers", 1, 3), per = sim::param("per", 1, 4);
    long want = 0, seen = 0; long sent = 0, woken = 0;
    Crew c;
    c.go([&] {
        while (seen < (long)wakers * per) {
            natural reason = 0; uint64_t u0 = sim::now_us();
            int how = sim::param("how", 0, 2);
            bool tm = false;
            if (how == 0) tm = Thread::sleep(nil, reason);
            else if (how == 1) { int ms = sim::param("ms", 0, 4); tm = Thread::sleep(Timeout(ms), reason);
                if (tm) SIM_CHECK(sim::now_us() - u0 >= (uint64_t)ms * 1000, "early-timeout", "sleep(%d ms) reported timeout after %lld us", ms, (long long)(sim::now_us() - u0)); }
            else { tm = Thread::sleep(Timeout(sim::param("ms", 0, 4))); }
            sim::Quiet q;
            if (how == 0) SIM_CHECK(!tm, "wait", "unlimited sleep reported timeout");
            if (!tm) {
                woken++;
                if (!eintr) SIM_CHECK(woken <= sent, "spurious", "sleep interrupted %ld times but only %ld wake ups were sent", woken, sent);
                if (how != 2 && sent) SIM_CHECK(reason == 0 || (long)reason <= sent + wakers, "reason", "reason %ld was never sent", (long)reason);
            } else sim::probe("sleep.timeout");
            seen = want;
        }
    });
    Thread *t = c.th[0].get();
    for (int i = 0; i < wakers; i++) c.go([&] {
        for (int k = 0; k < per; k++) {
            dwell();
            { sim::Quiet q; want++; sent++; }
            t->wakeUp((natural)sent);
        }
    });
    c.join();   // a lost wake up leaves the sleeper asleep for ever
}
SCENARIO(sleep_reason, "C06", 1) {
    int n = sim::param("n", 1, 5); bool ready = false; long cur = 0, got = 0;
    Crew c;
    c.go([&] { for (int k = 0; k < n; k++) {
        natural r = 0;
        { sim::Quiet q; ready = true; }
        bool tm = Thread::sleep(nil, r);
        sim::Quiet q; SIM_CHECK(!tm, "wait", "timeout from an unlimited sleep"); SIM_CHECK((long)r == cur, "reason", "woken with reason %ld, sent %ld", (long)r, cur); got++; } });
    for (int k = 0; k < n; k++) { while (!ready || got < k) sim::pass(); { sim::Quiet q; ready = false; cur = sim::param("reason", 1, 99); } c.th[0]->wakeUp(cur); }
}
SCENARIO(deep_sleep, "C06", 1) {
    if (sim::coin("eintr")) sim::enableFaults("sem_eintr");
    int ms = sim::param("ms", 0, 20), n = sim::param("wakes", 0, 4);
    Crew c;
    c.go([&] { uint64_t u0 = sim::now_us(); Thread::deepSleep(Timeout(ms)); uint64_t e = sim::now_us() - u0;
        SIM_CHECK(e >= (uint64_t)ms * 1000, "early-timeout", "deepSleep(%d ms) took %lld us", ms, (long long)e);
        SIM_CHECK(e <= (uint64_t)ms * 1000 + 1000000, "late", "deepSleep(%d ms) took %lld us", ms, (long long)e); });
    for (int i = 0; i < n; i++) { dwell(); c.th[0]->wakeUp(1); }
}
SCENARIO(finish_wakes, "C06", 2) {
    int n = sim::param("threads", 1, 3); int left = n;
    if (sim::coin("eintr")) sim::enableFaults("sem_eintr");
    Crew c;
    for (int i = 0; i < n; i++) c.go([&] {
        int how = sim::param("how", 0, 2);
        if (how == 0) while (!Thread::canFinish()) Thread::sleep(nil);
        else if (how == 1) { Gate g; bool r = g.wait(nil, SyncPt::interruptOnExit); SIM_CHECK(!r, "gate", "closed gate passed"); SIM_CHECK(Thread::canFinish(), "wait", "interrupted without a reason"); }
        else { Notifier nt; bool r = nt.wait(nil, true); SIM_CHECK(!r, "notify", "notified by nobody"); SIM_CHECK(Thread::canFinish(), "wait", "interrupted without a reason"); }
        sim::Quiet q; left--;
    });
    for (int i = 0; i < n; i++) { dwell(); SIM_CHECK(c.th[i]->isRunning(), "finish", "thread finished by itself"); if (sim::coin("stop")) c.th[i]->stop(); else c.th[i]->finish(); }
    c.join();
    SIM_CHECK(left == 0, "finish", "thread did not finish");
    // the same objects can be used again, the request to finish is not remembered
    Thread &t = *c.th[0];
    bool fin = true;
    t >> Crew::Call{[&] { fin = Thread::canFinish(); }};
    t.join();
    SIM_CHECK(!fin, "finish", "restarted thread still has the finish request of the previous run");
}
