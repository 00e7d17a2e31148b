// Executors, message queues, scheduler thread, resource pool.
#include "common.h"
#include <map>
#include <set>
#include "lightspeed/base/actions/parallelExecutor.h"
#include "lightspeed/base/actions/InfParallelExecutor.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/framework/app.h"
#include "lightspeed/base/actions/queueExecutor.h"
#include "lightspeed/base/actions/msgQueue.h"
#include "lightspeed/mt/msgthread.h"
#include "lightspeed/base/containers/resourcePool.h"
#include "lightspeed/mt/exceptions/timeoutException.h"
#include "lightspeed/mt/exceptions/threadException.h"
#include "lightspeed/base/exceptions/errorMessageException.h"

namespace {
// ledger of actions: how often each ran, how many copies live
struct Ledger {
    std::vector<int> ran; int running = 0, maxRunning = 0, limit = 1 << 30; int live = 0; bool closed = false;
    std::vector<int> order;
    explicit Ledger(int n) : ran(n) {}
    void begin(int id) {
        sim::Quiet q; running++; if (running > maxRunning) maxRunning = running;
        sim::event("action %d starts", id);
        SIM_CHECK(!closed, "ran-after-stop", "action %d runs after the executor reported everything stopped", id);
        SIM_CHECK(running <= limit, "too-many-threads", "%d actions at once, limit %d", running, limit);
        SIM_CHECK(++ran[id] == 1, "ran-twice", "action %d ran %d times", id, ran[id]);
        order.push_back(id);
    }
    void end(int id) { sim::Quiet q; running--; sim::event("action %d ends", id); }
};
struct Act {
    Ledger *l; int id; int len; bool thr; bool valid = true;
    Act(Ledger *l, int id, int len, bool thr = false) : l(l), id(id), len(len), thr(thr) { cnt(1); }
    Act(const Act &o) : l(o.l), id(o.id), len(o.len), thr(o.thr), valid(o.valid) { SIM_CHECK(o.valid, "dead-action-copied", "action %d copied after its destruction", id); cnt(1); }
    ~Act() { SIM_CHECK(valid, "double-destroy", "action %d destroyed twice", id); valid = false; cnt(-1); }
    void cnt(int d) { sim::Quiet q; l->live += d; }
    void operator()() const {
        SIM_CHECK(valid, "dead-action-run", "action %d runs after its destruction", id);
        l->begin(id);
        for (int i = 0; i < len; i++) dwell();
        l->end(id);
        if (thr) throw ErrorMessageException(THISLOCATION, "thrown by action");
    }
};
typedef IExecutor::ExecAction ExecAction;
auto mk(const Act &a) -> decltype(ExecAction::create(a)) { return ExecAction::create(a); }
}

namespace {
// without an application an exception of an action ends in std::unexpected() by design
struct TestApp : App {
    int seen = 0;
    TestApp() : App(0) {}
    virtual integer start(const Args &) { return 0; }
    virtual void onThreadException(const Exception &) throw() { sim::Quiet q; seen++; }
};
}
SCENARIO(parallel_exec, "C12", 3) {
    TestApp app; int throwing = 0;
    sim::enableFaults("sem_eintr thread_create_fail");
    if (!sim::chance("faults", 1, 3)) sim::faultsEnable(false);
    int maxThreads = sim::param("maxThreads", 1, 3), n = sim::param("actions", 1, 7);
    int idle = sim::param("idle", 0, 3), waitTm = sim::param("wait", 0, 4), newTm = sim::param("new", 0, 2);
    Ledger l(n * 4 + 4); l.limit = maxThreads;
    std::set<int> accepted, refused;
    int next = 0;
    {
        ParallelExecutor ex(maxThreads, waitTm == 0 ? naturalNull : (natural)waitTm * 2, newTm ? newTm * 2 - 1 : 0, idle == 0 ? naturalNull : (natural)idle);
        int rounds = sim::param("rounds", 1, 3);
        for (int r = 0; r < rounds; r++) {
            if (sim::chance("spawn", 1, 4)) try { ex.spawnThreads(sim::param("nspawn", 1, 3)); } catch (const Exception &) { SIM_CHECK(sim::faultsEnabled(), "unexpected-exception", "spawnThreads failed without a fault"); }
            for (int i = 0; i < n; i++) {
                int id = next++; bool thr = sim::chance("throws", 1, 6);
                uint64_t t0 = sim::now_us();
                try {
                    ex.execute(mk(Act(&l, id, sim::param("len", 0, 2), thr)));
                    sim::Quiet q; accepted.insert(id); throwing += thr;
                } catch (const TimeoutException &) {
                    uint64_t dt = sim::now_us() - t0;
                    SIM_CHECK(waitTm && dt + 1000 >= (uint64_t)waitTm * 2000, "early-timeout", "execute timed out after %llu us, limit %d ms", (unsigned long long)dt, waitTm * 2);
                    sim::probe("execute_timeout"); sim::Quiet q; refused.insert(id);
                } catch (const UnableToStartThreadException &) {
                    SIM_CHECK(sim::faultsEnabled(), "unexpected-exception", "execute failed to start a thread without a fault");
                    sim::probe("execute_nothread"); sim::Quiet q; refused.insert(id);
                }
                SIM_CHECK(ex.getThreadCount() <= (natural)maxThreads, "too-many-threads", "%d threads, limit %d", (int)ex.getThreadCount(), maxThreads);
                if (sim::chance("pause", 1, 3)) dwell();
            }
            if (sim::chance("stop", 1, 2)) {
                int tm = sim::param("stopTm", 0, 2);
                bool ok = ex.stopAll(tm == 0 ? naturalNull : (natural)(tm - 1) * 4);
                SIM_CHECK(ok || tm, "stop-timeout", "stopAll without a timeout reported timeout");
                if (ok) {
                    sim::Quiet q;
                    SIM_CHECK(l.running == 0, "running-after-stop", "stopAll returned while %d actions run", l.running);
                    SIM_CHECK(l.live == 0, "leaked-action", "%d copies of actions live after stopAll", l.live);
                    for (int id : accepted) SIM_CHECK(l.ran[id] == 1, "lost-action", "accepted action %d was not executed", id);
                }
                if (ok) SIM_CHECK(ex.getThreadCount() == 0, "thread-count", "%d threads counted after all were stopped", (int)ex.getThreadCount());
            }
        }
    }
    sim::Quiet q;
    SIM_CHECK(l.running == 0, "running-after-stop", "executor destroyed while %d actions run", l.running);
    SIM_CHECK(l.live == 0, "leaked-action", "%d copies of actions live after destruction", l.live);
    for (int id : accepted) SIM_CHECK(l.ran[id] == 1, "lost-action", "accepted action %d ran %d times", id, l.ran[id]);
    SIM_CHECK(app.seen == throwing, "exception-lost", "%d actions threw, the application saw %d exceptions", throwing, app.seen);
    for (int id : refused) SIM_CHECK(l.ran[id] == 0, "refused-ran", "action %d ran although execute() threw", id);
}

// the limit of threads is changed while actions run; idle threads time out
SCENARIO(parallel_resize, "C12", 1.5) {
    int n = sim::param("actions", 2, 8);
    Ledger l(n);
    {
        ParallelExecutor ex(sim::param("maxThreads", 1, 4), naturalNull, 0, sim::coin("idle") ? 1 : naturalNull);
        Crew c; bool stop = false;
        if (sim::coin("other")) c.go([&] { for (int i = 0; i < 3 && !stop; i++) { ex.setMaxThreadCount(sim::param("newMax", 1, 4)); dwell(); } });
        for (int i = 0; i < n; i++) {
            if (sim::chance("resize", 1, 3)) ex.setMaxThreadCount(sim::param("newMax", 1, 4));
            ex.execute(mk(Act(&l, i, sim::param("len", 0, 2))));
        }
        { sim::Quiet q; stop = true; }
        c.join();
        natural m = sim::param("last", 1, 2);
        ex.setMaxThreadCount(m);
        sim::waitUntil([&] { return ex.getThreadCount() <= m; }, ~0ull); // surplus threads leave (else: deadlock)
    }
    sim::Quiet q;
    SIM_CHECK(l.live == 0 && l.running == 0, "leaked-action", "%d copies, %d running", l.live, l.running);
    for (int i = 0; i < n; i++) SIM_CHECK(l.ran[i] == 1, "lost-action", "action %d ran %d times", i, l.ran[i]);
}

SCENARIO(inf_exec, "C12", 0.7) {
    sim::enableFaults("sem_eintr");
    int n = sim::param("actions", 1, 5);
    Ledger l(n);
    {
        InfParallelExecutor ex;
        for (int i = 0; i < n; i++) { ex.execute(mk(Act(&l, i, sim::param("len", 0, 2), sim::chance("throws", 1, 6)))); if (sim::coin("pause")) dwell(); }
        if (sim::coin("join")) { ex.join(); sim::Quiet q; SIM_CHECK(l.running == 0 && l.live == 0, "running-after-stop", "join returned while %d actions run (%d copies)", l.running, l.live);
            for (int i = 0; i < n; i++) SIM_CHECK(l.ran[i] == 1, "lost-action", "action %d ran %d times", i, l.ran[i]); }
    }
    sim::Quiet q;
    SIM_CHECK(l.live == 0 && l.running == 0, "leaked-action", "%d copies, %d running", l.live, l.running);
}

SCENARIO(queue_exec, "C13", 2) {
    int servers = sim::param("servers", 0, 3), posters = sim::param("posters", 1, 2), n = sim::param("actions", 1, 4);
    bool early = sim::chance("earlyStop", 1, 3);
    Ledger l(posters * n); l.limit = servers;
    int left = 0; bool stopped = false;
    {
        std::unique_ptr<QueueExecutor> ex(new QueueExecutor);
        int postersDone = 0;
        {
            Crew c;
            int firstServer = sim::coin("postFirst");
            auto startPosters = [&] { for (int p = 0; p < posters; p++) c.go([&, p] { for (int i = 0; i < n; i++) { ex->execute(mk(Act(&l, p * n + i, sim::param("len", 0, 1)))); if (sim::coin("pause")) dwell(); } sim::Quiet q; postersDone++; }); };
            if (firstServer) startPosters();
            for (int s = 0; s < servers; s++) c.go([&] { { sim::Quiet q; } ex->serve(); sim::Quiet q; left++; });
            if (!firstServer) startPosters();
            if (!early && servers) sim::waitUntil([&] { if (postersDone < posters) return false; for (int r : l.ran) if (!r) return false; return l.running == 0; }, ~0ull);
            else { dwell(); sim::waitUntil([&] { return early || postersDone == posters; }, ~0ull); }
            if (!early && servers) sim::waitUntil([&] { return !ex->isRunning(); }, ~0ull);
            bool ok = ex->stopAll(naturalNull);
            SIM_CHECK(ok, "stop", "stopAll without a timeout reported timeout");
            { sim::Quiet q; stopped = true; SIM_CHECK(l.running == 0, "running-after-stop", "stopAll returned while %d actions run", l.running); }
            c.join();
        }
        SIM_CHECK(!ex->isRunning(), "running", "isRunning after everybody left");
    }
    (void)stopped;
    sim::Quiet q;
    SIM_CHECK(left == servers, "serve", "%d of %d servers left", left, servers);
    SIM_CHECK(l.live == 0, "leaked-action", "%d copies of actions live after destruction", l.live);
    if (!early && servers) for (size_t i = 0; i < l.ran.size(); i++) SIM_CHECK(l.ran[i] == 1, "lost-action", "action %zu ran %d times", i, l.ran[i]);
    if (servers <= 1) { // FIFO per poster
        std::map<int, int> last;
        for (int id : l.order) { int p = id / n; SIM_CHECK(!last.count(p) || last[p] < id, "order", "action %d ran after action %d of the same poster", id, last[p]); last[p] = id; }
    }
}

// ---- message queue ----------------------------------------------------------------
namespace {
struct Msgs {
    struct S { int queued = 0, ran = 0, rejected = 0, done = 0; };
    std::vector<S> s; std::vector<int> order; int inside = 0; int thread = -1;
    explicit Msgs(int n) : s(n) {}
    void run(int id) {
        { sim::Quiet q; s[id].ran++; order.push_back(id); SIM_CHECK(++inside == 1, "two-workers", "two messages run at once");
          SIM_CHECK(s[id].ran + s[id].rejected == 1, "ran-twice", "message %d ran %d times, rejected %d times", id, s[id].ran, s[id].rejected);
          if (thread < 0) thread = sim::self(); SIM_CHECK(thread == sim::self(), "wrong-thread", "message %d runs in another thread than the worker", id);
          SIM_CHECK(!s[id].done, "run-after-done", "message %d runs after done()", id); }
        sim::yield(); sim::Quiet q; inside--;
    }
    void rej(int id) { sim::Quiet q; s[id].rejected++; SIM_CHECK(s[id].ran + s[id].rejected == 1 && !s[id].done, "ran-twice", "message %d ran %d times, rejected %d times, done %d", id, s[id].ran, s[id].rejected, s[id].done); }
    void dn(int id) { sim::Quiet q; s[id].done++; SIM_CHECK(s[id].done == 1, "done-twice", "message %d done twice", id); SIM_CHECK(s[id].ran + s[id].rejected == 1, "done-early", "message %d done without run or reject", id); }
};
struct Msg : MsgQueue::AbstractMsg {
    Msgs *m; int id;
    Msg(Msgs *m, int id) : m(m), id(id) {}
    virtual void queued(MsgQueue &) { sim::Quiet q; m->s[id].queued++; }
    virtual void run() throw() { m->run(id); }
    virtual void reject() throw() { m->rej(id); }
    virtual void done() throw() { m->dn(id); delete this; }
};
}
SCENARIO(msg_thread, "C13", 3) {
    sim::enableFaults("sem_eintr");
    int posters = sim::param("posters", 1, 3), n = sim::param("n", 1, 4);
    Msgs m(posters * n); std::set<int> prio; bool flushed = false; std::map<int, int> syncAt;
    MsgQueue::FlushMsg fl; std::unique_ptr<MsgThread> t;
    t.reset(new MsgThread);
    {
        Crew c;
        for (int p = 0; p < posters; p++) c.go([&, p] {
            for (int i = 0; i < n; i++) {
                int id = p * n + i;
                Msg *x; { sim::Quiet q; x = new Msg(&m, id); }
                if (sim::chance("prio", 1, 4)) { { sim::Quiet q; prio.insert(id); } t->postPriorityMessage(x); }
                else t->postMessage(x);
                if (sim::coin("pause")) dwell();
                int op = sim::param("op", 0, 7);
                if (op == 0) { t->syncToQueue(); sim::Quiet q; for (int k = 0; k <= i; k++) SIM_CHECK(m.s[p * n + k].done, "sync", "syncToQueue returned before message %d posted earlier was processed", p * n + k); }
                else if (op == 1) { t->waitForFinishMsg(); }
                else if (op == 2) { { sim::Quiet q; flushed = true; } t->flush(); sim::Quiet q; for (int k = 0; k <= i; k++) SIM_CHECK(m.s[p * n + k].done, "flush", "flush returned before message %d posted earlier was processed or rejected", p * n + k); }
                else if (op == 3) { t->cancelMessage(x); sim::Quiet q; SIM_CHECK(m.s[id].done, "cancel", "cancelMessage returned but the message is still queued"); if (m.s[id].rejected) sim::probe("message_cancelled"); }
            }
        });
    }
    int fin = sim::param("finish", 0, 2);
    if (fin == 2) { // finish request overtaken by a flush request
        MsgQueue::FinishMsg fm;
        t->postPriorityMessage(&fm); t->postPriorityMessage(&fl);
        while (!fm) Thread::sleep(nil);
    }
    if (fin) { if (fin == 1) t->MsgQueue::finish(); t->Thread::join(); sim::Quiet q; for (size_t i = 0; i < m.s.size(); i++) SIM_CHECK(m.s[i].done == 1, "lost-message", "message %zu neither ran nor was rejected", i); }
    else if (sim::coin("sync")) { t->syncToQueue(); sim::Quiet q; for (size_t i = 0; i < m.s.size(); i++) SIM_CHECK(m.s[i].done == 1, "lost-message", "message %zu neither ran nor was rejected", i); }
    t.reset();
    sim::Quiet q;
    for (size_t i = 0; i < m.s.size(); i++) SIM_CHECK(m.s[i].done == 1 && m.s[i].queued == 1, "lost-message", "message %zu: ran %d rejected %d done %d queued %d", i, m.s[i].ran, m.s[i].rejected, m.s[i].done, m.s[i].queued);
    std::map<int, int> last;
    for (int id : m.order) { if (prio.count(id)) continue; int p = id / n; SIM_CHECK(!last.count(p) || last[p] < id, "order", "message %d ran after message %d of the same poster", id, last[p]); last[p] = id; }
}

// a queue pumped by hand: exact order including priorities
SCENARIO(msg_order, "C13", 1) {
    struct Q : MsgQueue { void notify() {} bool pump() { return pumpMessage(); } };
    Q q; int n = sim::param("n", 1, 8); Msgs m(n); std::vector<int> model; // front = next
    std::vector<int> pub;
    auto takePub = [&] { if (model.empty()) { model = pub; pub.clear(); } };
    for (int i = 0; i < n; i++) {
        if (sim::chance("prio", 1, 3)) { q.postPriorityMessage(new Msg(&m, i)); model.insert(model.begin(), i); }
        else { q.postMessage(new Msg(&m, i)); pub.push_back(i); }
        if (sim::chance("pump", 1, 3)) {
            takePub();
            size_t before = m.order.size();
            bool r = q.pump();
            SIM_CHECK(r == !model.empty(), "pump", "pumpMessage returned %d with %zu messages queued", r, model.size());
            if (r) { SIM_CHECK(m.order.size() == before + 1 && m.order.back() == model.front(), "order", "message %d ran, expected %d", m.order.back(), model.front()); model.erase(model.begin()); }
        }
        SIM_CHECK(q.length() == model.size() + pub.size(), "length", "queue reports %d messages, holds %zu", (int)q.length(), model.size() + pub.size());
        SIM_CHECK(q.empty() == (model.empty() && pub.empty()), "length", "empty() is wrong");
    }
    while (q.pump()) { takePub(); SIM_CHECK(!model.empty() && m.order.back() == model.front(), "order", "message %d ran out of order", m.order.back()); model.erase(model.begin()); }
    SIM_CHECK(model.empty() && pub.empty(), "lost-message", "messages left in the queue");
}

SCENARIO(sched_thread, "C13", 1.5) {
    sim::enableFaults("sem_eintr");
    int n = sim::param("n", 1, 6);
    struct E { uint64_t due, at = 0; int ran = 0; };
    std::vector<E> ev(n); std::vector<int> order;
    std::unique_ptr<SchedulerThread> t(new SchedulerThread);
    {
        Crew c;
        int posters = sim::param("posters", 1, 2);
        for (int p = 0; p < posters; p++) c.go([&, p] {
            for (int i = p; i < n; i += posters) {
                int ms = sim::param("ms", 0, 8);
                { sim::Quiet q; ev[i].due = sim::now_us() / 1000 + ms; }
                E *e = &ev[i]; std::vector<int> *o = &order;
                t->scheduleFnCall([e, o, i] { sim::Quiet q; e->at = sim::now_us(); e->ran++; o->push_back(i); sim::event("event %d", i);
                    SIM_CHECK(e->ran == 1, "ran-twice", "event %d ran %d times", i, e->ran);
                    SIM_CHECK(e->at / 1000 + 1 >= e->due, "early", "event %d ran at %llu ms, due %llu ms", i, (unsigned long long)e->at / 1000, (unsigned long long)e->due); }, ms);
                if (sim::coin("pause")) dwell();
            }
        });
    }
    if (!sim::waitUntil([&] { for (E &e : ev) if (!e.ran) return false; return true; }, ~0ull)) {}
    t.reset();
    sim::Quiet q;
    for (int i = 0; i < n; i++) SIM_CHECK(ev[i].ran == 1, "lost-message", "event %d ran %d times", i, ev[i].ran);
}

// ---- resource pool ---------------------------------------------------------------------
namespace {
struct Pool;
struct Res : AbstractResource { Pool *p; int id; int users = 0; bool broken = false; Res(Pool *p, int id); ~Res(); bool expired() const { return broken || AbstractResource::expired(); } };
struct Pool : AbstractResourcePool {
    int live = 0, maxLive = 0, cap, made = 0, failing;
    Pool(int lim, natural rt, natural wt, int failing) : AbstractResourcePool(lim, rt, wt), cap(lim), failing(failing) {}
    virtual AbstractResource *createResource() { dwell(); if (failing && sim::chance("createFails", 1, 3)) throw ErrorMessageException(THISLOCATION, "cannot create"); sim::Quiet q; return new Res(this, made++); }
    virtual const char *getResourceName() const { return "test"; }
};
Res::Res(Pool *p, int id) : p(p), id(id) { sim::Quiet q; p->live++; if (p->live > p->maxLive) p->maxLive = p->live; SIM_CHECK(p->live <= p->cap, "over-limit", "%d resources exist, limit %d", p->live, p->cap); }
Res::~Res() { sim::Quiet q; SIM_CHECK(users == 0, "destroyed-in-use", "resource %d destroyed while in use", id); p->live--; }
}
SCENARIO(respool, "C14", 3) {
    sim::enableFaults("sem_eintr");
    int lim = sim::param("limit", 1, 3), thr = sim::param("threads", 1, 4), n = sim::param("n", 1, 3);
    int rt = sim::param("resTimeout", 0, 3), wt = sim::param("waitTimeout", 0, 3);
    std::unique_ptr<Pool> pool(new Pool(lim, rt == 0 ? naturalNull : (natural)(rt - 1), wt == 0 ? naturalNull : (natural)wt, sim::coin("failing")));
    Pool *p = pool.get();
    int holding = 0;
    {
        Crew c;
        for (int t = 0; t < thr; t++) c.go([&] {
            for (int i = 0; i < n; i++) {
                uint64_t t0 = sim::now_us();
                try {
                    ResourcePtr<Res> r(*p);
                    { sim::Quiet q; holding++; SIM_CHECK(++r->users == 1, "shared-resource", "resource %d given to two holders", r->id); SIM_CHECK(holding <= p->cap, "over-limit", "%d holders, limit %d", holding, p->cap); }
                    dwell();
                    if (sim::chance("copy", 1, 3)) { ResourcePtr<Res> r2(r); SIM_CHECK(r2.get() == r.get(), "copy", "copy holds another resource"); dwell(); }
                    { sim::Quiet q; holding--; r->users--; if (sim::chance("break", 1, 5)) r->broken = true; }
                } catch (const TimeoutException &) {
                    SIM_CHECK(wt && sim::now_us() - t0 + 1000 >= (uint64_t)wt * 1000, "early-timeout", "acquire timed out after %llu us", (unsigned long long)(sim::now_us() - t0));
                    sim::probe("acquire_timeout");
                } catch (const ErrorMessageException &) { SIM_CHECK(p->failing, "exception", "unexpected exception"); sim::probe("create_failed"); }
                dwell();
            }
        });
    }
    // everything was returned: the whole limit is available again
    { sim::Quiet q; p->failing = 0; }
    {
        std::vector<std::unique_ptr<ResourcePtr<Res>>> all;
        p->waitTimeout = 1;
        for (int i = 0; i < lim; i++) {
            try { auto *x = new ResourcePtr<Res>(*p); sim::Quiet q; all.emplace_back(x); }
            catch (const TimeoutException &) { sim::violation("lost-resource", "only %d of %d resources can be acquired after all were returned", i, lim); }
        }
        try { ResourcePtr<Res> extra(*p); sim::violation("over-limit", "%d resources acquired, limit %d", lim + 1, lim); } catch (const TimeoutException &) {}
    }
    pool.release(); { Pool *d = p; int live; d->AbstractResourcePool::getLimit(); (void)live; delete d; }
}
// limit changed on the fly
SCENARIO(respool_limit, "C14", 1) {
    int lim = sim::param("limit", 1, 3), lim2 = sim::param("limit2", 1, 4);
    Pool p(lim, naturalNull, naturalNull, 0);
    { sim::Quiet q; p.cap = lim > lim2 ? lim : lim2; }
    {
        Crew c; int thr = sim::param("threads", 1, 4);
        for (int t = 0; t < thr; t++) c.go([&] { for (int i = 0; i < 2; i++) { ResourcePtr<Res> r(p); { sim::Quiet q; SIM_CHECK(++r->users == 1, "shared-resource", "resource given to two holders"); } dwell(); sim::Quiet q; r->users--; } });
        c.go([&] { dwell(); p.setLimit(lim2); });
    }
    SIM_CHECK(p.getLimit() == (natural)lim2, "limit", "getLimit returns %d after setLimit(%d)", (int)p.getLimit(), lim2);
    p.waitTimeout = 1;
    std::vector<std::unique_ptr<ResourcePtr<Res>>> all;
    for (int i = 0; i < lim2; i++) {
        try { auto *x = new ResourcePtr<Res>(p); sim::Quiet q; all.emplace_back(x); }
        catch (const TimeoutException &) { sim::violation("lost-resource", "only %d of %d resources can be acquired", i, lim2); }
    }
    if (lim2 >= lim) try { ResourcePtr<Res> extra(p); sim::violation("over-limit", "%d resources acquired, limit %d", lim2 + 1, lim2); } catch (const TimeoutException &) {}
}
