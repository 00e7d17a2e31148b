// Fibers: control goes exactly where it was sent, each function runs once, stopped fibers unwind, exceptions reach the master.
#include "common.h"
#include <map>
#include "lightspeed/mt/fiber.h"
#include "lightspeed/mt/exceptions/fiberException.h"
#include "lightspeed/base/exceptions/errorMessageException.h"
#include "lightspeed/base/exceptions/errorMessageException.h"

namespace {
struct World;
struct Obj { int &live; int v; Obj(int &l) : live(l), v(77) { sim::Quiet q; live++; } ~Obj() { SIM_CHECK(v == 77, "stack-damaged", "local variable of a fiber was damaged"); v = 0; live--; } };
struct Fb {
    World *w; int id; Fiber *f = 0; bool active = false, failing = false; int stopping = 0; int runs = 0, starts = 0, live = 0, caller = -1; bool sleeping = false; natural reason = 0; bool reported = false;
};
struct World {
    std::vector<Fb> fb; int cur = -1; int nf; int budget; int threadNo; bool started = false, alone = false;
    World(int n, int t) : fb(n), nf(n), budget(sim::param("budget", 5, 40)), threadNo(t) { for (int i = 0; i < n; i++) { fb[i].w = this; fb[i].id = i; fb[i].f = new Fiber; } }
    ~World() { for (auto &x : fb) delete x.f; }
    // control is here: nobody else may run in this thread
    void here(int id) {
        sim::Quiet q; SIM_CHECK(cur == id, "wrong-fiber", "control was given to fiber %d instead of %d", id, cur);
        Fiber *c = Fiber::currentPtr(); if (id >= 0) { SIM_CHECK(c == fb[id].f, "current", "current fiber is not the running one"); SIM_CHECK(!c->isMaster(), "current", "fiber claims to be master"); }
        else if (c) SIM_CHECK(c->isMaster(), "current", "master is not the current fiber in master");
    }
    void goTo(int id, int from) { sim::Quiet q; sim::event("T%d: %d -> %d", threadNo, from, id); cur = id; if (id >= 0) fb[id].caller = from; }
    // master's or fiber's operation
    void start(int me, int t);
    void wake(int me, int t, natural reason) {
        Fb &g = fb[t]; bool go = g.active && t != me;
        if (go) { goTo(t, me); sim::Quiet q; g.reason = reason; }
        g.f->wakeUp(reason); back(me);
    }
    void stop(int me, int t) {
        Fb &g = fb[t]; { sim::Quiet q; if (g.active) { g.stopping = 1; if (t != me) goTo(t, me); } }
        g.f->stop(); back(me);
    }
    void back(int me) { here(me); }
    void state(int me, int t) {
        Fb &g = fb[t]; bool want = g.active, ex = g.failing && !g.reported && me < 0 ; 
        try { bool x = *g.f; SIM_CHECK(!ex, "exception-lost", "exception of fiber %d was not reported", t); SIM_CHECK(x == want, "state", "fiber %d is reported %d, it is %d", t, x, want); SIM_CHECK(!*g.f == !want, "state", "operator !"); }
        catch (const ErrorMessageException &e) { SIM_CHECK(ex, "exception-twice", "exception of fiber %d reported again", t); sim::Quiet q; g.reported = true; sim::probe("fiber_exception"); }
    }
    void sleep(int me) {
        if (me < 0) { if (Fiber::currentPtr()) { int c = cur; Fiber::sleep(); SIM_CHECK(c == cur, "wrong-fiber", "sleep of the master"); } return; }
        Fb &g = fb[me]; { sim::Quiet q; int to = g.caller; if (to >= 0 && !fb[to].active) to = -1; if (!g.stopping) { sim::event("T%d: %d sleeps -> %d", threadNo, me, to); cur = to; } else sim::event("T%d: %d sleeps when stopped", threadNo, me); }
        natural r = Fiber::sleep(); here(me); sim::Quiet q; SIM_CHECK(r == g.reason, "reason", "fiber %d was woken with reason %d, it got %d", me, (int)g.reason, (int)r); SIM_CHECK(!g.stopping, "stop-lost", "sleep returned in a stopped fiber");
    }
    bool ended(int me) { (void)me; return false; }
    void act(int me) {
        budget--; int t = sim::param("target", 0, nf - 1);
        switch (sim::param("op", 0, me < 0 ? 7 : 9)) {
            case 0: if (!fb[t].active && t != me) start(me, t); break;
            case 1: case 2: case 3: wake(me, t, (natural)sim::param("reason", 0, 1000)); break;
            case 4: state(me, t); break;
            case 5: if (me < 0 || sim::coin("stopit")) { if (t != me || sim::coin("self")) stop(me, t); } break;
            case 6: sim::yield(); break;
            case 7: if (me < 0) { bool refd = false; for (auto &x : fb) if (x.active && x.caller == t) refd = true; if (!fb[t].active && !refd && sim::coin("re")) { delete fb[t].f; Fiber *n = new Fiber; sim::Quiet q; fb[t].f = n; fb[t].failing = false; fb[t].stopping = 0; } else sleep(me); break; }  // fallthrough
            default: sleep(me); break;
        }
    }
    void body(int me) {
        sim::allocFailAfter(0); started = true;
        { sim::Quiet q; SIM_CHECK(++fb[me].runs == fb[me].starts, "run-twice", "function of fiber %d ran %d times for %d starts", me, fb[me].runs, fb[me].starts); }
        here(me); 
        struct End { World &w; int me; ~End() { sim::Quiet q; w.fb[me].active = false; sim::event("T%d: %d ends", w.threadNo, me); } } end = {*this, me};
        Obj o(fb[me].live); int n = sim::param("len", 0, 8);
        while (n-- > 0 && budget > 0) { Obj o2(fb[me].live); act(me); here(me); }
        if (sim::chance("throws", 1, 4)) { { sim::Quiet q; fb[me].failing = true; fb[me].reported = false; } throw ErrorMessageException(THISLOCATION, "failing fiber"); }
        if (sim::chance("catches", 1, 3)) { try { throw 1; } catch (int) {} }
    }
};
struct Body { World *w; int id; void operator()() const { World *x = w; int i = id;
    struct Fin { World *w; int i; ~Fin() { sim::Quiet q; w->cur = -1; SIM_CHECK(w->fb[i].live == 0, "not-unwound", "%d objects of an ended fiber live", w->fb[i].live); } } fin = {x, i};
    x->body(i); } };
void World::start(int me, int t) {
    Fb &g = fb[t]; { sim::Quiet q; g.active = true; g.stopping = 0; g.starts++; g.reason = 0; goTo(t, me); }
    Body b = {this, t}; FiberFunction fn(b); natural stack = sim::coin("stack") ? 0 : 20000; if (alone && sim::chance("nomem", 1, 10)) sim::allocFailAfter(sim::param("failat", 1, 3));
    started = false;
    try { g.f->start(fn.ifc(), stack); back(me); }
    catch (const std::exception &e) { bool f = sim::allocFailed(); sim::allocFailAfter(0); sim::Quiet q; SIM_CHECK(f && !started, "start", "starting of a fiber failed: %s", e.what()); sim::event("T%d: start failed", threadNo); g.active = false; g.starts--; g.caller = -1; cur = me; sim::probe("start_failed"); here(me); return; }
    sim::allocFailAfter(0);
}
void run(int no, bool alone = false) {
    World w(sim::param("fibers", 1, 4), no); w.alone = alone;
    if (sim::coin("premaster")) { Fiber &m = Fiber::createMasterFiber(); SIM_CHECK(m.isMaster(), "master", "master fiber is not master"); }
    while (w.budget > 0) { w.act(-1); w.here(-1); }
    // everything is finished one of the ways
    for (int i = 0; i < w.nf; i++) {
        if (sim::coin("destroy")) { { sim::Quiet q; if (w.fb[i].active) w.fb[i].stopping = 1, w.goTo(i, -1); } delete w.fb[i].f; w.fb[i].f = new Fiber; w.here(-1); { sim::Quiet q; SIM_CHECK(!w.fb[i].active && w.fb[i].live == 0, "not-unwound", "destroyed fiber was not unwound"); w.fb[i].failing = false; } }
        else { w.stop(-1, i); w.state(-1, i); w.state(-1, i); SIM_CHECK(!w.fb[i].active && !w.fb[i].live, "stop-lost", "stopped fiber is active"); }
    }
    if (sim::coin("destroymaster")) SIM_CHECK(Fiber::destroyMasterFiber(), "master", "master fiber was not destroyed");
}
}
// fiber which cannot be unwound does not stop the program
SCENARIO(fibers_unwind, "C27", 0.2) { Crew c; c.go([] {
    int live = 0, steps = 0; bool caught = false;
    struct Loop { int *live, *steps; void operator()() const { Obj o(*live); int *s = steps; for (;;) { (*s)++; Fiber::sleep(); } } } l = {&live, &steps};
    try { Fiber f; f.start(FiberFunction(l).ifc()); int n = sim::param("n", 0, 3); for (int i = 0; i < n; i++) f.wakeUp(); SIM_CHECK(steps == n + 1, "steps", "fiber made %d steps", steps); if (sim::coin("throw")) throw 5; } catch (int) { caught = true; }
    SIM_CHECK(caught || !live, "not-unwound", "destroyed fiber was not unwound");
}); }
SCENARIO(fibers_one, "C27", 1) { Crew c; c.go([] { run(0, true); }); }
SCENARIO(fibers_threads, "C27", 0.6) { Crew c; int n = sim::param("threads", 2, 3); for (int i = 0; i < n; i++) c.go([i] { run(i); }); }
