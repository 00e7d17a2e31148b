// Promises: one resolution, every observer told exactly once, waiting, chaining.
#include "common.h"
#include <map>
#include <set>
#include <string>
#include "lightspeed/base/containers/variant.h"
#include "lightspeed/base/memory/stdAlloc.h"
#include "lightspeed/base/actions/promise.h"
#include "lightspeed/base/actions/promise.tcc"
#include "lightspeed/base/exceptions/errorMessageException.h"
#include "lightspeed/base/exceptions/canceledException.h"
#include "lightspeed/mt/exceptions/timeoutException.h"

namespace {
struct Val {
    int v, chk;
    Val(int v = 0) : v(v), chk(~v) {}
    Val(const Val &o) : v(o.v), chk(o.chk) {}
    Val &operator=(const Val &o) { v = o.v; chk = o.chk; return *this; }
    ~Val() { v = -1; chk = 12345; }
    bool ok() const { return chk == ~v; }
    bool operator==(const Val &o) const { return v == o.v; }
};
class Tagged : public Exception {       // an exception which remembers who threw it
public:
    LIGHTSPEED_EXCEPTIONFINAL;
    int tag;
    Tagged(int tag) : Exception(THISLOCATION), tag(tag) {}
protected:
    void message(ExceptionMsg &msg) const { msg("tagged %1") << tag; }
};
const int CANCELED = -1000, OTHER = -1001, TIMEDOUT = -1002;
int excTag(const Exception &e) {
    if (const Tagged *t = dynamic_cast<const Tagged *>(&e)) return -1 - t->tag;
    if (dynamic_cast<const CanceledException *>(&e)) return CANCELED;
    if (dynamic_cast<const TimeoutException *>(&e)) return TIMEDOUT;
    return OTHER;
}
PException tagged(int t) { return PException(new Tagged(t)); }

struct Obs : Future<Val>::IObserver {
    int id; int calls = 0; int out = 0; bool removed = false, registering = false, registered = false, removing = false;
    uint64_t at = 0, regStart = 0;
    Obs(int id) : id(id) {}
    void got(int o) {
        sim::Quiet q;
        calls++; out = o; at = sim::stamp();
        sim::event("observer %d got %d", id, o);
        SIM_CHECK(calls == 1, "observer-twice", "observer %d was notified %d times", id, calls);
        SIM_CHECK(!removed, "removed-observer-called", "observer %d was notified after its removal was confirmed", id);
    }
    virtual void resolve(const Val &v) throw() { SIM_CHECK(v.ok(), "torn-value", "observer saw a broken value"); got(v.v); sim::yield(); }
    virtual void resolve(const PException &e) throw() { got(excTag(*e)); sim::yield(); }
};
// how one wait ended: value, or tag of the exception
int waitOn(Future<Val> f, int ms) {
    try {
        const Val &v = ms < 0 ? f.wait() : f.wait(Timeout(ms));
        SIM_CHECK(v.ok(), "torn-value", "wait returned a broken value %d", v.v);
        return v.v;
    } catch (const Exception &e) { return excTag(e); }
}
}

// several promises of one future resolved, rejected and dropped by several threads
SCENARIO(promise_once, "C10", 3) {
    int resolvers = sim::param("resolvers", 1, 3), obsThreads = sim::param("observers", 1, 3);
    int cancels = sim::chance("canceller", 1, 4) ? 1 : 0;
    std::vector<std::unique_ptr<Obs>> all;
    std::set<int> attempted; bool anyResolve = false, canceled = false;
    {
        Future<Val> f;
        std::vector<std::unique_ptr<Promise<Val>>> ps;
        { sim::Quiet q; for (int i = 0; i < resolvers; i++) ps.emplace_back(new Promise<Val>(f.getPromise())); }
        int winner = 0;
        {
            Crew c;
            for (int i = 0; i < resolvers; i++) {
                int kind = sim::param("kind", 0, 4);
                c.go([&, i, kind] {
                    dwell();
                    Promise<Val> *p = ps[i].get();
                    if (kind <= 1) { { sim::Quiet q; attempted.insert(100 + i); anyResolve = true; } p->resolve(Val(100 + i)); }
                    else if (kind == 2) { { sim::Quiet q; attempted.insert(-1 - i); anyResolve = true; } p->reject(tagged(i)); }
                    else if (kind == 3) { Promise<Val> copy(*p); { sim::Quiet q; attempted.insert(200 + i); anyResolve = true; } copy.resolve(Val(200 + i)); }
                    if (kind != 4) {
                        SIM_CHECK(f.getState() != IPromiseControl::stateNotResolved, "not-resolved", "future is not resolved after resolve returned");
                        int w; try { const Val *v = f.tryGetValue(); w = v ? v->v : OTHER; } catch (const Exception &e) { w = excTag(e); }
                        sim::Quiet q; SIM_CHECK(!winner || winner == w, "second-resolution", "future held %d and later %d", winner, w); winner = w;
                    }
                    ps[i].reset();
                });
            }
            for (int i = 0; i < obsThreads; i++) {
                int n = sim::param("nobs", 1, 3), base = i * 10;
                c.go([&, n, base] {
                    for (int k = 0; k < n; k++) {
                        Obs *o; { sim::Quiet q; all.emplace_back(new Obs(base + k)); o = all.back().get(); o->regStart = sim::stamp(); o->registering = true; }
                        dwell();
                        f.addObserver(o);
                        { sim::Quiet q; o->registered = true; }
                        if (sim::chance("remove", 1, 3)) {
                            dwell();
                            if (f.removeObserver(o)) {
                                sim::Quiet q;
                                o->removed = true;
                                SIM_CHECK(o->calls == 0, "removed-observer-called", "removal of observer %d was confirmed after it was notified", o->id);
                            } else {
                                SIM_CHECK(sim::waitUntil([o] { return o->calls > 0; }, ~0ull), "observer-lost", "observer %d was not found in the list but nobody notified it", o->id);
                            }
                        }
                    }
                });
            }
            if (cancels) c.go([&] { dwell(); { sim::Quiet q; canceled = true; } f.cancel(); });
        }
        // what everybody saw agrees with the state of the future
        int fin = 0; bool res = f.getState() == IPromiseControl::stateResolved;
        SIM_CHECK(res == anyResolve, "state", "future resolved=%d but resolve called=%d", res, (int)anyResolve);
        if (res) {
            fin = waitOn(f, 0);
            SIM_CHECK(attempted.count(fin), "invented-value", "future holds %d which nobody resolved", fin);
            SIM_CHECK(!winner || winner == fin, "second-resolution", "future held %d and later %d", winner, fin);
        }
        for (auto &o : all) {
            if (o->removed || !o->calls) continue;
            if (o->out == CANCELED) SIM_CHECK(canceled || !anyResolve, "canceled", "observer %d was cancelled although the promise was resolved and nobody cancelled it", o->id);
            else SIM_CHECK(res && o->out == fin, "different-value", "observer %d got %d but the future holds %d", o->id, o->out, fin);
        }
    }
    // nothing holds the future any more: everybody must have been told
    sim::Quiet q;
    for (auto &o : all)
        if (!o->removed) SIM_CHECK(o->calls == 1, "observer-lost", "observer %d was notified %d times and never removed", o->id, o->calls);
}

// observers are told in the order in which they were registered, also those added while resolving
SCENARIO(promise_order, "C10", 1) {
    std::vector<int> told;
    struct O : Obs { std::vector<int> *told; O(int id, std::vector<int> *t) : Obs(id), told(t) {}
        virtual void resolve(const Val &v) throw() { { sim::Quiet q; told->push_back(id); } Obs::resolve(v); }
        virtual void resolve(const PException &e) throw() { { sim::Quiet q; told->push_back(id); } Obs::resolve(e); } };
    std::vector<std::unique_ptr<O>> all;
    Future<Val> f;
    { sim::Quiet q; all.reserve(100); }
    int n = sim::param("n", 1, 7), rem = sim::param("rem", 0, 7), late = sim::param("late", 0, 4);
    std::vector<int> expect;
    for (int i = 0; i < n; i++) { { sim::Quiet q; all.emplace_back(new O(i, &told)); if (i != rem) expect.push_back(i); } f.addObserver(all[i].get()); }
    if (rem < n) { bool r = f.removeObserver(all[rem].get()); SIM_CHECK(r, "remove", "registered observer was not found"); sim::Quiet q; all[rem]->removed = true; }
    {
        Promise<Val> p = f.getPromise();
        Crew c;
        c.go([&] { p.resolve(Val(5)); });
        c.go([&] { for (int i = 0; i < late; i++) { { sim::Quiet q; all.emplace_back(new O(n + i, &told)); expect.push_back(n + i); } f.addObserver(all.back().get()); } });
    }
    sim::Quiet q;
    SIM_CHECK(told.size() == expect.size(), "observer-lost", "%zu observers told of %zu", told.size(), expect.size());
    for (size_t i = 0; i < told.size(); i++) SIM_CHECK(told[i] == expect[i], "order", "observer %d told as number %zu, expected %d", told[i], i, expect[i]);
}

// waiting with and without timeout
SCENARIO(promise_wait, "C11", 3) {
    sim::enableFaults("sem_eintr");
    Future<Val> f;
    std::unique_ptr<Promise<Val>> p;
    { sim::Quiet q; p.reset(new Promise<Val>(f.getPromise())); }
    bool drop = sim::chance("drop", 1, 4), reject = sim::chance("reject", 1, 4);
    bool noisy = sim::coin("noisy");
    bool started = false; int expect = drop ? CANCELED : reject ? -1 - 7 : 55;
    uint64_t after = 1000 * sim::param("resolveAfter", 0, 6);
    {
        int n = sim::param("waiters", 1, 3);
        std::vector<Thread *> ths;
        Crew c;
        for (int i = 0; i < n; i++) {
            int ms = sim::param("ms", -1, 6);
            if (drop && ms < 0) ms = 3;      // after the promise is gone nobody tells later waiters
            c.go([&, ms] {
                dwell();
                uint64_t t0 = sim::now_us(); bool wasDone = f.getState() == IPromiseControl::stateResolved;
                int r = waitOn(f, ms);
                uint64_t t1 = sim::now_us();
                sim::event("wait ms=%d -> %d", ms, r);
                if (r == TIMEDOUT) {
                    SIM_CHECK(ms >= 0 && t1 - t0 + 1000 >= (uint64_t)ms * 1000, "early-timeout", "wait for %d ms timed out after %llu us", ms, (unsigned long long)(t1 - t0));
                    SIM_CHECK(!wasDone, "missed-resolution", "wait timed out although the future was resolved before it started");
                    sim::probe("wait_timeout");
                } else {
                    SIM_CHECK(started, "invented-value", "wait returned %d before anybody resolved the promise", r);
                    SIM_CHECK(r == expect, "wrong-value", "wait returned %d, expected %d", r, expect);
                }
            });
        }
        { sim::Quiet q; for (auto &t : c.th) ths.push_back(t.get()); }
        if (noisy) c.go([&] { for (int i = 0; i < 3; i++) { ths[sim::param("who", 0, n - 1)]->wakeUp(3); dwell(); } });
        c.go([&] {
            if (after) sim::sleep_us(after);
            { sim::Quiet q; started = true; }
            if (drop) p.reset(); else if (reject) p->reject(tagged(7)); else p->resolve(Val(55));
        });
    }
}

// FutureAutoCancel: when it is gone, observers do not run any more
SCENARIO(promise_autocancel, "C11", 1) {
    std::unique_ptr<Promise<Val>> p; bool gone = false; int calls = 0; bool rej = sim::coin("reject");
    Crew c;
    struct O : Future<Val>::IObserver { bool *gone; int *calls;
        void go() { SIM_CHECK(!*gone, "late-observer", "observer runs after the auto-cancel future is destroyed"); sim::yield(); sim::yield(); SIM_CHECK(!*gone, "late-observer", "observer still runs after the auto-cancel future is destroyed"); sim::Quiet q; ++*calls; }
        virtual void resolve(const Val &) throw() { go(); }
        virtual void resolve(const PException &) throw() { go(); } } o[2];
    o[0].gone = o[1].gone = &gone; o[0].calls = o[1].calls = &calls;
    bool ready = false;
    c.go([&] {
        {
            std::unique_ptr<FutureAutoCancel<Val>> f;
            { Future<Val> x; sim::Quiet q; p.reset(new Promise<Val>(x.getPromise())); f.reset(new FutureAutoCancel<Val>(x)); }
            f->addObserver(&o[0]); f->addObserver(&o[1]);
            { sim::Quiet q; ready = true; }
            dwell();
        }
        sim::Quiet q; gone = true;
    });
    c.go([&] { sim::waitUntil([&] { return ready; }, ~0ull); dwell(); if (rej) p->reject(tagged(1)); else p->resolve(Val(1)); p.reset(); });
    c.join();
    SIM_CHECK(calls == 2, "observer-lost", "%d of 2 observers notified", calls);
}

// random pipelines of then/onException/transform/isolate/operator>> against a model
namespace {
struct Model { bool isVal; int v; };   // v: value or tag
struct Spy : Obs { Spy() : Obs(99) {} };
}
SCENARIO(promise_chain, "C11", 2) {
    int n = sim::param("len", 1, 5);
    bool early = sim::coin("resolveFirst");
    int first = sim::param("first", 0, 2);      // 0 value 1 exception 2 drop
    Model m; m.isVal = first == 0; m.v = first == 0 ? 1 : first == 1 ? -1 - 3 : CANCELED;
    if (early && first == 2) first = 1, m.v = -1 - 3;
    int side = 0, sideExpect = 0;
    Spy spy;
    {
        Future<Val> f0;
        std::unique_ptr<Promise<Val>> p;
        { sim::Quiet q; p.reset(new Promise<Val>(f0.getPromise())); }
        Crew c;
        auto fire = [&] { if (first == 0) p->resolve(Val(1)); else if (first == 1) p->reject(tagged(3)); p.reset(); };
        if (early) fire(); else c.go([&] { dwell(); fire(); });
        Future<Val> f = f0;
        std::vector<Future<Val>> keep;
        if (!early && first == 2) { sim::Quiet q; keep.reserve(10); }
        bool racy = !early && first == 2;   // a dropped promise only tells those already attached: keep order fixed
        if (racy) { c.join(); n = 0; }
        for (int i = 0; i < n; i++) {
            int op = sim::param("op", 0, 9), a = i + 2;
            if (op == 0) { f = f.then([a](const Val &v) { return Val(v.v * 3 + a); }); if (m.isVal) m.v = m.v * 3 + a; }
            else if (op == 1) { f = f.then([a](const Val &v) -> Val { if (v.v) throw Tagged(a); return v; }); if (m.isVal) { if (m.v) { m.isVal = false; m.v = -1 - a; } } }
            else if (op == 2) { f = f.onException([a](const PException &e) { return Val(excTag(*e) * 2 - a); }); if (!m.isVal) { m.isVal = true; m.v = m.v * 2 - a; } }
            else if (op == 3) { Future<int> g = Future<int>::transform(f, [a](const Val &v) { return v.v + a; }); f = Future<Val>::transform(g); if (m.isVal) m.v += a; }
            else if (op == 4) { f = f.isolate(); }
            else if (op == 5) { f = f >> [a](const Val &v) { return Val(v.v - a); }; if (m.isVal) m.v -= a; }
            else if (op == 6) { f = f.then([a](const Val &v) { return Val(v.v + 7); }, [a](const PException &e) { return Val(a - excTag(*e)); }); if (m.isVal) m.v += 7; else { m.isVal = true; m.v = a - m.v; } }
            else if (op == 7) { f = f.thenCall([&side](const Val &v) { sim::Quiet q; side += v.v; }, [&side](const PException &) { sim::Quiet q; side += 1000; }); sideExpect += m.isVal ? m.v : 1000; }
            else if (op == 8) { f = f >> [a](const Val &v) -> Future<Val> { Future<Val> x; x.getPromise().resolve(Val(v.v ^ a)); return x; }; if (m.isVal) m.v ^= a; }
            else { Future<Val> x; Promise<Val> px = x.getPromise(); f.then(px); f = x; }
            if (sim::coin("pause")) dwell();
        }
        if (!racy) {
            f.addObserver(&spy);
            int r = waitOn(f, -1);
            SIM_CHECK(r == m.v, "wrong-value", "pipeline ended with %d, expected %d", r, m.v);
        }
        c.join();
        if (!racy) {
            sim::Quiet q;
            SIM_CHECK(spy.calls == 1 && spy.out == m.v, "wrong-value", "observer of the pipeline called %d times with %d, expected %d", spy.calls, spy.out, m.v);
            SIM_CHECK(side == sideExpect, "side-call", "thenCall handlers produced %d, expected %d", side, sideExpect);
        }
    }
}

// operator &&: both results, or the first rejection
SCENARIO(promise_both, "C11", 1.5) {
    int ka = sim::param("a", 0, 1), kb = sim::param("b", 0, 1);
    if (sim::coin("heap")) IPromiseControl::setAllocator(&StdAlloc::getInstance());
    {
        Future<int> fa, fb;
        std::unique_ptr<Promise<int>> pa, pb;
        { sim::Quiet q; pa.reset(new Promise<int>(fa.getPromise())); pb.reset(new Promise<int>(fb.getPromise())); }
        Crew c;
        c.go([&] { dwell(); if (ka) pa->reject(tagged(1)); else pa->resolve(10); { sim::Quiet q; } pa.reset(); });
        c.go([&] { dwell(); if (kb) pb->reject(tagged(2)); else pb->resolve(20); pb.reset(); });
        if (sim::coin("late")) dwell();
        Future<VariantPair> f = fa && fb;
        int r = 0;
        try {
            const VariantPair &v = f.wait();
            int x = v.first.getValue<int>(), y = v.second.getValue<int>();
            SIM_CHECK(x == 10 && y == 20, "wrong-value", "pair (%d,%d)", x, y);
        } catch (const Exception &e) { r = excTag(e); }
        SIM_CHECK((ka || kb) == (r != 0), "wrong-value", "a rejected=%d b rejected=%d but the pair ended with %d", ka, kb, r);
        if (r) SIM_CHECK((ka && r == -2) || (kb && r == -3), "wrong-value", "pair rejected with %d", r);
        c.join();
    }
}

// futures without a value: pipelines of every operation they have against a model
SCENARIO(promise_void, "C11", 1.5) {
    int n = sim::param("len", 0, 5), first = sim::param("first", 0, 4);
    bool early = sim::coin("resolveFirst");
    // 0 resolve, 1 reject, 2 callAndResolve(fn), 3 callAndResolve(fn,arg), 4 callAndResolve throwing
    int tag = first == 1 ? -1 - 3 : first == 4 ? -1 - 4 : 0, fired = 0, side = 0, sideExpect = 0;
    struct VO : Future<void>::IObserver { int calls = 0, out = 0;
        virtual void resolve() throw() { sim::Quiet q; calls++; out = 0; }
        virtual void resolve(const PException &e) throw() { sim::Quiet q; calls++; out = excTag(*e); } } spy;
    {
        Future<void> f0;
        std::unique_ptr<Promise<void>> p;
        { sim::Quiet q; p.reset(new Promise<void>(f0.getPromise())); }
        Crew c;
        auto fire = [&] {
            if (first == 0) p->resolve();
            else if (first == 1) p->reject(tagged(3));
            else if (first == 2) p->callAndResolve([&fired] { fired += 1; });
            else if (first == 3) p->callAndResolve([&fired](int x) { fired += x; }, 7);
            else p->callAndResolve([&fired](int x) { fired += x; throw Tagged(4); }, 9);
            p.reset();
        };
        if (early) fire(); else c.go([&] { dwell(); fire(); });
        Future<void> f = f0;
        for (int i = 0; i < n; i++) {
            int op = sim::param("op", 0, 8), a = i + 20;
            if (op == 0) { f = f.then([&side] { sim::Quiet q; side++; }); if (!tag) sideExpect++; }
            else if (op == 1) { f = f.then([a] { throw Tagged(a); }); if (!tag) tag = -1 - a; }
            else if (op == 2) { f = f.then([&side] { sim::Quiet q; side += 3; }, [](const PException &) { return Void(); }); if (!tag) sideExpect += 3; tag = 0; }
            else if (op == 3) { f = f.thenCall([&side] { sim::Quiet q; side += 10; }); if (!tag) sideExpect += 10; }
            else if (op == 4) { f = f.thenCall([&side] { sim::Quiet q; side += 100; }, [&side](const PException &) { sim::Quiet q; side += 1000; }); sideExpect += tag ? 1000 : 100; }
            else if (op == 5) { Future<void> g; f.then(g.getPromise()); f = g; }
            else if (op == 6) { Future<int> g = f >> [a] { return a; }; f = Future<void>::transform(g); }
            else if (op == 7) { f = f >> [&side, a] { { sim::Quiet q; side += 5; } if (a == 22) throw Tagged(a); }; if (!tag) { sideExpect += 5; if (a == 22) tag = -1 - a; } }
            else { f = f >> futureCatch([&side](const PException &e) { sim::Quiet q; side += 7; }); if (tag) sideExpect += 7, tag = 0; }
            if (sim::coin("pause")) dwell();
        }
        f.addObserver(&spy);
        int r = 0;
        try { if (sim::coin("tm")) f.wait(Timeout(naturalNull)); else f.wait(Timeout()); } catch (const Exception &e) { r = excTag(e); }
        SIM_CHECK(r == tag, "wrong-value", "pipeline without value ended with %d, expected %d", r, tag);
        c.join();
        sim::Quiet q;
        int want = first == 2 ? 1 : first == 3 ? 7 : first == 4 ? 9 : 0;
        SIM_CHECK(fired == want, "call-resolve", "function given to callAndResolve left %d, expected %d", fired, want);
        SIM_CHECK(spy.calls == 1 && spy.out == tag, "wrong-value", "observer without value called %d times with %d, expected %d", spy.calls, spy.out, tag);
        SIM_CHECK(side == sideExpect, "side-call", "handlers produced %d, expected %d", side, sideExpect);
    }
}

// operator ||: the first result, whatever it is
SCENARIO(promise_any, "C11", 1.5) {
    int ka = sim::param("a", 0, 2), kb = sim::param("b", 0, 2);   // 0 value 1 exception 2 dropped
    if (ka == 2 && kb == 2) kb = 0;
    bool aDone = false, bDone = false; int got = 0;
    {
        Future<int> fa; Future<Val> fb;
        std::unique_ptr<Promise<int>> pa; std::unique_ptr<Promise<Val>> pb;
        { sim::Quiet q; pa.reset(new Promise<int>(fa.getPromise())); pb.reset(new Promise<Val>(fb.getPromise())); }
        Future<Variant> f = fa || fb;
        bool aFirst = false, bFirst = false;     // finished before the other one began
        bool aBegan = false, bBegan = false;
        Crew c;
        c.go([&] { dwell(); { sim::Quiet q; aBegan = true; aFirst = !bBegan; } bool alone = false;
                   if (ka == 1) pa->reject(tagged(1)); else if (ka == 0) pa->resolve(10); pa.reset();
                   { sim::Quiet q; alone = !bBegan; aFirst = aFirst && alone; aDone = true; } });
        c.go([&] { dwell(); { sim::Quiet q; bBegan = true; bFirst = !aBegan; } bool alone = false;
                   if (kb == 1) pb->reject(tagged(2)); else if (kb == 0) pb->resolve(Val(20)); pb.reset();
                   { sim::Quiet q; alone = !aBegan; bFirst = bFirst && alone; bDone = true; } });
        try {
            const Variant &v = f.wait();
            SIM_CHECK(aDone || bDone || aBegan || bBegan, "invented-value", "result before any of both was resolved");
            if (v.getType() == TypeInfo(typeid(int))) got = v.getValue<int>(); else got = v.getValue<Val>().v;
        } catch (const Exception &e) { got = excTag(e); }
        c.join();
        int ra = ka == 0 ? 10 : ka == 1 ? -2 : CANCELED, rb = kb == 0 ? 20 : kb == 1 ? -3 : CANCELED;
        SIM_CHECK(got == ra || got == rb, "wrong-value", "either of %d and %d gave %d", ra, rb, got);
        if (aFirst) SIM_CHECK(got == ra, "not-first", "the first was done (%d) before the other began but the result is %d", ra, got);
        if (bFirst) SIM_CHECK(got == rb, "not-first", "the second was done (%d) before the other began but the result is %d", rb, got);
    }
}

// all the ways in which a promise can be resolved, and what can be asked about the future
SCENARIO(promise_ways, "C10", 1.5) {
    Future<Val> empty(null);
    SIM_CHECK(!empty.isInitialized() && !empty.hasPromise(), "state", "empty reference claims to have something");
    SIM_CHECK(empty.cancel() == IPromiseControl::stateResolved, "state", "cancel of an empty reference");
    Future<Val> f;
    SIM_CHECK(f.isInitialized() && !f.hasPromise(), "state", "new future claims to have a promise");
    SIM_CHECK(f.getState() == IPromiseControl::stateNotResolved && !f.tryGetValue() && !f.tryGetValueNoThrow(), "state", "new future has a value");
    std::unique_ptr<Promise<Val>> p;
    { sim::Quiet q; p.reset(new Promise<Val>(f.getPromise())); }
    SIM_CHECK(f.hasPromise(), "state", "promise was taken but the future doesn't know");
    SIM_CHECK(p->getControlInterface() == f.getControlInterface(), "state", "promise and future have different control");
    Obs before(1), after(2);
    f.addObserver(&before);
    if (sim::coin("cancel")) {      // those waiting are told, the promise can still be resolved
        f.cancel(Tagged(9));
        SIM_CHECK(before.calls == 1 && before.out == -10, "cancel", "cancelled observer called %d times with %d", before.calls, before.out);
        SIM_CHECK(f.getState() == IPromiseControl::stateNotResolved, "cancel", "cancelled future claims to be resolved");
    }
    int way = sim::param("way", 0, 9), want = 0;
    Future<Val> inner;
    struct Thrower { Val operator()(int x) const { throw Tagged(x); } };
    Crew c;
    c.go([&] {
        dwell();
        if (way == 0) { *p = Val(1); want = 1; }
        else if (way == 1) { p->callAndResolve([] { return Val(2); }); want = 2; }
        else if (way == 2) { p->callAndResolve([](int x) { return Val(x + 1); }, 5); want = 6; }
        else if (way == 3) { p->callAndResolve(Thrower(), 6); want = -7; }
        else if (way == 4) { p->callAndResolve([&inner] { return inner; }); Promise<Val> ip = inner.getPromise(); dwell();
                             SIM_CHECK(f.getState() == IPromiseControl::stateNotResolved, "early", "resolved by a future which has no value yet"); ip.resolve(Val(7)); want = 7; }
        else if (way == 5) { try { throw Tagged(8); } catch (...) { p->rejectInCatch(); } want = -9; }
        else if (way == 6) { try { throw std::string("x"); } catch (...) { p->rejectInCatch(); } want = OTHER; }
        else if (way == 7) { p->reject(Tagged(11)); want = -12; }
        else if (way == 8) { Promise<Val> ip = inner.getPromise(); ip.reject(Tagged(12)); p->resolve(inner); want = -13; }
        else { p->callAndResolve([]() -> Val { throw std::runtime_error("std"); }); want = OTHER; }
        SIM_CHECK(f.getState() != IPromiseControl::stateNotResolved, "not-resolved", "way %d left the future unresolved", way);
        if (sim::coin("again")) { p->resolve(Val(99)); p->reject(Tagged(99)); }
        p.reset();
    });
    struct Sleeper : ISleepingObject { int n = 0; natural reason = 77; virtual void wakeUp(natural r) throw() { sim::Quiet q; n++; reason = r; } } sl, sl2;
    if (sim::coin("sleeper")) {
        f.thenWake(sl, 5, 6); f.thenWake(sl2);
        c.join();
        // both were attached while the promise lived or after its resolution
        SIM_CHECK(sl.n == 1 && sl.reason == (natural)(want >= 0 ? 5 : 6), "wake", "sleeper woken %d times, reason %d", sl.n, (int)sl.reason);
        SIM_CHECK(sl2.n == 1 && sl2.reason == (natural)(want >= 0 ? 0 : 1), "wake", "sleeper woken %d times, reason %d", sl2.n, (int)sl2.reason);
    }
    c.join();
    f.addObserver(&after);
    SIM_CHECK(after.calls == 1 && after.out == want, "wrong-value", "way %d: observer called %d times with %d, expected %d", way, after.calls, after.out, want);
    SIM_CHECK(before.calls == 1 && (before.out == want || before.out == -10), "wrong-value", "way %d: early observer called %d times with %d, expected %d", way, before.calls, before.out, want);
    const Val *v = f.tryGetValueNoThrow();
    SIM_CHECK(want >= 0 ? v && v->v == want : !v, "wrong-value", "tryGetValueNoThrow gives %d", v ? v->v : -1);
    SIM_CHECK(f.hasPromise() && f.getState() == IPromiseControl::stateResolved, "state", "resolved future in state %d", (int)f.getState());
    SIM_CHECK(f.cancel() == IPromiseControl::stateResolved, "state", "cancel of a resolved future");
    SIM_CHECK(f.getControlInterface()->resolved(), "state", "control of a resolved future");
    Obs last(3);
    bool t = f.tryObserver(&last);
    SIM_CHECK(t && last.calls == 1 && last.out == want, "wrong-value", "tryObserver %d calls %d value %d", t, last.calls, last.out);
    Future<Val> g = f; g.clear();
    SIM_CHECK(g.getState() == IPromiseControl::stateNotResolved && waitOn(f, 0) == want, "clear", "clear of one reference touched the other one");
}
