// waiting for several network resources at once: waiting objects, event listeners, selectors
#include "common.h"
#include "io.h"
#include <string>
#include <exception>
#include <map>
#include <set>
#include <algorithm>
#include "lightspeed/base/streams/netio.tcc"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/exceptions/netExceptions.h"
#include "lightspeed/base/exceptions/fileExceptions.h"
#include "lightspeed/base/exceptions/stdexception.h"
#include "lightspeed/base/exceptions/iterator.h"
#include "lightspeed/base/exceptions/systemException.h"
#include "lightspeed/base/linux/epollSelect.h"
#include "lightspeed/base/linux/linuxFdSelect.h"
#include "lightspeed/base/framework/app.h"
#include <poll.h>
#include <unistd.h>

static INetworkServices &svc() { return INetworkServices::getNetServices(); }
struct Fds { int n; Fds() : n(sim::openFds()) {} void check(const char *w) { int m = sim::openFds(); SIM_CHECK(m == n, "fd-leak", "%s: %d descriptors left open:%s", w, m - n, sim::openFdNames().c_str()); } };
static uint64_t nowMs() { return sim::now_us() / 1000; }
struct TestApp : public App {
    virtual integer start(const Args &) { return 0; }
    virtual void onThreadException(const Exception &e) throw() { sim::Quiet q; errors++; sim::event("application error %s", e.getMessage().getUtf8().data()); }
    int errors = 0;
};
static void link() {
    static const int lat[][2] = {{0, 0}, {10, 50}, {100, 3000}, {20000, 60000}};
    int k = sim::param("lat", 0, 3); sim::netLatency(lat[k][0], lat[k][1]); sim::netBuffer(4096); sim::pipeCapacity(4096);
}
// a connection; the near end is watched, the far end makes the traffic
struct Link { PNetworkStream a, b; bool open = true; };
static void pairUp(std::vector<Link> &v, int n, int port) {
    PNetworkStreamSource ls = svc().createStreamSource(svc().createAddr(ConstStrA("0"), port), StreamOpenMode::passive, naturalNull, naturalNull, naturalNull);
    for (int i = 0; i < n; i++) {
        Link l; PNetworkStreamSource cs = svc().createStreamSource(svc().createAddr(ConstStrA("server"), port), StreamOpenMode::active, 1, naturalNull, naturalNull);
        PNetworkStream c = cs->getNext(), s = ls->getNext(); l.a = s.getMT(); l.b = c.getMT(); sim::Quiet q; v.push_back(l);
    }
}
// far ends send and close at random; in the end all of them are closed
static void traffic(std::vector<Link> *v, int ops, bool closeAll) {
    for (int i = 0; i < ops; i++) {
        int k = sim::param("tk", 0, (int)v->size() - 1); Link &l = (*v)[k];
        switch (sim::param("top", 0, 3)) {
        case 0: case 1: if (l.open) try { l.b->writeAll("xyz", sim::param("tlen", 1, 3)); } catch (Exception &) {} break;
        case 2: if (l.open && sim::chance("tclose", 1, 3)) { l.b = nil; l.open = false; } break;
        case 3: sim::sleep_us(1000 * sim::param("tsleep", 0, 60)); break;
        }
        sim::yield();
    }
    if (closeAll) for (auto &l : *v) { l.b = nil; l.open = false; }
}
// what may be the reason of an event on a stream which only this thread reads
static bool ready(INetworkStream *s, natural ev) { struct WH {}; natural w = s->wait(ev, 0); return w != 0; }

SCENARIO(sel_waitobj, "C20", 3) {
    sim::enableFaults("poll_eintr,io_eintr,net_short"); link(); Fds fds;
    {
        int n = sim::param("n", 1, 4), wakers = sim::param("wakers", 0, 2), ops = sim::param("ops", 1, 14);
        std::vector<Link> v; pairUp(v, n, 4000);
        struct M { natural mask; uint64_t t0; natural tm; bool used = false; }; std::map<int, M> model;   // registered resources
        std::set<int> posted; int nposted = 0, wakes = 0;
        PNetworkWaitingObject wo = svc().createWaitingObject(); INetworkWaitingObject *W = wo.get();
        Crew crew;
        int tops = sim::param("tops", 0, 10);
        crew.go([&] { traffic(&v, tops, true); });
        for (int w = 0; w < wakers; w++) { int cnt = sim::param("wcnt", 1, 4); crew.go([&, w, cnt] { for (int i = 0; i < cnt; i++) { int r = 100 + w * 10 + i; { sim::Quiet q; posted.insert(r); nposted++; } W->wakeUp(r); if (sim::coin("wsleep")) sim::sleep_us(1000 * sim::param("wms", 0, 40)); } }); }
        std::map<INetworkResource *, int> idx; { sim::Quiet q; for (int i = 0; i < n; i++) idx[static_cast<INetworkResource *>(v[i].a.get())] = i; }
        bool peeked = false; NetworkWaitingObjectItem pk;
        auto judge = [&](const NetworkWaitingObjectItem &ev, bool take) {
            uint64_t now = nowMs(); int i = -1; M m;
            {
                sim::Quiet q;
                if (peeked) SIM_CHECK(pk.rsrc == ev.rsrc && pk.event == ev.event, "peek-differs", "peek() gave another event than the following call (resource %d -> %d, event %d -> %d)", pk.rsrc ? idx[pk.rsrc] : -1, ev.rsrc ? idx[ev.rsrc] : -1, (int)pk.event, (int)ev.event);
                if (!ev.rsrc) { SIM_CHECK(posted.count((int)ev.event), "wrong-reason", "woken with reason %d, which nobody posted", (int)ev.event); if (take) { wakes++; SIM_CHECK(wakes <= nposted, "phantom-wake", "woken %d times, wakeUp was called only %d times", wakes, nposted); peeked = false; } else { peeked = true; pk = ev; } return; }
                auto f = idx.find(ev.rsrc); SIM_CHECK(f != idx.end(), "wrong-resource", "event of an unknown resource");
                i = f->second; auto r = model.find(i); SIM_CHECK(r != model.end(), "not-registered", "event %d of connection %d which is not registered", (int)ev.event, i); m = r->second;
            }
            if (ev.event == 0) SIM_CHECK(m.tm != naturalNull && now + 1 >= m.t0 + m.tm, "early-timeout", "connection %d timed out after %d ms of %d", i, (int)(now - m.t0), (int)m.tm);
            else { SIM_CHECK(ev.event & (m.mask | 1), "wrong-event", "connection %d is watched for %d, event is %d", i, (int)m.mask, (int)ev.event); SIM_CHECK(m.used || ready(v[i].a.get(), ev.event), "not-ready", "event %d of connection %d, which is not ready", (int)ev.event, i); }
            sim::Quiet q; if (take) { model.erase(i); peeked = false; } else { peeked = true; pk = ev; }
        };
        for (int o = 0; o < ops; o++) {
            bool pend; { sim::Quiet q; SIM_CHECK(W->hasItems() == !model.empty(), "has-items", "hasItems() is %d with %d registered resources", W->hasItems(), (int)model.size()); pend = !model.empty(); }
            int i = sim::param("i", 0, n - 1);
            switch (sim::param("op", 0, 6)) {
            case 0: case 1: {
                natural mask = sim::chance("out", 1, 4) ? sim::param("mask", 2, 3) : 1, tm = sim::chance("tm", 1, 2) ? (natural)sim::param("ms", 0, 50) : naturalNull;
                { sim::Quiet q; M m; m.mask = mask; m.t0 = nowMs(); m.tm = tm; if (peeked && pk.rsrc && idx[pk.rsrc] == i) peeked = false; model[i] = m; }
                W->add(v[i].a.get(), mask, tm); break; }
            case 2: W->remove(v[i].a.get()); { sim::Quiet q; model.erase(i); if (peeked && pk.rsrc && idx[pk.rsrc] == i) peeked = false; } break;
            case 3: if (pend) judge(W->getNext(), true); break;
            case 4: if (pend) judge(W->peek(), false); break;
            case 5: { natural ms = sim::param("sms", 0, 80); uint64_t t0 = nowMs(); bool r = W->sleep(ms); uint64_t t1 = nowMs(); if (r) SIM_CHECK(t1 + 1 >= t0 + ms, "early-wake", "sleep(%d) claims to be complete after %d ms", (int)ms, (int)(t1 - t0)); if (r) SIM_CHECK(!peeked, "sleep-over-event", "sleep() slept while an event was waiting"); if (!r) judge(W->getNext(), true); break; }
            case 6: { if (!(peeked && pk.rsrc && idx[pk.rsrc] == i) && v[i].a->wait(1, 0)) { char b[10]; { sim::Quiet q; if (model.count(i)) model[i].used = true; } try { v[i].a->read(b, 10); } catch (Exception &) {} } break; } // an event may have been recorded before
            }
        }
        // every connection ends, so every resource gets its event
        for (int k = 0; ; k++) {
            { sim::Quiet q; bool h = W->hasItems(); SIM_CHECK(h == !model.empty(), "has-items", "hasItems() is %d with %d registered resources", h, (int)model.size()); if (!h) break; SIM_CHECK(k < 40, "never-ends", "resources stay registered after %d events", k); }
            judge(W->getNext(), true);
        }
        crew.join();
        // a wake up posted now must be seen
        { sim::Quiet q; posted.insert(999); nposted++; }
        W->wakeUp(999);
        for (int k = 0; k < 12; k++) { const NetworkWaitingObjectItem &ev = W->getNext(); judge(ev, true); if (ev.rsrc == 0 && ev.event == 999) break; SIM_CHECK(k < 10, "wake-lost", "the last wakeUp is not delivered"); }
    }
    fds.check("all dropped");
}
// the selector behind the listener, against a model: descriptors are pipes
SCENARIO(sel_epoll, "C20", 3) {
    sim::enableFaults("poll_eintr,io_eintr,epoll_fail,open_fail"); sim::pipeCapacity(4096); Fds fds;
    int n = sim::param("n", 1, 6), ops = sim::param("ops", 1, 24), wakers = sim::param("wakers", 0, 2);
    struct P { int r, w; }; std::vector<P> p;
    struct M { natural mask; uint64_t dead; void *data; }; std::map<int, M> model; std::set<int> posted; int nposted = 0, wakes = 0; long serial = 0;
    for (int i = 0; i < n; i++) { int f[2]; if (pipe(f)) { for (auto &x : p) { close(x.r); close(x.w); } return; } sim::Quiet q; P x = {f[0], f[1]}; p.push_back(x); }
    Fds fds2; EPollSelect *ep = nullptr;
    try { ep = new EPollSelect; } catch (const Exception &) { fds2.check("creation failed"); for (auto &x : p) { close(x.r); close(x.w); } return; }
    {
        Crew crew;
        for (int w = 0; w < wakers; w++) { int cnt = sim::param("wcnt", 1, 4); crew.go([&, w, cnt] { for (int i = 0; i < cnt; i++) { int r = 100 + w * 10 + i; { sim::Quiet q; posted.insert(r); nposted++; } ep->wakeUp(r); if (sim::coin("wsleep")) sim::sleep_us(1000 * sim::param("wms", 0, 40)); } }); }
        auto find = [&](int fd) { for (size_t i = 0; i < p.size(); i++) if (p[i].r == fd) return (int)i; return -1; };
        // returns false on timeout
        auto wait = [&](natural ms) {
            EPollSelect::Result res; uint64_t t0 = nowMs(); EPollSelect::WaitStatus st = ep->wait(ms == naturalNull ? Timeout(nil) : Timeout(ms), res); uint64_t now = nowMs();
            if (st == EPollSelect::waitTimeout) { SIM_CHECK(ms != naturalNull && now + 1 >= t0 + ms, "early-timeout", "wait(%d) timed out after %d ms", (int)ms, (int)(now - t0)); return 0; }
            if (st == EPollSelect::waitWakeUp) { sim::Quiet q; SIM_CHECK(posted.count((int)res.reason), "wrong-reason", "woken with reason %d, which nobody posted", (int)res.reason); wakes++; SIM_CHECK(wakes <= nposted, "phantom-wake", "woken %d times, wakeUp was called only %d times", wakes, nposted); return 1; }
            SIM_CHECK(st == EPollSelect::waitEvent, "wrong-status", "wait returned %d", (int)st);
            int i = find(res.fd); M m; { sim::Quiet q; auto f = model.find(res.fd); SIM_CHECK(i >= 0 && f != model.end(), "not-registered", "event %d of descriptor %d which is not registered", (int)res.flags, (int)res.fd); m = f->second; }
            SIM_CHECK(res.userData == m.data, "wrong-data", "event of descriptor %d came with data of another one", (int)res.fd);
            if (!res.flags) {
                SIM_CHECK(m.dead != ~0ull && now + 1 >= m.dead, "early-timeout", "descriptor %d timed out %d ms before its time", (int)res.fd, (int)(m.dead - now));
                sim::Quiet q; for (auto &x : model) SIM_CHECK(x.second.dead == ~0ull || x.second.dead + 1 >= m.dead, "timeout-order", "descriptor %d timed out before %d, whose time came %d ms earlier", (int)res.fd, x.first, (int)(m.dead - x.second.dead));
            } else {
                struct pollfd pf = {res.fd, POLLIN, 0}; sim::Quiet q; int k = poll(&pf, 1, 0);
                SIM_CHECK(k == 1 && (res.flags & m.mask), "not-ready", "descriptor %d: event %d (watched for %d), poll says %d", (int)res.fd, (int)res.flags, (int)m.mask, pf.revents);
            }
            sim::Quiet q; model.erase(res.fd); return 2;
        };
        for (int o = 0; o < ops; o++) {
            int i = sim::param("i", 0, n - 1);
            switch (sim::param("op", 0, 5)) {
            case 0: case 1: {
                natural ms = sim::chance("tm", 2, 3) ? (natural)sim::param("ms", 0, 200) : naturalNull; void *d = (void *)(++serial * 16);
                M m; Timeout tmo; { sim::Quiet q; m.mask = 1; m.data = d; m.dead = ms == naturalNull ? ~0ull : nowMs() + ms; if (ms != naturalNull) tmo = Timeout(ms); }
                try { ep->set(p[i].r, 1, tmo, d); sim::Quiet q; model[p[i].r] = m; }
                catch (const Exception &) { SIM_CHECK(sim::faultCount("epoll_fail"), "spurious-error", "set() failed"); SIM_CHECK(ep->getUserData(p[i].r) == 0, "half-set", "descriptor is registered although set() failed"); sim::Quiet q; model.erase(p[i].r); }
                break; }
            case 2: ep->unset(p[i].r); { sim::Quiet q; model.erase(p[i].r); } SIM_CHECK(ep->getUserData(p[i].r) == 0, "half-set", "user data stay after unset()"); break;
            case 3: wait(sim::param("wt", 0, 80)); break;
            case 4: { struct pollfd pf = {p[i].r, POLLIN, 0}; bool full; { sim::Quiet q; full = poll(&pf, 1, 0) == 1; } char b[8]; if (full) { if (read(p[i].r, b, 8)) {} } else if (write(p[i].w, "ab", 1 + sim::coin("two"))) {} break; }
            case 5: if (sim::chance("reopen", 1, 3)) { ep->unset(p[i].r); { sim::Quiet q; model.erase(p[i].r); } close(p[i].r); close(p[i].w); int f[2]; while (pipe(f)) {} p[i].r = f[0]; p[i].w = f[1]; } else sim::sleep_us(1000 * sim::param("sl", 0, 100)); break;
            }
        }
        // every timeout comes, every ready descriptor is reported
        for (int k = 0; k < 60; k++) {
            bool expect; { sim::Quiet q; expect = false; for (auto &x : model) { struct pollfd pf = {x.first, POLLIN, 0}; if (x.second.dead != ~0ull || poll(&pf, 1, 0) == 1) expect = true; } }
            if (!expect) break;
            wait(naturalNull); SIM_CHECK(k < 50, "never-ends", "descriptors stay registered after %d events", k);
        }
        crew.join();
        { sim::Quiet q; posted.insert(999); nposted++; } ep->wakeUp(999);
        { int w0; do { w0 = wakes; wait(naturalNull); } while (wakes == w0); }
        struct CB : EPollSelect::ICancelAllCb { std::map<int, M> *m; virtual void operator()(int fd, void *d) const { sim::Quiet q; auto f = m->find(fd); SIM_CHECK(f != m->end() && f->second.data == d, "not-registered", "cancelAll() reported descriptor %d which is not registered or with other data", fd); m->erase(f); } } cb; cb.m = &model;
        if (sim::coin("cancel")) { ep->cancelAllVt(cb); sim::Quiet q; SIM_CHECK(model.empty(), "lost-event", "cancelAll() left out %d descriptors", (int)model.size()); }
    }
    delete ep;
    for (auto &x : p) { close(x.r); close(x.w); }
    fds.check("all dropped");
}
// observers of the listener
struct Listen {
    struct Obs;
    struct Ack : ISleepingObject { int n = 0; bool *gone; virtual void wakeUp(natural) throw() { sim::Quiet q; n++; SIM_CHECK(n == 1, "notified-twice", "completion of a request was reported %d times", n); } };
    PNetworkEventListener l; INetworkEventListener *raw = nullptr; std::vector<std::unique_ptr<Ack>> acks; std::vector<int> fds; TestApp app; bool destroyed = false; bool mayLose() const { return app.errors != 0; }
    struct Add { natural mask; uint64_t t0; natural tm; };
    struct Obs : ISleepingObject {
        Listen *o; INetworkResource *r; int id, fd; std::vector<Add> adds; int credit = 0, fired = 0, sinceAdd = 0, left = 0; std::function<void(natural)> then; bool maySleep() const { if (!then) return !(adds.back().mask & 3); for (auto &a : adds) if (!(a.mask & 3)) return true; return false; }
        virtual void wakeUp(natural ev) throw() {
            std::function<void(natural)> f;
            {
                sim::Quiet q; uint64_t now = nowMs();
                sim::event("observer %d event %d", id, (int)ev);
                SIM_CHECK(!o->destroyed, "called-after-end", "observer %d called after the listener was destroyed", id);
                SIM_CHECK(credit > 0, "not-registered", "observer %d called with event %d, but it is not registered", id, (int)ev);
                bool good = false; for (auto &a : adds) { if (ev == 0 ? a.tm != naturalNull && now + 1 >= a.t0 + a.tm : (ev & a.mask) != 0) good = true; }
                SIM_CHECK(good, ev ? "wrong-event" : "early-timeout", "observer %d called with event %d, registered for %d with timeout %d, %d ms ago", id, (int)ev, (int)adds.back().mask, (int)adds.back().tm, (int)(now - adds.back().t0));
                if (ev && fd >= 0) { struct pollfd pf = {fd, (short)((ev & 1 ? POLLIN : 0) | (ev & 2 ? POLLOUT : 0)), 0}; SIM_CHECK(poll(&pf, 1, 0) == 1, "not-ready", "observer %d called with event %d, which did not happen", id, (int)ev); }
                credit--; fired++; sinceAdd++; f = then;
            }
            if (f) f(ev);
        }
    };
    Ack *ack() { sim::Quiet q; acks.emplace_back(new Ack); return acks.back().get(); }
    void add(Obs *x, natural mask, natural tm, Ack *a = nullptr) {
        { sim::Quiet q; Add d = {mask ? mask : x->r->getDefaultWait(), nowMs(), tm}; x->adds.push_back(d); x->credit++; x->sinceAdd = 0; }
        // in the listener's thread a failure is thrown; elsewhere it is reported to the application
        try { raw->add(x->r, x, mask, tm, a); } catch (const Exception &) { sim::Quiet q; app.errors++; x->credit--; if (a) a->n = 1; }
    }
    void remove(Obs *x, Ack *a) { raw->remove(x->r, x, a); }
    static void wait(Ack *a) { sim::waitUntil([a] { return a->n > 0; }, ~0ull); }
};
SCENARIO(sel_listener, "C20", 4) {
    sim::enableFaults("poll_eintr,io_eintr,net_short,open_fail,epoll_fail"); link(); Fds fds;
    {
        Listen L; std::vector<Link> v; int n = sim::param("n", 1, 3);
        try { pairUp(v, n, 4000); } catch (const Exception &) { return; }
        try { L.l = svc().createEventListener(); L.l = L.l.getMT(); L.raw = L.l.get(); } catch (const Exception &) { v.clear(); fds.check("creation failed"); return; }
        { sim::Quiet q; for (auto &x : v) L.fds.push_back(x.a->getIfc<INetworkSocket>().getSocket(0)); }
        std::vector<Listen::Obs *> objs; Listen *pl = &L; int ids = 0;
        auto make = [&](int i) { sim::Quiet q; auto x = new Listen::Obs; x->o = pl; x->id = ids++; x->r = v[i].a.get(); x->fd = pl->fds[i]; return x; };
        auto tmo = [] { return sim::chance("tm", 1, 2) ? (natural)sim::param("ms", 0, 60) : naturalNull; };
        auto msk = [] { return sim::chance("out", 1, 5) ? (natural)sim::param("mask", 2, 7) : sim::coin("dflt") ? (natural)0 : (natural)1; };
        // observers living in the listener's thread: they register again, remove and delete each other
        std::vector<Listen::Obs *> inner; int nin = sim::param("nin", 0, 3), budget = sim::param("again", 0, 3); bool armed = false;
        for (int k = 0; k < nin; k++) { Listen::Obs *x = make(sim::param("ri", 0, n - 1)); { sim::Quiet q; inner.push_back(x); } }
        for (auto x : inner) x->then = [&, x](natural) {
            switch (sim::param("then", 0, 2)) {
            case 0: break;
            case 1: if (budget > 0) { budget--; pl->add(x, msk(), tmo(), pl->ack()); } break;
            case 2: { Listen::Obs *y = inner[sim::param("other", 0, nin - 1)]; if (!armed || !y || y == x) break; Listen::Ack *a = pl->ack(); pl->remove(y, a); SIM_CHECK(a->n == 1, "no-completion", "removing in the listener's thread has not completed"); sim::Quiet q; for (auto &z : inner) if (z == y) z = nullptr; delete y; break; }
            }
        };
        for (auto x : inner) { natural m = msk(), t = tmo(); pl->add(x, m, t, pl->ack()); }
        { sim::Quiet q; armed = true; }
        Crew crew; int tops = sim::param("tops", 0, 8), thr = sim::param("thr", 0, 2); bool drain = sim::coin("drain");
        crew.go([&] { traffic(&v, tops, drain); });
        for (int t = 0; t < thr; t++) { int ops = sim::param("ops", 1, 8); crew.go([&, ops] {
            std::vector<Listen::Obs *> own;
            for (int o = 0; o < ops; o++) {
                int k = own.empty() ? -1 : sim::param("k", -1, (int)own.size() - 1);
                if (k < 0) { Listen::Obs *x = make(sim::param("ri", 0, n - 1)); if (sim::coin("self")) { sim::Quiet q; int *left = &x->left; *left = 2; x->then = [&, x, left](natural) { sim::yield(); if ((*left)-- > 0) pl->add(x, msk(), tmo(), nullptr); if (sim::chance("rmin", 1, 3)) { Listen::Obs *y = nullptr; { sim::Quiet q; for (auto z : inner) if (z) y = z; } if (y) { Listen::Ack *a = pl->ack(); pl->remove(y, a); sim::Quiet q; y->credit = 0; } } sim::yield(); if ((*left)-- > 0) pl->add(x, msk(), tmo(), nullptr); sim::yield(); }; } natural m = msk(), tm = tmo(); pl->add(x, m, tm, sim::coin("ack") ? pl->ack() : nullptr); sim::Quiet q; own.push_back(x); continue; }
                Listen::Obs *x = own[k];
                switch (sim::param("lop", 0, 3)) {
                case 0: { natural m = msk(), tm = tmo(); pl->add(x, m, tm, pl->ack()); break; }
                case 1: { Listen::Ack *a = pl->ack(); pl->remove(x, a); Listen::wait(a); { sim::Quiet q; x->credit = 0; own.erase(own.begin() + k); } delete x; break; }
                case 2: { Listen::Ack *a = pl->ack(); int f0; { sim::Quiet q; f0 = x->fired; } pl->add(x, 1, naturalNull, a); Listen::wait(a); if (drain && sim::coin("fire")) { sim::waitUntil([x, pl, f0] { return x->fired > f0 || pl->mayLose(); }, ~0ull); } break; }
                case 3: sim::sleep_us(1000 * sim::param("ls", 0, 50)); break;
                }
            }
            sim::Quiet q; for (auto x : own) objs.push_back(x);
        }); }
        crew.join();
        // every far end is closed: each observer registered last must be called
        if (drain) { for (auto x : objs) sim::waitUntil([x, pl] { return x->sinceAdd > 0 || x->credit == 0 || x->maySleep() || pl->mayLose(); }, ~0ull); }
        L.l = nil;   // destroyed, at any moment
        { sim::Quiet q; L.destroyed = true; for (auto &a : L.acks) SIM_CHECK(a->n == 1, "no-completion", "completion of a request was reported %d times until the listener was destroyed", a->n); SIM_CHECK(!L.app.errors || sim::faultsInjected(), "spurious-error", "the listener reported an error"); for (auto x : objs) delete x; for (auto x : inner) delete x; }
    }
    fds.check("all dropped");
}
// connecting is watched by the listener: one answer for one request, however many addresses are tried
SCENARIO(sel_connect, "C20", 2) {
    sim::enableFaults("poll_eintr,io_eintr,net_refuse"); link(); Fds fds;
    {
        Listen L; static const char *hosts[] = {"multi", "multi", "server", "127.0.0.9", "127.0.0.8"};
        try { L.l = svc().createEventListener(); L.l = L.l.getMT(); L.raw = L.l.get(); } catch (const Exception &) { return; }
        PNetworkStreamSource ls = svc().createStreamSource(svc().createAddr(ConstStrA("0"), 4000), StreamOpenMode::passive, naturalNull, naturalNull, naturalNull);
        struct C { PNetworkStreamSource src; Listen::Obs *o; PNetworkStream st; bool hole; }; std::vector<C> v; Listen *pl = &L;
        int n = sim::param("n", 1, 3), rounds = sim::param("rounds", 1, 6);
        bool dead = false;
        auto make = [&] {
            const char *h = hosts[sim::param("host", 0, 4)]; if (!strcmp(h, "127.0.0.9")) dead = true; C c; c.hole = !strcmp(h, "127.0.0.8");
            c.src = svc().createStreamSource(svc().createAddr(ConstStrA(h), 4000), StreamOpenMode::active, sim::param("count", 1, 2), naturalNull, naturalNull);
            c.src = c.src.getMT(); sim::Quiet q; c.o = new Listen::Obs; c.o->o = pl; c.o->id = (int)v.size(); c.o->r = c.src.get(); c.o->fd = -1; v.push_back(c);
        };
        for (int i = 0; i < n; i++) make();
        for (int r = 0; r < rounds; r++) {
            C &c = v[sim::param("ri", 0, n - 1)];
            if (!c.src->hasItems()) continue;
            natural tm = c.hole || sim::coin("tm") ? (natural)sim::param("ms", 0, 200) : naturalNull;
            Listen::Ack *a = pl->ack(); pl->add(c.o, 0, tm, a); Listen::wait(a);
            switch (sim::param("cop", 0, 2)) {
            case 0: { // taken back before or after the answer
                Listen::Ack *b = pl->ack(); int f0 = sim::openFds(); pl->remove(c.o, b); Listen::wait(b); { sim::Quiet q; c.o->credit = 0; }
                SIM_CHECK(sim::openFds() <= f0, "fd-leak", "removing a resource opened a descriptor"); break; }
            default: { // answer is awaited, then the result is taken
                Listen::Obs *o = c.o; sim::waitUntil([o, pl] { return o->sinceAdd > 0 || pl->mayLose(); }, ~0ull);
                if (c.hole) break;
                c.st = nil; try { c.st = c.src->getNext(); } catch (const Exception &) {}
                if (sim::coin("sleep")) sim::sleep_us(1000 * sim::param("ls", 0, 150)); }
            }
        }
        if (sim::coin("early")) { for (auto &c : v) { Listen::Ack *b = pl->ack(); pl->remove(c.o, b); Listen::wait(b); { sim::Quiet q; c.o->credit = 0; } c.src = nil; } sim::sleep_us(200000); }
        L.l = nil;
        { sim::Quiet q; L.destroyed = true; for (auto &a : L.acks) SIM_CHECK(a->n == 1, "no-completion", "completion of a request was reported %d times until the listener was destroyed", a->n); SIM_CHECK(!L.app.errors || dead || sim::faultsInjected(), "spurious-error", "the listener reported an error"); for (auto &c : v) delete c.o; }
    }
    fds.check("all dropped");
}
// a connection which was reset: whatever is awaited, the observer is called once
SCENARIO(sel_reset, "C20", 1) {
    sim::enableFaults("poll_eintr,io_eintr"); link(); Fds fds;
    {
        Listen L; std::vector<Link> v; Listen *pl = &L;
        try { pairUp(v, 1, 4000); L.l = svc().createEventListener(); L.l = L.l.getMT(); L.raw = L.l.get(); } catch (const Exception &) { return; }
        int fd; { sim::Quiet q; fd = v[0].a->getIfc<INetworkSocket>().getSocket(0); }
        Listen::Obs o; o.o = pl; o.id = 0; o.r = v[0].a.get(); o.fd = -1; bool before = sim::coin("before"), rd = sim::coin("read");
        auto add = [&] { Listen::Ack *a = pl->ack(); pl->add(&o, sim::param("mask", 1, 7) & ~2, sim::coin("tm") ? (natural)sim::param("ms", 0, 100) : naturalNull, a); Listen::wait(a); };
        if (before) add();
        sim::netReset(fd);
        if (rd) { char b[4]; try { v[0].a->read(b, 4); } catch (const Exception &) {} }
        if (!before) add();
        { Listen::Obs *po = &o; sim::waitUntil([po] { return po->sinceAdd > 0; }, ~0ull); }
        sim::sleep_us(300000);
        L.l = nil; L.destroyed = true; v.clear();
    }
    fds.check("all dropped");
}
