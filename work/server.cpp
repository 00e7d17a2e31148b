// TCP server: connections, handlers, wake-ups by the user, stopping
#include "common.h"
#include "io.h"
#include <string>
#include <exception>
#include <map>
#include <set>
#include <algorithm>
#include "lightspeed/base/framework/TCPServer.h"
#include "lightspeed/base/framework/app.h"
#include "lightspeed/base/streams/netio.tcc"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/map.tcc"
#include "lightspeed/base/exceptions/netExceptions.h"
#include "lightspeed/base/exceptions/stdexception.h"
#include "lightspeed/base/exceptions/iterator.h"
#include "lightspeed/base/exceptions/errorMessageException.h"

static INetworkServices &svc() { return INetworkServices::getNetServices(); }
struct Fds { int n; Fds() : n(sim::openFds()) {} void check(const char *w) { int m = sim::openFds(); SIM_CHECK(m == n, "fd-leak", "%s: %d descriptors left open:%s", w, m - n, sim::openFdNames().c_str()); } };
static uint64_t nowMs() { return sim::now_us() / 1000; }
struct TestApp : public App {
    virtual integer start(const Args &) { return 0; }
    virtual void onThreadException(const Exception &e) throw() { sim::Quiet q; errors++; sim::event("application error %s", e.getMessage().getUtf8().data()); }
    int errors = 0;
};
static void link() {
    static const int lat[][2] = {{0, 0}, {10, 50}, {100, 3000}, {20000, 60000}};
    int k = sim::param("lat", 0, 3); sim::netLatency(lat[k][0], lat[k][1]); sim::netBuffer(4096); sim::pipeCapacity(4096);
}
typedef ITCPServerConnHandler H;
struct Server : public ITCPServerConnHandler {
    struct Ctx : public ITCPServerContext {
        Server *s; int id; H::Command want = H::cmdRemove; bool busy = false, over = false, awake = true; uint64_t since = 0; natural rt = naturalNull, wt = naturalNull; ITCPServerConnControl *ctl = nullptr;
        int wakes = 0, woken = 0, lastReason = -1; int left; natural source = 0; PNetworkStream kept; bool touchedByRelease = false;
        virtual void releaseOwnership() { { sim::Quiet q; SIM_CHECK(!touchedByRelease, "released-twice", "context %d released twice", id); touchedByRelease = true; } delete this; }
        ~Ctx() { sim::Quiet q; SIM_CHECK(!busy, "destroyed-in-use", "context %d destroyed while its handler runs", id); SIM_CHECK(touchedByRelease, "released-twice", "context %d destroyed without release", id); s->live.erase(this); s->ended++; sim::event("context %d destroyed", id); }
    };
    std::set<Ctx *> live; int made = 0, ended = 0, inside = 0, maxInside = 0, incomes = 0, rejects = 0; bool stopped = true; int rejectOneIn = 0, maxThreads = 1; bool mayThrow = false; bool threadFails = false;
    std::function<bool()> more;
    struct In { // a callback is running
        Server *s; Ctx *c;
        In(Server *s, Ctx *c, const char *what, bool worker) : s(s), c(c) {
            sim::Quiet q; sim::event("%s of connection %d", what, c->id);
            SIM_CHECK(!s->stopped, "called-after-stop", "%s called after stop() returned", what);
            SIM_CHECK(s->live.count(c), "called-after-end", "%s called with a destroyed context", what);
            SIM_CHECK(!c->busy, "concurrent-handler", "%s of connection %d called while another handler of it runs", what, c->id);
            SIM_CHECK(!c->over, "called-after-end", "%s of connection %d called after it has been ended", what, c->id);
            c->busy = true; c->awake = true; if (worker) { s->inside++; if (s->inside > s->maxInside) s->maxInside = s->inside; SIM_CHECK(s->inside <= s->maxThreads, "too-many-threads", "%d handlers run at once, the limit is %d", s->inside, s->maxThreads); }
            w = worker;
        }
        bool w;
        H::Command leave(H::Command cmd) { sim::Quiet q; c->busy = false; if (w) s->inside--; c->want = cmd; c->since = nowMs(); if (cmd == H::cmdRemove) c->over = true; c->awake = cmd != H::cmdWaitUserWakeup; sim::event("connection %d wants %d", c->id, (int)cmd); return cmd; }
    };
    // what the handler asks for next
    H::Command next(Ctx *c, bool canEnd) {
        int k = sim::param("next", 0, 9);
        if (c->left <= 0) return H::cmdWaitRead;
        c->left--;
        switch (k) {
        case 0: return H::cmdWaitReadOrWrite;
        case 1: return H::cmdWaitWrite;
        case 2: case 3: if (sim::coin("selfwake")) { { sim::Quiet q; c->wakes++; c->lastReason = 7; sim::event("connection %d wakes itself up", c->id); } c->ctl->getUserSleeper()->wakeUp(7); } return H::cmdWaitUserWakeup;
        case 4: if (canEnd && sim::chance("end", 1, 2)) return H::cmdRemove; return H::cmdWaitRead;
        default: return H::cmdWaitRead;
        }
    }
    virtual Command onDataReady(const PNetworkStream &st, ITCPServerContext *x) throw() {
        Ctx *c = static_cast<Ctx *>(x); In in(this, c, "onDataReady", true);
        SIM_CHECK(c->want == cmdWaitRead || c->want == cmdWaitReadOrWrite, "wrong-event", "onDataReady of connection %d which asked for %d", c->id, (int)c->want);
        Command r = cmdWaitRead;
        try {
            SIM_CHECK(st->dataReady() > 0, "not-ready", "onDataReady without data");
            char b[16]; natural k = st->read(b, sizeof b);
            if (k == 0) r = cmdRemove; else { st->writeAll(b, k); sim::yield(); r = next(c, sim::chance("ending", 1, 8)); }
        } catch (const Exception &) { r = cmdRemove; }
        return in.leave(r);
    }
    virtual Command onWriteReady(const PNetworkStream &, ITCPServerContext *x) throw() {
        Ctx *c = static_cast<Ctx *>(x); In in(this, c, "onWriteReady", true);
        SIM_CHECK(c->want == cmdWaitWrite || c->want == cmdWaitReadOrWrite, "wrong-event", "onWriteReady of connection %d which asked for %d", c->id, (int)c->want);
        return in.leave(next(c, false));
    }
    virtual Command onTimeout(const PNetworkStream &, ITCPServerContext *x) throw() {
        Ctx *c = static_cast<Ctx *>(x); In in(this, c, "onTimeout", true);
        SIM_CHECK(c->want == cmdWaitRead || c->want == cmdWaitReadOrWrite || c->want == cmdWaitWrite, "wrong-event", "onTimeout of connection %d which asked for %d", c->id, (int)c->want);
        natural t = c->want == cmdWaitRead ? c->rt : c->want == cmdWaitWrite ? c->wt : std::min(c->rt, c->wt);
        SIM_CHECK(t != naturalNull, "early-timeout", "onTimeout of connection %d which has no timeout", c->id);
        SIM_CHECK(nowMs() + 1 >= c->since + t, "early-timeout", "onTimeout of connection %d after %d ms, timeout is %d", c->id, (int)(nowMs() - c->since), (int)t);
        return in.leave(sim::chance("tend", 1, 3) ? cmdRemove : next(c, false));
    }
    virtual Command onUserWakeup(const PNetworkStream &, ITCPServerContext *x, natural reason) throw() {
        Ctx *c = static_cast<Ctx *>(x); In in(this, c, "onUserWakeup", true);
        { sim::Quiet q; SIM_CHECK(c->want == cmdWaitUserWakeup || c->wakes > c->woken, "wrong-event", "onUserWakeup of connection %d which asked for %d", c->id, (int)c->want);
          c->woken++; SIM_CHECK(c->woken <= c->wakes, "woken-twice", "connection %d was woken %d times and onUserWakeup called %d times", c->id, c->wakes, c->woken);
          SIM_CHECK((int)reason == c->lastReason, "wrong-reason", "connection %d woken with reason %d instead of %d", c->id, (int)reason, c->lastReason); }
        return in.leave(next(c, false));
    }
    virtual void onDisconnectByPeer(ITCPServerContext *x) throw() { Ctx *c = static_cast<Ctx *>(x); In in(this, c, "onDisconnectByPeer", false); sim::yield(); in.leave(cmdRemove); }
    virtual ITCPServerContext *onIncome(const NetworkAddress &) throw() {
        { sim::Quiet q; SIM_CHECK(!stopped, "called-after-stop", "onIncome called after stop() returned"); incomes++; }
        if (rejectOneIn && sim::chance("reject", 1, rejectOneIn)) { rejects++; return 0; }
        Ctx *c = new Ctx; sim::Quiet q; c->s = this; c->id = made++; c->left = 6; live.insert(c); return c;
    }
    virtual Command onAccept(ITCPServerConnControl *ctl, ITCPServerContext *x) {
        Ctx *c = static_cast<Ctx *>(x); In in(this, c, "onAccept", false); c->ctl = ctl;
        { sim::Quiet q; c->source = ctl->getSourceId(); }
        SIM_CHECK(ctl->getDataReadyTimeout() == naturalNull && ctl->getWriteReadyTimeout() == naturalNull, "timeout-lost", "default timeout of a connection is not infinite");
        if (sim::chance("rt", 1, 4)) { c->rt = sim::param("rtms", 0, 80); ctl->setDataReadyTimeout(c->rt); }
        if (sim::chance("wt", 1, 6)) { c->wt = sim::param("wtms", 0, 80); ctl->setWriteReadyTimeout(c->wt); }
        if (mayThrow && sim::chance("throws", 1, 4)) { in.leave(cmdRemove); throw ErrorMessageException(THISLOCATION, "refused by the handler"); }
        return in.leave(next(c, true));
    }
    // wakes sleeping connections until told to stop
    void waker(bool *stop) {
        for (;;) {
            Ctx *c = nullptr; bool *st = stop; Server *me = this;
            sim::waitUntil([st, me] { if (*st) return true; for (auto x : me->live) if (!x->awake && !x->over && x->wakes == x->woken) return true; return false; }, ~0ull);
            { sim::Quiet q; for (auto x : live) if (!x->awake && !x->over && x->wakes == x->woken && (!c || x->id < c->id)) c = x; if (c) { c->awake = true; c->wakes++; c->lastReason = 100 + c->wakes; sim::event("waking up connection %d", c->id); } }
            if (c) { ISleepingObject *o = c->ctl->getUserSleeper(); o->wakeUp(c->lastReason); continue; }
            if (*stop) return;
        }
    }
};
// a client sends messages and expects them back
enum Res { served = 0, refused = 1, ended = 2, wrong = 3 };
static Res client(int port, int msgs, bool drop) {
    PNetworkStream s;
    try { PNetworkStreamSource cs = svc().createStreamSource(svc().createAddr(ConstStrA("server"), port), StreamOpenMode::active, 1, naturalNull, naturalNull); s = cs->getNext(); } catch (const Exception &) { return refused; }
    try {
        for (int m = 0; m < msgs; m++) {
            int len = sim::param("len", 1, 20); char b[20], r[20]; for (int i = 0; i < len; i++) b[i] = (char)('a' + (m * 5 + i) % 26);
            s->writeAll(b, len);
            if (drop && m == msgs - 1) return served;
            natural got = s->readAll(r, len);
            SIM_CHECK(got <= (natural)len && !memcmp(b, r, got), "content", "client got other data than it sent");
            if (got < (natural)len) return ended;
            if (sim::chance("idle", 1, 4)) sim::sleep_us(1000 * sim::param("idlems", 0, 100));
        }
    } catch (const Exception &) { return ended; }
    return served;
}
// threads of the workload always start
struct Team : public Crew { void go(std::function<void()> f) { sim::faultsEnable(false); Crew::go(f); sim::faultsEnable(true); } };
SCENARIO(tcp_serve, "C21", 4) {
    bool faulty = sim::coin("faulty"); if (faulty) sim::enableFaults("accept_eintr,accept_abort,open_fail,poll_eintr,io_eintr,net_short,thread_create_fail,net_rst"); else sim::enableFaults("accept_eintr,poll_eintr,io_eintr,net_short");
    link(); TestApp app; Fds fds;
    {
        Server h; h.maxThreads = sim::param("threads", 1, 3); h.rejectOneIn = sim::chance("rej", 1, 3) ? 3 : 0; h.mayThrow = sim::chance("thr", 1, 4); int maxT = h.maxThreads;
        std::unique_ptr<TCPServer> srv(new TCPServer(h, maxT));
        natural port; h.stopped = false;
        try { port = srv->start(sim::coin("fixed") ? 4000 : 0); } catch (const Exception &) { h.stopped = true; SIM_CHECK(sim::faultsInjected(), "spurious-error", "starting of the server failed"); SIM_CHECK(!srv->isRunning(), "wrong-state", "server which failed to start runs"); srv.reset(); fds.check("start failed"); return; }
        SIM_CHECK(srv->isRunning(), "wrong-state", "started server does not run");
        bool second = sim::chance("second", 1, 3); if (second) try { srv->addPort(4100); } catch (const Exception &) { second = false; SIM_CHECK(sim::faultsInjected(), "spurious-error", "opening of the second port failed"); }
        int nc = sim::param("clients", 1, 4); std::vector<Res> res(nc, wrong); bool stopWaker = false; bool midStop = sim::chance("mid", 1, 3);
        {
            Team w; w.go([&] { h.waker(&stopWaker); });
            Team c;
            for (int i = 0; i < nc; i++) { int p = second && sim::coin("second") ? 4100 : (int)port, ms = sim::param("msgs", 0, 4); bool drop = sim::chance("drop", 1, 5); c.go([&, i, p, ms, drop] { Res r = client(p, ms, drop); sim::Quiet q; res[i] = r; }); }
            if (midStop) {
                sim::sleep_us(1000 * sim::param("stopAt", 0, 150));
                { sim::Quiet q; stopWaker = true; } w.join();
                srv->stop(); { sim::Quiet q; h.stopped = true; SIM_CHECK(h.live.empty(), "context-leak", "%d contexts alive after stop()", (int)h.live.size()); }
                SIM_CHECK(!srv->isRunning(), "wrong-state", "stopped server runs"); SIM_CHECK(srv->getConnectionCount() == 0, "wrong-state", "stopped server has connections");
            }
            c.join();
            if (!midStop) {
                bool mayEnd = h.made != h.incomes;
                // nothing failed: every client which was not sent away got its answers
                if (!faulty) for (int i = 0; i < nc; i++) SIM_CHECK(res[i] != refused, "refused", "client %d was refused by a running server", i);
                (void)mayEnd;
                // one more client is served after all of that
                sim::faultsEnable(false); bool good = false;
                h.mayThrow = false; h.rejectOneIn = 0;
                for (int k = 0; k < 30 && !good; k++) { Res r = client(port, 0, false); SIM_CHECK(r != refused, "refused", "a client was refused by a running server"); good = client(port, 1, false) == served; }
                SIM_CHECK(good, "not-served", "running server does not answer");
                { sim::Quiet q; stopWaker = true; }
            }
        }
        if (!midStop) {
            if (sim::coin("stop")) { srv->stop(); h.stopped = true; SIM_CHECK(h.live.empty(), "context-leak", "%d contexts alive after stop()", (int)h.live.size()); }
        } else if (sim::coin("restart")) {
            sim::faultsEnable(false); h.stopped = false; natural p2;
            try { p2 = srv->start(port); } catch (const Exception &e) { sim::violation("no-restart", "stopped server cannot be started on the same port again"); return; }
            SIM_CHECK(p2 == port, "wrong-state", "restarted on port %d instead of %d", (int)p2, (int)port);
            h.mayThrow = false; h.rejectOneIn = 0; bool good = false; stopWaker = false;
            { Crew w; w.go([&] { h.waker(&stopWaker); }); for (int k = 0; k < 30 && !good; k++) good = client(port, 1, false) == served; sim::Quiet q; stopWaker = true; }
            SIM_CHECK(good, "not-served", "restarted server does not answer");
        } else {
            Res r = client(port, 1, false); SIM_CHECK(r == refused, "port-open", "port accepts connections after stop()");
        }
        srv.reset();
        { sim::Quiet q; h.stopped = true; SIM_CHECK(h.live.empty() && h.made == h.ended, "context-leak", "%d contexts alive after the server was destroyed", (int)h.live.size()); }
    }
    fds.check("server destroyed");
}
