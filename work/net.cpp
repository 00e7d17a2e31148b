// network: streams, stream sources, datagrams
#include "common.h"
#include "io.h"
#include <string>
#include <exception>
#include <map>
#include <set>
#include "lightspeed/base/streams/netio.tcc"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/exceptions/netExceptions.h"
#include "lightspeed/base/exceptions/fileExceptions.h"
#include "lightspeed/base/exceptions/stdexception.h"
#include "lightspeed/base/exceptions/iterator.h"
#include "lightspeed/base/exceptions/systemException.h"

static INetworkServices &svc() { return INetworkServices::getNetServices(); }
static std::string bytes(int n, unsigned salt) { sim::Quiet q; std::string s; for (int i = 0; i < n; i++) s += (char)('A' + (i * 7 + salt * 13 + (i >> 4)) % 57); return s; }
struct Fds { int n; Fds() : n(sim::openFds()) {} void check(const char *w) { int m = sim::openFds(); SIM_CHECK(m == n, "fd-leak", "%s: %d descriptors left open:%s", w, m - n, sim::openFdNames().c_str()); } };
static uint64_t nowMs() { return sim::now_us() / 1000; }
static void link() {
    static const int lat[][2] = {{0, 0}, {10, 50}, {100, 100}, {0, 3000}, {20000, 60000}};
    int k = sim::param("lat", 0, 4); sim::netLatency(lat[k][0], lat[k][1]);
    static const int buf[] = {65536, 4096, 256, 16, 1}; sim::netBuffer(buf[sim::param("nbuf", 0, 4)]);
}
static PNetworkStreamSource listenAt(int port, natural count = naturalNull, natural tm = naturalNull, natural stm = naturalNull) { return svc().createStreamSource(svc().createAddr(ConstStrA("0"), port), StreamOpenMode::passive, count, tm, stm); }
static PNetworkStreamSource connectTo(ConstStrA host, int port, natural tm = naturalNull, natural stm = naturalNull, natural count = 1) { return svc().createStreamSource(svc().createAddr(host, port), StreamOpenMode::active, count, tm, stm); }
enum Err { ok = 0, timeout = 1, ioerr = 2, connfail = 3, other = 4 };
template<class F> static Err call(F f) {
    try { f(); return ok; }
    catch (const NetworkTimeoutException &) { return timeout; }
    catch (const NetworkConnectFailedException &) { return connfail; }
    catch (const NetworkIOError &) { return ioerr; }
    catch (const Exception &) { return other; }
}
static const char *en[] = {"nothing", "NetworkTimeoutException", "NetworkIOError", "NetworkConnectFailedException", "another exception"};

// one direction of a conversation
struct Dir { std::string data; size_t sent = 0, rcvd = 0; bool closed = false, eof = false, broken = false; };
// reads everything until the end, by mixed means
static void readSide(PNetworkStream s, Dir &d, bool mayBreak, const char *who) {
    char b[512]; int stuck = 0;
    while (!d.eof) {
        int len = sim::param("rlen", 0, 200), op = sim::param("rop", 0, 3); natural k = 0; bool can = true; size_t sentBefore = d.sent; (void)sentBefore; bool wasClosed;
        Err e = ok;
        if (op == 0) e = call([&] { k = s->read(b, len); });
        else if (op == 1) e = call([&] { k = s->peek(b, len); });
        else if (op == 2) e = call([&] { can = s->canRead(); });
        else e = call([&] { k = s->dataReady(); });
        sim::Quiet q; wasClosed = d.closed;
        if (e) { SIM_CHECK(mayBreak, "spurious-error", "%s: reading failed with %s on a healthy connection", who, en[e]); return; }
        if (op == 0 || op == 1) {
            SIM_CHECK(k <= (natural)len && d.rcvd + k <= d.sent + (d.closed ? 0 : 512), "bad-count", "%s: read of %d returned %d (received %d of %d sent)", who, len, (int)k, (int)d.rcvd, (int)d.sent);
            SIM_CHECK(!memcmp(b, d.data.data() + d.rcvd, k), "content", "%s: other bytes at %d", who, (int)d.rcvd);
            if (k == 0 && len) { SIM_CHECK(wasClosed || mayBreak, "early-eof", "%s: end of data while the other side is open (%d of %d received)", who, (int)d.rcvd, (int)d.sent); SIM_CHECK(d.rcvd == d.sent || mayBreak || d.broken, "lost-data", "%s: end of data after %d of %d bytes", who, (int)d.rcvd, (int)d.sent); if (op == 0) d.eof = true; }
            if (op == 0) d.rcvd += k;
        } else if (op == 2) {
            if (!can) { SIM_CHECK(wasClosed || mayBreak, "early-eof", "%s: canRead() false while the other side is open", who); SIM_CHECK(d.rcvd == d.sent || mayBreak || d.broken, "lost-data", "%s: canRead() false after %d of %d bytes", who, (int)d.rcvd, (int)d.sent); }
        } else {
            size_t left = d.sent - d.rcvd;
            SIM_CHECK(k <= left + 1, "bad-count", "%s: dataReady() = %d, only %d bytes were sent", who, (int)k, (int)left);
            SIM_CHECK(k <= left || d.closed || mayBreak, "bad-count", "%s: dataReady() = %d, only %d bytes were sent", who, (int)k, (int)left);
            if (k == 0 && ++stuck > 6) { stuck = 0; }
        }
    }
    // the end stays the end
    if (sim::coin("again")) { bool can = true; natural k = 0; Err e = call([&] { can = s->canRead(); if (sim::coin("read")) k = s->read(b, 10); });
        SIM_CHECK(!e && !can && !k, "content", "%s: after the end of data canRead() = %d, read of 10 bytes returned %d", who, can, (int)k); }
}
static void writeSide(PNetworkStream s, Dir &d, bool mayBreak, const char *who, Dir *back = nullptr) {
    int n = sim::param("wn", 0, 6);
    for (int i = 0; i < n; i++) {
        int len = sim::param("wlen", 1, 400); if ((int)(d.data.size() - d.sent) < len) break;
        bool all = sim::coin("wall"); natural k = 0; size_t at = d.sent;
        { sim::Quiet q; d.sent += len; }   // may arrive before the call returns; a failed write may have sent a part
        Err e = call([&] { k = all ? s->writeAll(d.data.data() + at, len) : s->write(d.data.data() + at, len); });
        sim::Quiet q;
        if (e) { SIM_CHECK(mayBreak || (back && back->closed), "spurious-error", "%s: writing failed with %s on a healthy connection", who, en[e]); d.broken = true; return; }
        SIM_CHECK(k >= 1 && k <= (natural)len && (!all || k == (natural)len), "bad-count", "%s: write of %d returned %d", who, len, (int)k);
        d.sent = at + k;
    }
}
static void finish(PNetworkStream &s, Dir &d, bool half) {
    { sim::Quiet q; d.closed = true; }
    if (half) call([&] { s->closeOutput(); });
}
SCENARIO(net_talk, "C19", 3) {
    bool brk = sim::chance("brk", 1, 4);
    sim::enableFaults(brk ? "io_eintr,poll_eintr,net_short,accept_eintr,accept_abort,net_rst" : "io_eintr,poll_eintr,net_short,accept_eintr");
    link(); Fds fds;
    int conns = sim::param("conns", 1, 3);
    std::vector<std::unique_ptr<Dir>> up, down; std::map<int, int> byPort;
    { sim::Quiet q; for (int i = 0; i < conns; i++) { up.emplace_back(new Dir); down.emplace_back(new Dir); up[i]->data = bytes(3000, i + 1); down[i]->data = bytes(3000, i + 50); } }
    {
        PNetworkStreamSource ls = listenAt(4000, naturalNull, brk ? 5000 : naturalNull);
        std::vector<PNetworkStream> held; 
        Crew crew;
        // connections are made one after another, so the numbers agree; the traffic is concurrent
        for (int i = 0; i < conns; i++) {
            PNetworkStreamSource cs = connectTo("server", 4000); PNetworkStream c, s;
            Err e = call([&] { c = cs->getNext(); });
            SIM_CHECK(e == ok || brk, "spurious-error", "connecting failed with %s", en[e]); if (e) return;
            e = call([&] { s = ls->getNext(); });
            SIM_CHECK(e == ok || brk, "spurious-error", "accepting failed with %s", en[e]); if (e) return;
            Dir *u = up[i].get(), *d = down[i].get();
            c = c.getMT(); s = s.getMT();
            // server end: read all, then answer; or both at the same time from two threads
            int mode = sim::param("mode", 0, 2);
            if (mode == 0) { // talk one way, then drop
                crew.go([=] { PNetworkStream x = c; writeSide(x, *u, brk, "client"); { sim::Quiet q; u->closed = true; } });
                crew.go([=] { readSide(s, *u, brk, "server"); });
            } else if (mode == 1) { // requests and answers
                int rounds = sim::param("rounds", 1, 4); std::vector<std::pair<int,int>> len; { sim::Quiet q; for (int r = 0; r < rounds; r++) len.emplace_back(0, 0); }
                for (auto &l : len) { l.first = sim::param("req", 1, 500); l.second = sim::param("ans", 1, 500); }
                auto talk = [=](PNetworkStream x, Dir *out, Dir *in, bool first, const char *who) {
                    char b[600]; bool bufd = sim::coin("buffered"); std::unique_ptr<NetworkStream<256> > ns; if (bufd) ns.reset(new NetworkStream<256>(x));
                    IInOutStream *io = bufd ? (IInOutStream *)&ns->getBuffer() : (IInOutStream *)x.get();
                    for (int r = 0; r < rounds; r++) for (int half = 0; half < 2; half++) {
                        int n = half ? len[r].second : len[r].first; natural k = 0; Err e;
                        if ((half == 0) == first) { { sim::Quiet q; out->sent += n; } e = call([&] { k = io->writeAll(out->data.data() + out->sent - n, n); if (bufd && sim::coin("flush")) io->flush(); }); }
                        else { e = call([&] { k = io->readAll(b, n); }); if (!e) { SIM_CHECK(k == (natural)n || brk, "lost-data", "%s: %d of %d bytes received", who, (int)k, n); SIM_CHECK(!memcmp(b, in->data.data() + in->rcvd, k), "content", "%s: other bytes at %d", who, (int)in->rcvd); sim::Quiet q; in->rcvd += k; } }
                        SIM_CHECK(!e || brk, "spurious-error", "%s: talking failed with %s", who, en[e]); if (e || k != (natural)n) return;
                    }
                    { sim::Quiet q; out->closed = true; }
                    if (bufd) call([&] { io->flush(); });
                };
                crew.go([=] { talk(c, u, d, true, "client"); });
                crew.go([=] { talk(s, d, u, false, "server"); });
            } else { // full duplex by two threads on each stream
                crew.go([=] { PNetworkStream x = c; writeSide(x, *u, brk, "client", d); finish(x, *u, true); });
                crew.go([=] { readSide(s, *u, brk, "server"); });
                crew.go([=] { PNetworkStream x = s; writeSide(x, *d, brk, "server", u); finish(x, *d, true); });
                crew.go([=] { readSide(c, *d, brk, "client"); });
            }
        }
        crew.join();
    }
    fds.check("all connections dropped");
    sim::Quiet q;
    if (!brk) for (int i = 0; i < conns; i++) { SIM_CHECK(!up[i]->closed || up[i]->broken || up[i]->rcvd == up[i]->sent, "lost-data", "connection %d: %d of %d bytes arrived at the server", i, (int)up[i]->rcvd, (int)up[i]->sent); SIM_CHECK(!down[i]->closed || down[i]->broken || down[i]->rcvd == down[i]->sent, "lost-data", "connection %d: %d of %d bytes arrived at the client", i, (int)down[i]->rcvd, (int)down[i]->sent); }
}
// operations with a timeout end: not before the time, and not never
SCENARIO(net_timeouts, "C19", 3) {
    sim::enableFaults("io_eintr,poll_eintr,net_short,accept_eintr");
    link(); Fds fds;
    {
        int T = sim::param("T", 1, 300); bool wr = sim::coin("wr"), acc = sim::coin("acc"); int after = sim::param("after", 0, 500);
        PNetworkStreamSource ls = listenAt(4000, naturalNull, naturalNull, acc ? T : naturalNull);
        PNetworkStreamSource cs = connectTo("server", 4000, naturalNull, acc ? naturalNull : T);
        PNetworkStream c = cs->getNext(), s = ls->getNext(); c = c.getMT(); s = s.getMT();
        PNetworkStream a = acc ? s : c, b = acc ? c : s;
        SIM_CHECK(a->getTimeout() == (natural)T, "timeout-lost", "stream has timeout %d instead of %d", (int)a->getTimeout(), T);
        SIM_CHECK(b->getTimeout() == naturalNull, "timeout-lost", "stream has timeout %d instead of none", (int)b->getTimeout());
        bool never = sim::coin("never"); uint64_t acted = ~0ull; bool stop = false; (void)stop;
        std::string big = bytes(sim::param("big", 1, 6) * 20000, 1); size_t total = 0;
        Crew crew;
        if (!never) crew.go([&] {
            sim::sleep_us((uint64_t)after * 1000);
            if (!wr) { { sim::Quiet q; acted = nowMs(); } call([&] { b->writeAll("hello", 5); }); }
            else { char x[5000]; { sim::Quiet q; acted = nowMs(); } for (;;) { natural k = 0; call([&] { k = b->read(x, sizeof x); }); if (!k) break; } }
        });
        char buf[100]; int op = sim::param("op", 0, 2); bool timedOut = false;
        for (int tries = 0; tries < 40 && !timedOut; tries++) {
            uint64_t t0 = nowMs(); natural k = 0; bool can = false; Err e;
            if (wr) e = call([&] { k = a->write(big.data(), big.size()); });
            else if (op == 0) e = call([&] { k = a->read(buf, 100); });
            else if (op == 1) e = call([&] { k = a->peek(buf, 100); });
            else e = call([&] { can = a->canRead(); });
            uint64_t t1 = nowMs();
            SIM_CHECK(e == ok || e == timeout, "spurious-error", "%s failed with %s on a healthy connection", wr ? "write" : "read", en[e]);
            if (e == timeout) { SIM_CHECK(t1 + 1 >= t0 + T, "early-timeout", "timeout of %d ms reported after %d ms", T, (int)(t1 - t0)); timedOut = true; }
            else if (wr) { SIM_CHECK(k >= 1, "bad-count", "write returned 0"); total += k; }
            else { SIM_CHECK(acted != ~0ull, "early-read", "read ended with %d bytes before anything was sent", (int)k); SIM_CHECK(op == 2 ? can : k > 0, "early-eof", "end of data on an open connection"); break; }
        }
        if (never) SIM_CHECK(timedOut || wr, "no-timeout", "reading without data did not time out");
        sim::Quiet q; a = nil; { crew.th.size(); }
        { c = nil; if (never || !wr) s = nil; }
        if (wr && !never) { if (acc) s = nil; else c = nil; }
    }
    (void)fds;
}
SCENARIO(net_accept, "C19", 2) {
    bool abrt = sim::coin("abrt");
    sim::enableFaults(abrt ? "accept_eintr,accept_abort,poll_eintr,io_eintr,bind_fail,open_fail,net_rst" : "accept_eintr,poll_eintr,io_eintr,bind_fail");
    link(); Fds fds;
    {
        int T = sim::chance("inf", 1, 3) ? -1 : sim::param("T", 1, 200); int count = sim::param("count", 1, 4), clients = sim::param("clients", 0, 5); if (clients > count) clients = count;
        PNetworkStreamSource ls; Err e = call([&] { ls = listenAt(4000, count, T < 0 ? naturalNull : (natural)T, 777); });
        if (e) { ls = nil; fds.check("listen failed"); return; }
        if (T < 0) clients = count;
        std::vector<PNetworkStream> got; int arrived = 0; bool connErr = false;
        Crew crew;
        for (int i = 0; i < clients; i++) crew.go([&] {
            sim::sleep_us(sim::param("when", 0, 300) * 1000);
            PNetworkStream c; Err e = call([&] { PNetworkStreamSource cs = connectTo("server", 4000); c = cs->getNext(); });
            { sim::Quiet q; if (e) connErr = true; else arrived++; }
            char b[10]; if (c != nil) call([&] { c->read(b, 1); });
        });
        int n = 0, tries = 0; 
        while (ls->hasItems() && tries++ < 60) {
            if (T < 0 && (abrt || connErr)) { break; }
            uint64_t t0 = nowMs(); PNetworkStream s; Err e = call([&] { s = ls->getNext(); }); uint64_t t1 = nowMs();
            if (e == timeout) { SIM_CHECK(T >= 0, "spurious-timeout", "listening without limit timed out"); SIM_CHECK(t1 + 1 >= t0 + T, "early-timeout", "waiting for a connection timed out after %d ms instead of %d", (int)(t1 - t0), T); if (n >= clients || tries > 40) break; continue; }
            SIM_CHECK(e == ok || abrt, "spurious-error", "waiting for a connection ended by %s", en[e]);
            if (e) continue;
            SIM_CHECK(s != nil && s->getTimeout() == 777, "timeout-lost", "accepted stream has timeout %d", (int)s->getTimeout());
            n++; PNetworkAddress pa = ls->getPeerAddr(); SIM_CHECK(pa != nil, "no-address", "no peer address after a connection");
        }
        SIM_CHECK(n <= count, "too-many", "%d connections from a source limited to %d", n, count);
        if (n == count) SIM_CHECK(!ls->hasItems(), "has-items", "source limited to %d connections offers more", count);
        if (n == count) { bool thrown = false; try { ls->getNext(); } catch (const IteratorNoMoreItems &) { thrown = true; } SIM_CHECK(thrown, "no-more-items", "getNext at the end did not throw IteratorNoMoreItems"); }
        ls = nil;
        crew.join();
    }
    fds.check("all dropped");
}
SCENARIO(net_connect, "C19", 3) {
    sim::enableFaults("net_refuse,net_unreach,net_blackhole,poll_eintr,io_eintr,open_fail,resolve_fail");
    link(); Fds fds;
    {
        static const char *hosts[] = {"server", "multi", "127.0.0.9", "127.0.0.8", "localhost"};
        const char *host = hosts[sim::param("host", 0, 4)]; bool up = sim::chance("up", 3, 4); int T = sim::chance("inf", 1, 3) ? -1 : sim::param("T", 1, 300);
        PNetworkStreamSource ls; if (up && call([&] { ls = listenAt(4000); })) return;
        PNetworkStreamSource cs; Err e = call([&] { cs = connectTo(host, 4000, T < 0 ? naturalNull : (natural)T, 555, 2); });
        if (e) { SIM_CHECK(sim::faultsInjected(), "spurious-error", "resolving failed with %s", en[e]); return; }
        bool hole = !strcmp(host, "127.0.0.8"), dead = !strcmp(host, "127.0.0.9"); bool good = up && !hole && !dead;
        PNetworkStream c;
        for (int tries = 0; tries < 3; tries++) {
            int f0 = sim::faultCount("net_refuse") + sim::faultCount("net_unreach") + sim::faultCount("net_blackhole") + sim::faultCount("open_fail");
            uint64_t t0 = nowMs(); natural w = 1; bool waited = sim::coin("wait");
            Err e = ok;
            if (waited) {
                int WT = sim::param("wt", 0, 100);
                e = call([&] { w = cs->wait(cs->getDefaultWait(), WT); }); uint64_t t1 = nowMs();
                if (!e && w == 0) SIM_CHECK(t1 + 1 >= t0 + WT, "early-timeout", "wait(%d) ended after %d ms", WT, (int)(t1 - t0));
                t0 = nowMs();
                SIM_CHECK(e != timeout, "spurious-timeout", "wait threw a timeout");
            }
            e = call([&] { c = cs->getNext(); }); uint64_t t1 = nowMs();
            bool hit = sim::faultCount("net_refuse") + sim::faultCount("net_unreach") + sim::faultCount("net_blackhole") + sim::faultCount("open_fail") != f0;
            if (e == ok) {
                SIM_CHECK(up && !hole && !dead, "phantom", "connected to %s where nobody listens", host);
                SIM_CHECK(c->getTimeout() == 555, "timeout-lost", "connected stream has timeout %d", (int)c->getTimeout());
                // the stream must be really connected
                Err e3 = call([&] { c->writeAll("a", 1); }); SIM_CHECK(!e3, "phantom", "connected stream does not accept data (%s)", en[e3]);
                for (;;) { // attempts given up before may wait there too
                    PNetworkStream s; Err e2 = call([&] { s = ls->getNext(); }); if (e2) break; char b[4] = {0}; natural k = 0;
                    Err e4 = call([&] { k = s->readAll(b, 1); }); if (!e4 && k == 1 && b[0] == 'a') break;
                }
                break;
            }
            SIM_CHECK(e != other, "wrong-exception", "connecting failed with an exception which is not a network one");
            if (e == timeout) { SIM_CHECK(T >= 0, "spurious-timeout", "connecting without limit timed out"); SIM_CHECK(t1 + 1 >= t0 + T, "early-timeout", "connecting timed out after %d ms instead of %d", (int)(t1 - t0), T); }
            else SIM_CHECK(!good || hit || T >= 0, "spurious-error", "connecting to a listening server failed with %s", en[e]);
            if (T >= 0 && !hit && !good && up) { }
            if (good && T < 0) SIM_CHECK(hit, "spurious-error", "connecting failed with %s", en[e]);
        }
    }
    fds.check("all dropped");
}
SCENARIO(net_dgram, "C19", 3) {
    sim::enableFaults("udp_loss,udp_dup,udp_reorder,poll_eintr,io_eintr,bind_fail,open_fail,resolve_fail");
    link(); Fds fds;
    {
        PNetworkDatagramSource a, b; int T = sim::param("T", 1, 200);
        if (call([&] { a = svc().createDatagramSource(5000, T); })) { a = nil; fds.check("opening failed"); return; }
        if (call([&] { b = svc().createDatagramSource(sim::coin("bport") ? 5001 : 0, T); })) { return; }
        int n = sim::param("n", 0, 5); std::map<std::string, int> out;
        PNetworkAddress to; if (call([&] { to = svc().createAddr(ConstStrA("::1"), ConstStrA("5000")); })) return;
        int sent = 0;
        for (int i = 0; i < n; i++) {
            std::string d; { sim::Quiet q; char h[20]; sprintf(h, "%d:", i); d = h + bytes(sim::param("len", 0, 3000), i); }
            PNetworkDatagram dg = sim::coin("addr") ? b->create(to) : b->create();
            dg->IOutputStream::writeAll(d.data(), d.size());
            { sim::Quiet q; out[d]++; }
            Err e = call([&] { if (dg->getTarget() != nil) dg->send(); else dg->sendTo(to); });
            SIM_CHECK(e == ok, "spurious-error", "sending failed with %s", en[e]); sent++;
        }
        int got = 0; std::map<std::string, int> in; PNetworkDatagram last; int misses = 0;
        while (misses < 2 && got < 2 * n + 2) {
            uint64_t t0 = nowMs(); PNetworkDatagram dg; Err e = call([&] { dg = a->receive(); }); uint64_t t1 = nowMs();
            if (e == timeout) { SIM_CHECK(t1 + 1 >= t0 + T, "early-timeout", "receiving timed out after %d ms instead of %d", (int)(t1 - t0), T); misses++; if (misses == 1) sim::sleep_us(4000000); continue; }
            SIM_CHECK(e == ok, "spurious-error", "receiving failed with %s", en[e]);
            char x[4000]; natural k = dg->IInputStream::readAll(x, sizeof x); got++;
            { sim::Quiet q; std::string d(x, k); SIM_CHECK(out.count(d), "content", "received a datagram of %d bytes which was never sent", (int)k); in[d]++; }
            last = dg;
        }
        int lost = sim::faultCount("udp_loss"), dup = sim::faultCount("udp_dup");
        SIM_CHECK(got >= sent - lost && got <= sent + dup, "lost-data", "%d datagrams sent, %d lost and %d doubled by the network, %d received", sent, lost, dup, got);
        // an answer goes back to the sender
        if (last != nil) {
            PNetworkAddress from = last->getTarget(); SIM_CHECK(from != nil, "no-address", "received datagram has no address");
            SIM_CHECK(last->checkAddress(from), "address", "the datagram does not know its own address");
            last->IOutputStream::writeAll("re", 2); int l0 = sim::faultCount("udp_loss"); last->send();
            if (sim::faultCount("udp_loss") == l0) { PNetworkDatagram r; Err e = ok; for (int i = 0; i < 30 && r == nil; i++) { e = call([&] { r = b->receive(); }); if (e == timeout) sim::sleep_us(1000000); } SIM_CHECK(r != nil, "lost-data", "an answer did not arrive (%s)", en[e]); char x[10]; natural k = r->IInputStream::readAll(x, 10); SIM_CHECK(k == 2 && !memcmp(x, "re", 2), "content", "answer is different"); }
        }
    }
    fds.check("all dropped");
}

// several threads send, several receive from one source and acknowledge; lost datagrams are sent again until acknowledged
SCENARIO(net_dgram_many, "C19", 2) {
    sim::setStepLimit(8000000);
    sim::enableFaults("udp_loss,udp_dup,udp_reorder,poll_eintr,io_eintr");
    link(); Fds fds;
    struct Rec { int transmitted = 0, received = 0; };
    std::map<std::string, Rec> all;     // what was given to the network
    int S = sim::param("senders", 1, 3), R = sim::param("receivers", 1, 3), N = sim::param("each", 1, 3), T = sim::param("T", 1, 50);
    bool stop = false; int running = S;
    {
        PNetworkDatagramSource a;
        SIM_CHECK(!call([&] { a = svc().createDatagramSource(5000, T); }), "spurious-error", "port cannot be opened");
        a->enableMTAccess();
        // addresses are objects shared inside of a thread only
        auto addr = [&] { return svc().createAddr(ConstStrA("::1"), ConstStrA("5000")); };
        Crew c;
        for (int i = 0; i < R; i++) c.go([&, i] {
            for (;;) {
                bool end; { sim::Quiet q; end = stop; }
                uint64_t t0 = nowMs(); PNetworkDatagram dg; Err e = call([&] { dg = a->receive(); }); uint64_t t1 = nowMs();
                if (e == timeout) { SIM_CHECK(t1 + 1 >= t0 + T, "early-timeout", "receiving timed out after %d ms instead of %d", (int)(t1 - t0), T); if (end) return; continue; }
                SIM_CHECK(e == ok, "spurious-error", "receiving failed with %s", en[e]);
                std::vector<char> x(3300); natural k = 0; int how = sim::param("how", 0, 3);
                SIM_CHECK(static_cast<IRndFileHandle &>(*dg).size() <= 3300, "content", "received a datagram of %d bytes which was never sent", (int)static_cast<IRndFileHandle &>(*dg).size());
                if (how == 1) { natural z = dg->peek(&x[0], 10); SIM_CHECK(z <= 10, "bad-count", "peek"); }
                if (how == 2) { static_cast<IInputStream &>(*dg).read(&x[0], sim::param("first", 1, 100)); dg->rewind(); }
                if (how == 3) { k = dg->read(&x[0], 3300, (IRndFileHandle::FileOffset)0); natural z = dg->read(&x[0], 100, (IRndFileHandle::FileOffset)k); SIM_CHECK(z == 0, "bad-count", "read beyond the end gave %d bytes", (int)z); dg->read(&x[0], 3300, (IRndFileHandle::FileOffset)0); }
                else while (natural z = static_cast<IInputStream &>(*dg).read(&x[k], sim::param("piece", 1, 3300))) { k += z; if (k >= 3300) break; }
                if (how != 3) SIM_CHECK(!dg->canRead(), "bad-count", "canRead() at the end of the datagram");
                std::string d;
                { sim::Quiet q; d.assign(&x[0], k); auto it = all.find(d); SIM_CHECK(it != all.end(), "content", "received a datagram of %d bytes which was never sent", (int)k); it->second.received++;
                  SIM_CHECK(static_cast<IRndFileHandle &>(*dg).size() == k, "content", "size is %d, content %d bytes", (int)static_cast<IRndFileHandle &>(*dg).size(), (int)k);
                  size_t p = d.find(':', d.find(':') + 1); d = "ok " + d.substr(0, p); }
                dg->IOutputStream::writeAll(d.data(), d.size());
                if (sim::coin("drop")) { dg->clear(); dg->IOutputStream::writeAll(d.data(), d.size()); }
                e = call([&] { if (sim::coin("to")) { PNetworkAddress t = dg->getTarget(); dg->sendTo(t); } else dg->send(); });
                SIM_CHECK(e == ok, "spurious-error", "sending failed with %s", en[e]);
                SIM_CHECK(call([&] { dg->send(); }) != ok, "sent-twice", "the same answer was sent twice");
            }
        });
        for (int i = 0; i < S; i++) c.go([&, i] {
            PNetworkDatagramSource b; PNetworkAddress to;
            SIM_CHECK(!call([&] { b = svc().createDatagramSource(0, T); to = addr(); }), "spurious-error", "source cannot be opened");
            natural uid = sim::param("uid", 0, 1000); b->setUID(uid);
            std::set<std::string> acked;
            for (int k = 0; k < N; k++) {
                std::string d, key, want;
                { sim::Quiet q; char h[30]; sprintf(h, "%d:%d", i, k); key = h; d = key + ":" + bytes(sim::param("len", 0, 150), i * 10 + k); want = "ok " + key; all[d]; }
                bool done = false; Err e;
                for (int at = 0; !done; at++) {
                    if (at == 3) sim::faultsEnable(false);       // the network works again, nothing is lost any more
                    if (at <= 3) {
                    PNetworkDatagram dg = b->create(to);
                    natural u = dg->getUID(); SIM_CHECK(u == uid && dg->getUID() == u, "uid", "number of datagram %d instead of %d", (int)u, (int)uid); uid++;
                    dg->IOutputStream::writeAll(d.data(), d.size());
                    SIM_CHECK(dg->peekOutputBuffer().length() == d.size(), "content", "%d bytes prepared instead of %d", (int)dg->peekOutputBuffer().length(), (int)d.size());
                    { sim::Quiet q; all[d].transmitted++; }
                    e = call([&] { dg->send(); });
                    SIM_CHECK(e == ok, "spurious-error", "sending failed with %s", en[e]);
                    }
                    for (;;) {
                        PNetworkDatagram r; e = call([&] { r = b->receive(); });
                        if (e == timeout) { if (at > 2) sim::sleep_us(50000); break; }
                        SIM_CHECK(e == ok, "spurious-error", "receiving failed with %s", en[e]);
                        char x[100]; natural z = r->IInputStream::readAll(x, sizeof x);
                        bool from = r->checkAddress(to);
                        SIM_CHECK(from, "address", "answer does not come from the address asked");
                        sim::Quiet q; std::string s(x, z);
                        if (s == want) { done = true; acked.insert(s); break; }
                        SIM_CHECK(acked.count(s), "content", "sender %d got answer '%s' while waiting for '%s'", i, s.c_str(), want.c_str());
                    }
                }
            }
            sim::Quiet q; if (--running == 0) stop = true;
        });
    }
    int dup = sim::faultCount("udp_dup");
    for (auto &x : all) { SIM_CHECK(x.second.received >= 1, "lost-data", "an acknowledged datagram was not received"); SIM_CHECK(x.second.received <= x.second.transmitted + dup, "doubled", "datagram sent %d times was received %d times", x.second.transmitted, x.second.received); }
    fds.check("all dropped");
}
// addresses keep host and port through every form and compare consistently
SCENARIO(net_address, "C19", 1) {
    sim::enableFaults("resolve_fail");
    Fds fds;
    {
        struct A { PNetworkAddress a; std::string host; int port; bool v6; };
        std::vector<A> all; int n = sim::param("n", 2, 6);
        for (int i = 0; i < n; i++) {
            A x; char b[64]; bool fail; { sim::Quiet q; }
            int kind = sim::param("kind", 0, 3), port = sim::param("port", 1, 4) * (sim::coin("big") ? 16000 : 1), last = sim::param("last", 1, 5), deft = sim::param("default", 1, 65535);
            x.v6 = kind & 1; x.port = port;
            { sim::Quiet q; sprintf(b, x.v6 ? "::%d" : "10.1.%d.1", last); x.host = b; }
            fail = call([&] {
                char t[100];
                if (kind == 0) { sim::Quiet q; sprintf(t, "%s:%d", b, port); }
                if (kind == 1) { sim::Quiet q; sprintf(t, "[%s]:%d", b, port); }
                if (kind < 2) x.a = svc().createAddr(ConstStrA(t), deft);
                else { { sim::Quiet q; sprintf(t, "%d", port); } x.a = svc().createAddr(ConstStrA(b), ConstStrA(t)); }
            }) != ok;
            if (fail) { SIM_CHECK(sim::faultCount("resolve_fail"), "spurious-error", "address cannot be made"); continue; }
            StringA s = x.a->asString(); { sim::Quiet q; SIM_CHECK(std::string(s.data(), s.length()) == x.host + ":" + std::to_string(port), "address", "address of %s port %d is shown as %.*s", b, port, (int)s.length(), s.data()); }
            INetworkAddrEx &ex = x.a->getIfc<INetworkAddrEx>();
            SIM_CHECK((int)ex.getPortNumber() == port, "address", "port %d instead of %d", (int)ex.getPortNumber(), port);
            char raw[128]; memset(raw, 0x55, sizeof raw); natural need = x.a->getSockAddress(0, 0); natural got = x.a->getSockAddress(raw, sizeof raw);
            SIM_CHECK(need == got && got < sizeof raw && (byte)raw[got] == 0x55, "address", "raw address has %d bytes, %d stored", (int)need, (int)got);
            if (sim::coin("raw")) { natural part = need / 2; char r2[128]; memset(r2, 0x55, sizeof r2); got = x.a->getSockAddress(r2, part); SIM_CHECK(got == part && !memcmp(r2, raw, part) && (byte)r2[part] == 0x55, "address", "part of the raw address"); }
            PNetworkAddress c = svc().createAddr((const void *)raw, need);
            SIM_CHECK(c->equalTo(*x.a) && x.a->equalTo(*c) && !c->lessThan(*x.a) && !x.a->lessThan(*c), "address", "address made of its raw form differs");
            if (sim::coin("copy")) x.a = c;
            { sim::Quiet q; all.push_back(x); }
        }
        for (auto &x : all) for (auto &y : all) {
            bool eq = x.host == y.host && x.port == y.port, l = x.a->lessThan(*y.a), g = y.a->lessThan(*x.a);
            SIM_CHECK(x.a->equalTo(*y.a) == eq, "address", "%s:%d equal to %s:%d is %d", x.host.c_str(), x.port, y.host.c_str(), y.port, !eq);
            SIM_CHECK((l || g) == !eq && !(l && g), "address", "order of %s:%d and %s:%d", x.host.c_str(), x.port, y.host.c_str(), y.port);
            for (auto &z : all) if (l && y.a->lessThan(*z.a)) SIM_CHECK(x.a->lessThan(*z.a), "address", "order of addresses is not transitive");
        }
    }
    fds.check("all dropped");
}
