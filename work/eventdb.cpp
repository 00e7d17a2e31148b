// event log: storing, replaying, rotating, cells, replication, killed and terminated processes
#include "common.h"
#include "io.h"
#include <string>
#include <exception>
#include <map>
#include <deque>
#include <algorithm>
#include "lightspeed/base/streams/fileio.h"
#include "lightspeed/base/streams/fileiobuff.tcc"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/exceptions/fileExceptions.h"
#include "lightspeed/base/exceptions/iterator.h"
#include "lightspeed/base/exceptions/errorMessageException.h"
#include "lightspeed/utils/eventdb.h"
using namespace LightSpeed::EventDB;

static IFileIOServices &svc() { return IFileIOServices::getIOServices(); }
static String W(const std::string &s) { return String(ConstStrA(s.data(), s.length())); }
static std::string got(const std::string &p) { sim::Quiet q; std::string s; sim::fsGet(p.c_str(), s); return s; }
struct Fds { int n; Fds() : n(sim::openFds()) {} void check(const char *w) { int m = sim::openFds(); SIM_CHECK(m == n, "fd-leak", "%s: %d descriptors left open:%s", w, m - n, sim::openFdNames().c_str()); } };
struct Ev { natural ofs, type; int64_t time; std::string data; int file; };
static std::string body(int n, unsigned salt) { std::string s; for (int i = 0; i < n; i++) s += (char)(i * 31 + salt * 17 + (i >> 8) * 5 + 1); return s; }
// delivered data are what was sent, filled up to whole blocks
static bool sameData(const std::string &sent, const std::string &d, bool padded) { return padded ? d.size() == (sent.size() + 7) / 8 * 8 && !d.compare(0, sent.size(), sent) : d == sent || sameData(sent, d, true); }
struct Recorder : public UpdateAdapter {
    const char *name; std::vector<Ev> log; std::map<int, std::vector<Ev>> cells; int starts = 0, ends = 0, released = 0; bool inScan = false; natural cellBase = 0;
    Recorder(const char *n) : name(n) {}
    virtual void onUpdate(FileOffset o, time_t t, natural type, RecData d) { sim::Quiet q; sim::event("%s: offset %d type %d %d bytes", name, (int)o, (int)type, (int)d.length()); log.push_back(Ev{(natural)o, type, (int64_t)t, std::string((const char *)d.data(), d.length()), 0}); }
    virtual void onUpdateCell(natural id, FileOffset o, time_t t, natural type, RecData d) { sim::Quiet q; cells[(int)id].push_back(Ev{(natural)o, type, (int64_t)t, std::string((const char *)d.data(), d.length()), 0}); }
    virtual void onStartRescan() { sim::Quiet q; SIM_CHECK(!inScan, "rescan-order", "%s: onStartRescan called twice", name); inScan = true; starts++; log.clear(); cells.clear(); }
    virtual void onEndRescan() { sim::Quiet q; SIM_CHECK(inScan, "rescan-order", "%s: onEndRescan without onStartRescan", name); inScan = false; ends++; }
    virtual void onRelease() { released++; }
};
struct Model {
    std::vector<Ev> log; std::map<int, Ev> cells; std::vector<std::string> rotated; unsigned salt = 0; int64_t lastT = 0; int pendCell = 0; Ev pend;
    // everything sent was delivered in order, exactly once; extra: number of events at the end which may be missing
    void compare(const Recorder &r, bool live, int file, const std::vector<Ev> *pending = nullptr) {
        sim::Quiet q;
        size_t n = r.log.size(), m = log.size();
        bool ok = n == m || (pending && n == m + pending->size());
        SIM_CHECK(ok, n < m ? "event-lost" : "event-repeated", "%s received %d events, %d were stored", r.name, (int)n, (int)m);
        for (size_t i = 0; i < n; i++) {
            const Ev &e = i < m ? log[i] : (*pending)[i - m], &g = r.log[i];
            SIM_CHECK(g.type == e.type && sameData(e.data, g.data, !live), "event-changed", "%s: event %d has type %d and %d bytes, stored was type %d and %d bytes", r.name, (int)i, (int)g.type, (int)g.data.size(), (int)e.type, (int)e.data.size());
            if (i < m) SIM_CHECK(g.time == e.time, "event-time", "%s: event %d has time %lld, stored was %lld", r.name, (int)i, (long long)g.time, (long long)e.time);
            if (i < m) SIM_CHECK(g.ofs == (e.file == file ? e.ofs : 0), "event-offset", "%s: event %d has offset %d, stored was at %d", r.name, (int)i, (int)g.ofs, (int)e.ofs);
        }
        for (auto &c : cells) {
            auto k = r.cells.find(c.first); SIM_CHECK(k != r.cells.end(), "cell-lost", "%s: cell %d was not delivered", r.name, c.first);
            const Ev &g = k->second.back(); if (!live) SIM_CHECK(k->second.size() == 1, "cell-repeated", "%s: cell %d delivered %d times", r.name, c.first, (int)k->second.size());
            SIM_CHECK(g.type == c.second.type && sameData(c.second.data, g.data, !live) && g.time == c.second.time, "cell-changed", "%s: cell %d has type %d, %d bytes, time %lld; stored was %d, %d, %lld", r.name, c.first, (int)g.type, (int)g.data.size(), (long long)g.time, (int)c.second.type, (int)c.second.data.size(), (long long)c.second.time);
        }
        if (!pending) SIM_CHECK(r.cells.size() == cells.size(), "cell-invented", "%s: %d cells delivered, %d stored", r.name, (int)r.cells.size(), (int)cells.size());
    }
};
struct Logs : public ILogDiscovery {
    std::vector<std::string> files; size_t i = 0;
    PInputStream open() { if (i >= files.size()) return nil; PInOutStream x = svc().openSeqFile(W(files[i++]), IFileIOServices::fileOpenRead, 0); return PInputStream(x.get()); }
    virtual PInputStream getFirstLog() { i = 0; return open(); }
    virtual PInputStream getNextLog() { return open(); }
};
static int bodyLen() { static const int big[] = {4000, 4088, 4089, 4096, 5000, 8200, 9000}; int k = sim::param("len", 0, 40); return k <= 33 ? k : big[k - 34]; }
static const natural timeMax = 1;
// sends one event inside of a transaction and records it
static void sendOne(EventLog &db, EventLog::Transaction &t, Model &m, int file, int cells, std::vector<Ev> *pending) {
    int cell = cells && sim::chance("cell", 1, 3) ? 1 + sim::param("cellId", 0, cells - 1) : 0;
    int n = cell ? sim::param("clen", 0, 60) : bodyLen(); natural type = sim::chance("bigtype", 1, 8) ? 0xFFFF - sim::param("bt", n == 0 ? 1 : 0, 2) : sim::param("type", 0, 5);
    Ev e; { sim::Quiet q; e.data = body(n, ++m.salt); e.type = type; e.file = file; e.time = 0; e.ofs = 0; if (pending && !cell) pending->push_back(e); if (cell) { m.pendCell = cell; m.pend = e; } sim::event("send type %d, %d bytes%s", (int)type, n, cell ? " to a cell" : ""); }
    natural ofs = t.sendUpdate(type, ConstBin((const byte *)e.data.data(), e.data.size()), cell);
    sim::Quiet q; e.ofs = ofs;
    if (cell) { m.cells[cell] = e; m.pendCell = 0; }
    else { e.time = db.getWriteState().lastTimestamp; SIM_CHECK(e.time >= m.lastT, "event-time", "time of events went back from %lld to %lld", (long long)m.lastT, (long long)e.time); m.lastT = e.time; m.log.push_back(e); if (pending) pending->clear(); }
}
// times of cells are those of the transaction; learned from the listener
static void learnCellTimes(Model &m, const Recorder &r) { sim::Quiet q; for (auto &c : m.cells) { auto k = r.cells.find(c.first); if (k != r.cells.end() && c.second.time == 0) c.second.time = k->second.back().time; } }
static void jumpClock() {
    static const int64_t d[] = {0, 1, 100, 65535, 65536, 70000, 200000, -1, -5000};
    int k = sim::param("jump", 0, 14); if (k < 9 && d[k]) { sim::event("clock jumps by %lld s", (long long)d[k]); sim::clockSkew(d[k] * 1000000); }
}
SCENARIO(evdb_sessions, "C22", 3) {
    sim::setStepLimit(6000000); Fds fds; Model m; Logs old; int file = 0; const std::string name = "/w/log";
    bool killing = sim::coin("killing"); int cells = sim::param("cells", 0, 4);
    sim::enableFaults(sim::coin("shorts") ? "io_eintr,io_short" : "io_eintr"); { sim::Quiet q; sim::fsMkdir("/w"); }
    int sessions = sim::param("sessions", 1, 4);
    for (int s = 0; s <= sessions; s++) {
        bool last = s == sessions, plain = !last && s && !killing && sim::chance("norescan", 1, 3), rotate = !last && s && sim::chance("rotate", 1, 4);
        if (rotate) { // the file becomes history, a new one continues
            std::string to = "/w/old" + std::to_string(file); { sim::Quiet q; std::string d = got(name); sim::fsPut(to.c_str(), d); sim::fsPut(name.c_str(), ""); old.files.push_back(to); file++; m.lastT = 0; }
            if (!killing) plain = sim::coin("plainRotate");
        }
        std::vector<Ev> pending; Recorder live("live listener"), late("listener synchronized later"); bool lateIn = false, opened = false;
        auto session = [&] {
            std::unique_ptr<EventLog> db(new EventLog);
            db->addListener(&live);
            db->open(W(name), plain ? 0 : EventLog::flagRescan, &old);
            { sim::Quiet q; opened = true; }
            SIM_CHECK(plain ? live.starts == 0 : live.starts == 1 && live.ends == 1, "rescan-order", "rescan of the log was announced %d times and ended %d times", live.starts, live.ends);
            if (!plain) { m.compare(live, false, file); }
            if (last) return;
            int threads = killing ? 1 : sim::param("threads", 1, 3);
            Recorder *syn = &late; bool leave = sim::chance("leave", 1, 3); bool want = sim::coin("late");
            auto writer = [&](int n) {
                for (int i = 0; i < n; i++) {
                    jumpClock();
                    EventLog::Transaction t(*db);
                    int k = sim::param("inTrn", 1, 3);
                    for (int j = 0; j < k; j++) {
                        sendOne(*db, t, m, file, cells, &pending);
                        learnCellTimes(m, live);
                        if (!m.log.empty() && sim::chance("read", 1, 4)) {
                            const Ev e = m.log[sim::param("which", 0, (int)m.log.size() - 1)]; if (e.file != file) continue;
                            int sz = sim::param("rsz", 0, (int)std::min<size_t>(e.data.size() + 10, 200)); std::vector<char> b(sz + 8, 0x55); natural r = db->readRecord(e.ofs, b.data(), sz, e.type);
                            sim::Quiet q; size_t full = (e.data.size() + 7) / 8 * 8; SIM_CHECK(r == full, "record-read", "readRecord returned size %d of a record with %d bytes", (int)r, (int)full);
                            SIM_CHECK(!memcmp(b.data(), e.data.data(), std::min((size_t)sz, e.data.size())), "record-read", "readRecord returned other data"); for (int x = sz; x < sz + 8; x++) SIM_CHECK(b[x] == 0x55, "record-read", "readRecord wrote behind the buffer");
                        }
                    }
                }
            };
            if (threads == 1) { if (want && !plain && old.files.empty()) { db->addListenerAndSync(syn); lateIn = true; m.compare(late, false, file); } writer(sim::param("n", 0, 5)); }
            else {
                Crew c; for (int i = 0; i < threads; i++) { int n = sim::param("n", 0, 3); c.go([&, n] { writer(n); }); }
                // history in rotated files is not delivered to it
                if (want && old.files.empty()) { db->addListenerAndSync(syn); sim::Quiet q; lateIn = true; SIM_CHECK(late.starts == 1 && late.ends == 1, "rescan-order", "synchronization was announced %d times and ended %d times", late.starts, late.ends); }
                if (leave && lateIn) { db->removeListener(syn); sim::Quiet q; lateIn = false; }
            }
            if (!plain) { m.compare(live, true, file); if (lateIn && old.files.empty()) m.compare(late, true, file); }
            // scanning of a part of the log
            if (!m.log.empty() && sim::coin("part")) {
                size_t a = sim::param("from", 0, (int)m.log.size() - 1), b = sim::param("to", (int)a, (int)m.log.size()); while (a < m.log.size() && m.log[a].file != file) a++;
                if (a < m.log.size() && b > a) {
                    Recorder part("listener of a part"); EventLog::FileOffset end = db->rescan(part, m.log[a].ofs, b < m.log.size() ? m.log[b].ofs : 0, 0);
                    sim::Quiet q; // a record with synchronization of time may stand before the next event
                    SIM_CHECK(part.log.size() == b - a, "event-lost", "scan of a part delivered %d events instead of %d", (int)part.log.size(), (int)(b - a)); (void)end;
                    for (size_t i = a; i < b; i++) { const Ev &g = part.log[i - a]; SIM_CHECK(g.type == m.log[i].type && g.ofs == m.log[i].ofs && sameData(m.log[i].data, g.data, true), "event-changed", "scan of a part delivered event %d changed", (int)i); if (i > a) SIM_CHECK(g.time - part.log[0].time == m.log[i].time - m.log[a].time, "event-time", "scan of a part delivered event %d with other time", (int)i); }
                }
            }
            db.reset(); SIM_CHECK(live.released == 1, "release", "onRelease called %d times", live.released);
        };
        if (killing && !last) {
            sim::runUntilCrash([&] {
                try { session(); } catch (const Exception &e) { sim::Quiet q; sim::violation("unexpected-exception", "%s", e.getMessage().getUtf8().data()); }
            }, 60, false);
            // what is in the log now: everything acknowledged, maybe the last event
            sim::faultsEnable(false); Recorder r("listener after the kill"); bool torn = false;
            std::unique_ptr<EventLog> db(new EventLog); db->addListener(&r);
            try { db->open(W(name), EventLog::flagRescan, &old); } catch (const Exception &e) {
                sim::Quiet q; torn = true; size_t big = pending.empty() ? 0 : pending[0].data.size();
                SIM_CHECK(big > 4000 || sim::faultCount("io_short"), "not-openable", "log cannot be opened after the process was killed: %s", e.getMessage().getUtf8().data());
            }
            { sim::Quiet q; if (r.log.size() > m.log.size() && pending.size() == 1) { Ev e = pending[0]; const Ev &g = r.log.back(); m.compare(r, true, file, &pending); e.ofs = g.ofs; e.time = g.time; m.log.push_back(e); m.lastT = e.time; } }
            // cell which was being written keeps one of both values: accept what is there when it was not acknowledged
            if (!torn) {
                { sim::Quiet q;
                  for (auto &c : r.cells) {
                    const Ev &g = c.second.back(); auto k = m.cells.find(c.first);
                    bool isOld = k != m.cells.end() && k->second.type == g.type && sameData(k->second.data, g.data, true) && (k->second.time == g.time || !k->second.time), isNew = m.pendCell == c.first && m.pend.type == g.type && sameData(m.pend.data, g.data, true);
                    SIM_CHECK(isOld || isNew || (sim::faultCount("io_short") && m.pendCell == c.first), "cell-torn", "cell %d holds neither the old nor the new event after the process was killed", c.first);
                    if (!isOld) m.cells[c.first] = g; else k->second.time = g.time;
                  }
                  m.pendCell = 0; }
                m.compare(r, false, file);
            }
            else { sim::Quiet q; SIM_CHECK(r.log.size() == m.log.size() || (m.pendCell && sim::faultCount("io_short")), "event-lost", "%d events replayed before the torn one, %d were acknowledged", (int)r.log.size(), (int)m.log.size()); }
            db.reset(); sim::faultsEnable(true);
            if (torn) { sim::probe("torn"); break; }
        } else {
            try { session(); } catch (const Exception &e) { sim::violation("unexpected-exception", "%s", e.getMessage().getUtf8().data()); }
            fds.check("log closed");
        }
    }
}
static void died() { sim::event("terminated by the library"); sim::dieHere(); }
SCENARIO(evdb_fatal, "C22", 2) {
    // storing which fails ends the process; nothing of the failed event stays, everything before does
    sim::setStepLimit(6000000); Model m; const std::string name = "/w/log"; int cells = sim::param("cells", 0, 2);
    sim::enableFaults("io_eintr,io_short,io_enospc,sync_eio"); { sim::Quiet q; sim::fsMkdir("/w"); sim::fsPut(name.c_str(), ""); sim::fsPut("/w/log.cells", ""); }
    auto old = std::set_unexpected(died); struct Back { std::unexpected_handler h; ~Back() { std::set_unexpected(h); } } back{old};
    int rounds = sim::param("rounds", 1, 3);
    for (int r = 0; r < rounds; r++) {
        std::vector<Ev> pending; int fired = 0; bool cellWrite = false;
        sim::faultsEnable(false);
        sim::runUntilCrash([&] {
            try {
                std::unique_ptr<EventLog> db(new EventLog); Recorder live("live listener"); db->addListener(&live); db->open(W(name)); m.compare(live, false, 0);
                { sim::Quiet q; if (sim::coin("full")) sim::fsCapacity(got(name).size() + got("/w/log.cells").size() + sim::param("room", 0, 400)); }
                sim::faultsEnable(true); fired = sim::faultCount(nullptr);
                int n = sim::param("n", 0, 6);
                for (int i = 0; i < n; i++) { EventLog::Transaction t(*db); sendOne(*db, t, m, 0, cells, &pending); learnCellTimes(m, live); }
                db.reset();
            } catch (const Exception &e) { sim::Quiet q; sim::violation("unexpected-exception", "%s", e.getMessage().getUtf8().data()); }
        }, 0, false);
        sim::faultsEnable(false); { sim::Quiet q; sim::fsCapacity(0); cellWrite = m.pendCell != 0; }
        Recorder after("listener after the failure"); std::unique_ptr<EventLog> db(new EventLog); db->addListener(&after);
        try { db->open(W(name)); } catch (const Exception &e) { sim::Quiet q; SIM_CHECK(cellWrite, "not-openable", "log cannot be opened after storing of an event failed: %s", e.getMessage().getUtf8().data()); return; }
        if (cellWrite) { sim::Quiet q; SIM_CHECK(after.log.size() == m.log.size(), "event-lost", "%d events replayed, %d were acknowledged", (int)after.log.size(), (int)m.log.size()); return; }
        m.compare(after, false, 0); (void)fired;
    }
}
SCENARIO(evdb_power, "C22", 1) {
    // what was acknowledged survives a failure of power
    sim::setStepLimit(6000000); Model m; const std::string name = "/w/log";
    sim::enableFaults("io_eintr,io_short"); { sim::Quiet q; sim::fsMkdir("/w"); sim::fsPut(name.c_str(), ""); sim::fsPut("/w/log.cells", ""); }
    int rounds = sim::param("rounds", 1, 3);
    for (int r = 0; r < rounds; r++) {
        std::vector<Ev> pending;
        bool crashed = sim::runUntilCrash([&] {
            try {
                std::unique_ptr<EventLog> db(new EventLog); Recorder live("live listener"); db->addListener(&live); db->open(W(name)); m.compare(live, false, 0);
                int n = sim::param("n", 0, 6);
                for (int i = 0; i < n; i++) { EventLog::Transaction t(*db); sendOne(*db, t, m, 0, 0, &pending); }
                db.reset();
            } catch (const Exception &e) { sim::Quiet q; sim::violation("unexpected-exception", "%s", e.getMessage().getUtf8().data()); }
        }, 80);
        sim::faultsEnable(false); Recorder after("listener after the crash"); std::unique_ptr<EventLog> db(new EventLog); db->addListener(&after); bool opened = false;
        try { db->open(W(name)); opened = true; } catch (const Exception &e) { sim::Quiet q; SIM_CHECK(!pending.empty(), "not-openable", "log cannot be opened after a crash which interrupted nothing: %s", e.getMessage().getUtf8().data()); }
        { sim::Quiet q; // content of the event which was being written is not protected, number and content of the previous is
          SIM_CHECK(after.log.size() >= m.log.size(), "event-lost", "%d events replayed after a %s, %d were acknowledged", (int)after.log.size(), crashed ? "crash" : "close", (int)m.log.size());
          after.log.resize(m.log.size()); after.cells.clear(); m.compare(after, false, 0); }
        if (!opened || crashed) return;
        sim::faultsEnable(true);
    }
}
// a slave connected by a lossless, but breakable channel
struct Channel : public IReplicationOutput, public IReplicationInput {
    std::deque<std::string> q; bool closed = false; bool stuck = false;
    virtual void write(const void *d, natural n) throw() { sim::yield(); sim::Quiet z; if (!closed) q.push_back(std::string((const char *)d, n)); }
    virtual bool read(void *d, natural n) throw() {
        char *o = (char *)d;
        while (n) {
            sim::waitUntil([this] { return closed || !q.empty(); }, ~0ull);
            sim::Quiet z; if (q.empty()) return false;
            std::string &s = q.front(); size_t k = std::min((size_t)n, s.size()); memcpy(o, s.data(), k); o += k; n -= k; if (k == s.size()) q.pop_front(); else s.erase(0, k);
        }
        return true;
    }
    void close(bool drop) { sim::Quiet z; closed = true; if (drop) q.clear(); }
};
SCENARIO(evdb_replicate, "C22", 2) {
    sim::setStepLimit(8000000); Fds fds; Model m; sim::enableFaults("io_eintr,io_short"); { sim::Quiet q; sim::fsMkdir("/w"); }
    int cells = sim::param("cells", 0, 3); bool sendBase = sim::coin("base");
    {
        std::unique_ptr<EventLog> master(new EventLog), slave(new EventLog); Recorder live("listener of the master"), copy("listener of the slave");
        master->addListener(&live); slave->addListener(&copy); master->open(W("/w/m")); slave->open(W("/w/s"));
        int rounds = sim::param("rounds", 1, 3);
        for (int r = 0; r < rounds; r++) {
            bool final = r == rounds - 1, cut = !final && sim::coin("cut"); Channel ch; ReplicationListener out(ch); std::vector<Ev> pending;
            int before = sim::param("before", 0, 3), n = sim::param("n", 0, 4);
            auto write = [&](int k) { for (int i = 0; i < k; i++) { jumpClock(); EventLog::Transaction t(*master); int c = sim::param("inTrn", 1, 2); for (int j = 0; j < c; j++) { sendOne(*master, t, m, 0, cells, &pending); learnCellTimes(m, live); } } };
            write(before);
            EventLog::WriteState2 st = slave->initReplication();
            SIM_CHECK(slave->isSlave(), "wrong-state", "initReplication() did not switch to the slave mode");
            bool refused = false; try { EventLog::Transaction t(*slave); } catch (const Exception &) { refused = true; } SIM_CHECK(refused, "slave-written", "transaction was opened in the slave mode");
            time_t base = sendBase ? st.lastTimestamp : 0, offset = sendBase ? 0 : st.lastTimestamp;
            {
                Crew c; c.go([&] { while (slave->readReplicationData(ch, offset)) {} });
                { Crew w; w.go([&] { write(n); }); out.bind(*master, st.ofs, base); if (cut) { for (int k = sim::param("cutAt", 0, 20); k > 0; k--) sim::yield(); ch.close(true); } }
                master->removeListener(&out); ch.close(false);
            }
            if (!cut) {
                m.compare(copy, true, 0);
                SIM_CHECK(slave->getWriteState().lastTimestamp == master->getWriteState().lastTimestamp, "replica-differs", "time of the replica differs");
                sim::Quiet q; SIM_CHECK(got("/w/s").size() == got("/w/m").size(), "replica-differs", "log of the replica has %d bytes, the original %d", (int)got("/w/s").size(), (int)got("/w/m").size());
            }
            if (!final && sim::chance("reopen", 1, 3)) { slave.reset(new EventLog); { sim::Quiet q; copy.log.clear(); copy.cells.clear(); } slave->addListener(&copy); slave->open(W("/w/s")); }
        }
        slave->stopReplication(); SIM_CHECK(!slave->isSlave(), "wrong-state", "slave mode has not been left");
        // replica takes over
        std::vector<Ev> pending; { EventLog::Transaction t(*slave); sendOne(*slave, t, m, 0, cells, &pending); } learnCellTimes(m, copy); m.compare(copy, true, 0);
        slave.reset(new EventLog); Recorder again("listener of the reopened replica"); slave->addListener(&again); slave->open(W("/w/s")); m.compare(again, false, 0);
        slave.reset(); master.reset();
    }
    fds.check("logs closed");
}
