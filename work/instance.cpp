// Program instance: one owner at a time, mailbox between processes, service application
#include "common.h"
#include "io.h"
#include <string>
#include <exception>
#include <algorithm>
#include <map>
#include <errno.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include "lightspeed/base/framework/proginstance.h"
#include "lightspeed/base/framework/serviceapp.h"
#include "lightspeed/base/streams/fileio.h"
#include "lightspeed/base/streams/memfile.h"
#include "lightspeed/base/text/textstream.h"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/exceptions/fileExceptions.h"
#include "lightspeed/base/exceptions/stdexception.h"
#include "lightspeed/base/exceptions/errorMessageException.h"
#include <wchar.h>

static const char *FN = "/run/svc";
static std::string blob(int n, int salt) { std::string s; for (int i = 0; i < n; i++) s += (char)(33 + (i * 31 + salt * 7 + i / 50) % 90); return s; }
static void env() { (void)IApp::currentPtr(); /* a process killed inside of this initialization would block others: C++ objects are shared here */ sim::fsMkdir("/run"); sim::sharedMemory(true); IFileIOServices::getIOServices(); Thread::current(); }
typedef ProgInstance PI;
// the library sees each simulated process as one more thread
struct Attach { AttachedThread t; };
struct Life { bool live; };          // an owner: from the begin of create() which succeeded to the end of close or of the process

// ---- one instance at a time ----
SCENARIO(inst_single, "C26", 3) {
    env(); sim::enableFaults("proc_kill flock_eintr io_eintr io_short io_enospc io_eio open_fail mmap_fail stat_fail rename_fail unlink_fail close_eio");
    int nproc = sim::param("procs", 1, 4); bool killable = sim::coin("killable");
    struct Own { int pid; bool sure, over; uint64_t b, e; };   // sure: create() returned; b..e: time when it may own the instance
    static const uint64_t INF = ~0ull; uint64_t clk = 0; std::vector<Own> owns; std::vector<int> pids;
    auto alive = [&](const Own &o) { return !o.over && sim::procState(o.pid) == 0; };
    auto mayOwn = [&](uint64_t from, uint64_t to, int notIdx) { for (size_t i = 0; i < owns.size(); i++) if ((int)i != notIdx && owns[i].b <= to && owns[i].e >= from) return true; return false; };
    auto faults = [] { return sim::faultCount("open_fail") + sim::faultCount("io_enospc") + sim::faultCount("io_eio") + sim::faultCount("mmap_fail") + sim::faultCount("stat_fail") + sim::faultCount("rename_fail") + sim::faultCount("unlink_fail") + sim::faultCount("close_eio"); };
    if (sim::chance("stale", 1, 3)) { int n = sim::param("stalelen", 0, 3); static const int ls[] = {0, 3, 100, 4096}; std::string d; { sim::Quiet q; d.assign((size_t)ls[n], '\0'); } sim::fsPut(FN, d); }
    else if (sim::chance("crashed", 1, 3)) { sim::faultsEnable(false); int p = sim::startProcess([] { PI *i = new PI(String("/run/svc")); i->create(sim::param("oldsize", 1, 3) * 50); sim::raiseHere(SIGKILL); return 0; }); sim::disown(p); while (sim::procState(p) == 0) sim::sleep_us(1000); sim::faultsEnable(true); }
    for (int k = 0; k < nproc; k++) {
        int rounds = sim::param("rounds", 1, 3), kind = sim::param("kind", 0, 3), size = sim::param("size", 0, 3) * 100 + 10;
        int pid = sim::startProcess([&, rounds, kind, size] {
            int me = sim::currentPid(); int fds0 = sim::openFds(), maps0 = sim::mappings();
            for (int r = 0; r < rounds; r++) {
                {
                    PI inst{String(FN)}; int idx; uint64_t b;
                    if (kind < 3) {
                        { sim::Quiet q; b = ++clk; idx = (int)owns.size(); owns.push_back(Own{me, false, false, b, INF}); }
                        int res = 0, f0 = faults();
                        try { inst.create((natural)size); } catch (const PI::AlreadyRunningException &e) { res = 1; SIM_CHECK(e.getPid() != 0 , "pid", "running instance has pid %d", (int)e.getPid()); } catch (const Exception &e) { res = 2; sim::event("create failed: %s", e.getMessage().getUtf8().data()); SIM_CHECK(faults() > f0, "create-fails", "create failed although nothing prevents it: %s", e.getMessage().getUtf8().data()); }
                        { sim::Quiet q; uint64_t e = ++clk; sim::event("create -> %d", res);
                          if (res) { owns[idx].e = e; owns[idx].over = true; }
                          if (res == 1) SIM_CHECK(mayOwn(b, e, idx), "false-running", "create reports a running instance and there is none");
                          if (!res) { owns[idx].sure = true; for (size_t i = 0; i < owns.size(); i++) if ((int)i != idx && owns[i].sure && alive(owns[i])) sim::violation("two-instances", "process %d created the instance while process %d has it", me, owns[i].pid); }
                        }
                        if (!res) {
                            sim::probe("owner");
                            SIM_CHECK(inst.imOwner(), "owner", "creator is not the owner"); SIM_CHECK(inst.getRequestMaxSize() == (natural)size, "size", "size of request is %d instead of %d", (int)inst.getRequestMaxSize(), size);
                            sim::sleep_us((uint64_t)sim::param("hold", 0, 3) * 2000);
                            if (sim::chance("die", 1, 6)) sim::raiseHere(SIGKILL);
                            { sim::Quiet q; owns[idx].over = true; } // from here on somebody else may take it
                            inst.close();
                            { sim::Quiet q; owns[idx].e = ++clk; }
                        }
                    } else {
                        bool sure = false; { sim::Quiet q; b = ++clk; for (auto &o : owns) if (o.sure && alive(o)) sure = true; }
                        std::vector<int> was; { sim::Quiet q; for (size_t i = 0; i < owns.size(); i++) if (owns[i].sure && alive(owns[i])) was.push_back((int)i); }
                        int res = 0, f0 = faults();
                        try { inst.open(); } catch (const PI::NotRunningException &) { res = 1; } catch (const Exception &e) { res = 2; SIM_CHECK(faults() > f0, "open-fails", "open failed although nothing prevents it: %s", e.getMessage().getUtf8().data()); }
                        { sim::Quiet q; uint64_t e = ++clk; sim::event("open -> %d", res); (void)sure;
                          if (res == 1 && faults() == f0) for (int i : was) SIM_CHECK(!alive(owns[i]), "not-running", "instance is reported as not running and process %d has it", owns[i].pid);
                          if (!res) SIM_CHECK(mayOwn(b, e, -1), "false-running", "instance was opened and nobody has it");
                          if (!res) { SIM_CHECK(!inst.imOwner(), "owner", "client is the owner"); SIM_CHECK(inst.getRequestMaxSize() % 100 == 10, "size", "opened instance has size of request %d", (int)inst.getRequestMaxSize()); sim::probe("opened"); }
                        }
                    }
                }
                int m = sim::mappings(); SIM_CHECK(m == maps0, "mapping-leak", "%d mappings left", m - maps0);
                int f = sim::openFds(); SIM_CHECK(f == fds0, "fd-leak", "%d descriptors left:%s", f - fds0, sim::openFdNames().c_str());
            }
            return 0;
        }, killable);
        sim::disown(pid); pids.push_back(pid);
    }
    for (int p : pids) while (sim::procState(p) == 0) sim::sleep_us(20000);
    { sim::Quiet q; for (auto &o : owns) if (o.e == INF) o.e = clk; }
    sim::faultsEnable(false);
    { PI last{String(FN)}; try { last.create(64); } catch (const Exception &e) { sim::violation("stale", "all processes ended and the instance cannot be created: %s", e.getMessage().getUtf8().data()); } }
    SIM_CHECK(!sim::fsExists(FN), "file-left", "instance file was left behind its owner");
    if (!sim::faultCount("unlink_fail") && !killable) for (auto &n : sim::fsList("/run")) sim::violation("file-left", "file %s was left behind", n.c_str());
}

// ---- requests ----
struct Req { int id, size; uint64_t b, e; int runs; bool ok, dead; };
static std::string answer(const std::string &rq, int size) { std::string s = rq; std::reverse(s.begin(), s.end()); while ((int)s.size() < size) s += s.empty() ? "x" : s; s.resize((size_t)size); return s; }
SCENARIO(inst_mail, "C26", 4) {
    env(); sim::enableFaults("sem_eintr proc_kill");
    int size = sim::param("size", 1, 4) * 40, nproc = sim::param("procs", 1, 4), mode = sim::param("mode", 0, 3); bool killable = sim::chance("killable", 1, 3), slow = sim::coin("slow");
    std::map<int, Req> reqs; uint64_t clk = 0; int left = nproc, cancels = 0, cancelled = 0; bool ready = false, over = false; int inService = 0; int nextId = 0;
    int server = sim::startProcess([&] {
        Attach at; PI inst{String(FN)}; inst.create((natural)size); ready = true;
        Crew c; bool go = true; int want = sim::param("cancels", 0, 2);
        { sim::Quiet q; cancels = want; }
        if (want) c.go([&] { for (int i = 0; i < want; i++) { sim::sleep_us(3000); inst.cancelWaitForRequest(); sim::event("cancelled"); } });
        while (go) {
            void *d = nullptr; uint64_t cb; { sim::Quiet q; cb = ++clk; }
            try {
                if (mode == 0) d = inst.waitForRequest(naturalNull);
                else if (mode == 1) d = inst.waitForRequest(natural(sim::param("tm", 0, 40)));
                else if (mode == 2) { d = inst.acceptRequest(); if (!d) sim::sleep_us(1000); }
                else { if (inst.anyRequest()) d = inst.acceptRequest(); if (!d) d = inst.waitForRequest(5); }
            } catch (const PI::InterruptedWaitingException &) { sim::event("interrupted"); continue; }
            if (!d) { sim::Quiet q; if (mode == 0) { cancelled++; sim::event("wait returned nothing"); } if (over) go = false; continue; }
            int id; std::string body; int rep;
            { sim::Quiet q; const char *p = (const char *)d; int sz; memcpy(&id, p, 4); memcpy(&rep, p + 4, 4); auto it = reqs.find(id);
              if (it == reqs.end()) sim::violation("request-garbage", "server got request %d which nobody sent", id);
              Req &r = it->second; sz = r.size; body.assign(p, (size_t)sz); std::string w = blob(sz, id); memcpy(&w[0], p, 8); SIM_CHECK(w == body, "request-garbage", "request %d is damaged", id);
              sim::event("serving %d", id);
              SIM_CHECK(++r.runs == 1, "executed-twice", "request %d was given to the server %d times", id, r.runs);
              SIM_CHECK(r.e > cb, "executed-late", "request %d was given to the server after its client got the timeout", id);
              SIM_CHECK(++inService == 1, "two-requests", "server is given a request while it serves another one"); }
            if (slow) sim::sleep_us((uint64_t)sim::param("work", 0, 3) * 4000); else sim::yield();
            { sim::Quiet q; SIM_CHECK(memcmp(d, body.data(), body.size()) == 0, "request-overwritten", "request %d was overwritten while the server was using it", id); inService--; }
            std::string a; { sim::Quiet q; a = answer(body, rep < 0 ? 0 : rep); if (id == 0x7fff) over = true; }
            if (sim::coin("inplace")) { memcpy(inst.getReplyBuffer(), a.data(), a.size()); inst.sendReply(natural(a.size())); } else inst.sendReply(a.data(), natural(a.size()));
            if (over) go = false;
        }
        c.join();
        return 0;
    });
    sim::disown(server);
    while (!ready) sim::sleep_us(1000);
    std::vector<int> pids;
    for (int k = 0; k < nproc; k++) {
        int n = sim::param("requests", 1, 3), nth = sim::param("threads", 1, 2); bool share = sim::coin("share");
        int pid = sim::startProcess([&, n, nth, share] {
            Attach at; PI first{String(FN)}; first.open(); PI *shared = &first; SIM_CHECK(first.getRequestMaxSize() == (natural)size && first.getReplyMaxSize() == (natural)size, "size", "wrong size of requests");
            auto body = [&](int t) {
                PI own{String(FN)}; PI *i = shared; if (!share && t) { own.open(); i = &own; }
                for (int r = 0; r < n; r++) {
                    int id, sz = sim::param("sz", 0, 3), tm = sim::param("timeout", 0, 4), rep = sim::param("rep", 0, size), space = rep - (sim::chance("small", 1, 6) ? 1 : 0); static const natural tms[] = {naturalNull, naturalNull, 5, 20, 0}; std::string rq, buf; Req *R; uint64_t dl;
                    { sim::Quiet q; id = nextId++; sz = 8 + (size - 8) * sz / 3; rq = blob(sz, id); memcpy(&rq[0], &id, 4); memcpy(&rq[4], &rep, 4); buf.assign((size_t)size + 8, '\x7e'); R = &(reqs[id] = Req{id, sz, ++clk, ~0ull, 0, false, false}); dl = tms[tm] == naturalNull ? ~0ull : sim::now_us() + tms[tm] * 1000; }
                    if (space < 0) space = 0;
                    natural got = 0; int res = 0;
                    try { got = i->request(rq.data(), rq.size(), &buf[0], natural(space), tms[tm]); }
                    catch (const PI::TimeoutException &) { res = 1; } catch (const PI::ReplyTooLarge &) { res = 2; } catch (const PI::InterruptedWaitingException &) { res = 3; } catch (const Exception &e) { sim::violation("request-fails", "request failed: %s", e.getMessage().getUtf8().data()); }
                    { sim::Quiet q; R->e = ++clk; sim::event("request %d -> %d", id, res);
                      uint64_t now = sim::now_us();
                      if (res == 0) { R->ok = true; SIM_CHECK(R->runs == 1, "answered-alone", "request %d was answered and server executed it %d times", id, R->runs); std::string a = answer(rq, rep); SIM_CHECK((int)got == rep, "reply", "reply has %d bytes instead of %d", (int)got, rep); SIM_CHECK(buf.compare(0, a.size(), a) == 0, "reply", "reply of request %d is different", id); SIM_CHECK(buf[(size_t)space] == '\x7e', "reply", "reply was written behind the buffer"); sim::probe("answered"); }
                      if (res == 1) { SIM_CHECK(tms[tm] != naturalNull, "false-timeout", "request without limit timeouted"); SIM_CHECK(now + 2000 >= dl, "early-timeout", "request gave up %lld us before its limit", (long long)(dl - now)); sim::probe("timeouted"); }
                      if (res == 2) SIM_CHECK(space < rep, "reply", "reply does not fit to its space");
                      if (res == 0) SIM_CHECK(space >= rep, "reply", "reply is larger than the buffer");
                      if (res == 3) SIM_CHECK(sim::faultCount("sem_eintr"), "interrupted", "waiting was not interrupted"); }
                }
            };
            { Crew c; for (int t = 1; t < nth; t++) c.go([&body, t] { body(t); }); body(0); c.join(); }
            return 0;
        }, killable);
        sim::disown(pid); pids.push_back(pid);
    }
    for (int p : pids) while (sim::procState(p) == 0) sim::sleep_us(50000);
    (void)left;
    // the mailbox works after everything
    sim::faultsEnable(false);
    { PI i{String(FN)}; i.open(); int id = 0x7fff, rep = 20; std::string rq = blob(16, id), buf; { sim::Quiet q; memcpy(&rq[0], &id, 4); memcpy(&rq[4], &rep, 4); reqs[id] = Req{id, 16, ++clk, ~0ull, 0, false, false}; buf.resize(64); }
      natural n = i.request(rq.data(), 16, &buf[0], 64, naturalNull); sim::Quiet q; SIM_CHECK(n == 20 && buf.compare(0, 20, answer(rq, 20)) == 0, "reply", "reply of the last request is different"); }
    while (sim::procState(server) == 0) sim::sleep_us(50000);
    SIM_CHECK(cancelled <= cancels, "false-wakeup", "waiting without limit returned %d times and it was cancelled %d times", cancelled, cancels);
    SIM_CHECK(!sim::fsExists(FN), "file-left", "instance file was left behind its owner");
}
// waiting is ended by every cancel
SCENARIO(inst_cancel, "C26", 1) {
    env(); int n = sim::param("cancels", 1, 3), nth = sim::param("clients", 0, 2); bool over = false;
    PI inst{String(FN)}; inst.create(100); std::vector<int> pids;
    for (int k = 0; k < nth; k++) { int p = sim::startProcess([&] { Attach at; PI i{String(FN)}; i.open(); char b[16]; for (int r = 0; r < 2; r++) { natural x = i.request("abcd", 4, b, 16, naturalNull); SIM_CHECK(x == 2, "reply", "reply has %d bytes", (int)x); } return 0; }); sim::disown(p); pids.push_back(p); }
    Crew c; c.go([&] { for (int i = 0; i < n; i++) { sim::sleep_us(2000); { sim::Quiet q; if (i == n - 1) over = true; } inst.cancelWaitForRequest(); } });
    int served = 0;
    for (;;) { void *d = inst.waitForRequest(naturalNull); if (d) { served++; inst.sendReply("ok", 2); } else if (over) break; }
    while (served < nth * 2) { void *d = inst.waitForRequest(naturalNull); if (d) { served++; inst.sendReply("ok", 2); } }
    c.join(); for (int p : pids) while (sim::procState(p) == 0) sim::sleep_us(20000);
}
// waiting for the end and termination of the instance
SCENARIO(inst_end, "C26", 1) {
    env(); int kind = sim::param("kind", 0, 2), ms = sim::param("ms", 0, 8) * 300, tm = sim::param("tm", 0, 4); static const natural tms[] = {0, 700, 2000, 600000, naturalNull}; bool stubborn = sim::coin("stubborn");
    bool ready = false; int p = sim::startProcess([&] { Attach at; PI i{String(FN)}; i.create(100); if (kind == 1 && stubborn) sim::ignoreTerm(true); ready = true; if (kind == 1) for (;;) sim::sleep_us(60000000); sim::sleep_us((uint64_t)ms * 1000); return 0; }); sim::disown(p);
    while (!ready) sim::sleep_us(1000);
    PI i{String(FN)}; try { i.open(); } catch (const PI::NotRunningException &) { SIM_CHECK(kind != 1 && sim::now_us() >= (uint64_t)ms * 1000, "not-running", "instance is reported as not running"); return; }
    uint64_t t0 = sim::now_us();
    if (kind == 1) { i.terminate(); SIM_CHECK(sim::procState(p) != 0, "terminate", "process is still running after terminate"); int st = sim::procStatus(p) & 127; SIM_CHECK(st == (stubborn ? SIGKILL : SIGTERM), "terminate", "process was ended by signal %d", st); return; }
    bool to = false; try { i.waitForTerminate(tms[tm]); } catch (const PI::TimeoutException &) { to = true; }
    uint64_t t1 = sim::now_us(); bool dead = sim::procState(p) != 0;
    if (!to) SIM_CHECK(dead, "wait-early", "waiting for the end returned and the process is running");
    else { SIM_CHECK(tms[tm] != naturalNull, "false-timeout", "waiting without limit timeouted"); SIM_CHECK(t1 - t0 + 2000 >= tms[tm] * 1000, "early-timeout", "waiting gave up early: %llu us of %llu ms", (unsigned long long)(t1 - t0), (unsigned long long)tms[tm]); }
}
// size limits and objects without instance
SCENARIO(inst_misuse, "C26", 0.3) {
    env(); PI i{String(FN)}; char b[64] = {0}; int n = 0;
    try { i.request(b, 1, b, 1, 0); } catch (const PI::NotInitialized &) { n++; }
    try { i.waitForRequest(0); } catch (const PI::NotInitialized &) { n++; }
    try { i.sendReply(b, 1); } catch (const PI::NotInitialized &) { n++; }
    try { i.open(); } catch (const PI::NotRunningException &) { n++; }
    int sz = sim::param("sz", 1, 3) * 10; i.create((natural)sz);
    try { i.request(b, (natural)sz + 1, b, 64, 0); } catch (const PI::RequestTooLarge &) { n++; }
    try { i.sendReply(b, (natural)sz + 1); } catch (const PI::ReplyTooLarge &) { n++; }
    try { i.sendReply((natural)sz + 1); } catch (const PI::ReplyTooLarge &) { n++; }
    SIM_CHECK(n == 7, "misuse", "%d of 7 wrong calls were refused", n);
    SIM_CHECK(!i.anyRequest() && !i.acceptRequest() && !i.waitForRequest(0), "request-garbage", "there is a request in a new instance");
    i.close(); SIM_CHECK(!sim::fsExists(FN), "file-left", "instance file was left");
}

// ---- service application ----
struct Sink : public IOutputStream { std::string &s; bool closed = false; Sink(std::string &s) : s(s) {} natural write(const void *p, natural n) override { sim::Quiet q; s.append((const char *)p, n); return n; } bool canWrite() const override { return !closed; } void flush() override {} void closeOutput() override { closed = true; } };
struct SvcModel { int running = 0, starts = 0, stops = 0; std::map<std::string, int> seen; };
struct SvcApp : public ServiceApp {
    SvcModel &m; std::string text; bool serving = false; int hang; std::function<void()> started;
    SvcApp(SvcModel &m, natural timeout, natural buf, int hang = 0) : ServiceApp(integerNull, timeout), m(m), hang(hang) { setBufferSize(buf); }
    integer startCommand(ConstStrA command, const Args &args, SeqFileOutput &) override { SeqFileOutput out(new Sink(text)); return ServiceApp::startCommand(command, args, out); }
    integer onStartError(SeqFileOutput) override { SeqFileOutput out(new Sink(text)); return ServiceApp::onStartError(out); }
    integer startService() override { { sim::Quiet q; serving = true; SIM_CHECK(++m.running == 1, "two-instances", "two services are running"); sim::event("service runs"); } if (started) started(); integer r = ServiceApp::startService(); { sim::Quiet q; m.running--; sim::event("service ends"); } return r; }
    integer onMessage(ConstStrA command, const Args &args, SeqFileOutput output) override {
        std::string c; { sim::Quiet q; c.assign(command.data(), command.length()); }
        if (serving && hang) for (;;) sim::sleep_us(3600000000ull);
        if (c == "echo" || c == "fail") {
            std::string s; for (natural i = 0; i < args.length(); i++) { StringA a = String::getUtf8(args[i]); sim::Quiet q; s += "[" + std::string(a.c_str(), a.length()) + "]"; }
            { sim::Quiet q; sim::event("serving %s", s.c_str()); SIM_CHECK(serving, "executed-elsewhere", "command was executed by its sender"); SIM_CHECK(++m.seen[s] == 1, "executed-twice", "command %s was executed twice", s.c_str()); }
            sim::yield();
            if (c == "fail") throw ErrorMessageException(THISLOCATION, String("refused"));
            output.blockWrite(s.data(), s.size(), true); return (integer)args.length();
        }
        if (c == "quit") { stop(); return 7; }
        return ServiceApp::onMessage(command, args, output);
    }
    integer run(const std::vector<std::wstring> &a) { AutoArray<ConstStrW> x; { for (auto &s : a) x.add(ConstStrW(s.c_str())); } return start(x); }
    static std::vector<std::wstring> cmd(const wchar_t *c) { sim::Quiet q; return std::vector<std::wstring>{L"/bin/svc", L"/run/svc", c}; }
};
static const wchar_t *ATX[] = {L"", L"plain", L"with space", L"\x17elu\x165ou\x10dk\xfd", L"x"};
static const char *AU8[] = {"", "plain", "with space", "\xc5\xbelu\xc5\xa5ou\xc4\x8dk\xc3\xbd", "x"};
SCENARIO(svc_app, "C26", 2) {
    env(); SvcModel m; bool up = false; int buf = sim::param("buf", 0, 2) * 150, nproc = sim::param("clients", 1, 3), ending = sim::param("ending", 0, 2);
    auto serverBody = [&] { AttachedThread at; SvcApp a(m, naturalNull, (natural)buf); a.started = [&] { up = true; }; integer r = a.run(SvcApp::cmd(L"run")); sim::event("run -> %d", (int)r); return (int)(r & 255); };
    int server = sim::startProcess(serverBody); sim::disown(server); while (!up) sim::sleep_us(1000);
    std::vector<int> pids;
    for (int k = 0; k < nproc; k++) {
        int n = sim::param("commands", 1, 3);
        int p = sim::startProcess([&, k, n] {
            AttachedThread at;
            for (int r = 0; r < n; r++) {
                int what = sim::param("what", 0, 5), na = sim::param("args", 0, 4); SvcApp a(m, naturalNull, (natural)buf); std::vector<std::wstring> c; std::string e;
                if (what == 5) { // second service of the same name
                    integer x = a.run(SvcApp::cmd(L"run")); SIM_CHECK(x == 100, "second-service", "second service ended with %d", (int)x); SIM_CHECK(a.text.find("already running") != std::string::npos, "second-service", "second service says %s", a.text.c_str()); continue; }
                { sim::Quiet q; c = SvcApp::cmd(what == 0 ? L"status" : what == 1 ? L"fail" : what == 2 ? L"unknown" : L"echo"); wchar_t id[32]; swprintf(id, 32, L"%d.%d", k, r); c.push_back(id); e = "[" + std::to_string(k) + "." + std::to_string(r) + "]"; for (int i = 0; i < na; i++) { int t = sim::param("t", 0, 4); if (what == 4 && buf > 150 && i == 0) { c.push_back(std::wstring(400, L'z')); e += "[" + std::string(400, 'z') + "]"; } else { c.push_back(ATX[t]); e += "[" + std::string(AU8[t]) + "]"; } } }
                integer x = a.run(c); sim::Quiet q; sim::event("command -> %d", (int)x);
                bool tooLong = (int)e.size() > (buf ? buf : 3000) - 40;
                if (tooLong) { SIM_CHECK(x == 100 || x == (integer)(na + 1) || x == -1, "command", "long command ended with %d", (int)x); continue; }
                if (what == 0) { SIM_CHECK(x == 0 && a.text == "Service is running\n", "command", "status: %d %s", (int)x, a.text.c_str()); }
                else if (what == 1) { SIM_CHECK(x == -1 && a.text.find("refused") != std::string::npos, "command", "fail: %d %s", (int)x, a.text.c_str()); }
                else if (what == 2) { SIM_CHECK(x == integerNull && a.text.empty(), "command", "unknown: %d %s", (int)x, a.text.c_str()); }
                else { SIM_CHECK(x == na + 1, "command", "echo: %d instead of %d: %s", (int)x, na + 1, a.text.c_str()); SIM_CHECK(a.text == e, "command", "echo: %s instead of %s", a.text.c_str(), e.c_str()); SIM_CHECK(m.seen[e] == 1, "command", "command was not executed"); sim::probe("commands"); }
            }
            return 0;
        });
        sim::disown(p); pids.push_back(p);
    }
    for (int p : pids) while (sim::procState(p) == 0) sim::sleep_us(50000);
    bool waited = false; int waiter = 0; if (sim::coin("waiter")) { waiter = sim::startProcess([&] { AttachedThread at; SvcApp a(m, naturalNull, (natural)buf); integer x = a.run(SvcApp::cmd(L"wait")); SIM_CHECK(x == 0 || x == 100, "wait", "wait ended with %d", (int)x); waited = true; return 0; }); sim::disown(waiter); sim::sleep_us(5000); }
    {
        SvcApp a(m, naturalNull, (natural)buf); integer x = a.run(SvcApp::cmd(ending == 0 ? L"quit" : L"stop"));
        SIM_CHECK(x == (ending == 0 ? 7 : 0), "stop", "stopping ended with %d %s", (int)x, a.text.c_str());
        if (ending) SIM_CHECK(sim::procState(server) != 0, "stop", "stop ended and the service is still running");
    }
    while (sim::procState(server) == 0) sim::sleep_us(50000);
    if (waiter) { while (sim::procState(waiter) == 0) sim::sleep_us(50000); }
    (void)waited; SIM_CHECK(m.running == 0, "stop", "service did not end"); SIM_CHECK(!sim::fsExists(FN), "file-left", "instance file was left");
    { SvcApp a(m, naturalNull, (natural)buf); integer x = a.run(SvcApp::cmd(L"status")); SIM_CHECK(x == 100 && a.text.find("not running") != std::string::npos, "status", "status of stopped service: %d %s", (int)x, a.text.c_str()); }
    if (ending == 2) { up = false; server = sim::startProcess(serverBody); sim::disown(server); while (!up) sim::sleep_us(1000); SvcApp a(m, naturalNull, (natural)buf); integer x = a.run(SvcApp::cmd(L"stop")); SIM_CHECK(x == 0, "stop", "stopping ended with %d", (int)x); SIM_CHECK(sim::procState(server) != 0, "stop", "stop ended and the service is still running"); }
}
// service which does not answer, or does not end, is terminated by the stop command
SCENARIO(svc_hang, "C26", 0.7) {
    env(); SvcModel m; bool up = false; int kind = sim::param("kind", 0, 2); bool stubborn = sim::coin("stubborn");
    int server = sim::startProcess([&] { AttachedThread at; if (stubborn) sim::ignoreTerm(true); SvcApp a(m, naturalNull, 0, kind == 0); a.started = [&] { up = true; }; a.run(SvcApp::cmd(L"run")); if (kind == 1) for (;;) sim::sleep_us(3600000000ull); return 0; });
    sim::disown(server); while (!up) sim::sleep_us(1000);
    SvcApp a(m, 500, 0); integer x = a.run(SvcApp::cmd(L"stop"));
    SIM_CHECK(x == 0, "stop", "stop of a hanging service ended with %d %s", (int)x, a.text.c_str());
    SIM_CHECK(sim::procState(server) != 0, "stop", "stop ended and the service is still running");
    sim::Quiet q; m.running = 0;
}
// stop requested by another thread of the service, at any moment
SCENARIO(svc_stop, "C26", 0.7) {
    env(); SvcModel m; std::vector<int> pids; int n = sim::param("clients", 0, 2);
    SvcApp a(m, naturalNull, 0); std::unique_ptr<Crew> c(new Crew); bool inStart = sim::coin("early");
    a.started = [&] { for (int k = 0; k < n; k++) { int p = sim::startProcess([&, k] { AttachedThread at; SvcApp b(m, 30, 0); std::vector<std::wstring> x = SvcApp::cmd(L"echo"); { sim::Quiet q; x.push_back(std::to_wstring(k)); } integer r = b.run(x); SIM_CHECK(r == 1 || r == 100, "command", "echo: %d %s", (int)r, b.text.c_str()); return 0; }); sim::disown(p); sim::Quiet q; pids.push_back(p); }
        if (inStart) a.stop(); else c->go([&] { sim::sleep_us((uint64_t)sim::param("ms", 0, 3) * 1000); a.stop(); }); };
    integer r = a.run(SvcApp::cmd(L"run")); SIM_CHECK(r == 0, "stop", "service ended with %d %s", (int)r, a.text.c_str());
    c->join(); for (int p : pids) while (sim::procState(p) == 0) sim::sleep_us(20000);
}
