// Processes: start, pipes between processes, waiting, termination
#include "common.h"
#include "io.h"
#include <string>
#include <exception>
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <signal.h>
#include <unistd.h>
#include <sys/wait.h>
#include "lightspeed/mt/process.h"
#include "lightspeed/mt/gate.h"
#include "lightspeed/base/streams/fileio.h"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/map.tcc"
#include "lightspeed/base/exceptions/fileExceptions.h"
#include "lightspeed/base/exceptions/stdexception.h"
#include "lightspeed/base/exceptions/systemException.h"

extern "C" char **environ;
static std::string num(long v) { return std::to_string(v); }
static std::string blob(int n, int salt) { std::string s; for (int i = 0; i < n; i++) s += (char)(33 + (i * 31 + salt * 7 + i / 50) % 90); return s; }
struct Fds { int n; Fds() : n(sim::openFds()) {} void check(const char *w) { int m = sim::openFds(); SIM_CHECK(m == n, "fd-leak", "%s: %d descriptors left open:%s", w, m - n, sim::openFdNames().c_str()); } };

// ---- programs (they know nothing of the library) ----
static bool putAll(int fd, const char *p, size_t n) { while (n) { ssize_t r = write(fd, p, n); if (r < 0) { if (errno == EINTR) continue; return false; } p += r; n -= (size_t)r; } return true; }
static bool putAll(int fd, const std::string &s) { return putAll(fd, s.data(), s.size()); }
static void programs() {
    static char e1[] = "HOME=/home/x", e2[] = "EMPTY=", e3[] = "LANG=cs_CZ"; static char *env[] = {e1, e2, e3, nullptr}; environ = env;
    sim::setProgram("/bin/cat", [](const sim::ProcInfo &) { char b[64]; for (;;) { ssize_t r = read(0, b, sizeof b); if (r < 0) { if (errno == EINTR) continue; return 7; } if (!r) return 0; if (!putAll(1, b, (size_t)r)) return 8; } });
    sim::setProgram("/bin/args", [](const sim::ProcInfo &i) {
        std::string s; { sim::Quiet q; s = "fds=" + sim::procFds() + "\ncwd=" + sim::procCwd() + "\n"; for (int k = 0; k < i.argc; k++) s += "arg=" + std::string(i.argv[k]) + "\n"; for (const char **e = i.envp; *e; e++) s += "env=" + std::string(*e) + "\n"; s += "end\n"; }
        return putAll(1, s) ? 0 : 9; });
    sim::setProgram("/bin/exit", [](const sim::ProcInfo &i) { return i.argc > 1 ? atoi(i.argv[1]) : 0; });
    sim::setProgram("/bin/die", [](const sim::ProcInfo &i) { sim::raiseHere(atoi(i.argv[1])); return 0; });
    sim::setProgram("/bin/sleep", [](const sim::ProcInfo &i) { sim::sleep_us((uint64_t)atoi(i.argv[1]) * 1000); return i.argc > 2 ? atoi(i.argv[2]) : 0; });
    sim::setProgram("/bin/forever", [](const sim::ProcInfo &) { for (;;) sim::sleep_us(3600000000ull); return 0; });
    sim::setProgram("/bin/stubborn", [](const sim::ProcInfo &i) { sim::ignoreTerm(true); putAll(1, "ready\n", 6); for (;;) sim::sleep_us(3600000000ull); return 0; });
    sim::setProgram("/bin/gen", [](const sim::ProcInfo &i) { std::string s, e; { sim::Quiet q; s = blob(atoi(i.argv[1]), 5); e = "E" + s.substr(0, std::min((size_t)9, s.size())); } if (!putAll(1, s)) return 8; if (!putAll(2, e)) return 9; return 3; });
    // copies what comes through the descriptor given as the first argument to the one given as the second
    sim::setProgram("/bin/extra", [](const sim::ProcInfo &i) { int a = -1, b = -1; char c1, c2, k; if (i.argc != 3 || sscanf(i.argv[1], "#fd:%c%c%c%d", &c1, &c2, &k, &a) != 4 || sscanf(i.argv[2], "#fd:%c%c%c%d", &c1, &c2, &k, &b) != 4) return 77; char buf[64]; for (;;) { ssize_t r = read(a, buf, sizeof buf); if (r < 0) { if (errno == EINTR) continue; return 7; } if (!r) return 0; if (!putAll(b, buf, (size_t)r)) return 8; } });
}
static void env() { programs(); sim::fsMkdir("/w/sub"); sim::fsMkdir("/bin"); int c = sim::param("pipe", 0, 3); static const int caps[] = {65536, 4096, 64, 8}; sim::pipeCapacity(caps[c]); if (sim::coin("master")) Thread::getMaster(); }
static std::string readAll(SeqFileInput &in) { std::string s; char b[50]; while (in.hasItems()) { natural n = in.blockRead(b, sizeof b, false); sim::Quiet q; s.append(b, n); } return s; }
static void idle(const char *w) { SIM_CHECK(sim::children() == 0, "process-left", "%s: %d processes were not waited for (%d zombies)", w, sim::children(), sim::zombies()); }

// one process with redirected streams, arguments, environment and directory
SCENARIO(proc_run, "C25", 3) {
    env(); sim::enableFaults("fork_fail exec_fail open_fail wait_eintr io_eintr io_short");
    sim::faultsEnable(false); IFileIOServices::getIOServices(); Thread::current(); sim::faultsEnable(true);
    int rounds = sim::param("rounds", 1, 3); Fds fds;
    bool noErr = false;
    if (sim::chance("closed", 1, 4)) { int m = sim::param("which", 1, 7); noErr = m >> 2 & 1; for (int k = 0; k < 3; k++) if (m >> k & 1) sim::closeStd(k); }
    std::unique_ptr<Process> reused;
    for (int r = 0; r < rounds; r++) {
        int what = sim::param("what", 0, 5), len = sim::param("len", 0, 300), cw = sim::param("cwd", 0, 2), nargs = sim::param("nargs", 0, 4), envMode = sim::param("env", 0, 1), code = sim::param("code", 0, 255), errMode = sim::param("err", 0, 2); bool missing = sim::chance("missing", 1, 6);
        static const char *names[] = {"/bin/cat", "/bin/args", "/bin/exit", "/bin/die", "/bin/gen", "/bin/extra"};
        static const wchar_t *texts[] = {L"", L"plain", L"with space", L"qu\"ote\\", L"\x17elu\x165ou\x10dk\xfd \x20ac"};
        static const char *u8[] = {"", "plain", "with space", "qu\"ote\\", "\xc5\xbelu\xc5\xa5ou\xc4\x8dk\xc3\xbd \xe2\x82\xac"};
        static const int sigs[] = {SIGSEGV, SIGKILL, SIGABRT}; int sig = sigs[code % 3];
        std::string body, out, err, expOut; { sim::Quiet q; body = blob(len, r); }
        ProcessEnv penv; penv.insert(ConstStrW(L"KEY"), ConstStrW(L"value=1")); penv.insert(ConstStrW(L"\x17e"), ConstStrW(L"")); if (sim::coin("inherit")) { ProcessEnv g = Process::getEnv(); SIM_CHECK(g.length() == 3, "environment", "environment of the process has %d items, it should have 3", (int)g.length()); }
        integer res = -1; bool started = false; int hadFds = sim::openFds();
        {
            std::unique_ptr<Process> p; { String nm(missing ? "/bin/none" : names[what]); p.reset(new Process(nm)); }
            SeqFileInput sout(nil), serr(nil), xout(nil); SeqFileOutput sin(nil), xin(nil);
            bool ok = false, useErr = false, useIn = false;
            try {
                if (what == 2) p->arg(natural(code)); else if (what == 3) p->arg(natural(sig)); else if (what == 4) p->arg(natural(len)); else if (what == 5) { p->arg(xin); p->arg(xout); }
                else for (int k = 0; k < nargs; k++) { if (k & 1) p->arg(ConstStrW(texts[(k + code) % 5])); else p->arg(u8[(k + code) % 5]); }
                if (what == 0) { p->stdIn(sin); useIn = true; }
                if (what == 0 || what == 1 || what == 4) { if (errMode == 2) p->stdOutErr(sout); else { p->stdOut(sout); if (errMode == 1) { p->stdErr(serr); useErr = true; } } }
                if (cw == 1) p->workDir(ConstStrW(L"/w/sub")); else if (cw == 2) p->workDir(ConstStrW(sim::coin("nodir") ? L"/w/nodir" : L"/tmp"));
                if (envMode) p->setEnv(&penv);
                ok = true;
                p->start(); started = true;
            } catch (const UnableToStartProcessException &e) {
                SIM_CHECK(ok, "wrong-exception", "start failure reported before the start");
                int en = e.getErrNo(); sim::event("start failed errno %d", en);
                bool noDir = cw == 2 && !sim::fsExists("/w/nodir") && en == ENOENT, noProg = missing && en == ENOENT, fl = sim::faultCount("fork_fail") || sim::faultCount("exec_fail") || sim::faultCount("open_fail");
                SIM_CHECK(noDir || noProg || fl, "start-fails", "process cannot be started although nothing prevents it: errno %d", en);
                SIM_CHECK(!p->isRunning(), "running-after-failure", "process which failed to start is reported as running");
            } catch (const Exception &e) { SIM_CHECK(sim::faultCount("open_fail") || sim::faultCount("fork_fail"), "start-fails", "unexpected failure: %s", e.getMessage().getUtf8().data()); }
            if (started) {
                SIM_CHECK(!missing, "started-nothing", "process started although the program does not exist");
                SIM_CHECK(p->isRunning(), "not-running", "started process is reported as not running");
                sim::event("started %s", names[what]); sim::probe("started");
                // data are served by threads as they would be by any program using more pipes at once
                {
                    std::string got5; Crew c;
                    if (useIn) c.go([&] { try { if (len) sin.blockWrite(body.data(), (natural)len, true); } catch (const Exception &) { sim::violation("write-fails", "writing to the process failed"); } sin = nil; });
                    if (useErr) c.go([&] { std::string s = readAll(serr); sim::Quiet q; err = s; });
                    if (what == 5) { c.go([&] { if (len) xin.blockWrite(body.data(), (natural)len, true); xin = nil; }); out = readAll(xout); }
                    else if (what != 2 && what != 3) out = readAll(sout);
                    c.join();
                }
                bool timed = sim::coin("timed");
                if (timed) { bool b = p->join(Timeout(naturalNull)); SIM_CHECK(b, "join-timeout", "infinite join reported timeout"); res = p->getExitCode(); } else res = p->join();
                sim::event("exit %d", (int)res);
                SIM_CHECK(!p->isRunning(), "running-after-join", "joined process is reported as running");
                SIM_CHECK(p->getExitCode() == res, "exit-code", "getExitCode differs from the result of join");
                { sim::Quiet q;
                int expRes = what == 2 ? code : what == 3 ? -sig : what == 4 ? (noErr && !errMode ? 9 : 3) : 0;
                SIM_CHECK((int)res == expRes, "exit-code", "exit code is %d, expected %d", (int)res, expRes);
                if (what == 0 || what == 5) SIM_CHECK(out == body, "data", "%d bytes went through the process and %d came back", len, (int)out.size());
                if (what == 4) { std::string g = blob(len, 5), e = "E" + g.substr(0, std::min((size_t)9, g.size())); if (errMode == 2) g += e; SIM_CHECK(out == g, "data", "process has written %d bytes and %d came", (int)g.size(), (int)out.size()); if (useErr) SIM_CHECK(err == e, "data", "standard error of the process is different"); }
                if (what == 1) {
                    std::string x = "arg=/bin/args\n"; for (int k = 0; k < nargs; k++) x += "arg=" + std::string(u8[(k + code) % 5]) + "\n";
                    if (envMode) x += "env=KEY=value=1\nenv=\xc5\xbe=\n"; else x += "env=HOME=/home/x\nenv=EMPTY=\nenv=LANG=cs_CZ\n";
                    std::string w = std::string("cwd=") + (cw == 1 ? "/w/sub" : cw == 2 ? "/tmp" : "/w") + "\n" + x + "end\n";
                    size_t nl = out.find('\n'); std::string head = nl == std::string::npos ? out : out.substr(0, nl), tail = nl == std::string::npos ? "" : out.substr(nl + 1);
                    SIM_CHECK(tail == w, "arguments", "program was started with\n%s instead of\n%s", tail.c_str(), w.c_str());
                    for (size_t k = 4; k < head.size(); k++) SIM_CHECK(head[k] == ' ' || (head[k] <= '2' && (k + 1 == head.size() || head[k + 1] == ' ')), "descriptor-inherited", "process got descriptors of its parent: %s", head.c_str());
                } }
            }
            idle("after join");
        }
        idle("after the Process object"); { int m = sim::openFds(); SIM_CHECK(m == hadFds, "fd-leak", "%d descriptors left open:%s", m - hadFds, sim::openFdNames().c_str()); }
    }
}
// chains of processes made by several threads: every program sees the end of its input
SCENARIO(proc_chain, "C25", 2) {
    env(); sim::enableFaults("wait_eintr io_eintr io_short");
    int nth = sim::param("threads", 1, 3), len = sim::param("len", 0, 400); IFileIOServices::getIOServices(); Fds fds;
    {
        Crew c;
        for (int t = 0; t < nth; t++) {
            int n = sim::param("cats", 1, 3), how = sim::param("how", 0, 1), order = sim::param("order", 0, 1);
            c.go([=] {
                std::unique_ptr<Process> p[5]; p[0].reset(new Process(String("/bin/gen"))); p[0]->arg(natural(len));
                for (int k = 1; k <= n; k++) p[k].reset(new Process(String("/bin/cat")));
                if (how) for (int k = 1; k <= n; k++) *p[k - 1] | *p[k]; else for (int k = 1; k <= n; k++) p[k - 1]->stdOut(*p[k]);
                SeqFileInput in(nil); p[n]->stdOut(in);
                if (order) for (int k = n; k >= 0; k--) p[k]->start(); else for (int k = 0; k <= n; k++) p[k]->start();
                std::string s = readAll(in);
                { sim::Quiet q; std::string w = blob(len, 5); SIM_CHECK(s == w, "data", "chain of %d processes: %d bytes written, %d came", n + 1, len, (int)s.size()); }
                for (int k = 0; k <= n; k++) { integer r = p[k]->join(); SIM_CHECK(r == (k ? 0 : 3), "exit-code", "process %d of the chain ended with %d", k, (int)r); }
            });
        }
        c.join();
    }
    idle("chains"); fds.check("chains");
}
// waiting with a time limit from several threads, with or without the signal
SCENARIO(proc_wait, "C25", 3) {
    env(); sim::enableFaults("wait_eintr"); IFileIOServices::getIOServices(); Fds fds;
    int nth = sim::param("threads", 1, 3), mainToo = sim::param("main", 0, 1);
    auto body = [&](int t) {
        int rounds = sim::param("rounds", 1, 2);
        for (int r = 0; r < rounds; r++) {
            int ms = sim::param("ms", 0, 12) * 70, tm = sim::param("tm", 0, 5), code = sim::param("code", 0, 99); static const natural tms[] = {0, 30, 200, 500, 1000, 900000};
            std::unique_ptr<Process> p(new Process(String("/bin/sleep"))); p->arg(natural(ms)); p->arg(natural(code)); p->start();
            uint64_t t0; { sim::Quiet q; t0 = sim::now_us(); } (void)t0;
            bool done = false; int tries = 0;
            do {
                uint64_t dl; std::unique_ptr<Timeout> to; { sim::Quiet q; dl = sim::now_us() + tms[tm] * 1000; to.reset(tms[tm] >= 900000 ? new Timeout(naturalNull) : new Timeout(tms[tm])); }
                bool inf = tms[tm] >= 900000;
                done = p->join(*to); uint64_t now = sim::now_us();
                sim::event("join -> %d", done);
                if (!done) {
                    SIM_CHECK(!inf, "join-timeout", "infinite join reported timeout");
                    SIM_CHECK(now + 2000 >= dl, "early-timeout", "join gave up %lld us before its time limit", (long long)(dl - now));
                    SIM_CHECK(p->isRunning(), "not-running", "process is not running although join has not finished");
                } else { SIM_CHECK(!p->isRunning(), "running-after-join", "joined process is reported as running"); }
                tm = std::min(tm + 1, 5);
            } while (!done && ++tries < 20);
            SIM_CHECK(p->getExitCode() == code, "exit-code", "exit code %d instead of %d", (int)p->getExitCode(), code);
            integer again = p->join(); SIM_CHECK(again == code, "exit-code", "second join returned %d instead of %d", (int)again, code);
        }
    };
    { Crew c; for (int t = 0; t < nth; t++) c.go([&body, t] { body(t); }); if (mainToo) body(9); c.join(); }
    idle("waits"); fds.check("waits");
}
// a join with time limit longer than the life of the process reports its end
SCENARIO(proc_wait_end, "C25", 2) {
    env(); sim::enableFaults("wait_eintr"); IFileIOServices::getIOServices(); Fds fds;
    int nth = sim::param("threads", 0, 2);
    auto body = [&](int) {
        int ms = sim::param("ms", 0, 12) * 70; std::unique_ptr<Process> p(new Process(String("/bin/sleep"))); p->arg(natural(ms)); p->start();
        uint64_t t0 = sim::now_us(); std::unique_ptr<Timeout> to; { sim::Quiet q; to.reset(new Timeout(natural(3000000))); }
        bool b = p->join(*to); uint64_t t1 = sim::now_us();
        SIM_CHECK(b, "join-timeout", "process lived %d ms and join with limit of 3000 seconds reported timeout", ms);
        SIM_CHECK(t1 - t0 < 600000000ull, "join-late", "process lived %d ms and join noticed it after %llu s", ms, (unsigned long long)(t1 - t0) / 1000000);
    };
    { Crew c; for (int t = 0; t < nth; t++) c.go([&body, t] { body(t); }); body(9); c.join(); }
    idle("waits"); fds.check("waits");
}
// termination
SCENARIO(proc_stop, "C25", 2) {
    env(); sim::enableFaults("wait_eintr io_eintr"); IFileIOServices::getIOServices(); Fds fds;
    auto body = [&] {
        int what = sim::param("what", 0, 4), wait = sim::param("wait", 0, 3); bool stub = what == 2 || what == 3;
        std::unique_ptr<Process> p(new Process(String(stub ? "/bin/stubborn" : "/bin/forever"))); SeqFileInput out(nil); if (stub) p->stdOut(out);
        p->start();
        if (stub) { char b[6]; natural n = out.blockRead(b, 6, true); SIM_CHECK(n == 6, "data", "%d bytes came", (int)n); }
        if (wait) sim::sleep_us((uint64_t)wait * 1000);
        SIM_CHECK(p->isRunning(), "not-running", "process is not reported as running");
        if (what == 4) { // process ended meanwhile is still there for its parent
            p->stop(true); sim::sleep_us(5000); p->stop(true); integer r = p->join(); SIM_CHECK(r == -SIGKILL, "exit-code", "killed process ended with %d", (int)r); p->stop(true); return; }
        p->stop(what == 1);
        if (what == 3) { bool b = p->join(Timeout(20)); SIM_CHECK(!b, "join", "process ignoring the request to stop was joined"); }
        if (stub) p->stop(true);
        integer r = p->join(); SIM_CHECK(r == (stub || what == 1 ? -SIGKILL : -SIGTERM), "exit-code", "stopped process ended with %d", (int)r);
    };
    bool inThread = sim::coin("thread");
    { Crew c; if (inThread) c.go(body); body(); c.join(); }
    idle("stop"); fds.check("stop");
}
// other threads learn about the end through the gate
SCENARIO(proc_gate, "C25", 1) {
    env(); sim::enableFaults("wait_eintr"); IFileIOServices::getIOServices(); Fds fds;
    {
        std::unique_ptr<Process> p(new Process(String("/bin/sleep"))); int ms = sim::param("ms", 0, 3) * 50, nth = sim::param("waiters", 1, 3); bool timed = sim::coin("timed"); p->arg(natural(ms)); p->arg(natural(5)); p->start();
        SIM_CHECK(!p->getJoinObject().isOpened(), "gate", "gate of a running process is open");
        Process *pp = p.get(); Crew c;
        for (int t = 0; t < nth; t++) c.go([pp] { Gate &g = pp->getJoinObject(); bool b = g.wait(nil); SIM_CHECK(b, "gate", "waiting for the gate failed"); SIM_CHECK(!pp->isRunning(), "gate", "gate is open and the process is still running"); SIM_CHECK(pp->getExitCode() == 5, "exit-code", "gate is open and exit code is %d", (int)pp->getExitCode()); });
        if (timed) pp->join(Timeout(naturalNull)); else pp->join();
        c.join();
    }
    idle("gate"); fds.check("gate");
}
// command line written as text comes back as the same arguments
SCENARIO(proc_cmdline, "C25", 0.5) {
    env(); IFileIOServices::getIOServices();
    int n = sim::param("n", 0, 4); static const char *tx[] = {"a", "two words", "q\"uo", "back\\slash", "\xc5\xbelu\xc5\xa5", "-x=1", " lead", "trail ", ""};
    std::string exp; Process a(String("/bin/args")), b(String("/bin/none"));
    for (int k = 0; k < n; k++) { int i = sim::param("t", 0, 8); a.arg(tx[i]); sim::Quiet q; exp += std::string("arg=") + tx[i] + "\n"; }
    b.cmdLine(a.getCmdLine()); SeqFileInput in(nil); b.stdOut(in); b.start(); std::string s = readAll(in); integer r = b.join();
    sim::Quiet q; SIM_CHECK(r == 0, "exit-code", "process ended with %d", (int)r);
    std::string got; size_t p = 0; bool first = true; while (p < s.size()) { size_t e = s.find('\n', p); std::string l = s.substr(p, e - p); p = e + 1; if (l.compare(0, 4, "arg=") == 0) { if (first) { SIM_CHECK(l == "arg=/bin/args", "arguments", "program is %s", l.c_str()); first = false; } else got += l + "\n"; } }
    SIM_CHECK(got == exp, "arguments", "command line gives\n%s instead of\n%s", got.c_str(), exp.c_str());
}
