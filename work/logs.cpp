// logging: whole lines, levels, rotation, listeners; progress reports
#include "common.h"
#include "io.h"
#include <string>
#include <exception>
#include <map>
#include <set>
#include <algorithm>
#include <time.h>
#include <stdio.h>
#include "lightspeed/base/debug/dbglog.h"
#include "lightspeed/base/debug/stdlogoutput.h"
#include "lightspeed/base/debug/livelog.h"
#include "lightspeed/base/debug/progress.h"
#include "lightspeed/base/streams/fileio.h"
#include "lightspeed/base/text/textFormat.tcc"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/exceptions/fileExceptions.h"
#include "lightspeed/base/exceptions/stdexception.h"
#include "lightspeed/base/exceptions/errorMessageException.h"
#include "lightspeed/mt/fastlock.h"

static IFileIOServices &svc() { return IFileIOServices::getIOServices(); }
static ConstStrA cs(const std::string &s) { return ConstStrA(s.data(), s.size()); }
static String W(const std::string &s) { return String(ConstStrA(s.data(), s.length())); }
struct Fds { int n; Fds() : n(sim::openFds()) {} void check(const char *w) { int m = sim::openFds(); SIM_CHECK(m == n, "fd-leak", "%s: %d descriptors left open:%s", w, m - n, sim::openFdNames().c_str()); } };
template<class Fn> static bool throws(Fn f) { try { f(); return false; } catch (const Exception &) { return true; } }
static std::string got(const std::string &p) { sim::Quiet q; std::string s; sim::fsGet(p.c_str(), s); return s; }
static ILogOutput *gOut; static ILogOutput &provider() { return *gOut; }

static const char symb[] = "?FEWNPID";
// maximal sub-levels; index is the type
struct Levels {
    unsigned long max[8];
    Levels() { for (auto &m : max) m = ~0ul; }
    bool on(int type, int level) const { return (unsigned long)level <= max[type]; }
};
// draws a specification of levels, returns its text
static std::string drawLevels(Levels &l) {
    int k = sim::param("levels", 0, 9); static const char *words[] = {"fatal", "error", "warning", "note", "progress", "info", "debug", "all"};
    if (k < 8) { sim::Quiet q; for (int t = 1; t <= 7; t++) l.max[t] = t <= k + 1 ? ~0ul : 0; if (k == 5) l.max[6] = ~0ul; return words[k]; }
    std::string s;
    for (int t = 1; t <= 7; t++) if (sim::chance("set", 2, 3)) { int v = sim::param("sub", 0, 4); sim::Quiet q; s += symb[t]; if (v == 4) { s += "*"; l.max[t] = ~0ul; } else { s += std::to_string(v == 3 ? 12 : v); l.max[t] = v == 3 ? 12 : v; } }
    return s;
}
struct Msg { int th, n, type, level; std::string text; };
static std::string padding(int n, int salt) { std::string s; for (int i = 0; i < n; i++) s += "abc %d[]:(x)~"[(i * 5 + salt) % 13]; return s; }
// logs one message in the nesting depth given by its level
static void logAt(const Msg &m, int depth, const Levels *lv) {
    LogObject log(THISLOCATION);
    if (depth > 1) { logAt(m, depth - 1, lv); return; }
    if (lv) {
        bool e; switch (m.type) { case 1: e = log.isFatalEnabled(); break; case 2: e = log.isErrorEnabled(); break; case 3: e = log.isWarningEnabled(); break; case 4: e = log.isNoteEnabled(); break; case 5: e = log.isProgressEnabled(); break; case 6: e = log.isInfoEnabled(); break; default: e = log.isDebugEnabled(); }
        SIM_CHECK(e == lv->on(m.type, m.level), "level", "message of type %c%d is %s, levels say otherwise", symb[m.type], m.level, e ? "enabled" : "disabled");
    }
    int style = m.n % 3; ConstStrA t = cs(m.text);
    if (style == 0) switch (m.type) { case 1: log.fatal("m%1.%2 %3") << m.th << m.n << t; break; case 2: log.error("m%1.%2 %3") << m.th << m.n << t; break; case 3: log.warning("m%1.%2 %3") << m.th << m.n << t; break; case 4: log.note("m%1.%2 %3") << m.th << m.n << t; break; case 5: log.progress("m%1.%2 %3") << m.th << m.n << t; break; case 6: log.info("m%1.%2 %3") << m.th << m.n << t; break; default: log.debug("m%1.%2 %3") << m.th << m.n << t; }
    else if (style == 1) log((ILogOutput::LogType)m.type, "m%2.%3 %1") << t << m.th << m.n;
    else { log((ILogOutput::LogType)m.type, "m%1.%2 %3") << m.th << m.n << t; }
}
static Msg drawMsg(int th, int n) {
    Msg m; m.th = th; m.n = n; m.type = sim::param("type", 1, 7); m.level = sim::param("level", 1, 3); int p = sim::param("pad", 0, 6); static const int pads[] = {0, 1, 5, 20, 60, 200, 1100};
    sim::Quiet q; if (pads[p] >= 200) sim::setStepLimit(6000000); m.text = padding(pads[p], th * 3 + n); return m;
}
struct Line { int year, month, day, hour, min, sec, th, n, type; long level; std::string ident, text, file; int line; };
// parses one line of the format F 1..; default format when custom is false
static bool parseLine(const std::string &s, bool custom, Line &l) {
    char ty = 0; int used = 0; char id[64], file[256]; const char *p = s.c_str();
    if (custom) { // %7|%8|%9|%12|%13|%1-%2-%3 %4:%5:%6|%10|%11
        char fn[64];
        if (sscanf(p, "%c|%ld|%63[^|]|%255[^|]|%d|%d-%d-%d %d:%d:%d|%n", &ty, &l.level, id, file, &l.line, &l.year, &l.month, &l.day, &l.hour, &l.min, &l.sec, &used) != 11 || !used) return false;
        size_t b = s.rfind('|'); if (b == std::string::npos || b < (size_t)used) return false; if (s.substr(b + 1) != "logAt") return false; (void)fn;
        l.text = s.substr(used, b - used);
    } else {
        if (sscanf(p, "%4d/%2d/%2d %2d:%2d:%2d %c%ld: [%63[^]]] %n", &l.year, &l.month, &l.day, &l.hour, &l.min, &l.sec, &ty, &l.level, id, &used) != 9 || !used) return false;
        if (s.size() < 28 || s[4] != '/' || s[7] != '/' || s[13] != ':' || s[16] != ':' || s[19] != ' ') return false;
        size_t b = s.rfind(" ("); if (b == std::string::npos || b < (size_t)used) { if (b != (size_t)used - 1) return false; } size_t c = s.rfind(':'); if (s[s.size() - 1] != ')' || c < b) return false;
        l.file.assign(s, b + 2, c - b - 2); l.line = atoi(s.c_str() + c + 1); l.text = s.substr(used, b > (size_t)used ? b - used : 0);
    }
    if (custom) l.file = file;
    l.ident = id; const char *f = strchr(symb, ty); if (!f || ty == '?') return false; l.type = (int)(f - symb);
    int k = 0; if (sscanf(l.text.c_str(), "m%d.%d%n", &l.th, &l.n, &k) != 2 || l.text[k] != ' ') return false; l.text = l.text.substr(k + 1);
    return true;
}
static std::vector<std::string> lines(const std::string &s, bool &torn) { std::vector<std::string> r; size_t p = 0; torn = false; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) { torn = true; r.push_back(s.substr(p)); break; } r.push_back(s.substr(p, e - p)); p = e + 1; } return r; }
typedef std::map<std::pair<int, int>, Msg> Msgs;
// checks the text of a log: exactly the enabled messages, each once, whole, in the order of each thread
static void checkLog(const char *what, const std::string &text, const Msgs &all, const Levels &lv, bool custom, time_t from, time_t to, bool rotateErrors) {
    sim::Quiet q; bool torn; std::map<int, int> last; std::set<std::pair<int, int>> seen;
    for (auto &s : lines(text, torn)) {
        Line l;
        if (s.find("Exception during logRotate") != std::string::npos) { SIM_CHECK(rotateErrors, "rotate-failed", "%s: rotation failed: %s", what, s.c_str()); continue; }
        SIM_CHECK(!torn && parseLine(s, custom, l), "torn-line", "%s: bad line '%.200s'", what, s.c_str());
        auto i = all.find(std::make_pair(l.th, l.n)); SIM_CHECK(i != all.end(), "torn-line", "%s: message m%d.%d was never logged", what, l.th, l.n); const Msg &m = i->second;
        SIM_CHECK(l.text == m.text && l.type == m.type && l.level == m.level && l.ident == "w" + std::to_string(m.th) && l.file.find("logs.cpp") != std::string::npos && l.line > 20, "torn-line", "%s: message m%d.%d was logged as '%.200s'", what, l.th, l.n, s.c_str());
        SIM_CHECK(lv.on(m.type, m.level), "level", "%s: disabled message %c%d was logged", what, symb[m.type], m.level);
        SIM_CHECK(seen.insert(i->first).second, "repeated", "%s: message m%d.%d is there twice", what, l.th, l.n);
        SIM_CHECK(!last.count(l.th) || last[l.th] < l.n, "order", "%s: message m%d.%d is behind m%d.%d", what, l.th, l.n, l.th, last[l.th]); last[l.th] = l.n;
        struct tm t; memset(&t, 0, sizeof t); t.tm_year = l.year - 1900; t.tm_mon = l.month - 1; t.tm_mday = l.day; t.tm_hour = l.hour; t.tm_min = l.min; t.tm_sec = l.sec; time_t v = timegm(&t);
        SIM_CHECK(v >= from && v <= to, "timestamp", "%s: message logged at %ld..%ld has time %ld", what, (long)from, (long)to, (long)v);
    }
    for (auto &m : all) if (lv.on(m.second.type, m.second.level)) SIM_CHECK(seen.count(m.first), "lost", "%s: message m%d.%d (%c%d) is missing", what, m.first.first, m.first.second, symb[m.second.type], m.second.level);
}
struct TestLog : public StdLogOutput {};
SCENARIO(log_threads, "C24", 4) {
    bool faulty = sim::chance("faulty", 1, 4); sim::enableFaults(faulty ? "io_eintr,io_short,open_fail" : "io_eintr,io_short"); Fds fds; sim::setStepLimit(3000000);
    { sim::Quiet q; sim::fsMkdir("/w"); }
    Levels lv; Msgs all; int nth = sim::param("threads", 1, 3), per = sim::param("per", 1, 6), rot = sim::param("rotations", 0, 3); bool custom = sim::coin("custom"), err = sim::coin("stderr"); time_t from; std::vector<std::string> files;
    {
        std::unique_ptr<TestLog> out(new TestLog); gOut = out.get(); DbgLog::setLogProvider(&provider);
        if (!err) out->enableStderr(false); if (custom) out->setFormat("%7|%8|%9|%12|%13|%1-%2-%3 %4:%5:%6|%10|%11\n");
        bool opened = !throws([&] { out->setFile(W("/w/log")); }); SIM_CHECK(opened || faulty, "spurious-error", "log file cannot be opened");
        if (!opened) { sim::faultsEnable(false); out->setFile(W("/w/log")); sim::faultsEnable(true); }
        if (sim::coin("lev")) { std::string s = drawLevels(lv); DbgLog::setLogLevel(cs(s)); sim::event("levels %s", s.c_str()); }
        from = time(0);
        auto logs = [&](int i, int b, int n) { { std::string nm; { sim::Quiet q; nm = "w" + std::to_string(i); } if (sim::coin("nmA")) DbgLog::setThreadName(cs(nm), false); else if (sim::coin("nmB")) DbgLog::setThreadName(StringA(cs(nm)), false); else DbgLog::setThreadName(nm.c_str(), false); ConstStrA g = DbgLog::getThreadName(); sim::Quiet q; SIM_CHECK(std::string(g.data(), g.length()) == nm, "thread-name", "name of thread is not what was set"); }
            for (int k = b; k < b + n; k++) { Msg m = drawMsg(i, k); { sim::Quiet q; all[std::make_pair(i, k)] = m; } logAt(m, m.level, &lv); if (sim::chance("nap", 1, 8)) sim::sleep_us(sim::param("napms", 1, 1500) * 1000); } };
        {
            Crew c; for (int i = 0; i < nth; i++) c.go([&, i] { logs(i, 0, per); });
            for (int r = 0; r < rot; r++) {
                sim::sleep_us(sim::param("rotus", 0, 3000));
                if (sim::fsExists("/w/log")) { std::string nn; { sim::Quiet q; nn = "/w/log." + std::to_string(r); } svc().move(W("/w/log"), W(nn), true); sim::Quiet q; files.push_back(nn); sim::event("log renamed to %s", nn.c_str()); }
                if (sim::chance("direct", 1, 4)) { bool t = throws([&] { DbgLog::logRotate(); }); SIM_CHECK(!t || faulty, "rotate-failed", "logRotate() failed"); } else DbgLog::logRotateAll();
            }
        }
        // rotation asked for now takes place before the next message
        sim::faultsEnable(false);
        if (sim::coin("lastrot")) {
            if (sim::fsExists("/w/log")) { svc().move(W("/w/log"), W("/w/log.last"), true); sim::Quiet q; files.push_back("/w/log.last"); }
            DbgLog::logRotateAll(); std::string before; { sim::Quiet q; for (auto &f : files) before += got(f); }
            logs(9, 0, 1); const Msg m = all[std::make_pair(9, 0)]; bool on = lv.on(m.type, m.level); std::string after = got("/w/log"); sim::Quiet q; std::string old; for (auto &f : files) old += got(f);
            SIM_CHECK(old == before, "rotate-failed", "message logged after logRotateAll() went to the old file"); if (on) SIM_CHECK(!after.empty(), "rotate-failed", "message logged after logRotateAll() is not in the new file");
        }
        DbgLog::setLogProvider(DbgLog::getNoLogProvider()); out.reset();
    }
    time_t to = time(0); std::string text; { sim::Quiet q; files.push_back("/w/log"); for (auto &f : files) text += got(f); }
    checkLog("log file", text, all, lv, custom, from, to, faulty && sim::faultCount("open_fail"));
    std::string e = sim::stdioText(2); SIM_CHECK(e == (err ? text : std::string()), "stderr", "standard error got %d bytes, log files %d", (int)e.size(), (int)text.size());
    fds.check("log destroyed");
}
// failing disk: messages may be lost, the program continues and later messages are whole
SCENARIO(log_faults, "C24", 1) {
    sim::enableFaults("io_eintr,io_short,io_enospc,io_eio,open_fail,close_eio"); Fds fds; { sim::Quiet q; sim::fsMkdir("/w"); } Levels lv; Msgs all, good; int nth = sim::param("threads", 1, 3), per = sim::param("per", 1, 5); time_t from = time(0);
    {
        std::unique_ptr<TestLog> out(new TestLog); gOut = out.get(); DbgLog::setLogProvider(&provider); out->enableStderr(false); sim::faultsEnable(false); out->setFile(W("/w/log")); sim::faultsEnable(true);
        auto logs = [&](int i, int n, Msgs &ms) { std::string nm; { sim::Quiet q; nm = "w" + std::to_string(i); } DbgLog::setThreadName(cs(nm), false); for (int k = 0; k < n; k++) { Msg m = drawMsg(i, k); { sim::Quiet q; ms[std::make_pair(i, k)] = m; } logAt(m, m.level, 0); } };
        { Crew c; for (int i = 0; i < nth; i++) c.go([&, i] { logs(i, per, all); if (sim::chance("rot", 1, 3)) DbgLog::logRotateAll(); }); }
        std::string text = got("/w/log"); { sim::Quiet q; for (auto &m : all) { std::string id = "m" + std::to_string(m.first.first) + "." + std::to_string(m.first.second) + " "; size_t a = text.find(id); if (a != std::string::npos && m.second.text.size() > 60) SIM_CHECK(text.find(id + m.second.text, a + 1) == std::string::npos, "repeated", "message is in the log twice"); } }
        sim::faultsEnable(false); size_t at; { sim::Quiet q; at = got("/w/log").size(); }
        logs(7, 3, good); text = got("/w/log"); { sim::Quiet q; SIM_CHECK(text.size() >= at, "lost", "log has shrunk"); text = text.substr(at); } checkLog("log after faults", text, good, lv, false, from, time(0), true);
        DbgLog::setLogProvider(DbgLog::getNoLogProvider()); out.reset();
    }
    fds.check("log destroyed");
}
// ---- listeners ----
struct Listener : public LiveLogStream {
    struct Got { uint64_t at; Line l; bool note; };
    int id; std::vector<Line> got; int notes = 0; bool closed = false, removed = false, inside = false; int failAt = -1; int lev;
    Listener(int id, int lev) : LiveLogStream((ILogOutput::LogType)lev), id(id), lev(lev) {}
    virtual void onData(ConstStringT<byte> d) {
        { sim::Quiet q; sim::event("listener %d gets %d bytes", id, (int)d.length()); SIM_CHECK(!closed && !removed, "called-after-end", "listener %d called after it was removed", id); SIM_CHECK(!inside, "concurrent", "listener %d called from two threads at once", id); inside = true;
          std::string s((const char *)d.data(), d.length()); SIM_CHECK(!s.empty() && s[s.size() - 1] == '\n', "torn-line", "listener got a text which is not a line"); s.resize(s.size() - 1);
          Line l; if (s.find("Livelog: ") != std::string::npos) notes++; else { SIM_CHECK(parseLine(s, false, l), "torn-line", "listener got bad line '%.200s'", s.c_str()); SIM_CHECK(l.type <= lev, "level", "listener of level %d got a message of type %d", lev, l.type); got.push_back(l); } }
        sim::yield();
        if (sim::chance("chat", 1, 10)) LS_LOG.note("said by the listener"); // must not come back
        sim::Quiet q; inside = false; if (failAt == 0) throw ErrorMessageException(THISLOCATION, "listener is gone"); if (failAt > 0) failAt--;
    }
    virtual void onClose() { sim::Quiet q; sim::event("listener %d closed", id); SIM_CHECK(!closed, "closed-twice", "listener %d closed twice", id); closed = true; }
};
struct TestLive : public LiveLog {};
SCENARIO(log_listeners, "C24", 3) {
    sim::enableFaults("io_eintr,io_short"); Fds fds; { sim::Quiet q; sim::fsMkdir("/w"); } sim::setStepLimit(3000000);
    struct Rec { Msg m; uint64_t begin, end; }; std::vector<Rec> recs; Levels lv; int nth = sim::param("threads", 1, 3), per = sim::param("per", 1, 5), nl = sim::param("listeners", 1, 3); bool keep = sim::coin("keep"); time_t from = time(0); Msgs all;
    {
        std::unique_ptr<TestLive> out(new TestLive); gOut = out.get(); DbgLog::setLogProvider(&provider); out->enableStderr(false); out->setFile(W("/w/log"));
        if (sim::coin("lev")) { std::string s = drawLevels(lv); static_cast<ILogOutput &>(*out).setLogLevel(cs(s)); }
        std::vector<std::unique_ptr<Listener>> kept; bool failing = sim::chance("failing", 1, 3);
        {
            Crew c;
            for (int i = 0; i < nth; i++) c.go([&, i] { std::string nm; { sim::Quiet q; nm = "w" + std::to_string(i); } DbgLog::setThreadName(cs(nm), false); for (int k = 0; k < per; k++) { Msg m = drawMsg(i, k); size_t at; { sim::Quiet q; all[std::make_pair(i, k)] = m; at = recs.size(); recs.push_back(Rec{m, sim::stamp(), ~0ull}); } logAt(m, m.level, 0); { sim::Quiet q; recs[at].end = sim::stamp(); } if (sim::chance("nap", 1, 4)) sim::sleep_us(sim::param("napus", 1, 300)); } });
            for (int j = 0; j < nl; j++) c.go([&, j] {
                DbgLog::setThreadName("listener", false);
                int rounds = sim::param("rounds", 1, 2);
                for (int r = 0; r < rounds; r++) {
                    sim::sleep_us(sim::param("wait", 0, 300)); int lev = sim::param("llev", 1, 7); Listener *l; { sim::Quiet q; } l = new Listener(j, lev); if (failing && sim::coin("f")) l->failAt = sim::param("failat", 0, 3); bool fails = l->failAt >= 0;
                    uint64_t a, b, e; out->add(l); a = sim::stamp(); sim::sleep_us(sim::param("stay", 0, 600)); b = sim::stamp(); if (sim::chance("nap2", 1, 5)) sim::yield();
                    bool leave = keep && r == rounds - 1; if (leave) { sim::Quiet q; kept.emplace_back(l); return; }
                    out->remove(l); e = sim::stamp();
                    {
                        sim::Quiet q; l->removed = true; SIM_CHECK(!l->inside, "called-after-end", "listener removed while it is being called"); SIM_CHECK(l->closed, "not-closed", "removed listener was not closed");
                        std::set<std::pair<int, int>> s; std::map<int, int> last;
                        for (auto &x : l->got) { SIM_CHECK(s.insert(std::make_pair(x.th, x.n)).second, "repeated", "listener got message m%d.%d twice", x.th, x.n); SIM_CHECK(!last.count(x.th) || last[x.th] < x.n, "order", "listener got messages in other order"); last[x.th] = x.n; auto i = all.find(std::make_pair(x.th, x.n)); SIM_CHECK(i != all.end() && i->second.text == x.text && i->second.type == x.type && i->second.level == x.level, "torn-line", "listener got another message than it was logged"); }
                        if (!fails) for (auto &x : recs) { bool in = s.count(std::make_pair(x.m.th, x.m.n)); if (x.begin > a && x.end < b && x.m.type <= lev) SIM_CHECK(in, "lost", "listener of level %d did not get message m%d.%d of type %d", lev, x.m.th, x.m.n, x.m.type); if (in) SIM_CHECK(x.begin < e, "called-after-end", "listener got a message logged after it was removed"); }
                    }
                    delete l;
                }
            });
        }
        if (sim::coin("destroyFirst")) kept.clear();
        DbgLog::setLogProvider(DbgLog::getNoLogProvider()); out.reset();
        for (auto &l : kept) SIM_CHECK(l->closed || l->failAt >= 0, "not-closed", "listener was not closed by destruction of the log");
    }
    // notes about listeners are in the log as well
    std::string text = got("/w/log"), own; { sim::Quiet q; bool torn; for (auto &s : lines(text, torn)) { SIM_CHECK(!torn, "torn-line", "torn line in the log"); SIM_CHECK(s.find("said by the listener") == std::string::npos, "recursion", "message of a listener came to the log"); if (s.find("Livelog: ") == std::string::npos) own += s + "\n"; } }
    checkLog("log file", own, all, lv, false, from, time(0), false); fds.check("log destroyed");
}
// redirection is limited to its scope and thread
SCENARIO(log_redirect, "C24", 1) {
    sim::enableFaults("io_eintr,io_short"); { sim::Quiet q; sim::fsMkdir("/w"); } Levels lv; Msgs a, b; int nth = sim::param("threads", 1, 3), per = sim::param("per", 1, 5); time_t from = time(0); sim::setStepLimit(3000000);
    {
        std::unique_ptr<TestLog> o1(new TestLog), o2(new TestLog); gOut = o1.get(); DbgLog::setLogProvider(&provider); o1->enableStderr(false); o2->enableStderr(false); o1->setFile(W("/w/a")); o2->setFile(W("/w/b"));
        Crew c; for (int i = 0; i < nth; i++) c.go([&, i] {
            std::string nm; { sim::Quiet q; nm = "w" + std::to_string(i); } DbgLog::setThreadName(cs(nm), false);
            for (int k = 0; k < per; k++) { Msg m = drawMsg(i, k); int w = sim::param("where", 0, 2); { sim::Quiet q; if (w == 0) a[std::make_pair(i, k)] = m; if (w == 1) b[std::make_pair(i, k)] = m; } if (w == 0) logAt(m, m.level, 0); else if (w == 1) { DbgLog::Redirect r(*o2); logAt(m, m.level, 0); } else { DbgLog::Redirect r(DbgLog::getNoLogProvider()); logAt(m, m.level, 0); } }
        });
        c.join(); DbgLog::setLogProvider(DbgLog::getNoLogProvider());
    }
    checkLog("log", got("/w/a"), a, lv, false, from, time(0), false); checkLog("redirected log", got("/w/b"), b, lv, false, from, time(0), false);
}
// ---- progress ----
struct Mon : public ProgressMonitor { bool async; mutable FastLock lk; mutable bool held = false; std::function<void(const Progress *)> f, fs; Mon(bool a) : async(a) {} void lock() const { lk.lock(); } void unlock() const { lk.unlock(); } bool asyncEnabled() const { return async; } void onChange(const Progress *p) { if (f) f(p); } void onChangeState(const Progress *p) { if (fs) fs(p); } };
struct Lev { long cur = 0, next = 0, max = 100; };
static tagdef progTags[3] = {tagdef("preparing"), tagdef("copying"), tagdef("cleaning")};
static int stateChanges = 0;
static std::pair<double, double> want(const std::vector<Lev> &s, size_t from) { double a = 0, b = 1; for (size_t i = from; i < s.size(); i++) { double m = (double)s[i].max, x = m ? s[i].cur / m : 0, y = m ? s[i].next / m : 1, w = b - a; double na = a + x * w, nb = a + y * w; a = na; b = nb; } return std::make_pair(a, b); }
static void work(std::vector<Lev> &s, int depth, Mon &m, int &changes) {
    Lev l; if (sim::coin("defmax")) l.max = 100; else l.max = sim::param("max", 0, 20); 
    Progress p((natural)l.max); { sim::Quiet q; s.push_back(l); } int n = sim::param("pops", 1, 5);
    int curTag = -1; const void *curParam = 0; static int marks[2];
    for (int i = 0; i < n; i++) {
        if (sim::chance("setstate", 1, 3)) {        // the state shown beside the bar
            int t = sim::param("tag", 0, 2), prm = sim::param("tagParam", -1, 2); const void *ptr = prm < 1 ? 0 : &marks[prm - 1];
            { sim::Quiet q; stateChanges = 0; }
            if (prm < 0) p.setState(progTags[t]); else p.setState(progTags[t], ptr);
            bool ch = curTag != t || (prm >= 0 && ptr != curParam); int want = ch ? 1 : 0;
            if (prm < 0 && curTag == t && curParam) want = -1;      // only the parameter went away: may be reported
            curTag = t; curParam = ptr;
            ProgressMonitor::State st = m.getState(&p);
            sim::Quiet q;
            SIM_CHECK(m.async ? stateChanges == 0 : want < 0 || stateChanges == want, "progress-state", "monitor was told %d times about a change of the state, expected %d (asynchronous %d)", stateChanges, want, (int)m.async);
            SIM_CHECK(st.first == progTags[t] && st.second == ptr, "progress-state", "monitor sees a state which was not set");
            SIM_CHECK(p.getState() == progTags[t] && p.getStateParam() == ptr && !strcmp(p.getState().name(), progTags[t].name), "progress-state", "state of the progress was not kept");
        }
        if (!m.async && sim::chance("setmax", 1, 6)) {
            int nm = sim::param("newmax", 1, 30); Lev &t = s.back(); bool ch; { sim::Quiet q; if (nm < t.next) nm = (int)t.next; ch = nm != t.max; t.max = nm; changes = 0; }
            p.setMax(nm);
            sim::Quiet q; SIM_CHECK(m.async ? changes == 0 : (changes > 0) == ch, "progress", "range changed=%d, monitor notified %d times", (int)ch, changes);
        }
        int op = sim::param("pop", 0, 5), v = sim::param("pv", 0, 8); Lev o; { sim::Quiet q; Lev &t = s.back(); o = t; }
        Lev e = o; if (op == 0 || op == 1) { e.cur = e.next; e.next = std::min(e.next + (op ? v : 1), e.max); } else if (op == 2) { e.cur = e.next = std::min((long)v, e.max); } else if (op == 3) e.cur = e.next; else if (op == 5) { e.cur = e.next; if (v <= e.max && v >= o.next) e.next = v; }
        { sim::Quiet q; s.back() = e; changes = 0; }
        if (op == 0) ++p; else if (op == 1) p += v; else if (op == 2) p.set(v); else if (op == 3) p.done(); else if (op == 5 && (v > e.max || v < o.next)) p.done(); else if (op == 5) p.setNext(v);
        if (!m.async) { bool ch = e.cur != o.cur; sim::Quiet q; SIM_CHECK((changes > 0) == ch, "progress", "position changed from %ld to %ld, monitor notified %d times", o.cur, e.cur, changes); auto w = want(s, 0); double g = p.getPos().first, g1 = m.getPos(0); SIM_CHECK(std::abs(g - w.first) < 1e-3 && std::abs(g1 - w.first) < 1e-3, "progress", "overall position is %f and %f instead of %f", g, g1, w.first); for (size_t k = 0; k <= s.size() && k < 4; k++) { auto x = want(s, k); double r = m.getPos(k); SIM_CHECK(std::abs(r - x.first) < 1e-3, "progress", "position at level %d is %f instead of %f", (int)k, r, x.first); } natural lvl = m.getLevel(&p); SIM_CHECK(lvl == 0, "progress", "level of the innermost progress is %d", (int)lvl); }
        if (depth < 3 && sim::chance("nest", 1, 3)) { work(s, depth + 1, m, changes); if (!m.async) { sim::Quiet q; SIM_CHECK(m.getLevel(&p) == 0, "progress", "nested progress is still attached"); } }
    }
    if (depth > 0 && !m.async) { Progress in(10); natural lvl = m.getLevel(&p); sim::Quiet q; SIM_CHECK(lvl == 1, "progress", "level of the outer progress is %d", (int)lvl); }
    sim::Quiet q; s.pop_back();
}
SCENARIO(progress_report, "C24", 1) {
    bool async = sim::coin("async"); int changes = 0; std::vector<Lev> s; bool ready = false, fin = false, gone = false; Mon *mon = 0;
    Crew c;
    c.go([&] {
        { Mon m(async); m.f = [&](const Progress *) { sim::Quiet q; changes++; }; m.fs = [](const Progress *) { sim::Quiet q; stateChanges++; }; { sim::Quiet q; mon = &m; ready = true; } work(s, 0, m, changes); { sim::Quiet q; fin = true; } sim::waitUntil([&] { return gone || !async; }, ~0ull); }
        Progress lone; lone.adv(5); SIM_CHECK(lone.getPos().second > 0.04f, "progress", "progress without a monitor does not count");
    });
    if (async) { sim::waitUntil([&] { return ready; }, ~0ull); for (int i = 0; i < 12 && !fin; i++) { float v = mon->getPos(sim::param("lv", 0, 2)); SIM_CHECK(v >= 0 && v <= 1.0001f, "progress", "position %f", v); sim::yield(); } { sim::Quiet q; gone = true; } }
    c.join();
}
