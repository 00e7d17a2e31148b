// Configuration files, URL queries and command lines
#include "common.h"
#include "io.h"
#include <string>
#include <map>
#include <algorithm>
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/framework/app.h"
#include "lightspeed/utils/configParser.tcc"
#include "lightspeed/base/containers/map.tcc"
#include "lightspeed/utils/queryParser.h"
#include "lightspeed/utils/urlencode.h"
#include "lightspeed/base/framework/cmdLineIterator.h"
#include "lightspeed/base/exceptions/invalidNumberFormat.h"

static ConstStrA cs(const std::string &s) { return ConstStrA(s.data(), s.size()); }
static std::string ss(ConstStrA a) { return std::string(a.data(), a.length()); }
static std::string low(std::string s) { for (auto &c : s) c = (char)tolower((unsigned char)c); return s; }
struct Fds { int n; Fds() : n(sim::openFds()) {} void check(const char *w) { int m = sim::openFds(); SIM_CHECK(m == n, "fd-leak", "%s: %d descriptors left open:%s", w, m - n, sim::openFdNames().c_str()); } };
struct Ent { std::string sec, fld, val; };
static const char *SECS[] = {"main", "Main", "server", "server.pool", "x y", "SERVER", "z\xc3\xa1z"};
static const char *FLDS[] = {"key", "Key", "port", "pfx.one", "pfx.two", "PFX.three", "p", "long name", "k\xc3\xa1"};
static std::string pick(const char *const *t, int n, const char *what) { int k = sim::param(what, 0, n - 1); return t[k]; }
static std::string pad() { static const char *p[] = {"", "", " ", "  ", "\t"}; return p[sim::param("pad", 0, 4)]; }
static std::string word(int max, bool quoted) {
    static const char raw[] = "abcXYZ019=#[];\\.%-_ :\xc3\xa1'\"", q[] = "abc019=#[].% \xc3\xa1\t\n\r\\\"\a\b\0z"; int n = sim::param("wlen", 0, max); std::string s;
    for (int i = 0; i < n; i++) s += quoted ? q[sim::param("ch", 0, (int)sizeof q - 2)] : raw[sim::param("ch", 0, (int)sizeof raw - 2)];
    auto sp = [](char c) { return isspace((unsigned char)c); };
    while (!s.empty() && sp(s.back())) s.pop_back(); while (!s.empty() && (sp(s[0]) || (!quoted && s[0] == '"'))) s.erase(0, 1); return s;
}
static std::string quote(const std::string &v) {
    std::string o = "\"";
    for (char c : v) {
        if (c == '\\' || c == '"' || c == '\n' || c == '\r') { o += '\\'; o += c == '\n' ? 'n' : c == '\r' ? 'r' : c; }
        else if (c == '\t' && sim::coin("esc")) o += "\\t"; else if (c == '\a') o += "\\a"; else if (c == '\b') o += "\\b"; else if (c == 0) o += "\\0";
        else if ((unsigned char)c >= 0x80 && sim::coin("esc8")) { o += '\\'; o += c; }
        else o += c;
        if (sim::chance("fold", 1, 12)) { o += sim::coin("foldcr") ? "\\\r\n  " : "\\\n\t"; std::size_t at = o.size(); (void)at; }
    }
    return o + "\"";
}
// text folded over more lines loses white space which follows the fold
static bool foldable(const std::string &v) { for (char c : v) if (c == ' ' || c == '\t') return false; return true; }
struct Doc { std::string text; std::vector<Ent> ents; int errors = 0; bool early = false; };
// inc: names of documents which can be included, with their entries
static Doc makeDoc(bool withErrors, const std::map<std::string, std::vector<Ent>> &inc) {
    Doc d; std::string cur; int n = sim::param("lines", 0, 14); bool cmd = false;
    for (int i = 0; i < n; i++) {
        std::string nl = sim::chance("crlf", 1, 4) ? "\r\n" : "\n", l; int k = sim::param("line", 0, 11);
        sim::Quiet q0; (void)q0;
        if (k == 0) l = pad() + "# " + word(6, false);
        else if (k == 1) l = pad();
        else if (k <= 3) { cur = pick(SECS, 7, "sec"); cmd = false; l = pad() + "[" + pad() + cur + pad() + "]" + (sim::chance("aftsec", 1, 4) ? " # x" : ""); }
        else if (k == 4 && withErrors) {
            static const char *bad[] = {"nonsense", "[open", "q=\"unclosed", "a b c"}; int b = sim::param("bad", 0, 3);
            l = bad[b]; d.errors++; if (cur.empty()) d.early = true;
        } else if (k == 5 && !inc.empty()) {
            auto it = inc.begin(); std::advance(it, sim::param("inc", 0, (int)inc.size() - 1));
            l = ".include " + pad() + it->first + pad(); for (auto &e : it->second) d.ents.push_back(e); cmd = true; 
        } else {
            Ent e; e.sec = cur; e.fld = pick(FLDS, 9, "fld"); bool qv = sim::chance("quoted", 1, 3);
            std::string v = e.val = word(8, qv);
            if (!qv && sim::chance("number", 1, 4)) { static const char *nums[] = {"0", "1", "42", "-7", "1234567890123", "3.25", "-0.5", "true", "no", "on", "off", "yes", "false", "12x", "x12"}; v = e.val = pick(nums, 15, "num"); }
            l = pad() + e.fld + pad() + "=";
            if (qv) l += foldable(v) ? quote(v) : "\"" ; else l += pad() + v + pad();
            if (qv && !foldable(v)) { std::string o; for (char c : v) { if (c == '\\' || c == '"') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\a') o += "\\a"; else if (c == '\b') o += "\\b"; else if (c == 0) o += "\\0"; else o += c; } l += o + "\"" + (sim::chance("aftq", 1, 4) ? "  # x" : ""); }
            if (cmd) continue;                              // needs a section after a command
            if (!cur.empty()) d.ents.push_back(e);
        }
        d.text += l; if (i + 1 < n || sim::chance("lastnl", 2, 3)) d.text += nl;
        else if (k == 2 || k == 3) d.text += nl;
    }
    return d;
}
static void compareAll(const IniConfigT &cfg, const std::vector<Ent> &ents) {
    std::map<std::pair<std::string, std::string>, std::vector<std::string>> m; std::map<std::string, std::map<std::string, int>> bySec;
    { sim::Quiet q; for (auto &e : ents) { m[{low(e.sec), low(e.fld)}].push_back(e.val); bySec[low(e.sec)][low(e.fld)]++; } }
    for (int s = 0; s < 7; s++) for (int f = 0; f < 9; f++) {
        IniConfigT::Section sec = cfg.openSection(SECS[s]); std::vector<std::string> *want; { sim::Quiet q; want = &m[{low(SECS[s]), low(FLDS[f])}]; }
        for (size_t i = 0; i <= want->size(); i++) {
            StringA v; bool r = sec.get(v, ConstStrA(FLDS[f]), i);
            SIM_CHECK(r == (i < want->size()), "ini-value", "[%s] %s number %zu exists=%d, in file %zu", SECS[s], FLDS[f], i, r, want->size());
            if (!r) { bool thrown = false; try { ConstStrA x; sec.required(x, ConstStrA(FLDS[f]), i); } catch (const IniConfigT::RequiredFieldException &) { thrown = true; } SIM_CHECK(thrown, "ini-required", "missing required value was not reported"); continue; }
            std::string w, g; { sim::Quiet q; w = (*want)[i]; g = ss(v); }
            SIM_CHECK(g == w, "ini-value", "[%s] %s number %zu is '%s' instead of '%s'", SECS[s], FLDS[f], i, g.c_str(), w.c_str());
            char *e = 0; long l = strtol(w.c_str(), &e, 10); bool isInt = !w.empty() && !*e && (isdigit((unsigned char)w[0]) || w[0] == '-') && w.find('\0') == std::string::npos;
            integer iv = -99; bool thrown = false; try { sec.get(iv, ConstStrA(FLDS[f]), i); } catch (const Exception &) { thrown = true; }
            if (isInt) SIM_CHECK(!thrown && iv == l, "ini-number", "'%s' read as %ld, refused=%d", w.c_str(), (long)iv, thrown);
            else if (w == "12x" || w == "x12" || w == "true" || w == "3.25") SIM_CHECK(thrown, "ini-number", "'%s' was read as number %ld", w.c_str(), (long)iv);
            if (isInt && w[0] != '-') { natural nv = 0; sec.get(nv, ConstStrA(FLDS[f]), i); bool b = false; sec.get(b, ConstStrA(FLDS[f]), i); SIM_CHECK(nv == (natural)l && b == (l != 0), "ini-number", "'%s' read as %lu and %d", w.c_str(), (unsigned long)nv, b); }
            if (w == "3.25" || w == "-0.5" || isInt) { double dv = 0; float fv = 0; sec.get(dv, ConstStrA(FLDS[f]), i); sec.get(fv, ConstStrA(FLDS[f]), i); SIM_CHECK(dv == atof(w.c_str()) && fv == (float)atof(w.c_str()), "ini-number", "'%s' read as %f", w.c_str(), dv); }
            std::string lw; { sim::Quiet q; lw = low(w); }
            if (lw == "true" || lw == "yes" || lw == "on" || lw == "false" || lw == "no" || lw == "off") { bool b = false; sec.get(b, ConstStrA(FLDS[f]), i); SIM_CHECK(b == (lw == "true" || lw == "yes" || lw == "on"), "ini-bool", "'%s' read as %d", w.c_str(), b); }
        }
        size_t dot = std::string(FLDS[f]).find('.'); IniConfigT::Section ps = cfg.openSection("nothing");
        if (dot != std::string::npos) { ps = sec.openPrefix(ConstStrA(FLDS[f], dot + 1)); StringA v; bool r = ps.get(v, ConstStrA(FLDS[f] + dot + 1)); SIM_CHECK(r == !want->empty() && (!r || ss(v) == (*want)[0]), "ini-prefix", "value under prefix found=%d", r); }
    }
    static const char *PFX[] = {"", "pfx.", "Pfx.t", "k", "nothing", "p"}; int pk = sim::param("pfx", 0, 5), sk = sim::param("esec", 0, 6);
    std::string sec = SECS[sk], pfx = PFX[pk]; std::multimap<std::string, std::string> got, want;
    { IniConfigT::Iterator it = sim::coin("bysec") ? cfg.openSection(cs(sec)).openPrefix(cs(pfx)).getFwIter() : cfg.enumFields(cs(sec), cs(pfx)); int guard = 0;
      while (it.hasItems()) { if (sim::coin("peek")) it.peek(); const IniConfigT::FieldVal &f = it.getNext(); sim::Quiet q; got.insert({low(ss(f.field)), ss(f.val)}); SIM_CHECK(++guard < 100, "ini-enum", "enumeration does not end"); } }
    sim::Quiet q; for (auto &e : ents) if (low(e.sec) == low(sec) && low(e.fld).compare(0, pfx.size(), low(pfx)) == 0) want.insert({low(e.fld), e.val});
    auto dump = [](const std::multimap<std::string, std::string> &x) { std::string o; for (auto &e : x) o += e.first + "=" + e.second + ";"; return o; };
    SIM_CHECK(got == want, "ini-enum", "fields of [%s] with prefix '%s': got %s expected %s", sec.c_str(), pfx.c_str(), dump(got).c_str(), dump(want).c_str());
}
// a document in memory
SCENARIO(ini_text, "C33", 2) {
    sim::setStepLimit(6000000);
    std::map<std::string, std::vector<Ent>> none, inc; std::map<std::string, std::string> texts; std::map<std::string, ConstStrA> refs; ConstStrA text;
    bool errs = sim::chance("errors", 1, 3), ignore = sim::coin("ignore"), incs = sim::chance("includes", 1, 3);
    Doc sub; if (incs) { sub = makeDoc(false, none); inc["sub.ini"] = sub.ents; texts["sub.ini"] = sub.text; refs["sub.ini"] = cs(texts["sub.ini"]); }
    bool ign = !incs && sim::chance("noinc", 1, 6); if (ign) inc["other.ini"];      // included but there is nothing which could load it
    Doc d = makeDoc(errs, inc); text = cs(d.text); bool bad = d.errors != 0, lines = false;
    sim::event("document: %s", d.text.c_str());
    try {
        if (incs) { auto fn = [&](ConstStrA name) { std::string n = ss(name); SIM_CHECK(texts.count(n), "ini-include", "asked to include '%s'", n.c_str()); return refs[n].getFwIter(); };
            IniConfigT cfg(text.getFwIter(), fn, ignore); SIM_CHECK(!bad || ignore, "ini-error", "broken document was accepted"); compareAll(cfg, d.ents); }
        else if (!ign && sim::coin("lines")) {
            lines = true; ConfigParser<ConstStrA::Iterator> p(text.getFwIter()); std::vector<Ent> got; p.skipSection(); int guard = 0;
            while (!p.getSection().empty()) while (p.getNextLine()) { sim::Quiet q; got.push_back(Ent{ss(p.getSection()), ss(p.curVar), ss(p.curValue)}); SIM_CHECK(++guard < 100, "ini-value", "the document never ends"); 
                ConfigParser<ConstStrA::Iterator>::Str s; SIM_CHECK(p.get(p.curVar.cStr(), s) && s == p.curValue && !p.getField("other"), "ini-value", "current field is not accessible by its name"); }
            SIM_CHECK(!bad, "ini-error", "broken document was accepted");
            sim::Quiet q; SIM_CHECK(got.size() == d.ents.size(), "ini-value", "%zu fields read, written %zu", got.size(), d.ents.size());
            for (size_t i = 0; i < got.size(); i++) SIM_CHECK(got[i].sec == d.ents[i].sec && got[i].fld == d.ents[i].fld && got[i].val == d.ents[i].val, "ini-value", "field %zu is [%s] %s='%s' instead of [%s] %s='%s'", i, got[i].sec.c_str(), got[i].fld.c_str(), got[i].val.c_str(), d.ents[i].sec.c_str(), d.ents[i].fld.c_str(), d.ents[i].val.c_str());
        } else { IniConfigT cfg(text.getFwIter(), ignore); SIM_CHECK(!bad || ignore, "ini-error", "broken document was accepted"); compareAll(cfg, d.ents); }
    } catch (const ConfigParser<ConstStrA::Iterator>::Error &e) { SIM_CHECK(bad && (lines || !ignore), "ini-error", "document refused: %s", StringA(e.getMessage()).cStr()); }
}
// documents in files, relative includes
struct CfgApp : App { CfgApp() : App(0) { appPathname = L"/app/bin/prog"; } virtual integer start(const Args &) { return 0; } virtual void onThreadException(const Exception &) throw() {} };
SCENARIO(ini_files, "C33", 1) {
    CfgApp app; sim::setStepLimit(6000000); sim::enableFaults("io_eintr,io_short,io_eio,open_fail"); if (!sim::chance("faults", 1, 2)) sim::faultsEnable(false); Fds fds;
    std::map<std::string, std::vector<Ent>> none, top, mid; bool missing = sim::chance("missing", 1, 6);
    Doc leaf = makeDoc(false, none); mid["../common/leaf.ini"] = leaf.ents; mid["/app/common/leaf.ini"] = leaf.ents; Doc m = makeDoc(false, mid);
    top["conf.d/mid.ini"] = m.ents; top["common/leaf.ini"] = leaf.ents; Doc d = makeDoc(false, top);
    { sim::Quiet q; sim::fsPut("/app/common/leaf.ini", leaf.text); sim::fsPut("/app/conf.d/mid.ini", m.text); sim::fsPut("/app/main.ini", d.text); sim::fsMkdir("/app/bin"); }
    bool uses = d.text.find(".include") != std::string::npos;
    try {
        IniConfig cfg(missing ? ConstStrW(L"../none.ini") : sim::coin("abs") ? ConstStrW(L"/app/main.ini") : ConstStrW(L"../main.ini"), 0, sim::coin("ignore"));
        SIM_CHECK(!missing, "ini-file", "missing file was read"); sim::faultsEnable(false);
        compareAll(cfg, d.ents);
    } catch (const FailedToParseINIFileException &e) {
        SIM_CHECK(missing || sim::faultCount("open_fail"), "ini-file", "existing file could not be opened: %s", StringA(e.getMessage()).cStr());
    } catch (const Exception &e) { SIM_CHECK(sim::faultCount("io_eio"), "ini-file", "reading failed: %s", StringA(e.getMessage()).cStr()); }
    (void)uses; sim::faultsEnable(false); fds.check("ini files");
}
SCENARIO(url_query, "C33", 1) {
    static const char pc[] = "abc/%.-"; std::string path, query; int n = sim::param("plen", 0, 8); for (int i = 0; i < n; i++) path += pc[sim::param("pc", 0, 6)];
    bool q = sim::chance("hasq", 4, 5); std::vector<std::pair<std::string, std::string>> want; int items = sim::param("items", 0, 6);
    if (q) for (int i = 0; i < items; i++) {
        if (i) query += '&'; int kind = sim::param("kind", 0, 4); if (kind == 0) continue;      // nothing between two separators
        static const char *names[] = {"a", "name", "x%20y", "", "b[]"}; std::string nm = names[sim::param("nm", 0, kind == 1 ? 2 : 4)];
        if (kind == 1) { query += nm; want.push_back({nm, "1"}); continue; }
        std::string v, e; int len = sim::param("vlen", 0, 8); static const char vc[] = "aZ9 &=%+?#/\xc3\xa1\0\n_-";
        for (int k = 0; k < len; k++) { char c = vc[sim::param("vc", 0, (int)sizeof vc - 2)]; v += c; bool plain = isalnum((unsigned char)c) || c == '_' || c == '-' || (c == '=' && sim::coin("eq")) || (c == '?' && sim::coin("qm")); char b[8]; sprintf(b, sim::coin("hexcase") ? "%%%02X" : "%%%02x", (unsigned char)c); e += plain ? std::string(1, c) : c == ' ' && sim::coin("plus") ? "+" : b; }
        query += nm + "=" + e; want.push_back({nm, v});
    }
    std::string full = path + (q ? "?" + query : ""); QueryParser p(cs(full)); size_t at = 0;
    SIM_CHECK(ss(p.getPath()) == path, "query-path", "path of '%s' is '%s'", full.c_str(), ss(p.getPath()).c_str());
    SIM_CHECK(ss(p.getQuery()) == query, "query-path", "query of '%s' is '%s'", full.c_str(), ss(p.getQuery()).c_str());
    QueryField prev; bool hasPrev = false; std::pair<std::string, std::string> prevW;
    while (p.hasItems()) {
        SIM_CHECK(at < want.size(), "query-items", "'%s' gives more than %zu items", full.c_str(), want.size());
        if (sim::coin("peek")) { const QueryField &f = p.peek(); SIM_CHECK(ss(f.name) == want[at].first && ss(f.value) == want[at].second, "query-value", "peek differs"); }
        const QueryField &f = p.getNext(); SIM_CHECK(ss(f.name) == want[at].first, "query-name", "item %zu of '%s' has name '%s' instead of '%s'", at, full.c_str(), ss(f.name).c_str(), want[at].first.c_str());
        SIM_CHECK(ss(f.value) == want[at].second, "query-value", "item %zu of '%s' has value '%s' instead of '%s'", at, full.c_str(), ss(f.value).c_str(), want[at].second.c_str()); at++;
    }
    SIM_CHECK(at == want.size(), "query-items", "'%s' gives %zu items instead of %zu", full.c_str(), at, want.size());
    (void)prev; (void)hasPrev;
}
// model of a command line: position in an argument, switches one by one
SCENARIO(command_line, "C33", 1) {
    static const wchar_t *A[] = {L"-a", L"-abc", L"--long", L"--", L"-", L"text", L"", L"12", L"-12", L"+7", L"12abc", L"--x=y", L"-ofile", L"ff", L"z"};
    int n = sim::param("args", 1, 7); std::vector<std::wstring> v; std::vector<ConstStrW> arr; v.push_back(L"prog");
    for (int i = 1; i < n; i++) v.push_back(A[sim::param("arg", 0, 14)]);
    for (auto &x : v) arr.push_back(ConstStrW(x.data(), x.size()));
    IApp::Args args(arr.data(), arr.size()); CmdLineIterator it(args, sim::coin("from0") ? 0 : 1); size_t pos = 1, ch = 0; { CmdLineIterator t(args, 1); if (!it.equalTo(t)) { SIM_CHECK(it.lessThan(t) && !t.lessThan(it), "cmd-order", "iterators at 0 and 1 are not ordered"); pos = 0; } }
    auto wd = [](ConstStrW a) { return std::wstring(a.data(), a.length()); };
    for (int guard = 0; guard < 60; guard++) {
        SIM_CHECK(it.hasItems() == (pos < v.size()), "cmd-items", "hasItems %d at argument %zu of %zu", it.hasItems(), pos, v.size());
        if (pos >= v.size()) { bool thrown = false; try { if (sim::coin("text")) it.getNextText(); else it.getNext(); } catch (const Exception &) { thrown = true; } SIM_CHECK(thrown, "cmd-items", "reading after the last argument did not fail"); break; }
        const std::wstring &a = v[pos]; int op = sim::param("op", 0, 5);
        if (op <= 1) {
            int t; std::wstring w; if (ch) t = 0, w = a.substr(ch, 1); else if (a.size() > 1 && a[0] == '-' && a[1] == '-') t = 1, w = a.substr(2); else if (a.size() > 1 && a[0] == '-') t = 0, w = a.substr(1, 1); else t = 2, w = a;
            CmdLineItem x = op ? it.peek() : it.getNext();
            SIM_CHECK((int)x.itemType == t && wd(x.value) == w, "cmd-item", "argument %zu '%ls' position %zu: item of type %d '%ls', expected %d '%ls'", pos, a.c_str(), ch, (int)x.itemType, wd(x.value).c_str(), t, w.c_str());
            if (!op) { if (t == 0) { ch = ch ? ch + 1 : 2; if (ch >= a.size()) ch = 0, pos++; } else pos++, ch = 0; }
        } else if (op == 2) { std::wstring g = wd(it.peekText()); SIM_CHECK(g == a.substr(ch), "cmd-text", "text '%ls' instead of '%ls'", g.c_str(), a.substr(ch).c_str()); }
        else if (op == 3) { std::wstring g = wd(it.getNextText()); SIM_CHECK(g == a.substr(ch), "cmd-text", "text '%ls' instead of '%ls'", g.c_str(), a.substr(ch).c_str()); pos++; ch = 0; }
        else if (op == 4) { int base = sim::coin("hex") ? 16 : 10; std::wstring w = a.substr(ch); wchar_t *e = 0; long x = wcstol(w.c_str(), &e, base); bool ok = !w.empty() && !*e; long g = 0; bool thrown = false;
            try { g = it.getNextNumber(base); } catch (const InvalidNumberFormatException &) { thrown = true; }
            SIM_CHECK(thrown == !ok, "cmd-number", "number '%ls' base %d refused=%d value %ld", w.c_str(), base, thrown, g); if (ok) SIM_CHECK(g == x, "cmd-number", "'%ls' base %d is %ld", w.c_str(), base, g); pos++; ch = 0; }
        else { IApp::Args r = it.getRemainArgs(); SIM_CHECK(r.length() == v.size() - pos && r.data() == arr.data() + pos, "cmd-rest", "%d arguments remain, expected %zu", (int)r.length(), v.size() - pos); }
    }
}
