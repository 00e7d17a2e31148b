// JSON values, their text form, changes of containers and values shared by threads
#include "model.h"
#include "io.h"
#include <cmath>
#include <climits>
#include "lightspeed/base/streams/fileio.h"
#include "lightspeed/base/streams/fileiobuff.tcc"
#include "lightspeed/base/text/textstream.h"
#include "lightspeed/base/iter/vtiterator.h"
#include "lightspeed/base/exceptions/invalidParamException.h"
#include "lightspeed/base/exceptions/systemException.h"
#include "lightspeed/utils/json/json.h"
#include "lightspeed/utils/json/jsonbuilder.h"
#include "lightspeed/utils/json/jsonexception.h"
#include "lightspeed/utils/json/jsonparser.tcc"
#include "lightspeed/utils/json/jsonserializer.tcc"

struct J; typedef std::shared_ptr<J> PJ;
struct J { // the model: containers are shared, others compared by value
    enum K { N, B, I, F, S, O, A } k; bool b; long long i; double d; bool wide; std::string s; std::vector<std::pair<std::string, PJ>> m; // m: members or items
    J(K k) : k(k), b(false), i(0), d(0), wide(false) {}
};
static PJ jnew(J::K k) { sim::Quiet q; return PJ(new J(k)); }
static void utf8(std::string &s, unsigned c) {
    if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } }
static std::vector<unsigned> chars(const std::string &s) { std::vector<unsigned> r; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; unsigned v = n == 1 ? c : c & (0xFF >> (n + 1)); for (int k = 1; k < n; k++) v = v << 6 | (s[i + k] & 63); r.push_back(v); i += n; } return r; }
static std::wstring widen(const std::string &s) { std::wstring r; for (unsigned c : chars(s)) r += (wchar_t)c; return r; }
static std::string someText(int max) { std::string s; int n = sim::param("len", 0, max); while (n--) switch (sim::param("chk", 0, 9)) {
    case 0: s += (char)sim::param("ctl", 0, 31); break; case 1: s += "\"\\/\b\x7f,]}:"[sim::param("spc", 0, 8)]; break; case 2: utf8(s, sim::param("c2", 0x80, 0x7FF)); break; case 3: utf8(s, sim::param("c3", 0x800, 0xD7FF)); break; case 4: utf8(s, sim::param("c4", 0x10000, 0x10FFFF)); break; default: s += (char)('a' + sim::param("c1", 0, 25)); } return s; }
static double someFloat() { double v = (double)sim::param("frac", -4000, 4000) / 64; if (sim::chance("big", 1, 6)) v = ldexp(v, sim::param("exp", 1, 900)); return v; }
static long long someInt() { switch (sim::param("ik", 0, 5)) { case 0: return 0; case 1: return sim::param("small", -9, 9); case 2: return LLONG_MIN + sim::param("lo", 0, 1); case 3: return LLONG_MAX - sim::param("hi", 0, 1); case 4: return (1ll << sim::param("bit", 8, 62)) * (sim::coin("sg") ? 1 : -1); default: return sim::param("int", -100000, 100000); } }
static PJ someTree(int depth) {
    sim::Quiet q; PJ j; int kind = sim::param("kind", 0, depth > 0 ? 9 : 5);
    switch (kind) {
        case 0: return jnew(J::N);
        case 1: j = jnew(J::B); j->b = sim::coin("bool"); return j;
        case 2: j = jnew(J::I); j->i = someInt(); return j;
        case 3: j = jnew(J::F); j->d = someFloat(); if (j->d == 0) j->d = 1.5; return j;
        case 4: case 5: j = jnew(J::S); j->s = someText(8); j->wide = sim::coin("wide"); return j;
        default: { j = jnew(kind < 8 ? J::O : J::A); int n = sim::param("items", 0, 5); for (int i = 0; i < n; i++) { std::string key; if (j->k == J::O) { key = sim::chance("odd", 1, 3) ? someText(5) : std::string(1, (char)('a' + sim::param("key", 0, 8))); bool dup = false; for (auto &p : j->m) if (p.first == key) dup = true; if (dup) continue; } j->m.push_back(std::make_pair(key, someTree(depth - 1))); } return j; }
    }
}
static void space(std::string &o) { while (sim::chance("sp", 1, 6)) o += " \t\r\n"[sim::param("spk", 0, 3)]; }
static void quote(std::string &o, const std::string &s) {
    o += '"'; char b[16];
    for (unsigned c : chars(s)) {
        const char *named = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '\b' ? "\\b" : c == '\f' ? "\\f" : c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : c == '/' ? "\\/" : 0;
        bool must = c < 32 || c == '"' || c == '\\';
        if (named && (must ? !sim::chance("hex", 1, 4) : sim::coin("esc"))) o += named;
        else if (must || sim::chance("u", 1, 4)) { const char *f = sim::coin("case") ? "\\u%04x" : "\\u%04X"; if (c >= 0x10000) { snprintf(b, 16, f, 0xD800 + ((c - 0x10000) >> 10)); o += b; snprintf(b, 16, f, 0xDC00 + ((c - 0x10000) & 0x3FF)); o += b; } else { snprintf(b, 16, f, c); o += b; } }
        else utf8(o, c);
    }
    o += '"';
}
static void render(std::string &o, const PJ &j, int depth = 0) { // as someone else would write it
    space(o); char b[400];
    switch (j->k) {
        case J::N: o += "null"; break;
        case J::B: o += j->b ? "true" : "false"; break;
        case J::I: snprintf(b, sizeof b, "%lld", j->i); o += b; break;
        case J::F: if (fabs(j->d) < 1e15) snprintf(b, sizeof b, sim::coin("e") ? "%.8f" : "%.12e", j->d); else snprintf(b, sizeof b, sim::coin("E") ? "%.17e" : "%.17E", j->d); o += b; break;
        case J::S: quote(o, j->s); break;
        default: { o += j->k == J::O ? '{' : '['; bool first = true; for (auto &p : j->m) { if (!first) o += ','; first = false; if (j->k == J::O) { space(o); quote(o, p.first); space(o); o += ':'; } render(o, p.second, depth + 1); } space(o); o += j->k == J::O ? '}' : ']'; }
    }
    if (depth) space(o);
}
static bool near(double a, double b) { return fabs(a - b) <= 1e-9 * std::max(fabs(a), fabs(b)); }
struct Mini { // independent reading of a text, keys sorted or not
    const std::string &t; size_t p; bool bad; Mini(const std::string &t) : t(t), p(0), bad(false) {}
    int at() { return p < t.size() ? (unsigned char)t[p] : -1; }
    bool lit(const char *s) { size_t n = strlen(s); if (t.compare(p, n, s) == 0) { p += n; return true; } bad = true; return false; }
    std::string str() { std::string o; if (at() != '"') { bad = true; return o; } p++; unsigned hi = 0;
        while (!bad && at() != '"') { if (at() < 32) { bad = true; break; } if (at() != '\\') { o += t[p++]; continue; } p++; int c = at(); p++;
            switch (c) { case '"': case '\\': case '/': o += (char)c; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
                case 'u': { unsigned v = 0; for (int i = 0; i < 4; i++) { int h = at(); p++; if (h < 0 || !isxdigit(h)) { bad = true; break; } v = v * 16 + (isdigit(h) ? h - '0' : (h | 32) - 'a' + 10); }
                    if (v >= 0xD800 && v < 0xDC00) { if (hi) bad = true; hi = v; if (t.compare(p, 2, "\\u")) bad = true; continue; } if (v >= 0xDC00 && v < 0xE000) { if (!hi) bad = true; v = 0x10000 + ((hi - 0xD800) << 10) + (v - 0xDC00); hi = 0; } utf8(o, v); } break;
                default: bad = true; } if (hi && c != 'u') bad = true; }
        p++; return o; }
    PJ val() { PJ j; if (bad) return jnew(J::N); switch (at()) {
        case 'n': lit("null"); return jnew(J::N); case 't': lit("true"); j = jnew(J::B); j->b = true; return j; case 'f': lit("false"); return jnew(J::B);
        case '"': j = jnew(J::S); j->s = str(); return j;
        case '[': case '{': { bool o = at() == '{'; j = jnew(o ? J::O : J::A); int end = o ? '}' : ']'; p++; if (at() == end) { p++; return j; }
            for (;;) { std::string k; if (o) { k = str(); if (at() != ':') bad = true; p++; } j->m.push_back(std::make_pair(k, val())); if (bad) return j; if (at() == end) { p++; return j; } if (at() != ',') { bad = true; return j; } p++; } }
        default: { size_t s = p; bool fl = false; while (at() >= 0 && strchr("+-0123456789.eE", at())) { if (strchr(".eE", at())) fl = true; p++; } std::string n = t.substr(s, p - s); char *e; if (n.empty()) { bad = true; return jnew(J::N); }
            if (fl) { j = jnew(J::F); j->d = ::strtod(n.c_str(), &e); } else { j = jnew(J::I); errno = 0; j->i = strtoll(n.c_str(), &e, 10); if (errno) bad = true; } if (*e) bad = true; return j; } } }
};
static bool same(const PJ &a, const PJ &b) { // of two models
    if (a->k != b->k) return false;
    switch (a->k) { case J::N: return true; case J::B: return a->b == b->b; case J::I: return a->i == b->i; case J::F: return near(a->d, b->d); case J::S: return a->s == b->s;
        case J::A: if (a->m.size() != b->m.size()) return false; for (size_t i = 0; i < a->m.size(); i++) if (!same(a->m[i].second, b->m[i].second)) return false; return true;
        default: if (a->m.size() != b->m.size()) return false; for (auto &p : a->m) { bool f = false; for (auto &r : b->m) if (r.first == p.first) { f = same(p.second, r.second); break; } if (!f) return false; } return true; }
}
static ConstStrA cs(const std::string &s) { return ConstStrA(s.data(), s.size()); }
static const char *kinds[] = {"null", "boolean", "integer", "float", "string", "object", "array"};
static JSON::NodeType types[] = {JSON::ndNull, JSON::ndBool, JSON::ndInt, JSON::ndFloat, JSON::ndString, JSON::ndObject, JSON::ndArray};
static void check(const JSON::ConstValue &v, const PJ &j, const char *what, int depth = 0) { // value of the library against the model
    SIM_CHECK(v.get() != 0, "contents", "%s: value (%s) is missing", what, kinds[j->k]);
    SIM_CHECK(v.getType() == types[j->k], "contents", "%s: type of value is %d instead of %s", what, (int)v.getType(), kinds[j->k]);
    switch (j->k) {
        case J::N: SIM_CHECK(v.isNull() && !v.getBool(), "contents", "%s: null is not null", what); break;
        case J::B: SIM_CHECK(v.getBool() == j->b && !v.isNull(), "contents", "%s: boolean is %d instead of %d", what, (int)v.getBool(), (int)j->b); break;
        case J::I: SIM_CHECK(v.getInt() == j->i && v.getLongInt() == j->i && v.getNumber() == (double)j->i && v.getBool() == (j->i != 0), "contents", "%s: number is %lld instead of %lld", what, (long long)v.getInt(), j->i);
            if (depth < 9 && sim::chance("numtxt", 1, 4)) { char b[32]; int n = snprintf(b, 32, "%lld", j->i); ConstStrA t = v.getStringA(); SIM_CHECK((int)t.length() == n && memcmp(t.data(), b, n) == 0, "contents", "%s: number %s as text is %.*s", what, b, (int)t.length(), t.data()); } break;
        case J::F: SIM_CHECK(near(v.getNumber(), j->d), "contents", "%s: number is %.17g instead of %.17g", what, v.getNumber(), j->d); break;
        case J::S: { ConstStrA t = v.getStringA(); SIM_CHECK(t.length() == j->s.size() && memcmp(t.data(), j->s.data(), j->s.size()) == 0, "contents", "%s: string has %d bytes and is '%.*s' instead of '%s' (%d bytes)", what, (int)t.length(), (int)t.length(), t.data(), j->s.c_str(), (int)j->s.size());
            if (sim::chance("widetxt", 1, 3)) { std::wstring w; { sim::Quiet q; w = widen(j->s); } ConstStrW x = v.getString(); SIM_CHECK(x.length() == w.size() && memcmp(x.data(), w.data(), w.size() * sizeof(wchar_t)) == 0, "contents", "%s: wide string has %d characters instead of %d or differs", what, (int)x.length(), (int)w.size()); sim::Quiet q; std::wstring().swap(w); } } break;
        default: { size_t n = j->m.size(); SIM_CHECK(v.length() == n && v.empty() == (n == 0), "contents", "%s: %s has %d items instead of %d", what, kinds[j->k], (int)v.length(), (int)n);
            for (size_t i = 0; i < n; i++) check(j->k == J::O ? v[cs(j->m[i].first)] : v[(natural)i], j->m[i].second, what, depth + 1);
            if (j->k == J::O) { SIM_CHECK(v[ConstStrA("no such key")].get() == 0, "contents", "%s: object has a key which was never there", what); }
            else SIM_CHECK(v[(natural)n].get() == 0, "contents", "%s: array has an item behind the end", what);
            natural idx = 0; std::vector<char> seen; { sim::Quiet q; seen.assign(n, 0); }
            for (JSON::ConstIterator it = v->getFwConstIter(); it.hasItems();) { const JSON::ConstKeyValue &kv = it.getNext(); SIM_CHECK(idx < n && kv.getIndex() == idx, "contents", "%s: item %d has index %d", what, (int)idx, (int)kv.getIndex());
                size_t w = idx; if (j->k == J::O) { ConstStrA k = kv.getStringKey(); for (w = 0; w < n; w++) if (k.length() == j->m[w].first.size() && !memcmp(k.data(), j->m[w].first.data(), k.length())) break; SIM_CHECK(w < n, "contents", "%s: iteration gives key '%.*s' which is not there", what, (int)k.length(), k.data()); }
                SIM_CHECK(!seen[w], "contents", "%s: iteration gives one member twice", what); seen[w] = 1; SIM_CHECK(kv.getValue().get() == (j->k == J::O ? v[cs(j->m[w].first)].get() : v[(natural)w].get()), "contents", "%s: iteration gives other value then access", what); idx++; }
            SIM_CHECK(idx == n, "contents", "%s: iteration gives %d items instead of %d", what, (int)idx, (int)n); sim::Quiet q; std::vector<char>().swap(seen); }
    }
}
static JSON::Value build(const JSON::PFactory &f, const PJ &j) { // by the factory
    switch (j->k) {
        case J::N: return f->newNullNode(); case J::B: return f->newValue(j->b); case J::I: return j->i == (int)j->i && sim::coin("int32") ? f->newValue((int)j->i) : f->newValue((long)j->i); case J::F: return f->newValue(j->d);
        case J::S: if (j->wide) { std::wstring w; { sim::Quiet q; w = widen(j->s); } struct Fin { std::wstring &w; ~Fin() { sim::Quiet q; std::wstring().swap(w); } } fin = {w}; return f->newValue(ConstStrW(w.data(), w.size())); } return f->newValue(cs(j->s));
        case J::O: { JSON::Value o = f->newObject(); for (auto &p : j->m) o.add(cs(p.first), build(f, p.second)); return o; }
        default: { if (sim::chance("list", 1, 3)) { AutoArray<JSON::Value> a; for (auto &p : j->m) a.add(build(f, p.second)); return f->newValue(ConstStringT<JSON::Value>(a)); } JSON::Value o = f->newArray(); for (auto &p : j->m) o.add(build(f, p.second)); return o; }
    }
}
struct BothEnds : public IInputStream, public IOutputStream { // both ends: pieces and failures
    std::string d; size_t pos; int fails; BothEnds() : pos(0), fails(0) {}
    natural read(void *b, natural n) override { if (sim::fault("stream_fail")) { fails++; throw ErrNoException(THISLOCATION, EIO); } natural k = std::min<natural>(n, d.size() - pos); if (k > 1 && sim::fault("stream_short")) k = sim::faultValue("stream_short", 1, (int)k); memcpy(b, d.data() + pos, k); pos += k; return k; }
    natural peek(void *b, natural n) const override { natural k = std::min<natural>(n, d.size() - pos); memcpy(b, d.data() + pos, k); return k; }
    bool canRead() const override { return pos < d.size(); }
    natural dataReady() const override { return 0; }
    natural write(const void *b, natural n) override { if (sim::fault("stream_fail")) { fails++; throw ErrNoException(THISLOCATION, EIO); } natural k = n; if (k > 1 && sim::fault("stream_short")) k = sim::faultValue("stream_short", 1, (int)k); sim::Quiet q; d.append((const char *)b, k); return k; }
    bool canWrite() const override { return true; }
    void flush() override {}
    void closeOutput() override {}
};
static JSON::PFactory someFactory(IRuntimeAlloc &a) { switch (sim::param("factory", 0, 2)) { case 0: return JSON::create(); case 1: return JSON::createFast(); default: return JSON::create(a); } }
template<class F> static bool tries(ThisThread &t, const char *nm, F f, bool *refused = 0) { // true: done; the parser reports everything by its own exception
    bool ref = false; t.run(nm, [&] { try { f(); } catch (const JSON::ParseError_t &) { ref = true; } catch (const JSON::SerializeError_t &) { ref = true; } catch (const ErrNoException &) { ref = true; } });
    if (refused) *refused = ref; else SIM_CHECK(!ref || t.failed, "exception", "%s was refused", nm); return !t.threw && !ref; }
static std::string asText(const JSON::ConstValue &v, const JSON::PFactory &f, bool esc, int way, int *fails) {
    switch (way) {
        case 0: { StringA s = JSON::toString(v, esc); sim::Quiet q; return std::string(s.data(), s.length()); }
        case 1: { if (esc) f->getIfc<JSON::IFactoryToStringProperty>().enableUTFEscaping(true); ConstStrA s = f->toString(*v); if (esc) f->getIfc<JSON::IFactoryToStringProperty>().enableUTFEscaping(false); sim::Quiet q; return std::string(s.data(), s.length()); }
        case 2: { AutoArrayStream<char> s; JSON::serialize(v, s, esc); sim::Quiet q; return std::string(s.data(), s.length()); }
        default: { RefCntPtr<BothEnds> p = new BothEnds; struct Fin { BothEnds *p; int *f; ~Fin() { *f += p->fails; sim::Quiet q; std::string().swap(p->d); } } fin = {p.get(), fails}; { SeqFileOutput o((IOutputStream *)p.get()); f->toStream(*v, o); } sim::Quiet q; return p->d; }
    }
}
struct Fin { std::vector<std::string *> a; ~Fin() { sim::Quiet q; for (auto s : a) std::string().swap(*s); std::vector<std::string *>().swap(a); } void add(std::string &s) { sim::Quiet q; a.push_back(&s); } };
struct ModelFin { PJ &j; ~ModelFin() { sim::Quiet q; j.reset(); } };
static void warm() { JSON::PFactory f = JSON::create(); f->newNullNode(); f->newValue(true); f->newValue(false); f->newValue((natural)0); f->newValue(ConstStrA()); f->newObject(); for (int i = 0; i < 6; i++) try { std::string s; { sim::Quiet q; s = i == 0 ? "{\"a\":x}" : i == 1 ? "[\"\\q\"]" : i == 2 ? "[1,\"\\ud800\"]" : i == 3 ? "[" : i == 4 ? "[12x]" : "[1.2x]"; } f->fromString(cs(s)); } catch (const Exception &) { }
    try { f->toString(*f->newValue(ConstStrA("\xC3"))); JSON::toString(f->newValue(ConstStrA("\xC3")), true); } catch (const Exception &) { } try { throw ErrNoException(THISLOCATION, EIO); } catch (const Exception &) { } }

static bool exact(const PJ &j) { if (j->k == J::F) return false; for (auto &p : j->m) if (!exact(p.second)) return false; return true; } // floats may come from a text with a rounding error
SCENARIO(json_text, "C32", 3) {
    sim::setStepLimit(12000000); warm(); sim::enableFaults("stream_fail,stream_short");
    Heap h; { ThisThread t; StdAlloc al; JSON::PFactory f = someFactory(al), f2 = someFactory(al); PJ j; ModelFin mf = {j}; std::string text, out, cutText; Fin fin; fin.add(text); fin.add(out); fin.add(cutText);
    { sim::Quiet q; j = someTree(sim::param("depth", 0, 3)); render(text, j); }
    JSON::Value v; bool viaText = !sim::chance("build", 1, 3);
    if (!viaText) { tries(t, "build", [&] { v = build(f, j); }); t.noerr(); if (v == nil) { bool s = t.failing; t.failing = false; tries(t, "build", [&] { v = build(f, j); }); t.failing = s; } }
    else for (int att = 0; v == nil; att++) {
        if (att > 3) { t.failing = false; sim::faultsEnable(false); }
        int way = sim::param("way", 0, 5); int fails = 0; bool refused; 
        tries(t, "parse", [&] {
            switch (way) {
                case 0: v = f->fromString(cs(text)); break;
                case 1: { if (sim::coin("const")) { v = JSON::parse(static_cast<const IIterator<char, ConstStrA::Iterator> &>(cs(text).getFwIter()), f); break; } ConstStrA::Iterator it = cs(text).getFwIter(); v = JSON::parse(it, f); SIM_CHECK(!it.hasItems(), "contents", "%d bytes after parsing are left", (int)it.getRemain()); } break;
                case 2: { VtIterator<ConstStrA::Iterator> it(cs(text).getFwIter()); v = f->fromCharStream(it); } break;
                case 3: case 4: { RefCntPtr<BothEnds> p = new BothEnds; struct Fin2 { BothEnds *p; int &f; ~Fin2() { f = p->fails; sim::Quiet q; std::string().swap(p->d); } } fp = {p.get(), fails}; { sim::Quiet q; p->d = text; } SeqFileInput in((IInputStream *)p.get()); v = f->fromStream(in); } break;
                default: { // events of the stream parser
                    struct Ev { int kind; const JSON::INode *a, *b; std::string name; JSON::NodeType type; };
                    typedef ConstStrA::Iterator It; typedef JSON::StreamParser<It> SP;
                    struct CB : SP::ICallback { std::vector<Ev> ev; int skip, level; CB() : skip(-1), level(0) {} ~CB() { sim::Quiet q; std::vector<Ev>().swap(ev); }
                        SP::ICallback *onBeginContainer(JSON::INode *c, JSON::INode *p, ConstStrA n) override { SIM_CHECK(c->empty(), "callback", "opened container is not empty"); sim::Quiet q; ev.push_back(Ev{0, c, p, std::string(n.data(), n.length()), c->getType()}); return skip-- == 0 ? 0 : this; }
                        void onContainerCompleted(JSON::INode *c, JSON::INode *p) override { sim::Quiet q; ev.push_back(Ev{1, c, p, "", c->getType()}); }
                        JSON::Value onValue(JSON::INode *x, JSON::INode *c) override { sim::Quiet q; ev.push_back(Ev{2, x, c, "", x->getType()}); return x; } } cb;
                    cb.skip = sim::param("mute", -1, 6); int mute = cb.skip;
                    It it = cs(text).getFwIter(); SP p(it, f); v = p.parse(&cb);
                    struct Walk { std::vector<Ev> &ev; size_t at; int opens, mute; void go(const JSON::INode *n, const JSON::INode *parent, const PJ &j, const std::string &name) {
                        if (j->k == J::O || j->k == J::A) { SIM_CHECK(at < ev.size() && ev[at].kind == 0 && ev[at].a == n && ev[at].b == parent, "callback", "event %d of parsing is not opening of the %s", (int)at, kinds[j->k]);
                            if (j->k == J::O && parent && parent->getType() == JSON::ndObject) SIM_CHECK(ev[at].name == name, "callback", "container is opened as '%s' instead of '%s'", ev[at].name.c_str(), name.c_str());
                            at++; bool quiet = opens++ == mute; if (!quiet) { for (size_t i = 0; i < j->m.size(); i++) go(j->k == J::O ? n->getPtr(cs(j->m[i].first)) : n->getPtr((natural)i), n, j->m[i].second, j->m[i].first);
                            SIM_CHECK(at < ev.size() && ev[at].kind == 1 && ev[at].a == n && ev[at].b == parent, "callback", "event %d of parsing is not completion of the %s", (int)at, kinds[j->k]); at++; } }
                        SIM_CHECK(at < ev.size() && ev[at].kind == 2 && ev[at].a == n && ev[at].b == parent, "callback", "event %d of %d of parsing is not the value (%s)", (int)at, (int)ev.size(), kinds[j->k]); at++; } } w = {cb.ev, 0, 0, mute};
                    w.go(v.get(), 0, j, std::string()); SIM_CHECK(w.at == cb.ev.size(), "callback", "parser reported %d events instead of %d", (int)cb.ev.size(), (int)w.at); sim::probe("stream_parser"); } break;
            } }, &refused); t.noerr();
        if (t.threw || refused) { v = nil; SIM_CHECK(!refused || t.failed || fails, "exception", "correct text was refused (way %d): %s", way, text.c_str()); sim::probe(fails ? "stream_error" : "no_memory"); }
    }
    t.failing = false; sim::faultsEnable(false);
    check(v, j, viaText ? "parsed" : "built"); sim::probe("values");
    JSON::Value w = build(f2, j); bool ex = exact(j) || !viaText; SIM_CHECK(!ex || (*v == *w && *w == *v), "contents", "two equal values of type %s are not equal", kinds[j->k]); check(w, j, "second");
    { JSON::Value c = v->clone(f2); check(c, j, "clone"); SIM_CHECK(*c == *v && *v == *c, "contents", "clone is not equal to its origin"); if (j->k >= J::O) SIM_CHECK(c.get() != v.get(), "contents", "clone is the origin"); natural dp = sim::param("cpdepth", 0, 4); JSON::Value d = v->copy(f2, dp == 4 ? naturalNull : dp); check(d, j, "copy"); SIM_CHECK(*d == *v, "contents", "copy is not equal to its origin"); if (j->k >= J::O) SIM_CHECK(d.get() != v.get(), "contents", "copy is the origin"); }
    // to text
    for (int k = 0; k < 3; k++) { bool esc = sim::coin("esc"); int way = sim::param("outway", 0, 3), fails = 0; if (way == 3) { sim::faultsEnable(true); esc = true; }
        bool ok = true; try { std::string x = asText(v, f, esc, way, &fails); sim::Quiet q; out = x; std::string().swap(x); } catch (const Exception &e) { ok = false; SIM_CHECK(fails, "exception", "value can't be written (way %d)", way); sim::probe("write_error"); } sim::faultsEnable(false);
        if (!ok) continue;
        SIM_CHECK(!fails, "contents", "target failed but the write succeeded");
        sim::Quiet q; if (esc) for (char c : out) SIM_CHECK(!(c & 0x80), "contents", "text with escapes has byte %02x", (unsigned char)c);
        Mini m(out); PJ r = m.val(); SIM_CHECK(!m.bad && m.p == out.size(), "contents", "value is written (way %d, escapes %d) as text which is not correct at byte %d: %s", way, (int)esc, (int)m.p, out.c_str());
        struct Num { static void fix(const PJ &a, const PJ &b) { if (a->k == J::F && b->k == J::F && fabs(a->d - b->d) <= 6e-7) b->d = a->d; for (size_t i = 0; i < a->m.size() && i < b->m.size(); i++) fix(a->m[i].second, b->m[i].second); } }; Num::fix(j, r);
        SIM_CHECK(same(j, r), "contents", "text (way %d, escapes %d) has other value: %s; it should be: %s", way, (int)esc, out.c_str(), text.c_str()); }
    { JSON::Value z = f->fromString(cs(out.empty() ? text : out)); check(z, j, "reparsed"); SIM_CHECK(!exact(j) || (*z == *v && *v == *z), "contents", "value written and parsed is not equal"); }
    // broken texts
    for (int k = 0; k < 3; k++) { bool threw = false; { sim::Quiet q; std::string core = text; while (!core.empty() && isspace((unsigned char)core.back())) core.pop_back(); size_t n = sim::param("cut", 0, (int)core.size() - 1); cutText = core.substr(0, n); if (j->k == J::I || j->k == J::F) cutText.clear(); }
        try { JSON::Value z = f->fromString(cs(cutText)); } catch (const Exception &) { threw = true; } SIM_CHECK(threw, "broken-text", "text cut at byte %d was accepted: %s", (int)cutText.size(), cutText.c_str());
        { sim::Quiet q; cutText = text; size_t n = sim::param("hit", 0, (int)text.size() - 1); cutText[n] = (char)sim::param("with", 0, 255); if (sim::coin("drop")) cutText.erase(n, 1); }
        try { JSON::Value z = f->fromString(cs(cutText)); if (z != nil) { StringA x = JSON::toString(z, false); } } catch (const Exception &) { sim::probe("refused"); } }
    } 
}
static const char *g_keys[] = {"a", "b", "c", "key", "longer key of the member", ""};
static bool reaches(const PJ &from, const J *to) { if (from.get() == to) return true; for (auto &p : from->m) if (reaches(p.second, to)) return true; return false; }
static size_t weight(const PJ &j) { size_t n = 1; for (auto &p : j->m) n += weight(p.second); return n; }
static PJ deep(const PJ &j, natural depth) { // copy of the model; leaves may be shared, they never change
    if (j->k < J::O) return j; PJ r = jnew(j->k); for (auto &p : j->m) r->m.push_back(std::make_pair(p.first, depth ? deep(p.second, depth - 1) : p.second)); return r; }
static void jset(const PJ &o, const std::string &k, const PJ &x, bool over) { for (size_t i = 0; i < o->m.size(); i++) if (o->m[i].first == k) { if (!x) o->m.erase(o->m.begin() + i); else if (over) o->m[i].second = x; return; } if (x) o->m.push_back(std::make_pair(k, x)); }
SCENARIO(json_ops, "C32", 2) {
    sim::setStepLimit(12000000); warm(); { JSON::PFactory f = JSON::create(); JSON::Value o = f->object(); try { o.add(o); } catch (const Exception &) { } try { o["x"]; (*o)["x"]; } catch (const Exception &) { } try { JSON::ConstValue o2 = o; JSON::Container c(o2); } catch (const Exception &) { } }
    Heap h; { ThisThread t; t.failing = false; StdAlloc al; JSON::PFactory f = someFactory(al); const int N = 4; int n = sim::param("ops", 4, 60);
    struct Pop { JSON::Value v[4]; PJ j[4]; ~Pop() { sim::Quiet q; for (auto &p : j) p.reset(); } } p;
    for (int i = 0; i < N; i++) { sim::Quiet q; p.j[i] = jnew(i & 1 ? J::A : J::O); sim::faultsEnable(false); }
    for (int i = 0; i < N; i++) p.v[i] = i & 1 ? f->array() : f->object();
    struct Kept { JSON::ConstIterator *it; std::vector<std::pair<std::string, const JSON::INode *>> want; } kept = {0, {}}; struct KeptFin { Kept &k; ~KeptFin() { delete k.it; sim::Quiet q; std::vector<std::pair<std::string, const JSON::INode *>>().swap(k.want); } } kf = {kept};
    for (int k = 0; k < n; k++) {
        int a = sim::param("obj", 0, 1) * 2, b = sim::param("arr", 0, 1) * 2 + 1, s = sim::param("src", 0, N - 1); JSON::Value &o = p.v[a], &r = p.v[b]; PJ &jo = p.j[a], &jr = p.j[b];
        const char *key = g_keys[sim::param("key", 0, 5)]; ConstStrA ck(key); std::string sk; size_t len = jr->m.size(), at = sim::param("at", 0, 8); { sim::Quiet q; sk = key; }
        JSON::Value x; PJ jx; if (sim::chance("nested", 1, 3)) { x = p.v[s]; sim::Quiet q; jx = p.j[s]; } else { { sim::Quiet q; jx = someTree(1); } x = build(f, jx); }
        struct XFin { PJ &j; std::string &s; ~XFin() { sim::Quiet q; j.reset(); std::string().swap(s); } } xf = {jx, sk};
        const char *nm = ""; int tgt = -1;
        switch (sim::param("op", 0, 17)) {
            case 0: case 1: case 2: if (reaches(jx, jo.get())) break; nm = "add member"; tgt = a; if (sim::coin("i")) o.add(ck, x); else o->add(ck, x); { sim::Quiet q; jset(jo, sk, jx, false); } break;
            case 3: case 4: if (reaches(jx, jo.get())) break; nm = "set member"; tgt = a; if (sim::coin("i")) o.set(ck, x); else { JSON::Value prev, was = o[ck]; o->replace(ck, x, &prev); SIM_CHECK(prev.get() == was.get(), "contents", "replace of a member returned other previous value"); } { sim::Quiet q; jset(jo, sk, jx, true); } break;
            case 5: nm = "remove member"; tgt = a; switch (sim::param("how", 0, 3)) { case 0: o.unset(ck); break; case 1: o->erase(ck); break; case 2: o.set(ck, JSON::Value()); break; case 3: o->add(ck, JSON::Value()); break; } { sim::Quiet q; jset(jo, sk, PJ(), true); } break;
            case 6: case 7: case 8: if (reaches(jx, jr.get())) break; nm = "add item"; tgt = b; switch (sim::param("how", 0, 2)) { case 0: r.add(x); break; case 1: r->add(x); break; case 2: r->add(ConstStrA("ignored"), x); break; } { sim::Quiet q; jr->m.push_back(std::make_pair(std::string(), jx)); } break;
            case 9: if (at >= len || reaches(jx, jr.get())) break; nm = "set item"; tgt = b; { JSON::Value prev, was = r[(natural)at]; if (sim::coin("i")) r.set((natural)at, x); else { r->replace((natural)at, x, &prev); SIM_CHECK(prev.get() == was.get(), "contents", "replace of an item returned other previous value"); } } { sim::Quiet q; jr->m[at].second = jx; } break;
            case 10: if (at >= len) break; nm = "remove item"; tgt = b; switch (sim::param("how", 0, 2)) { case 0: r.erase((natural)at); break; case 1: r->erase((natural)at); break; case 2: r->replace((natural)at, JSON::Value()); break; } { sim::Quiet q; jr->m.erase(jr->m.begin() + at); } break;
            case 11: if (!sim::chance("clr", 1, 3)) break; nm = "clear"; tgt = sim::coin("which") ? a : b; if (sim::coin("i")) p.v[tgt].clear(); else p.v[tgt]->clear(); { sim::Quiet q; p.j[tgt]->m.clear(); } break;
            case 12: { // load: members are set, items added
                tgt = sim::coin("which") ? a : b; if (p.j[s]->k != p.j[tgt]->k || s == tgt) { tgt = -1; break; } bool cyc = false; for (auto &q : p.j[s]->m) if (reaches(q.second, p.j[tgt].get())) cyc = true; if (cyc) { tgt = -1; break; }
                nm = "load"; int how = sim::param("how", 0, 1); if (how == 0) p.v[tgt].load(p.v[s]); else p.v[tgt]->copy(JSON::ConstValue(p.v[s])); sim::Quiet q; for (auto &y : p.j[s]->m) if (tgt == b) p.j[b]->m.push_back(y); else jset(jo, y.first, y.second, how == 0); } break;
            case 13: { nm = "copy"; natural dp = sim::param("depth", 0, 4); if (dp == 4) dp = naturalNull; JSON::Value c = sim::coin("clone") ? (dp = naturalNull, p.v[s]->clone(f)) : p.v[s]->copy(f, dp, sim::coin("mt")); int to = s; tgt = to; p.v[to] = c; sim::Quiet q; p.j[to] = deep(p.j[to], dp); } break;
            case 14: { nm = "compare"; bool inside = false; bool eq = false; { sim::Quiet q; for (int z = 0; z < N; z++) (void)inside; eq = same(p.j[s], p.j[(s + 2) % N]); } const JSON::INode &l = *p.v[s], &m = *p.v[(s + 2) % N]; SIM_CHECK((l == m) == eq && (m == l) == eq && (l != m) != eq, "contents", "comparison of two %s says %d, other way round %d, it should be %d", kinds[p.j[s]->k], (int)(l == m), (int)(m == l), (int)eq); sim::probe(eq ? "equal" : "different");
                PJ y; ModelFin yf = {y}; { sim::Quiet q; y = someTree(0); } JSON::Value z = build(f, y); bool e2 = jx->k < J::O && same(jx, y); if (jx->k < J::O) SIM_CHECK((*x == *z) == e2 && (*z == *x) == e2, "contents", "comparison of %s and %s says %d, other way round %d, it should be %d", kinds[jx->k], kinds[y->k], (int)(*x == *z), (int)(*z == *x), (int)e2); } break;
            case 15: { nm = "iterate"; if (kept.it) { for (auto &wt : kept.want) { SIM_CHECK(kept.it->hasItems(), "snapshot", "iterator is at the end too early"); const JSON::ConstKeyValue &kv = kept.it->getNext(); SIM_CHECK(kv.getValue().get() == wt.second, "snapshot", "iterator sees later changes"); } SIM_CHECK(!kept.it->hasItems(), "snapshot", "iterator has more items then the container had"); delete kept.it; kept.it = 0; sim::Quiet q; std::vector<std::pair<std::string, const JSON::INode *>>().swap(kept.want); sim::probe("snapshot"); }
                else { kept.it = new JSON::ConstIterator(p.v[s]); JSON::ConstIterator z(p.v[s]); while (z.hasItems()) { const JSON::ConstKeyValue &kv = z.getNext(); sim::Quiet q; kept.want.push_back(std::make_pair(std::string(), kv.getValue().get())); } } } break;
            case 16: { nm = "cycle"; bool threw = false; int w = sim::coin("which") ? a : b; try { if (w == b) p.v[w].add(p.v[w]); else p.v[w].add(ck, p.v[w]); } catch (const InvalidParamException &) { threw = true; } SIM_CHECK(threw, "exception", "container was added to itself"); tgt = w; } break;
            case 17: switch (sim::param("how", 0, 2)) {
                case 0: { nm = "path"; JSON::Path p1(JSON::Path::root, ConstStrA(key)), p2(p1, (natural)at), p3(p2, ConstStrA("a")); JSON::Path *c = sim::coin("copy") ? p3.copy() : 0; const JSON::Path &pp = c ? *c : p3; PJ y; { sim::Quiet q; PJ cur = jo; for (int z = 0; z < 3 && cur; z++) { PJ nx; if (z == 1) { if (cur->k == J::A && at < cur->m.size()) nx = cur->m[at].second; else if (cur->k < J::O && at == 0) nx = cur; } else { const char *kk = z ? "a" : key; PJ c2 = cur; while (c2->k == J::A && !c2->m.empty()) c2 = c2->m[0].second; if (c2->k == J::O) for (auto &m : c2->m) if (m.first == kk) nx = m.second; } cur = nx; } y = cur; }
                    ModelFin yf = {y}; JSON::ConstValue got = pp(JSON::ConstValue(o)); SIM_CHECK((got.get() != 0) == !!y, "contents", "path %s something", y ? "did not find" : "found"); if (y) check(got, y, "path"); SIM_CHECK(pp == p3 && pp.length() == 3 && (p1 == p3) == false && (p2 < p3), "contents", "paths are compared wrongly"); if (c) delete c; } break;
                case 1: { nm = "builder"; JSON::Builder bl(f); PJ y; ModelFin yf = {y}; { sim::Quiet q; y = jnew(J::O); } JSON::Builder::Object ob = bl.object(); ob("n", 5)("t", true)("s", "text"); (ob / "sub" / "deep")("v", x); JSON::Builder::Array ar = bl.array(); ar << 1 << "two" << x; ob("arr", JSON::Value(ar));
                    { sim::Quiet q; PJ z = jnew(J::I); z->i = 5; jset(y, "n", z, true); z = jnew(J::B); z->b = true; jset(y, "t", z, true); z = jnew(J::S); z->s = "text"; jset(y, "s", z, true); PJ d = jnew(J::O); jset(d, "v", jx, true); PJ u = jnew(J::O); jset(u, "deep", d, true); jset(y, "sub", u, true); PJ l = jnew(J::A); z = jnew(J::I); z->i = 1; l->m.push_back(std::make_pair(std::string(), z)); z = jnew(J::S); z->s = "two"; l->m.push_back(std::make_pair(std::string(), z)); l->m.push_back(std::make_pair(std::string(), jx)); jset(y, "arr", l, true); } check(ob, y, "builder");
                    JSON::ConstValue cx = x; PJ five, y2, y3, y4; ModelFin f2 = {five}, f3 = {y2}, f4 = {y3}, f5 = {y4}; { sim::Quiet q; five = jnew(J::I); five->i = 5; y2 = jnew(J::O); jset(y2, "c", jx, true); jset(y2, "k", five, true); y3 = jnew(J::A); y3->m.push_back(std::make_pair(std::string(), jx)); y3->m.push_back(std::make_pair(std::string(), five)); y4 = jnew(J::O); jset(y4, "k", five, true); }
                    JSON::Builder::CObject co = bl.container("c", cx); co("k", 5); check(co, y2, "builder of a container"); JSON::Builder::CObject co2 = bl("c", cx); co2("k", 5); check(co2, y2, "builder of a container"); JSON::Builder::Object o2 = bl("k", 5); check(o2, y4, "builder"); JSON::Builder::CObject o3 = o2.container(); o3("c", cx); check(o3, y2, "builder of a container"); check(o2, y2, "object under a container");
                    JSON::Builder::CArray ca = (bl << cx); ca << 5; check(ca, y3, "builder of an array"); JSON::Builder::CObject cc = bl.container(JSON::ConstValue(ob)); cc("new", cx); check(ob, y, "original of a copy"); sim::probe("builder"); } break;
                case 2: { nm = "required"; bool has = false; { sim::Quiet q; for (auto &m : jo->m) if (m.first == sk) has = true; } bool threw = false; try { (*o)[ck]; } catch (const JSON::RequiredFieldException &) { threw = true; } SIM_CHECK(threw == !has, "exception", "required member %s", has ? "is there but was reported missing" : "is missing, it was not reported"); threw = false; try { (*r)[(natural)at]; } catch (const JSON::RequiredFieldException &) { threw = true; } SIM_CHECK(threw == (at >= len), "exception", "required item %d of %d %s", (int)at, (int)len, threw ? "was reported missing" : "was not reported missing"); } break;
            } break;
        }
        if (*nm) { sim::event("%s %d", nm, tgt); }
        if (weight(p.j[a]) > 60 || weight(p.j[b]) > 60) { for (int z = 0; z < N; z++) { p.v[z].clear(); sim::Quiet q; p.j[z]->m.clear(); } }
        for (int z = 0; z < N; z++) check(p.v[z], p.j[z], nm);
    } }
}
SCENARIO(json_shared, "C32", 2) { // first use of shared values and their texts by many threads at once
    sim::setStepLimit(12000000); int n = sim::param("threads", 2, 4), rounds = sim::param("rounds", 1, 3); struct All { PJ j; ~All() { sim::Quiet q; j.reset(); } } m; JSON::PFactory f = JSON::create(); JSON::Value v; std::string plain;
    { sim::Quiet q; m.j = jnew(J::A); for (int i = 0; i < 6; i++) { PJ x; do x = someTree(1); while (i < 3 && x->k != J::I && x->k != J::S); m.j->m.push_back(std::make_pair(std::string(), x)); } }
    bool warmed = sim::chance("warm", 1, 3); if (warmed) warm(); if (warmed || sim::coin("pre")) v = build(f, m.j); else { v = f->array(); sim::Quiet q; m.j = jnew(J::A); }
    v->enableMTAccess(); { Crew c;
    for (int i = 0; i < n; i++) c.go([&] { for (int r = 0; r < rounds; r++) {
        JSON::PFactory g = sim::coin("own") ? JSON::create() : JSON::createFast(); JSON::ConstValue mine = v;
        switch (sim::param("do", 0, 4)) {
            case 0: for (int k = 0; k < 5; k++) { JSON::Value a; switch (sim::param("const", 0, 6)) { case 0: a = g->newNullNode(); SIM_CHECK(a->isNull() && a->getType() == JSON::ndNull, "contents", "shared null is not null"); break; case 1: case 2: { bool t = sim::coin("tf"); a = g->newValue(t); SIM_CHECK(a->isBool() && a->getBool() == t, "contents", "shared boolean has wrong value"); } break; case 3: a = g->newValue((natural)0); SIM_CHECK(a->isIntNum() && a->getInt() == 0, "contents", "shared zero is not zero"); break; case 4: a = g->newValue(0.0); SIM_CHECK(a->isNumber() && a->getFloat() == 0, "contents", "shared zero is not zero"); break; case 5: a = g->newValue(ConstStrA()); SIM_CHECK(a->isString() && a->getStringUtf8().empty(), "contents", "shared empty string is not empty"); break; case 6: a = JSON::getConstant(JSON::constTrue); SIM_CHECK(a->getBool(), "contents", "true is not true"); break; } } sim::probe("constants"); break;
            case 1: check(mine, m.j, "shared"); sim::probe("shared"); break;
            case 2: { JSON::Value c2 = mine->clone(g); mine = nil; check(c2, m.j, "clone in a thread"); } break;
            case 3: { JSON::Value c2 = mine->copy(g, sim::param("depth", 0, 2), true); mine = nil; check(c2, m.j, "copy in a thread"); c2.add(g->newValue(5)); } break;
            case 4: { StringA s = JSON::toString(mine, sim::coin("esc")); sim::Quiet q; std::string t(s.data(), s.length()); Mini mm(t); PJ r2 = mm.val(); SIM_CHECK(!mm.bad && same(r2, m.j), "contents", "value shared by threads is written as %s", t.c_str()); } break;
        } } });
    c.join(); }
    check(v, m.j, "after threads");
}
