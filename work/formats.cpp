#include "model.h"
#include "lightspeed/base/containers/convertString.h"
#include "lightspeed/base/iter/iterConv.h"
#include "lightspeed/utils/base16.h"
#include "lightspeed/utils/base32.h"
#include "lightspeed/utils/base64.h"
#include "lightspeed/utils/base85.h"
#include "lightspeed/utils/urlencode.h"
#include "lightspeed/utils/lzw.h"

// ---------------------------------------------------------------- C30 strings, texts and their encodings
// ---- strings: shared until written, expressions over them
static std::string txt(int max) { int n = sim::param("len", 0, max); std::string s; for (int i = 0; i < n; i++) s += (char)('a' + sim::param("ch", 0, 3)); return s; }
static void sameStr(const StringA &s, const std::string &m, const char *op, int which) {
    SIM_CHECK(s.length() == m.size() && s.empty() == m.empty(), "contents", "string %d after %s has %d characters instead of %d", which, op, (int)s.length(), (int)m.size());
    const char *c = s.cStr(); for (size_t i = 0; i < m.size(); i++) SIM_CHECK(c[i] == m[i] && s[i] == m[i], "contents", "string %d after %s: character %d is '%c' instead of '%c'", which, op, (int)i, c[i], m[i]);
    SIM_CHECK(c[m.size()] == 0, "contents", "string %d after %s is not terminated by zero", which, op);
    ConstStrA cs = s; SIM_CHECK(cs.length() == m.size(), "contents", "reference to string %d after %s has %d characters instead of %d", which, op, (int)cs.length(), (int)m.size());
}
static size_t nullPos(natural p) { return p == naturalNull ? std::string::npos : (size_t)p; }
#define STR_IS(expr, want, what) do { std::string w_ = want; StringA r_; t.run(what, [&] { r_ = StringA(expr); }); t.noerr(); if (!t.threw) { sameStr(r_, w_, what, 9); if (sim::coin("keep")) { s = r_; sim::Quiet q_; m = w_; } } } while (0)
static std::string cut(const std::string &s, size_t p, size_t c) { return p >= s.size() ? std::string() : s.substr(p, c); }
SCENARIO(form_string, "C30", 2) {
    { StringA a("x"); StringA b(a); b.isolate(); String w("y"); w.getUtf8(); }
    Heap h; { ThisThread t; int n = sim::param("ops", 4, 60); const int N = 3; sim::setStepLimit(4000000);
    std::vector<StringA *> st; std::vector<std::string> mod; { sim::Quiet q; for (int i = 0; i < N; i++) { st.push_back(new StringA); mod.push_back(std::string()); } }
    struct Fin { std::vector<StringA *> &a; ~Fin() { for (auto p : a) delete p; sim::Quiet q; std::vector<StringA *>().swap(a); } } fin = {st};
    for (int k = 0; k < n; k++) {
        int w = sim::param("w", 0, N - 1), w2 = sim::param("w2", 0, N - 1); StringA &s = *st[w], &o = *st[w2]; std::string &m = mod[w], &mo = mod[w2]; size_t len = m.size(); const char *nm = "";
        if (len + mo.size() > 60) { s.clear(); sim::Quiet q; m.clear(); len = 0; }
        size_t p = sim::param("p", 0, (int)len + 2), c = sim::param("c", 0, (int)len + 2); if (sim::chance("all", 1, 8)) c = naturalNull; char ch = (char)('a' + sim::param("ch1", 0, 3));
        switch (sim::param("op", 0, 21)) {
            case 0: case 1: { nm = "assign text"; std::string x = txt(10); t.run(nm, [&] { if (x.empty() && sim::coin("null")) s = ConstStrA((const char *)0); else if (sim::coin("how")) s = StringA(ConstStrA(x.c_str(), x.size())); else s = x.c_str(); }); t.noerr(); if (!t.threw) { sim::Quiet q; m = x; } } break;
            case 2: case 3: nm = "assign"; t.run(nm, [&] { s = o; }); t.noerr(); if (!t.threw) { sim::Quiet q; m = mo; } break;
            case 4: case 5: STR_IS(s + o, m + mo, "sum"); break;
            case 6: STR_IS(s.mid(p, c), cut(m, p, c), "mid"); break;
            case 7: if (sim::coin("ht")) STR_IS(s.head(c), cut(m, 0, c), "head"); else STR_IS(s.tail(c), m.substr(c > len ? 0 : len - c), "tail"); break;
            case 8: if (sim::coin("of")) STR_IS(s.offset(p), cut(m, p, naturalNull), "offset"); else { if (c == naturalNull) c = 1; STR_IS(s.crop(p, c), p + c >= len ? std::string() : m.substr(p, len - p - c), "crop"); } break;
            case 9: { std::string sum = m + mo; p = sim::param("ps", 0, (int)sum.size() + 1); if (c != naturalNull) c = sim::param("cs", 0, (int)sum.size() + 1);
                switch (sim::param("sumop", 0, 4)) {
                    case 0: STR_IS((s + o).mid(p, c), cut(sum, p, c), "mid of sum"); break;
                    case 1: STR_IS((s + o).head(c), cut(sum, 0, c), "head of sum"); break;
                    case 2: STR_IS((s + o).tail(c), sum.substr(c > sum.size() ? 0 : sum.size() - c), "tail of sum"); break;
                    case 3: STR_IS((s + o).offset(p), cut(sum, p, naturalNull), "offset of sum"); break;
                    case 4: { natural r = (s + o).find(ch); SIM_CHECK(nullPos(r) == sum.find(ch), "contents", "find in sum returned %d instead of %d", (int)r, (int)sum.find(ch)); ConstStrA cs(s), co(o); SIM_CHECK((cs + co).mid(p, c).empty() == cut(sum, p, c).empty(), "contents", "part of sum says that it %s empty", cut(sum, p, c).empty() ? "is not" : "is"); } break;
                } } break;
            case 10: switch (sim::param("xop", 0, 3)) {
                case 0: STR_IS(s + o + s, m + mo + m, "sum of three"); break;
                case 1: { std::string x = m; std::reverse(x.begin(), x.end()); STR_IS(s.reverse(), x, "reverse"); } break;
                case 2: { int cnt = sim::param("rep", 0, 3); std::string x; for (int i = 0; i < cnt; i++) x += m; STR_IS(s.repeat(cnt), x, "repeat"); } break;
                case 3: { std::string x = mo + m; std::reverse(x.begin(), x.end()); STR_IS((o + s).reverse(), x, "reverse of sum"); } break;
            } break;
            case 11: STR_IS(ConstStrA("<") + s + ConstStrA(">"), "<" + m + ">", "sum with texts"); if (m.find('<') != std::string::npos) { s.clear(); sim::Quiet q; m.clear(); } break;
            case 12: nm = "isolate"; t.run(nm, [&] { s.isolate(); }); t.noerr(); break;
            case 13: nm = "copy"; t.run(nm, [&] { StringA x = sim::coin("mt") ? StringA(s.getMT()) : StringA(s.copy()); sameStr(x, m, "copy", 8); if (len) { char *d = x.data(); d[0] = 'Z'; } }); t.noerr(); break;
            case 14: case 15: if (!len) break; nm = "write"; p = sim::param("pw", 0, (int)len - 1); t.run(nm, [&] { char *d = s.data(); d[p] = ch; }); t.noerr(); if (!t.threw) m[p] = ch; break;
            case 16: { nm = "createBuffer"; std::string x = txt(8); t.run(nm, [&] { char *d = s.createBuffer(x.size()); for (size_t i = 0; i < x.size(); i++) d[i] = x[i]; }); t.noerr(); if (!t.threw) { sim::Quiet q; m = x; } } break;
            case 17: { nm = "createBufferIter"; std::string x = txt(8); size_t more = sim::param("more", 0, 4); bool blk = sim::coin("blk");
                t.run(nm, [&] { StringA::WriteIterator it = s.createBufferIter(x.size() + more); for (size_t i = 0; i < x.size();) { SIM_CHECK(it.hasItems() && it.getRemain() == x.size() + more - i, "contents", "write iterator of a string is full too early"); if (blk && i + 1 < x.size()) { it.blockWrite(ConstStrA(x.c_str() + i, 2), true); i += 2; } else it.write(x[i++]); } SIM_CHECK(it.hasItems() == (more != 0), "contents", "write iterator of a string has wrong size"); });
                t.noerr(); if (!t.threw) { sim::Quiet q; m = x; } } break;
            case 18: nm = "clear"; s.clear(); { sim::Quiet q; m.clear(); } break;
            case 19: { nm = "find"; std::string x = txt(3); ConstStrA cx(x.c_str(), x.size()); natural r; size_t e;
                switch (sim::param("fnd", 0, 5)) {
                    case 0: r = s.find(ch); e = m.find(ch); break;
                    case 1: r = s.find(ch, p); e = p >= len ? std::string::npos : m.find(ch, p); break;
                    case 2: if (x.empty()) return; r = s.find(cx); e = m.find(x); break;
                    case 3: if (x.empty()) return; r = s.find(cx, p); e = p >= len ? std::string::npos : m.find(x, p); break;
                    case 4: r = s.findLast(ch); e = m.rfind(ch); break;
                    default: r = s.findOneOf(cx); e = m.find_first_of(x); break;
                } SIM_CHECK(nullPos(r) == e, "contents", "search in a string returned %d instead of %d", (int)r, (int)e); } break;
            case 20: { nm = "compare"; int c1 = m.compare(mo); SIM_CHECK((s == o) == (c1 == 0) && (s != o) == (c1 != 0) && (s < o) == (c1 < 0) && (s > o) == (c1 > 0) && (s <= o) == (c1 <= 0) && (s >= o) == (c1 >= 0), "contents", "comparison of strings is wrong");
                static const char ab[] = "ab"; int c2 = m.compare("ab"); ConstStrA cs = s; SIM_CHECK((cs <= ab) == (c2 <= 0) && (cs >= ab) == (c2 >= 0) && (cs < ab) == (c2 < 0) && (cs > ab) == (c2 > 0) && (cs == ab) == (c2 == 0), "contents", "comparison of a string with text is wrong"); } break;
            case 21: { nm = "split"; ConstStrA cs = s; std::vector<std::string> got; int sepcount = 1; for (char z : m) if (z == ch) sepcount++; { sim::Quiet q; got.reserve(sepcount + 2); }
                int cnt = 0; size_t pos = 0; for (ConstStrA::SplitIterator it = cs.split(ch); it.hasItems(); cnt++) { SIM_CHECK(cnt < sepcount, "contents", "split gives too many parts"); ConstStrA part = it.getNext(); size_t e = m.find(ch, pos); if (e == std::string::npos) e = len; SIM_CHECK(part.length() == e - pos && !memcmp(part.data(), m.data() + pos, e - pos), "contents", "split: part %d is wrong", cnt); pos = e + 1; }
                SIM_CHECK(cnt == sepcount, "contents", "split gives %d parts instead of %d", cnt, sepcount);
                ConstStrA tr = cs.trim(ch); size_t b = 0, e = len; while (b < e && m[b] == ch) b++; while (e > b && m[e - 1] == ch) e--; SIM_CHECK(tr.length() == e - b && !memcmp(tr.data(), m.data() + b, e - b), "contents", "trim is wrong"); } break;
        }
        for (int i = 0; i < N; i++) sameStr(*st[i], mod[i], nm, i);
    } }
}

SCENARIO(form_utf, "C30", 1) { // every text goes to UTF-8 and back
    { String w("y"); w.getUtf8(); StringA a("x"); }
    Heap h; { ThisThread t; sim::setStepLimit(4000000); int n = sim::param("n", 1, 6);
    for (int k = 0; k < n; k++) {
        int len = sim::param("len", 0, 12); std::wstring w; std::string u;
        for (int i = 0; i < len; i++) { static const int lo[] = {1, 0x80, 0x800, 0xE000, 0x10000, 0x7f, 0x7ff, 0xffff}, hi[] = {0x7f, 0x7ff, 0xD7ff, 0xfffd, 0x10ffff, 0x80, 0x800, 0x10000}; int c = sim::param("cls", 0, 7); unsigned x = sim::param("cp", lo[c], hi[c]); w += (wchar_t)x;
            if (x < 0x80) u += (char)x; else if (x < 0x800) { u += (char)(0xC0 | x >> 6); u += (char)(0x80 | (x & 63)); } else if (x < 0x10000) { u += (char)(0xE0 | x >> 12); u += (char)(0x80 | (x >> 6 & 63)); u += (char)(0x80 | (x & 63)); } else { u += (char)(0xF0 | x >> 18); u += (char)(0x80 | (x >> 12 & 63)); u += (char)(0x80 | (x >> 6 & 63)); u += (char)(0x80 | (x & 63)); } }
        String s, back; StringA a;
        t.run("from wide", [&] { s = String(ConstStrW(w.c_str(), w.size())); }); t.noerr(); if (t.threw) continue;
        SIM_CHECK(s.length() == w.size() && !wmemcmp(s.cStr(), w.c_str(), w.size()), "contents", "wide string lost characters");
        natural l = 0; t.run("utf8length", [&] { l = s.utf8length(); }); t.noerr(); if (!t.threw) SIM_CHECK(l == u.size(), "contents", "utf8length is %d instead of %d", (int)l, (int)u.size());
        t.run("getUtf8", [&] { a = sim::coin("how") ? s.getUtf8() : String::getUtf8(ConstStrW(w.c_str(), w.size())); }); t.noerr(); if (t.threw) continue;
        SIM_CHECK(a.length() == u.size() && !memcmp(a.cStr(), u.data(), u.size()), "contents", "text in UTF-8 has %d bytes instead of %d, or other ones", (int)a.length(), (int)u.size());
        t.run("from UTF-8", [&] { back = String(ConstStrA(a)); }); t.noerr(); if (t.threw) continue;
        SIM_CHECK(back.length() == w.size() && !wmemcmp(back.cStr(), w.c_str(), w.size()), "contents", "text read from UTF-8 has %d characters instead of %d, or other ones", (int)back.length(), (int)w.size());
    } }
}

// ---- encoders and decoders: whatever pieces the data come in
typedef std::string Bytes;
template<class T> static ConstStringT<T> ref(const Bytes &b) { return ConstStringT<T>((const T *)b.data(), b.size()); }
template<class A> static Bytes bytesOf(const A &a) { return Bytes((const char *)a.data(), a.length()); }
template<class C> static void oneStream(ThisThread &t, C &conv, const Bytes &in, Bytes &out, int how) { // feeds one stream to the converter
    typedef typename C::FromType From; typedef typename C::ToType To;
    size_t n = in.size(); const From *src = (const From *)in.data(); std::vector<size_t> cuts; { sim::Quiet q; out.clear(); cuts.reserve(n + 1); }
    switch (how) {
        case 0: { StringCore<To> r = convertString(conv, ref<From>(in)); sim::Quiet q; out = bytesOf(r); } break; // works with copy of the converter
        case 1: case 2: { AutoArrayStream<To> o; { ConvertWriteIter<C &, AutoArrayStream<To> &> w(conv, o);
                for (size_t i = 0; i < n;) { size_t c = how == 1 ? 1 : sim::param("piece", 1, 9); if (c > n - i) c = n - i; if (c == 1) w.write(src[i]); else { natural x = w.blockWrite(ConstStringT<From>(src + i, c), true); bool pad = conv.eolb; for (size_t z = i + x; z < n; z++) if (src[z] != (From)'=') pad = false; SIM_CHECK(x == c || pad, "contents", "converter took %d items of %d", (int)x, (int)c); if (x < c) break; } i += c; }
                if (sim::coin("flush")) w.flush(); } sim::Quiet q; out = bytesOf(o.getArray()); } break;
        case 3: case 4: { typedef typename ConstStringT<From>::Iterator It; ConvertReadIter<C &, It> r(conv, ref<From>(in).getFwIter());
                while (r.hasItems()) { size_t c = how == 3 ? 1 : sim::param("piece", 1, 9); To buf[9]; if (c == 1) { buf[0] = r.getNext(); } else { ArrayRef<To> a(buf, c); natural x = r.blockRead(FlatArrayRef<To, ArrayRef<To> >(a), false); SIM_CHECK(x > 0 && x <= c, "contents", "converter has items but %d were read", (int)x); c = x; } sim::Quiet q; out.append((const char *)buf, c); } } break;
        default: { size_t i = 0; while (i < n || conv.hasItems) { // directly by its rules
                    if (conv.hasItems && (i >= n || !conv.needItems || sim::coin("read"))) { bool pk = sim::coin("pk"); To x = pk ? conv.peek() : To(), y = conv.getNext(); SIM_CHECK(!pk || x == y, "contents", "peek shows %d, then %d is read", (int)(byte)x, (int)(byte)y); sim::Quiet q; out.push_back((char)y); }
                    else { SIM_CHECK(conv.needItems || conv.eolb, "contents", "converter has nothing and wants nothing"); if (i < n) conv.write(src[i++]); } }
                conv.flush(); while (conv.hasItems) { To y = conv.getNext(); sim::Quiet q; out.push_back((char)y); } } break;
    }
}
static Bytes refBits(const Bytes &in, int bits, const char *tab, int group, char pad) {
    Bytes r; unsigned long acc = 0; int have = 0; for (unsigned char c : in) { acc = (acc << 8 | c) & 0xffffff; have += 8; while (have >= bits) { r += tab[acc >> (have - bits) & ((1 << bits) - 1)]; have -= bits; } }
    if (have) r += tab[acc << (bits - have) & ((1 << bits) - 1)]; if (pad) while (r.size() % group) r += pad; return r; }
static Bytes refZ85(const Bytes &in) { static const char t[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ.-:+=^!/*?&<>()[]{}@%$#"; Bytes r;
    for (size_t i = 0; i < in.size(); i += 4) { unsigned v = 0; int k = 0; for (; k < 4; k++) v = v << 8 | (i + k < in.size() ? (unsigned char)in[i + k] : 0); char o[5]; for (int j = 4; j >= 0; j--) { o[j] = t[v % 85]; v /= 85; } r.append(o, std::min<size_t>(in.size() - i, 4) + 1); } return r; }
static Bytes refUrl(const Bytes &in) { Bytes r; for (unsigned char c : in) { if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '_' || c == '-') r += (char)c; else { char b[4]; snprintf(b, 4, "%%%02X", c); r += b; } } return r; }
static Bytes someData(int max, int kind) { Bytes r; int n = sim::param("len", 0, max); r.reserve(n); if (kind == 2 && r.size() < 4) { }
    while ((int)r.size() < n) { if (kind == 0) r += (char)sim::param("byte", 0, 255); else if (kind == 1) r += (char)('a' + sim::param("byte", 0, 1)); else { int run = sim::param("run", 1, 40); char c = (char)sim::param("byte", 0, 3); while (run-- && (int)r.size() < n) r += c; } } return r; }
template<class E, class D> static void coder(const char *nm, E enc, D dec, Bytes (*want)(const Bytes &), int max, int how0, int how1) {
    ThisThread t; t.failing = false; int streams = sim::param("streams", 1, 3);
    E *e = new E(enc); D *d = new D(dec); struct Fin { E *e; D *d; ~Fin() { delete e; delete d; } } fin = {e, d};
    for (int k = 0; k < streams; k++) {
        Bytes in, mid, out, w; { sim::Quiet q; in = someData(max, sim::param("kind", 0, 2)); if (want) w = want(in); }
        int eh = sim::param("enchow", 0, 5), dh = sim::param("dechow", 0, 5); if (eh < 5 || sim::coin("clr")) { e->eolb = false; e->needItems = true; } if (dh < 5 || sim::coin("clr")) { d->eolb = false; d->needItems = true; }
        if (want && sim::chance("alien", 1, 4)) { sim::Quiet q; mid = w; } // text made by someone else
        else { t.run(nm, [&] { oneStream(t, *e, in, mid, eh); }); SIM_CHECK(!t.threw, "exception", "%s: encoder refused data (way %d)", nm, eh); }
        if (want) { sim::Quiet q; SIM_CHECK(mid == w, "contents", "%s: stream %d of %d bytes is encoded (way %d) as '%s' instead of '%s'", nm, k, (int)in.size(), eh, mid.c_str(), w.c_str()); }
        t.run(nm, [&] { oneStream(t, *d, mid, out, dh); }); SIM_CHECK(!t.threw, "exception", "%s: decoder refused encoded data (way %d)", nm, dh);
        size_t diff = 0; while (diff < in.size() && diff < out.size() && in[diff] == out[diff]) diff++;
        SIM_CHECK(out == in, "contents", "%s: stream %d of %d bytes (way %d) is decoded (way %d) to %d bytes; differs from byte %d", nm, k, (int)in.size(), eh, dh, (int)out.size(), (int)diff);
    } sim::probe(nm);
}
static const char g_b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", g_b64u[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", g_b32[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
SCENARIO(conv_codec, "C31", 2) {
    { StringA a("x"); }
    Heap h; { sim::setStepLimit(4000000); int m = 0; (void)m;
    switch (sim::param("codec", 0, 9)) {
        case 0: coder("base16", ByteToBase16Convert(), Base16ToByteConvert(), [](const Bytes &b) { return refBits(b, 4, "0123456789ABCDEF", 1, 0); }, 40, 0, 0); break;
        case 1: coder("base16 small", ByteToBase16Convert(ByteToBase16Convert::hexLowerCase), Base16ToByteConvert(), [](const Bytes &b) { return refBits(b, 4, "0123456789abcdef", 1, 0); }, 40, 0, 0); break;
        case 2: coder("base32", ByteToBase32Convert(), Base32ToByteConvert(), [](const Bytes &b) { return refBits(b, 5, g_b32, 8, '='); }, 40, 0, 0); break;
        case 3: coder("base32 without padding", ByteToBase32Convert(ByteToBase32Convert::standardTable, 0), Base32ToByteConvert(), [](const Bytes &b) { return refBits(b, 5, g_b32, 8, 0); }, 40, 0, 0); break;
        case 4: coder("base64", ByteToBase64Convert(), Base64ToByteConvert(), [](const Bytes &b) { return refBits(b, 6, g_b64, 4, '='); }, 40, 0, 0); break;
        case 5: coder("base64 for url", ByteToBase64Convert(ByteToBase64Convert::forUrlTable, 0), Base64ToByteConvert(), [](const Bytes &b) { return refBits(b, 6, g_b64u, 4, 0); }, 40, 0, 0); break;
        case 6: coder("base85", ByteToBase85Convert(), Base85ToByteConvert(), refZ85, 40, 0, 0); break;
        case 7: coder("url", UrlEncodeConvert(), UrlDecodeConvert(), refUrl, 40, 0, 0); break;
        case 8: coder("lzw", LZWCompress(sim::param("bits", 9, 12)), LZWDecompress(), 0, 1500, 0, 0); break;
        case 9: coder("lzwp", LZWpCompress(sim::param("bits", 9, 12)), LZWpDecompress(), 0, 1500, 0, 0); break;
    } }
}

// ---- array expressions: whatever they are made of, they are the sequence they stand for
struct Collect { // collects items, may ask to stop
    std::string *got; int stop; Collect(std::string *g, int s) : got(g), stop(s) {}
    bool operator()(const char &c) const { sim::Quiet q; *got += c; return (int)got->size() == stop; }
};
static char nextChar(const char &c) { return (char)(c + 1); }
static size_t atPos(natural r) { return r == naturalNull ? std::string::npos : (size_t)r; }
template<class E, class O> static void sameExpr(const E &e, const O &items, const std::string &m, const std::string &mi, const char *what) {
    natural len = m.size(); SIM_CHECK(e.length() == len && e.empty() == m.empty(), "contents", "%s has %d items instead of %d", what, (int)e.length(), (int)len);
    for (natural i = 0; i < len; i++) SIM_CHECK(e.at(i) == m[i] && e[i] == m[i], "contents", "%s: item %d is '%c' instead of '%c'", what, (int)i, e.at(i), m[i]);
    std::string got; got.reserve(300); char ch = (char)('a' + sim::param("ech", 0, 3)); int p = sim::param("ep", 0, (int)len + 1), c = sim::param("ec", 0, (int)len + 1), stop = sim::param("stop", 0, (int)len + 1);
    auto is = [&](natural r, size_t w, const char *op) { SIM_CHECK(atPos(r) == w, "contents", "%s: %s returned %d instead of %d", what, op, (int)r, (int)w); };
    switch (sim::param("eop", 0, 11)) {
        case 0: { bool st = e.forEach(Collect(&got, stop)); bool w = stop > 0 && stop <= (int)len; SIM_CHECK(st == w && got == m.substr(0, w ? stop : len), "contents", "%s: enumeration of %d items stopped at %d gave '%s', result %d", what, (int)len, stop, got.c_str(), (int)st); } break;
        case 1: { if (p > (int)len) p = len; if (c > (int)len - p) c = len - p; bool st = e.forEach(Collect(&got, stop), p, c); bool w = stop > 0 && stop <= c; SIM_CHECK(st == w && got == m.substr(p, w ? stop : c), "contents", "%s: enumeration of items %d to %d stopped at %d gave '%s', result %d", what, p, p + c, stop, got.c_str(), (int)st); } break;
        case 2: is(e.find(ch), m.find(ch), "find"); is(e.find(ch, p), p >= (int)len ? std::string::npos : m.find(ch, p), "find from position"); break;
        case 3: is(e.findLast(ch), m.rfind(ch), "findLast"); is(e.findLast(ch, p), p ? m.substr(0, p).rfind(ch) : std::string::npos, "findLast up to position"); break;
        case 4: is(e.findOneOf(items), m.find_first_of(mi), "findOneOf"); is(e.findOneOf(items, p), m.find_first_of(mi, p), "findOneOf from position"); break;
        case 5: is(e.findLastOneOf(items), m.find_last_of(mi), "findLastOneOf"); is(e.findLastOneOf(items, p), m.substr(0, p).find_last_of(mi), "findLastOneOf up to position"); break;
        case 6: if (mi.empty()) break; is(e.find(items), m.find(mi), "find of text"); is(e.find(items, p), p >= (int)len ? std::string::npos : m.find(mi, p), "find of text from position"); break;
        case 7: { Direction::Type d = sim::coin("dir") ? Direction::forward : Direction::backward; typename E::Iterator it = d == Direction::forward ? e.getFwIter() : e.getBkIter(); int pos = d == Direction::forward ? 0 : (int)len - 1;
                for (int k = 0, n = sim::param("steps", 1, 12); k < n; k++) { // pos is -1..len
                    SIM_CHECK(it.hasItems() == (pos >= 0 && pos < (int)len), "contents", "%s: iterator at %d of %d says that it %s items", what, pos, (int)len, it.hasItems() ? "has" : "doesn't have");
                    if (pos >= 0 || d == Direction::backward) SIM_CHECK((int)it.getRemain() == (d == Direction::forward ? (int)len - pos : pos + 1), "contents", "%s: iterator at %d of %d says %d items remain", what, pos, (int)len, (int)it.getRemain());
                    if (it.hasItems() && !sim::chance("seek", 1, 4)) { bool pk = sim::coin("pk"); char x = pk ? it.peek() : 0, y = it.getNext(); SIM_CHECK(y == m[pos] && (!pk || x == y), "contents", "%s: iterator gave '%c' instead of '%c'", what, y, m[pos]); pos += d == Direction::forward ? 1 : -1; }
                    else { int by = sim::param("by", 0, (int)len + 2), room, did; switch (sim::param("where", 0, 2)) {
                            case 0: room = (int)len - pos; SIM_CHECK(it.canSeek(Direction::forward) == (room > 0), "contents", "%s: canSeek forward at %d of %d is wrong", what, pos, (int)len); did = it.seek(by, Direction::forward); SIM_CHECK(did == std::min(by, room), "contents", "%s: seek by %d from %d of %d moved by %d", what, by, pos, (int)len, did); pos += did; break;
                            case 1: room = pos + 1; SIM_CHECK(it.canSeek(Direction::backward) == (room > 0), "contents", "%s: canSeek backward at %d of %d is wrong", what, pos, (int)len); did = it.seek(by, Direction::backward); SIM_CHECK(did == std::min(by, room), "contents", "%s: seek back by %d from %d of %d moved by %d", what, by, pos, (int)len, did); pos -= did; break;
                            default: did = it.seek(by, Direction::absolute); SIM_CHECK(did == std::min(by, (int)len), "contents", "%s: seek to %d of %d went to %d", what, by, (int)len, did); pos = did; break; } SIM_CHECK((int)it.tell() == pos, "contents", "%s: iterator is at %d instead of %d", what, (int)it.tell(), pos); } } } break;
        case 8: { AutoArrayStream<char> o; natural n = e.render(o); SIM_CHECK(n == len && o.getArray().length() == len && !memcmp(o.getArray().data(), m.data(), len), "contents", "%s: %d items written to a stream instead of %d, or other ones", what, (int)n, (int)len); } break;
        case 9: { char buf[8]; memset(buf, '?', 8); int room = sim::param("room", 0, 7); ArrayRef<char> a(buf, room); natural n = e.render(ArrayTRef<char, ArrayRef<char> &>(a)); int w = std::min(room, (int)len); SIM_CHECK((int)n == w && !memcmp(buf, m.data(), w) && buf[w] == '?', "contents", "%s: %d items of %d written to an array of %d, or other ones", what, (int)n, (int)len, room); } break;
        case 10: { int cr = m.compare(mi); SIM_CHECK((e == items) == (cr == 0) && (e != items) == (cr != 0) && (e < items) == (cr < 0) && (e > items) == (cr > 0) && (e <= items) == (cr <= 0) && (e >= items) == (cr >= 0), "contents", "comparison of %s '%s' with '%s' is wrong", what, m.c_str(), mi.c_str());
                CompareResult r1 = e.compare(items), r2 = items.compare(e); SIM_CHECK(r1 == (cr == 0 ? cmpResultEqual : cr < 0 ? cmpResultLess : cmpResultGreater) && r2 == (cr == 0 ? cmpResultEqual : cr > 0 ? cmpResultLess : cmpResultGreater), "contents", "compare of %s '%s' with '%s' returned %d and %d", what, m.c_str(), mi.c_str(), (int)r1, (int)r2); } break;
        default: { int cnt = 0; size_t pos = 0; typename E::SplitIterator it = e.split(ch); while (it.hasItems()) { size_t x = m.find(ch, pos); if (x == std::string::npos) x = len; got.clear(); it.getNext().forEach(Collect(&got, 0)); SIM_CHECK(got == m.substr(pos, x - pos), "contents", "%s: part %d after split is '%s'", what, cnt, got.c_str()); pos = x + 1; cnt++;
                    if (it.hasItems() && sim::chance("rest", 1, 4)) { got.clear(); it.getRest().forEach(Collect(&got, 0)); SIM_CHECK(got == m.substr(pos), "contents", "%s: rest after split is '%s'", what, got.c_str()); } } SIM_CHECK(pos == len + 1, "contents", "%s: split finished at %d of %d", what, (int)pos - 1, (int)len); } break;
    }
    if (sim::chance("trim", 1, 4)) {
        Direction::Type d = sim::coin("both") ? Direction::undefined : sim::coin("lr") ? Direction::left : Direction::right; bool set = sim::coin("set"); size_t b = 0, x = len; auto in = [&](char z) { return set ? mi.find(z) != std::string::npos : z == ch; };
        if (d != Direction::right) while (b < x && in(m[b])) b++; if (d != Direction::left) while (x > b && in(m[x - 1])) x--;
        got.clear(); if (set) e.trim(items, d).forEach(Collect(&got, 0)); else e.trim(ch, d).forEach(Collect(&got, 0)); SIM_CHECK(got == m.substr(b, x - b), "contents", "%s '%s' is trimmed to '%s'", what, m.c_str(), got.c_str());
    }
}
SCENARIO(form_arrays, "C30", 2) {
    sim::setStepLimit(4000000); { AutoArray<char> a; a.add('x'); StringA b("x"); }
    typedef AutoArray<char> A; std::string ma, mb, mi; ma.reserve(64); mb.reserve(64); mi.reserve(64);
    A ca, cb, ci; for (int k = 0, n = sim::param("n", 1, 12); k < n; k++) {
        { sim::Quiet q; ma = txt(8); mb = txt(6); mi = sim::chance("pre", 1, 3) ? ma.substr(0, sim::param("cut", 0, (int)ma.size())) : txt(3); if (sim::chance("more", 1, 6)) mi = ma + 'a'; }
        ca.clear(); cb.clear(); ci.clear(); for (char c : ma) ca.add(c); for (char c : mb) cb.add(c); for (char c : mi) ci.add(c);
        const A &a = ca, &b = cb, &i = ci; int p = sim::param("p", 0, 9), c = sim::param("c", 0, 9); std::string s = ma + mb, r(ma.rbegin(), ma.rend()), rs(s.rbegin(), s.rend()), t = ma; for (char &x : t) x++;
        switch (sim::param("expr", 0, 15)) {
            case 0: sameExpr(a, i, ma, mi, "array"); break;
            case 1: sameExpr(a + b, i, s, mi, "sum"); break;
            case 2: sameExpr(a.mid(p, c), i, cut(ma, p, c), mi, "part"); break;
            case 3: sameExpr(a.reverse(), i, r, mi, "reverse"); break;
            case 4: { int cnt = sim::param("rep", 0, 3); std::string x; for (int z = 0; z < cnt; z++) x += ma; sameExpr(ca.repeat(cnt), i, x, mi, "repetition"); } break;
            case 5: sameExpr(a.transform(&nextChar), i, t, mi, "transformed array"); break;
            case 6: sameExpr((a + b).mid(p, c), i, cut(s, p, c), mi, "part of sum"); break;
            case 7: sameExpr((a + b).reverse(), i, rs, mi, "reverse of sum"); break;
            case 8: sameExpr(a.reverse().mid(p, c), i, cut(r, p, c), mi, "part of reverse"); break;
            case 9: sameExpr(a.mid(p, c).reverse(), i, [&] { std::string x = cut(ma, p, c); return std::string(x.rbegin(), x.rend()); }(), mi, "reverse of part"); break;
            case 10: sameExpr(a + (b + i), i, s + mi, mi, "sum of sum"); break;
            case 11: { int d = sim::param("d", 0, 5), f = sim::param("f", 0, 5); sameExpr(a.mid(p, c).mid(d, f), i, cut(cut(ma, p, c), d, f), mi, "part of part"); } break;
            case 12: sameExpr((a + b).transform(&nextChar), i, [&] { std::string x = s; for (char &z : x) z++; return x; }(), mi, "transformed sum"); break;
            case 13: sameExpr(a.ref(), i, ma, mi, "reference"); break;
            case 14: sameExpr(a.crop(p, c), i, p + c >= (int)ma.size() ? std::string() : ma.substr(p, ma.size() - p - c), mi, "cropped array"); break;
            case 15: { natural x = ma.size() > (size_t)c ? ma.size() - c : 0; if (sim::coin("ht")) sameExpr(a.tail(c), i, ma.substr(x), mi, "tail"); else sameExpr(ca.roffset(c), i, ma.substr(0, x), mi, "array without tail"); } break;
        }
        if (ma.size()) { // writing through expressions
            std::string x = s; A wa(ca), wb(cb); int at = sim::param("at", 0, (int)s.size() - 1); switch (sim::param("wr", 0, 3)) {
                case 0: wa.concat(wb)(at) = 'Z'; x[at] = 'Z'; break;
                case 1: wa.concat(wb).set(at, 'Z'); x[at] = 'Z'; break;
                case 2: at %= ma.size(); wa.reverse()(at) = 'Z'; x[ma.size() - 1 - at] = 'Z'; break;
                default: at %= ma.size(); wa.mid(at, 5)(0) = 'Z'; x[at] = 'Z'; break; }
            SIM_CHECK(wa.length() + wb.length() == x.size() && !memcmp(wa.data(), x.data(), ma.size()) && (mb.empty() || !memcmp(wb.data(), x.data() + ma.size(), mb.size())), "contents", "item %d written through an expression went elsewhere", at);
        }
    } sim::probe("arrays");
}
