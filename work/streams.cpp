// buffered streams over scripted sources and pipes, memory files, text and binary encodings
#include "common.h"
#include "io.h"
#include <string>
#include <exception>
#include <vector>
#include "lightspeed/base/streams/fileio.h"
#include "lightspeed/base/streams/fileiobuff.tcc"
#include "lightspeed/base/streams/memfile.tcc"
#include "lightspeed/base/streams/standardIO.tcc"
#include "lightspeed/base/text/textstream.h"
#include "lightspeed/base/text/textOut.tcc"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/exceptions/fileExceptions.h"
#include "lightspeed/base/exceptions/stdexception.h"
#include "lightspeed/base/exceptions/iterator.h"
#include "lightspeed/base/exceptions/systemException.h"

template<class Fn> static bool throws(Fn f) { try { f(); return false; } catch (const Exception &) { return true; } }
static std::string pattern(int n, unsigned salt) { sim::Quiet q; std::string s; for (int i = 0; i < n; i++) s += (char)('A' + (i * 7 + salt * 13 + (i >> 4)) % 57); return s; }

// A stream of the other side: short reads and writes, failing calls, random readiness
struct Script : public IInOutStream {
    std::string src, out; size_t pos; const std::string *accepted; bool mustFlush, closed; int closes, flushes, failures; size_t closeAt;
    std::function<void()> onRead;
    Script() : pos(0), accepted(0), mustFlush(true), closed(false), closes(0), flushes(0), failures(0), closeAt(~(size_t)0) {}
    bool broken() { if (sim::fault("stream_fail")) { failures++; return true; } return false; }
    natural some(natural n) { return n <= 1 ? n : sim::fault("stream_short") ? (natural)sim::faultValue("stream_short", 1, (int)n) : n; }
    natural read(void *b, natural n) override {
        SIM_CHECK(n > 0, "zero-read", "the source is asked for 0 bytes");
        if (onRead) onRead();
        if (broken()) throw ErrNoException(THISLOCATION, EIO);
        natural k = some(std::min((size_t)n, src.size() - pos)); sim::Quiet q; memcpy(b, src.data() + pos, k); pos += k; return k;
    }
    natural peek(void *b, natural n) const override { sim::Quiet q; natural k = std::min((size_t)n, src.size() - pos); memcpy(b, src.data() + pos, k); return k; }
    bool canRead() const override { return pos < src.size(); }
    natural dataReady() const override { return sim::coin("ready") ? 1 : 0; }
    natural write(const void *b, natural n) override {
        SIM_CHECK(n > 0, "zero-write", "the target is given 0 bytes");
        SIM_CHECK(!closed, "write-after-close", "%d bytes written to the closed target", (int)n);
        if (broken()) throw ErrNoException(THISLOCATION, EIO);
        if (out.size() >= closeAt) return 0;
        natural k = some(n); sim::Quiet q; if (out.size() + k > closeAt) k = closeAt - out.size();
        out.append((const char *)b, k); return k;
    }
    bool canWrite() const override { return !closed; }
    void flush() override { flushes++; }
    void closeOutput() override { SIM_CHECK(!closed, "double-close", "output of the target closed twice"); closed = true; closes++; }
};

template<natural N> static void bufferModel() {
    sim::enableFaults("stream_fail,stream_short");
    RefCntPtr<Script> t = new Script; RefCntPtr<Script> af = new Script;
    t->src = pattern(sim::param("src", 0, 6 * N + 5), 5);
    if (sim::chance("eof_out", 1, 12)) t->closeAt = sim::param("closeAt", 0, 3 * N);
    std::string in = t->src, accepted, lastFlushed; size_t afGiven = 0; bool lost = false, outClosed = false;
    size_t fetched = 0; (void)fetched;
    {
        IOBuffer<N> b((IInOutStream *)t.get());
        IOBuffer<N> other((IOutputStream *)af.get()); bool useAf = sim::coin("autoflush");
        if (useAf) b.setAutoflush(&other);
        std::string afData;
        t->onRead = [&] {
            if (!outClosed && t->closeAt == ~(size_t)0) SIM_CHECK(t->out == accepted, "not-flushed", "the source is read while %d accepted bytes wait in the buffer", (int)(accepted.size() - t->out.size()));
            if (useAf) SIM_CHECK(af->out == afData, "not-flushed", "the source is read while the connected output holds %d bytes back", (int)(afData.size() - af->out.size()));
        };
        if (sim::chance("reserve", 1, 3)) b.reserveWrite(sim::param("rsv", 0, N));
        char buf[10 * N + 20]; int n = sim::param("ops", 1, 24); natural lastRead = 0; bool justRead = false; bool eofSeen = false;
        for (int i = 0; i < n; i++) {
            bool wasRead = justRead; natural lr = lastRead; justRead = false;
            int op = sim::param("op", 0, 15), len = sim::param("len", 1, 2 * N + 1);
            natural k = 0;
            switch (op) {
                case 0: case 1: {
                    if (throws([&] { k = b.read(buf, len); })) break;
                    SIM_CHECK(k <= (natural)len && k <= in.size() && (k > 0 || in.empty()), "bad-count", "op %d: read(%d) returned %d with %d bytes to come", i, len, (int)k, (int)in.size());
                    sim::Quiet q; SIM_CHECK(!memcmp(buf, in.data(), k), "content", "op %d: read delivered '%.*s' instead of '%.*s'", i, (int)k, buf, (int)k, in.c_str());
                    in.erase(0, k); justRead = k > 0; lastRead = k; if (!k) eofSeen = true; } break;
                case 2: {
                    if (throws([&] { k = b.peek(buf, len); })) break;
                    SIM_CHECK(k <= (natural)len && k <= in.size() && (k > 0 || in.empty()), "bad-count", "op %d: peek(%d) returned %d with %d bytes to come", i, len, (int)k, (int)in.size());
                    sim::Quiet q; SIM_CHECK(!memcmp(buf, in.data(), k), "content", "op %d: peek saw '%.*s' instead of '%.*s'", i, (int)k, buf, (int)k, in.c_str()); } break;
                case 3: { bool r = false; if (throws([&] { r = b.canRead(); })) break; SIM_CHECK(r == !in.empty(), "can-read", "op %d: canRead() = %d with %d bytes to come", i, r, (int)in.size()); } break;
                case 4: { natural l0 = b.getInputLength(); if (throws([&] { k = b.fetch(); })) break; natural l1 = b.getInputLength();
                    SIM_CHECK(l1 == l0 + k, "bad-count", "op %d: fetch returned %d, the buffer grew by %d", i, (int)k, (int)(l1 - l0));
                    SIM_CHECK(k > 0 || l0 == N || t->pos == t->src.size(), "fetch", "op %d: fetch returned 0 although the buffer has room and data are available", i); } break;
                case 5: { sim::Quiet q; ConstBin v = b.getInputBuffer(); std::string s((const char *)v.data(), v.length());
                    SIM_CHECK(in.compare(0, s.size(), s) == 0, "content", "op %d: buffered input '%s' is not the beginning of '%s'", i, s.c_str(), in.c_str()); } break;
                case 6: { sim::Quiet q; natural L = b.getInputLength(); std::string s = in.substr(0, L); int sl = sim::param("seq", 1, 3); int at = sim::param("at", 0, (int)L); std::string pat = s.substr(std::min((size_t)at, s.size()), sl);
                    if (pat.empty()) pat = "~"; natural fc = naturalNull; natural off = 0;
                    if (sim::coin("part")) { fc = sim::param("fc", 0, (int)L); natural a = fc + pat.size() - 1; if (a > L) a = L; off = L - a; }
                    natural p = b.lookup(ConstBin((const byte *)pat.data(), pat.size()), fc); size_t w = s.find(pat, off);
                    SIM_CHECK(w == std::string::npos ? p == naturalNull : p == w, "lookup", "op %d: lookup('%s') in '%s' from %d returned %d, it is at %d", i, pat.c_str(), s.c_str(), (int)off, (int)p, (int)w); } break;
                case 7: { int pl = wasRead && sim::coin("pb1") ? 1 : sim::param("pb", 1, 4); std::string p = pattern(pl, i + 30); natural room = N - b.getInputLength();
                    size_t before = accepted.size(); (void)before; int f0 = t->failures;
                    if (throws([&] { b.putBack(ConstBin((const byte *)p.data(), p.size())); })) {
                        SIM_CHECK(!(wasRead && (natural)pl <= lr && lr <= N && (natural)pl <= room && t->failures == f0 && !eofSeen && pl == 1), "putback", "op %d: one byte cannot be put back right after %d were read", i, (int)lr); break; }
                    sim::Quiet q; in = p + in; } break;
                case 8: { natural L = b.getInputLength(); b.discardInput(len); sim::Quiet q; in.erase(0, std::min<natural>(L, len)); } break;
                case 9: { k = b.dataReady(); natural L = b.getInputLength(); SIM_CHECK(L == 0 || k == L, "data-ready", "op %d: dataReady() = %d with %d bytes buffered", i, (int)k, (int)L); } break;
                case 10: case 11: case 12: {
                    std::string d = pattern(len, i + 50); natural sp = b.getWriteSpace(); (void)sp;
                    if (throws([&] { k = b.write(d.data(), len); })) break;
                    SIM_CHECK(k <= (natural)len && (k > 0 || outClosed || t->closeAt != ~(size_t)0), "bad-count", "op %d: write(%d) returned %d", i, len, (int)k);
                    SIM_CHECK(!outClosed || k == 0, "write-after-close", "op %d: %d bytes accepted after the output was closed", i, (int)k);
                    sim::Quiet q; accepted.append(d, 0, k); } break;
                case 13: { bool th = throws([&] { b.flush(); }); if (!th && !outClosed && t->closeAt == ~(size_t)0) SIM_CHECK(t->out == accepted, "not-flushed", "op %d: %d bytes remain after flush", i, (int)(accepted.size() - t->out.size())); } break;
                case 14: { natural L = b.getOutputLength(); natural c = sim::param("dis", 1, 5); b.discardOutput(c); sim::Quiet q; accepted.resize(accepted.size() - std::min(L, c)); } break;
                case 15: if (sim::chance("close", 1, 4) && !outClosed) { bool th = throws([&] { b.closeOutput(); }); outClosed = true; if (th) lost = true;
                        SIM_CHECK(t->closed, "not-closed", "closeOutput left the target open"); SIM_CHECK(!b.canWrite(), "can-write", "closed buffer reports it can be written");
                        if (!th && t->closeAt == ~(size_t)0) SIM_CHECK(t->out == accepted, "not-flushed", "closeOutput dropped %d accepted bytes", (int)(accepted.size() - t->out.size()));
                        t->closed = true; }
                    else if (useAf) { std::string d = pattern(len, i + 70); natural g = 0; if (!throws([&] { g = other.write(d.data(), len); })) { sim::Quiet q; afData.append(d, 0, g); } } break;
            }
            sim::Quiet q;
            SIM_CHECK(t->out.size() <= accepted.size() || lost, "output", "op %d (%d): target received %d bytes, only %d were accepted", i, op, (int)t->out.size(), (int)accepted.size());
            SIM_CHECK(accepted.compare(0, t->out.size(), t->out) == 0, "output", "op %d (%d): target received '%s', accepted was '%s'", i, op, t->out.c_str(), accepted.c_str());
            natural held = b.getOutputLength();
            if (t->closeAt == ~(size_t)0 && !lost) SIM_CHECK(t->out.size() + held == accepted.size(), "output", "op %d (%d): %d written + %d held != %d accepted", i, op, (int)t->out.size(), (int)held, (int)accepted.size());
            SIM_CHECK(b.getInputLength() <= N && held <= N, "capacity", "more bytes than the capacity");
        }
        t->onRead = nullptr; b.setAutoflush(0);
        if (!sim::coin("faulty_end")) sim::faultsEnable(false);
        int f0 = t->failures; bool ff = sim::faultsEnabled(); (void)f0; (void)ff;
        fetched = t->failures;
        sim::Quiet q; afGiven = afData.size(); lastFlushed = afData;
    }
    sim::Quiet q;
    SIM_CHECK(accepted.compare(0, t->out.size(), t->out) == 0, "output", "destroyed buffer: target received '%s', accepted was '%s'", t->out.c_str(), accepted.c_str());
    if (t->failures == (int)fetched && !lost && t->closeAt == ~(size_t)0) SIM_CHECK(t->out == accepted, "output", "destroyed buffer dropped %d accepted bytes", (int)(accepted.size() - t->out.size()));
}
SCENARIO(buffer_8, "C18", 2) { bufferModel<8>(); }
SCENARIO(buffer_16, "C18", 2) { bufferModel<16>(); }
SCENARIO(buffer_5, "C18", 2) { bufferModel<5>(); }

// two threads talk through buffered pipes; nobody flushes explicitly, reading must
SCENARIO(duplex_talk, "C18", 2) {
    sim::enableFaults("io_eintr,io_short");
    PInputStream r1, r2; POutputStream w1, w2;
    IFileIOServices::getIOServices().createPipe(r1, w1); IFileIOServices::getIOServices().createPipe(r2, w2);
    int rounds = sim::param("rounds", 1, 6);
    std::vector<int> ask, ans; { sim::Quiet q; for (int i = 0; i < rounds; i++) { ask.push_back(sim::param("ask", 1, 70)); ans.push_back(sim::param("ans", 1, 70)); } }
    {
        Crew crew;
        crew.go([&] {
            IOBuffer<16> in((IInputStream *)r1.get()), out((IOutputStream *)w2.get()); in.setAutoflush(&out); char b[100];
            for (int i = 0; i < rounds; i++) { std::string a = pattern(ask[i], i), c = pattern(ans[i], i + 9);
                SIM_CHECK(in.readAll(b, a.size()) == a.size() && !memcmp(b, a.data(), a.size()), "content", "request %d damaged", i);
                size_t p = 0; while (p < c.size()) { natural k = out.write(c.data() + p, sim::param("piece", 1, (int)(c.size() - p))); SIM_CHECK(k, "bad-count", "write returned 0"); p += k; } }
            out.closeOutput();
            SIM_CHECK(in.read(b, 10) == 0, "eof", "data after the last request");
        });
        crew.go([&] {
            IOBuffer<16> in((IInputStream *)r2.get()), out((IOutputStream *)w1.get()); in.setAutoflush(&out); char b[100];
            for (int i = 0; i < rounds; i++) { std::string a = pattern(ask[i], i), c = pattern(ans[i], i + 9);
                SIM_CHECK(out.writeAll(a.data(), a.size()) == a.size(), "bad-count", "short writeAll");
                SIM_CHECK(in.readAll(b, c.size()) == c.size() && !memcmp(b, c.data(), c.size()), "content", "answer %d damaged", i); }
            out.closeOutput();
            SIM_CHECK(in.read(b, 10) == 0, "eof", "data after the last answer");
        });
    }
}

SCENARIO(mem_file, "C18", 1) {
    RefCntPtr<MemFile<> > pf = new MemFile<>; MemFile<> &f = *pf; std::string m; size_t pos = 0; bool app = false, ro = false; char b[200];
    SIM_CHECK(!f.isAppendMode(), "append-mode", "new memory file is in append mode");
    int n = sim::param("n", 1, 20);
    for (int i = 0; i < n; i++) {
        int len = sim::param("len", 1, 40), off = sim::param("off", 0, 90); natural k = 0;
        switch (sim::param("op", 0, 9)) {
            case 0: case 1: { std::string d = pattern(len, i); k = f.write(d.data(), len); sim::Quiet q; SIM_CHECK(ro ? k == 0 : k >= 1 && k <= (natural)len, "bad-count", "write(%d) = %d", len, (int)k);
                size_t at = app ? m.size() : pos; if (k) { if (m.size() < at + k) m.resize(at + k, '\0'); m.replace(at, k, d, 0, k); if (!app) pos += k; } } break;
            case 2: case 3: { k = f.read(b, len); size_t left = pos < m.size() ? m.size() - pos : 0; SIM_CHECK(k == std::min<size_t>(len, left), "bad-count", "read(%d) at %d of %d = %d", len, (int)pos, (int)m.size(), (int)k); SIM_CHECK(!memcmp(b, m.data() + std::min(pos, m.size()), k), "content", "other bytes read"); pos += k; } break;
            case 4: { k = f.peek(b, len); size_t left = pos < m.size() ? m.size() - pos : 0; SIM_CHECK(k == std::min<size_t>(len, left) && !memcmp(b, m.data() + std::min(pos, m.size()), k), "content", "peek"); SIM_CHECK(f.canRead() == (left > 0), "can-read", "canRead"); } break;
            case 5: { std::string d = pattern(len, i); k = f.write(d.data(), len, (IRndFileHandle::FileOffset)off); sim::Quiet q; SIM_CHECK(k == (natural)len, "bad-count", "write at"); if (m.size() < (size_t)off + k) m.resize(off + k, '\0'); m.replace(off, k, d); } break;
            case 6: { k = f.read(b, len, (IRndFileHandle::FileOffset)off); size_t left = (size_t)off < m.size() ? m.size() - off : 0; SIM_CHECK(k == std::min<size_t>(len, left) && !memcmp(b, m.data() + std::min<size_t>(off, m.size()), k), "content", "read at"); } break;
            case 7: { f.setSize(off); sim::Quiet q; m.resize(off, '\0'); SIM_CHECK(f.size() == (natural)off, "size", "size"); } break;
            case 8: app = sim::coin("app"); f.setAppendMode(app); if (sim::chance("ro", 1, 6)) { f.closeOutput(); ro = true; SIM_CHECK(!f.canWrite(), "can-write", "closed"); } break;
            case 9: f.setPos(off); pos = off; break;
        }
        sim::Quiet q;
        SIM_CHECK(f.size() == m.size() && (m.empty() || !memcmp(f.getBuffer().data(), m.data(), m.size())), "content", "op %d: memory file differs from the model", i);
    }
}

// a text in memory read as a file
SCENARIO(mem_text, "C18", 0.5) {
    std::string m = pattern(sim::param("size", 0, 80), 3); size_t pos = 0; char b[200];
    RefCntPtr<MemFileStr> pf = new MemFileStr(ConstStrA(m.data(), m.size())); MemFileStr &f = *pf;
    SIM_CHECK(f.empty() == m.empty() && f.size() == m.size() && !f.canWrite(), "size", "text of %d bytes is a file of %d bytes", (int)m.size(), (int)f.size());
    int n = sim::param("n", 1, 12);
    for (int i = 0; i < n; i++) {
        int len = sim::param("len", 1, 40), off = sim::param("off", 0, 100); natural k = 0; size_t left = pos < m.size() ? m.size() - pos : 0;
        switch (sim::param("op", 0, 4)) {
            case 0: case 1: k = f.read(b, len); SIM_CHECK(k == std::min<size_t>(len, left) && !memcmp(b, m.data() + std::min(pos, m.size()), k), "content", "read(%d) at %d of %d = %d", len, (int)pos, (int)m.size(), (int)k); pos += k; break;
            case 2: k = f.peek(b, len); SIM_CHECK(k == std::min<size_t>(len, left) && !memcmp(b, m.data() + std::min(pos, m.size()), k), "content", "peek(%d) at %d of %d = %d", len, (int)pos, (int)m.size(), (int)k); SIM_CHECK(f.canRead() == (left > 0), "can-read", "canRead"); break;
            case 3: { k = f.read(b, len, (IRndFileHandle::FileOffset)off); size_t l = (size_t)off < m.size() ? m.size() - off : 0; SIM_CHECK(k == std::min<size_t>(len, l) && !memcmp(b, m.data() + std::min<size_t>(off, m.size()), k), "content", "read(%d) at offset %d of %d = %d", len, off, (int)m.size(), (int)k); } break;
            case 4: f.setPos(off); pos = off; break;
        }
    }
    if (sim::coin("seq")) { SeqFileInput in = f.getReadStream(); pos = std::min(pos, m.size()); f.setPos(pos); std::string r; while (in.hasItems()) { char c = (char)in.getNext(); sim::Quiet q; r += c; } sim::Quiet q; SIM_CHECK(r == m.substr(pos), "content", "stream gave %d bytes of %d", (int)r.size(), (int)(m.size() - pos)); }
}

// formatted text: what is printed reaches the target in order, a failing target is reported to the caller
SCENARIO(text_print, "C18", 1) {
    sim::enableFaults("stream_fail,stream_short");
    RefCntPtr<Script> t = new Script; std::string want; int n = sim::param("n", 1, 8); bool failed = false; 
    if (sim::coin("eof_out")) t->closeAt = sim::param("closeAt", 0, 60);
    {
        SeqFileOutput f(t.get()); PrintTextA print(f);
        for (int i = 0; i < n && !failed; i++) {
            size_t before = want.size(); std::string s = pattern(sim::param("len", 0, 20), i);
            { sim::Quiet q; want += "<" + std::to_string(i) + ":" + s + ">\n"; }
            try { print("<%1:%2>\n") << i << ConstStrA(s.data(), s.size()); SIM_CHECK(t->out.size() == want.size(), "text-lost", "%d bytes printed, %d reached the target", (int)want.size(), (int)t->out.size()); }
            catch (const std::exception &) { failed = true; SIM_CHECK(t->failures || t->closeAt < want.size(), "text-failed", "printing failed without a reason"); }
            (void)before;
        }
        sim::Quiet q;
        SIM_CHECK(want.compare(0, t->out.size(), t->out) == 0, "text-changed", "target got %s instead of %s", t->out.c_str(), want.c_str());
        if (t->failures) SIM_CHECK(failed, "text-failed", "failure of the target was not reported");
    }
}
