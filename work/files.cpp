// files: streams, random access, commit on close, pipes, locks, directories, temporary files
#include "common.h"
#include "io.h"
#include <string>
#include <exception>
#include <map>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
#include "lightspeed/base/streams/fileio.h"
#include "lightspeed/base/streams/fileiobuff.tcc"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/exceptions/fileExceptions.h"
#include "lightspeed/base/exceptions/stdexception.h"
#include "lightspeed/base/exceptions/iterator.h"
#include "lightspeed/base/exceptions/systemException.h"

static IFileIOServices &svc() { return IFileIOServices::getIOServices(); }
static String W(const char *s) { return String(ConstStrA(s)); }
static String W(const std::string &s) { return String(ConstStrA(s.data(), s.length())); }
static std::string bytes(int n, unsigned salt) { sim::Quiet q; std::string s; for (int i = 0; i < n; i++) s += (char)('A' + (i * 7 + salt * 13 + (i >> 4)) % 57); return s; }
static std::string got(const char *p) { sim::Quiet q; std::string s; if (!sim::fsGet(p, s)) return "<none>"; return s; }
static POutputStream openW(const char *n, OpenFlags::Type f) { PInOutStream x = svc().openSeqFile(W(n), IFileIOServices::fileOpenWrite, f); return POutputStream(x.get()); }
static PInputStream openR(const char *n) { PInOutStream x = svc().openSeqFile(W(n), IFileIOServices::fileOpenRead, 0); return PInputStream(x.get()); }
static const char *IOF = "io_eintr,io_short,io_eio,io_enospc,close_eio,sync_eintr,sync_eio,open_fail";
struct Fds { int n; Fds() : n(sim::openFds()) {} void check(const char *w) { int m = sim::openFds(); SIM_CHECK(m == n, "fd-leak", "%s: %d descriptors left open:%s", w, m - n, sim::openFdNames().c_str()); } };
// runs f; true when it threw a library exception
template<class Fn> static bool throws(Fn f) { try { f(); return false; } catch (const Exception &) { return true; } }

// ------------------------------------------------------------------ C15 streams
SCENARIO(seq_write, "C15", 2) {
    sim::enableFaults(IOF);
    Fds fds;
    bool pre = sim::coin("pre"), app = sim::coin("append"), trunc = !app && sim::coin("trunc");
    std::string model;
    { sim::Quiet q; if (pre) { sim::fsPut("/w/f", "0123456789"); model = trunc ? "" : app ? "0123456789" : ""; } }
    std::string tail = pre && !app && !trunc ? "0123456789" : "";
    if (sim::chance("cap", 1, 3)) sim::fsCapacity(40 + sim::param("capn", 0, 200));
    bool failed = false;
    {
        POutputStream f;
        if (throws([&] { f = openW("/w/f", OpenFlags::create | (app ? OpenFlags::append : 0) | (trunc ? OpenFlags::truncate : 0) | (sim::coin("wt") ? OpenFlags::writeThrough : 0)); })) { fds.check("open failed"); return; }
        SIM_CHECK(f->canWrite(), "can-write", "file opened for writing reports it cannot be written");
        IInputStream *in = dynamic_cast<IInputStream *>(f.get());
        SIM_CHECK(!in || !in->canRead(), "can-read", "file opened for writing only reports it can be read");
        int n = sim::param("n", 1, 8);
        for (int i = 0; i < n && !failed; i++) {
            std::string d = bytes(sim::param("len", 1, 90), i);
            switch (sim::param("op", 0, 3)) {
                case 0: { natural k = 0; if (throws([&] { k = f->writeAll(d.data(), d.size()); })) { failed = true; std::string g = got("/w/f"); sim::Quiet q;
                            size_t w = 0; while (w < d.size() && g.compare(0, model.size() + w + 1, model + d.substr(0, w + 1)) == 0) w++;
                            model += d.substr(0, w); break; }
                          SIM_CHECK(k == d.size(), "short-writeall", "writeAll wrote %d of %d bytes without an error", (int)k, (int)d.size()); sim::Quiet q; model += d; } break;
                case 1: { natural k = 0; if (throws([&] { k = f->write(d.data(), d.size()); })) { failed = true; break; }
                          SIM_CHECK(k >= 1 && k <= d.size(), "bad-count", "write of %d bytes returned %d", (int)d.size(), (int)k); sim::Quiet q; model += d.substr(0, k); } break;
                case 2: throws([&] { f->flush(); }); break;
                case 3: { SeqFileOutput o(f); int m = sim::param("m", 1, 5); for (int k = 0; k < m && !failed; k++) { if (throws([&] { o.write((byte)('a' + k)); })) failed = true; else { sim::Quiet q; model += (char)('a' + k); } } } break;
            }
            std::string g = got("/w/f"); sim::Quiet q;
            std::string want = model + (tail.size() > model.size() ? tail.substr(model.size()) : "");
            SIM_CHECK(g == want, "content", "after write %d the file holds %d bytes '%.80s', expected %d '%.80s'%s", i, (int)g.size(), g.c_str(), (int)want.size(), want.c_str(), failed ? " (a call failed)" : "");
        }
        if (sim::coin("closeout")) {
            bool t = throws([&] { f->closeOutput(); });
            (void)t;
            if (!t) { SIM_CHECK(!f->canWrite(), "can-write", "closed output reports it can be written");
                      bool ok = false; natural k = 0; ok = !throws([&] { k = f->write("zz", 2); }); SIM_CHECK(!ok || k == 0, "write-after-close", "write after closeOutput accepted %d bytes", (int)k); }
        }
    }
    fds.check("file dropped");
    std::string g = got("/w/f"); sim::Quiet q;
    std::string want = model + (tail.size() > model.size() ? tail.substr(model.size()) : "");
    SIM_CHECK(g == want, "content", "closed file holds '%.80s' (%d), expected '%.80s' (%d)", g.c_str(), (int)g.size(), want.c_str(), (int)want.size());
}
SCENARIO(seq_read, "C15", 2) {
    sim::enableFaults("io_eintr,io_short,io_eio,open_fail,stat_fail");
    Fds fds;
    std::string data = bytes(sim::param("size", 0, 300), 3);
    { sim::Quiet q; sim::fsPut("/w/r", data); }
    size_t pos = 0;
    {
        PInputStream f;
        if (throws([&] { f = openR("/w/r"); })) { fds.check("open failed"); return; }
        IOutputStream *o = dynamic_cast<IOutputStream *>(f.get());
        SIM_CHECK(!o || !o->canWrite(), "can-write", "file opened for reading only reports it can be written");
        int n = sim::param("n", 1, 12); char b[400];
        for (int i = 0; i < n; i++) {
            int len = sim::param("len", 1, 120); natural k = 0; size_t left = data.size() - pos;
            int op = sim::param("op", 0, 4);
            if (op == 0) { if (throws([&] { k = f->read(b, len); })) continue;
                SIM_CHECK(k <= (natural)len && k <= left && (k > 0) == (left > 0), "bad-count", "read(%d) at %d of %d returned %d", len, (int)pos, (int)data.size(), (int)k);
                SIM_CHECK(!memcmp(b, data.data() + pos, k), "content", "read at %d delivered other bytes", (int)pos); pos += k; }
            else if (op == 1) { if (throws([&] { k = f->peek(b, len); })) continue;
                SIM_CHECK(k <= (natural)len && k <= left && (k > 0) == (left > 0), "bad-count", "peek(%d) at %d of %d returned %d", len, (int)pos, (int)data.size(), (int)k);
                SIM_CHECK(!memcmp(b, data.data() + pos, k), "content", "peek at %d delivered other bytes", (int)pos); }
            else if (op == 2) { bool r = false; if (throws([&] { r = f->canRead(); })) continue; SIM_CHECK(r == (left > 0), "can-read", "canRead() = %d with %d bytes left", r, (int)left); }
            else if (op == 3) { if (throws([&] { k = f->readAll(b, len); })) { // unknown how much was consumed: end here
                    break; }
                SIM_CHECK(k == std::min((size_t)len, left), "short-readall", "readAll(%d) at %d of %d returned %d", len, (int)pos, (int)data.size(), (int)k);
                SIM_CHECK(!memcmp(b, data.data() + pos, k), "content", "readAll at %d delivered other bytes", (int)pos); pos += k; }
            else { SeqFileInput in(f); bool e = false; byte c = 0; try { if (!in.hasItems()) continue; c = in.peek(); byte d = in.getNext(); SIM_CHECK(c == d, "content", "peek and getNext differ"); } catch (const IteratorNoMoreItems &) { SIM_CHECK(left == 0, "early-eof", "end of file reported with %d bytes left", (int)left); e = true; } catch (const Exception &) { break; }
                if (!e) { SIM_CHECK(left && (char)c == data[pos], "content", "iterator delivered another byte at %d", (int)pos); pos++; } }
        }
    }
    fds.check("file dropped");
}
SCENARIO(rnd_file, "C15", 2) {
    sim::enableFaults(IOF);
    Fds fds; std::string m;
    bool pre = sim::coin("pre");
    { sim::Quiet q; if (pre) { m = bytes(sim::param("size", 0, 80), 1); sim::fsPut("/w/x", m); } }
    {
        PRndFileHandle h;
        if (throws([&] { h = svc().openRndFile(W("/w/x"), IFileIOServices::fileOpenReadWrite, OpenFlags::create); })) { fds.check("open failed"); return; }
        if (sim::chance("cap", 1, 4)) sim::fsCapacity(m.size() + sim::param("capn", 0, 100));
        int n = sim::param("n", 1, 12); char b[300];
        for (int i = 0; i < n; i++) {
            int off = sim::param("off", 0, 120), len = sim::param("len", 1, 60); natural k = 0;
            switch (sim::param("op", 0, 5)) {
                case 0: case 1: { std::string d = bytes(len, i + 20); if (throws([&] { k = h->write(d.data(), len, off); })) break;
                    SIM_CHECK(k >= 1 && k <= (natural)len, "bad-count", "write returned %d of %d", (int)k, len);
                    sim::Quiet q; if (m.size() < off + k) m.resize(off + k, 0); m.replace(off, k, d, 0, k); } break;
                case 2: case 3: { if (throws([&] { k = h->read(b, len, off); })) break; size_t left = off < (int)m.size() ? m.size() - off : 0;
                    SIM_CHECK(k <= (natural)len && k <= left && (k > 0) == (left > 0), "bad-count", "read(%d at %d) of %d returned %d", len, off, (int)m.size(), (int)k);
                    SIM_CHECK(!memcmp(b, m.data() + std::min((size_t)off, m.size()), k), "content", "read at %d delivered other bytes", off); } break;
                case 4: { if (throws([&] { h->setSize(off); })) break; sim::Quiet q; m.resize(off, 0); } break;
                case 5: { IRndFileHandle::FileOffset s = 0; if (throws([&] { s = h->size(); })) break; SIM_CHECK(s == m.size(), "size", "size() = %d, file has %d bytes", (int)s, (int)m.size()); } break;
            }
            std::string g = got("/w/x"); SIM_CHECK(g == m, "content", "file has %d bytes, expected %d", (int)g.size(), (int)m.size());
            // stream views of the same handle
            if (sim::chance("view", 1, 4)) {
                size_t o = sim::param("vo", 0, 100); RndFileReader r(h, o); size_t want = o < m.size() ? m.size() - o : 0; natural t = 0;
                char bb[400]; if (!throws([&] { t = r.readAll(bb, sizeof bb); })) { SIM_CHECK(t == std::min(want, sizeof bb) && !memcmp(bb, m.data() + std::min(o, m.size()), t), "content", "RndFileReader at %d read %d of %d", (int)o, (int)t, (int)want); }
            }
        }
    }
    fds.check("file dropped");
}
// one file used by several threads, through one handle or more
SCENARIO(rnd_shared, "C15", 2) {
    sim::enableFaults("io_eintr,io_short"); Fds fds; int nw = sim::param("writers", 1, 3); bool other = sim::coin("other");
    std::vector<long> done(nw, 0), goal(nw); long most = 0;
    {
        PRndFileHandle h = svc().openRndFile(W("/w/x"), IFileIOServices::fileOpenReadWrite, OpenFlags::create), h2 = other ? svc().openRndFile(W("/w/x"), IFileIOServices::fileOpenReadWrite, 0) : h;
        const int step = 20; auto piece = [&](int w, int i) { return bytes(step, w * 50 + i + 3); };
        {
            Crew c;
            for (int w = 0; w < nw; w++) { int n = sim::param("n", 1, 4); goal[w] = n; c.go([&, w, n] {
                for (int i = 0; i < n; i++) {
                    std::string d = piece(w, i); IRndFileHandle::FileOffset o = ((long)i * nw + w) * step; size_t p = 0; IRndFileHandle &f = *(w % 2 ? h : h2);
                    while (p < d.size()) p += f.write(d.data() + p, d.size() - p, o + p);
                    { sim::Quiet q; done[w] = i + 1; most = std::max(most, (long)o + step); }
                    IRndFileHandle::FileOffset s = f.size(); SIM_CHECK((long)s >= (long)o + step, "size", "size() = %d after %d bytes were written", (int)s, (int)o + step);
                } }); }
            for (int k = sim::param("reads", 0, 6); k > 0; k--) {
                int w = sim::param("rw", 0, nw - 1); long dn, mo; { sim::Quiet q; dn = done[w]; mo = most; }
                IRndFileHandle::FileOffset s = h->size(); SIM_CHECK((long)s >= mo, "size", "size() = %d, file has at least %d bytes", (int)s, (int)mo);
                if (dn) { int i = sim::param("ri", 0, (int)dn - 1); long o = ((long)i * nw + w) * step; char b[step]; RndFileReader r(h, o); SIM_CHECK(r.canRead(), "size", "written data at %d cannot be read", (int)o); natural t = r.readAll(b, step); std::string d = piece(w, i); SIM_CHECK(t == step && !memcmp(b, d.data(), step), "content", "read at %d delivered other bytes", (int)o); }
            }
        }
        SIM_CHECK((long)h->size() == most && (long)h2->size() == most, "size", "size() = %d and %d, file has %d bytes", (int)h->size(), (int)h2->size(), (int)most);
        if (other) { h2->setSize(10); SIM_CHECK(h->size() == 10, "size", "size() = %d after the file was cut to 10 bytes through another handle", (int)h->size()); }
    }
    fds.check("file dropped");
}
// a pipe carries the bytes in order to the end, whatever the sizes and interruptions; ends are noticed
SCENARIO(pipe_stream, "C15", 2) {
    sim::enableFaults("io_eintr,io_short");
    Fds fds;
    std::string data = bytes(sim::param("size", 0, 700), 9);
    int abandon = sim::chance("abandon", 1, 4) ? sim::param("after", 0, 300) : -1;
    {
        PInputStream rd; POutputStream wr;
        svc().createPipe(rd, wr);
        Crew c; bool broken = false;
        c.go([&] {
            POutputStream w; { w = wr; wr = nil; }
            size_t p = 0;
            try {
                while (p < data.size()) { int len = std::min((int)(data.size() - p), sim::param("wlen", 1, 200)); natural k; if (sim::coin("all")) { k = w->writeAll(data.data() + p, len); SIM_CHECK(k == (natural)len, "short-writeall", "writeAll wrote %d of %d without an error", (int)k, len); } else { k = w->write(data.data() + p, len); SIM_CHECK(k >= 1 && k <= (natural)len, "bad-count", "pipe write returned %d of %d", (int)k, len); } p += k; }
            } catch (const Exception &) { broken = true; }
            SIM_CHECK(!broken || abandon >= 0, "spurious-failure", "write to an open pipe failed");
            if (sim::coin("co")) w->closeOutput();
            w = nil;
        });
        PInputStream r; { r = rd; rd = nil; }
        size_t pos = 0; char b[400]; bool eof = false;
        while (!eof) {
            if (abandon >= 0 && (int)pos >= abandon) break;
            int len = sim::param("rlen", 1, 200); natural k;
            switch (sim::param("op", 0, 3)) {
                case 0: k = r->read(b, len); if (!k) { eof = true; break; } SIM_CHECK(k <= (natural)len && pos + k <= data.size() && !memcmp(b, data.data() + pos, k), "content", "pipe delivered other bytes at %d", (int)pos); pos += k; break;
                case 1: k = r->peek(b, len); SIM_CHECK(k <= (natural)len && pos + k <= data.size() && !memcmp(b, data.data() + pos, k), "content", "pipe peek saw other bytes at %d (%d)", (int)pos, (int)k); if (!k) SIM_CHECK(pos == data.size(), "early-eof", "peek reports the end at %d of %d", (int)pos, (int)data.size()); break;
                case 2: if (!r->canRead()) { SIM_CHECK(pos == data.size(), "early-eof", "canRead() is false at %d of %d", (int)pos, (int)data.size()); eof = true; } else SIM_CHECK(pos < data.size(), "late-eof", "canRead() is true at the end"); break;
                case 3: { natural x = r->dataReady(); SIM_CHECK(x <= data.size() - pos || x == 1, "data-ready", "dataReady() = %d with %d bytes left", (int)x, (int)(data.size() - pos)); } break;
            }
        }
        SIM_CHECK(abandon >= 0 || pos == data.size(), "early-eof", "end of the pipe after %d of %d bytes", (int)pos, (int)data.size());
        if (eof) { natural k = r->read(b, 10); SIM_CHECK(k == 0, "after-eof", "read after the end returned %d", (int)k); }
        r = nil;
        c.join();
    }
    fds.check("pipe dropped");
}
// advisory locks of files exclude each other, and a timed lock ends
SCENARIO(file_lock, "C15", 1) {
    sim::enableFaults("flock_eintr");
    Fds fds; { sim::Quiet q; sim::fsPut("/w/l", "x"); }
    int nt = sim::param("threads", 2, 4), it = sim::param("iters", 1, 4);
    int shared = 0, excl = 0;
    {
        Crew c;
        for (int t = 0; t < nt; t++) c.go([&] {
            PRndFileHandle h = svc().openRndFile(W("/w/l"), IFileIOServices::fileOpenReadWrite, 0);
            ILockFileInterface *l = dynamic_cast<ILockFileInterface *>(h.get());
            for (int k = 0; k < it; k++) {
                bool ex = sim::coin("ex"); int mode = sim::param("mode", 0, 2); natural to = mode == 0 ? naturalNull : mode == 1 ? 0 : 20;
                uint64_t t0 = sim::now_us();
                bool r = ex ? l->lockExclusive(to) : l->lockShared(to);
                if (!r) { SIM_CHECK(mode != 0, "lock-failed", "lock without a timeout failed"); if (mode == 2) SIM_CHECK(sim::now_us() - t0 >= 19000, "early-timeout", "lock timed out after %d us", (int)(sim::now_us() - t0)); continue; }
                { sim::Quiet q; if (ex) excl++; else shared++; SIM_CHECK(excl <= 1 && (!excl || !shared), "mutual-exclusion", "file lock held by %d exclusive and %d shared owners", excl, shared); }
                dwell();
                { sim::Quiet q; if (ex) excl--; else shared--; }
                if (sim::chance("drop", 1, 5)) { h = nil; h = svc().openRndFile(W("/w/l"), IFileIOServices::fileOpenReadWrite, 0); l = dynamic_cast<ILockFileInterface *>(h.get()); }
                else l->unlock();
            }
        });
        if (sim::chance("hold", 1, 3)) { // a holder which never lets go until all timed waiters are through
            c.join();
            PRndFileHandle h = svc().openRndFile(W("/w/l"), IFileIOServices::fileOpenReadWrite, 0), g = svc().openRndFile(W("/w/l"), IFileIOServices::fileOpenReadWrite, 0);
            SIM_CHECK(dynamic_cast<ILockFileInterface *>(h.get())->lockExclusive(), "lock-failed", "free lock not acquired");
            SIM_CHECK(!dynamic_cast<ILockFileInterface *>(g.get())->lockShared(30), "mutual-exclusion", "lock acquired twice");
        }
    }
    fds.check("all dropped");
}
// deleteOnClose and temporary files
SCENARIO(temp_file, "C15", 1) {
    sim::enableFaults("io_eintr,io_short,open_fail");
    Fds fds; int nt = sim::param("threads", 1, 3);
    std::set<std::string> names;
    {
        Crew c;
        for (int t = 0; t < nt; t++) c.go([&, t] {
            int n = sim::param("n", 1, 3);
            for (int i = 0; i < n; i++) {
                PTemporaryFile f;
                if (throws([&] { f = svc().createTempFile(ConstStrW(L"pre"), true); })) continue;
                std::string nm; { StringA a = f->getFilename().getUtf8(); sim::Quiet q; nm = std::string(a.data(), a.length()); SIM_CHECK(names.insert(nm).second, "name-clash", "temporary name %s used twice", nm.c_str()); SIM_CHECK(sim::fsExists(nm.c_str()), "missing", "temporary file %s does not exist", nm.c_str()); }
                std::string d = bytes(20, t * 10 + i); f->getStream()->writeAll(d.data(), d.size());
                bool det = sim::chance("detach", 1, 4);
                if (sim::coin("close")) f->close();
                { std::string g = got(nm.c_str()); SIM_CHECK(g == d, "content", "temporary file %s holds '%s'", nm.c_str(), g.c_str()); }
                if (det) f->detach();
                f = nil;
                sim::Quiet q; SIM_CHECK(sim::fsExists(nm.c_str()) == det, det ? "lost" : "not-removed", "temporary file %s %s", nm.c_str(), det ? "disappeared" : "left behind");
            }
        });
    }
    {
        POutputStream f;
        if (!throws([&] { f = openW("/w/doc", OpenFlags::create | OpenFlags::deleteOnClose); })) {
            POutputStream g = f; f = nil; SIM_CHECK(sim::fsExists("/w/doc"), "lost", "deleteOnClose file removed while open");
            g->writeAll("abc", 3); g = nil;
            SIM_CHECK(!sim::fsExists("/w/doc"), "not-removed", "deleteOnClose file left behind");
        }
        if (!throws([&] { f = openW("/w/keep", OpenFlags::create | OpenFlags::temporary); })) { f = nil; SIM_CHECK(sim::fsExists("/w/keep"), "lost", "a file opened with a cache hint was removed"); }
    }
    fds.check("all dropped");
}

// ------------------------------------------------------------------ C16 commit on close
static std::string gen(int g, int len) { sim::Quiet q; char h[40]; snprintf(h, sizeof h, "gen%d len%d:", g, len); return h + bytes(len, g) + "#end"; }
static bool wholeGen(const std::string &s, int &g) { int len; if (sscanf(s.c_str(), "gen%d len%d:", &g, &len) != 2) return false; return s == gen(g, len); }
SCENARIO(commit_faults, "C16", 3) {
    sim::enableFaults("io_eintr,io_short,io_eio,io_enospc,close_eio,sync_eintr,sync_eio,open_fail,rename_fail");
    Fds fds;
    bool had = sim::coin("had"); int cur = 0;
    { sim::Quiet q; if (had) sim::fsPut("/w/t", gen(0, 30)); else cur = -1; }
    bool done = false; int attempt = cur;
    sim::spawn("reader", [&] {
        while (!done) { { std::string s = got("/w/t"); sim::Quiet q; int g; SIM_CHECK(s == "<none>" ? cur < 0 : wholeGen(s, g) && (g == cur || g == attempt), "torn-visible", "a reader sees '%.60s' (%d bytes) while generation %d is current and %d being written", s.c_str(), (int)s.size(), cur, attempt); } sim::pass(); sim::sleep_us(50); }
    });
    int n = sim::param("n", 1, 4);
    for (int i = 1; i <= n; i++) {
        std::string d = gen(i, sim::param("len", 0, 200));
        { sim::Quiet q; attempt = i; }
        int how = sim::param("how", 0, 3); bool threw = false, wrote = false, okClose = false;
        struct Abort {};
        try {
            POutputStream f = openW("/w/t", OpenFlags::create | OpenFlags::truncate | OpenFlags::commitOnClose);
            SIM_CHECK(f->canWrite(), "can-write", "file opened for writing reports it cannot be written");
            size_t p = 0; while (p < d.size()) { int k = std::min((int)(d.size() - p), sim::param("wl", 1, 120)); natural w = f->writeAll(d.data() + p, k); SIM_CHECK(w == (natural)k, "short-writeall", "writeAll wrote %d of %d", (int)w, k); p += k; if (how == 3 && sim::coin("ab")) throw Abort(); }
            if (how == 3) throw Abort();
            wrote = true;
            if (how == 0) { f->closeOutput(); okClose = true; }
            else if (how == 1) { // a failed close, noticed by the user, who then drops the stream
                bool t = throws([&] { f->closeOutput(); }); if (t) threw = true; else okClose = true; }
            // how 2: dropped by the destructor
        } catch (const Abort &) { threw = true; }
        catch (const Exception &) { threw = true; }
        std::string s = got("/w/t"); sim::Quiet q; int g = -1; bool whole = wholeGen(s, g);
        if (okClose) SIM_CHECK(whole && g == i, "commit-lost", "closeOutput() of generation %d returned, the target holds '%.60s'", i, s.c_str());
        else if (!wrote || threw) SIM_CHECK(s == "<none>" ? cur < 0 : whole && g == cur, "commit-of-failed", "writing generation %d failed, yet the target holds '%.60s' (%d bytes), not generation %d", i, s.c_str(), (int)s.size(), cur);
        else SIM_CHECK(s == "<none>" ? cur < 0 : whole && (g == i || g == cur), "torn-visible", "the target holds '%.60s' after the stream was dropped", s.c_str());
        if (whole) cur = g;
        attempt = cur; had = had || cur >= 0;
        fds.check("stream dropped");
    }
    sim::faultsEnable(false);
    { POutputStream f = openW("/w/t", OpenFlags::create | OpenFlags::truncate | OpenFlags::commitOnClose); std::string d = gen(99, 10); { sim::Quiet q; attempt = 99; } f->writeAll(d.data(), d.size()); f = nil; SIM_CHECK(got("/w/t") == d, "commit-lost", "without faults a dropped stream did not commit"); { sim::Quiet q; cur = 99; } }
    done = true;
    sim::joinFiber(1);
}
SCENARIO(commit_crash, "C16", 3) {
    sim::enableFaults("io_eintr,io_short,io_eio,sync_eintr,sync_eio,close_eio,io_enospc");
    { sim::Quiet q; sim::fsPut("/w/t", gen(0, 30)); }
    int acked = 0, started = 0;
    int rounds = sim::param("rounds", 1, 3);
    for (int r = 0; r < rounds; r++) {
        bool failed = false, buffered = sim::coin("buffered");
        bool crashed = sim::runUntilCrash([&] {
            int n = sim::param("n", 1, 3);
            for (int i = 0; i < n; i++) try {
                int g; { sim::Quiet q; g = ++started; }
                std::string d = gen(g, sim::param("len", 0, 300));
                if (buffered) {
                    SeqFileOutput o(W("/w/t"), OpenFlags::create | OpenFlags::truncate | OpenFlags::commitOnClose);
                    SeqFileOutBuff<32> b(o); o.close();
                    b.blockWrite(d.data(), d.size(), true);
                    b.closeOutput();
                } else {
                    POutputStream f = openW("/w/t", OpenFlags::create | OpenFlags::truncate | OpenFlags::commitOnClose);
                    size_t p = 0; while (p < d.size()) { int k = std::min((int)(d.size() - p), sim::param("wl", 1, 150)); f->writeAll(d.data() + p, k); p += k; }
                    if (sim::coin("co")) f->closeOutput(); else { f = nil; failed = true; }
                }
                { sim::Quiet q; acked = g; sim::event("acked %d", g); }
            } catch (const Exception &) { failed = true; }
        }, 40);
        std::string s = got("/w/t"); sim::Quiet q; int g = -1;
        SIM_CHECK(wholeGen(s, g), "torn-after-crash", "after %s the target holds a torn file: '%.60s' (%d bytes); %d was acknowledged", crashed ? "a crash" : "a clean end", s.c_str(), (int)s.size(), acked);
        SIM_CHECK(g <= started, "invented", "generation %d was never written", g);
        if (!crashed && !failed) SIM_CHECK(g == acked, "commit-lost", "target holds generation %d, acknowledged was %d", g, acked);
        acked = g;
    }
}

// ------------------------------------------------------------------ C17 directories and whole-file operations
static const char *DF = "io_eintr,io_short,io_eio,io_enospc,open_fail,stat_fail,unlink_fail,readdir_fail,dtype_unknown,rename_fail,close_eio,mmap_fail";
static std::string S(ConstStrW w) { StringA a = String::getUtf8(w); sim::Quiet q; return std::string(a.data(), a.length()); }
// a random tree below dir; returns path -> content ("/" suffix for folders)
static int mkTree(const std::string &dir, int depth) {
    int n = sim::param("ents", 0, 4), made = 0;
    for (int i = 0; i < n; i++) {
        static const char *nm[] = {"a", ".hid", "b.txt", "name with space", "z\xc5\xbe", "x2"};
        std::string p; { sim::Quiet q; p = dir + "/" + nm[i + (i < 2 ? 0 : 0)]; }
        int k = sim::param("kind", 0, 5);
        sim::Quiet q;
        if (k <= 1) sim::fsPut(p.c_str(), std::string(i * 11, 'c'));
        else if (k == 2) { sim::fsMkdir(p.c_str()); if (depth > 0) made += mkTree(p, depth - 1); }
        else { const char *t = k == 3 ? "/out/keep" : k == 4 ? "/out/sub" : "/out/nothing"; symlink(t, p.c_str()); }
        made++;
    }
    return made;
}
static void outside() { sim::Quiet q; sim::fsPut("/out/keep", "precious"); sim::fsPut("/out/sub/deep", "precious too"); }
SCENARIO(dir_walk, "C17", 2) {
    sim::enableFaults("readdir_fail,dtype_unknown,stat_fail,open_fail");
    Fds fds; outside(); sim::fsMkdir("/w/d"); { sim::NoAllocFail n; } mkTree("/w/d", 1);
    {
        PFolderIterator it;
        if (throws([&] { it = svc().openFolder(W("/w/d")); })) { fds.check("open failed"); return; }
        int passes = sim::param("passes", 1, 2);
        for (int p = 0; p < passes; p++) {
            std::set<std::string> seen; bool full = true; int guard = 0;
            while (full) {
                bool r = false;
                if (throws([&] { r = it->getNext(); })) { full = false; if (guard++ > 20) break; continue; }
                if (!r) break;
                std::string name = S(it->entryName), path = S(it->getFullPath());
                sim::Quiet q;
                SIM_CHECK(seen.insert(name).second, "entry-twice", "entry '%s' listed twice", name.c_str());
                std::string fp = "/w/d/" + name, ty = sim::fsType(fp.c_str());
                SIM_CHECK(ty != "", "invented-entry", "entry '%s' does not exist", name.c_str());
                SIM_CHECK(path == fp, "path", "full path of '%s' is '%s'", name.c_str(), path.c_str());
                SIM_CHECK(it->link == (ty == "link"), "link-flag", "entry '%s' is a %s, link = %d", name.c_str(), ty.c_str(), it->link);
                if (ty == "file") SIM_CHECK(it->type == it->file, "entry-type", "file '%s' has type %d", name.c_str(), it->type);
                if (ty == "dir") SIM_CHECK(it->type == it->directory, "entry-type", "folder '%s' has type %d", name.c_str(), it->type);
                SIM_CHECK(it->hidden == (name[0] == '.'), "hidden-flag", "entry '%s': hidden = %d", name.c_str(), it->hidden);
                if (ty == "link") { std::string t; struct stat st; bool none = ::stat(fp.c_str(), &st) != 0, dir = !sim::fsGet(fp.c_str(), t); SIM_CHECK(it->type == (none ? it->unknown : dir ? it->directory : it->file), "entry-type", "link '%s' to a %s has type %d", name.c_str(), dir ? "folder" : "file", it->type); }
            }
            if (full) { sim::Quiet q; auto all = sim::fsList("/w/d"); for (auto &n : all) SIM_CHECK(seen.count(n), "entry-missed", "entry '%s' was not listed", n.c_str()); }
            // sizes are of the current entry
            it->rewind();
            int g2 = 0;
            while (g2++ < 30) { bool r = false; if (throws([&] { r = it->getNext(); })) break; if (!r) break; if (it->type != it->file) continue; lnatural sz = 0; std::string fp = "/w/d/" + S(it->entryName); if (throws([&] { sz = it->getSize(); })) continue; std::string c; { sim::Quiet q; sim::fsGet(fp.c_str(), c); } SIM_CHECK(sz == c.size(), "size", "size of %s is %d, reported %d", fp.c_str(), (int)c.size(), (int)sz); }
            it->rewind();
        }
    }
    fds.check("iterator dropped");
}
// what is done with an entry is done with the named file, nothing else
SCENARIO(dir_entry, "C17", 2) {
    if (sim::coin("faults")) sim::enableFaults("dtype_unknown,stat_fail,open_fail,unlink_fail");
    Fds fds; outside(); sim::fsMkdir("/w/d"); { sim::NoAllocFail n; } mkTree("/w/d", 1); sim::fsPut("/x/old", "old content");
    {
        PFolderIterator it; bool info = sim::coin("info");
        std::string name;
        { sim::Quiet q; auto all = sim::fsList("/w/d"); if (all.empty()) return; name = all[sim::param("entry", 0, (int)all.size() - 1)]; }
        std::string fp = "/w/d/" + name, ty, cont, tree; bool none, toDir;
        { sim::Quiet q; ty = sim::fsType(fp.c_str()); struct stat st; none = ::stat(fp.c_str(), &st) != 0; toDir = !none && !sim::fsGet(fp.c_str(), cont); }
        if (info) {
            std::string asked = fp; if (sim::coin("relative")) { char cwd[64]; sim::Quiet q; getcwd(cwd, sizeof cwd); if (std::string(cwd) == "/") asked = fp.substr(1); }
            bool t = throws([&] { String n = W(asked); it = svc().getFileInfo(n); });
            if (t) { SIM_CHECK(none || sim::faultsEnabled(), "spurious-failure", "no information about an existing file"); fds.check("information"); return; }
            SIM_CHECK(!none, "invented-entry", "information about a file which does not exist");
        } else {
            int guard = 0;
            for (;;) { bool r = false; if (throws([&] { if (it == nil) it = svc().openFolder(W("/w/d")); r = it->getNext(); })) { if (guard++ > 20) { it = nil; fds.check("entry"); return; } continue; } if (!r) { if (guard++ > 20) return; it->rewind(); continue; } if (S(it->entryName) == name) break; }
        }
        { std::string en = S(it->entryName), path = S(it->getFullPath()), src = S(it->source);
          sim::Quiet q; SIM_CHECK(en == name && path == fp, "path", "entry '%s' calls itself '%s', path '%s'", fp.c_str(), en.c_str(), path.c_str());
          SIM_CHECK(src == "/w/d", "path", "entry '%s' says its folder is '%s'", fp.c_str(), src.c_str());
          SIM_CHECK(it->type == (none ? it->unknown : toDir ? it->directory : it->file), "entry-type", "'%s' has type %d", fp.c_str(), it->type);
          SIM_CHECK(it->hidden == (name[0] == '.'), "hidden-flag", "hidden");
          SIM_CHECK(it->link == (ty == "link"), "link-flag", "entry '%s' is a %s, link = %d", fp.c_str(), ty.c_str(), it->link);
          if (info) SIM_CHECK(!throws([&] { SIM_CHECK(!it->getNext(), "entry-twice", "information about one file has more entries"); }), "spurious-failure", "getNext"); }
        int op = sim::param("op", 0, 8); bool failed = false, over = sim::coin("over"), rec = sim::coin("rec"), isLink = ty == "link";
        { sim::Quiet q; if (!sim::fsList(fp.c_str()).empty()) tree = sim::fsTree(fp.c_str()); }
        bool wasEmpty = tree.empty(), clean = !sim::faultsEnabled();
        const char *to = sim::coin("exists") ? "/x/old" : "/x/new"; bool exists = std::string(to) == "/x/old";
        switch (op) {
            case 0: { lnatural sz = 0; failed = throws([&] { sz = it->getSize(); }); if (!failed && !toDir && !none) SIM_CHECK(sz == cont.size(), "size", "size of '%s' is %d", fp.c_str(), (int)sz); } break;
            case 1: { TimeStamp a; failed = throws([&] { a = it->getModifiedTime(); }); struct stat st; int r; { sim::Quiet q; r = ::stat(fp.c_str(), &st); }
                      if (!failed) { SIM_CHECK(r == 0, "invented-entry", "time of nothing"); SIM_CHECK(a == TimeStamp::fromUnix(st.st_mtim.tv_sec, st.st_mtim.tv_nsec / 1000000), "time", "other time of modification"); } } break;
            case 2: { PFolderIterator in; failed = throws([&] { in = it->openFolder(); }); if (!failed) { SIM_CHECK(toDir, "entry-type", "'%s' opened as a folder", fp.c_str()); std::set<std::string> seen; failed = throws([&] { while (in->getNext()) { std::string n = S(in->entryName); sim::Quiet q; seen.insert(n); } });
                      if (!failed) { sim::Quiet q; for (auto &n : sim::fsList(fp.c_str())) SIM_CHECK(seen.count(n), "entry-missed", "entry '%s' was not listed", n.c_str()); } } else if (toDir && clean) SIM_CHECK(false, "spurious-failure", "folder can't be opened"); } break;
            case 3: { std::string r; failed = throws([&] { PInOutStream s = it->openSeqFile(IFileIOServices::fileOpenRead, 0); char b[128]; natural k; while ((k = s->read(b, sizeof b)) != 0) { sim::Quiet q; r.append(b, k); } }); sim::Quiet q; if (!failed) SIM_CHECK(!toDir && r == cont, "content", "entry read as '%s'", r.c_str()); } break;
            case 4: { std::string r; failed = throws([&] { PRndFileHandle s = it->openRndFile(IFileIOServices::fileOpenRead, 0); char b[128]; natural k = s->read(b, sizeof b, 0); sim::Quiet q; r.assign(b, k); }); sim::Quiet q; if (!failed) SIM_CHECK(!toDir && r == cont, "content", "entry read as '%s'", r.c_str()); } break;
            case 5: { failed = throws([&] { it->remove(rec); }); sim::Quiet q; SIM_CHECK(failed == (sim::fsType(fp.c_str()) != ""), "not-removed", "remove %s, '%s' %s", failed ? "failed" : "returned", fp.c_str(), sim::fsType(fp.c_str()) != "" ? "exists" : "is gone");
                      if (clean) SIM_CHECK(failed == (ty == "dir" && !rec && !wasEmpty), "spurious-failure", "remove of '%s' (%s) %s", fp.c_str(), ty.c_str(), failed ? "failed" : "returned");
                      if (failed && !rec && ty == "dir") SIM_CHECK(sim::fsTree(fp.c_str()) == tree || wasEmpty, "removed-on-error", "failed remove changed the folder"); } break;
            case 6: case 7: { bool mv = op == 7; if (mv && ty != "file") break; if (!mv && toDir) break;
                      failed = throws([&] { if (mv) it->move(W(to), over); else it->copy(W(to), over); });
                      std::string a = got(fp.c_str()), b = got(to); sim::Quiet q;
                      if (!failed) SIM_CHECK(!none && b == cont && (!exists || over) && (mv ? a == "<none>" : a == cont), "copy-content", "%s of '%s': source '%s', target '%s'", mv ? "move" : "copy", fp.c_str(), a.c_str(), b.c_str());
                      else { SIM_CHECK(none ? a == "<none>" : a == cont, "data-lost", "failed %s changed the source", mv ? "move" : "copy"); if (exists && !over) SIM_CHECK(b == "old content", "overwritten", "failed %s changed the target", mv ? "move" : "copy"); }
                      if (clean) SIM_CHECK(failed == (none || (exists && !over)), "spurious-failure", "%s %s", mv ? "move" : "copy", failed ? "failed" : "succeeded"); } break;
            case 8: { failed = throws([&] { PMappedFile m = it->mapFile(IFileIOServices::fileOpenRead); IMappedFile::MappedRegion r = m->map(IFileIOServices::fileOpenRead, false); SIM_CHECK(r.size == cont.size() && !memcmp(r.address, cont.data(), cont.size()), "content", "mapped entry shows other bytes"); }); if (clean && !toDir && !none) SIM_CHECK(!failed, "spurious-failure", "entry can't be mapped"); } break;
        }
        (void)isLink;
    }
    sim::Quiet q;
    SIM_CHECK(got("/out/keep") == "precious" && got("/out/sub/deep") == "precious too", "removed-outside", "working with an entry changed what a link in the folder points to");
    fds.check("entry dropped");
}
SCENARIO(dir_remove, "C17", 2) {
    sim::enableFaults("readdir_fail,dtype_unknown,stat_fail,open_fail,unlink_fail");
    Fds fds; outside(); sim::fsMkdir("/w/d"); mkTree("/w/d", 2); sim::fsPut("/w/other", "x");
    std::string before; { sim::Quiet q; before = sim::fsTree("/w/d"); }
    bool rec = sim::chance("rec", 3, 4);
    bool t = throws([&] { svc().removeFolder(W("/w/d"), rec); });
    { sim::Quiet q;
      SIM_CHECK(got("/out/keep") == "precious" && got("/out/sub/deep") == "precious too", "removed-outside", "removing a folder removed what a link inside it points to");
      SIM_CHECK(got("/w/other") == "x", "removed-outside", "removing a folder removed its neighbour");
      if (!t) SIM_CHECK(!sim::fsExists("/w/d") && (rec || before.empty()), "not-removed", "removeFolder returned, the folder %s", sim::fsExists("/w/d") ? "exists" : "was not empty");
      else if (!rec) SIM_CHECK(sim::fsExists("/w/d") && sim::fsTree("/w/d") == before, "removed-on-error", "failed removeFolder changed the folder"); }
    fds.check("removeFolder");
    sim::faultsEnable(false);
    if (t) { bool e; { sim::Quiet q; e = sim::fsTree("/w/d").empty(); } bool t2 = throws([&] { svc().removeFolder(W("/w/d"), true); }); SIM_CHECK(!t2, "cannot-finish", "removing the rest after a failure failed (%d)", e); }
}
SCENARIO(file_copy, "C17", 2) {
    sim::enableFaults(DF);
    Fds fds; std::string src = bytes(sim::param("size", 0, 200), 5); bool exists = sim::coin("exists"), over = sim::coin("over"), mv = sim::coin("move"), xd = sim::coin("xdev");
    { sim::Quiet q; sim::fsPut("/w/src", src); sim::fsMkdir("/x"); if (xd) sim::fsXdev("/x"); if (exists) sim::fsPut("/x/dst", "old content of the target"); }
    if (sim::chance("cap", 1, 4)) sim::fsCapacity(60 + src.size() + sim::param("capn", 0, 200));
    bool t = throws([&] { if (mv) svc().move(W("/w/src"), W("/x/dst"), over); else svc().copy(W("/w/src"), W("/x/dst"), over); });
    std::string a = got("/w/src"), b = got("/x/dst");
    fds.check(mv ? "move" : "copy");
    sim::Quiet q;
    if (!t) {
        SIM_CHECK(!exists || over, "overwritten", "%s without overwriting replaced an existing file", mv ? "move" : "copy");
        SIM_CHECK(b == src, "copy-content", "%s of %d bytes succeeded, the target holds %d bytes", mv ? "move" : "copy", (int)src.size(), (int)b.size());
        SIM_CHECK(mv ? a == "<none>" : a == src, "source", "source %s after %s", a == "<none>" ? "disappeared" : "stayed", mv ? "move" : "copy");
    } else {
        SIM_CHECK(a == src || (mv && b == src), "data-lost", "%s failed and the content is nowhere any more: source '%.20s', target %d bytes", mv ? "move" : "copy", a.c_str(), (int)b.size());
        if (exists && !over) SIM_CHECK(b == "old content of the target", "overwritten", "failed %s without overwriting changed the existing file", mv ? "move" : "copy");
    }
}
SCENARIO(dir_create, "C17", 1) {
    sim::enableFaults("io_enospc");
    Fds fds; int nt = sim::param("threads", 1, 3);
    bool linked = sim::coin("link");
    {
        Crew c; int err = 0;
        for (int t = 0; t < nt; t++) c.go([&, t] {
            int k = sim::param("what", 0, 2);
            std::string p; { sim::Quiet q; p = std::string("/w/p/q") + (k ? "/r" : "") + (t & 1 ? "/s" : ""); }
            bool f = throws([&] { svc().createFolder(W(p), true); });
            if (f) { err++; return; }
            sim::Quiet q; SIM_CHECK(sim::fsType(p.c_str()) == "dir", "missing", "createFolder returned, %s does not exist", p.c_str());
        });
        c.join();
        if (!sim::faultsEnabled()) SIM_CHECK(!err, "spurious-failure", "%d threads creating the same folders failed", err);
    }
    sim::faultsEnable(false);
    bool f = throws([&] { svc().createFolder(W("/w/p/q/r"), true); });
    SIM_CHECK(!f, "spurious-failure", "creating a folder with its parents failed");
    f = throws([&] { svc().createFolder(W("/w/p/q/r"), true); });
    SIM_CHECK(!f, "spurious-failure", "creating an existing folder with parents failed");
    f = throws([&] { svc().createFolder(W("/w/p/q/r"), false); });
    SIM_CHECK(f, "no-error", "creating an existing folder without parents succeeded");
    if (linked) {
        sim::fsPut("/w/tgt", "T");
        svc().link(W("/w/ln"), W("/w/tgt"), false);
        SIM_CHECK(got("/w/ln") == "T", "link", "link does not lead to its target");
        SIM_CHECK(throws([&] { svc().link(W("/w/ln"), W("/w/other"), false); }) && got("/w/ln") == "T", "overwritten", "existing link replaced");
        sim::fsPut("/w/other", "O"); svc().link(W("/w/ln"), W("/w/other"), true); SIM_CHECK(got("/w/ln") == "O" && got("/w/tgt") == "T", "link", "link was not replaced");
    }
    { // a temporary file with a given name never takes over an existing file
        sim::fsPut("/tmp/mine", "user data");
        PTemporaryFile tf = svc().createTempFile(ConstStrW(L"mine"), false);
        SIM_CHECK(tf->getStream() == nil, "temp-takes-over", "temporary file of an existing name has a stream");
        tf->detach();
        SIM_CHECK(got("/tmp/mine") == "user data", "temp-takes-over", "existing file changed");
    }
    fds.check("end");
}
SCENARIO(mapped_file, "C17", 1) {
    sim::enableFaults("mmap_fail,open_fail,stat_fail");
    Fds fds; std::string src = bytes(sim::param("size", 0, 5000), 5); { sim::Quiet q; sim::fsPut("/w/m", src); }
    bool wr = sim::coin("wr"), cow = sim::coin("cow"), keep = sim::coin("keep"), changed = false;
    bool t = throws([&] {
        PMappedFile f = svc().mapFile(W("/w/m"), wr ? IFileIOServices::fileOpenReadWrite : IFileIOServices::fileOpenRead);
        IMappedFile::MappedRegion r = f->map(wr ? IFileIOServices::fileOpenReadWrite : IFileIOServices::fileOpenRead, cow);
        if (keep) f = nil;
        IMappedFile::MappedRegion r2 = r;
        SIM_CHECK(r.size == src.size(), "map-size", "%d bytes mapped of %d", (int)r.size, (int)src.size());
        if (src.size()) { SIM_CHECK(!memcmp(r.address, src.data(), src.size()), "content", "mapped file shows other bytes");
            if (wr) { ((char *)r.address)[src.size() - 1] = '!'; changed = !cow; } }
    });
    (void)t;
    fds.check("mapping dropped");
    std::string g = got("/w/m"); sim::Quiet q; if (changed) src[src.size() - 1] = '!';
    SIM_CHECK(g == src, "content", "%s", changed ? "a write through a shared mapping is lost" : "file changed through a private or read only mapping");
}
// a window anywhere in the file shows that part of it
SCENARIO(mapped_window, "C17", 1) {
    sim::enableFaults("mmap_fail,open_fail");
    Fds fds; int size = sim::param("size", 1, 20000); std::string src = bytes(size, 5); { sim::Quiet q; sim::fsPut("/w/m", src); }
    bool wr = sim::coin("wr");
    IFileIOServices::FileOpenMode md = wr ? IFileIOServices::fileOpenReadWrite : IFileIOServices::fileOpenRead;
    bool t = throws([&] {
        PMappedFile f = svc().mapFile(W("/w/m"), md);
        int n = sim::param("n", 1, 4);
        for (int i = 0; i < n; i++) {
            int off = sim::param("off", 0, size - 1), len = sim::param("len", 1, size - off); bool cow = wr && sim::coin("cow");
            if (sim::chance("page", 1, 3)) { off &= ~4095; if (off + len > size) len = size - off; }
            if (throws([&] {
                IMappedFile::MappedRegion r = f->map((IRndFileHandle::FileOffset)off, (natural)len, md, cow);
                SIM_CHECK(r.offset <= (lnatural)off && r.offset + r.size >= (lnatural)off + len, "map-size", "window of %d bytes at %d asked, %d at %d mapped", len, off, (int)r.size, (int)r.offset);
                char *p = (char *)r.address + (off - (int)r.offset);
                SIM_CHECK(!memcmp(p, src.data() + off, len), "content", "window of %d bytes at %d shows other bytes", len, off);
                if (wr) { int k = sim::param("at", 0, len - 1); p[k] = (char)('0' + i); if (!cow) { sim::Quiet q; src[off + k] = (char)('0' + i); }
                    if (sim::coin("sync")) { r.sync(); if (!cow) { std::string g = got("/w/m"); SIM_CHECK(g == src, "content", "synchronized write through a mapping is not in the file"); } } }
                if (sim::coin("lock")) { r.lock(); r.unlock(); }
            })) SIM_CHECK(sim::faultCount("mmap_fail"), "spurious-failure", "window of %d bytes at %d of %d can't be mapped", len, off, size);
        }
    });
    if (t) SIM_CHECK(sim::faultCount("open_fail"), "spurious-failure", "file can't be mapped");
    fds.check("mapping dropped");
    std::string g = got("/w/m"); sim::Quiet q;
    SIM_CHECK(g == src, "content", "file does not hold what was written through its shared mapping");
}
