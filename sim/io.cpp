// simulated kernel I/O: files, directories, pipes, sockets, poll and epoll
#include "rt.h"
#include "io.h"
#include <algorithm>
#include <map>
#include <deque>
#include <vector>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/epoll.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <signal.h>
#include <sys/sendfile.h>
#include <unistd.h>
using namespace rt;

// ---- runtime-private memory (not counted among the heap blocks of the system under test)
static void *raFree[64];
static void *raGet(size_t n) {
    if (n < 16) n = 16;
    int c = 64 - __builtin_clzll(n - 1);
    if (raFree[c]) { void *p = raFree[c]; raFree[c] = *(void **)p; return p; }
    return rawAlloc((size_t)1 << c);
}
static void raPut(void *p, size_t n) { if (n < 16) n = 16; int c = 64 - __builtin_clzll(n - 1); *(void **)p = raFree[c]; raFree[c] = p; }
template<class T> struct RA {
    typedef T value_type;
    RA() {}
    template<class U> RA(const RA<U> &) {}
    T *allocate(size_t n) { return (T *)raGet(n * sizeof(T)); }
    void deallocate(T *p, size_t n) { raPut(p, n * sizeof(T)); }
    template<class U> bool operator==(const RA<U> &) const { return true; }
    template<class U> bool operator!=(const RA<U> &) const { return false; }
};
typedef std::basic_string<char, std::char_traits<char>, RA<char>> rstr;
template<class T> using rvec = std::vector<T, RA<T>>;
template<class T> using rdeq = std::deque<T, RA<T>>;
template<class K, class V> using rmap = std::map<K, V, std::less<K>, RA<std::pair<const K, V>>>;
template<class T, class... A> static T *mk(A... a) { return new (raGet(sizeof(T))) T(a...); }

// ---- objects
struct Inode;
struct PendW { off_t off; bool trunc; rstr data; };
struct Inode {
    int id; int kind; // 0 file 1 dir 2 symlink
    unsigned mode; int nlink = 0; rstr data, sdata; rvec<PendW> pend; rmap<rstr, Inode *> ents; rvec<rstr> order;
    uint64_t mtime = 0; Inode *parent = nullptr; int dev = 0; int links = 0;
    rvec<struct OFile *> lockers; bool lockEx = false;
    rvec<struct MapReg *> maps; char *shm = nullptr; size_t shmCap = 0;
};
struct DirOp { Inode *dir; rstr name; Inode *oldv, *newv; struct Comp *comp = nullptr; DirOp(Inode *d, const rstr &n, Inode *o, Inode *v) : dir(d), name(n), oldv(o), newv(v) {} };
struct Comp { DirOp s, t; Comp(const DirOp &a, const DirOp &b) : s(a), t(b) {} };
struct Pipe { rdeq<char> q; size_t cap; int readers = 0, writers = 0; };
struct Seg { uint64_t t; rstr d; bool fin; };
struct Sock;
struct Stream { rdeq<Seg> q; size_t bytes = 0; uint64_t lastT = 0; bool eof = false; };   // eof: FIN consumed
struct Dgram { uint64_t t; rstr d; struct sockaddr_storage from; socklen_t fromlen; };
struct Backlog { uint64_t t; Sock *s; };
struct Sock {
    int id; int fam; int type; int st = 0; // 0 new 1 listening 2 connecting 3 connected 4 dead
    bool bound = false; struct sockaddr_storage la, pa; socklen_t lal = 0, pal = 0; int port = 0; bool v6 = false;
    Sock *peer = nullptr; Stream in; bool shutRd = false, shutWr = false, closed = false;
    int err = 0; uint64_t estT = 0; int estErr = 0; uint64_t rstT = NEVER; bool rstSeen = false;
    rdeq<Backlog> back; int backMax = 0; rdeq<Dgram> dq; uint64_t peerClosedT = NEVER; size_t sent = 0; uint64_t outT = 0;
};
struct EpItem { struct OFile *f; int fd; uint32_t ev; bool armed; epoll_data_t data; };
struct Ep { rvec<EpItem> it; };
struct OFile {
    int ref = 0; int kind; // 0 file 1 pipe-read 2 pipe-write 3 socket 4 epoll 5 stdio 6 dir 7 random 8 null
    int flags = 0; Inode *ino = nullptr; off_t pos = 0; Pipe *pipe = nullptr; Sock *sk = nullptr; Ep *ep = nullptr; rstr name; int owner = 0; int stdn = 0; bool wrote = false;
};
struct MapReg { char *addr; size_t len; off_t off; Inode *ino; bool shared, wr; struct Proc *proc; };

enum { MAXFD = 256 };
// a simulated process: its descriptors, working directory and what its parent will be told
struct Proc {
    int pid = 0, ppid = 0; int state = 0; // 0 running 1 zombie 2 reaped
    OFile *fd[MAXFD]; bool cx[MAXFD]; rstr cwd; int status = 0; bool chldPend = false, termPend = false, termIgn = false, killable = false;
    void *regs[7]; uintptr_t vsp = 0; int depth = 0, quiet = 0; uint64_t vmask = 0; Proc *vparent = nullptr; Fiber *forker = nullptr;   // of a vfork child running in the fiber of its parent
    uint64_t exitT = 0; rstr name; bool gone = false;
    Proc() { memset(fd, 0, sizeof fd); memset(cx, 0, sizeof cx); }
};
static Proc *g_rootProc; static rvec<Proc *> *g_procs; static int g_nextPid = 4243; static bool g_shmMode;
static Proc *P() { return g_cur && g_cur->proc ? (Proc *)g_cur->proc : g_rootProc; }
#define g_fd (P()->fd)
#define g_cwd (&P()->cwd)
static rvec<Inode *> *g_inodes;
static Inode *g_root; static int g_inoId;
static rvec<DirOp> *g_journal;
static uint64_t g_cap; static int g_ops; static long g_crashIn; static int g_crashLo = -1; static bool g_crashed, g_crashPower = true;
static rstr *g_std[3]; static bool g_stdReal;
static rvec<Sock *> *g_socks; static int g_sockId, g_ephem = 40000;
static rvec<uint64_t> *g_ev; // min-heap of network arrival times
static size_t g_pipeCap; static int g_latMin, g_latMax, g_netBuf = 8192; static bool g_blackhole;
static bool g_inited;
static uint64_t nextNetEvent() {
    while (!g_ev->empty() && g_ev->front() <= g_now) { std::pop_heap(g_ev->begin(), g_ev->end(), std::greater<uint64_t>()); g_ev->pop_back(); }
    return g_ev->empty() ? NEVER : g_ev->front();
}
static void wakeAt(uint64_t t) { g_ev->push_back(t); std::push_heap(g_ev->begin(), g_ev->end(), std::greater<uint64_t>()); }
static Inode *newInode(int kind, unsigned mode) { Inode *i = mk<Inode>(); i->id = ++g_inoId; i->kind = kind; i->mode = mode; i->mtime = g_now; g_inodes->push_back(i); return i; }
static OFile *newFile(int kind, int flags, const char *name) { OFile *f = mk<OFile>(); f->kind = kind; f->flags = flags; f->name = name; f->owner = g_cur ? g_cur->id : 0; return f; }
static void init() {
    if (g_inited) return;
    g_inited = true;
    g_rootProc = mk<Proc>(); g_rootProc->pid = 4242; g_rootProc->ppid = 1; g_rootProc->cwd = "/w"; g_procs = mk<rvec<Proc *>>(); g_procs->push_back(g_rootProc);
    g_journal = mk<rvec<DirOp>>(); g_inodes = mk<rvec<Inode *>>(); g_socks = mk<rvec<Sock *>>(); g_ev = mk<rvec<uint64_t>>();
    rt::g_nextEvent = nextNetEvent;
    g_root = newInode(1, 0755); g_root->parent = g_root;
    for (int i = 0; i < 3; i++) { g_std[i] = mk<rstr>(); OFile *f = newFile(5, i ? O_WRONLY : O_RDONLY, "stdio"); f->stdn = i; f->ref = 1; g_fd[i] = f; }
    sim::fsMkdir("/w"); sim::fsMkdir("/tmp"); sim::fsMkdir("/dev");
}
static int allocFd(OFile *f, bool cx = false, int from = 0) { Proc *p = P(); for (int i = from; i < MAXFD; i++) if (!p->fd[i]) { p->fd[i] = f; p->cx[i] = cx; f->ref++; f->owner = g_cur ? g_cur->id : 0; return i; } errno = EMFILE; return -1; }
static OFile *F(int fd) { init(); if (fd < 0 || fd >= MAXFD || !g_fd[fd]) { errno = EBADF; return nullptr; } return g_fd[fd]; }
static bool g_emfile() { int n = 0; for (int i = 3; i < MAXFD; i++) if (!g_fd[i]) { n++; break; } return !n; }

// ---- crash
static void applyCrash();
static void dropFile(OFile *f);

static void crashHere() {
    g_crashed = true;
    logf("CRASH at I/O operation %d", g_ops);
    mix(0xC8A54);
    applyCrash();
    rt::killFrom(g_crashLo);
}
static bool opBegin() { // true: crash after the effect
    init();
    if (rt::g_kernelOp) rt::g_kernelOp();
    g_ops++;
    if (!g_active || g_crashIn <= 0 || g_cur->id < g_crashLo) return false;
    if (--g_crashIn) return false;
    if (choose("crash.after", 2, 0, 1, 2)) return true;
    crashHere();
    return false;
}
struct Op { bool after; Op() { point(-1); after = opBegin(); } ~Op() { if (after) { after = false; int e = errno; crashHere(); errno = e; } } };

// ---- file data
static uint64_t usedBytes() { uint64_t n = 0; rvec<Inode *> st; st.push_back(g_root); while (!st.empty()) { Inode *d = st.back(); st.pop_back(); for (auto &e : d->ents) { if (e.second->kind == 1) st.push_back(e.second); else n += e.second->data.size(); } } return n; }
static void flushMaps(Inode *i) { for (auto m : i->maps) if (m->shared && m->wr) { size_t n = m->off < (off_t)i->data.size() ? std::min(m->len, i->data.size() - (size_t)m->off) : 0; if (n && memcmp(&i->data[m->off], m->addr, n)) { PendW p{m->off, false, rstr(m->addr, n)}; i->data.replace(m->off, n, m->addr, n); i->pend.push_back(p); } } }
static void loadMaps(Inode *i) { for (auto m : i->maps) if (m->shared) { size_t n = m->off < (off_t)i->data.size() ? std::min(m->len, i->data.size() - (size_t)m->off) : 0; if (n) memcpy(m->addr, &i->data[m->off], n); } }
// shared memory of an inode: pages behind the end of the file (or not mapped by anybody) are not accessible
static void shmProt(Inode *i) {
    if (!i->shm) return;
    bool any = false; for (auto m : i->maps) if (m->shared) any = true;
    size_t n = any ? std::min((i->data.size() + 4095) & ~(size_t)4095, i->shmCap) : 0;
    if (n) mprotect(i->shm, n, PROT_READ | PROT_WRITE);
    if (n < i->shmCap) mprotect(i->shm + n, i->shmCap - n, PROT_NONE);
}
static void rawWrite(rstr &d, off_t off, const char *p, size_t n) { if (d.size() < off + n) d.resize(off + n, 0); if (n) memcpy(&d[off], p, n); }
static void inoWrite(Inode *i, off_t off, const char *p, size_t n) { flushMaps(i); rawWrite(i->data, off, p, n); i->pend.push_back(PendW{off, false, rstr(p, n)}); i->mtime = g_now; shmProt(i); loadMaps(i); }
static void inoTrunc(Inode *i, off_t n) { flushMaps(i); if ((off_t)i->data.size() == n) return; i->data.resize(n, 0); i->pend.push_back(PendW{n, true, rstr()}); i->mtime = g_now; shmProt(i); }
static void inoSync(Inode *i) { flushMaps(i); i->sdata = i->data; i->pend.clear(); }
static void commitJournal() { g_journal->clear(); }
static void setEnt(Inode *dir, const rstr &name, Inode *v, bool journal = true) {
    auto it = dir->ents.find(name);
    Inode *old = it == dir->ents.end() ? nullptr : it->second;
    if (journal) g_journal->push_back(DirOp(dir, name, old, v));
    if (v) { dir->ents[name] = v; v->parent = dir; if (!old) dir->order.push_back(name); }
    else { dir->ents.erase(name); for (size_t k = 0; k < dir->order.size(); k++) if (dir->order[k] == name) { dir->order.erase(dir->order.begin() + k); break; } }
    dir->mtime = g_now;
}
static void applyCrash() {
    bool power = g_crashPower && choose("crash.power", 2, 1, 0, 0) != 0;
    // mappings and descriptors of the dead process
    for (auto i : *g_inodes) { flushMaps(i); i->maps.clear(); }
    for (int i = 3; i < MAXFD; i++) if (g_fd[i] && g_fd[i]->owner >= g_crashLo) { OFile *f = g_fd[i]; g_fd[i] = nullptr; dropFile(f); }
    sim::event(power ? "power failure" : "process killed");
    countFault(power ? "crash_power" : "crash_kill");
    if (!power) return;
    // directory operations: a prefix of the unsynced ones survives
    int n = (int)g_journal->size();
    int keep = n ? choose("crash.dirops", n + 1, 0, 0, 0) : 0;
    for (int k = n - 1; k >= keep; k--) { DirOp &o = (*g_journal)[k]; if (o.comp) { setEnt(o.comp->t.dir, o.comp->t.name, o.comp->t.oldv, false); setEnt(o.comp->s.dir, o.comp->s.name, o.comp->s.oldv, false); } else setEnt(o.dir, o.name, o.oldv, false); }
    commitJournal();
    // data: each file has lost any part of what was not synced
    rvec<Inode *> st; st.push_back(g_root);
    while (!st.empty()) {
        Inode *d = st.back(); st.pop_back();
        for (auto &e : d->ents) {
            Inode *i = e.second;
            if (i->kind == 1) { st.push_back(i); continue; }
            if (i->kind != 0 || i->pend.empty()) continue;
            int how = choose("crash.data", 4, 0, 0, 0);   // 0 lost 1 kept 2 torn prefix 3 subset
            rstr r = i->sdata;
            int np = (int)i->pend.size();
            int cut = how == 1 ? np : how == 2 ? choose("crash.cut", np, 0, 0, 0) : 0;
            for (int k = 0; k < np; k++) {
                PendW &p = i->pend[k];
                size_t len = p.data.size();
                bool use = how == 1 || (how == 2 && k <= cut) || (how == 3 && choose("crash.keep", 2, 0, 0, 0));
                if (!use) continue;
                if ((how == 2 && k == cut) || how == 3) len = len ? (size_t)choose("crash.len", (int)len + 1, (int)len, 1, 2) : 0;
                if (p.trunc) r.resize(p.off, 0); else rawWrite(r, p.off, p.data.data(), len);
            }
            logf("crash: inode %d %zu bytes -> %zu", i->id, i->data.size(), r.size());
            i->data = r; i->sdata = r; i->pend.clear();
        }
    }
}

// ---- paths
static int g_sym;
static Inode *walk(const rstr &path, rstr *last, Inode **dirOut, bool follow) {
    // resolves path; *dirOut/last describe the final component
    rstr p = path;
    if (p.empty()) { errno = ENOENT; return nullptr; }
    if (p[0] != '/') p = *g_cwd + "/" + p;
    Inode *cur = g_root; rvec<rstr> parts; size_t i = 0;
    while (i < p.size()) { while (i < p.size() && p[i] == '/') i++; size_t j = i; while (j < p.size() && p[j] != '/') j++; if (j > i) parts.push_back(p.substr(i, j - i)); i = j; }
    bool trailing = p.size() > 1 && p[p.size() - 1] == '/';
    if (last) *last = rstr(); if (dirOut) *dirOut = nullptr;
    for (size_t k = 0; k < parts.size(); k++) {
        bool fin = k + 1 == parts.size();
        if (cur->kind != 1) { errno = ENOTDIR; return nullptr; }
        if (parts[k].size() > 255) { errno = ENAMETOOLONG; return nullptr; }
        if (parts[k] == ".") { if (fin && dirOut) { *dirOut = cur->parent; } continue; }
        if (parts[k] == "..") { cur = cur->parent; continue; }
        auto it = cur->ents.find(parts[k]);
        Inode *n = it == cur->ents.end() ? nullptr : it->second;
        if (fin) { if (last) *last = parts[k]; if (dirOut) *dirOut = cur; }
        if (!n) { errno = ENOENT; return nullptr; }
        if (n->kind == 2 && (!fin || follow)) {
            if (++g_sym > 16) { errno = ELOOP; return nullptr; }
            rstr rest = n->data;
            if (rest.empty() || rest[0] != '/') { // relative to the directory of the link: build an absolute path
                rstr dir; for (size_t q = 0; q < k; q++) dir += "/" + parts[q];
                rest = dir + "/" + rest;
            }
            for (size_t q = k + 1; q < parts.size(); q++) rest += "/" + parts[q];
            return walk(rest, last, dirOut, follow);
        }
        cur = n;
    }
    if (trailing && cur->kind != 1) { errno = ENOTDIR; return nullptr; }
    return cur;
}
static Inode *look(const char *path, rstr *last = nullptr, Inode **dir = nullptr, bool follow = true) { init(); g_sym = 0; errno = 0; return walk(path, last, dir, follow); }
static int devOf(Inode *d) { while (d != g_root) { if (d->dev) return d->dev; d = d->parent; } return 0; }

// ---- sockets: time
static uint64_t lat() { int d = 0; if (g_latMax > g_latMin) d = choose("N.lat", 16, 0, 3, 4); return ((uint64_t)g_latMin * 1000) + (uint64_t)(g_latMax - g_latMin) * 1000 * d / 15; }
static size_t avail(Stream &s) { size_t n = 0; for (auto &g : s.q) { if (g.t > g_now || g.fin) break; n += g.d.size(); } return n; }
static bool finArrived(Stream &s) { for (auto &g : s.q) { if (g.t > g_now) return false; if (g.fin) return true; } return s.eof; }
static bool rstArrived(Sock *s) { return s->rstT <= g_now; }
static void settleConn(Sock *s) {
    if (s->st == 2 && s->estT <= g_now) { if (s->estErr) { s->err = s->estErr; s->st = 4; } else s->st = 3; }
    if (s->rstT <= g_now && !s->rstSeen) { s->rstSeen = true; s->err = ECONNRESET; if (s->st == 2) { s->err = ECONNREFUSED; } s->st = 4; }
}
static void push(Stream &s, Sock *from, const char *p, size_t n, bool fin) {
    uint64_t t = g_now + lat(); if (t < s.lastT) t = s.lastT; s.lastT = t; (void)from;
    Seg g; g.t = t; g.fin = fin; if (n) g.d.assign(p, n);
    s.q.push_back(g); s.bytes += n;
    if (t > g_now) wakeAt(t);
}
static void sendRst(Sock *to) { if (!to || to->closed) return; uint64_t t = g_now + lat(); if (t < to->in.lastT) t = to->in.lastT; if (t < to->rstT) { to->rstT = t; if (t > g_now) wakeAt(t); } }
static Sock *findListener(const struct sockaddr *sa, socklen_t, int port) {
    (void)sa;
    for (auto s : *g_socks) if (s->st == 1 && s->port == port && !s->closed) return s;
    return nullptr;
}
static int portOf(const struct sockaddr *a) { return a->sa_family == AF_INET ? ntohs(((struct sockaddr_in *)a)->sin_port) : a->sa_family == AF_INET6 ? ntohs(((struct sockaddr_in6 *)a)->sin6_port) : 0; }
static int lastByte(const struct sockaddr *a) { if (a->sa_family == AF_INET) return ntohl(((struct sockaddr_in *)a)->sin_addr.s_addr) & 255; if (a->sa_family == AF_INET6) return ((struct sockaddr_in6 *)a)->sin6_addr.s6_addr[15]; return 0; }
static size_t space(Sock *s) { if (!s->peer) return 0; size_t used = s->peer->in.bytes; return used >= (size_t)g_netBuf ? 0 : g_netBuf - used; }
static void sockClose(Sock *s) {
    if (s->closed) return;
    s->closed = true;
    if (s->st == 1) { for (auto &b : s->back) { Sock *c = b.s; if (!c->closed) { sendRst(c->peer); c->closed = true; if (c->peer) c->peer->peer = nullptr; } } s->back.clear(); }
    if (s->peer) {
        Sock *p = s->peer;
        if (s->in.bytes || s->st == 4) { if (s->st != 4) sendRst(p); }
        else if (!s->shutWr) push(p->in, s, nullptr, 0, true);
        p->peer = nullptr; s->peer = nullptr;
    }
    s->st = 4;
    for (size_t k = 0; k < g_socks->size(); k++) if ((*g_socks)[k] == s) { g_socks->erase(g_socks->begin() + k); break; }
}

// ---- readiness
static int readiness(OFile *f) {
    switch (f->kind) {
    case 0: case 7: case 8: case 6: return POLLIN | POLLOUT;
    case 5: return f->stdn ? POLLOUT : POLLIN;
    case 1: return (f->pipe->q.empty() ? 0 : POLLIN) | (f->pipe->writers ? 0 : POLLHUP);
    case 2: return (f->pipe->q.size() < f->pipe->cap ? POLLOUT : 0) | (f->pipe->readers ? 0 : POLLERR);
    case 4: { int r = 0; for (auto &e : f->ep->it) if (e.armed && (readiness(e.f) & ((int)e.ev | POLLERR | POLLHUP))) r = POLLIN; return r; }
    case 3: {
        Sock *s = f->sk; settleConn(s);
        if (s->type == SOCK_DGRAM) { int r = POLLOUT; for (auto &d : s->dq) if (d.t <= g_now) r |= POLLIN; if (s->err) r |= POLLERR; return r; }
        if (s->st == 0) return POLLOUT | POLLHUP;
        if (s->st == 1) { for (auto &b : s->back) if (b.t <= g_now) return POLLIN; return 0; }
        if (s->st == 2) return 0;
        int r = 0;
        if (avail(s->in) || finArrived(s->in) || s->shutRd) r |= POLLIN;
        if (s->err) r |= POLLERR | POLLIN | POLLOUT;
        if (s->st == 4) r |= POLLHUP | POLLIN | POLLOUT;
        if (finArrived(s->in) && s->shutWr) r |= POLLHUP;
        if (s->shutWr || !s->peer || space(s) * 3 >= (size_t)g_netBuf || (g_netBuf < 64 && space(s))) r |= POLLOUT;
        return r; }
    }
    return 0;
}
struct RW { OFile *f; int want; };
static bool rdyCb(void *a) { RW *w = (RW *)a; return (readiness(w->f) & w->want) != 0; }
static void waitFor(OFile *f, int want, const char *why) { RW w{f, want}; block(why, rdyCb, &w, NEVER); }
static bool eintr(const char *k = "io_eintr") { if (fault(k)) { errno = EINTR; return true; } return false; }
static size_t shorten(size_t n) { if (n > 1 && fault("io_short")) { int m = n > 4096 ? 4096 : (int)n; return 1 + choose("V.io_short", m - 1, 0, 3, 4); } return n; }

static void dropFile(OFile *f) {
    if (--f->ref) return;
    switch (f->kind) {
    case 1: f->pipe->readers--; break;
    case 2: f->pipe->writers--; break;
    case 3: sockClose(f->sk); break;
    case 0: { auto &l = f->ino->lockers; for (size_t k = 0; k < l.size(); k++) if (l[k] == f) { l.erase(l.begin() + k); break; } if (l.empty()) f->ino->lockEx = false; break; }
    }
    for (auto pr : *g_procs) for (int i = 0; i < MAXFD; i++) if (pr->fd[i] && pr->fd[i]->kind == 4) { auto &it = pr->fd[i]->ep->it; for (size_t k = 0; k < it.size();) if (it[k].f == f) it.erase(it.begin() + k); else k++; }
}
static void touch(const void *p, size_t n, bool wr) { if (n) rt::touchMem(p, n, wr); }

extern "C" {
// ------------------------------------------------------------ files
int sim_open(const char *path, int flags, ...) {
    int mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
    Op op;
    if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) return allocFd(newFile(7, flags, path), flags & O_CLOEXEC);
    if (!strcmp(path, "/dev/null")) return allocFd(newFile(8, flags, path), flags & O_CLOEXEC);
    if (fault("open_fail")) { errno = choose("V.open", 2, 0, 1, 2) ? EACCES : EMFILE; return -1; }
    if (g_emfile()) { errno = EMFILE; return -1; }
    rstr last; Inode *dir;
    Inode *i = look(path, &last, &dir, !(flags & O_NOFOLLOW));
    int acc = flags & O_ACCMODE;
    if (!i) {
        if (errno != ENOENT || !(flags & O_CREAT) || !dir || last.empty()) return -1;
        if (fault("io_enospc")) { errno = ENOSPC; return -1; }
        i = newInode(0, mode & ~022);
        setEnt(dir, last, i);
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        if (i->kind == 1 && (acc != O_RDONLY || (flags & O_CREAT))) { errno = EISDIR; return -1; }
        if ((acc != O_WRONLY && !(i->mode & 0400)) || (acc != O_RDONLY && !(i->mode & 0200))) { errno = EACCES; return -1; }
        if ((flags & O_DIRECTORY) && i->kind != 1) { errno = ENOTDIR; return -1; }
        if ((flags & O_TRUNC) && acc != O_RDONLY) inoTrunc(i, 0);
    }
    OFile *f = newFile(0, flags, path); f->ino = i;
    int fd = allocFd(f, flags & O_CLOEXEC);
    logf("open(%s,%x) = %d", path, flags, fd);
    return fd;
}
int sim_open64(const char *path, int flags, ...) { int mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } return sim_open(path, flags, mode); }
int sim_close(int fd) {
    Op op;
    OFile *f = F(fd);
    if (!f) { if (g_active && fd >= 0) violation("closed-twice", "close(%d): the descriptor is not open", fd); return -1; }
    if (fd < 3 && P() == g_rootProc && !g_stdReal) { return 0; }
    logf("close(%d) %s", fd, f->name.c_str());
    bool wrote = f->wrote && f->kind == 0;
    g_fd[fd] = nullptr; dropFile(f);
    if (wrote && fault("close_eio")) { errno = EIO; return -1; }
    return 0;
}
ssize_t sim_read(int fd, void *b, size_t n) {
    Op op; OFile *f = F(fd); if (!f) return -1;
    if (f->kind == 0 && eintr()) return -1;
    switch (f->kind) {
    case 0: {
        if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
        if (f->ino->kind == 1) { errno = EISDIR; return -1; }
        if (fault("io_eio")) { errno = EIO; return -1; }
        flushMaps(f->ino);
        size_t sz = f->ino->data.size(); size_t m = f->pos >= (off_t)sz ? 0 : std::min(n, sz - (size_t)f->pos);
        if (m) m = shorten(m);
        if (m) { touch(b, m, true); memcpy(b, &f->ino->data[f->pos], m); } f->pos += m; return m; }
    case 1: {
        if (!n) return 0;
        while (f->pipe->q.empty()) {
            if (!f->pipe->writers) return 0;
            if (f->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
            if (eintr()) return -1;   // a signal came while waiting
            waitFor(f, POLLIN | POLLHUP, "pipe read");
        }
        size_t m = std::min(n, f->pipe->q.size()); m = shorten(m); touch(b, m, true);
        for (size_t k = 0; k < m; k++) { ((char *)b)[k] = f->pipe->q.front(); f->pipe->q.pop_front(); }
        point(-1); return m; }
    case 3: { extern ssize_t sim_recv(int, void *, size_t, int); return sim_recv(fd, b, n, 0); }
    case 5: return 0;
    case 7: { touch(b, n, true); for (size_t k = 0; k < n; k++) ((char *)b)[k] = (char)choose("V.random", 256, 0, 0, 0); return n; }
    case 8: return 0;
    }
    errno = EBADF; return -1;
}
static ssize_t fileWrite(OFile *f, const void *b, size_t n, off_t off) {
    if (f->ino->kind == 1) { errno = EBADF; return -1; }
    if (fault("io_eio")) { errno = EIO; return -1; }
    if (n && fault("io_enospc")) { errno = ENOSPC; return -1; }
    size_t m = n ? shorten(n) : 0;
    if (g_cap && off + m > f->ino->data.size()) {
        uint64_t used = usedBytes(), grow = off + m - f->ino->data.size();
        if (used + grow > g_cap) {
            uint64_t room = g_cap > used ? g_cap - used : 0; uint64_t lim = f->ino->data.size() + room;
            countFault("disk_full");
            if ((uint64_t)off >= lim) { errno = ENOSPC; return -1; }
            m = lim - off;
        }
    }
    touch(b, m, false);
    f->wrote = true;
    if (m) inoWrite(f->ino, off, (const char *)b, m);
    if (f->flags & O_SYNC) { inoSync(f->ino); commitJournal(); }
    return m;
}
ssize_t sim_write(int fd, const void *b, size_t n) {
    if (!g_active) { init(); return write(fd, b, n); }
    Op op; OFile *f = F(fd); if (!f) return -1;
    if (f->kind == 0 && eintr()) return -1;
    switch (f->kind) {
    case 0: {
        if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
        if (f->flags & O_APPEND) f->pos = f->ino->data.size();
        ssize_t r = fileWrite(f, b, n, f->pos); if (r > 0) f->pos += r; return r; }
    case 2: {
        if (!f->pipe->readers) { errno = EPIPE; return -1; }
        if (!n) return 0;
        size_t done = 0; touch(b, n, false);
        bool nb = f->flags & O_NONBLOCK;
        if (n <= PIPE_BUF) { // atomic
            while (f->pipe->cap - f->pipe->q.size() < std::min(n, f->pipe->cap)) {
                if (nb) { errno = EAGAIN; return -1; }
                if (eintr()) return -1;
                struct P { OFile *f; size_t n; } w{f, std::min(n, f->pipe->cap)};
                block("pipe write", [](void *a) { P *p = (P *)a; return !p->f->pipe->readers || p->f->pipe->cap - p->f->pipe->q.size() >= p->n; }, &w, NEVER);
                if (!f->pipe->readers) { errno = EPIPE; return -1; }
            }
        }
        while (done < n) {
            size_t room = f->pipe->cap - f->pipe->q.size();
            if (!room) {
                if (nb) { if (done) break; errno = EAGAIN; return -1; }
                if (fault("io_eintr")) { if (done) break; errno = EINTR; return -1; }
                waitFor(f, POLLOUT | POLLERR, "pipe write");
                if (!f->pipe->readers) { if (done) break; errno = EPIPE; return -1; }
                continue;
            }
            size_t m = std::min(room, n - done);
            for (size_t k = 0; k < m; k++) f->pipe->q.push_back(((const char *)b)[done + k]);
            done += m;
            if (fault("io_short")) break;
        }
        point(-1); return done; }
    case 3: { extern ssize_t sim_send(int, const void *, size_t, int); return sim_send(fd, b, n, 0); }
    case 5: if (f->stdn) g_std[f->stdn]->append((const char *)b, n); return n;
    case 7: case 8: return n;
    }
    errno = EBADF; return -1;
}
ssize_t sim_pread(int fd, void *b, size_t n, off_t off) {
    Op op; OFile *f = F(fd); if (!f) return -1;
    if (f->kind != 0) { errno = ESPIPE; return -1; }
    if (eintr()) return -1;
    if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if (off < 0) { errno = EINVAL; return -1; }
    if (f->ino->kind == 1) { errno = EISDIR; return -1; }
    if (fault("io_eio")) { errno = EIO; return -1; }
    flushMaps(f->ino);
    size_t sz = f->ino->data.size(); size_t m = off >= (off_t)sz ? 0 : std::min(n, sz - (size_t)off);
    if (m) m = shorten(m);
    if (m) { touch(b, m, true); memcpy(b, &f->ino->data[off], m); } return m;
}
ssize_t sim_pread64(int fd, void *b, size_t n, off_t off) { return sim_pread(fd, b, n, off); }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t off) {
    Op op; OFile *f = F(fd); if (!f) return -1;
    if (f->kind != 0) { errno = ESPIPE; return -1; }
    if (eintr()) return -1;
    if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (off < 0) { errno = EINVAL; return -1; }
    if (f->flags & O_APPEND) off = f->ino->data.size();  // Linux
    return fileWrite(f, b, n, off);
}
ssize_t sim_pwrite64(int fd, const void *b, size_t n, off_t off) { return sim_pwrite(fd, b, n, off); }
off_t sim_lseek(int fd, off_t o, int wh) {
    point(-1); OFile *f = F(fd); if (!f) return -1;
    if (f->kind != 0) { errno = ESPIPE; return -1; }
    off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : (off_t)f->ino->data.size();
    if (b + o < 0) { errno = EINVAL; return -1; }
    return f->pos = b + o;
}
off_t sim_lseek64(int fd, off_t o, int wh) { return sim_lseek(fd, o, wh); }
int sim_ftruncate(int fd, off_t n) {
    Op op; OFile *f = F(fd); if (!f) return -1;
    if (eintr()) return -1;
    if (f->kind != 0 || (f->flags & O_ACCMODE) == O_RDONLY || n < 0) { errno = EINVAL; return -1; }
    if (fault("io_eio")) { errno = EIO; return -1; }
    f->wrote = true;
    inoTrunc(f->ino, n); return 0;
}
int sim_ftruncate64(int fd, off_t n) { return sim_ftruncate(fd, n); }
int sim_fsync(int fd) {
    Op op; OFile *f = F(fd); if (!f) return -1;
    if (f->kind != 0) { errno = EINVAL; return -1; }
    if (eintr("sync_eintr")) return -1;
    if (fault("sync_eio")) { errno = EIO; return -1; }
    inoSync(f->ino); commitJournal(); logf("fsync(%d)", fd); return 0;
}
int sim_fdatasync(int fd) { return sim_fsync(fd); }
static void fillStat(Inode *i, struct stat *st) {
    memset(st, 0, sizeof *st); flushMaps(i);
    st->st_ino = i->id; st->st_mode = (i->kind == 0 ? S_IFREG : i->kind == 1 ? S_IFDIR : S_IFLNK) | i->mode; st->st_nlink = 1;
    st->st_size = i->kind == 1 ? 4096 : i->data.size(); st->st_mtim.tv_sec = i->mtime / 1000000000ull; st->st_mtim.tv_nsec = i->mtime % 1000000000ull; st->st_blksize = 4096; st->st_dev = devOf(i) + 1;
}
int sim_fstat(int fd, struct stat *st) {
    point(-1); OFile *f = F(fd); if (!f) return -1;
    if (f->kind == 0) { if (fault("stat_fail")) { errno = EIO; return -1; } fillStat(f->ino, st); return 0; }
    memset(st, 0, sizeof *st); st->st_mode = f->kind == 3 ? S_IFSOCK : S_IFIFO; return 0;
}
int sim_stat(const char *p, struct stat *st) { point(-1); Inode *i = look(p); if (!i) return -1; if (fault("stat_fail")) { errno = EACCES; return -1; } fillStat(i, st); return 0; }
int sim_lstat(const char *p, struct stat *st) { point(-1); Inode *i = look(p, nullptr, nullptr, false); if (!i) return -1; if (fault("stat_fail")) { errno = EACCES; return -1; } fillStat(i, st); return 0; }
int sim_fstat64(int fd, struct stat64 *st) { return sim_fstat(fd, (struct stat *)st); }
int sim_stat64(const char *p, struct stat64 *st) { return sim_stat(p, (struct stat *)st); }
int sim_lstat64(const char *p, struct stat64 *st) { return sim_lstat(p, (struct stat *)st); }
int sim_access(const char *p, int m) { point(-1); Inode *i = look(p); if (!i) return -1; if (((m & R_OK) && !(i->mode & 0400)) || ((m & W_OK) && !(i->mode & 0200)) || ((m & X_OK) && !(i->mode & 0100))) { errno = EACCES; return -1; } return 0; }
int sim_mkdir(const char *p, mode_t m) {
    Op op; rstr last; Inode *d; Inode *i = look(p, &last, &d, false);
    if (i) { errno = EEXIST; return -1; }
    if (errno != ENOENT || !d || last.empty()) return -1;
    if (fault("io_enospc")) { errno = ENOSPC; return -1; }
    i = newInode(1, m & ~022); setEnt(d, last, i); return 0;
}
int sim_rmdir(const char *p) {
    Op op; rstr last; Inode *d; Inode *i = look(p, &last, &d, false); if (!i) return -1;
    if (i->kind != 1) { errno = ENOTDIR; return -1; }
    if (i == g_root || last.empty()) { errno = EBUSY; return -1; }
    if (!i->ents.empty()) { errno = ENOTEMPTY; return -1; }
    if (fault("unlink_fail")) { errno = EBUSY; return -1; }
    setEnt(d, last, nullptr); logf("rmdir(%s)", p); return 0;
}
int sim_unlink(const char *p) {
    Op op; rstr last; Inode *d; Inode *i = look(p, &last, &d, false); if (!i) return -1;
    if (i->kind == 1) { errno = EISDIR; return -1; }
    if (fault("unlink_fail")) { errno = EACCES; return -1; }
    setEnt(d, last, nullptr); logf("unlink(%s)", p); return 0;
}
int sim_remove(const char *p) { Inode *i = look(p, nullptr, nullptr, false); if (i && i->kind == 1) return sim_rmdir(p); return sim_unlink(p); }
int sim_rename(const char *a, const char *b) {
    Op op; rstr la, lb; Inode *da, *db; Inode *i = look(a, &la, &da, false); if (!i) return -1;
    Inode *j = look(b, &lb, &db, false);
    if (!j && (errno != ENOENT || !db || lb.empty())) return -1;
    if (i == j) return 0;
    if (la.empty() || lb.empty()) { errno = EBUSY; return -1; }
    for (Inode *q = db; ; q = q->parent) { if (q == i) { errno = EINVAL; return -1; } if (q == g_root) break; }
    if (devOf(da) != devOf(db)) { errno = EXDEV; return -1; }
    if (j && j->kind == 1) { if (i->kind != 1) { errno = EISDIR; return -1; } if (!j->ents.empty()) { errno = ENOTEMPTY; return -1; } }
    if (j && j->kind != 1 && i->kind == 1) { errno = ENOTDIR; return -1; }
    if (fault("rename_fail")) { errno = choose("V.rename", 2, 0, 1, 2) ? EACCES : ENOSPC; return -1; }
    // one compound journal entry: a crash keeps both halves or none
    DirOp src(da, la, i, nullptr), dst(db, lb, j, i);
    setEnt(da, la, nullptr, false); setEnt(db, lb, i, false);
    DirOp x(nullptr, rstr(), nullptr, nullptr); x.comp = mk<Comp>(src, dst); g_journal->push_back(x);
    logf("rename(%s,%s)", a, b); return 0;
}
int sim_symlink(const char *target, const char *p) {
    Op op; rstr last; Inode *d; Inode *i = look(p, &last, &d, false);
    if (i) { errno = EEXIST; return -1; }
    if (errno != ENOENT || !d || last.empty()) return -1;
    i = newInode(2, 0777); i->data = target; i->sdata = i->data; setEnt(d, last, i); return 0;
}
int sim_chdir(const char *p) { Inode *i = look(p); if (!i) return -1; if (i->kind != 1) { errno = ENOTDIR; return -1; } *g_cwd = p[0] == '/' ? rstr(p) : *g_cwd + "/" + p; return 0; }
char *sim_getcwd(char *b, size_t n) { init(); if (g_cwd->size() + 1 > n) { errno = ERANGE; return nullptr; } touch(b, g_cwd->size() + 1, true); strcpy(b, g_cwd->c_str()); return b; }
long sim_pathconf(const char *, int) { return 255; }
struct SimDir { Inode *ino; rvec<rstr> names; size_t pos; int fd; };
static void dirLoad(SimDir *d) {
    d->names.clear(); d->names.push_back("."); d->names.push_back("..");
    for (auto &n : d->ino->order) d->names.push_back(n);
    if (d->names.size() > 3) { size_t r = choose("V.dirorder", (int)d->names.size() - 2, 0, 0, 0); std::rotate(d->names.begin() + 2, d->names.begin() + 2 + r, d->names.end()); }
    d->pos = 0;
}
DIR *sim_opendir(const char *p) {
    Op op; Inode *i = look(p); if (!i) return nullptr;
    if (i->kind != 1) { errno = ENOTDIR; return nullptr; }
    if (fault("open_fail")) { errno = EMFILE; return nullptr; }
    OFile *f = newFile(6, 0, p); f->ino = i; int fd = allocFd(f, true); if (fd < 0) return nullptr;
    SimDir *d = mk<SimDir>(); d->ino = i; d->fd = fd; dirLoad(d); return (DIR *)d;
}
int sim_closedir(DIR *x) { if (!x) { if (g_active) violation("bad-close", "closedir(NULL)"); return -1; } SimDir *d = (SimDir *)x; return sim_close(d->fd); }
int sim_readdir_r(DIR *x, struct dirent *e, struct dirent **r) {
    point(-1); SimDir *d = (SimDir *)x;
    if (fault("readdir_fail")) { *r = nullptr; return EIO; }
    while (d->pos < d->names.size()) {
        rstr n = d->names[d->pos++]; Inode *i = nullptr;
        if (n == ".") i = d->ino; else if (n == "..") i = d->ino->parent; else { auto it = d->ino->ents.find(n); if (it == d->ino->ents.end()) continue; i = it->second; }
        touch(e, offsetof(struct dirent, d_name) + n.size() + 1, true);
        e->d_ino = i->id; e->d_type = fault("dtype_unknown") ? DT_UNKNOWN : i->kind == 0 ? DT_REG : i->kind == 1 ? DT_DIR : DT_LNK; strcpy(e->d_name, n.c_str()); *r = e; return 0;
    }
    *r = nullptr; return 0;
}
void sim_rewinddir(DIR *x) { dirLoad((SimDir *)x); }
ssize_t sim_sendfile(int o, int in, off_t *off, size_t n) {
    Op op; OFile *a = F(in), *b = F(o); if (!a || !b) return -1;
    if (a->kind != 0 || b->kind != 0) { errno = EINVAL; return -1; }
    if (eintr()) return -1;
    if (n > 0x7ffff000) n = 0x7ffff000;
    flushMaps(a->ino);
    off_t p = off ? *off : a->pos; size_t sz = a->ino->data.size(); size_t m = p >= (off_t)sz ? 0 : std::min(n, sz - (size_t)p);
    if (!m) return 0;
    rstr tmp = a->ino->data.substr(p, m);
    ssize_t r = fileWrite(b, tmp.data(), m, b->pos);
    if (r > 0) { b->pos += r; if (off) *off += r; else a->pos += r; }
    return r;
}
ssize_t sim_sendfile64(int o, int in, off_t *off, size_t n) { return sim_sendfile(o, in, off, n); }
int sim_flock(int fd, int op_) {
    Op op; OFile *f = F(fd); if (!f) return -1; if (!f->ino) { errno = EINVAL; return -1; }
    Inode *i = f->ino; auto &l = i->lockers; int m = op_ & ~LOCK_NB;
    auto rel = [&] { for (size_t k = 0; k < l.size(); k++) if (l[k] == f) { l.erase(l.begin() + k); break; } if (l.empty()) i->lockEx = false; };
    if (m == LOCK_UN) { rel(); point(-1); return 0; }
    rel();   // conversion is not atomic
    struct W { Inode *i; bool ex; } w{i, m == LOCK_EX};
    auto ok = [](void *a) { W *w = (W *)a; return w->ex ? w->i->lockers.empty() : !w->i->lockEx; };
    while (!ok(&w)) {
        if (op_ & LOCK_NB) { errno = EWOULDBLOCK; return -1; }
        if (eintr("flock_eintr")) return -1;
        block("flock", ok, &w, NEVER);
    }
    l.push_back(f); i->lockEx = m == LOCK_EX; point(-1); return 0;
}
int sim_dup(int fd) { point(-1); OFile *f = F(fd); if (!f) return -1; if (fault("open_fail")) { errno = EMFILE; return -1; } return allocFd(f); }
int sim_dup2(int a, int b) { point(-1); OFile *f = F(a); if (!f) return -1; if (a == b) return b; if (b < 0 || b >= MAXFD) { errno = EBADF; return -1; } if (g_fd[b]) { OFile *o = g_fd[b]; g_fd[b] = nullptr; dropFile(o); } g_fd[b] = f; P()->cx[b] = false; f->ref++; return b; }
int sim_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    OFile *f = F(fd); if (!f) return -1;
    switch (cmd) { case F_GETFL: return f->flags; case F_SETFL: f->flags = (f->flags & ~(O_NONBLOCK | O_APPEND)) | (arg & (O_NONBLOCK | O_APPEND)); return 0; case F_GETFD: return P()->cx[fd] ? FD_CLOEXEC : 0; case F_SETFD: P()->cx[fd] = arg & FD_CLOEXEC; return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: point(-1); if (fault("open_fail")) { errno = EMFILE; return -1; } return allocFd(f, cmd == F_DUPFD_CLOEXEC, (int)arg); }
    errno = EINVAL; return -1;
}
int sim_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return sim_fcntl(fd, cmd, arg); }
void *sim_mmap(void *, size_t n, int prot, int fl, int fd, off_t off) {
    Op op; 
    if (!n) { errno = EINVAL; return MAP_FAILED; }
    if (fault("mmap_fail")) { errno = ENOMEM; return MAP_FAILED; }
    size_t r = (n + 4095) & ~4095ull; char *p = nullptr;
    if ((fl & MAP_ANONYMOUS) || !(g_shmMode && (fl & MAP_SHARED))) { p = (char *)rawAlloc(r + 4096); p = (char *)(((uintptr_t)p + 4095) & ~4095ull); memset(p, 0, r); }
    if (fl & MAP_ANONYMOUS) return p;
    OFile *f = F(fd); if (!f || f->kind != 0) { errno = EBADF; return MAP_FAILED; }
    if (f->ino->kind != 0) { errno = ENODEV; return MAP_FAILED; }
    if (off & 4095) { errno = EINVAL; return MAP_FAILED; }
    int acc = f->flags & O_ACCMODE;
    if (acc == O_WRONLY || ((fl & MAP_SHARED) && (prot & PROT_WRITE) && acc != O_RDWR)) { errno = EACCES; return MAP_FAILED; }
    MapReg *m = mk<MapReg>(); m->addr = p; m->len = n; m->off = off; m->ino = f->ino; m->shared = fl & MAP_SHARED; m->wr = prot & PROT_WRITE; m->proc = P();
    if (!p) { // processes see the same memory
        Inode *i = f->ino; flushMaps(i); m->wr = true;
        if (off + r > 65536) unsupported("shared mapping of more than 64 KB");
        if (!i->shm) { char *q = (char *)rawAlloc(65536 + 4096); q = (char *)(((uintptr_t)q + 4095) & ~4095ull); i->shm = q; i->shmCap = 65536; memset(q, 0, 65536); }
        m->addr = i->shm + off; bool first = i->maps.empty(); i->maps.push_back(m); shmProt(i);
        if (first) { memset(i->shm, 0, (std::min(i->data.size(), i->shmCap) + 4095) & ~(size_t)4095); loadMaps(i); }
        logf("mmap(%d) shared %zu bytes", fd, n);
        return m->addr;
    }
    flushMaps(f->ino);
    size_t sz = f->ino->data.size(); if (off < (off_t)sz) memcpy(p, &f->ino->data[off], std::min(n, sz - (size_t)off));
    f->ino->maps.push_back(m);
    return p;
}
void *sim_mmap64(void *a, size_t n, int p, int fl, int fd, off_t off) { return sim_mmap(a, n, p, fl, fd, off); }
static void unmapOrSync(void *a, bool un) {
    for (auto i : *g_inodes) for (size_t k = 0; k < i->maps.size(); k++) if (i->maps[k]->addr == a && i->maps[k]->proc == P()) { flushMaps(i); if (un) { i->maps.erase(i->maps.begin() + k); shmProt(i); } else inoSync(i); return; }
}
int sim_munmap(void *a, size_t) { Op op; unmapOrSync(a, true); return 0; }
int sim_msync(void *a, size_t, int) { Op op; unmapOrSync(a, false); return 0; }
int sim_mlock(const void *, size_t) { return 0; }
int sim_munlock(const void *, size_t) { return 0; }
// ------------------------------------------------------------ pipes
int sim_pipe2(int *fds, int fl) {
    Op op;
    if (fault("open_fail")) { errno = EMFILE; return -1; }
    Pipe *p = mk<Pipe>(); static const int caps[] = {65536, 4096, 64, 7, 1}; p->cap = g_pipeCap ? g_pipeCap : caps[choose("E.pipecap", 5, 0, 1, 2)]; p->readers = p->writers = 1;
    OFile *r = newFile(1, O_RDONLY | (fl & O_NONBLOCK), "pipe"), *w = newFile(2, O_WRONLY | (fl & O_NONBLOCK), "pipe"); r->pipe = w->pipe = p;
    int a = allocFd(r, fl & O_CLOEXEC); if (a < 0) return -1; int b = allocFd(w, fl & O_CLOEXEC); if (b < 0) { g_fd[a] = nullptr; errno = EMFILE; return -1; }
    touch(fds, 8, true); fds[0] = a; fds[1] = b; return 0;
}
int sim_pipe(int *fds) { return sim_pipe2(fds, 0); }
// ------------------------------------------------------------ poll / epoll / select
struct PW { struct pollfd *p; nfds_t n; };
static int pollScan(PW *w, bool store) {
    int c = 0;
    for (nfds_t i = 0; i < w->n; i++) {
        int r = 0; struct pollfd &p = w->p[i];
        if (p.fd >= 0) { if (p.fd >= MAXFD || !g_fd[p.fd]) r = POLLNVAL; else r = readiness(g_fd[p.fd]) & (p.events | POLLERR | POLLHUP); }
        if (store) p.revents = (short)r;
        if (r) c++;
    }
    return c;
}
int sim_poll(struct pollfd *p, nfds_t n, int tm) {
    Op op; touch(p, n * sizeof *p, true);
    if (eintr("poll_eintr")) return -1;
    PW w{p, n}; int c = pollScan(&w, true);
    if (c || tm == 0) return c;
    block("poll", [](void *a) { return pollScan((PW *)a, false) > 0; }, &w, tm < 0 ? NEVER : g_now + (uint64_t)tm * 1000000ull);
    c = pollScan(&w, true);
    return c;
}
int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    Op op;
    if (eintr("poll_eintr")) return -1;
    struct pollfd ps[FD_SETSIZE]; nfds_t c = 0;
    for (int i = 0; i < n; i++) { int ev = (r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0) | (e && FD_ISSET(i, e) ? POLLPRI : 0); if (ev) { if (!F(i)) return -1; ps[c].fd = i; ps[c].events = (short)ev; ps[c++].revents = 0; } }
    PW pw{ps, c}; if (!pollScan(&pw, true) && !(tv && !tv->tv_sec && !tv->tv_usec)) { block("select", [](void *a) { return pollScan((PW *)a, false) > 0; }, &pw, tv ? g_now + tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull : NEVER); pollScan(&pw, true); }
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e);
    int cnt = 0;
    for (nfds_t i = 0; i < c; i++) { if (r && (ps[i].events & POLLIN) && (ps[i].revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(ps[i].fd, r); cnt++; } if (w && (ps[i].events & POLLOUT) && (ps[i].revents & (POLLOUT | POLLERR))) { FD_SET(ps[i].fd, w); cnt++; } }
    return cnt;
}
int sim_epoll_create1(int fl) { point(-1); if (fault("open_fail")) { errno = EMFILE; return -1; } OFile *f = newFile(4, 0, "epoll"); f->ep = mk<Ep>(); return allocFd(f, fl & EPOLL_CLOEXEC); }
int sim_epoll_ctl(int efd, int o, int fd, struct epoll_event *ev) {
    point(-1); OFile *e = F(efd); if (!e) return -1; OFile *f = F(fd); if (!f) return -1;
    if (e->kind != 4) { errno = EINVAL; return -1; }
    if (f->kind == 0) { errno = EPERM; return -1; }
    auto &it = e->ep->it; size_t k = 0; while (k < it.size() && !(it[k].f == f && it[k].fd == fd)) k++;
    if (o == EPOLL_CTL_ADD) { if (k < it.size()) { errno = EEXIST; return -1; } if (fault("epoll_fail")) { errno = ENOSPC; return -1; } it.push_back(EpItem{f, fd, ev->events, true, ev->data}); return 0; }
    if (k == it.size()) { errno = ENOENT; return -1; }
    if (o == EPOLL_CTL_MOD) { it[k].ev = ev->events; it[k].armed = true; it[k].data = ev->data; return 0; }
    it.erase(it.begin() + k); return 0;
}
static int epReady(EpItem &e) { return e.armed ? readiness(e.f) & ((int)(e.ev & 0xffff) | POLLERR | POLLHUP) : 0; }
int sim_epoll_wait(int efd, struct epoll_event *out, int max, int tm) {
    Op op; OFile *e = F(efd); if (!e) return -1; if (e->kind != 4 || max <= 0) { errno = EINVAL; return -1; }
    touch(out, sizeof *out * max, true);
    if (eintr("poll_eintr")) return -1;
    Ep *ep = e->ep;
    auto any = [](void *a) { for (auto &i : ((Ep *)a)->it) if (epReady(i)) return true; return false; };
    if (!any(ep)) { if (!tm) return 0; block("epoll_wait", any, ep, tm < 0 ? NEVER : g_now + (uint64_t)(unsigned)tm * 1000000ull); }
    if (F(efd) != e) { errno = EBADF; return -1; }
    int n = 0; size_t sz = ep->it.size(); if (!sz) return 0;
    size_t st = choose("V.epoll", (int)sz, 0, 1, 2);
    for (size_t q = 0; q < sz && n < max; q++) { EpItem &i = ep->it[(st + q) % sz]; int r = epReady(i); if (!r) continue; out[n].events = r; out[n].data = i.data; n++; if (i.ev & EPOLLONESHOT) i.armed = false; }
    return n;
}
// ------------------------------------------------------------ sockets
int sim_socket(int dom, int type, int) {
    Op op; if (fault("open_fail")) { errno = EMFILE; return -1; }
    if (dom != AF_INET && dom != AF_INET6) { errno = EAFNOSUPPORT; return -1; }
    Sock *s = mk<Sock>(); s->id = ++g_sockId; s->fam = dom; s->type = type & 15; memset(&s->la, 0, sizeof s->la); memset(&s->pa, 0, sizeof s->pa); s->la.ss_family = s->pa.ss_family = dom;
    OFile *f = newFile(3, type & SOCK_NONBLOCK ? O_NONBLOCK | O_RDWR : O_RDWR, s->type == SOCK_STREAM ? "tcp" : "udp"); f->sk = s; int fd = allocFd(f, type & SOCK_CLOEXEC); if (fd >= 0) g_socks->push_back(s);
    logf("socket = %d", fd);
    return fd;
}
static Sock *SK(int fd, OFile **o = nullptr) { OFile *f = F(fd); if (!f) return nullptr; if (f->kind != 3) { errno = ENOTSOCK; return nullptr; } if (o) *o = f; settleConn(f->sk); return f->sk; }
static void setPort(struct sockaddr_storage &a, int port) { if (a.ss_family == AF_INET) ((struct sockaddr_in *)&a)->sin_port = htons(port); else ((struct sockaddr_in6 *)&a)->sin6_port = htons(port); }
static void autobind(Sock *s) { if (s->bound) return; s->bound = true; s->port = g_ephem++; s->lal = s->fam == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6); s->la.ss_family = s->fam; if (s->fam == AF_INET) ((sockaddr_in *)&s->la)->sin_addr.s_addr = htonl(INADDR_LOOPBACK); else ((sockaddr_in6 *)&s->la)->sin6_addr.s6_addr[15] = 1; setPort(s->la, s->port); }
int sim_bind(int fd, const struct sockaddr *a, socklen_t n) {
    Op op; Sock *s = SK(fd); if (!s) return -1;
    if (fault("bind_fail")) { errno = EADDRINUSE; return -1; }
    int port = portOf(a);
    if (port) for (auto o : *g_socks) if (o != s && o->bound && o->port == port && o->type == s->type && (o->type == SOCK_DGRAM || o->st == 1)) { errno = EADDRINUSE; return -1; }
    memcpy(&s->la, a, n); s->lal = n; s->bound = true; s->port = port ? port : g_ephem++; setPort(s->la, s->port); return 0;
}
int sim_listen(int fd, int bl) { Op op; Sock *s = SK(fd); if (!s) return -1; if (fault("bind_fail")) { errno = EADDRINUSE; return -1; } autobind(s); s->st = 1; s->backMax = bl < 1 ? 1 : bl; return 0; }
int sim_connect(int fd, const struct sockaddr *a, socklen_t n) {
    Op op; OFile *f; Sock *s = SK(fd, &f); if (!s) return -1;
    if (s->type == SOCK_DGRAM) { memcpy(&s->pa, a, n); s->pal = n; autobind(s); return 0; }
    if (s->st == 2) { errno = EALREADY; return -1; } if (s->st == 3) { errno = EISCONN; return -1; } if (s->st != 0) { errno = ECONNABORTED; return -1; }
    autobind(s); memcpy(&s->pa, a, n); s->pal = n;
    int lb = lastByte(a);
    if (fault("net_unreach")) { errno = ENETUNREACH; return -1; }
    Sock *l = lb == 9 ? nullptr : findListener(a, n, portOf(a));
    bool hole = g_blackhole || lb == 8 || fault("net_blackhole");
    s->st = 2;
    if (hole) { s->estErr = ETIMEDOUT; s->estT = g_now + 127000000000ull; }
    else if (!l || (int)l->back.size() >= l->backMax + 1 || fault("net_refuse")) { s->estErr = ECONNREFUSED; s->estT = g_now + 2 * lat(); }
    else {
        Sock *c = mk<Sock>(); c->id = ++g_sockId; c->fam = l->fam; c->type = SOCK_STREAM; c->la = l->la; c->lal = l->lal; c->port = l->port; c->bound = true; c->pa = s->la; c->pal = s->lal; c->st = 3;
        c->peer = s; s->peer = c; uint64_t d = lat(); s->estT = g_now + 2 * d; s->estErr = 0;
        uint64_t bt = g_now + d; if (!l->back.empty() && l->back.back().t > bt) bt = l->back.back().t;
        l->back.push_back(Backlog{bt, c}); if (bt > g_now) wakeAt(bt);
        c->in.lastT = bt; s->in.lastT = s->estT;
        mix(0xc0 + c->id);
    }
    if (s->estT > g_now) wakeAt(s->estT);
    settleConn(s);
    if (s->st == 3) { point(-1); return 0; }
    if (f->flags & O_NONBLOCK) { if (s->st == 4) { errno = s->err; s->err = 0; return -1; } errno = EINPROGRESS; return -1; }
    if (s->st == 2) block("connect", [](void *x) { settleConn((Sock *)x); return ((Sock *)x)->st != 2; }, s, NEVER);
    if (s->st == 3) return 0;
    errno = s->err ? s->err : ECONNREFUSED; s->err = 0; return -1;
}
int sim_accept4(int fd, struct sockaddr *a, socklen_t *n, int fl) {
    Op op; OFile *f; Sock *s = SK(fd, &f); if (!s) return -1;
    if (eintr("accept_eintr")) return -1;
    if (s->st != 1) { errno = EINVAL; return -1; }
    while (!(readiness(f) & POLLIN)) { if (f->flags & O_NONBLOCK) { errno = EAGAIN; return -1; } waitFor(f, POLLIN | POLLHUP, "accept"); if (s->closed || s->st != 1) { errno = EINVAL; return -1; } }
    if (fault("open_fail")) { errno = EMFILE; return -1; }
    Sock *c = s->back.front().s;
    if (fault("accept_abort")) { s->back.pop_front(); sendRst(c->peer); if (c->peer) c->peer->peer = nullptr; c->closed = true; errno = ECONNABORTED; return -1; }
    OFile *o = newFile(3, O_RDWR | (fl & SOCK_NONBLOCK ? O_NONBLOCK : 0), "tcp"); o->sk = c; int r = allocFd(o, fl & SOCK_CLOEXEC); if (r < 0) return -1;
    s->back.pop_front(); g_socks->push_back(c);
    if (a) { socklen_t m = std::min(*n, c->pal); touch(a, m, true); memcpy(a, &c->pa, m); *n = c->pal; }
    logf("accept4(%d) = %d", fd, r);
    return r;
}
int sim_accept(int fd, struct sockaddr *a, socklen_t *n) { return sim_accept4(fd, a, n, 0); }
static size_t dgFirst(Sock *s) { size_t b = s->dq.size(); for (size_t k = 0; k < s->dq.size(); k++) if (s->dq[k].t <= g_now && (b == s->dq.size() || s->dq[k].t < s->dq[b].t)) b = k; return b; }
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al) {
    Op op; OFile *f; Sock *s = SK(fd, &f); if (!s) return -1;
    if (eintr()) return -1;
    bool nb = (f->flags & O_NONBLOCK) || (fl & MSG_DONTWAIT);
    if (s->type == SOCK_DGRAM) {
        for (;;) {
            size_t k = dgFirst(s);
            if (k < s->dq.size()) {
                Dgram d = s->dq[k]; if (!(fl & MSG_PEEK)) s->dq.erase(s->dq.begin() + k);
                size_t m = std::min(n, d.d.size()); touch(b, m, true); if (m) memcpy(b, d.d.data(), m);
                if (a) { socklen_t q = std::min(*al, d.fromlen); memcpy(a, &d.from, q); *al = d.fromlen; }
                if (!(fl & MSG_PEEK)) logf("recvfrom(%d) %d of %d bytes", fd, (int)m, (int)d.d.size());
                return (fl & MSG_TRUNC) ? (ssize_t)d.d.size() : (ssize_t)m;
            }
            if (nb) { errno = EAGAIN; return -1; }
            waitFor(f, POLLIN, "recvfrom");
        }
    }
    if (s->st == 0 || s->st == 1) { errno = ENOTCONN; return -1; }
    for (;;) {
        settleConn(s);
        size_t av = avail(s->in);
        if (av && !s->shutRd) {
            size_t m = std::min(n, av); if (m > 1 && fault("net_short")) m = 1 + choose("V.net_short", (int)std::min(m - 1, (size_t)4096), 0, 3, 4);
            touch(b, m, true); if (s->shutRd || avail(s->in) < m) continue; // read by somebody else meanwhile
            size_t done = 0, k = 0;
            while (done < m) { Seg &g = (fl & MSG_PEEK) ? s->in.q[k] : s->in.q.front(); size_t q = std::min(m - done, g.d.size()); memcpy((char *)b + done, g.d.data(), q); done += q; if (fl & MSG_PEEK) { k++; continue; } s->in.bytes -= q; if (q == g.d.size()) s->in.q.pop_front(); else g.d.erase(0, q); }
            if (!(fl & MSG_PEEK)) mix(m);
            point(-1); return m;
        }
        if (s->err) { errno = s->err; s->err = 0; return -1; }
        if (finArrived(s->in) || s->shutRd || s->st == 4) return 0;
        if (s->st == 2 && nb) { errno = EAGAIN; return -1; }
        if (nb) { errno = EAGAIN; return -1; }
        waitFor(f, POLLIN | POLLERR | POLLHUP, "recv");
        if (!(readiness(f) & POLLIN) && eintr()) return -1;
    }
}
ssize_t sim_recv(int fd, void *b, size_t n, int fl) { return sim_recvfrom(fd, b, n, fl, nullptr, nullptr); }
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al) {
    Op op; OFile *f; Sock *s = SK(fd, &f); if (!s) return -1;
    if (s->type != SOCK_DGRAM && eintr()) return -1;
    bool nb = (f->flags & O_NONBLOCK) || (fl & MSG_DONTWAIT);
    if (s->type == SOCK_DGRAM) {
        if (!a) { if (!s->pal) { errno = EDESTADDRREQ; return -1; } a = (struct sockaddr *)&s->pa; al = s->pal; }
        autobind(s); touch(b, n, false); int port = portOf(a);
        if (n > 65507) { errno = EMSGSIZE; return -1; }
        int copies = 1; if (fault("udp_loss")) copies = 0; else if (fault("udp_dup")) copies = 2;
        for (auto o : *g_socks) if (o->type == SOCK_DGRAM && o->port == port && !o->closed) for (int k = 0; k < copies; k++) { Dgram d; d.t = g_now + lat() + (fault("udp_reorder") ? 3000000 : 0); d.d.assign((const char *)b, n); d.from = s->la; d.fromlen = s->lal; if (d.from.ss_family == AF_INET6) { auto q = (sockaddr_in6 *)&d.from; if (!lastByte((struct sockaddr *)q)) q->sin6_addr.s6_addr[15] = 1; } o->dq.push_back(d); if (d.t > g_now) wakeAt(d.t); }
        logf("sendto(%d) port %d, %d bytes, %d copies", fd, port, (int)n, copies);
        return n;
    }
    if (s->st == 0 || s->st == 1) { errno = ENOTCONN; return -1; }
    if (fault("net_rst")) { sendRst(s->peer); s->rstT = g_now; s->st = 4; s->rstSeen = true; s->err = 0; if (s->peer) { s->peer->peer = nullptr; s->peer = nullptr; } errno = ECONNRESET; return -1; }
    size_t done = 0;
    while (done < n || !n) {
        settleConn(s);
        if (s->st == 2) { if (nb) { errno = EAGAIN; return -1; } waitFor(f, POLLOUT | POLLERR | POLLHUP, "send"); continue; }
        if (s->err) { if (done) break; errno = s->err; s->err = 0; return -1; }
        if (s->shutWr || s->st == 4) { if (done) break; if (!(fl & MSG_NOSIGNAL) && g_active) violation("sigpipe", "writing to a connection closed by the other side kills the process (SIGPIPE)"); errno = EPIPE; return -1; }
        if (!n) return 0;
        if (!s->peer) { // peer has closed: data disappears, reset comes back
            uint64_t t = g_now + 2 * lat(); if (s->rstT == NEVER) { s->rstT = t; if (t > g_now) wakeAt(t); } done = n; break;
        }
        size_t room = space(s);
        if (!room) {
            if (nb) { if (done) break; errno = EAGAIN; return -1; }
            waitFor(f, POLLOUT | POLLERR | POLLHUP, "send");
            if (fault("io_eintr")) { if (done) break; errno = EINTR; return -1; }
            continue;
        }
        size_t m = std::min(room, n - done); if (m > 1 && fault("net_short")) m = 1 + choose("V.net_short", (int)std::min(m - 1, (size_t)4096), 0, 3, 4);
        touch((const char *)b + done, m, false); if (!s->peer || s->st != 3) continue; // closed meanwhile
        push(s->peer->in, s, (const char *)b + done, m, false); done += m; s->sent += m;
        if (nb) break;
    }
    point(-1); return done;
}
ssize_t sim_send(int fd, const void *b, size_t n, int fl) { return sim_sendto(fd, b, n, fl, nullptr, 0); }
int sim_shutdown(int fd, int how) {
    Op op; Sock *s = SK(fd); if (!s) { if (g_active && errno == EBADF && fd >= 0) violation("closed-twice", "shutdown(%d): the descriptor is not open", fd); return -1; }
    if (s->st != 3) { errno = ENOTCONN; return -1; }
    if ((how == SHUT_WR || how == SHUT_RDWR) && !s->shutWr) { s->shutWr = true; if (s->peer) push(s->peer->in, s, nullptr, 0, true); }
    if (how == SHUT_RD || how == SHUT_RDWR) s->shutRd = true;
    point(-1); return 0;
}
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *n) { Sock *s = SK(fd); if (!s) return -1; if (!s->bound) { s->lal = s->fam == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6); } socklen_t m = std::min(*n, s->lal); memcpy(a, &s->la, m); *n = s->lal; return 0; }
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *n) { Sock *s = SK(fd); if (!s) return -1; if (s->st != 3) { errno = ENOTCONN; return -1; } socklen_t m = std::min(*n, s->pal); memcpy(a, &s->pa, m); *n = s->pal; return 0; }
int sim_getsockopt(int fd, int lv, int o, void *v, socklen_t *) { point(-1); Sock *s = SK(fd); if (!s) return -1; if (lv == SOL_SOCKET && o == SO_ERROR) { *(int *)v = s->err; s->err = 0; } else *(int *)v = 0; return 0; }
int sim_setsockopt(int fd, int, int, const void *, socklen_t) { Sock *s = SK(fd); if (!s) return -1; return 0; }
int sim_ioctl(int fd, unsigned long rq, ...) {
    va_list ap; va_start(ap, rq); void *arg = va_arg(ap, void *); va_end(ap);
    point(-1); OFile *f = F(fd); if (!f) return -1;
    if (rq == FIONBIO) { if (*(int *)arg) f->flags |= O_NONBLOCK; else f->flags &= ~O_NONBLOCK; return 0; }
    if (rq == FIONREAD) {
        int n = 0;
        if (f->kind == 1) n = (int)f->pipe->q.size();
        else if (f->kind == 3) { Sock *s = f->sk; settleConn(s); if (s->type == SOCK_DGRAM) { size_t k = dgFirst(s); if (k < s->dq.size()) n = (int)s->dq[k].d.size(); } else if (s->st == 1) { errno = EINVAL; return -1; } else n = s->shutRd ? 0 : (int)avail(s->in); }
        else if (f->kind == 0) n = (int)(f->ino->data.size() - std::min((size_t)f->pos, f->ino->data.size()));
        *(int *)arg = n; return 0;
    }
    errno = ENOTTY; return -1;
}
int sim_getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res) {
    Op op;
    if (fault("resolve_fail")) return EAI_AGAIN;
    int fam = h ? h->ai_family : AF_UNSPEC; int port = 0;
    if (svc) { char *e; port = (int)strtol(svc, &e, 10); if (*e) { if (!strcmp(svc, "http")) port = 80; else return EAI_SERVICE; } if (port < 0 || port > 65535) return EAI_SERVICE; }
    struct A { int fam; unsigned v4; int v6last; } as[3]; int n = 0; bool passive = h && (h->ai_flags & AI_PASSIVE);
    struct in_addr ia; struct in6_addr i6;
    if (!node) { if (fam == AF_INET6) as[n++] = A{AF_INET6, 0, passive ? 0 : 1}; else as[n++] = A{AF_INET, passive ? 0u : (unsigned)INADDR_LOOPBACK, 0}; }
    else if (inet_pton(AF_INET, node, &ia) == 1) as[n++] = A{AF_INET, ntohl(ia.s_addr), 0};
    else if (inet_pton(AF_INET6, node, &i6) == 1) as[n++] = A{AF_INET6, 0, i6.s6_addr[15]};
    else if (!strcmp(node, "localhost") || !strcmp(node, "server")) { if (fam == AF_INET6) as[n++] = A{AF_INET6, 0, 1}; else as[n++] = A{AF_INET, INADDR_LOOPBACK, 0}; }
    else if (!strcmp(node, "multi")) { as[n++] = A{AF_INET, INADDR_LOOPBACK - 1 + 9, 0}; as[n++] = A{AF_INET, INADDR_LOOPBACK, 0}; }
    else if (!strcmp(node, "0")) as[n++] = A{AF_INET, 0, 0};
    else return EAI_NONAME;
    struct addrinfo *head = nullptr, **t = &head;
    for (int i = 0; i < n; i++) {
        struct addrinfo *x = (struct addrinfo *)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in6));
        x->ai_family = as[i].fam; x->ai_socktype = h ? h->ai_socktype : SOCK_STREAM; x->ai_protocol = x->ai_socktype == SOCK_DGRAM ? IPPROTO_UDP : IPPROTO_TCP; x->ai_flags = h ? h->ai_flags : 0; x->ai_addr = (struct sockaddr *)(x + 1);
        if (as[i].fam == AF_INET) { auto s = (sockaddr_in *)x->ai_addr; s->sin_family = AF_INET; s->sin_port = htons(port); s->sin_addr.s_addr = htonl(as[i].v4); x->ai_addrlen = sizeof *s; }
        else { auto s = (sockaddr_in6 *)x->ai_addr; s->sin6_family = AF_INET6; s->sin6_port = htons(port); s->sin6_addr.s6_addr[15] = as[i].v6last; x->ai_addrlen = sizeof *s; }
        *t = x; t = &x->ai_next;
    }
    *res = head; return 0;
}
void sim_freeaddrinfo(struct addrinfo *a) { while (a) { struct addrinfo *n = a->ai_next; free(a); a = n; } }
int sim_getnameinfo(const struct sockaddr *a, socklen_t, char *h, socklen_t hn, char *s, socklen_t sn, int) {
    if (h && hn) { if (a->sa_family == AF_INET) inet_ntop(AF_INET, &((sockaddr_in *)a)->sin_addr, h, hn); else inet_ntop(AF_INET6, &((sockaddr_in6 *)a)->sin6_addr, h, hn); }
    if (s && sn) snprintf(s, sn, "%d", portOf(a));
    return 0;
}
}

namespace sim {
void fsMkdir(const char *path) {
    init(); rstr p; const char *s = path;
    while (*s) { while (*s == '/') s++; const char *e = s; while (*e && *e != '/') e++; if (e == s) break; rstr name(s, e - s); Inode *d = p.empty() ? g_root : look(p.c_str()); p += "/" + name; if (!d->ents.count(name)) { Inode *i = newInode(1, 0755); setEnt(d, name, i, false); } s = e; }
}
void fsPut(const char *path, const std::string &data) {
    init(); std::string p(path); size_t k = p.rfind('/'); if (k != std::string::npos && k) fsMkdir(p.substr(0, k).c_str());
    rstr last; Inode *d; Inode *i = look(path, &last, &d); if (!i) { i = newInode(0, 0644); setEnt(d, last, i, false); }
    i->data = rstr(data.data(), data.size()); i->sdata = i->data; i->pend.clear();
}
bool fsGet(const char *path, std::string &out) { Inode *i = look(path); if (!i || i->kind == 1) return false; flushMaps(i); out.assign(i->data.data(), i->data.size()); return true; }
bool fsExists(const char *path) { return look(path, nullptr, nullptr, false) != nullptr; }
std::string fsType(const char *path) { Inode *i = look(path, nullptr, nullptr, false); return !i ? "" : i->kind == 0 ? "file" : i->kind == 1 ? "dir" : "link"; }
std::vector<std::string> fsList(const char *dir) { std::vector<std::string> v; Inode *i = look(dir); if (i && i->kind == 1) for (auto &e : i->ents) v.push_back(std::string(e.first.data(), e.first.size())); return v; }
static void treeOf(Inode *d, const std::string &pre, std::string &o) { for (auto &e : d->ents) { std::string n = pre + "/" + std::string(e.first.data(), e.first.size()); Inode *i = e.second; if (i->kind == 1) { o += n + "/\n"; treeOf(i, n, o); } else if (i->kind == 2) o += n + " -> " + i->data.c_str() + "\n"; else { o += n + " = "; o.append(i->data.data(), i->data.size()); o += "\n"; } } }
std::string fsTree(const char *dir) { std::string o; Inode *i = look(dir); if (i && i->kind == 1) treeOf(i, "", o); return o; }
void fsCapacity(uint64_t b) { init(); g_cap = b; }
void fsXdev(const char *dir) { Inode *i = look(dir); if (i) i->dev = i->id; }
int openFds() { init(); int n = 0; for (int i = 3; i < MAXFD; i++) if (g_fd[i]) n++; return n; }
std::string openFdNames() { std::string s; for (int i = 3; i < MAXFD; i++) if (g_fd[i]) { char b[300]; snprintf(b, sizeof b, " %d:%s(fiber %d)", i, g_fd[i]->name.c_str(), g_fd[i]->owner); s += b; } return s; }
std::string stdioText(int fd) { init(); return std::string(g_std[fd]->data(), g_std[fd]->size()); }
void dieHere() { g_crashPower = false; crashHere(); }
bool crashedNow() { return g_crashed; }
int ioOps() { return g_ops; }
bool runUntilCrash(const std::function<void()> &fn, int maxOps, bool power) {
    init(); g_crashPower = power;
    int at = choose("crash.at", maxOps + 1, 0, 0, 0);
    g_crashed = false; g_crashLo = rt::g_nfib; g_crashIn = at;
    int id = spawn("process", fn);
    point(-1);
    struct W { int id; } w{id};
    while (!g_crashed && g_fib[id].state != 3) block("process", [](void *a) { return g_crashed || g_fib[((W *)a)->id].state == 3; }, &w, NEVER);
    g_crashIn = 0; g_crashLo = -1;
    bool r = g_crashed; g_crashed = false; return r;
}
void netLatency(int a, int b) { init(); g_latMin = a; g_latMax = b < a ? a : b; }
void netBuffer(int n) { init(); g_netBuf = n; }
void pipeCapacity(int n) { init(); g_pipeCap = n; }
void netBlackhole(bool on) { init(); g_blackhole = on; }
void netReset(int fd) {
    init();
    if (fd < 0) return;
    OFile *f = g_fd[fd]; if (!f || f->kind != 3) return; Sock *s = f->sk;
    sendRst(s->peer); sendRst(s); if (s->peer) { s->peer->peer = nullptr; s->peer = nullptr; }
}
int netConnections() { init(); int n = 0; for (auto s : *g_socks) if (s->st == 3) n++; return n; }
}

// ------------------------------------------------------------ processes
extern "C" int rt_vforkResume(void **regs, uintptr_t sp, long val);
asm(R"(
.text
.globl sim_vfork
.type sim_vfork,@function
sim_vfork:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,%rdi
  subq $8,%rsp
  call sim_vfork_c
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_vfork,.-sim_vfork
.globl sim_fork
.set sim_fork,sim_vfork
.globl rt_vforkResume
.type rt_vforkResume,@function
rt_vforkResume:
  movq %rsi,%rsp
  movq 0(%rdi),%r15
  movq 8(%rdi),%r14
  movq 16(%rdi),%r13
  movq 24(%rdi),%r12
  movq 32(%rdi),%rbx
  movq 40(%rdi),%rbp
  movq 48(%rdi),%rcx
  movq %rdx,%rax
  jmp *%rcx
.size rt_vforkResume,.-rt_vforkResume
)");
struct Program { rstr path; sim::ProgramFn fn; };
static rvec<Program *> *g_progs;
static Program *findProgram(const char *path) { if (g_progs) for (auto p : *g_progs) if (p->path == path) return p; return nullptr; }
static Proc *procOf(int pid) { init(); for (auto p : *g_procs) if (p->pid == pid && p->state != 2) return p; return nullptr; }
static Proc *newProc(Proc *from, bool inherit) {
    Proc *c = mk<Proc>(); c->pid = g_nextPid++; c->ppid = from->pid; c->cwd = from->cwd;
    for (int i = 0; i < (inherit ? (int)MAXFD : 3); i++) if (from->fd[i]) { c->fd[i] = from->fd[i]; c->cx[i] = from->cx[i]; from->fd[i]->ref++; }
    g_procs->push_back(c); return c;
}
enum : uint64_t { B_CHLD = 1ull << (SIGCHLD - 1), B_TERM = 1ull << (SIGTERM - 1) };
static void sigchld(Proc *parent, Fiber *forker) {
    // Linux: a signal with default action "ignore" is dropped unless the thread which made the child blocks it
    bool blocked = forker && forker->state != 3 && (forker->proc ? (Proc *)forker->proc : g_rootProc) == parent ? forker->sigmask & B_CHLD : false;
    if (!forker || forker->state == 3) for (int i = 0; i < g_nfib; i++) { Fiber &f = g_fib[i]; if (f.state && f.state != 3 && (f.proc ? (Proc *)f.proc : g_rootProc) == parent) { blocked = f.sigmask & B_CHLD; break; } }
    if (!blocked) { logf("SIGCHLD for %d ignored", parent->pid); return; }
    // a thread of the process which does not block it may swallow it
    for (int i = 0; i < g_nfib; i++) { Fiber &f = g_fib[i]; if (f.state && f.state != 3 && (f.proc ? (Proc *)f.proc : g_rootProc) == parent && !(f.sigmask & B_CHLD) && !(f.sigwait & B_CHLD)) { if (choose("V.sigchld", 2, 0, 1, 2)) { countFault("sigchld_eaten"); return; } break; } }
    parent->chldPend = true;
}
static void procDead(Proc *p, int status) {
    p->status = status; p->state = 1; p->exitT = g_now;
    logf("process %d ends with status %x", p->pid, status); mix(0x9e0c ^ p->pid ^ (uint64_t)status << 20);
    for (auto i : *g_inodes) for (size_t k = 0; k < i->maps.size();) if (i->maps[k]->proc == p) { flushMaps(i); i->maps.erase(i->maps.begin() + k); shmProt(i); } else k++;
    for (int i = 0; i < MAXFD; i++) if (p->fd[i]) { OFile *f = p->fd[i]; p->fd[i] = nullptr; dropFile(f); }
    for (auto c : *g_procs) if (c->ppid == p->pid && c != p) { c->ppid = 1; if (c->state == 1) c->state = 2; }
    Proc *par = p->ppid == 1 ? nullptr : procOf(p->ppid);
    if (!par || par->state) p->state = 2; else sigchld(par, p->forker);
}
static void procExit(Proc *p, int status) { if (p == g_rootProc || p->state) return; procDead(p, status); p->gone = true; rt::killProc(p); }
static void kernelOp() {
    Proc *p = P();
    if (p->killable && !p->vparent && fault("proc_kill")) { countFault("process_killed"); procExit(p, SIGKILL); }
}
static void vforkReturn(Proc *c, long val) {
    Proc *par = c->vparent; c->vparent = nullptr; g_cur->proc = par == g_rootProc ? nullptr : par; g_cur->depth = c->depth; g_quiet = c->quiet; g_cur->sigmask = c->vmask;
    rt_vforkResume(c->regs, c->vsp, val); __builtin_unreachable();
}
extern "C" {
long sim_vfork_c(void **frame) {
    if (!g_active) unsupported("fork outside of the simulation");
    Op op;
    if (fault("fork_fail")) { errno = choose("V.fork", 2, 0, 1, 2) ? ENOMEM : EAGAIN; return -1; }
    Proc *par = P(); Proc *c = newProc(par, true);
    memcpy(c->regs, frame, sizeof c->regs); c->vsp = (uintptr_t)(frame + 7); c->depth = g_cur->depth; c->quiet = g_quiet; c->vmask = g_cur->sigmask; c->vparent = par; c->forker = g_cur; c->name = "vfork";
    logf("vfork = %d", c->pid);
    g_cur->proc = c;
    return 0;
}
int sim_execve(const char *path, char *const argv[], char *const envp[]) {
    Op op; Proc *c = P(); if (!c->vparent) unsupported("execve without fork");
    Program *pr = findProgram(path);
    if (!pr) { errno = ENOENT; return -1; }
    if (fault("exec_fail")) { errno = choose("V.exec", 3, 0, 1, 2) == 1 ? ENOMEM : EACCES; return -1; }
    sim::ProcInfo *pi = new (rawAlloc(sizeof(sim::ProcInfo))) sim::ProcInfo(); pi->pid = c->pid;
    g_quiet++;   // strings of the new program are not heap of the tested one
    rvec<rstr> *av = mk<rvec<rstr>>(), *ev = mk<rvec<rstr>>();
    for (int i = 0; argv[i]; i++) av->push_back(argv[i]);
    for (int i = 0; envp && envp[i]; i++) ev->push_back(envp[i]);
    const char **a = (const char **)rawAlloc(sizeof(char *) * (av->size() + 1)), **e = (const char **)rawAlloc(sizeof(char *) * (ev->size() + 1));
    for (size_t i = 0; i < av->size(); i++) a[i] = (*av)[i].c_str(); a[av->size()] = nullptr;
    for (size_t i = 0; i < ev->size(); i++) e[i] = (*ev)[i].c_str(); e[ev->size()] = nullptr;
    pi->argc = (int)av->size(); pi->argv = a; pi->envp = e;
    for (int i = 0; i < MAXFD; i++) if (c->fd[i] && c->cx[i]) { OFile *f = c->fd[i]; c->fd[i] = nullptr; dropFile(f); }
    c->name = path; logf("exec(%s) in %d", path, c->pid);
    int id = newFiber("program", [c, pr, pi] { int code = pr->fn(*pi); procExit(c, (code & 255) << 8); });
    g_fib[id].proc = c; g_fib[id].sigmask = g_cur->sigmask;
    g_quiet--;
    int pid = c->pid; (void)pid;
    vforkReturn(c, c->pid);
    return 0;
}
void sim__exit(int code) {
    Proc *c = P();
    if (c == g_rootProc) unsupported("_exit");
    if (c->vparent) { Proc *par = c->vparent; (void)par; procDead(c, (code & 255) << 8); vforkReturn(c, c->pid); }
    procExit(c, (code & 255) << 8);
    for (;;) rt::block("dead process", [](void *) { return false; }, nullptr, NEVER);
}
pid_t sim_getpid() { init(); return P()->pid; }
pid_t sim_getppid() { init(); return P()->ppid; }
struct WP { Proc *par; int pid; Proc *found; bool any; };
static bool wpScan(void *a) { WP *w = (WP *)a; w->found = nullptr; w->any = false; for (auto p : *g_procs) if (p != w->par && p->ppid == w->par->pid && p->state != 2 && !p->vparent && (w->pid == -1 || w->pid == p->pid)) { w->any = true; if (p->state == 1) { w->found = p; break; } } return w->found || !w->any; }
pid_t sim_waitpid(pid_t pid, int *st, int fl) {
    Op op; init(); WP w{P(), pid, nullptr, false};
    if (fault("wait_eintr")) { errno = EINTR; return -1; }
    wpScan(&w);
    if (!w.any) { errno = ECHILD; return -1; }
    if (!w.found) {
        if (fl & WNOHANG) return 0;
        rt::block("waitpid", wpScan, &w, NEVER); wpScan(&w);
        if (!w.found) { errno = ECHILD; return -1; }
    }
    if (st) { touch(st, 4, true); wpScan(&w); if (!w.found) { errno = ECHILD; return -1; } *st = w.found->status; }
    w.found->state = 2; logf("waitpid = %d", w.found->pid); int r = w.found->pid; point(-1); return r;
}
int sim_kill(pid_t pid, int sig) {
    Op op; init();
    Proc *p = pid > 0 ? procOf(pid) : nullptr;
    if (!p || p->vparent) { if (pid <= 0) unsupported("kill of a process group"); errno = ESRCH; return -1; }
    logf("kill(%d,%d)", pid, sig);
    if (!sig || p->state == 1) return 0;
    if (p == g_rootProc) violation("kill-self", "signal %d sent to the own process", sig);
    if (sig == SIGTERM) {
        if (p->termIgn) return 0;
        bool open = false; for (int i = 0; i < g_nfib; i++) if (g_fib[i].proc == p && g_fib[i].state != 3 && !(g_fib[i].sigmask & B_TERM)) open = true;
        if (!open) { p->termPend = true; return 0; }
    }
    procExit(p, sig); return 0;
}
static int setMask(int how, const sigset_t *s, sigset_t *o) {
    if (!g_cur) return 0;
    if (o) { memset(o, 0, sizeof *o); memcpy(o, &g_cur->sigmask, 8); }
    if (s) { uint64_t m; memcpy(&m, s, 8); if (how == SIG_BLOCK) g_cur->sigmask |= m; else if (how == SIG_UNBLOCK) g_cur->sigmask &= ~m; else g_cur->sigmask = m; }
    init(); Proc *p = P(); if (p != g_rootProc && p->termPend && !(g_cur->sigmask & B_TERM)) procExit(p, SIGTERM);
    return 0;
}
int sim_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { return setMask(how, s, o); }
int sim_sigprocmask(int how, const sigset_t *s, sigset_t *o) { return setMask(how, s, o); }
int sim_sigtimedwait(const sigset_t *s, siginfo_t *, const struct timespec *t) {
    Op op; init(); uint64_t m; memcpy(&m, s, 8); if (m != B_CHLD) unsupported("sigtimedwait for other signals");
    if (t && (t->tv_nsec < 0 || t->tv_nsec >= 1000000000 || t->tv_sec < 0)) { errno = EINVAL; return -1; }
    uint64_t dl = NEVER; if (t) { unsigned __int128 d = (unsigned __int128)t->tv_sec * 1000000000ull + t->tv_nsec; dl = d > (1ull << 62) ? NEVER : g_now + (uint64_t)d; }
    if (fault("wait_eintr")) { errno = EINTR; return -1; }
    Proc *p = P();
    if (!p->chldPend) { g_cur->sigwait = m; rt::block("sigtimedwait", [](void *a) { return ((Proc *)a)->chldPend; }, p, dl); g_cur->sigwait = 0; }
    if (!p->chldPend) { errno = EAGAIN; return -1; }
    p->chldPend = false; return SIGCHLD;
}
int sim_sigwaitinfo(const sigset_t *s, siginfo_t *i) { return sim_sigtimedwait(s, i, nullptr); }
int sim_sigwait(const sigset_t *s, int *sig) { int r; do r = sim_sigtimedwait(s, nullptr, nullptr); while (r < 0 && errno == EINTR); if (r < 0) return errno; *sig = r; return 0; }
}
namespace sim {
void setProgram(const char *path, const ProgramFn &fn) { init(); Quiet q; if (!g_progs) g_progs = mk<rvec<Program *>>(); Program *p = findProgram(path); if (!p) { p = mk<Program>(); p->path = path; g_progs->push_back(p); } p->fn = fn; }
int startProcess(const std::function<int()> &fn, bool killable) {
    init(); Quiet q; rt::g_kernelOp = kernelOp;
    Proc *c = newProc(P(), false); c->killable = killable; c->name = "process"; c->forker = g_cur;
    int id = newFiber("process", [c, fn] { int code = fn(); c->killable = false; procExit(c, (code & 255) << 8); });
    g_fib[id].proc = c; return c->pid;
}
int currentPid() { init(); return P()->pid; }
int procState(int pid) { init(); for (auto p : *g_procs) if (p->pid == pid) return p->state; return -1; }
int procStatus(int pid) { init(); for (auto p : *g_procs) if (p->pid == pid) return p->status; return -1; }
uint64_t procExitTime(int pid) { init(); for (auto p : *g_procs) if (p->pid == pid) return p->exitT / 1000; return 0; }
int zombies() { init(); int n = 0; for (auto p : *g_procs) if (p->ppid == P()->pid && p->state == 1) n++; return n; }
int children() { init(); int n = 0; for (auto p : *g_procs) if (p->ppid == P()->pid && p != P() && p->state != 2) n++; return n; }
void waitProcess(int pid) { init(); struct W { int pid; } w{pid}; while (procState(pid) == 0) rt::block("process", [](void *a) { return procState(((W *)a)->pid) != 0; }, &w, NEVER); for (auto p : *g_procs) if (p->pid == pid && p->ppid == P()->pid) p->state = 2; }
void killProcess(int pid) { init(); Proc *p = procOf(pid); if (p && p != g_rootProc) procExit(p, SIGKILL); }
void ignoreTerm(bool on) { init(); P()->termIgn = on; }
void raiseHere(int sig) { init(); procExit(P(), sig); }
std::string procFds() { init(); std::string s; for (int i = 0; i < MAXFD; i++) if (g_fd[i]) { char b[32]; snprintf(b, sizeof b, "%s%d", s.empty() ? "" : " ", i); s += b; } return s; }
std::string procCwd() { init(); return std::string(g_cwd->data(), g_cwd->size()); }
void sharedMemory(bool on) { init(); g_shmMode = on; }
void closeStd(int fd) { init(); g_stdReal = true; if (fd >= 0 && fd < 3 && g_fd[fd]) { OFile *f = g_fd[fd]; g_fd[fd] = nullptr; dropFile(f); } }
void disown(int pid) { init(); for (auto p : *g_procs) if (p->pid == pid) { p->ppid = 1; if (p->state == 1) p->state = 2; } }
int mappings() { init(); int n = 0; for (auto i : *g_inodes) for (auto m : i->maps) if (m->proc == P()) n++; return n; }
int lockersOf(const char *path) { Inode *i = look(path); return i ? (int)i->lockers.size() : 0; }
}
