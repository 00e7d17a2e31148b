#include "common.h"
#include <map>
#include <set>
#include <string>
#include "lightspeed/base/memory/refCntPtr.h"
#include "lightspeed/base/memory/weakref.h"
#include "lightspeed/base/memory/poolalloc.h"
#include "lightspeed/base/memory/stdAlloc.h"
#include "lightspeed/base/memory/singleton.h"
#include "lightspeed/base/sync/threadVar.h"
#include "lightspeed/base/containers/string.h"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/exceptions/errorMessageException.h"
#include "lightspeed/mt/slist.h"

// ---------------------------------------------------------------- C07 shared ownership
static int g_objs;
struct Obj : RefCntObj {
    int a, b; bool alive;
    Obj(int v) : a(v), b(~v), alive(true) { sim::Quiet q; g_objs++; }
    ~Obj() { alive = false; a = 0; b = 0; sim::Quiet q; g_objs--; SIM_CHECK(g_objs >= 0, "double-destroy", "object destroyed twice"); }
    void use(const char *how) { int x = a; sim::yield(); int y = b; SIM_CHECK(alive && x == ~y, "use-after-destroy", "%s: object destroyed while a reference exists", how); }
};
typedef RefCntPtr<Obj> PObj;
SCENARIO(refcnt, "C07", 3) {
    g_objs = 0;
    int nt = sim::param("threads", 2, 4), it = sim::param("iters", 1, 6), no = sim::param("objs", 1, 3);
    {
        std::vector<PObj> root; for (int i = 0; i < no; i++) root.push_back(new Obj(i + 100));
        Crew c;
        for (int i = 0; i < nt; i++) {
            std::vector<PObj> mine = root;
            c.go([=]() mutable {
                std::vector<PObj> v = mine; mine.clear();
                for (int k = 0; k < it; k++) {
                    PObj &x = v[sim::param("x", 0, no - 1)], &y = v[sim::param("y", 0, no - 1)];
                    switch (sim::param("op", 0, 8)) {
                        case 0: x = y; break;
                        case 1: { PObj t(x); if (t) t->use("copy"); } break;
                        case 2: { PObj t(x); x = std::move(t); } break;
                        case 3: if (x) x->use("ref"); break;
                        case 4: x = nil; break;
                        case 5: { PObj t(std::move(x)); x = t; } break;
                        case 6: x = new Obj(k); break;
                        case 7: { PObj t = x.getMT(); if (t) { t->use("getMT"); SIM_CHECK(t.isShared(), "count", "object with two references reports it is not shared"); } } break;
                        case 8: x = x; break;
                    }
                }
            });
        }
        { sim::Quiet q; }
        root.clear();
        c.join();
        // functions of finished threads are destroyed, nothing may hold the objects
        c.th.clear();
    }
    SIM_CHECK(g_objs == 0, "object-leak", "%d objects alive after the last reference is gone", g_objs);
}
// one string shared by threads: content never changes, buffer released once
SCENARIO(string_shared, "C07", 2) {
    int nt = sim::param("threads", 2, 4), it = sim::param("iters", 1, 5);
    size_t base;
    {
        String a = String("shared text number one").getMT(), b = String(ConstStrW(L"\x17elut\x17" L"u")).getMT();
        { Crew warm; warm.go([&] { String x = a; x = a + b; String y = x; }); }
        base = sim::liveBlocks();
        Crew c;
        for (int i = 0; i < nt; i++) {
            String la = a, lb = b;
            c.go([=] {
                String x = la, y = lb;
                for (int k = 0; k < it; k++) switch (sim::param("op", 0, 4)) {
                    case 0: x = y; y = la; break;
                    case 1: { String z = x; x = y; y = z; } break;
                    case 2: { String z = la + lb; SIM_CHECK(z.length() == la.length() + lb.length() && z.head(la.length()) == la && z.tail(lb.length()) == lb, "string", "concatenation damaged"); x = z; } break;
                    case 3: { String z = la.mid(3, 7); SIM_CHECK(z.length() == 7 && z[0] == la[3], "string", "substring damaged"); y = z; } break;
                    case 4: SIM_CHECK(la.length() == 22 && la[0] == 's' && la[21] == 'e', "string", "shared string changed"); sim::yield(); break;
                }
                SIM_CHECK(la.length() == 22 && la[0] == 's' && la[21] == 'e', "string", "shared string changed");
            });
        }
        c.join(); c.th.clear();
        SIM_CHECK(a.length() == 22 && a[21] == 'e', "string", "shared string changed");
    }
    (void)base;
}
// weak references: a locked reference keeps the object; afterwards it reads as null
struct WObj { int a = 1, b = ~1; bool alive = true; WeakRefTarget<WObj> me; WObj() : me(this) {} ~WObj() { me.setNull(); alive = false; a = b = 0; } };
SCENARIO(weakref, "C07", 3) {
    int nt = sim::param("threads", 1, 4), it = sim::param("iters", 1, 4);
    bool heapOwner = sim::coin("ownerthread");
    std::unique_ptr<WObj> o(new WObj);
    bool gone = false; int locked = 0;
    Crew own;
    {
        Crew c;
        for (int i = 0; i < nt; i++) {
            WeakRef<WObj> w = o->me;
            c.go([&, w] {
                for (int k = 0; k < it; k++) {
                    bool wasGone = gone;
                    WeakRefPtr<WObj> p = w.lock();
                    if (p) {
                        SIM_CHECK(!wasGone, "weak-null", "weak reference locked after the object was destroyed");
                        { sim::Quiet q; locked++; sim::probe("weakref.locked"); }
                        int x = p->a; dwell(); int y = p->b;
                        SIM_CHECK(p->alive && x == ~y, "use-after-destroy", "object destroyed while a weak reference is locked");
                        if (sim::coin("copy")) { WeakRefPtr<WObj> p2 = p; if (p2) { sim::yield(); SIM_CHECK(p2->alive, "use-after-destroy", "object destroyed while a weak reference is locked"); } }
                        sim::Quiet q; locked--;
                    } else sim::probe("weakref.null");
                }
            });
        }
        auto destroy = [&] { dwell(); o.reset(); sim::Quiet q; SIM_CHECK(locked == 0, "use-after-destroy", "object destroyed while %d weak references are locked", locked); gone = true; };
        if (heapOwner) { own.go(destroy); own.join(); own.th.clear(); } else destroy();
        c.join();
    }
}
// retargeting: references taken before keep the old target, never the new one
SCENARIO(weakref_retarget, "C07", 1) {
    struct T { int id; bool alive; };
    T a{1, true}, b{2, true};
    int nt = sim::param("threads", 1, 3);
    std::unique_ptr<WeakRefTarget<T>> t(new WeakRefTarget<T>(&a));
    Crew c;
    for (int i = 0; i < nt; i++) { WeakRef<T> w = *t; c.go([&, w] { for (int k = 0; k < 3; k++) { WeakRefPtr<T> p = w.lock(); if (p) { SIM_CHECK(p->id == 1, "weak-target", "weak reference moved to another object"); dwell(); SIM_CHECK(p->alive, "use-after-destroy", "target replaced while locked"); } } }); }
    dwell();
    *t = &b; { sim::Quiet q; a.alive = false; }
    { WeakRef<T> w2 = *t; WeakRefPtr<T> p = w2.lock(); SIM_CHECK(p && p->id == 2, "weak-target", "new target is not reachable"); }
    c.join();
    t.reset();
}
// ---------------------------------------------------------------- C08 lock-free list and pools
struct alignas(16) Node { Node *next = 0; int id = 0; };
SCENARIO(slist, "C08", 3) {
    typedef SList<Node> L;
    L l;
    int nt = sim::param("threads", 2, 4), it = sim::param("iters", 1, 3), nn = sim::param("nodes", 1, 3);
    // few enough pops that the tag cannot wrap around
    std::vector<std::unique_ptr<Node>> all; std::vector<int> owner;   // -1 in list
    for (int i = 0; i < nt * nn; i++) { all.emplace_back(new Node); all.back()->id = i; owner.push_back(i / nn); }
    bool takes = sim::coin("takes");
    {
        Crew c;
        for (int i = 0; i < nt; i++) c.go([&, i] {
            std::vector<Node *> mine; { sim::Quiet q; for (int k = 0; k < nn; k++) mine.push_back(all[i * nn + k].get()); }
            for (int k = 0; k < it; k++) {
                int op = sim::param("op", 0, takes ? 5 : 2);
                if (op <= 1 && !mine.empty()) {
                    Node *n; { sim::Quiet q; n = mine.back(); mine.pop_back(); SIM_CHECK(owner[n->id] == i, "slist", "internal"); owner[n->id] = -1; }
                    l.push(n);
                } else if (op == 3) {
                    L mineL; mineL.take(l);
                    Node *n;
                    while ((n = mineL.pop_st()) != 0) { sim::Quiet q; SIM_CHECK(owner[n->id] == -1, "slist", "node taken from the list is owned by thread %d", owner[n->id]); owner[n->id] = i; mine.push_back(n); }
                } else if (op == 5) {       // ... only if somebody's item is on the top
                    L mineL; Node *cond; { sim::Quiet q; cond = all[sim::param("cond", 0, nt * nn - 1)].get(); if (owner[cond->id] == i) cond = l.top(); while (!mine.empty()) { Node *x = mine.back(); mine.pop_back(); owner[x->id] = -2 - i; mineL.push_st(x); } }
                    { sim::Quiet q; for (auto &o : owner) if (o == -2 - i) o = -1; }
                    bool r = l.swapWhenTopIs(mineL, cond);
                    sim::Quiet q;
                    Node *n; std::vector<Node *> back; while ((n = mineL.pop_st()) != 0) back.push_back(n);
                    SIM_CHECK(!r || (cond ? !back.empty() && back[0] == cond : back.empty()), "slist", "lists were swapped although the item was not on the top");
                    for (auto x : back) { SIM_CHECK(owner[x->id] == -1, "slist", "node swapped out of the list is owned by thread %d", owner[x->id]); owner[x->id] = i; mine.push_back(x); }
                } else if (op == 4) {       // the private list and the shared one change places
                    L mineL; { sim::Quiet q; while (!mine.empty()) { Node *x = mine.back(); mine.pop_back(); owner[x->id] = -1; mineL.push_st(x); } }
                    l.swap(mineL);
                    Node *n;
                    while ((n = mineL.pop_st()) != 0) { sim::Quiet q; SIM_CHECK(owner[n->id] == -1, "slist", "node swapped out of the list is owned by thread %d", owner[n->id]); owner[n->id] = i; mine.push_back(n); }
                } else {
                    Node *n = l.pop();
                    sim::Quiet q;
                    if (n) { SIM_CHECK(owner[n->id] == -1, "slist", "node popped twice (owner %d)", owner[n->id]); owner[n->id] = i; mine.push_back(n); }
                }
            }
        });
    }
    std::set<int> left; Node *n;
    while ((n = l.pop()) != 0) { SIM_CHECK(left.insert(n->id).second, "slist", "node twice in the list"); SIM_CHECK(owner[n->id] == -1, "slist", "node in the list is owned by a thread"); }
    int miss = 0; for (size_t i = 0; i < owner.size(); i++) if (owner[i] == -1 && !left.count((int)i)) miss++;
    SIM_CHECK(miss == 0, "slist", "%d nodes lost", miss);
}
SCENARIO(slist_model, "C08", 1) {
    typedef SList<Node> L;
    L l, m; std::vector<Node *> ml, mm;
    std::vector<std::unique_ptr<Node>> all; std::vector<Node *> fr;
    for (int i = 0; i < 6; i++) { all.emplace_back(new Node); fr.push_back(all.back().get()); }
    int ops = sim::param("ops", 1, 16);
    for (int k = 0; k < ops; k++) switch (sim::param("op", 0, 8)) {
        case 7: l.swap(m); std::swap(ml, mm); break;
        case 8: { Node *cond = sim::coin("right") ? l.top() : all[sim::param("cond", 0, 5)].get(); bool want = cond == l.top(); bool r = l.swapWhenTopIs(m, cond);
                  SIM_CHECK(r == want, "slist", "swap when the top is %p returned %d", (void *)cond, r); if (r) std::swap(ml, mm); } break;
        case 0: if (!fr.empty()) { Node *n = fr.back(); fr.pop_back(); l.push(n); ml.push_back(n); } break;
        case 1: { Node *n = l.pop(); Node *e = ml.empty() ? 0 : ml.back(); SIM_CHECK(n == e, "slist", "pop is not last in first out"); if (n) { ml.pop_back(); fr.push_back(n); } } break;
        case 2: if (!fr.empty()) { Node *n = fr.back(); fr.pop_back(); m.push_st(n); mm.push_back(n); } break;
        case 3: { Node *n = m.pop_st(); Node *e = mm.empty() ? 0 : mm.back(); SIM_CHECK(n == e, "slist", "pop is not last in first out"); if (n) { mm.pop_back(); fr.push_back(n); } } break;
        case 4: l.swap(m); m.take(l); { L t; } { Node *t = l.top(); (void)t; } l.swap(m); { /* restore */ } while (Node *x = l.pop()) fr.push_back(x); while (Node *x = m.pop()) fr.push_back(x); ml.clear(); mm.clear(); break;
        case 5: { l.reverse(m); while (!ml.empty()) { mm.push_back(ml.back()); ml.pop_back(); } } break;
        case 6: SIM_CHECK(l.top() == (ml.empty() ? 0 : ml.back()), "slist", "top is not the last pushed item"); break;
    }
}
template<class A> static void poolBody(A &a, int maxSize) {
    int nt = sim::param("threads", 1, 3), it = sim::param("iters", 1, 5);
    struct Bk { unsigned char *p; size_t n; unsigned char v; IRuntimeAlloc *o; };
    std::vector<Bk> shared; std::map<uintptr_t, size_t> live;
    auto add = [&](void *p, size_t n) { sim::Quiet q; uintptr_t x = (uintptr_t)p;
        auto i = live.lower_bound(x); if (i != live.end()) SIM_CHECK(x + n <= i->first, "pool-overlap", "allocated block overlaps a live one");
        if (i != live.begin()) { --i; SIM_CHECK(i->first + i->second <= x, "pool-overlap", "allocated block overlaps a live one"); }
        SIM_CHECK(x % sizeof(void *) == 0, "pool-align", "misaligned block"); live[x] = n; };
    unsigned char tag = 1;
    // some blocks are free already
    { int pre = sim::param("pre", 0, 4); void *b[4]; size_t n[4]; IRuntimeAlloc *o[4]; for (int i = 0; i < pre; i++) { n[i] = (size_t)sim::param("size", 1, maxSize); o[i] = &a; b[i] = a.alloc(n[i], o[i]); } for (int i = 0; i < pre; i++) o[i]->dealloc(b[i], n[i]); }
    {
        Crew c;
        for (int i = 0; i < nt; i++) c.go([&] {
            for (int k = 0; k < it; k++) {
                if (sim::coin("alloc") ) {
                    size_t n = (size_t)sim::param("size", 1, maxSize);
                    IRuntimeAlloc *o = &a; void *p = sim::coin("own") ? a.alloc(n, o) : a.alloc(n);
                    add(p, n);
                    unsigned char v; { sim::Quiet q; v = tag++; }
                    memset(p, v, n);
                    sim::Quiet q; shared.push_back({(unsigned char *)p, n, v, o});
                } else {
                    Bk b{0, 0, 0, 0};
                    { sim::Quiet q; if (!shared.empty()) { size_t at = (size_t)sim::param("at", 0, (int)shared.size() - 1); b = shared[at]; shared.erase(shared.begin() + (long)at); } }
                    if (b.p) {
                        for (size_t z = 0; z < b.n; z++) SIM_CHECK(b.p[z] == b.v, "pool-overlap", "content of an allocated block changed");
                        { sim::Quiet q; live.erase((uintptr_t)b.p); }
                        b.o->dealloc(b.p, b.n);
                    }
                }
            }
        });
    }
    for (auto &b : shared) { for (size_t z = 0; z < b.n; z++) SIM_CHECK(b.p[z] == b.v, "pool-overlap", "content of an allocated block changed"); b.o->dealloc(b.p, b.n); }
}
SCENARIO(pool, "C08", 2) { PoolAlloc a; poolBody(a, 60); }
SCENARIO(multipool, "C08", 2) { MultiPoolAlloc a; poolBody(a, sim::coin("small") ? 40 : 1300); }
// ---------------------------------------------------------------- C09 singletons and thread variables
static int g_cnt[4], g_dead[4]; static int g_failLeft;
template<int N> struct Sing { int v, w; Sing() : v(7) { sim::Quiet *q = 0; (void)q; { sim::Quiet z; if (g_failLeft > 0) { g_failLeft--; sim::probe("singleton.ctor-throws"); throw 5; } g_cnt[N]++; SIM_CHECK(g_cnt[N] == 1, "singleton", "constructed %d times", g_cnt[N]); } dwell(); w = ~7; } ~Sing() { sim::Quiet z; g_dead[N]++; SIM_CHECK(g_dead[N] == 1, "singleton", "destroyed twice"); } };
template<int N> static void useSing() { try { Sing<N> &s = Singleton<Sing<N> >::getInstance(); SIM_CHECK(s.v == ~s.w, "singleton", "instance returned before its construction finished"); SIM_CHECK(&s == &Singleton<Sing<N> >::getInstance(), "singleton", "two instances"); } catch (int) { sim::probe("singleton.failed"); } }
SCENARIO(singleton, "C09", 3) {
    for (int i = 0; i < 4; i++) g_cnt[i] = g_dead[i] = 0;
    int nt = sim::param("threads", 2, 4), it = sim::param("iters", 1, 3); g_failLeft = sim::param("fails", 0, 2);
    Thread::getMaster();
    {
        Crew c;
        for (int i = 0; i < nt; i++) c.go([&] { for (int k = 0; k < it; k++) switch (sim::param("which", 0, 3)) { case 0: useSing<0>(); break; case 1: useSing<1>(); break; case 2: useSing<2>(); break; case 3: useSing<3>(); break; } });
    }
    sim::runAtExit();
    for (int i = 0; i < 4; i++) SIM_CHECK(g_dead[i] == g_cnt[i], "singleton", "instance constructed %d times, destroyed %d times at exit", g_cnt[i], g_dead[i]);
}
static int g_tv;
struct TV { int v = 0; int owner; TV() : owner(-1) { sim::Quiet q; g_tv++; } TV(const TV &o) : v(o.v), owner(o.owner) { sim::Quiet q; g_tv++; } ~TV() { sim::Quiet q; g_tv--; SIM_CHECK(owner == -1 || owner == sim::self(), "threadvar-owner", "thread variable of thread %d destroyed by thread %d", owner, sim::self()); } };
SCENARIO(threadvar, "C09", 3) {
    g_tv = 0;
    Thread::getMaster();
    int nt = sim::param("threads", 1, 4), nv = sim::param("vars", 1, 5), it = sim::param("iters", 1, 6);
    bool early = sim::coin("early");
    {
        std::vector<std::unique_ptr<ThreadVarInitDefault<TV>>> vars;
        if (early) for (int i = 0; i < nv; i++) vars.emplace_back(new ThreadVarInitDefault<TV>);
        Crew c;
        bool go = early;
        for (int i = 0; i < nt; i++) c.go([&] {
            while (!go) sim::pass();
            std::map<int, int> model;
            for (int k = 0; k < it; k++) {
                int n = sim::param("n", 0, nv - 1), op = sim::param("op", 0, 2);
                ThreadVarInitDefault<TV> &var = *vars[n];
                if (op == 2) { var.unset(ITLSTable::getInstance()); sim::Quiet q; model.erase(n); continue; }
                TV &x = var[ITLSTable::getInstance()];
                { sim::Quiet q; int want = model.count(n) ? model[n] : 0; SIM_CHECK(x.v == want, "threadvar", "thread variable holds %d, this thread stored %d", x.v, want); SIM_CHECK(x.owner == -1 || x.owner == sim::self(), "threadvar-owner", "variable of another thread"); x.owner = sim::self(); }
                if (op == 1) { x.v = sim::self() * 100 + k; sim::Quiet q; model[n] = x.v; }
                sim::yield();
            }
        });
        if (!early) { for (int i = 0; i < nv; i++) { vars.emplace_back(new ThreadVarInitDefault<TV>); sim::yield(); } { sim::Quiet q; go = true; } }
        c.join();
        SIM_CHECK(g_tv == 0, "threadvar-leak", "%d thread variables alive after their threads finished", g_tv);
    }
}
// indices of variables are unique while the variables live
SCENARIO(threadvar_index, "C09", 1) {
    Thread::getMaster();
    int nt = sim::param("threads", 2, 4), it = sim::param("iters", 1, 5);
    Crew c;
    for (int i = 0; i < nt; i++) c.go([&] {
        std::vector<std::unique_ptr<ThreadVarInit<int>>> v; std::vector<int> val;
        int base; { sim::Quiet q; base = sim::self() * 1000; }
        for (int k = 0; k < it; k++) {
            if (v.empty() || sim::coin("add")) { v.emplace_back(new ThreadVarInit<int>(base + k)); val.push_back(base + k); int x = (*v.back())[ITLSTable::getInstance()]; SIM_CHECK(x == base + k, "threadvar", "new variable has value %d, expected %d", x, base + k); }
            else { int at = sim::param("at", 0, (int)v.size() - 1); v[at]->unset(ITLSTable::getInstance()); v.erase(v.begin() + at); val.erase(val.begin() + at); }
            for (size_t n = 0; n < v.size(); n++) { int x = (*v[n])[ITLSTable::getInstance()]; SIM_CHECK(x == val[n], "threadvar", "variable has value %d, expected %d", x, val[n]); }
        }
        for (auto &x : v) x->unset(ITLSTable::getInstance());
    });
}
