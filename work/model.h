#pragma once
#include "common.h"
#include <map>
#include <set>
#include <algorithm>
#include "lightspeed/base/exceptions/stdexception.h"
#include "lightspeed/base/exceptions/rangeException.h"
#include "lightspeed/base/exceptions/outofmemory.h"
#include "lightspeed/base/exceptions/container.h"
#include "lightspeed/base/exceptions/iterator.h"
#include "lightspeed/base/memory/smallAlloc.h"
#include "lightspeed/base/memory/staticAlloc.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/deque.tcc"
#include "lightspeed/base/containers/queue.h"
#include "lightspeed/base/containers/stack.tcc"
#include "lightspeed/base/containers/linkedList.h"
#include "lightspeed/base/containers/map.tcc"
#include "lightspeed/base/containers/set.tcc"
#include "lightspeed/base/containers/avltree.tcc"
#include "lightspeed/base/containers/priorityQueue.tcc"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/memory/clusterAlloc.h"
#include "lightspeed/base/memory/poolalloc.h"
static int g_alive;
struct Elem {
    int v; const Elem *self; unsigned magic;
    Elem() : v(0) { born(); }
    explicit Elem(int x) : v(x) { born(); }
    Elem(const Elem &o) : v(o.get()) { born(); }
    Elem(Elem &&o) : v(o.get()) { born(); o.v = -77; }
    Elem &operator=(const Elem &o) { chk(); v = o.get(); return *this; }
    Elem &operator=(Elem &&o) { chk(); int x = o.get(); o.v = -77; v = x; return *this; }
    ~Elem() { chk(); g_alive--; magic = 0xdeadbeef; self = 0; v = -99; }
    void born() { self = this; magic = 0x600d600d; g_alive++; }
    void chk() const { SIM_CHECK(magic == 0x600d600d && self == this, "element", "container works with an element which %s", magic == 0xdeadbeef ? "was already destroyed" : "was not constructed there"); }
    int get() const { chk(); return v; }
    bool operator<(const Elem &o) const { return get() < o.get(); }
};
static int val(const Elem &e) { return e.get(); }
static int val(int e) { return e; }
struct ThisThread { // one operation on a container: memory may run out inside, contents have to be as before then
    bool failing; int opno;
    const char *name; bool threw, failed;
    std::string what;
    enum Kind { kNone, kMemory, kRange, kLimit, kEmpty, kOther } kind;
    ThisThread() : opno(0), name("") { failing = sim::coin("failing"); }
    template<class F> bool run(const char *n, F f) {
        name = n; threw = false; kind = kNone; { sim::Quiet q; what.clear(); } opno++;
        if (failing && sim::chance("nomem", 1, 5)) sim::allocFailAfter(sim::param("failat", 1, 3)); else sim::allocFailAfter(0);
        try { f(); }
        catch (const OutOfMemoryException &e) { kind = kMemory; threw = true; }
        catch (const AllocatorLimitException &e) { kind = kLimit; threw = true; }
        catch (const ContainerIsEmptyException &e) { kind = kEmpty; threw = true; }
        catch (const std::bad_alloc &e) { kind = kMemory; threw = true; }
        catch (const IRangeException &e) { kind = kRange; threw = true; }
        catch (const IteratorException &e) { kind = kEmpty; threw = true; }
        catch (const std::exception &e) { kind = kOther; threw = true; sim::Quiet q; what = e.what(); }
        failed = sim::allocFailed(); sim::allocFailAfter(0);
        if (threw && kind == kMemory) { SIM_CHECK(failed, "exception", "%s reports no memory, but there was enough", n); sim::probe("no_memory"); }
        SIM_CHECK(kind != kOther, "exception", "%s failed: %s", n, what.c_str());
        { sim::Quiet q; sim::event("%s%s", n, !threw ? "" : kind == kMemory ? " - no memory" : kind == kRange ? " - range" : kind == kLimit ? " - limit" : " - empty"); }
        return !threw;
    }
    void expect(Kind k) { SIM_CHECK(threw && (kind == k || (kind == kMemory)), "exception", "%s with wrong arguments %s", name, threw ? "reported other error" : "was accepted"); }
    void noerr() { SIM_CHECK(!threw || kind == kMemory, "exception", "%s reported %s without a reason", name, kind == kRange ? "range error" : kind == kLimit ? "allocator limit" : "empty container"); }
};
typedef std::vector<int> Model;
static int someValue() { return sim::param("v", 1, 1000); }
struct Heap { // everything has to be returned
    size_t blocks; int alive;
    Heap() {
        // first exceptions of a thread allocate what stays
        for (int i = 0; i < 6; i++) try { StaticAlloc<2> s; StdAlloc d; AutoArray<int> w(d); AutoArray<int, StaticAlloc<2> > ws(s); Deque<int> q; LinkedList<int> l;
            switch (i) { case 0: w.insert(3, 1); break; case 1: ws.add(1, 3); break; case 2: q.popBack(); break; case 3: q.at(5); break; case 4: l.getFwIter().getNext(); break; case 5: sim::allocFailAfter(1); w.add(1); break; }
        } catch (const std::exception &e) { }
        sim::allocFailAfter(0); alive = g_alive = 0; blocks = sim::liveBlocks(); }
    ~Heap() { SIM_CHECK(g_alive == 0, "element", "%d elements were not destroyed with their container", g_alive); SIM_CHECK(sim::liveBlocks() == blocks, "leak", "container is gone, %ld blocks of memory stay", (long)sim::liveBlocks() - (long)blocks); }
};

