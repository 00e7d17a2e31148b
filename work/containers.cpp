#include "model.h"
// ---------------------------------------------------------------- C29 containers against reference models
// ---- AutoArray
template<class A> static void sameArray(const A &a, const Model &m, const char *op, int which) {
    SIM_CHECK(a.length() == m.size(), "contents", "array %d after %s has %d elements instead of %d", which, op, (int)a.length(), (int)m.size());
    SIM_CHECK(a.empty() == m.empty(), "contents", "array %d after %s: empty() is wrong", which, op);
    for (size_t i = 0; i < m.size(); i++) SIM_CHECK(val(a[i]) == m[i], "contents", "array %d after %s: element %d is %d instead of %d", which, op, (int)i, val(a[i]), m[i]);
}
template<class T, class Alloc> static void arrayRun(const Alloc &al, size_t limit) {
    typedef AutoArray<T, Alloc> Arr;
    ThisThread t; int n = sim::param("ops", 4, 60);
    {
        Arr *arr[2] = {new Arr(al), new Arr(al)}; Model mod[2];
        struct Fin { Arr **a; ~Fin() { delete a[0]; delete a[1]; } } fin = {arr};
        for (int k = 0; k < n; k++) {
            int w = sim::coin("which"); Arr &a = *arr[w], &b = *arr[1 - w]; Model &m = mod[w], &mb = mod[1 - w];
            Model was; { sim::Quiet q; was = m; }
            size_t len = m.size(); bool own = len && sim::coin("own"); size_t oi = own ? sim::param("oi", 0, (int)len - 1) : 0;
            int v = own ? m[oi] : someValue(); T tv(v); const T &x = own ? a[oi] : tv;
            int op = sim::param("op", 0, 25); bool ok; size_t cnt; size_t at; const char *nm = "";
            // result that would be over capacity of a static allocator is refused
            auto bulk = [&](size_t want) { if (want > limit) { t.expect(ThisThread::kLimit); return false; } t.noerr(); return !t.threw; };
            switch (op) {
                case 0: case 1: case 2: nm = own ? "add(own element)" : "add"; t.run(nm, [&] { a.add(x); }); if (bulk(len + 1)) { sim::Quiet q; m.push_back(v); } break;
                case 3: cnt = sim::param("cnt", 0, 5); nm = own ? "add(own element, count)" : "add(count)"; t.run(nm, [&] { a.add(x, cnt); }); if (bulk(len + cnt)) { sim::Quiet q; m.insert(m.end(), cnt, v); } break;
                case 4: nm = "append"; t.run(nm, [&] { a.append(b); }); if (bulk(len + mb.size())) { sim::Quiet q; m.insert(m.end(), mb.begin(), mb.end()); } break;
                case 5: { // item by item, memory may run out in the middle
                    nm = "append(iterator)"; bool lim = sim::coin("lim"); cnt = lim ? sim::param("cnt", 0, 6) : mb.size();
                    t.run(nm, [&] { typename Arr::Iterator it = b.getFwIter(); if (lim) a.append(it, cnt); else a.append(it); });
                    size_t c = std::min(cnt, mb.size()), got = a.length() - len;
                    if (len + c > limit) t.expect(ThisThread::kLimit); else t.noerr();
                    SIM_CHECK(a.length() >= len && got <= c && (t.threw || got == c), "contents", "append of %d items added %d", (int)c, (int)got);
                    sim::Quiet q; m.insert(m.end(), mb.begin(), mb.begin() + got); } break;
                case 6: cnt = sim::param("size", 0, 12); nm = own ? "resize(own element)" : "resize(init)"; t.run(nm, [&] { a.resize(cnt, x); }); if (bulk(cnt)) { sim::Quiet q; m.resize(cnt, v); } break;
                case 7: if (std::is_same<T, Elem>::value) { cnt = sim::param("size", 0, 12); nm = "resize"; t.run(nm, [&] { a.resize(cnt); }); if (bulk(cnt)) { sim::Quiet q; m.resize(cnt, 0); } } break;
                case 8: case 9: at = sim::param("at", 0, (int)len + 1); nm = own ? "insert(own element)" : "insert"; t.run(nm, [&] { a.insert(at, x); });
                    if (at > len) t.expect(ThisThread::kRange); else if (bulk(len + 1)) { sim::Quiet q; m.insert(m.begin() + at, v); } break;
                case 10: at = sim::param("at", 0, (int)len + 1); cnt = sim::param("cnt", 0, 5); nm = own ? "insert(own element, count)" : "insert(count)"; t.run(nm, [&] { a.insert(at, x, cnt); });
                    if (at > len) t.expect(ThisThread::kRange); else if (bulk(len + cnt)) { sim::Quiet q; m.insert(m.begin() + at, cnt, v); } break;
                case 11: at = sim::param("at", 0, (int)len + 1); nm = "insertArray"; t.run(nm, [&] { a.insertArray(at, b); });
                    if (at > len) t.expect(ThisThread::kRange); else if (bulk(len + mb.size())) { sim::Quiet q; m.insert(m.begin() + at, mb.begin(), mb.end()); } break;
                case 12: case 13: at = sim::param("at", 0, (int)len + 1); nm = "erase"; t.run(nm, [&] { a.erase(at); });
                    if (at > len) t.expect(ThisThread::kRange); else { t.noerr(); if (!t.threw && at < len) { sim::Quiet q; m.erase(m.begin() + at); } } break;
                case 14: at = sim::param("at", 0, (int)len + 1); cnt = sim::param("cnt", 0, 6); nm = "erase(count)"; t.run(nm, [&] { a.erase(at, cnt); });
                    if (at > len) t.expect(ThisThread::kRange); else { t.noerr(); if (!t.threw) { sim::Quiet q; m.erase(m.begin() + at, m.begin() + std::min(len, at + cnt)); } } break;
                case 15: cnt = sim::param("cnt", 0, 6); nm = "trunc"; t.run(nm, [&] { a.trunc(cnt); }); t.noerr(); if (!t.threw) { sim::Quiet q; m.resize(cnt > len ? 0 : len - cnt); } break;
                case 16: if (!sim::chance("clear", 1, 3)) break; nm = "clear"; t.run(nm, [&] { a.clear(); }); t.noerr(); if (!t.threw) { sim::Quiet q; m.clear(); } break;
                case 17: cnt = sim::param("cnt", 0, 20); nm = "reserve"; t.run(nm, [&] { a.reserve(cnt); }); if (bulk(std::max(len, cnt))) SIM_CHECK(a.getAllocatedSize() >= cnt, "contents", "reserve(%d) reserved %d", (int)cnt, (int)a.getAllocatedSize()); break;
                case 18: nm = "freeExtra"; t.run(nm, [&] { a.freeExtra(); }); t.noerr(); break;
                case 19: nm = "copy"; ok = t.run(nm, [&] { Arr c(a); sameArray(c, m, "copy", 2); c.add(tv); }); bulk(len + 1); (void)ok; break;
                case 20: nm = "assign"; t.run(nm, [&] { a = b; }); t.noerr(); if (!t.threw) { sim::Quiet q; m = mb; } else { // old contents may be lost when there is no memory for new
                    SIM_CHECK(a.length() == 0 || a.length() == len, "contents", "failed assignment left part of contents"); sim::Quiet q; if (a.length() == 0) m.clear(); } break;
                case 21: nm = "assign(itself)"; t.run(nm, [&] { Arr &c = a; a = c; }); t.noerr(); break;
                case 22: nm = "swap"; t.run(nm, [&] { a.swap(b); }); t.noerr(); if (!t.threw) { sim::Quiet q; m.swap(mb); } break;
                case 23: { cnt = sim::param("cnt", 0, 5); size_t use = sim::param("use", 0, (int)cnt); at = sim::param("at", 0, (int)len + 1); nm = "insert iterator";
                    t.run(nm, [&] { typename Arr::WriteInsertIter it = a.getInsertIterator(at, cnt); for (size_t i = 0; i < use; i++) { SIM_CHECK(it.hasItems(), "contents", "insert iterator for %d items is full after %d", (int)cnt, (int)i); it.write(T(v + (int)i)); } SIM_CHECK(it.hasItems() == (use < cnt), "contents", "hasItems() of insert iterator after %d of %d items", (int)use, (int)cnt); });
                    if (at > len) t.expect(ThisThread::kRange); else if (bulk(len + cnt)) { sim::Quiet q; for (size_t i = 0; i < use; i++) m.insert(m.begin() + at + i, v + (int)i); } } break;
                case 24: { cnt = sim::param("cnt", 0, 5); nm = "write iterator"; size_t done = 0;
                    t.run(nm, [&] { typename Arr::WriteIter it = a.getWriteIterator(cnt); while (it.hasItems()) { it.write(T(v)); done++; } });
                    if (bulk(len + cnt)) SIM_CHECK(done == cnt, "contents", "write iterator for %d items took %d", (int)cnt, (int)done);
                    sim::Quiet q; m.insert(m.end(), done, v); } break;
                case 25: if (!len) break; at = sim::param("at", 0, (int)len - 1); nm = "element";
                    if (sim::coin("rd")) { int got = -1; t.run(nm, [&] { got = val(a.at(at)); }); if (at >= len) t.expect(ThisThread::kRange); else { t.noerr(); SIM_CHECK(t.threw || got == m[at], "contents", "at(%d) is %d instead of %d", (int)at, got, m[at]); } }
                    else { t.run("mutable element", [&] { a(at) = T(v); }); if (at >= len) t.expect(ThisThread::kRange); else { t.noerr(); if (!t.threw) m[at] = v; } } break;
            }
            sameArray(*arr[0], mod[0], nm, 0); sameArray(*arr[1], mod[1], nm, 1);
            if (t.threw && op != 5 && op != 20 && op != 24) { sim::Quiet q; SIM_CHECK(m == was, "contents", "model"); }
            if (std::is_same<T, Elem>::value) SIM_CHECK(g_alive == (int)(mod[0].size() + mod[1].size()) + 1, "element", "after %s: %d elements exist, there should be %d", nm, g_alive - 1, (int)(mod[0].size() + mod[1].size()));
        }
        sim::probe(mod[0].size() > 8 ? "large" : "small");
    }
}
SCENARIO(cont_array, "C29", 3) {
    { StdAlloc s; AutoArray<int> w(s); w.add(1); w.insert(0, 2); }
    Heap h;
    switch (sim::param("kind", 0, 5)) {
        case 0: arrayRun<Elem, StdAlloc>(StdAlloc(), ~(size_t)0); break;
        case 1: arrayRun<int, StdAlloc>(StdAlloc(), ~(size_t)0); break;
        case 2: arrayRun<Elem, SmallAlloc<4> >(SmallAlloc<4>(), ~(size_t)0); break;
        case 3: arrayRun<Elem, StaticAlloc<8> >(StaticAlloc<8>(), 8); break;
        case 4: arrayRun<int, SmallAlloc<4> >(SmallAlloc<4>(), ~(size_t)0); break;
        case 5: { struct Counting : IRuntimeAlloc { // memory comes from the given allocator and goes back to it
                std::map<void *, size_t> have;
                void *alloc(natural sz) { void *p; { p = operator new(sz); } sim::Quiet q; have[p] = sz; return p; }
                void *alloc(natural sz, IRuntimeAlloc *&o) { o = this; return alloc(sz); }
                void dealloc(void *p, natural sz) { sim::Quiet q; auto i = have.find(p); SIM_CHECK(i != have.end(), "element", "allocator got back memory which is not from it"); SIM_CHECK(i->second == sz, "element", "allocator got back block of %d bytes as %d bytes", (int)i->second, (int)sz); have.erase(i); operator delete(p); }
                IRuntimeAlloc *clone() const { return 0; } IRuntimeAlloc *clone(IRuntimeAlloc &) const { return 0; } natural getObjectSize() const { return 0; }
            } ca; { arrayRun<Elem, SmallAlloc<4> >(SmallAlloc<4>(ca), ~(size_t)0); } SIM_CHECK(ca.have.empty(), "leak", "%d blocks did not return to the allocator", (int)ca.have.size()); } break;
    }
}

// ---- Deque, Queue, Stack
template<class D> static void sameDeque(const D &d, const Model &m, const char *op) { // model: front of it is the back side of deque (index 0)
    SIM_CHECK(d.length() == m.size() && d.empty() == m.empty(), "contents", "deque after %s has %d elements instead of %d", op, (int)d.length(), (int)m.size());
    for (size_t i = 0; i < m.size(); i++) SIM_CHECK(val(d.at(i)) == m[i], "contents", "deque after %s: element %d is %d instead of %d", op, (int)i, val(d.at(i)), m[i]);
    if (!m.empty()) { SIM_CHECK(val(d.getBack()) == m.front(), "contents", "deque after %s: back is %d instead of %d", op, val(d.getBack()), m.front()); SIM_CHECK(val(d.getFront()) == m.back(), "contents", "deque after %s: front is %d instead of %d", op, val(d.getFront()), m.back()); }
}
template<class T> static void dequeRun() {
    typedef Deque<T> D; ThisThread t; int n = sim::param("ops", 4, 80);
    D *dq[2] = {new D, new D}; Model mod[2];
    struct Fin { D **a; ~Fin() { delete a[0]; delete a[1]; } } fin = {dq};
    for (int k = 0; k < n; k++) {
        int w = sim::chance("which", 1, 4); D &d = *dq[w], &e = *dq[1 - w]; Model &m = mod[w], &me = mod[1 - w]; const char *nm = "";
        size_t len = m.size(), at; bool own = len && sim::chance("own", 1, 3); size_t oi = own ? sim::param("oi", 0, (int)len - 1) : 0;
        int v = own ? m[oi] : someValue(); T tv(v);
        switch (sim::param("op", 0, 14)) {
            case 0: case 1: case 2: nm = "pushBack"; t.run(nm, [&] { d.pushBack(own ? d.at(oi) : tv); }); t.noerr(); if (!t.threw) { sim::Quiet q; m.insert(m.begin(), v); } break;
            case 3: case 4: case 5: nm = "pushFront"; t.run(nm, [&] { d.pushFront(own ? d.at(oi) : tv); }); t.noerr(); if (!t.threw) { sim::Quiet q; m.push_back(v); } break;
            case 6: case 7: nm = "popBack"; t.run(nm, [&] { d.popBack(); }); if (!len) t.expect(ThisThread::kEmpty); else { t.noerr(); if (!t.threw) { sim::Quiet q; m.erase(m.begin()); } } break;
            case 8: case 9: nm = "popFront"; t.run(nm, [&] { d.popFront(); }); if (!len) t.expect(ThisThread::kEmpty); else { t.noerr(); if (!t.threw) { sim::Quiet q; m.pop_back(); } } break;
            case 10: nm = "set"; at = sim::param("at", 0, (int)len); t.run(nm, [&] { if (sim::coin("how")) d.set(at, tv); else d.mutableAt(at) = tv; }); if (at >= len) t.expect(ThisThread::kRange); else { t.noerr(); if (!t.threw) m[at] = v; } break;
            case 11: nm = "reserve"; t.run(nm, [&] { d.reserve(sim::param("cnt", 0, 20)); }); t.noerr(); break;
            case 12: nm = "swap"; t.run(nm, [&] { d.swap(e); }); t.noerr(); if (!t.threw) { sim::Quiet q; m.swap(me); } break;
            case 13: if (!sim::chance("clear", 1, 4)) break; nm = "clear"; t.run(nm, [&] { d.clear(); }); t.noerr(); if (!t.threw) { sim::Quiet q; m.clear(); } break;
            case 14: nm = "copy"; t.run(nm, [&] { D c(d); sameDeque(c, m, "copy"); c.pushBack(tv); c.pushFront(tv); }); t.noerr(); break;
        }
        sameDeque(*dq[0], mod[0], nm); sameDeque(*dq[1], mod[1], nm);
        if (std::is_same<T, Elem>::value) SIM_CHECK(g_alive == (int)(mod[0].size() + mod[1].size()) + 1, "element", "after %s: %d elements exist, there should be %d", nm, g_alive - 1, (int)(mod[0].size() + mod[1].size()));
    }
}
static void queueRun() { // queue gives the oldest, stack the newest, priority queue the greatest
    ThisThread t; int n = sim::param("ops", 4, 60);
    Queue<Elem> q; Stack<Elem> s; PriorityQueue<Elem> p; Model mq, ms, mp;
    for (int k = 0; k < n; k++) {
        int v = someValue(); Elem e(v); const char *nm = "";
        switch (sim::param("op", 0, 8)) {
            case 0: case 1: nm = "Queue::push"; t.run(nm, [&] { q.push(e); }); t.noerr(); if (!t.threw) { sim::Quiet z; mq.push_back(v); } break;
            case 2: nm = "Queue::pop"; t.run(nm, [&] { q.pop(); }); if (mq.empty()) t.expect(ThisThread::kEmpty); else { t.noerr(); if (!t.threw) { sim::Quiet z; mq.erase(mq.begin()); } } break;
            case 3: case 4: nm = "Stack::push"; t.run(nm, [&] { s.push(e); }); t.noerr(); if (!t.threw) { sim::Quiet z; ms.push_back(v); } break;
            case 5: nm = "Stack::pop"; t.run(nm, [&] { s.pop(); }); if (ms.empty()) t.expect(ThisThread::kEmpty); else { t.noerr(); if (!t.threw) { sim::Quiet z; ms.pop_back(); } } break;
            case 6: case 7: nm = "PriorityQueue::push"; t.run(nm, [&] { p.push(e); }); t.noerr(); if (!t.threw) { sim::Quiet z; mp.push_back(v); std::sort(mp.begin(), mp.end()); } break;
            case 8: if (mp.empty()) break; nm = "PriorityQueue::pop"; t.run(nm, [&] { p.pop(); }); t.noerr(); if (!t.threw) { sim::Quiet z; mp.pop_back(); } break;
        }
        SIM_CHECK(q.length() == mq.size() && q.empty() == mq.empty() && (mq.empty() || val(q.top()) == mq.front()), "contents", "queue after %s has %d elements and %d on top, should be %d and %d", nm, (int)q.length(), mq.empty() ? 0 : val(q.top()), (int)mq.size(), mq.empty() ? 0 : mq.front());
        SIM_CHECK(s.length() == ms.size() && s.empty() == ms.empty() && (ms.empty() || val(s.top()) == ms.back()), "contents", "stack after %s has %d elements and %d on top, should be %d and %d", nm, (int)s.length(), ms.empty() ? 0 : val(s.top()), (int)ms.size(), ms.empty() ? 0 : ms.back());
        SIM_CHECK(p.length() == mp.size() && p.empty() == mp.empty() && (mp.empty() || val(p.top()) == mp.back()), "contents", "priority queue after %s has %d elements and %d on top, should be %d and %d", nm, (int)p.length(), mp.empty() ? 0 : val(p.top()), (int)mp.size(), mp.empty() ? 0 : mp.back());
    }
    while (!mp.empty()) { SIM_CHECK(val(p.top()) == mp.back(), "contents", "priority queue gives %d before %d", val(p.top()), mp.back()); p.pop(); mp.pop_back(); }
    // sorting of an array
    AutoArray<Elem> a; Model m; int c = sim::param("sort", 0, 20); for (int i = 0; i < c; i++) { int v = sim::param("sv", 1, 12); a.add(Elem(v)); m.push_back(v); }
    HeapSort<AutoArray<Elem> >(a).sort(); { sim::Quiet z; std::sort(m.begin(), m.end()); } sameArray(a, m, "sort", 0);
}
SCENARIO(cont_deque, "C29", 2) {
    Heap h;
    switch (sim::param("kind", 0, 2)) { case 0: dequeRun<Elem>(); break; case 1: dequeRun<int>(); break; case 2: queueRun(); break; }
}

// ---- LinkedList
typedef LinkedList<Elem> List;
static void sameList(List &l, const Model &m, const char *op) {
    size_t i = 0; const List &c = l;
    for (List::Iterator it = l.getFwIter(); it.hasItems(); i++) { SIM_CHECK(i < m.size(), "contents", "list after %s has more than %d items", op, (int)m.size()); int v = val(it.getNext()); SIM_CHECK(v == m[i], "contents", "list after %s: item %d is %d instead of %d", op, (int)i, v, m[i]); }
    SIM_CHECK(i == m.size() && l.empty() == m.empty() && l.size() == m.size(), "contents", "list after %s has %d items instead of %d", op, (int)i, (int)m.size());
    if (i) { SIM_CHECK(val(l.getFirst()) == m.front() && val(c.getFirst()) == m.front(), "contents", "list after %s: first item is %d", op, val(l.getFirst())); SIM_CHECK(val(l.getLast()) == m.back(), "contents", "list after %s: last item is %d instead of %d", op, val(l.getLast()), m.back()); SIM_CHECK(val(c.getLast()) == m.back(), "contents", "list after %s: last item is %d instead of %d", op, val(c.getLast()), m.back()); }
}
static List::Iterator at(List &l, size_t i) { List::Iterator it = l.getFwIter(); while (i--) it.skip(); return it; }
SCENARIO(cont_list, "C29", 2) {
    Heap h; ThisThread t; int n = sim::param("ops", 4, 60);
    List *ls[2] = {new List, new List}; Model mod[2];
    struct Fin { List **a; ~Fin() { delete a[0]; delete a[1]; } } fin = {ls};
    for (int k = 0; k < n; k++) {
        int w = sim::chance("which", 1, 4); List &l = *ls[w], &o = *ls[1 - w]; Model &m = mod[w], &mo = mod[1 - w]; const char *nm = ""; size_t len = m.size();
        bool own = len && sim::chance("own", 1, 3); size_t oi = own ? sim::param("oi", 0, (int)len - 1) : 0; int v = own ? m[oi] : someValue(); Elem tv(v); const Elem &x = own ? at(l, oi).peek() : tv;
        size_t p = sim::param("at", 0, (int)len); int shown = -1;
        // position returned by the operation has to refer the item; when asked, the item is erased through it
        auto check = [&](List::Iterator it, size_t pos) { SIM_CHECK(it.hasItems() && val(it.peek()) == v, "contents", "%s returned position of other item", nm); if (sim::chance("erasenew", 1, 5)) { List::Iterator nx = l.erase(it); SIM_CHECK(nx.hasItems() == (pos + 1 < m.size()) && (!nx.hasItems() || val(nx.peek()) == m[pos + 1]), "contents", "erase of item just added by %s returned wrong position", nm); sim::Quiet q; m.erase(m.begin() + pos); } };
        switch (sim::param("op", 0, 12)) {
            case 0: case 1: { nm = "add"; List::Iterator r(0); t.run(nm, [&] { r = l.add(x); }); t.noerr(); if (!t.threw) { { sim::Quiet q; m.push_back(v); } check(r, m.size() - 1); } } break;
            case 2: { nm = "insertFirst"; List::Iterator r(0); t.run(nm, [&] { r = l.insertFirst(x); }); t.noerr(); if (!t.threw) { { sim::Quiet q; m.insert(m.begin(), v); } check(r, 0); } } break;
            case 3: { nm = "insertAfter"; List::Iterator r(0); t.run(nm, [&] { r = l.insertAfter(at(l, p), x); }); if (p == len) t.expect(ThisThread::kEmpty); else { t.noerr(); if (!t.threw) { { sim::Quiet q; m.insert(m.begin() + p + 1, v); } check(r, p + 1); } } } break;
            case 4: case 5: { nm = "insertBefore"; List::Iterator r(0), i = at(l, p); int was = p < len ? m[p] : -1; t.run(nm, [&] { r = l.insertBefore(i, x); }); if (p == len) t.expect(ThisThread::kEmpty); else { t.noerr(); if (!t.threw) { { sim::Quiet q; m.insert(m.begin() + p, v); }
                        SIM_CHECK(val(i.peek()) == was, "contents", "insertBefore moved position of the caller");
                        if (sim::coin("use")) { nm = "insertBefore, erase"; l.erase(i); sim::Quiet q; m.erase(m.begin() + p + 1); } else check(r, p); } } } break;
            case 6: nm = "eraseFirst"; t.run(nm, [&] { l.eraseFirst(); }); t.noerr(); if (!t.threw && len) { sim::Quiet q; m.erase(m.begin()); } break;
            case 7: case 8: { if (p == len) break; nm = "erase"; bool more = false; t.run(nm, [&] { List::Iterator r = l.erase(at(l, p)); more = r.hasItems(); if (more) shown = val(r.peek()); }); t.noerr(); if (!t.threw) { { sim::Quiet q; m.erase(m.begin() + p); } SIM_CHECK(more == (p < m.size()) && (!more || shown == m[p]), "contents", "erase returned wrong position"); } } break;
            case 9: nm = "copy"; t.run(nm, [&] { List c(l); sameList(c, m, "copy"); c.add(tv); c.insertFirst(tv); }); t.noerr(); break;
            case 10: if (sim::coin("self")) { nm = "assign(itself)"; t.run(nm, [&] { List &c = l; l = c; }); } else { nm = "assign"; t.run(nm, [&] { l = o; }); if (!t.threw) { sim::Quiet q; m = mo; } }
                t.noerr(); if (t.threw) { sim::Quiet q; size_t sz = l.size(); if (sz != len) { m.clear(); SIM_CHECK(sz <= mo.size(), "contents", "failed assignment"); m.assign(mo.begin(), mo.begin() + sz); } else { bool same = true; size_t i = 0; for (List::Iterator it = l.getFwIter(); it.hasItems(); i++) if (val(it.getNext()) != m[i]) same = false; if (!same) m = Model(mo.begin(), mo.begin() + sz); } } break;
            case 11: nm = "swap"; t.run(nm, [&] { l.swap(o); }); t.noerr(); if (!t.threw) { sim::Quiet q; m.swap(mo); } break;
            case 12: if (!sim::chance("clear", 1, 3)) break; nm = "clear"; t.run(nm, [&] { l.clear(); }); t.noerr(); if (!t.threw) { sim::Quiet q; m.clear(); } break;
        }
        sameList(*ls[0], mod[0], nm); sameList(*ls[1], mod[1], nm);
        SIM_CHECK(g_alive == (int)(mod[0].size() + mod[1].size()) + 1, "element", "after %s: %d elements exist, there should be %d", nm, g_alive - 1, (int)(mod[0].size() + mod[1].size()));
    }
}

// ---- Map, MultiMap, Set, MultiSet
struct CmpError : std::exception { const char *what() const throw() { return "comparison failed"; } };
static long g_cmpFail; static bool g_cmpFailed;
struct Less { bool operator()(const Elem &a, const Elem &b) const { if (g_cmpFail && !--g_cmpFail) { g_cmpFailed = true; throw CmpError(); } return a.get() < b.get(); } };
// order may fail to compare: then nothing happened
struct MapThread : ThisThread {
    bool cmpError;
    template<class F> bool run(const char *n, F f, bool cmp = true) {
        g_cmpFailed = cmpError = false; g_cmpFail = 0; if (cmp && failing && sim::chance("cmpfail", 1, 8)) g_cmpFail = sim::param("cmpat", 1, 6);
        bool caught = false;
        bool ok = ThisThread::run(n, [&] { try { f(); } catch (const CmpError &) { caught = true; } });
        g_cmpFail = 0; if (caught) { threw = true; kind = kMemory; cmpError = true; sim::probe("cmp_failed"); return false; }
        SIM_CHECK(!g_cmpFailed, "exception", "%s: failure of comparison was lost", n);
        return ok;
    }
};
typedef Map<Elem, Elem, Less> EMap; typedef std::map<int, int> MModel;
static int key() { return sim::param("k", 1, 25); }
template<class I> static void depth(const I &it, size_t n, const char *what, const char *op) { // balanced tree: at most 1.44 log2(n+2)
    size_t lim = 1; for (double c = 1, a = 1, b = 2; b <= n + 1; lim++) { double t = a + b; a = b; b = t; (void)c; } // smallest AVL tree of height h has F(h+2)-1 nodes
    SIM_CHECK(it.getMaxDepth() <= lim, "balance", "%s after %s: %d items, an item lies at depth %d", what, op, (int)n, (int)it.getMaxDepth());
}
static void sameMap(const EMap &m, const MModel &r, const char *op) {
    SIM_CHECK(m.size() == r.size() && m.empty() == r.empty() && m.length() == r.size(), "contents", "map after %s has %d items instead of %d", op, (int)m.size(), (int)r.size());
    auto i = r.begin(); for (EMap::Iterator it = m.getFwIter(); it.hasItems(); ++i) { SIM_CHECK(i != r.end(), "contents", "map after %s iterates over too many items", op); depth(it, r.size(), "map", op); const EMap::KeyValue &kv = it.getNext(); SIM_CHECK(val(kv.key) == i->first && val(kv.value) == i->second, "contents", "map after %s: item is %d=%d instead of %d=%d", op, val(kv.key), val(kv.value), i->first, i->second); }
    SIM_CHECK(i == r.end(), "contents", "map after %s iterates over too few items", op);
    auto j = r.rbegin(); for (EMap::Iterator it = m.getBkIter(); it.hasItems(); ++j) { SIM_CHECK(j != r.rend(), "contents", "map after %s iterates back over too many items", op); const EMap::KeyValue &kv = it.getNext(); SIM_CHECK(val(kv.key) == j->first, "contents", "map after %s backwards: item is %d instead of %d", op, val(kv.key), j->first); }
    SIM_CHECK(j == r.rend(), "contents", "map after %s iterates back over too few items", op);
}
// the iterator has to go over all items from its position
static void walks(EMap::Iterator it, const MModel &r, MModel::const_iterator i, bool fw, const char *op) {
    for (;;) { bool end = i == r.end(); SIM_CHECK(it.hasItems() == !end, "contents", "iterator returned by %s %s", op, end ? "continues behind the end" : "ends too early"); if (end) return; int k = val(it.getNext().key); SIM_CHECK(k == i->first, "contents", "iterator returned by %s: item is %d instead of %d", op, k, i->first); if (fw) ++i; else if (i == r.begin()) i = r.end(); else --i; }
}
SCENARIO(cont_map, "C29", 3) {
    Heap h; { Less l; MapThread t; int n = sim::param("ops", 4, 60);
    EMap *mp[2] = {new EMap(l), new EMap(l)}; MModel mod[2];
    struct Fin { EMap **a; ~Fin() { delete a[0]; delete a[1]; } } fin = {mp};
    for (int x = 0; x < n; x++) {
        int w = sim::chance("which", 1, 4); EMap &m = *mp[w], &o = *mp[1 - w]; MModel &r = mod[w], &ro = mod[1 - w]; const char *nm = "";
        int k = key(), v = someValue(); Elem ek(k), ev(v); bool has = r.count(k) != 0, put = false;
        switch (sim::param("op", 0, 19)) {
            case 0: case 1: case 2: case 3: { nm = "insert"; put = true; bool ex = sim::coin("ex0"); bool useEx = sim::coin("ex"), mv = sim::chance("mv", 1, 4); EMap::Iterator it;
                t.run(nm, [&] { if (mv) it = m.insert(Elem(k), Elem(v), useEx ? &ex : 0); else it = m.insert(ek, ev, useEx ? &ex : 0); }); t.noerr();
                if (!t.threw) { { sim::Quiet q; r.insert(std::make_pair(k, v)); } if (useEx) SIM_CHECK(ex == has, "contents", "insert reports that key %s, it %s", ex ? "exists" : "is new", has ? "exists" : "is new"); walks(it, r, r.find(k), true, nm); } } break;
            case 4: { nm = "replace"; put = true; EMap::Iterator it; t.run(nm, [&] { it = m.replace(ek, ev); }); t.noerr(); if (!t.threw) { { sim::Quiet q; r[k] = v; } walks(it, r, r.find(k), true, nm); } } break;
            case 5: { nm = "operator()"; put = true; t.run(nm, [&] { m(ek) = ev; }); t.noerr(); if (!t.threw) { sim::Quiet q; r[k] = v; } } break;
            case 6: { nm = "operator()(value)"; put = true; int g = 0; t.run(nm, [&] { g = val(m(ek, ev)); }); t.noerr(); if (!t.threw) { sim::Quiet q; r.insert(std::make_pair(k, v)); SIM_CHECK(g == r[k], "contents", "operator() returned %d instead of %d", g, r[k]); } } break;
            case 7: case 8: case 9: { nm = "erase"; bool er = false; t.run(nm, [&] { er = m.erase(ek); }); t.noerr(); if (!t.threw) { SIM_CHECK(er == has, "contents", "erase returned %d, key %s", er, has ? "existed" : "did not exist"); sim::Quiet q; r.erase(k); } } break;
            case 10: { nm = "find"; const EMap &c = m; const Elem *f = 0, *g = 0; t.run(nm, [&] { f = m.find(ek); g = c.find(ek); }); t.noerr(); if (!t.threw) SIM_CHECK(f == g && !!f == has && (!f || val(*f) == r[k]), "contents", "find of key %d is wrong", k); } break;
            case 11: { nm = "operator[]"; const EMap &c = m; int g = 0; bool nf = false; t.run(nm, [&] { try { g = val(c[ek]); } catch (const NotFoundException &) { nf = true; } }); t.noerr(); if (!t.threw) SIM_CHECK(nf == !has && (nf || g == r[k]), "contents", "operator[] of key %d is wrong", k); } break;
            case 12: case 13: { bool fw = sim::coin("fw"); nm = fw ? "seek" : "seek backward"; bool fnd = sim::coin("f0"); EMap::Iterator it; t.run(nm, [&] { it = m.seek(ek, &fnd, fw ? Direction::forward : Direction::backward); }); t.noerr();
                if (!t.threw) { SIM_CHECK(fnd == has, "contents", "seek reports that key %s", fnd ? "exists" : "does not exist"); MModel::iterator i = r.lower_bound(k); if (!fw && !has) { if (i == r.begin()) i = r.end(); else --i; } walks(it, r, i, fw, nm); } } break;
            case 14: case 15: { nm = "erase(iterator)"; bool fnd = false; bool fw = sim::coin("fw"); EMap::Iterator it = m.seek(ek, &fnd, fw ? Direction::forward : Direction::backward); if (!it.hasItems()) break; int kk = val(it.peek().key);
                t.run(nm, [&] { m.erase(it); }, false); t.noerr(); if (!t.threw) { MModel::iterator i; { sim::Quiet q; i = r.find(kk); i = r.erase(i); if (!fw) { if (i == r.begin()) i = r.end(); else --i; } } walks(it, r, i, fw, nm); } } break;
            case 16: nm = "copy"; t.run(nm, [&] { EMap c(m); sameMap(c, r, "copy"); c.insert(ek, ev); }); t.noerr(); break;
            case 17: if (sim::coin("self")) { nm = "assign(itself)"; t.run(nm, [&] { EMap &c = m; m = c; }); t.noerr(); }
                else { nm = "assign"; t.run(nm, [&] { m = o; }); t.noerr(); sim::Quiet q; if (!t.threw) r = ro; else { r.clear(); for (EMap::Iterator it = m.getFwIter(); it.hasItems();) { const EMap::KeyValue &kv = it.getNext(); r[val(kv.key)] = val(kv.value); } } } break;
            case 18: nm = "swap"; t.run(nm, [&] { m.swap(o); }); t.noerr(); if (!t.threw) { sim::Quiet q; r.swap(ro); } break;
            case 19: if (!sim::chance("clear", 1, 3)) break; nm = "clear"; t.run(nm, [&] { m.clear(); }); t.noerr(); if (!t.threw) { sim::Quiet q; r.clear(); } break;
        }
        if (t.threw && t.cmpError && put && !has && m.size() == r.size() + 1) { const Elem *f = m.find(ek); SIM_CHECK(f, "contents", "item inserted under other key"); int fv = val(*f); SIM_CHECK(fv == v || fv == 0, "contents", "other value inserted"); sim::Quiet q; r[k] = fv; } // position of the inserted item could not be found
        sameMap(*mp[0], mod[0], nm); sameMap(*mp[1], mod[1], nm);
        SIM_CHECK(g_alive == 2 * (int)(mod[0].size() + mod[1].size()) + 2, "element", "after %s: %d elements exist, there should be %d", nm, g_alive - 2, 2 * (int)(mod[0].size() + mod[1].size()));
    } }
}
typedef Set<int> ISet;
static void sameSet(const ISet &s, const std::set<int> &r, const char *op) {
    SIM_CHECK(s.size() == r.size() && s.empty() == r.empty(), "contents", "set after %s has %d items instead of %d", op, (int)s.size(), (int)r.size());
    auto i = r.begin(); for (ISet::Iterator it = s.getFwIter(); it.hasItems(); ++i) { SIM_CHECK(i != r.end(), "contents", "set after %s iterates over too many items", op); depth(it, r.size(), "set", op); int v = it.getNext(); SIM_CHECK(v == *i, "contents", "set after %s: item is %d instead of %d", op, v, *i); }
    SIM_CHECK(i == r.end(), "contents", "set after %s iterates over too few items", op);
}
SCENARIO(cont_set, "C29", 2) {
    Heap h; { ThisThread t; int n = sim::param("ops", 4, 50), big = sim::coin("big") ? 200 : 20;
    ISet *st[2] = {new ISet, new ISet}; std::set<int> mod[2];
    struct Fin { ISet **a; ~Fin() { delete a[0]; delete a[1]; } } fin = {st};
    for (int x = 0; x < n; x++) {
        int w = sim::coin("which"); ISet &s = *st[w], &o = *st[1 - w]; std::set<int> &r = mod[w], &ro = mod[1 - w]; const char *nm = ""; int v = sim::param("v", 1, big); std::set<int> want;
        switch (sim::param("op", 0, 8)) {
            case 0: case 1: case 2: { nm = "insert"; bool ex = false; bool has = r.count(v); t.run(nm, [&] { s.insert(v, &ex); }); t.noerr(); if (!t.threw) { SIM_CHECK(ex == has, "contents", "insert to set reports wrong existence"); sim::Quiet q; r.insert(v); } } break;
            case 3: { nm = "insert many"; int c = sim::param("cnt", 0, 12), step = sim::param("step", 1, 3), i = 0; t.run(nm, [&] { for (; i < c; i++) s.insert(v + i * step); }); t.noerr(); sim::Quiet q; for (int k = 0; k < i; k++) r.insert(v + k * step); } break;
            case 4: { nm = "find"; const int *f = s.find(v); SIM_CHECK(!!f == (r.count(v) != 0) && (!f || *f == v), "contents", "find in set is wrong"); } break;
            case 5: { nm = "compare"; CompareResult c = s.compare(o); bool lt, gt; { sim::Quiet q; lt = r < ro; gt = ro < r; } SIM_CHECK(c == (lt ? cmpResultLess : gt ? cmpResultGreater : cmpResultEqual), "contents", "comparison of sets is wrong"); SIM_CHECK((s == o) == (!lt && !gt) && (s < o) == lt, "contents", "comparison of sets is wrong"); } break;
            case 6: { nm = "erase"; bool e = false, has = r.count(v); t.run(nm, [&] { e = s.erase(v); }); t.noerr(); if (!t.threw) { SIM_CHECK(e == has, "contents", "erase from set returned wrong result"); sim::Quiet q; r.erase(v); } } break;
            case 7: { nm = "forEach"; Direction::Type d[4] = {Direction::forward, Direction::backward, Direction::up, Direction::down}; int di = sim::param("dir", 0, 3); std::vector<int> got; { sim::Quiet q; got.reserve(r.size() + 1); } int stop = sim::coin("stop") ? v : -1; bool b = s.forEach([&](int e) { got.push_back(e); return e == stop; }, d[di]);
                sim::Quiet q; bool has = stop >= 0 && r.count(stop); SIM_CHECK(b == has, "contents", "forEach returned %d", b); if (!has) { std::vector<int> all(r.begin(), r.end()); if (di == 1) std::reverse(all.begin(), all.end()); if (di > 1) std::sort(got.begin(), got.end()); SIM_CHECK(got == all, "contents", "forEach did not visit each item once in order"); } else SIM_CHECK(got.back() == stop, "contents", "forEach continued after stop"); } break;
            case 8: nm = "copy and assign"; if (sim::coin("self")) { ISet &c = s; s = c; } else { t.run(nm, [&] { ISet c(s); sameSet(c, r, nm); c.insert(v); o = c; }); t.noerr(); sim::Quiet q; if (!t.threw) { ro = r; ro.insert(v); } else { ro.clear(); for (ISet::Iterator it = o.getFwIter(); it.hasItems();) ro.insert(it.getNext()); } } break;
        }
        sameSet(*st[0], mod[0], nm); sameSet(*st[1], mod[1], nm);
    } }
}
// more values under one key, in order of insertion
typedef MultiMap<Elem, Elem, Less> EMulti; typedef std::map<int, Model> MMModel;
struct MPos { MMModel::const_iterator k; size_t i; };
static void multiWalk(EMulti::Iterator it, const MMModel &r, MMModel::const_iterator k, size_t i, bool fw, const char *op) {
    for (;;) {
        if (k != r.end() && i == k->second.size()) { i = 0; if (fw) ++k; else if (k == r.begin()) k = r.end(); else --k; }
        bool end = k == r.end(); SIM_CHECK(it.hasItems() == !end, "contents", "multimap, %s: iterator %s", op, end ? "continues behind the end" : "ends too early"); if (end) return;
        const EMulti::KeyValue &p = it.peek(); SIM_CHECK(val(p.key) == k->first && val(p.value) == k->second[i], "contents", "multimap, %s: item under iterator is %d=%d instead of %d=%d", op, val(p.key), val(p.value), k->first, k->second[i]);
        const EMulti::KeyValue &q = it.getNext(); SIM_CHECK(val(q.key) == k->first && val(q.value) == k->second[i], "contents", "multimap, %s: item is %d=%d instead of %d=%d", op, val(q.key), val(q.value), k->first, k->second[i]); i++;
    }
}
static size_t sameMulti(const EMulti &m, const MMModel &r, const char *op) {
    size_t c = 0; for (auto &p : r) c += p.second.size();
    SIM_CHECK(m.size() == c && m.keyCount() == r.size() && m.empty() == r.empty(), "contents", "multimap after %s has %d items under %d keys instead of %d under %d", op, (int)m.size(), (int)m.keyCount(), (int)c, (int)r.size());
    multiWalk(m.getFwIter(), r, r.begin(), 0, true, op); MMModel::const_iterator e = r.end(); if (e != r.begin()) --e; multiWalk(m.getBkIter(), r, e, 0, false, op);
    return c;
}
SCENARIO(cont_multi, "C29", 2) {
    Heap h; { Less l; ThisThread t; int n = sim::param("ops", 4, 60), keys = sim::param("keys", 2, 12);
    EMulti *mp[2] = {new EMulti(l), new EMulti(l)}; MMModel mod[2];
    struct Fin { EMulti **a; ~Fin() { delete a[0]; delete a[1]; } } fin = {mp};
    for (int x = 0; x < n; x++) {
        int w = sim::chance("which", 1, 4); EMulti &m = *mp[w], &o = *mp[1 - w]; MMModel &r = mod[w], &ro = mod[1 - w]; const char *nm = "";
        int k = sim::param("k", 1, keys), v = someValue(); Elem ek(k), ev(v); bool has = r.count(k) != 0;
        switch (sim::param("op", 0, 13)) {
            case 0: case 1: case 2: case 3: case 4: { nm = "insert"; EMulti::Iterator it = m.getFwIter(); t.run(nm, [&] { it = m.insert(ek, ev); }); t.noerr(); if (!t.threw) { { sim::Quiet q; r[k].push_back(v); } MMModel::iterator i = r.find(k); multiWalk(it, r, i, i->second.size() - 1, true, nm); } } break;
            case 5: { nm = "erase(key)"; bool er = false; t.run(nm, [&] { er = m.erase(ek); }); t.noerr(); if (!t.threw) { SIM_CHECK(er == has, "contents", "erase returned %d, key %s", er, has ? "existed" : "did not exist"); sim::Quiet q; r.erase(k); } } break;
            case 6: case 7: case 8: { nm = "erase(iterator)"; bool fw = sim::coin("fw"); if (r.empty()) break; EMulti::Iterator it = fw ? m.getFwIter() : m.getBkIter(); MMModel::iterator i = r.begin(); if (!fw) { i = r.end(); --i; } size_t j = 0; bool end = false;
                auto norm = [&] { if (j == i->second.size()) { j = 0; if (fw) { ++i; end = i == r.end(); } else if (i == r.begin()) end = true; else --i; } };
                for (int s = sim::param("steps", 0, 8); s > 0 && !end; s--) { it.getNext(); j++; norm(); }
                for (int s = sim::param("count", 1, 4); s > 0 && !end; s--) { t.run(nm, [&] { m.erase(it); }); t.noerr(); if (t.threw) break; sim::Quiet q; i->second.erase(i->second.begin() + j);
                    if (i->second.empty()) { if (fw) { i = r.erase(i); end = i == r.end(); } else { bool b = i == r.begin(); i = r.erase(i); if (b) end = true; else --i; } j = 0; } else norm(); multiWalk(it, r, end ? r.end() : MMModel::const_iterator(i), end ? 0 : j, fw, nm); } } break;
            case 9: { nm = "find"; std::vector<int> got; { sim::Quiet q; got.reserve(100); } t.run(nm, [&] { for (EMulti::ListIter it = m.find(ek); it.hasItems();) { const Elem &e = it.getNext(); SIM_CHECK(got.size() < 100, "contents", "find does not end"); got.push_back(val(e)); } }); t.noerr(); if (!t.threw) SIM_CHECK(has ? got == r[k] : got.empty(), "contents", "multimap: find returned %d values instead of %d, or other ones", (int)got.size(), has ? (int)r[k].size() : 0); } break;
            case 10: { nm = "seek"; bool f = sim::coin("f0"); EMulti::Iterator it = m.getFwIter(); t.run(nm, [&] { it = m.seek(ek, &f); }); t.noerr(); if (!t.threw) { SIM_CHECK(f == has, "contents", "multimap: seek reports that key %s", f ? "exists" : "does not exist"); multiWalk(it, r, r.lower_bound(k), 0, true, nm); } } break;
            case 11: nm = "copy"; t.run(nm, [&] { EMulti c(m); sameMulti(c, r, "copy"); c.insert(ek, ev); }); t.noerr(); break;
            case 12: if (sim::coin("self")) { nm = "assign(itself)"; t.run(nm, [&] { EMulti &c = m; m = c; }); t.noerr(); }
                else { nm = "assign"; t.run(nm, [&] { m = o; }); t.noerr(); sim::Quiet q; if (!t.threw) r = ro; else { r.clear(); for (EMulti::Iterator it = m.getFwIter(); it.hasItems();) { const EMulti::KeyValue &kv = it.getNext(); r[val(kv.key)].push_back(val(kv.value)); } } } break;
            case 13: if (sim::coin("how")) { nm = "swap"; t.run(nm, [&] { m.swap(o); }); t.noerr(); if (!t.threw) { sim::Quiet q; r.swap(ro); } } else if (sim::chance("clear", 1, 3)) { nm = "clear"; t.run(nm, [&] { m.clear(); }); t.noerr(); if (!t.threw) { sim::Quiet q; r.clear(); } } break;
        }
        size_t c = sameMulti(*mp[0], mod[0], nm) + sameMulti(*mp[1], mod[1], nm), ks = mod[0].size() + mod[1].size();
        SIM_CHECK(g_alive == (int)(c + ks) + 2, "element", "after %s: %d elements exist, there should be %d", nm, g_alive - 2, (int)(c + ks));
    } }
}
typedef MultiSet<Elem, Less> EMSet;
static void sameMSet(const EMSet &s, const std::multiset<int> &r, const char *op) {
    size_t keys = 0; { int last = -1; for (int v : r) { if (v != last) keys++; last = v; } }
    SIM_CHECK(s.size() == r.size() && s.keyCount() == keys, "contents", "multiset after %s has %d items under %d keys instead of %d under %d", op, (int)s.size(), (int)s.keyCount(), (int)r.size(), (int)keys);
    auto i = r.begin(); for (EMSet::Iterator it = s.getFwIter(); it.hasItems(); ++i) { SIM_CHECK(i != r.end(), "contents", "multiset after %s iterates over too many items", op); int v = val(it.getNext()); SIM_CHECK(v == *i, "contents", "multiset after %s: item is %d instead of %d", op, v, *i); }
    SIM_CHECK(i == r.end(), "contents", "multiset after %s iterates over too few items", op);
}
SCENARIO(cont_multiset, "C29", 1) {
    Heap h; { ThisThread t; int n = sim::param("ops", 4, 50), keys = sim::param("keys", 2, 12); EMSet s(Less(), createDefaultNodeAllocator()); std::multiset<int> r;
    for (int x = 0; x < n; x++) {
        const char *nm = ""; int v = sim::param("k", 1, keys); Elem e(v); bool has = r.count(v) != 0;
        switch (sim::param("op", 0, 5)) {
            case 0: case 1: case 2: { nm = "insert"; int g = 0; t.run(nm, [&] { g = val(s.insert(e).peek()); }); t.noerr(); if (!t.threw) { SIM_CHECK(g == v, "contents", "insert returned position of other item"); sim::Quiet q; r.insert(v); } } break;
            case 3: { nm = "erase(iterator)"; if (r.empty()) break; EMSet::Iterator it = s.getFwIter(); std::multiset<int>::iterator i = r.begin(); for (int k = sim::param("steps", 0, (int)r.size() - 1); k; k--) { it.getNext(); ++i; }
                t.run(nm, [&] { s.erase(it); }); t.noerr(); if (!t.threw) { { sim::Quiet q; i = r.erase(i); } for (; i != r.end(); ++i) { SIM_CHECK(it.hasItems(), "contents", "multiset: iterator after erase ends too early"); int g = val(it.getNext()); SIM_CHECK(g == *i, "contents", "multiset: item after erased one is %d instead of %d", g, *i); } SIM_CHECK(!it.hasItems(), "contents", "multiset: iterator after erase continues behind the end"); } } break;
            case 4: { nm = "find"; int c = 0; t.run(nm, [&] { for (auto it = s.find(e); it.hasItems();) { int g = val(it.getNext()); SIM_CHECK(g == v, "contents", "find returned other item"); c++; } }); t.noerr(); if (!t.threw) SIM_CHECK(c == (int)r.count(v), "contents", "multiset: found %d items instead of %d", c, (int)r.count(v)); } break;
            case 5: { nm = "seek"; bool f = sim::coin("f0"); EMSet::Iterator it = s.getFwIter(); t.run(nm, [&] { it = s.seek(e, &f); }); t.noerr(); if (!t.threw) { SIM_CHECK(f == has, "contents", "multiset: seek reports that key %s", f ? "exists" : "does not exist"); auto i = r.lower_bound(v); SIM_CHECK(it.hasItems() == (i != r.end()) && (i == r.end() || val(it.peek()) == *i), "contents", "multiset: seek found other item"); } } break;
        }
        sameMSet(s, r, nm); SIM_CHECK(g_alive == (int)r.size() + 1, "element", "after %s: %d elements exist, there should be %d", nm, g_alive - 1, (int)r.size());
    } }
}

// ---- allocator of small objects: blocks do not overlap, all memory returns
SCENARIO(cont_cluster, "C29", 1) {
    { StdAlloc s; ClusterAlloc w; w.dealloc(w.alloc(8), 8); }
    Heap h; { ThisThread t; int n = sim::param("ops", 10, 200), kinds = sim::param("kinds", 1, 3); static const int sizes[] = {1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 24, 31, 40}; int szs[3]; for (int i = 0; i < kinds; i++) szs[i] = sizes[sim::param("size", 0, 13)];
    struct Blk { unsigned char *p; int sz; unsigned char pat; IRuntimeAlloc *owner; }; std::vector<Blk> bl; unsigned char next = 1; sim::setStepLimit(4000000);
    struct Fin { std::vector<Blk> &b; ~Fin() { sim::Quiet q; std::vector<Blk>().swap(b); } } fin = {bl};
    { ClusterAlloc ca;
    auto intact = [&](const Blk &b) { for (int i = 0; i < b.sz; i++) SIM_CHECK(b.p[i] == b.pat, "contents", "block of %d bytes was overwritten", b.sz); };
    int grow = sim::param("grow", 3, 7);
    for (int k = 0; k < n; k++) {
        if (bl.empty() || sim::param("act", 0, 9) < grow) {
            int sz = szs[sim::param("k", 0, kinds - 1)]; void *p = 0; IRuntimeAlloc *ow = 0; int how = sim::param("how", 0, 3);
            t.run("alloc", [&] { if (how == 0) p = ca.alloc(sz); else if (how == 1 && !bl.empty() && bl.back().owner) { p = bl.back().owner->alloc(sz); } else p = ca.alloc(sz, ow); }); t.noerr(); if (t.threw) continue;
            Blk b = {(unsigned char *)p, sz, next++, ow}; if (!next) next = 1; { size_t al = 1; while (al < 8 && sz % (al * 2) == 0) al *= 2; SIM_CHECK((size_t)p % al == 0, "contents", "block of %d bytes is not aligned", sz); }
            for (const Blk &o : bl) SIM_CHECK(b.p + sz <= o.p || o.p + o.sz <= b.p, "contents", "allocator gave overlapping blocks of %d and %d bytes", sz, o.sz);
            memset(p, b.pat, sz); sim::Quiet q; bl.push_back(b);
        } else {
            size_t i = sim::param("which", 0, (int)bl.size() - 1); Blk b = bl[i]; intact(b); bool own = b.owner && sim::coin("own"); t.run(own ? "dealloc by owner" : "dealloc", [&] { if (own) b.owner->dealloc(b.p, b.sz); else ca.dealloc(b.p, b.sz); }); t.noerr();
            if (!t.threw) { sim::Quiet q; bl.erase(bl.begin() + i); }
        }
        if (k % 16 == 0) for (auto &b : bl) intact(b);
    }
    for (auto &b : bl) intact(b);
    if (sim::coin("leak")) { bool thr = false; t.failing = false; try { ca.clear(); } catch (const MemoryLeakException &e) { thr = true; SIM_CHECK(strlen(e.what()), "contents", "empty report"); } SIM_CHECK(thr == !bl.empty(), "contents", "%d blocks remained allocated, allocator %s", (int)bl.size(), thr ? "reports leaks" : "reports nothing"); }
    else for (auto &b : bl) ca.dealloc(b.p, b.sz);
    } }
}
