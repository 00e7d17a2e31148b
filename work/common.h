#pragma once
#include <vector>
#include <memory>
#include <functional>
#include "sim.h"
#include "lightspeed/base/types.h"
#include "lightspeed/mt/thread.h"
#include "lightspeed/mt/threadMinimal.h"
#include "lightspeed/base/actions/message.h"
#include "lightspeed/base/exceptions/exception.h"
#include "lightspeed/base/containers/string.h"
#include <exception>
#include <string>
using namespace LightSpeed;

// threads made by the library, running given bodies, joined at the end of scope
struct Crew {
    std::vector<std::unique_ptr<Thread>> th;
    // no body lets an exception out; if one comes here, the library threw where it should not
    struct Call { std::function<void()> f; void operator()() const {
        std::string m;
        try { f(); return; }
        catch (const Exception &e) { sim::Quiet q; m = e.getMessage().getUtf8().data(); }
        catch (const std::exception &e) { m = e.what(); }
        sim::violation("unexpected-exception", "thread ended by an exception: %s", m.c_str());
    } };
    void go(std::function<void()> f) {
        Thread *t;
        { sim::Quiet q; th.emplace_back(new Thread()); t = th.back().get(); }
        Call c; { sim::Quiet q; c.f = f; }
        (*t) >> c;
    }
    void join() { for (auto &t : th) t->join(); }
    ~Crew() { join(); }
};
// counter of threads inside a critical region, checked quietly
struct Region {
    int inside = 0, max = 0; long entries = 0;
    const char *what;
    Region(const char *w) : what(w) {}
    void enter(int limit) {
        sim::Quiet q;
        inside++; entries++; if (inside > max) max = inside;
        sim::event("enter %s inside=%d", what, inside);
        SIM_CHECK(inside <= limit, "mutual-exclusion", "%s: %d threads inside a region limited to %d", what, inside, limit);
    }
    void leave() { sim::Quiet q; inside--; sim::event("leave %s", what); }
};
// stay here for a while: other threads may get far meanwhile
inline void dwell() {
    switch (sim::param("dwell", 0, 4)) {
        case 0: case 1: sim::yield(); break;
        case 2: sim::pass(); break;
        case 3: sim::pass(); sim::pass(); break;
        case 4: sim::sleep_us(1500); break;
    }
}
