// simulated threads, semaphores, mutexes, clocks and sleeps
#include "rt.h"
#include <errno.h>
#include <limits.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/time.h>
#include <sys/times.h>
#include <time.h>
#include <unistd.h>
using namespace rt;

static uint64_t tsToNs(const struct timespec *t) { return (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; }
static int64_t g_realSkew = 0;   // CLOCK_REALTIME - simulated monotonic
namespace sim { void clockSkew(int64_t us) { g_realSkew += us * 1000; } }
static uint64_t realNow() { return g_now + g_realSkew; }
static uint64_t realToMono(uint64_t r) { int64_t d = (int64_t)r - g_realSkew; return d < 0 ? 0 : (uint64_t)d; }

// a semaphore which is not shared does not wake waiters of other processes
struct SimSem { unsigned magic; volatile int value; int pshared; void *volatile poster; };
struct SemWait { SimSem *s; void *proc; };
static_assert(sizeof(SimSem) <= sizeof(sem_t), "");
static const unsigned SEMM = 0x5e35e35e, MTXM = 0x37373701;
static SimSem *S(sem_t *s) { SimSem *x = (SimSem *)s; if (x->magic != SEMM) violation("semaphore-misuse", "operation on a destroyed or uninitialised semaphore"); return x; }
static void *curProc() { return g_cur ? g_cur->proc : nullptr; }
static void kop() { if (rt::g_kernelOp) rt::g_kernelOp(); }
static bool semReady(void *a) { SemWait *w = (SemWait *)a; return w->s->value > 0 && (w->s->pshared || w->s->poster == w->proc); }

extern "C" {
int sim_sem_init(sem_t *s, int ps, unsigned v) { SimSem *x = (SimSem *)s; x->magic = SEMM; x->pshared = ps; x->poster = curProc(); x->value = (int)v; return 0; }
int sim_sem_destroy(sem_t *s) { point(-1); S(s)->magic = 0xdead5e3; return 0; }
int sim_sem_post(sem_t *s) { point(-1); kop(); SimSem *x = S(s); x->poster = curProc(); x->value++; point(-1); return 0; }
int sim_sem_getvalue(sem_t *s, int *v) { point(-1); *v = S(s)->value; return 0; }
int sim_sem_trywait(sem_t *s) { point(-1); kop(); SimSem *x = S(s); if (x->value > 0) { x->value--; return 0; } errno = EAGAIN; return -1; }
int sim_sem_wait(sem_t *s) {
    point(-1); kop();
    SimSem *x = S(s);
    if (fault("sem_eintr")) { errno = EINTR; return -1; }
    SemWait w = {x, curProc()};
    while (x->value <= 0) block("semaphore", semReady, &w, NEVER);
    x->value--;
    point(-1);
    return 0;
}
int sim_sem_timedwait(sem_t *s, const struct timespec *t) {
    point(-1); kop();
    SimSem *x = S(s);
    if (x->value > 0) { x->value--; return 0; }
    if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) { errno = EINVAL; return -1; }
    if (fault("sem_eintr")) { errno = EINTR; return -1; }
    uint64_t dl = realToMono(tsToNs(t));
    if (t->tv_sec < 0) dl = 0;
    SemWait w = {x, curProc()};
    while (x->value <= 0) {
        if (dl <= g_now) { errno = ETIMEDOUT; return -1; }
        block("timed semaphore", semReady, &w, dl);
    }
    x->value--;
    point(-1);
    return 0;
}

// ---- threads
static int g_attrDetached;
int sim_pthread_attr_init(pthread_attr_t *) { return 0; }
int sim_pthread_attr_destroy(pthread_attr_t *) { return 0; }
int sim_pthread_attr_setdetachstate(pthread_attr_t *, int s) { g_attrDetached = s; return 0; }
int sim_pthread_attr_setstacksize(pthread_attr_t *, size_t) { return 0; }
int sim_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    point(-1);
    if (fault("thread_create_fail")) return EAGAIN;
    g_quiet++;
    int id = newFiber("thread", [fn, arg] { fn(arg); });
    g_quiet--;
    *t = (pthread_t)(id + 1);
    mix(0x7777 + id);
    logf("pthread_create -> fiber %d", id);
    point(-1);
    return 0;
}
pthread_t sim_pthread_self() { return (pthread_t)(g_cur ? g_cur->id + 1 : 9999); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_detach(pthread_t) { return 0; }
int sim_pthread_join(pthread_t t, void **r) { sim::joinFiber((int)t - 1); if (r) *r = nullptr; return 0; }
int sim_sched_yield() { sim::pass(); return 0; }
int sim_pthread_yield() { sim::pass(); return 0; }

struct SimMtx { unsigned magic; int owner; int count; short robust, state; };   // state: 1 = owner died, not made consistent; 2 = not recoverable
static SimMtx *M(pthread_mutex_t *m) { SimMtx *x = (SimMtx *)m; if (x->magic != MTXM) { x->magic = MTXM; x->owner = -1; x->count = 0; x->robust = x->state = 0; } return x; }
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { SimMtx *x = (SimMtx *)m; x->magic = MTXM; x->owner = -1; x->count = 0; x->state = 0; int r = 0; if (a) pthread_mutexattr_getrobust(a, &r); x->robust = r == PTHREAD_MUTEX_ROBUST; return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { ((SimMtx *)m)->magic = 0; return 0; }
static bool mtxReady(void *a) { SimMtx *x = (SimMtx *)a; return x->owner < 0 || (x->robust && g_fib[x->owner].state == 3); }
static int mtxTake(SimMtx *x) {
    if (x->state == 2) return ENOTRECOVERABLE;
    if (x->owner >= 0) { x->state = 1; logf("owner of robust mutex died"); }   // owner died
    x->owner = g_cur->id; return x->state ? EOWNERDEAD : 0;
}
static int mtxLock(pthread_mutex_t *m, uint64_t dl) { point(-1); SimMtx *x = M(m); if (x->robust) kop(); while (!mtxReady(x)) { if (dl <= g_now) return ETIMEDOUT; block("mutex", mtxReady, x, dl); } int r = mtxTake(x); point(-1); return r; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) { return mtxLock(m, NEVER); }
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { if (mtxReady(M(m))) return mtxLock(m, NEVER); if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL; return mtxLock(m, t->tv_sec < 0 ? 0 : realToMono(tsToNs(t))); }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { point(-1); SimMtx *x = M(m); if (!mtxReady(x)) return EBUSY; return mtxTake(x); }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { point(-1); SimMtx *x = M(m); if (x->robust) kop(); if (x->robust && x->owner != g_cur->id) return EPERM; if (x->state == 1) x->state = 2; x->owner = -1; point(-1); return 0; }
int sim_pthread_mutex_consistent(pthread_mutex_t *m) { SimMtx *x = M(m); if (!x->robust || x->state != 1) return EINVAL; x->state = 0; return 0; }
struct SimCond { unsigned magic; unsigned seq; unsigned wake; };
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof(SimCond)); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *) { return 0; }
int sim_pthread_cond_signal(pthread_cond_t *c) { point(-1); ((SimCond *)c)->seq++; return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { point(-1); ((SimCond *)c)->seq++; return 0; }
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t dl) {
    struct W { SimCond *c; unsigned s; } w = {(SimCond *)c, ((SimCond *)c)->seq};
    M(m)->owner = -1;
    bool ok = block("condition", [](void *a) { return ((W *)a)->c->seq != ((W *)a)->s; }, &w, dl);
    sim_pthread_mutex_lock(m);
    return ok ? 0 : ETIMEDOUT;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return condWait(c, m, NEVER); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return condWait(c, m, realToMono(tsToNs(t))); }

struct mallinfo sim_mallinfo() { struct mallinfo m; memset(&m, 0, sizeof m); return m; }
// ---- clocks and sleeping
time_t sim_time(time_t *t) { if (g_active) g_now += 100; time_t r = (time_t)(realNow() / 1000000000ull); if (t) *t = r; return r; }
int sim_gettimeofday(struct timeval *tv, void *) { if (g_active) { point(1); g_now += 1000; } uint64_t n = realNow(); tv->tv_sec = n / 1000000000ull; tv->tv_usec = (n / 1000) % 1000000; return 0; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) { if (g_active) { point(1); g_now += 1000; } uint64_t n = c == CLOCK_REALTIME ? realNow() : g_now; ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull; return 0; }
clock_t sim_clock() { if (g_active) g_now += 1000; return (clock_t)((g_now / 1000) % 1000000000ull); }
clock_t sim_times(struct tms *t) { if (t) memset(t, 0, sizeof *t); return (clock_t)((g_now / 10000000) % 1000000000ull); }
int sim_usleep(useconds_t us) { if (!us) { sim::pass(); return 0; } block("usleep", nullptr, nullptr, g_now + us * 1000ull); return 0; }
unsigned sim_sleep(unsigned s) { block("sleep", nullptr, nullptr, g_now + s * 1000000000ull); return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { block("nanosleep", nullptr, nullptr, g_now + tsToNs(t)); return 0; }
int sim_clock_nanosleep(clockid_t, int, const struct timespec *t, struct timespec *) { block("nanosleep", nullptr, nullptr, g_now + tsToNs(t)); return 0; }
typedef void (*exit_fn)();
static exit_fn g_exit[256]; static int g_nexit;
int sim_atexit(exit_fn f) { if (g_nexit < 256) g_exit[g_nexit++] = f; return 0; }
int sim_sigaction(int, const struct sigaction *, struct sigaction *o) { if (o) memset(o, 0, sizeof *o); return 0; }
}
extern "C" {
typedef void (*sh_t)(int);
sh_t sim_signal(int, sh_t) { return SIG_DFL; }
int sim_daemon(int, int) { unsupported("daemon"); }
int sim_system(const char *) { unsupported("system"); }
}
namespace sim { void runAtExit() { while (g_nexit) g_exit[--g_nexit](); } }
