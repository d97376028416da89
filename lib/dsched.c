// See dsched.h. Plain C, compiled without sanitizers on purpose.
#define _GNU_SOURCE
#include "dsched.h"
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

enum { FREE, RUNNABLE, B_MUTEX, B_RW, B_COND, B_FUTEX, B_JOIN, B_SLEEP, B_QUIESCE, B_GATE, DONE };
static const char* const state_name[] = { "free", "runnable", "mutex", "rwlock", "condvar", "futex", "join", "sleep", "quiesce", "gate", "done" };

#define MAXT 1024
#define MAXM 8192
#define MAXE (1u << 17)
#define NOTIME UINT64_MAX

struct thr
{
    int state, id, go, timedout, held, nopre, detached, joined;
    const void* obj;
    uint64_t deadline;      // NOTIME when none
    int64_t prio;
    pthread_t pt;
    void* (*fn)(void*);
    void* arg;
};

struct mtx { const void* addr; int owner, count, readers; };

static struct thr T[MAXT];
static int nT, cur, active;
static struct mtx M[MAXM];
static struct ds_event E[MAXE];
static uint32_t nE;
static uint64_t vt, rng, hash_, seed_;
static uint32_t steps, soft_limit = 30000, hard_limit = 400000;
static int frozen, flags_, strat, spurious, last_run, run_len;
static uint32_t sticky, pct_left, jump_den;
static int starved;
static ds_fatal_fn fatal_;
static const char *dead_lo, *dead_hi;
static int64_t slots[16384];
static __thread struct thr* self;

static const int64_t RT_BASE = 1700000000000000000LL, MONO_BASE = 5000000000000LL;

static long raw6(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

static uint64_t rnd(void)
{
    uint64_t z = (rng += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static uint32_t below(uint32_t n) { return n ? (uint32_t)(rnd() % n) : 0; }
uint64_t ds_rand(void) { return rnd(); }

static void wake(struct thr* t) { __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE); raw6(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void wait_go(struct thr* t)
{
    while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) raw6(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}

static void die(int what, const char* why)
{
    static char buf[8192]; int n = 0;
    n += snprintf(buf + n, sizeof buf - n, "%s; threads:", why);
    for (int i = 0; i < nT && n < 7800; ++i)
        if (T[i].state != DONE && T[i].state != FREE)
            n += snprintf(buf + n, sizeof buf - n, " t%d=%s%s", i, state_name[T[i].state], T[i].held ? "(holds a lock)" : "");
    snprintf(buf + n, sizeof buf - n, "; steps=%u vt=%llu", steps, (unsigned long long)vt);
    active = 0;     // the others stay parked; the reporting code runs unscheduled
    if (fatal_) fatal_(what, buf);
    fprintf(stderr, "dsched: %s\n", buf);
    _exit(12);
}

static struct mtx* find(const void* a)
{
    if (dead_lo && (const char*)a >= dead_lo && (const char*)a < dead_hi) die(DS_DEAD_OBJECT, "synchronisation object used after its owner was destroyed");
    uint32_t h = (uint32_t)(((uintptr_t)a >> 3) * 2654435761u) % MAXM;
    for (uint32_t k = 0; k < MAXM; ++k, h = (h + 1) % MAXM)
    {
        if (M[h].addr == a) return &M[h];
        if (!M[h].addr) { M[h].addr = a; M[h].owner = -1; M[h].count = M[h].readers = 0; return &M[h]; }
    }
    die(DS_MISUSE, "mutex table full"); return 0;
}

static int expired(const struct thr* t) { return t->deadline != NOTIME && t->deadline <= vt && (t->state == B_COND || t->state == B_SLEEP || t->state == B_FUTEX); }
static int can_run(const struct thr* t) { return t->state == RUNNABLE || expired(t); }

static void make_running(int i)
{
    if (T[i].state != RUNNABLE) { T[i].timedout = 1; T[i].state = RUNNABLE; T[i].obj = 0; T[i].deadline = NOTIME; }
}

static int choose(void)
{
    static int cand[MAXT]; int n = 0, i;
    ++steps;
    if (steps == soft_limit) { strat = 0; spurious = 0; }
    if (steps > hard_limit) die(DS_LIVELOCK, "no end of the run in sight under fair scheduling");

    if (spurious > 0 && !frozen && below(48) == 0)
    {
        int k = 0; for (i = 0; i < nT; ++i) if (T[i].state == B_COND) cand[k++] = i;
        if (k) { i = cand[below(k)]; T[i].state = RUNNABLE; T[i].timedout = 0; T[i].obj = 0; T[i].deadline = NOTIME; --spurious; }
    }
    for (i = 0; i < nT; ++i) if (can_run(&T[i])) cand[n++] = i;
    if (n && jump_den && !frozen && below(jump_den) == 0)
    {
        uint64_t m = NOTIME;
        for (i = 0; i < nT; ++i) if ((T[i].state == B_COND || T[i].state == B_SLEEP || T[i].state == B_FUTEX) && T[i].deadline < m) m = T[i].deadline;
        if (m != NOTIME && m > vt) { vt = m; n = 0; for (i = 0; i < nT; ++i) if (can_run(&T[i])) cand[n++] = i; }
    }
    if (!n)
    {
        for (i = 0; i < nT; ++i)    // a lock whose holder can never run again is not rest
            if (T[i].state == B_MUTEX || T[i].state == B_RW)
            {
                struct mtx* x = find(T[i].obj);
                struct thr* o = x->owner >= 0 ? &T[x->owner] : 0;
                if (o && o->deadline == NOTIME && (o->state == B_MUTEX || o->state == B_RW || o->state == B_COND || o->state == B_FUTEX || o->state == B_JOIN || o->state == DONE))
                    die(DS_DEADLOCK, "deadlock: a lock is wanted whose holder cannot run");
            }
        for (i = 0; i < nT; ++i) if (T[i].state == B_QUIESCE) { T[i].state = RUNNABLE; return i; }
        uint64_t m = NOTIME;
        for (i = 0; i < nT; ++i) if ((T[i].state == B_COND || T[i].state == B_SLEEP || T[i].state == B_FUTEX) && T[i].deadline < m) m = T[i].deadline;
        if (m == NOTIME) die(DS_DEADLOCK, "deadlock: no thread can run");
        if (m > vt) vt = m;
        for (i = 0; i < nT; ++i) if (can_run(&T[i])) cand[n++] = i;
    }

    int pick = -1;
    if (strat == 1)         // sticky
    {
        if (below(1000) < sticky) for (i = 0; i < n; ++i) if (cand[i] == cur) pick = cur;
    }
    else if (strat == 2)    // priorities with few change points
    {
        int best = cand[0];
        for (i = 1; i < n; ++i) if (T[cand[i]].prio > T[best].prio) best = cand[i];
        pick = best;
        if (pct_left && below(40) == 0) { T[pick].prio = -(int64_t)steps; --pct_left; }
        if (pick == last_run) { if (++run_len > 400) { T[pick].prio = -(int64_t)steps; run_len = 0; } } else { last_run = pick; run_len = 0; }
    }
    else if (strat == 3)    // starve one thread as long as possible
    {
        if (below(60) == 0) starved = (int)below((uint32_t)nT);
        int k = 0; static int c2[MAXT];
        for (i = 0; i < n; ++i) if (cand[i] != starved) c2[k++] = cand[i];
        if (k) pick = c2[below((uint32_t)k)];
    }
    if (pick < 0) pick = cand[below((uint32_t)n)];
    make_running(pick);
    return pick;
}

static void dispatch(void)      // gives the token to the next thread; the caller has set its own state
{
    struct thr* me = self;
    int next = choose();
    hash_ = (hash_ ^ (uint64_t)(next + 1)) * 1099511628211ULL;
    cur = next;
    if (&T[next] == me) return;
    int gone = me->state == DONE;
    wake(&T[next]);
    if (!gone) wait_go(me);
}

static void point(void) { if (active && self && !self->nopre) dispatch(); }
static void block(int st, const void* obj, uint64_t deadline) { self->obj = obj; self->deadline = deadline; self->timedout = 0; self->state = st; dispatch(); }
static void release_all(int st, const void* obj) { for (int i = 0; i < nT; ++i) if (T[i].state == st && T[i].obj == obj) { T[i].state = RUNNABLE; T[i].obj = 0; } }
#define ON (active && self)

void ds_begin(uint64_t seed, int flags, ds_fatal_fn fatal)
{
    seed_ = rng = seed * 0x2545F4914F6CDD1DULL + 0x1234567; flags_ = flags; fatal_ = fatal;
    for (int i = 0; i < 4; ++i) rnd();
    memset(M, 0, sizeof M); memset(slots, 0, sizeof slots);
    nT = 1; nE = 0; steps = 0; vt = 0; hash_ = 1469598103934665603ULL; last_run = -1; run_len = 0; starved = -1; dead_lo = dead_hi = 0;
    memset(&T[0], 0, sizeof T[0]); T[0].state = RUNNABLE; T[0].deadline = NOTIME; T[0].pt = pthread_self(); T[0].prio = (int64_t)below(1000);
    self = &T[0]; cur = 0;
    uint32_t r = below(100);
    strat = r < 30 ? 0 : r < 55 ? 1 : r < 85 ? 2 : 3;
    sticky = 500 + below(490); pct_left = 1 + below(6);
    spurious = (flags & DS_NO_SPURIOUS) || below(3) ? 0 : (int)below(6);
    jump_den = (flags & DS_NO_TIME_JUMPS) || below(2) ? 0 : 20 + below(300);
    frozen = 0;
    active = 1;
}
int ds_end(void)
{
    int left = 0;
    ds_quiesce();
    for (int i = 1; i < nT; ++i) if (T[i].state != DONE) ++left;
    active = 0; self = 0;
    return left;
}
void ds_limits(uint32_t soft, uint32_t hard) { soft_limit = soft; hard_limit = hard; }
int ds_active(void) { return active; }
int ds_tid(void) { return self ? self->id : -1; }
void ds_yield(void) { point(); }
void ds_quiesce(void) { if (ON) block(B_QUIESCE, 0, NOTIME); }
void ds_sleep_until(uint64_t t) { if (ON) { if (t <= vt) point(); else block(B_SLEEP, 0, t); } }
uint64_t ds_now(void) { return vt; }
int64_t ds_realtime_base(void) { return RT_BASE; }
void ds_advance(uint64_t t) { if (t > vt) vt = t; }
int ds_blocked(int t) { return t >= 0 && t < nT && T[t].state != RUNNABLE && T[t].state != DONE; }
int ds_done(int t) { return t >= 0 && t < nT && T[t].state == DONE; }
int ds_threads(void) { return nT; }
int ds_running_threads(void) { int n = 0; for (int i = 0; i < nT; ++i) n += T[i].state != DONE; return n; }
int ds_holds_locks(void) { return self ? self->held : 0; }
uint64_t ds_hash(void) { return hash_; }
uint32_t ds_steps(void) { return steps; }
void ds_dead(const void* p, size_t n) { dead_lo = p; dead_hi = dead_lo + n; }
void ds_undead(void) { dead_lo = dead_hi = 0; }
void ds_freeze(int on) { frozen = on; }
void ds_nopreempt(int d) { if (self) self->nopre += d; }
void ds_rec(int kind, int64_t a, int64_t b, int64_t c)
{
    if (nE >= MAXE) die(DS_MISUSE, "event buffer full");
    struct ds_event* e = &E[nE]; e->seq = nE++; e->kind = kind; e->tid = self ? self->id : -1; e->a = a; e->b = b; e->c = c; e->vt = vt;
}
uint32_t ds_nevents(void) { return nE; }
const struct ds_event* ds_events(void) { return E; }
int64_t ds_get(int s) { return slots[s]; }
void ds_set(int s, int64_t v) { slots[s] = v; }
int64_t ds_add(int s, int64_t v) { return slots[s] += v; }

void ds_gate_wait(int slot) { point(); while (ON && !slots[slot]) block(B_GATE, &slots[slot], NOTIME); }
void ds_gate_open(int slot, int64_t v) { slots[slot] = v; if (v) release_all(B_GATE, &slots[slot]); }

// ---- threads -------------------------------------------------------------------------------------
extern int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
extern int __real_pthread_join(pthread_t, void**);
extern int __real_pthread_detach(pthread_t);

static void* trampoline(void* p)
{
    struct thr* t = p;
    self = t;
    wait_go(t);
    ds_rec(DS_EV_THREAD_START, 0, 0, 0);
    void* r = t->fn(t->arg);
    ds_rec(DS_EV_THREAD_EXIT, 0, 0, 0);
    t->state = DONE;
    for (int i = 0; i < nT; ++i) if (T[i].state == B_JOIN && T[i].obj == t) { T[i].state = RUNNABLE; T[i].obj = 0; }
    dispatch();
    self = 0;
    return r;
}

int __wrap_pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    if (!ON) return __real_pthread_create(out, a, fn, arg);
    point();
    if (nT >= MAXT) die(DS_MISUSE, "too many threads");
    struct thr* t = &T[nT];
    memset(t, 0, sizeof *t);
    t->id = nT; t->fn = fn; t->arg = arg; t->deadline = NOTIME; t->prio = (int64_t)below(1000); t->state = RUNNABLE;
    ++nT;
    int r = __real_pthread_create(out, a, trampoline, t);
    if (r) { --nT; return r; }
    t->pt = *out;
    point();
    return 0;
}

static struct thr* by_handle(pthread_t h)
{
    for (int i = nT - 1; i >= 0; --i) if (T[i].state != FREE && !T[i].joined && !T[i].detached && pthread_equal(T[i].pt, h)) return &T[i];
    return 0;
}

int __wrap_pthread_join(pthread_t h, void** ret)
{
    if (!ON) return __real_pthread_join(h, ret);
    point();
    struct thr* t = by_handle(h);
    if (t) { while (t->state != DONE) block(B_JOIN, t, NOTIME); t->joined = 1; }
    return __real_pthread_join(h, ret);
}
int __wrap_pthread_detach(pthread_t h)
{
    if (ON) { point(); struct thr* t = by_handle(h); if (t) t->detached = 1; }
    return __real_pthread_detach(h);
}

// ---- mutexes -------------------------------------------------------------------------------------
extern int __real_pthread_mutex_lock(pthread_mutex_t*);
extern int __real_pthread_mutex_trylock(pthread_mutex_t*);
extern int __real_pthread_mutex_unlock(pthread_mutex_t*);

static int recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

static void sim_lock(pthread_mutex_t* m)
{
    struct mtx* x = find(m);
    while (x->owner != -1) { block(B_MUTEX, m, NOTIME); x = find(m); }
    x->owner = self->id; x->count = 1; ++self->held;
}
static void sim_unlock(pthread_mutex_t* m)
{
    struct mtx* x = find(m);
    if (x->owner != self->id) die(DS_MISUSE, "mutex unlocked by a thread that does not hold it");
    x->owner = -1; --self->held; release_all(B_MUTEX, m);
}

int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!ON) return __real_pthread_mutex_lock(m);
    point();
    struct mtx* x = find(m);
    if (x->owner == self->id && recursive(m)) { ++x->count; return __real_pthread_mutex_lock(m); }
    sim_lock(m);
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!ON) return __real_pthread_mutex_trylock(m);
    point();
    struct mtx* x = find(m);
    if (x->owner == self->id && recursive(m)) { ++x->count; return __real_pthread_mutex_trylock(m); }
    if (x->owner != -1) return EBUSY;
    sim_lock(m);
    return __real_pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { (void)ts; return ON ? __wrap_pthread_mutex_lock(m) : pthread_mutex_lock(m); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { (void)c; (void)ts; return ON ? __wrap_pthread_mutex_lock(m) : pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!ON) return __real_pthread_mutex_unlock(m);
    struct mtx* x = find(m);
    int r = __real_pthread_mutex_unlock(m);
    if (x->owner == self->id && x->count > 1) { --x->count; return r; }
    sim_unlock(m);
    point();
    return r;
}

// ---- reader/writer locks -------------------------------------------------------------------------
extern int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
extern int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
extern int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
extern int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
extern int __real_pthread_rwlock_unlock(pthread_rwlock_t*);

int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!ON) return __real_pthread_rwlock_rdlock(m);
    point();
    while (find(m)->owner != -1) block(B_RW, m, NOTIME);
    ++find(m)->readers; ++self->held;
    return __real_pthread_rwlock_rdlock(m);
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!ON) return __real_pthread_rwlock_wrlock(m);
    point();
    while (find(m)->owner != -1 || find(m)->readers) block(B_RW, m, NOTIME);
    find(m)->owner = self->id; ++self->held;
    return __real_pthread_rwlock_wrlock(m);
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if (!ON) return __real_pthread_rwlock_tryrdlock(m);
    point();
    if (find(m)->owner != -1) return EBUSY;
    ++find(m)->readers; ++self->held;
    return __real_pthread_rwlock_tryrdlock(m);
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    if (!ON) return __real_pthread_rwlock_trywrlock(m);
    point();
    if (find(m)->owner != -1 || find(m)->readers) return EBUSY;
    find(m)->owner = self->id; ++self->held;
    return __real_pthread_rwlock_trywrlock(m);
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!ON) return __real_pthread_rwlock_unlock(m);
    struct mtx* x = find(m);
    int r = __real_pthread_rwlock_unlock(m);
    if (x->owner == self->id) x->owner = -1;
    else if (x->readers > 0) --x->readers;
    else die(DS_MISUSE, "reader/writer lock unlocked while not held");
    --self->held;
    release_all(B_RW, m);
    point();
    return r;
}

// ---- condition variables -------------------------------------------------------------------------
extern int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
extern int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
extern int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
extern int __real_pthread_cond_signal(pthread_cond_t*);
extern int __real_pthread_cond_broadcast(pthread_cond_t*);

static uint64_t to_vt(clockid_t c, const struct timespec* ts)
{
    __int128 t = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec - (c == CLOCK_REALTIME ? RT_BASE : MONO_BASE);
    if (t < 0) return 0;
    if (t > (__int128)(NOTIME - 1)) return NOTIME - 1;
    return (uint64_t)t;
}

// A condition variable that has been destroyed is filled with a pattern (nothing initialises one by a call, so there is no other
// way to tell a new one in the same place); the race detector is told of the uses as accesses to its first byte.
extern void __tsan_read1(void*) __attribute__((weak));
extern void __tsan_write1(void*) __attribute__((weak));
static void cond_used(pthread_cond_t* c)
{
    const unsigned char* b = (const unsigned char*)c; size_t i = 0;
    while (i < sizeof *c && b[i] == 0xDC) ++i;
    if (i == sizeof *c) die(DS_DEAD_OBJECT, "condition variable used after it was destroyed");
    if (__tsan_read1) __tsan_read1(c);
}
int __real_pthread_cond_destroy(pthread_cond_t*);
int __wrap_pthread_cond_destroy(pthread_cond_t* c)
{
    if (!ON) return __real_pthread_cond_destroy(c);
    cond_used(c);
    for (int i = 0; i < nT; ++i) if (T[i].state == B_COND && T[i].obj == c) die(DS_DEAD_OBJECT, "condition variable destroyed while a thread waits for it");
    if (__tsan_write1) __tsan_write1(c);
    memset(c, 0xDC, sizeof *c);
    return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline)
{
    point();
    find(c); cond_used(c);
    if (find(m)->owner != self->id) die(DS_MISUSE, "condition variable waited on without holding the mutex");
    __real_pthread_mutex_unlock(m);
    sim_unlock(m);
    int to;
    block(B_COND, c, deadline);
    to = self->timedout;
    sim_lock(m);
    __real_pthread_mutex_lock(m);
    return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return ON ? cond_wait(c, m, NOTIME) : __real_pthread_cond_wait(c, m); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{ return ON ? cond_wait(c, m, to_vt(CLOCK_REALTIME, ts)) : __real_pthread_cond_timedwait(c, m, ts); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{ return ON ? cond_wait(c, m, to_vt(k, ts)) : __real_pthread_cond_clockwait(c, m, k, ts); }

static void wake_waiters(int st, const void* obj, int n)
{
    while (n-- > 0)
    {
        static int w[MAXT]; int k = 0;
        for (int i = 0; i < nT; ++i) if (T[i].state == st && T[i].obj == obj) w[k++] = i;
        if (!k) return;
        struct thr* t = &T[w[below((uint32_t)k)]];
        t->state = RUNNABLE; t->obj = 0; t->timedout = 0; t->deadline = NOTIME;
    }
}
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
    if (!ON) return __real_pthread_cond_signal(c);
    point(); find(c); cond_used(c); wake_waiters(B_COND, c, 1); point();
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!ON) return __real_pthread_cond_broadcast(c);
    point(); find(c); cond_used(c); wake_waiters(B_COND, c, MAXT); point();
    return 0;
}

// ---- futexes (promise/future, atomic wait, semaphores) ---------------------------------------------
extern long __real_syscall(long, ...);
long __wrap_syscall(long n, ...)
{
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n != SYS_futex || !ON) return __real_syscall(n, a, b, c, d, e, f);
    int op = (int)b & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
    {
        point();
        if (__atomic_load_n((int*)a, __ATOMIC_SEQ_CST) != (int)c) { errno = EAGAIN; return -1; }
        uint64_t dl = NOTIME;
        const struct timespec* ts = (const struct timespec*)d;
        if (ts) dl = op == FUTEX_WAIT ? vt + (uint64_t)ts->tv_sec * 1000000000u + (uint64_t)ts->tv_nsec
                                      : to_vt(((int)b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
        block(B_FUTEX, (const void*)a, dl);
        if (self->timedout) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
    {
        point();
        wake_waiters(B_FUTEX, (const void*)a, (int)c > MAXT ? MAXT : (int)c);
        point();
        return 0;
    }
    return __real_syscall(n, a, b, c, d, e, f);
}

// ---- time ----------------------------------------------------------------------------------------
extern int __real_clock_gettime(clockid_t, struct timespec*);
extern int __real_nanosleep(const struct timespec*, struct timespec*);
extern int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
extern int __real_sched_yield(void);
int __wrap_clock_gettime(clockid_t c, struct timespec* ts)
{
    if (!ON) return __real_clock_gettime(c, ts);
    point();
    if (!frozen) vt += 1 + below(50);
    int64_t t = (c == CLOCK_REALTIME ? RT_BASE : MONO_BASE) + (int64_t)vt;
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    return 0;
}
static void vsleep(uint64_t until) { if (until <= vt) point(); else block(B_SLEEP, 0, until); }
int __wrap_nanosleep(const struct timespec* ts, struct timespec* rem)
{
    if (!ON) return __real_nanosleep(ts, rem);
    vsleep(vt + (uint64_t)ts->tv_sec * 1000000000u + (uint64_t)ts->tv_nsec);
    return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec* ts, struct timespec* rem)
{
    if (!ON) return __real_clock_nanosleep(c, fl, ts, rem);
    vsleep(fl & TIMER_ABSTIME ? to_vt(c, ts) : vt + (uint64_t)ts->tv_sec * 1000000000u + (uint64_t)ts->tv_nsec);
    return 0;
}
int __wrap_sched_yield(void) { if (ON) { point(); return 0; } return __real_sched_yield(); }

// ---- once-initialisation: no switch inside (the loser would block for real) ------------------------
extern int __real_pthread_once(pthread_once_t*, void (*)(void));
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void))
{
    ds_nopreempt(1); int r = __real_pthread_once(o, f); ds_nopreempt(-1); return r;
}
extern int __real___cxa_guard_acquire(uint64_t*);
extern void __real___cxa_guard_release(uint64_t*);
extern void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g) { int r = __real___cxa_guard_acquire(g); if (r) ds_nopreempt(1); return r; }
void __wrap___cxa_guard_release(uint64_t* g) { __real___cxa_guard_release(g); ds_nopreempt(-1); }
void __wrap___cxa_guard_abort(uint64_t* g) { __real___cxa_guard_abort(g); ds_nopreempt(-1); }

// ---- atomics of instrumented code (ThreadSanitizer build only) --------------------------------------
#define LOADS(B, TY) \
    extern TY __real___tsan_atomic##B##_load(const volatile TY*, int); \
    TY __wrap___tsan_atomic##B##_load(const volatile TY* p, int o) { point(); return __real___tsan_atomic##B##_load(p, o); } \
    extern void __real___tsan_atomic##B##_store(volatile TY*, TY, int); \
    void __wrap___tsan_atomic##B##_store(volatile TY* p, TY v, int o) { point(); __real___tsan_atomic##B##_store(p, v, o); }
#ifdef DS_TSAN
LOADS(8, uint8_t) LOADS(32, uint32_t) LOADS(64, uint64_t)
#endif
