// The simulator: scheduler, virtual clock, simulated disk/AIO device, fault
// injection and the interposed libc/pthread entry points.  Compiled WITHOUT
// instrumentation; the code under test is compiled with -fsanitize=thread and
// linked against the callbacks in this file instead of libtsan, which turns
// every memory access that may be shared into a scheduling point.
#include "sim.h"
#include <aio.h>
#include <atomic>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include "engine.h"
extern "C" void __libc_free(void *);

Shm *shm = nullptr;

extern "C" u64 simMockTsc __asm__("_ZN9PerfUtils6Cycles12mockTscValueE") __attribute__((weak));

const char *opNames[] = {"NONE", "LOG", "SYNC", "PREALLOC", "SETFILE", "SETLEVEL", "SPAWN", "JOIN",
    "WAITDONE", "PARK", "SLEEP", "STATS", "GETLEVEL", "TTREC", "TTPRINT", "TTGET", "BADFILE", "MEM", "TTRESET"};
const char *faultNames[] = {"none", "aio_latency", "aio_short_write", "aio_eagain", "aio_error",
    "aio_suspend_eintr", "spurious_wakeup", "open_fail", "alloc_fail", "short_read", "tsc_skew",
    "wall_clock_jump", "clock_read_at_second_boundary", "thread_stall", "read_eio", "oversleep",
    "write_short", "write_eintr", "write_error"};
const char *endNames[] = {"exit", "kill", "power"};
const char *trigNames[] = {"step", "aio_submit", "aio_done", "sync_ret", "log_ret"};

// ------------------------------------------------------------------ state
enum TState { T_RUN, T_MUTEX, T_COND, T_JOIN, T_SLEEP, T_AIO, T_PARK, T_DONE, T_WAITDONE, T_GUARD };
static const char *stNames[] = {"runnable", "mutex", "condvar", "join", "sleep", "aio_suspend", "parked", "finished", "waitdone", "guard"};

struct SimThread {
    int tid, planTid, state;
    i64 npoints, trigger, runStart;
    char *lastW1;
    u32 nblocks;
    std::atomic<int> go;
    pthread_t real;
    pid_t ktid;
    const void *waitObj;
    u64 wakeAt;         // 0 = no timeout
    u64 waitSeq;
    int woken;          // 1 signalled, 2 timeout, 3 spurious
    uintptr_t stackLo, stackSize;
    void *(*fn)(void *);
    void *arg;
    int inSim, inLog, decode, prio;
    u64 stalledUntil;
    uintptr_t recent[8];      // shared words this thread accessed last (ST_WINDOW)
    u8 nrecent, holdHere;
    i64 skew;
    bool detached, joined;
    u32 schedPos, schedEnd;   // replay cursor (SK_PRE entries of this thread)
};

static const int MAXSIM = 720;
static SimThread threads[MAXSIM];
static int nthreads;
static __thread SimThread *self;
static bool active;
static int reapTid;           // kernel tid that must be gone before we go on

static u64 vnow, nextEvent, steps, stepLimit, crashStep, softCap, hardCap, waitSeqCtr;
static u32 tick;
static bool fairMode, trigPending;
static u32 sigCount, aioCount, suspendCount, condCount, timedCount, openCount, allocCount, timeCount, syncRet, logRet, aioDone;
static u32 pctLeft;
static u64 pctNext;
static pthread_key_t doneKey;
static i64 wallBase = 1700000000ll * 1000000000ll;
static const u64 NEVER = ~0ull;
static const i64 SPINMAX = 3000;
static u64 trigSteps;

static int (*r_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*r_pthread_join)(pthread_t, void **);
static int (*r_mutex_lock)(pthread_mutex_t *);
static int (*r_mutex_trylock)(pthread_mutex_t *);
static int (*r_mutex_unlock)(pthread_mutex_t *);
static int (*r_cond_signal)(pthread_cond_t *);
static int (*r_cond_broadcast)(pthread_cond_t *);
static int (*r_cond_wait)(pthread_cond_t *, pthread_mutex_t *);
static FILE *(*r_fopen)(const char *, const char *);
extern "C" void *__real_malloc(size_t);

static void resolve() {
    r_pthread_create = (decltype(r_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
    r_pthread_join = (decltype(r_pthread_join))dlsym(RTLD_NEXT, "pthread_join");
    r_mutex_lock = (decltype(r_mutex_lock))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    r_mutex_trylock = (decltype(r_mutex_trylock))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    r_mutex_unlock = (decltype(r_mutex_unlock))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    r_cond_signal = (decltype(r_cond_signal))dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
    r_cond_broadcast = (decltype(r_cond_broadcast))dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2");
    r_cond_wait = (decltype(r_cond_wait))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    r_fopen = (decltype(r_fopen))dlsym(RTLD_NEXT, "fopen");
}

static long futexCall(std::atomic<int> *a, int op, int v) {
    return syscall(SYS_futex, (int *)a, op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0);
}

static inline bool on() { return active && self && !self->inSim; }

struct Enter {      // marks "inside the simulator" for the current thread
    Enter() { self->inSim++; }
    ~Enter() { self->inSim--; }
};

static u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

static void flushState() {
    shm->vnow = vnow;
    shm->cov.steps += steps;
    steps = 0;
}

void simFail(const char *oracle, const char *fmt, ...) {
    Verdict &vd = shm->verdict;
    for (u32 i = 0; i < vd.n; i++) if (!strcmp(vd.v[i].oracle, oracle)) return;
    if (vd.n >= 12) return;
    VEnt &v = vd.v[vd.n++];
    v.epoch = shm->epoch;
    snprintf(v.oracle, sizeof v.oracle, "%s", oracle);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(v.text, sizeof v.text, fmt, ap);
    va_end(ap);
}

static void dieVerdict() { flushState(); _exit(78); }

static void describeThreads(char *out, size_t cap) {
    size_t n = 0;
    int shown = 0;
    for (int i = 0; i < nthreads && n + 80 < cap && shown < 12; i++) {
        SimThread &t = threads[i];
        if (t.state == T_DONE) continue;
        shown++;
        n += snprintf(out + n, cap - n, " [sim thread %d%s: %s]", t.tid,
                      t.planTid >= 0 ? (t.planTid == 0 ? " (main)" : " (worker)") : " (library)", stNames[t.state]);
    }
}

// ------------------------------------------------------------------ faults
static Fault *fault(int kind, u32 n) {
    if (fairMode && kind != FK_SKEW) return nullptr;
    Plan &p = shm->plan;
    for (u32 i = 0; i < p.nfaults; i++) {
        Fault &f = p.faults[i];
        if (f.kind == kind && f.epoch == shm->epoch && f.n == n) {
            f.fired++;
            shm->cov.faultsFired[kind]++;
            return &f;
        }
    }
    return nullptr;
}
static bool haveFault[FK_LAST];
static void scanFaults() {
    for (auto &h : haveFault) h = false;
    for (u32 i = 0; i < shm->plan.nfaults; i++)
        if (shm->plan.faults[i].epoch == shm->epoch) haveFault[shm->plan.faults[i].kind] = true;
}
#define FAULT(k, n) (haveFault[k] ? fault(k, n) : nullptr)

// ------------------------------------------------------------------ AIO device
struct AioReq { const aiocb *cb; int fd; u32 n; u64 doneAt; u32 nbytes; u32 head; int err; u32 shortTo; u8 *copy; bool live; };
static AioReq aioq[64];
static int naio;
struct AioStat { const aiocb *cb; int err; ssize_t ret; };
static AioStat aiost[64];
static AioStat *aioStat(const aiocb *cb, bool make) {
    for (auto &s : aiost) if (s.cb == cb) return &s;
    if (!make) return nullptr;
    for (auto &s : aiost) if (!s.cb) { s.cb = cb; return &s; }
    return nullptr;
}
struct SimFd { bool open; int file, flags; u32 pos; };
static SimFd fds[64];
static const int FDBASE = 500;
static SimFd *simfd(int fd) { return (fd >= FDBASE && fd < FDBASE + 64 && fds[fd - FDBASE].open) ? &fds[fd - FDBASE] : nullptr; }

static bool safeRead(void *dst, const void *src, size_t n) {
    iovec l{dst, n}, r{(void *)src, n};
    return n == 0 || syscall(SYS_process_vm_readv, getpid(), &l, 1, &r, 1, 0) == (long)n;
}

static u32 inWrite;              // bytes that an unfinished write() has transferred, plus one
static void fileWrite(SimFd *f, u32 off, const u8 *src, u32 n) {
    SimFile &sf = shm->files[f->file];
    if (f->flags & O_APPEND) off = sf.size;
    if (off + n > FILECAP) { simFail("harness", "simulated file too big"); dieVerdict(); }
    u8 *d = sf.data();
    if (off > sf.size) memset(d + sf.size, 0, off - sf.size);
    memcpy(d + off, src, n);
    if (off + n > sf.size) sf.size = off + n;
    sf.nwrites++;
    if (f->flags & (O_DSYNC | O_SYNC)) sf.dirtyFrom = sf.size;
}

static u8 *aioBytes(AioReq &q, u32 upto) {      // bytes the device would write
    if (q.copy && upto > q.head && !safeRead(q.copy + q.head, (const u8 *)q.cb->aio_buf + q.head, upto - q.head))
        return nullptr;
    return q.copy;
}

static void checkTrigger(int kind, u32 n);

static void aioComplete(int i) {
    AioReq q = aioq[i];
    memmove(aioq + i, aioq + i + 1, (naio - i - 1) * sizeof(AioReq));
    naio--;
    AioStat *s = aioStat(q.cb, true);
    SimFd *f = simfd(q.fd);
    int err = q.err;
    ssize_t ret = -1;
    if (!err && !f) err = EBADF;
    if (!err && (f->flags & O_DIRECT) && ((q.nbytes & 511) || ((uintptr_t)q.cb->aio_buf & 511))) err = EINVAL;
    if (!err) {
        u32 n = q.shortTo;
        u8 *b = aioBytes(q, n);
        if (!b) err = EFAULT;
        else { fileWrite(f, (u32)q.cb->aio_offset, b, n); ret = n; shm->cov.aioBytes += n; }
    }
    free(q.copy);
    if (s) { s->err = err; s->ret = err ? -1 : ret; }
    for (int t = 0; t < nthreads; t++)
        if (threads[t].state == T_AIO) { threads[t].state = T_RUN; threads[t].wakeAt = 0; }
    aioDone++;
    checkTrigger(TRIG_AIO_DONE, aioDone);
}

// ------------------------------------------------------------------ time/events
static void recomputeNext() {
    u64 n = NEVER;
    for (int i = 0; i < naio; i++) if (aioq[i].doneAt < n) n = aioq[i].doneAt;
    for (int i = 0; i < nthreads; i++)
        if (threads[i].wakeAt && threads[i].state != T_RUN && threads[i].wakeAt < n) n = threads[i].wakeAt;
    nextEvent = n;
}

static void fireEvents() {
    while (vnow >= nextEvent) {
        for (int i = 0; i < naio;) { if (aioq[i].doneAt <= vnow) aioComplete(i); else i++; }
        for (int i = 0; i < nthreads; i++) {
            SimThread &t = threads[i];
            if (t.wakeAt && t.wakeAt <= vnow && t.state != T_RUN) {
                t.wakeAt = 0;
                if (t.state == T_COND && t.woken == 0) t.woken = 2;
                t.state = T_RUN;
            }
        }
        recomputeNext();
    }
}

// ------------------------------------------------------------------ crash
static void doCrash() {
    EpochPlan &e = shm->plan.ep[shm->epoch];
    u32 torn = 0;
    if (naio > 0) {
        // Only the request at the head of the queue can be in progress.
        AioReq &q = aioq[0];
        SimFd *f = simfd(q.fd);
        u32 n = (u32)((u64)q.shortTo * e.tornPermille / 1000);
        if (f && (f->flags & O_DIRECT)) n &= ~511u;
        if (f && !q.err && n) {
            u8 *b = aioBytes(q, n);
            if (b) { fileWrite(f, (u32)q.cb->aio_offset, b, n); torn = n < q.nbytes ? n : 0; }
        }
    }
    if (e.end == END_POWER) {
        for (u32 i = 0; i < shm->nfiles; i++) {
            SimFile &sf = shm->files[i];
            if (sf.exists && sf.size > sf.dirtyFrom) {
                u32 keep = sf.dirtyFrom + (u32)((u64)(sf.size - sf.dirtyFrom) * e.tornPermille / 1000);
                if (keep < sf.size) { torn = torn ? torn : 1; sf.size = keep; }
            }
        }
    }
    // a short write whose rest may not have followed yet
    for (u32 i = 0; i < shm->plan.nfaults; i++) {
        const Fault &f = shm->plan.faults[i];
        if (f.kind == FK_AIO_SHORT && f.epoch == shm->epoch && f.fired && !torn) torn = 1;
    }
    if (inWrite && !torn) torn = inWrite;
    shm->epochTorn[shm->epoch] = torn;
    shm->epochLostAio[shm->epoch] = naio;
    shm->cov.crashes++;
    if (torn) shm->cov.tornCrashes++;
    flushState();
    _exit(77);
}

static void setLimit() {
    stepLimit = fairMode ? hardCap : softCap;
    if (crashStep < stepLimit) stepLimit = crashStep;
}

static void checkTrigger(int kind, u32 n) {
    EpochPlan &e = shm->plan.ep[shm->epoch];
    if (shm->mode != 1 || e.end == END_EXIT || e.trig != kind || e.trigN != n) return;
    crashStep = steps + e.trigDelta + 1;
    setLimit();
}

// ------------------------------------------------------------------ scheduler
static bool replayingFast, decodeMode;
static bool replaying() { return replayingFast; }

static const char *traceRec = getenv("SIM_TRACE");     // debugging: file that gets every decision
static void record(u8 kind, int tid, u32 n, int target) {
    if (traceRec) {
        char b[128];
        int k = snprintf(b, sizeof b, "@ e%u %c t%d n%u -> %d  steps %lu vnow %lu\n", shm->epoch, kind, tid, n, target, (unsigned long)steps, (unsigned long)vnow);
        int fd = (int)syscall(SYS_openat, AT_FDCWD, traceRec, O_WRONLY | O_CREAT | O_APPEND, 0600);
        (void)!syscall(SYS_write, fd, b, (size_t)k);
        syscall(SYS_close, fd);
    }
    shm->cov.schedHash = mix(shm->cov.schedHash, ((u64)kind << 56) ^ ((u64)tid << 40) ^ ((u64)n << 8) ^ (u64)(target + 2));
    if (shm->nrec < MAXSCHED) shm->rec[shm->nrec++] = SEnt{(u8)shm->epoch, kind, (u16)tid, n, target};
}

static SEnt *findEnt(u8 kind, int tid, u32 n) {       // replay lookup (entries sorted by kind, epoch, tid, n)
    u32 lo = 0, hi = shm->nsched;
    auto key = [](u8 k, u8 e, u32 t, u32 nn) { return ((u64)k << 56) | ((u64)e << 48) | ((u64)t << 32) | nn; };
    u64 want = key(kind, (u8)shm->epoch, (u32)tid, n);
    while (lo < hi) {
        u32 m = (lo + hi) / 2;
        SEnt &s = shm->sched[m];
        if (key(s.kind, s.epoch, s.tid, s.n) < want) lo = m + 1; else hi = m;
    }
    if (lo < shm->nsched) {
        SEnt &s = shm->sched[lo];
        if (key(s.kind, s.epoch, s.tid, s.n) == want) return &s;
    }
    return nullptr;
}
static i64 nextPre(int tid, i64 after) {              // first preemption point > after
    u32 lo = 0, hi = shm->nsched;
    auto key = [](u8 k, u8 e, u32 t, u32 nn) { return ((u64)k << 56) | ((u64)e << 48) | ((u64)t << 32) | nn; };
    u64 want = key(SK_PRE, (u8)shm->epoch, (u32)tid, (u32)(after + 1));
    while (lo < hi) {
        u32 m = (lo + hi) / 2;
        SEnt &s = shm->sched[m];
        if (key(s.kind, s.epoch, s.tid, s.n) < want) lo = m + 1; else hi = m;
    }
    if (lo < shm->nsched) {
        SEnt &s = shm->sched[lo];
        if (s.kind == SK_PRE && s.epoch == shm->epoch && s.tid == tid) return s.n;
    }
    return (i64)1 << 60;
}

static void setTrigger(SimThread *t) {
    if (shm->mode == 2) { t->trigger = (i64)1 << 60; return; }
    if (fairMode) { t->trigger = t->npoints + 400; return; }
    i64 guard = t->runStart + SPINMAX;
    i64 nx;
    if (replaying()) nx = nextPre(t->tid, t->npoints);
    else {
        Plan &p = shm->plan;
        if (p.strat == ST_PCT) nx = (i64)1 << 60;
        else if (p.strat == ST_RR) nx = t->npoints + p.gap;
        else {
            double u = shm->schedRng.unit();
            // geometric-like gap; cheap approximation
            double g = (double)p.gap * (u < 0.5 ? u * 0.6 : u < 0.9 ? 0.3 + (u - 0.5) * 2.5 : 1.3 + (u - 0.9) * 40);
            nx = t->npoints + 1 + (i64)g;
        }
    }
    if (guard <= t->npoints) guard = t->npoints + 1;
    t->trigger = nx < guard ? nx : guard;
}

static bool runnable(const SimThread &t) { return t.state == T_RUN; }

static void waitGo(SimThread *t) {
    while (t->go.load(std::memory_order_acquire) == 0) futexCall(&t->go, FUTEX_WAIT, 0);
    t->go.store(0, std::memory_order_relaxed);
    int r = reapTid;
    if (r) {
        while (syscall(SYS_tgkill, getpid(), r, 0) == 0) syscall(SYS_sched_yield);
        reapTid = 0;
    }
}

static void giveTo(SimThread *t) {
    shm->cov.switches++;
    t->runStart = t->npoints;
    setTrigger(t);
    t->go.store(1, std::memory_order_release);
    futexCall(&t->go, FUTEX_WAKE, 1);
}

static int pickRR(int from) {
    for (int k = 1; k <= nthreads; k++) {
        int i = (from + k) % nthreads;
        if (runnable(threads[i])) return i;
    }
    return -1;
}

// Choose the next thread in search mode. allowSelf: self may be picked.
// returns -1: nobody runnable, -2: better let virtual time advance
static int pickSearch(SimThread *cur, bool allowSelf) {
    Plan &p = shm->plan;
    int cand[MAXSIM], n = 0, nst = 0;
    for (int i = 0; i < nthreads; i++) {
        if (!runnable(threads[i]) || (!allowSelf && &threads[i] == cur)) continue;
        if (threads[i].stalledUntil > steps && !fairMode) { nst++; continue; }
        cand[n++] = i;
    }
    if (n == 0 && nst) {
        if (nextEvent != NEVER) return -2;
        for (int i = 0; i < nthreads; i++)
            if (runnable(threads[i]) && (allowSelf || &threads[i] != cur)) cand[n++] = i;
    }
    if (n == 0) return -1;
    if (p.strat == ST_PCT && !fairMode) {
        int b = cand[0];
        for (int i = 1; i < n; i++) if (threads[cand[i]].prio > threads[b].prio) b = cand[i];
        return b;
    }
    return cand[shm->schedRng.below(n)];
}

static void deadlock() {
    char d[1200] = "";
    describeThreads(d, sizeof d);
    simFail("deadlock", "no thread can make progress and no event is pending (epoch %u):%s", shm->epoch, d);
    dieVerdict();
}

static void advanceTime() {
    if (nextEvent == NEVER) deadlock();
    if (nextEvent > vnow) vnow = nextEvent;
    steps += 4;              // polling loops must not be able to run for ever for free
    fireEvents();
}

static void checkLimits() {
    if (steps < stepLimit) return;
    if (steps >= crashStep) doCrash();
    if (!fairMode) { fairMode = true; if (tick < 2000) tick = 2000; shm->cov.overlapMsgs++; setLimit(); if (self) setTrigger(self); }
    if (steps >= hardCap) {
        char d[1200] = "";
        describeThreads(d, sizeof d);
        simFail("liveness", "no termination within %lu steps although faults stopped after %lu steps (epoch %u):%s",
                (unsigned long)hardCap, (unsigned long)softCap, shm->epoch, d);
        dieVerdict();
    }
}

// The current thread cannot run (blocked or finished): hand over to another.
// Returns when the current thread is runnable and has been chosen (unless
// finished).
static void blockHere(SimThread *t, bool finished = false) {
    shm->cov.blocks++;
    for (;;) {
        checkLimits();
        if (vnow >= nextEvent) fireEvents();
        int tgt = -1;
        u32 nb = ++t->nblocks;
        if (replaying()) {
            SEnt *e = findEnt(SK_BLK, t->tid, nb);
            if (e && e->target == -2 && nextEvent != NEVER) tgt = pickRR(t->tid) < 0 ? -1 : -2;
            else if (e && e->target >= 0 && e->target < nthreads && runnable(threads[e->target])) tgt = e->target;
            else tgt = pickRR(t->tid);
        } else {
            tgt = fairMode ? pickRR(t->tid) : pickSearch(t, true);
        }
        if (tgt == -1) { t->nblocks--; advanceTime(); continue; }
        record(SK_BLK, t->tid, nb, tgt);
        if (tgt == -2) { advanceTime(); continue; }
        SimThread *o = &threads[tgt];
        if (o == t) { t->runStart = t->npoints; setTrigger(t); return; }
        if (finished) { giveTo(o); return; }
        giveTo(o);
        waitGo(t);
        return;
    }
}

static void switchTo(SimThread *t, int tgt) {
    giveTo(&threads[tgt]);
    waitGo(t);
}

static void pctChange(SimThread *t) {
    t->prio = (int)pctLeft - 1000000;   // below everything else, ordered
    if (pctLeft) pctLeft--;
    pctNext = pctLeft ? steps + 1 + shm->schedRng.below(shm->plan.gap * 8 + 1) : NEVER;
}

static void __attribute__((noinline)) slow(SimThread *t) {
    Enter in;
    checkLimits();
    if (vnow >= nextEvent) fireEvents();
    if (shm->mode == 2) return;
    bool due = t->npoints >= t->trigger;
    bool guard = t->npoints - t->runStart >= SPINMAX;
    int tgt = -1;
    if (!replaying() && shm->plan.strat == ST_PCT && !fairMode) {
        if (guard) t->prio = -2000000 + (int)(shm->schedRng.below(1000));
        else if (steps >= pctNext) pctChange(t);
        tgt = pickSearch(t, true);
        if (tgt < 0 || tgt == t->tid) {
            if (guard) { record(SK_PRE, t->tid, (u32)t->npoints, t->tid); t->runStart = t->npoints; }
            setTrigger(t);
            return;
        }
        record(SK_PRE, t->tid, (u32)t->npoints, tgt);
        switchTo(t, tgt);
        return;
    }
    if (!due) return;
    if (replaying()) {
        SEnt *e = findEnt(SK_PRE, t->tid, (u32)t->npoints);
        if (e && e->target == -2) { record(SK_PRE, t->tid, (u32)t->npoints, -2); blockHere(t); return; }
        if (e) { if (e->target >= 0 && e->target < nthreads && runnable(threads[e->target])) tgt = e->target; }
        else if (guard || fairMode) tgt = pickRR(t->tid);
    } else if (fairMode) tgt = pickRR(t->tid);
    else {
        if (t->holdHere || (shm->plan.strat == ST_STALL && shm->schedRng.chance(0.04))) {
            t->holdHere = 0;
            t->stalledUntil = steps + shm->schedRng.below(shm->plan.stallLen) + 1;
            shm->cov.faultsFired[FK_STALL]++;
            record(SK_PRE, t->tid, (u32)t->npoints, -2);      // lets time pass as well
            blockHere(t);
            return;
        }
        tgt = pickSearch(t, false);
        if (tgt == -2) tgt = -1;
    }
    if (tgt < 0 || tgt == t->tid) {
        if (guard) { record(SK_PRE, t->tid, (u32)t->npoints, t->tid); t->runStart = t->npoints; }
        setTrigger(t);
        return;
    }
    record(SK_PRE, t->tid, (u32)t->npoints, tgt);
    switchTo(t, tgt);
}

// table of recently used addresses: detects sharing
struct Hot { uintptr_t a; u16 tid; u8 wr, shared; };
static Hot hot[1 << 16];

// ST_WINDOW: hold a thread between two accesses to one shared word (check-then-act
// sequences), long enough for others to run through the window
static bool windows;
static void __attribute__((noinline)) window(SimThread *t, uintptr_t k, bool w) {
    bool hit = false;
    for (uintptr_t r : t->recent) if (r == k) hit = true;
    if (!hit) t->recent[t->nrecent++ & 7] = k;
    else if (w ? shm->schedRng.below(4 + shm->plan.gap / 8) == 0 : shm->schedRng.below(shm->plan.gap * 4) < 2) { t->holdHere = 1; t->trigger = t->npoints; }
}

static inline __attribute__((always_inline)) void point(const void *addr, bool w) {
    SimThread *t = self;
    if (!t || t->inSim || !active || decodeMode) return;
    uintptr_t p = (uintptr_t)addr;
    if (p - t->stackLo < t->stackSize) return;
    t->npoints++;
    steps++;
    vnow += tick;
    if (!replayingFast && !fairMode) {
        uintptr_t k = p >> 3;
        Hot &h = hot[(k ^ (k >> 15)) & ((1 << 16) - 1)];
        if (h.a != k) { h.a = k; h.tid = t->tid; h.wr = w; h.shared = 0; }
        else {
            if (h.tid != t->tid) { if (h.wr || w) h.shared = 1; h.tid = t->tid; }
            h.wr |= w;
            if (h.shared) {
                t->trigger -= shm->plan.hotW;
                if (windows) window(t, k, w);
            }
        }
    }
    if (t->npoints >= t->trigger || vnow >= nextEvent || steps >= stepLimit ||
        (pctNext <= steps)) slow(t);
}

void simPoint(const void *addr, int, int write) { point(addr, write); }

// a scheduling point that is not a memory access (system calls etc.)
static void opPoint() {
    SimThread *t = self;
    if (!t || t->inSim || !active || decodeMode) return;
    t->npoints++;
    steps++;
    vnow += tick;
    if (!replayingFast && !fairMode) t->trigger -= shm->plan.hotW * 2;
    if (t->npoints >= t->trigger || vnow >= nextEvent || steps >= stepLimit || pctNext <= steps) slow(t);
}

static void wakeHint() {        // somebody became runnable
    if (!replayingFast && !fairMode && shm->plan.strat == ST_PCT && self) self->trigger = self->npoints;
}

// ------------------------------------------------------------------ clocks
static u64 ckptTsc;             // counter value just before the last time() call: a checkpoint
static u32 logTscCount;
static u64 lastTsc;
static u64 tscNow(SimThread *t) {
    vnow += 1;
    shm->cov.tscReads++;
    unsigned __int128 c = (unsigned __int128)vnow * shm->plan.tscRate / 1000000000u;
    u64 r = shm->tscBase + (u64)c;
    if (t && t->inLog && haveFault[FK_TSCSNAP] && ckptTsc && r > ckptTsc) {
        if (Fault *f = fault(FK_TSCSNAP, ++logTscCount)) {
            t->inSim++;
            double cps = apiCps();
            t->inSim--;
            u64 k = (u64)((double)(r - ckptTsc + 8) / cps) + 1;
            u64 want = ckptTsc + (u64)(cps * (double)k + 0.5) - (u64)f->v;
            if (want > r && want - r < (u64)(2 * cps)) {
                vnow += (u64)((double)(want - r) * 1e9 / (double)shm->plan.tscRate) + 2;
                r = want;
            }
        }
    }
    lastTsc = r;
    return r + (u64)(t ? t->skew : 0);
}
u64 simTsc() { return tscNow(self); }
i64 simWall() { return wallBase + (i64)shm->plan.wallFrac * 1000 + shm->wallOff + (i64)vnow; }
static u64 monoNow() { return vnow + 1000000000ull; }

u64 simEvent() { opPoint(); return ++shm->gseq; }

// ------------------------------------------------------------------ callbacks from instrumented code
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
static inline void tscCheck(void *a) {
    if (__builtin_expect(a == (void *)&simMockTsc, 0) && active && self && !self->inSim) simMockTsc = tscNow(self);
}
#define RD(N) void __tsan_read##N(void *a) { point(a, false); if (N == 8) tscCheck(a); } \
              void __tsan_write##N(void *a) { point(a, true); }
RD(2) RD(4) RD(8) RD(16)
void __tsan_read1(void *a) { point(a, false); }
// a byte-wise fill or copy loop is preemptible once per cache line
void __tsan_write1(void *a) {
    SimThread *t = self;
    if (t && (char *)a == t->lastW1 + 1 && ((uintptr_t)a & 63)) { t->lastW1 = (char *)a; return; }
    if (t) t->lastW1 = (char *)a;
    point(a, true);
}
#define URD(N) void __tsan_unaligned_read##N(void *a) { point(a, false); } \
               void __tsan_unaligned_write##N(void *a) { point(a, true); }
URD(2) URD(4) URD(8) URD(16)
void __tsan_read_range(void *a, unsigned long) { point(a, false); }
void __tsan_write_range(void *a, unsigned long) { point(a, true); }
void __tsan_vptr_update(void **a, void *) { point(a, true); }
void __tsan_vptr_read(void **a) { point(a, false); }
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T *a, int) { point((void *)a, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile T *a, T v, int) { point((void *)a, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { point((void *)a, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { point((void *)a, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { point((void *)a, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { point((void *)a, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { point((void *)a, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { point((void *)a, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { point((void *)a, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { point((void *)a, true); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { point((void *)a, true); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int) { point((void *)a, true); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { opPoint(); }
void __tsan_atomic_signal_fence(int) {}

// memory-block calls made by the code under test: a block write is not atomic
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    if (!on() || decodeMode || n == 0) return __real_memcpy(d, s, n);
    point(s, false);
    size_t h = n > 8 ? n / 2 : 0;
    if (h) { __real_memcpy(d, s, h); }
    point((char *)d + h, true);
    __real_memcpy((char *)d + h, (const char *)s + h, n - h);
    return d;
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
    if (on() && n) { point(s, false); point(d, true); }
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
    if (!on() || decodeMode || n == 0) return __real_memset(d, c, n);
    size_t h = n > 8 ? n / 2 : 0;
    if (h) __real_memset(d, c, h);
    point((char *)d + h, true);
    return __real_memset((char *)d + h, c, n - h), d;
}
}

// ------------------------------------------------------------------ mutexes
struct MuEnt { const void *m; int owner; int depth; };
static MuEnt mus[1 << 12];
static MuEnt *mu(const void *m) {
    u32 h = (u32)(((uintptr_t)m >> 3) * 2654435761u) & ((1 << 12) - 1);
    for (u32 i = 0; i < (1 << 12); i++) {
        MuEnt &e = mus[(h + i) & ((1 << 12) - 1)];
        if (e.m == m) return &e;
        if (!e.m) { e.m = m; e.owner = -1; return &e; }
    }
    abort();
}
static bool muRecursive(const pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

static int muLock(const void *m, bool rec, u64 deadline) {
    MuEnt *e = mu(m);
    if (e->owner == self->tid && rec) { e->depth++; return 0; }
    while (e->owner >= 0) {
        self->state = T_MUTEX;
        self->waitObj = m;
        self->wakeAt = deadline;
        if (deadline) { if (deadline <= vnow) { self->state = T_RUN; self->wakeAt = 0; return ETIMEDOUT; } recomputeNext(); }
        blockHere(self);
        if (e->owner >= 0 && deadline && vnow >= deadline) return ETIMEDOUT;
    }
    e->owner = self->tid;
    e->depth = 1;
    return 0;
}
static int muUnlock(const void *m) {
    MuEnt *e = mu(m);
    if (e->owner != self->tid) return EPERM;
    if (--e->depth > 0) return 0;
    e->owner = -1;
    for (int i = 0; i < nthreads; i++)
        if (threads[i].state == T_MUTEX && threads[i].waitObj == m) { threads[i].state = T_RUN; threads[i].wakeAt = 0; }
    return 0;
}

static u64 absToV(clockid_t c, const timespec *ts) {
    i64 ns = (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec;
    i64 base = (c == CLOCK_MONOTONIC) ? (i64)monoNow() : simWall();
    i64 d = ns - base;
    if (d < 0) d = 0;
    return vnow + (u64)d + 1;
}

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!on()) return (active && self) ? 0 : r_mutex_lock(m);
    opPoint();
    Enter in;
    return muLock(m, muRecursive(m), 0);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!on()) return (active && self) ? 0 : r_mutex_trylock(m);
    opPoint();
    Enter in;
    MuEnt *e = mu(m);
    if (e->owner >= 0 && !(e->owner == self->tid && muRecursive(m))) return EBUSY;
    return muLock(m, muRecursive(m), 0);
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *ts) {
    opPoint();
    Enter in;
    return muLock(m, muRecursive(m), absToV(CLOCK_REALTIME, ts));
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *ts) {
    opPoint();
    Enter in;
    return muLock(m, muRecursive(m), absToV(c, ts));
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!on()) return (active && self) ? 0 : r_mutex_unlock(m);
    int r;
    { Enter in; r = muUnlock(m); wakeHint(); }
    opPoint();
    return r;
}
int pthread_mutex_destroy(pthread_mutex_t *m) { if (on()) { Enter in; mu(m)->owner = -1; } return 0; }

// rwlocks and spinlocks: treated as exclusive locks / simple reader counts
int pthread_spin_lock(pthread_spinlock_t *m) { opPoint(); Enter in; return muLock((void *)m, false, 0); }
int pthread_spin_trylock(pthread_spinlock_t *m) { opPoint(); Enter in; if (mu((void *)m)->owner >= 0) return EBUSY; return muLock((void *)m, false, 0); }
int pthread_spin_unlock(pthread_spinlock_t *m) { { Enter in; muUnlock((void *)m); } opPoint(); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { opPoint(); Enter in; return muLock(m, true, 0); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { opPoint(); Enter in; return muLock(m, false, 0); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { { Enter in; muUnlock(m); } opPoint(); return 0; }

static int condWait(pthread_cond_t *c, pthread_mutex_t *m, u64 deadline) {
    opPoint();
    Enter in;
    shm->cov.condWaits++;
    u32 n = ++condCount;
    u64 spur = 0;
    if (Fault *f = FAULT(FK_SPURIOUS, n)) spur = vnow + (u64)f->v + 1;
    if (deadline) {
        shm->cov.timedWaits++;
        if (Fault *f = FAULT(FK_OVERSLEEP, ++timedCount)) deadline += (u64)f->v;
    }
    SimThread *t = self;
    t->waitObj = c;
    t->waitSeq = ++waitSeqCtr;
    t->woken = 0;
    bool isSpur = spur && (!deadline || spur < deadline);
    t->wakeAt = isSpur ? spur : deadline;
    t->state = T_COND;
    muUnlock(m);
    wakeHint();
    recomputeNext();
    blockHere(t);
    int w = t->woken;
    t->wakeAt = 0;
    muLock(m, muRecursive(m), 0);
    if (w == 2 && !isSpur) return ETIMEDOUT;
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!on()) return r_cond_wait(c, m);
    return condWait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts) {
    return condWait(c, m, absToV(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *ts) {
    return condWait(c, m, absToV(k, ts));
}
static int condWake(pthread_cond_t *c, bool all) {
    opPoint();
    {
        Enter in;
        for (;;) {
            int cand[MAXSIM], n = 0;
            for (int i = 0; i < nthreads; i++)
                if (threads[i].state == T_COND && threads[i].waitObj == c && threads[i].woken == 0) cand[n++] = i;
            if (!n) break;
            int k = 0;
            for (int i = 1; i < n; i++) if (threads[cand[i]].waitSeq < threads[cand[k]].waitSeq) k = i;
            if (!all && n > 1) {
                u32 sc = ++sigCount;
                if (replaying()) {
                    SEnt *e = findEnt(SK_SIG, 0, sc);
                    if (e) for (int i = 0; i < n; i++) if (cand[i] == e->target) k = i;
                } else if (!fairMode) k = (int)shm->schedRng.below(n);
                record(SK_SIG, 0, sc, cand[k]);
            }
            SimThread &t = threads[cand[k]];
            t.woken = 1;
            t.state = T_RUN;
            t.wakeAt = 0;
            wakeHint();
            if (!all) break;
        }
    }
    opPoint();
    return 0;
}
int pthread_cond_signal(pthread_cond_t *c) { if (!on()) return r_cond_signal(c); return condWake(c, false); }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!on()) return r_cond_broadcast(c); return condWake(c, true); }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { __real_memset(c, 0, sizeof *c); return 0; }

// ------------------------------------------------------------------ guards / once
static bool guardBusy(unsigned char *g) { return g[1] == 1; }
int __cxa_guard_acquire(long *gl) {
    unsigned char *g = (unsigned char *)gl;
    if (g[0]) return 0;
    if (on()) {
        opPoint();
        Enter in;
        while (!g[0] && guardBusy(g)) { self->state = T_GUARD; self->waitObj = g; blockHere(self); }
    }
    if (g[0]) return 0;
    g[1] = 1;
    return 1;
}
static void guardWake(void *g) { for (int i = 0; i < nthreads; i++) if (threads[i].state == T_GUARD && threads[i].waitObj == g) threads[i].state = T_RUN; }
void __cxa_guard_release(long *gl) { unsigned char *g = (unsigned char *)gl; g[0] = 1; g[1] = 0; guardWake(g); }
void __cxa_guard_abort(long *gl) { unsigned char *g = (unsigned char *)gl; g[1] = 0; guardWake(g); }
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if (*o == 2) return 0;
    if (on()) {
        Enter in;
        while (*o == 1) { self->state = T_GUARD; self->waitObj = o; blockHere(self); }
    }
    if (*o == 2) return 0;
    *o = 1;
    fn();
    *o = 2;
    guardWake(o);
    return 0;
}

// ------------------------------------------------------------------ threads
static void *threadMain(void *p) {
    SimThread *t = (SimThread *)p;
    self = t;
    t->ktid = (pid_t)syscall(SYS_gettid);
    waitGo(t);
    pthread_attr_t at;
    if (pthread_getattr_np(pthread_self(), &at) == 0) {
        void *a; size_t s;
        pthread_attr_getstack(&at, &a, &s);
        t->stackLo = (uintptr_t)a;
        t->stackSize = s;
        pthread_attr_destroy(&at);
    }
    pthread_setspecific(doneKey, t);
    t->inSim = 0;
    return t->fn(t->arg);
}
static void threadExit(void *p) {            // runs after the thread_local destructors
    SimThread *t = (SimThread *)p;
    t->inSim = 1;
    t->state = T_DONE;
    shm->cov.deletedThreads++;
    for (int i = 0; i < nthreads; i++)
        if (threads[i].state == T_JOIN && threads[i].waitObj == t) threads[i].state = T_RUN;
    reapTid = t->ktid;
    blockHere(t, true);
}
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    if (!on()) return r_pthread_create(th, at, fn, arg);
    opPoint();
    {
        Enter in;
        if (nthreads >= MAXSIM) { simFail("harness", "too many threads"); dieVerdict(); }
        SimThread *t = &threads[nthreads];
        t->tid = nthreads;
        t->planTid = -1;
        t->state = T_RUN;
        t->fn = fn;
        t->arg = arg;
        t->inSim = 1;
        t->go = 0;
        t->npoints = 0;
        t->prio = replaying() ? 0 : (int)shm->schedRng.below(1000);
        if (Fault *f = FAULT(FK_SKEW, (u32)nthreads)) t->skew = f->v;
        nthreads++;
        int r = r_pthread_create(&t->real, at, threadMain, t);
        if (r) return r;
        *th = t->real;
        int ds = 0;
        if (at && pthread_attr_getdetachstate(at, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED) t->detached = true;
        wakeHint();
    }
    opPoint();
    return 0;
}
int pthread_join(pthread_t th, void **rv) {
    if (!on()) return r_pthread_join(th, rv);
    opPoint();
    Enter in;
    SimThread *t = nullptr;
    for (int i = 0; i < nthreads; i++) if (!threads[i].joined && !threads[i].detached && threads[i].real == th && i != 0) t = &threads[i];
    if (!t) return ESRCH;
    while (t->state != T_DONE) { self->state = T_JOIN; self->waitObj = t; blockHere(self); }
    t->joined = true;
    return r_pthread_join(th, rv);
}
int pthread_detach(pthread_t th) {
    for (int i = 0; i < nthreads; i++) if (!threads[i].joined && threads[i].real == th) threads[i].detached = true;
    static int (*r)(pthread_t) = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
    return r(th);
}
int sched_yield() {
    if (!on()) return (int)syscall(SYS_sched_yield);
    self->trigger = replayingFast ? self->trigger : self->npoints;
    opPoint();
    return 0;
}
int sched_getcpu() { if (!on()) return 0; opPoint(); return (int)(shm->gseq % 4); }

static void sleepV(u64 ns) {
    opPoint();
    Enter in;
    self->state = T_SLEEP;
    self->wakeAt = vnow + ns + 1;
    recomputeNext();
    blockHere(self);
}
int nanosleep(const timespec *r, timespec *rem) {
    if (!on()) return (int)syscall(SYS_nanosleep, r, rem);
    sleepV((u64)r->tv_sec * 1000000000ull + (u64)r->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const timespec *r, timespec *rem) {
    if (!on()) return (int)syscall(SYS_clock_nanosleep, c, fl, r, rem);
    if (fl & TIMER_ABSTIME) sleepV(absToV(c, r) - vnow);
    else sleepV((u64)r->tv_sec * 1000000000ull + (u64)r->tv_nsec);
    return 0;
}
int usleep(useconds_t us) {
    if (!on()) { timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr); }
    sleepV((u64)us * 1000);
    return 0;
}
unsigned sleep(unsigned s) {
    if (!on()) { timespec t{(time_t)s, 0}; syscall(SYS_nanosleep, &t, nullptr); return 0; }
    sleepV((u64)s * 1000000000ull);
    return 0;
}

// ------------------------------------------------------------------ clocks (libc)
int clock_gettime(clockid_t c, timespec *ts) {
    if (!active || !self) return (int)syscall(SYS_clock_gettime, c, ts);
    opPoint();
    vnow += 20;
    i64 ns = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? simWall() : (i64)monoNow();
    ts->tv_sec = ns / 1000000000ll;
    ts->tv_nsec = ns % 1000000000ll;
    return 0;
}
int gettimeofday(struct timeval *tv, void *) {
    if (!active || !self) { timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
    // Used by the TSC calibration, which busy-waits for 10 ms: let time pass in
    // whole microseconds so that the calibration is exact and short.
    vnow += 700000;
    vnow -= (u64)(simWall() % 1000);
    i64 ns = simWall();
    tv->tv_sec = ns / 1000000000ll;
    tv->tv_usec = (ns % 1000000000ll) / 1000;
    return 0;
}
time_t time(time_t *out) {
    time_t r;
    if (!active || !self) { timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); r = t.tv_sec; }
    else {
        if (Fault *f = FAULT(FK_WALLJUMP, ++timeCount)) shm->wallOff += f->v * 1000000000ll;
        ckptTsc = lastTsc;
        r = simWall() / 1000000000ll;
    }
    if (out) *out = r;
    return r;
}

// ------------------------------------------------------------------ files
static const char *norm(const char *n) { while (n[0] == '.' && n[1] == '/') { n += 2; while (*n == '/') n++; } return n; }
}
int simFileIdx(const char *name) {
    name = norm(name);
    for (u32 i = 0; i < shm->nfiles; i++) if (!strcmp(shm->files[i].name, name)) return (int)i;
    return -1;
}
extern "C" {
static bool simPath(const char *n) { return active && self && n && n[0] != '/'; }

static int simOpen(const char *path, int flags) {
    opPoint();
    Enter in;
    if (Fault *f = FAULT(FK_OPEN_FAIL, ++openCount)) { errno = (int)f->v; return -1; }
    const char *n = norm(path);
    if (strchr(n, '/')) { errno = ENOENT; return -1; }
    int i = simFileIdx(n);
    if (i < 0 || !shm->files[i].exists) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        if (i < 0) {
            if (shm->nfiles >= (u32)MAXFILES) { errno = ENOSPC; return -1; }
            i = (int)shm->nfiles++;
            snprintf(shm->files[i].name, sizeof shm->files[i].name, "%s", n);
            shm->files[i].readable = shm->files[i].writable = 1;
        }
        shm->files[i].exists = 1;
        shm->files[i].size = 0;
        shm->files[i].dirtyFrom = 0;
    }
    SimFile &sf = shm->files[i];
    int acc = flags & O_ACCMODE;
    if ((acc != O_WRONLY && !sf.readable) || (acc != O_RDONLY && !sf.writable)) { errno = EACCES; return -1; }
    if (flags & O_TRUNC) { sf.size = 0; sf.dirtyFrom = 0; }
    for (int k = 0; k < 64; k++)
        if (!fds[k].open) { fds[k] = SimFd{true, i, flags, 0}; return FDBASE + k; }
    errno = EMFILE;
    return -1;
}
int open(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    if (!simPath(path)) return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    return simOpen(path, flags);
}
int open64(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    if (!simPath(path)) return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    return simOpen(path, flags);
}
int openat(int d, const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    if (!simPath(path)) return (int)syscall(SYS_openat, d, path, flags, mode);
    return simOpen(path, flags);
}
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int close(int fd) {
    if (fd < FDBASE || !active) return (int)syscall(SYS_close, fd);
    opPoint();
    SimFd *f = simfd(fd);
    if (!f) { errno = EBADF; return -1; }
    f->open = false;
    return 0;
}
int access(const char *path, int mode) {
    if (!simPath(path)) return (int)syscall(SYS_access, path, mode);
    opPoint();
    int i = simFileIdx(path);
    if (i < 0 || !shm->files[i].exists) { errno = ENOENT; return -1; }
    if (((mode & R_OK) && !shm->files[i].readable) || ((mode & W_OK) && !shm->files[i].writable)) { errno = EACCES; return -1; }
    return 0;
}
static int doSync(int fd) {
    SimFd *f = simfd(fd);
    if (!f) { errno = EBADF; return -1; }
    opPoint();
    shm->files[f->file].dirtyFrom = shm->files[f->file].size;
    return 0;
}
int fdatasync(int fd) { if (fd < FDBASE || !active) return (int)syscall(SYS_fdatasync, fd); return doSync(fd); }
int fsync(int fd) { if (fd < FDBASE || !active) return (int)syscall(SYS_fsync, fd); return doSync(fd); }
static u32 writeCount;
ssize_t write(int fd, const void *b, size_t n) {
    if (fd < FDBASE || !active) return syscall(SYS_write, fd, b, n);
    opPoint();
    SimFd *f = simfd(fd);
    if (!f) { errno = EBADF; return -1; }
    u32 k = ++writeCount, half;
    const u8 *src = (const u8 *)b;
    {
        Enter in;
        bool direct = f->flags & O_DIRECT;
        if (direct && ((n | (uintptr_t)b) & 511)) { errno = EINVAL; return -1; }
        if (FAULT(FK_WRITE_EINTR, k)) { errno = EINTR; return -1; }
        if (Fault *x = FAULT(FK_WRITE_ERROR, k)) { shm->epochIoErr[shm->epoch]++; errno = (int)x->v; return -1; }
        if (Fault *x = FAULT(FK_WRITE_SHORT, k)) { n = n * (size_t)x->v / 1000; if (direct) n &= ~511ul; if (n == 0) { errno = EINTR; return -1; } }
        half = (u32)((u64)n * shm->plan.aioSplit / 1000);
        if (direct) half &= ~511u;
        if (half) fileWrite(f, f->pos, src, half);
        inWrite = half + 1;
    }
    opPoint();                  // a crash here leaves a part of the data
    Enter in;
    inWrite = 0;
    if (n > half) fileWrite(f, f->pos + half, src + half, (u32)n - half);
    f->pos += n;
    aioDone++;
    return (ssize_t)n;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    if (fd < FDBASE || !active) return syscall(SYS_pwrite64, fd, b, n, o);
    opPoint();
    Enter in;
    SimFd *f = simfd(fd);
    if (!f) { errno = EBADF; return -1; }
    fileWrite(f, (u32)o, (const u8 *)b, (u32)n);
    return (ssize_t)n;
}
off_t lseek(int fd, off_t o, int wh) {
    if (fd < FDBASE || !active) return syscall(SYS_lseek, fd, o, wh);
    SimFd *f = simfd(fd);
    if (!f) { errno = EBADF; return -1; }
    i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : shm->files[f->file].size;
    f->pos = (u32)(b + o);
    return f->pos;
}
int ftruncate(int fd, off_t n) {
    if (fd < FDBASE || !active) return (int)syscall(SYS_ftruncate, fd, n);
    SimFd *f = simfd(fd);
    if (!f) { errno = EBADF; return -1; }
    SimFile &sf = shm->files[f->file];
    if ((u32)n > sf.size) __real_memset(sf.data() + sf.size, 0, (u32)n - sf.size);
    sf.size = (u32)n;
    if (sf.dirtyFrom > sf.size) sf.dirtyFrom = sf.size;
    return 0;
}

// ------------------------------------------------------------------ POSIX AIO
int aio_write(struct aiocb *cb) {
    opPoint();
    int r = 0;
    {
        Enter in;
        u32 n = ++aioCount;
        shm->cov.aioWrites++;
        if (FAULT(FK_AIO_EAGAIN, n)) { errno = EAGAIN; return -1; }
        if (!simfd(cb->aio_fildes)) { errno = EBADF; return -1; }
        if (naio >= 60) { errno = EAGAIN; return -1; }
        AioReq &q = aioq[naio];
        q = AioReq{};
        q.cb = cb;
        q.fd = cb->aio_fildes;
        q.n = n;
        q.nbytes = (u32)cb->aio_nbytes;
        q.shortTo = q.nbytes;
        u64 lat = shm->plan.aioLatency;
        if (Fault *f = FAULT(FK_AIO_LATENCY, n)) lat = (u64)f->v;
        if (Fault *f = FAULT(FK_AIO_SHORT, n)) { q.shortTo = (u32)((u64)q.nbytes * (u64)f->v / 1000); if (q.shortTo == 0) q.shortTo = 1; if (fds[q.fd - FDBASE].flags & O_DIRECT) q.shortTo &= ~511u; }
        if (Fault *f = FAULT(FK_AIO_ERROR, n)) { q.err = (int)f->v; shm->epochIoErr[shm->epoch]++; }
        u64 base = vnow;
        for (int i = 0; i < naio; i++) if (aioq[i].fd == q.fd && aioq[i].doneAt > base) base = aioq[i].doneAt;
        q.doneAt = base + lat + 1;
        q.copy = (u8 *)__real_malloc(q.nbytes + 1);
        q.head = (u32)((u64)q.nbytes * shm->plan.aioSplit / 1000);
        if (q.head) safeRead(q.copy, (const void *)cb->aio_buf, q.head);
        naio++;
        AioStat *s = aioStat(cb, true);
        s->err = EINPROGRESS;
        s->ret = -1;
        recomputeNext();
        checkTrigger(TRIG_AIO_SUBMIT, n);
    }
    opPoint();
    return r;
}
int aio_error(const struct aiocb *cb) {
    opPoint();
    AioStat *s = aioStat(cb, false);
    return s ? s->err : 0;
}
ssize_t aio_return(struct aiocb *cb) {
    opPoint();
    AioStat *s = aioStat(cb, false);
    if (!s) return 0;
    if (s->err && s->err != EINPROGRESS) errno = s->err;
    return s->ret;
}
int aio_suspend(const struct aiocb *const list[], int n, const timespec *ts) {
    opPoint();
    Enter in;
    bool intr = FAULT(FK_SUSPEND_EINTR, ++suspendCount) != nullptr;
    u64 dl = ts ? vnow + (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec + 1 : 0;
    for (;;) {
        bool any = false;
        for (int i = 0; i < n; i++) if (list[i]) { AioStat *s = aioStat(list[i], false); if (!s || s->err != EINPROGRESS) any = true; }
        if (any) return 0;
        if (intr) { errno = EINTR; return -1; }
        if (dl && vnow >= dl) { errno = EAGAIN; return -1; }
        self->state = T_AIO;
        self->wakeAt = dl;
        recomputeNext();
        blockHere(self);
    }
}
int aio_fsync(int, struct aiocb *cb) { AioStat *s = aioStat(cb, true); s->err = 0; s->ret = 0; return 0; }
int aio_cancel(int, struct aiocb *) { return AIO_ALLDONE; }
int aio_write64(struct aiocb64 *cb) { return aio_write((struct aiocb *)cb); }
int aio_error64(const struct aiocb64 *cb) { return aio_error((const struct aiocb *)cb); }
ssize_t aio_return64(struct aiocb64 *cb) { return aio_return((struct aiocb *)cb); }
int aio_suspend64(const struct aiocb64 *const l[], int n, const timespec *ts) { return aio_suspend((const struct aiocb *const *)l, n, ts); }

// ------------------------------------------------------------------ stdio on the simulated disk
struct Cookie { int file; u32 pos; int mode; };
static Rng readRng;
static bool shortReads;
static i64 eioAt = -1, readCount;
static bool eioOn, eioStay;
static ssize_t ckRead(void *c, char *b, size_t n) {
    Cookie *k = (Cookie *)c;
    SimFile &sf = shm->files[k->file];
    if (eioAt >= 0 && (eioOn || readCount++ == eioAt)) { eioOn = eioStay; shm->cov.faultsFired[FK_READ_EIO]++; errno = EIO; return -1; }
    if (k->pos >= sf.size) return 0;
    u32 left = sf.size - k->pos;
    if (n > left) n = left;
    if (shortReads && n > 1 && readRng.below(3) == 0) { n = 1 + readRng.below((u32)(n > 700 ? 700 : n)); shm->cov.faultsFired[FK_SHORT_READ]++; }
    __real_memcpy(b, sf.data() + k->pos, n);
    k->pos += (u32)n;
    return (ssize_t)n;
}
static ssize_t ckWrite(void *c, const char *b, size_t n) {
    Cookie *k = (Cookie *)c;
    SimFd f{true, k->file, k->mode, 0};
    fileWrite(&f, k->pos, (const u8 *)b, (u32)n);
    k->pos += (u32)n;
    return (ssize_t)n;
}
static int ckSeek(void *c, off64_t *o, int wh) {
    Cookie *k = (Cookie *)c;
    i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)k->pos : (i64)shm->files[k->file].size;
    b += *o;
    if (b < 0) { errno = EINVAL; return -1; }
    k->pos = (u32)b;
    *o = b;
    return 0;
}
static FILE *lastOpened;
static void *lastCookie;
static int ckClose(void *c) { if (c == lastCookie) { lastOpened = nullptr; lastCookie = nullptr; } free(c); return 0; }
FILE *fopen(const char *path, const char *mode) {
    if (!simPath(path) || self->inSim > 8) return r_fopen(path, mode);
    int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? (O_WRONLY | O_CREAT | O_TRUNC) : (O_WRONLY | O_CREAT | O_APPEND);
    if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    int fd = simOpen(path, fl);
    if (fd < 0) return nullptr;
    Cookie *k = (Cookie *)__real_malloc(sizeof(Cookie));
    *k = Cookie{fds[fd - FDBASE].file, 0, fl};
    fds[fd - FDBASE].open = false;
    cookie_io_functions_t io{ckRead, ckWrite, ckSeek, ckClose};
    lastCookie = k;
    return lastOpened = fopencookie(k, mode, io);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
}
u32 simReadPos() { off_t o = lastOpened ? ftello(lastOpened) : -1; return o < 0 ? ~0u : (u32)o; }
void simDecodeReads(u64 shortSeed, i64 eio, int stay) {
    eioOn = false; eioStay = stay != 0;
    shortReads = shortSeed != 0;
    readRng.seed(shortSeed);
    eioAt = eio;
    readCount = 0;
}

// ------------------------------------------------------------------ allocation faults
// Large blocks (staging buffers, output buffers, decoder fragments) come from an
// arena that is never reused: each ends at an inaccessible page and becomes
// inaccessible when freed, so overruns and uses after free end the program.
static const size_t ARENA = 1ull << 37, BIG = 1000;
static char *arenaLo, *arenaPos;
struct BigBlock { void *p; size_t n; int tid; };
static BigBlock bigBlocks[4096];                  // live blocks allocated by logging calls
static int nBig;
static void *bigAlloc(size_t n, size_t al) {
    if (!arenaLo) {
        void *m = mmap((void *)0x200000000000, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) return nullptr;
        arenaLo = arenaPos = (char *)m;
    }
    size_t pages = (n + al + 4095) & ~(size_t)4095;
    if ((size_t)(arenaPos - arenaLo) + pages + 8192 > ARENA) return nullptr;
    char *base = arenaPos + 4096;                 // first page holds the sizes
    if (mprotect(arenaPos, 4096 + pages, PROT_READ | PROT_WRITE)) return nullptr;
    char *end = base + pages;
    char *p = (char *)(((uintptr_t)end - n) & ~(uintptr_t)(al - 1));
    *(size_t *)arenaPos = pages;
    *(char **)(arenaPos + 8) = p;
    arenaPos = end + 4096;
    __real_memset(p, 0x5a, n <= 65536 ? n : 65536);
    if (self && self->inLog && nBig < 4096) bigBlocks[nBig++] = BigBlock{p, n, self->planTid};
    return p;
}
static bool bigFree(void *p) {
    if (!arenaLo || (char *)p < arenaLo || (char *)p >= arenaLo + ARENA) return false;
    char *h = (char *)((uintptr_t)p & ~(uintptr_t)4095);
    for (int i = 0; i < 4 && h >= arenaLo; i++, h -= 4096)
        if (*(char **)(h + 8) == p) {
            size_t pages = *(size_t *)h;
            madvise(h, 4096 + pages, MADV_DONTNEED);
            mprotect(h, 4096 + pages, PROT_NONE);
            for (int k = 0; k < nBig; k++) if (bigBlocks[k].p == p) { bigBlocks[k] = bigBlocks[--nBig]; break; }
            return true;
        }
    abort();
}
static void release(void *p, bool viaFree) {
    if (!p || bigFree(p)) return;
    if (!viaFree) __real_memset(p, 0x5b, malloc_usable_size(p));
    __libc_free(p);
}
void *operator new(size_t n) {
    if (active && self && !self->inSim && self->inLog && haveFault[FK_ALLOC_FAIL])
        if (fault(FK_ALLOC_FAIL, ++allocCount)) throw std::bad_alloc();
    void *p = active && n >= BIG ? bigAlloc(n, 16) : nullptr;
    if (p) return p;
    p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    __real_memset(p, 0x5a, n <= 65536 ? n : 65536);           // fresh memory is not zero
    return p;
}
extern "C" int posix_memalign(void **out, size_t al, size_t n) noexcept {
    if (al < sizeof(void *) || (al & (al - 1))) return EINVAL;
    void *p = active && n >= BIG && al <= 4096 ? bigAlloc(n, al) : nullptr;
    if (!p) {
        p = memalign(al, n);
        if (!p) return ENOMEM;
        __real_memset(p, 0x5a, n <= 65536 ? n : 65536);
    }
    *out = p;
    return 0;
}
// malloc() of the library and the harness (--wrap); blocks of a mere gigabyte are left alone
extern "C" void *__real_malloc(size_t);
extern "C" void *__wrap_malloc(size_t n) {
    void *p = active && n && n <= (64u << 20) && !(self && self->inSim) ? bigAlloc(n, n % 16 == 0 ? 16 : n % 8 == 0 ? 8 : 1) : nullptr;
    return p ? p : __real_malloc(n);
}
extern "C" void free(void *p) noexcept { release(p, true); }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { release(p, false); }
void operator delete[](void *p) noexcept { release(p, false); }
void operator delete(void *p, size_t) noexcept { release(p, false); }
void operator delete[](void *p, size_t) noexcept { release(p, false); }
// live blocks of at least n bytes that logging calls of a thread in gone[] allocated
u32 simBlocksOf(const bool *gone, size_t n) {
    u32 k = 0;
    for (int i = 0; i < nBig; i++) if (bigBlocks[i].n >= n && bigBlocks[i].tid >= 0 && gone[bigBlocks[i].tid]) k++;
    return k;
}

// ------------------------------------------------------------------ harness services
void simTrigger(int kind) {
    if (kind == TRIG_SYNC_RET) checkTrigger(kind, ++syncRet);
    else if (kind == TRIG_LOG_RET) checkTrigger(kind, ++logRet);
}
void simSetInLog(int o) { if (self) self->inLog = o; }
void simSetPlanTid(int t) { self->planTid = t; }
int simPlanTid() { return self ? self->planTid : -1; }
static bool planDone[MAXTH];
void simThreadDone(int t) {
    Enter in;
    planDone[t] = true;
    for (int i = 0; i < nthreads; i++)
        if (threads[i].state == T_WAITDONE && threads[i].waitObj == &planDone[t]) threads[i].state = T_RUN;
    wakeHint();
}
void simWaitDone(int t) {
    opPoint();
    Enter in;
    while (!planDone[t]) { self->state = T_WAITDONE; self->waitObj = &planDone[t]; blockHere(self); }
}
void simPark() {
    Enter in;
    for (;;) { self->state = T_PARK; blockHere(self); }
}
u32 simTextAlloc(u32 n) {
    if (shm->ntext + n > TEXTCAP) { simFail("harness", "text arena full"); dieVerdict(); }
    u32 o = shm->ntext;
    shm->ntext += n;
    return o;
}

static void onTimer(int sig) {
    // a slow run that still takes steps is bounded by hardCap, not by a timer
    static volatile u64 seen[2] = {0, 0};
    int k = sig == SIGPROF;
    if (!decodeMode && steps > seen[k]) { seen[k] = steps; return; }
    char d[1200] = "";
    describeThreads(d, sizeof d);
    simFail("hang", "%s spent more than its %s budget without reaching the simulator (epoch %u):%s",
            shm->mode == 2 ? "decoder" : "program", sig == SIGPROF ? "CPU time" : "wall clock", shm->epoch, d);
    dieVerdict();
}
static void onSegv(int, siginfo_t *, void *uc) {
    ucontext_t *u = (ucontext_t *)uc;
    u8 *ip = (u8 *)u->uc_mcontext.gregs[REG_RIP];
    u8 b[3] = {0, 0, 0};
    safeRead(b, ip, 3);
    int len = (b[0] == 0x0f && b[1] == 0x31) ? 2 : (b[0] == 0x0f && b[1] == 0x01 && b[2] == 0xf9) ? 3 : 0;
    if (!len) { signal(SIGSEGV, SIG_DFL); return; }
    u64 v = tscNow(self);
    u->uc_mcontext.gregs[REG_RAX] = (greg_t)(v & 0xffffffffu);
    u->uc_mcontext.gregs[REG_RDX] = (greg_t)(v >> 32);
    if (len == 3) u->uc_mcontext.gregs[REG_RCX] = 0;
    u->uc_mcontext.gregs[REG_RIP] += len;
}

static void finalExit() {
    self->inSim++;
    if (shm->mode == 1) {
        shm->epochClean[shm->epoch] = 1;
        shm->epochLostAio[shm->epoch] = naio;
    }
    flushState();
}

void simResolve() { resolve(); }
u64 simAioDone() { return aioDone; }

void simChildInit(int, char **argv) {
    // fresh state for this process
    nthreads = 1;
    SimThread *t = &threads[0];
    t->tid = 0;
    t->planTid = 0;
    t->state = T_RUN;
    t->real = pthread_self();
    t->ktid = (pid_t)syscall(SYS_gettid);
    uintptr_t hi = ((uintptr_t)argv + 0x10000) & ~0xfffull;
    t->stackLo = hi - (8ull << 20);
    t->stackSize = 8ull << 20;
    self = t;
    vnow = shm->vnow;
    steps = 0;
    nextEvent = NEVER;
    tick = shm->plan.tick;
    softCap = 4000000;
    hardCap = 9000000;
    crashStep = NEVER;
    pctNext = NEVER;
    replayingFast = shm->replay || shm->mode == 2;
    decodeMode = shm->mode == 2;
    scanFaults();
    Plan &p = shm->plan;
    EpochPlan &e = p.ep[shm->epoch];
    if (shm->mode == 1) {
        if (e.end != END_EXIT && e.trig == TRIG_STEP) crashStep = e.trigN;
        windows = !replayingFast && p.strat == ST_WINDOW;
        if (!replayingFast && p.strat == ST_PCT) { pctLeft = 8; pctNext = 1 + shm->schedRng.below(p.gap * 8 + 1); }
        t->prio = replayingFast ? 0 : (int)shm->schedRng.below(1000);
        if (Fault *f = FAULT(FK_SKEW, 0)) t->skew = f->v;
    }
    setLimit();
    setTrigger(t);
    pthread_key_create(&doneKey, threadExit);
    atexit(finalExit);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    struct sigaction sa;
    __real_memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onSegv;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr);
    signal(SIGPROF, onTimer);
    signal(SIGALRM, onTimer);
    int cpu = shm->mode == 2 ? 12 : 6;
    itimerval iv{{cpu, 0}, {cpu, 0}};
    setitimer(ITIMER_PROF, &iv, nullptr);
    itimerval iw{{90, 0}, {90, 0}};
    setitimer(ITIMER_REAL, &iw, nullptr);
    prctl(PR_SET_TSC, PR_TSC_SIGSEGV, 0, 0, 0);
    active = true;
}
