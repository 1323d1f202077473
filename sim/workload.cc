// Executes one epoch (one execution of the simulated program) of the plan and
// records the history.  Compiled without instrumentation.
#include "sim.h"
#include <math.h>
#include <new>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

namespace {
struct Worker { u32 epoch, tid; };
Worker ws[MAXTH];
pthread_t pt[MAXTH];
bool joined[MAXTH], spawned[MAXTH];
__thread u32 mySeq;

Event *newEvent(EvKind k) {
    if (shm->nev >= MAXEV) { simFail("harness", "event table full"); _Exit(78); }
    Event &e = shm->ev[shm->nev++];
    memset(&e, 0, sizeof e);
    e.kind = k;
    e.epoch = (u8)shm->epoch;
    e.tid = (u16)simPlanTid();
    e.begin = simEvent();
    return &e;
}
void doneEvent(Event *e, int ok = 1) { e->ok = (u8)ok; e->end = simEvent(); e->done = 1; }

void doLog(const Op &op) {
    LogCtx c;
    u32 cap = (shm->plan.maxStr * 14 + 8192 + (apiOutput() >= 100000 ? 32768 : 0)) & ~15u;
    char *mem = (char *)__real_malloc(cap * 2);
    c.buf = mem; c.cap = cap; c.len = 0;
    c.scratch = mem + cap; c.scratchUsed = 0;
    c.nargs = 0; c.nown = 0;
    c.m = nullptr;
    c.r.seed(op.b);
    c.uid = shm->epoch * 10000000u + (u32)simPlanTid() * 20000u + (++mySeq);
    snprintf(c.uids, sizeof c.uids, "%u", c.uid);
    if (shm->nmsg >= MAXMSG || shm->narg + 64 > MAXARG) { simFail("harness", "history full"); _Exit(78); }
    Msg &m = shm->msg[shm->nmsg++];
    memset(&m, 0, sizeof m);
    m.epoch = (u8)shm->epoch;
    m.tid = (u16)simPlanTid();
    m.site = op.a;
    m.seq = mySeq;
    m.uid = c.uid;
    c.m = &m;
    int s = op.a < (u32)simNumSites ? op.a : simNumSites - 1;
    m.site = (u16)s;
    try {
        simSite(s, c);
    } catch (const std::bad_alloc &) {
        simSetInLog(0);
        m.state = MS_THREW;
        m.tscHi = simTsc();
        m.wallHi = simWall();
        m.end = simEvent();
    }
    for (u32 i = 0; i < c.nown; i++) free(c.own[i]);
    free(mem);
    shm->cov.msgs++;
    simTrigger(TRIG_LOG_RET);
}

void runOps(u32 tid);

void *workerMain(void *p) {
    Worker *w = (Worker *)p;
    simSetPlanTid((int)w->tid);
    mySeq = 0;
    runOps(w->tid);
    simThreadDone((int)w->tid);
    return nullptr;
}

const char *badNames[] = {"readonly", "no/such/directory/log", "readonly"};

void runOps(u32 tid) {
    EpochPlan &ep = shm->plan.ep[shm->epoch];
    if (tid >= ep.nthreads) return;
    for (u32 k = 0; k < ep.th[tid].count; k++) {
        const Op op = shm->plan.ops[ep.th[tid].start + k];
        switch (op.kind) {
            case OP_LOG: doLog(op); break;
            case OP_SYNC: {
                Event *e = newEvent(EV_SYNC);
                apiSync();
                e->a = shm->files[0].size;
                doneEvent(e);
                shm->cov.syncs++;
                simTrigger(TRIG_SYNC_RET);
                break;
            }
            case OP_PREALLOC: {
                Event *e = newEvent(EV_PREALLOC);
                int ok = 1;
                simSetInLog(1);
                try { apiPreallocate(); } catch (const std::bad_alloc &) { ok = 0; }
                simSetInLog(0);
                doneEvent(e, ok);
                break;
            }
            case OP_SETFILE: {
                if (tid != 0) break;
                Event *e = newEvent(EV_SETFILE);
                e->a = op.a;
                int rc = apiSetFile(shm->files[op.a < 5 ? op.a : 0].name);
                e->b = (u64)rc;
                doneEvent(e, rc == 0);
                break;
            }
            case OP_BADFILE: {
                if (tid != 0) break;
                Event *e = newEvent(EV_BADFILE);
                int rc = apiSetFile(badNames[op.a % 3]);
                e->b = (u64)rc;
                doneEvent(e, rc == 0);
                break;
            }
            case OP_SETLEVEL: {
                Event *e = newEvent(EV_SETLEVEL);
                int l = op.a == 9 ? -3 : op.a == 8 ? -1 : (int)op.a;        // out-of-range values are clamped
                e->a = l < 0 ? 0 : l > 4 ? 4 : (u64)l;
                apiSetLevel(l);
                doneEvent(e);
                break;
            }
            case OP_GETLEVEL: {
                Event *e = newEvent(EV_GETLEVEL);
                e->a = (u64)apiGetLevel();
                doneEvent(e);
                break;
            }
            case OP_SPAWN: {
                u32 t = op.a;
                if (tid != 0 || t == 0 || t >= (u32)MAXTH || t >= ep.nthreads || spawned[t]) break;
                ws[t] = Worker{shm->epoch, t};
                spawned[t] = true;
                if (pthread_create(&pt[t], nullptr, workerMain, &ws[t])) { simFail("harness", "pthread_create failed"); _Exit(78); }
                break;
            }
            case OP_JOIN: {
                u32 t = op.a;
                if (tid != 0 || t >= (u32)MAXTH || !spawned[t] || joined[t]) break;
                joined[t] = true;
                pthread_join(pt[t], nullptr);
                break;
            }
            case OP_WAITDONE: if (op.a < MAXTH && spawned[op.a]) simWaitDone(op.a); break;
            case OP_PARK: simThreadDone((int)tid); if (tid) simPark(); break;
            case OP_SLEEP: {
                timespec ts{(time_t)(op.b / 1000000000u), (long)(op.b % 1000000000u)};
                nanosleep(&ts, nullptr);
                break;
            }
            case OP_MEM: {
                // threads that are gone must not hold on to their buffers; one block
                // may be the table of log statements, which outlives its allocator
                if (tid != 0) break;
                u32 n = simBlocksOf(joined, apiStaging()), g = 0;
                for (bool j : joined) g += j;
                shm->cov.memChecks++;
                if (n > 1)
                    simFail("leak", "%u buffers of %u exited threads are still allocated after sync() returned three times (epoch %u)", n, g, shm->epoch);
                break;
            }
            case OP_TTREC: {
                u32 n = op.a >= 90 ? op.b : 1;
                for (u32 i = 0; i < n; i++) {
                    if (shm->ntt >= MAXTT) { simFail("harness", "time trace history full"); _Exit(78); }
                    u32 uid = shm->ntt++;
                    TTRec &t = shm->tt[uid];
                    memset(&t, 0, sizeof t);
                    t.epoch = (u8)shm->epoch; t.tid = (u16)tid;
                    t.fmt = (u8)(op.a >= 90 ? op.a - 90 : op.a);
                    Rng q; q.seed(op.b + i);
                    for (u32 &a : t.a) a = (u32)(q.below(3) ? q.below(1000) : q.next());
                    t.begin = simEvent();
                    t.tsLo = simTsc();
                    apiTtRecord(ttFormats[t.fmt], t.fmt == 5 ? 0 : t.tsLo, uid, t.a[0], t.a[1], t.a[2]);
                    t.tsHi = t.fmt == 5 ? simTsc() : t.tsLo;
                    t.end = simEvent();
                    t.done = 1;
                }
                break;
            }
            case OP_TTRESET: { Event *e = newEvent(EV_TTRESET); apiTtReset(); doneEvent(e); break; }
            case OP_TTGET:
            case OP_TTPRINT: {
                if (op.kind == OP_TTPRINT && tid != 0) break;
                Event *e = newEvent(EV_TTDUMP);
                char *out = nullptr;
                u32 n = 0;
                e->a = op.kind == OP_TTPRINT ? 1 + (op.a == 1) : 0;
                if (e->a == 0) n = apiTtGet(&out);
                else {
                    apiTtFile(e->a == 2 ? "readonly" : "trace.txt");
                    int f = simFileIdx("trace.txt");
                    u32 from = f < 0 ? 0 : shm->files[f].size;
                    apiTtPrint();
                    f = simFileIdx("trace.txt");
                    n = f < 0 ? 0 : shm->files[f].size - from;
                    out = (char *)__real_malloc(n + 1);
                    if (n) __real_memcpy(out, shm->files[f].data() + from, n);
                }
                e->end = simEvent();
                e->textOff = simTextAlloc(n);
                e->textLen = n;
                if (n) __real_memcpy(shm->text + e->textOff, out, n);
                free(out);
                e->done = 1;
                break;
            }
            case OP_STATS: {
                Event *e = newEvent(EV_STATS);
                char buf[4096];
                u32 n = apiStats(buf, sizeof buf);
                if (n >= sizeof buf) n = sizeof buf - 1;
                e->textOff = simTextAlloc(n);
                e->textLen = n;
                memcpy(shm->text + e->textOff, buf, n);
                e->a = op.a;
                u64 fin = 0;
                for (u32 i = 0; i < shm->nfiles; i++) if (shm->files[i].exists) fin += shm->files[i].size - shm->files[i].bytesAtEpoch[shm->epoch];
                e->b = fin;
                e->c = simAioDone();
                doneEvent(e);
                break;
            }
            default: break;
        }
    }
}
}

void simEpochMain() {
    mySeq = 0;
    simSetPlanTid(0);
    runOps(0);
    // the program never exits while one of its threads is still logging
    EpochPlan &ep = shm->plan.ep[shm->epoch];
    for (u32 t = 1; t < ep.nthreads; t++) {
        if (!spawned[t] || joined[t]) continue;
        bool parks = false;
        for (u32 k = 0; k < ep.th[t].count; k++) if (shm->plan.ops[ep.th[t].start + k].kind == OP_PARK) parks = true;
        if (parks) simWaitDone((int)t);
        else { joined[t] = true; pthread_join(pt[t], nullptr); }
    }
}

const char *ttFormats[] = {"%u", "<%u> a %u", "%u %x %d", "%u: %d %08x %u end", "event number %u", "%u now %u"};

// ---------------------------------------------------------------- LogCtx
static i64 interesting(Rng &r, int bits) {
    u32 x = r.below(10);
    if (x < 2) return (i64)r.below(256);
    if (x < 3) return -(i64)r.below(300);
    if (x < 5) {       // around powers of 256
        int k = (int)r.below((u32)(bits / 8 + 1));
        u64 b = k >= 8 ? 0 : (1ull << (8 * k));
        i64 v = (i64)(b + (u64)r.range(-2, 2));
        return r.below(2) ? v : -v;
    }
    if (x < 6) return 0;
    if (x < 7) return bits == 64 ? INT64_MAX : (i64)((1ull << (bits - 1)) - 1);
    if (x < 8) return bits == 64 ? INT64_MIN : -(i64)(1ull << (bits - 1));
    if (x < 9) return -1;
    return (i64)r.next();
}
int LogCtx::i32() { return (int)interesting(r, 32); }
unsigned LogCtx::u32_() { return (unsigned)interesting(r, 32); }
long LogCtx::i64_() { return (long)interesting(r, 64); }
unsigned long LogCtx::u64_() { return (unsigned long)interesting(r, 64); }
short LogCtx::i16() { return (short)interesting(r, 16); }
unsigned short LogCtx::u16_() { return (unsigned short)interesting(r, 16); }
signed char LogCtx::i8() { return (signed char)interesting(r, 8); }
unsigned char LogCtx::u8_() { return (unsigned char)interesting(r, 8); }
double LogCtx::dbl() {
    u32 x = r.below(8);
    if (x == 0) return 0.0;
    if (x == 1) return -0.5;
    if (x == 2) return 1e300;
    if (x == 3) return (double)INFINITY;
    if (x == 4) return 3.141592653589793;
    if (x == 5) return (double)(i64)r.next();
    if (x == 6) return -1.0 / (double)(1 + r.below(1000));
    return ldexp((double)r.below(1000000), (int)r.below(80) - 40);
}
float LogCtx::flt() { return r.below(3) ? (float)((int)r.below(2000) - 1000) / 7.0f : 2.5f; }
char LogCtx::chr() { static const char k[] = "abcXYZ019 ~!#"; return k[r.below(13)]; }
const void *LogCtx::ptr() { return (const void *)(uintptr_t)(r.below(3) ? 0x7f0000000000ull + r.below(1u << 30) : 0x1000 + r.below(65536)); }
int LogCtx::width() { return r.below(4) == 0 ? -(int)r.below(20) : (int)r.below(20); }
int LogCtx::prec() { return r.below(6) == 0 ? -1 - (int)r.below(9) : (int)r.below(12); }
u32 LogCtx::maxStr() { return shm->plan.maxStr; }
const char *LogCtx::strN(u32 len) {
    static const char cs[] = "abcdefghijklmnopqrstuvwxyz ABCDEFGHIJ0123456789_-+*%$#@!,.;:'\"/\\|~\t\x81\xc3\xfe";
    char *s = scratch + scratchUsed;
    if (scratchUsed + len + 1 > cap) { len = 0; if (scratchUsed + 1 > cap) scratchUsed = cap - 1; s = scratch + scratchUsed; }
    u64 bits = 0; int left = 0;
    for (u32 i = 0; i < len; i++) {
        if (!left) { bits = r.next(); left = 8; }
        s[i] = cs[(bits & 0xff) % (sizeof cs - 1)];
        bits >>= 8; left--;
    }
    s[len] = 0;
    scratchUsed += len + 1;
    return s;
}
const char *LogCtx::str(u32 maxlen) {
    u32 x = r.below(10);
    if (x == 0) return strN(0);
    if (x == 1) return strN(maxlen);
    if (x < 6) return strN(r.below((maxlen < 12 ? maxlen : 12) + 1));
    return strN(r.below(maxlen + 1));
}
const char *LogCtx::ustr(int prec) {
    if (prec < 0 || nown == 8 || r.below(3) == 0) return str(maxStr() / 6);
    char *p = (char *)malloc((size_t)prec + 1) + 1;      // ends where the mapping ends
    own[nown++] = p - 1;
    for (int i = 0; i < prec; i++) p[i] = (char)('a' + r.below(26));
    return p;
}
const wchar_t *LogCtx::wstr(u32 maxlen) {
    scratchUsed = (scratchUsed + 7) & ~7u;
    u32 len = r.below((maxlen < 40 ? maxlen : 40) + 1);
    if (scratchUsed + (len + 1) * 4 > cap) len = 0;
    wchar_t *s = (wchar_t *)(scratch + scratchUsed);
    for (u32 i = 0; i < len; i++) s[i] = (wchar_t)('a' + r.below(26));
    s[len] = 0;
    scratchUsed += (len + 1) * 4;
    return s;
}
void LogCtx::A(char type, u64 raw) { if (nargs < 64) args[nargs++] = Arg{type, raw, 0, 0}; }
void LogCtx::AF(double v) { u64 x; memcpy(&x, &v, 8); if (nargs < 64) args[nargs++] = Arg{'f', x, 0, 0}; }
void LogCtx::AS(const char *s, int prec) {
    u32 n = (u32)(prec >= 0 ? strnlen(s, (size_t)prec) : strlen(s));
    if (nargs < 64) args[nargs++] = Arg{'s', (u64)(uintptr_t)s, 0, n};
}
bool LogCtx::few() { static u32 k; return ++k <= 24; }
void LogCtx::skip() { if (nargs < 64) args[nargs++] = Arg{'-', 0, 0, 0}; }
void LogCtx::mark(u32 line, int level, int isStatic, int textLen) {
    if (textLen < 0 || (u32)textLen >= cap) { simFail("harness", "reference text does not fit"); _Exit(78); }
    m->line = line;
    m->level = (u8)level;
    m->isStatic = (u8)isStatic;
    m->textLen = (u32)textLen;
    m->textOff = simTextAlloc(m->textLen);
    memcpy(shm->text + m->textOff, buf, m->textLen);
    m->argOff = shm->narg;       // reserve first: memcpy below is a scheduling point
    m->nargs = (u8)nargs;
    shm->narg += nargs;
    for (u32 i = 0; i < nargs; i++) {
        Arg &a = shm->arg[m->argOff + i];
        a = args[i];
        if (a.type == 's') {
            a.off = simTextAlloc(a.len);
            memcpy(shm->text + a.off, (const char *)(uintptr_t)a.raw, a.len);
        }
    }
}
void LogCtx::begin() {
    m->begin = simEvent();
    m->wallLo = simWall();
    m->tscLo = simTsc();
    simSetInLog(1);
}
void LogCtx::end() {
    simSetInLog(0);
    m->tscHi = simTsc();
    m->wallHi = simWall();
    m->end = simEvent();
    m->state = MS_DONE;
}
