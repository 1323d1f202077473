// Driver: runs before the static constructors of the code under test.  It
// generates (or reads) plans, forks one child per simulated execution of the
// program and one per decoding session, and reports verdicts.
#include "sim.h"
#include "engine.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <malloc.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static int errFd = -1;
static int gargc; static char **gargv;

static void hashBytes(u64 &h, const void *p, size_t n) {
    const u8 *b = (const u8 *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
}

static const char *arg(const char *name, const char *def) {
    for (int i = 1; i + 1 < gargc; i++) if (!strcmp(gargv[i], name)) return gargv[i + 1];
    return def;
}
static bool flag(const char *name) { for (int i = 1; i < gargc; i++) if (!strcmp(gargv[i], name)) return true; return false; }

static double now() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

static void jsonStr(FILE *o, const char *s, size_t n) {
    fputc('"', o);
    for (size_t i = 0; i < n && s[i]; i++) {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') fprintf(o, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(o, "\\u%04x", c);
        else fputc(c, o);
    }
    fputc('"', o);
}

// ---------------------------------------------------------------- plan text
void writePlan(FILE *o, const Plan &p, const SEnt *s, u32 ns) {
    fprintf(o, "nanolog-sim-replay 1\n");
    fprintf(o, "H variant %s\nH family %s\nH seed %lu\nH epochs %u\nH tick %u\nH tscrate %lu\nH aiolat %u\nH aiosplit %u\nH maxstr %u\nH wallfrac %u\nH decode %u\n",
            p.variant, p.family, (unsigned long)p.seed, p.nepochs, p.tick, (unsigned long)p.tscRate, p.aioLatency, p.aioSplit, p.maxStr, p.wallFrac, p.decode);
    for (u32 e = 0; e < p.nepochs; e++) {
        const EpochPlan &ep = p.ep[e];
        fprintf(o, "E %u %s %s %u %u %u %u\n", e, endNames[ep.end], trigNames[ep.trig], ep.trigN, ep.trigDelta, ep.tornPermille, ep.nthreads);
        for (u32 t = 0; t < ep.nthreads; t++)
            for (u32 k = 0; k < ep.th[t].count; k++) {
                const Op &op = p.ops[ep.th[t].start + k];
                fprintf(o, "O %u %u %s %u %u\n", e, t, opNames[op.kind], op.a, op.b);
            }
    }
    for (u32 i = 0; i < p.nfaults; i++)
        fprintf(o, "F %u %s %u %ld\n", p.faults[i].epoch, faultNames[p.faults[i].kind], p.faults[i].n, (long)p.faults[i].v);
    for (u32 i = 0; i < ns; i++) fprintf(o, "%c %u %u %u %d\n", s[i].kind, s[i].epoch, s[i].tid, s[i].n, s[i].target);
}

// In place: a sort that allocates would leave the children with a different heap
// from the one they have when searching.
static void sortSched() {
    std::sort(shm->sched, shm->sched + shm->nsched, [](const SEnt &x, const SEnt &y) {
        if (x.kind != y.kind) return x.kind < y.kind;
        if (x.epoch != y.epoch) return x.epoch < y.epoch;
        if (x.tid != y.tid) return x.tid < y.tid;
        return x.n < y.n;
    });
}

static bool readPlan(const char *path) {
    FILE *f = fopen(path, "r");
    if (!f) { fprintf(stderr, "cannot read %s\n", path); return false; }
    Plan &p = shm->plan;
    memset(&p, 0, sizeof p);
    p.gap = 100; p.hotW = 1;
    shm->nsched = 0;
    static char line[4096];
    int le = -1, lt = -1;
    while (fgets(line, sizeof line, f)) {
        char a[64], b[64]; unsigned u[8]; long v; int tg;
        if (line[0] == 'H' && sscanf(line, "H %63s %63s", a, b) == 2) {
            u64 x = strtoull(b, nullptr, 10);
            if (!strcmp(a, "variant")) snprintf(p.variant, sizeof p.variant, "%.15s", b);
            else if (!strcmp(a, "family")) snprintf(p.family, sizeof p.family, "%.15s", b);
            else if (!strcmp(a, "seed")) p.seed = x;
            else if (!strcmp(a, "epochs")) p.nepochs = (u32)x;
            else if (!strcmp(a, "tick")) p.tick = (u32)x;
            else if (!strcmp(a, "tscrate")) p.tscRate = x;
            else if (!strcmp(a, "aiolat")) p.aioLatency = (u32)x;
            else if (!strcmp(a, "aiosplit")) p.aioSplit = (u32)x;
            else if (!strcmp(a, "maxstr")) p.maxStr = (u32)x;
            else if (!strcmp(a, "wallfrac")) p.wallFrac = (u32)x;
            else if (!strcmp(a, "decode")) p.decode = (u32)x;
        } else if (line[0] == 'E' && sscanf(line, "E %u %63s %63s %u %u %u %u", &u[0], a, b, &u[1], &u[2], &u[3], &u[4]) == 7) {
            EpochPlan &e = p.ep[u[0]];
            for (int k = 0; k < 3; k++) if (!strcmp(a, endNames[k])) e.end = (u8)k;
            for (int k = 0; k < TRIG_LAST; k++) if (!strcmp(b, trigNames[k])) e.trig = (u8)k;
            e.trigN = u[1]; e.trigDelta = u[2]; e.tornPermille = u[3]; e.nthreads = u[4];
        } else if (line[0] == 'O' && sscanf(line, "O %u %u %63s %u %u", &u[0], &u[1], a, &u[2], &u[3]) == 5) {
            ThreadPlan &t = p.ep[u[0]].th[u[1]];
            if ((int)u[0] != le || (int)u[1] != lt) { t.start = p.nops; le = (int)u[0]; lt = (int)u[1]; }
            Op &op = p.ops[p.nops++];
            for (int k = 0; k < OP_LAST; k++) if (!strcmp(a, opNames[k])) op.kind = (u8)k;
            op.a = (u16)u[2]; op.b = u[3];
            t.count++;
        } else if (line[0] == 'F' && sscanf(line, "F %u %63s %u %ld", &u[0], a, &u[1], &v) == 4) {
            Fault &fl = p.faults[p.nfaults++];
            fl = Fault{};
            fl.epoch = (u8)u[0]; fl.n = u[1]; fl.v = v;
            for (int k = 0; k < FK_LAST; k++) if (!strcmp(a, faultNames[k])) fl.kind = (u8)k;
        } else if ((line[0] == 'S' || line[0] == 'B' || line[0] == 'W') && sscanf(line + 1, "%u %u %u %d", &u[0], &u[1], &u[2], &tg) == 4) {
            if (shm->nsched < MAXSCHED) shm->sched[shm->nsched++] = SEnt{(u8)u[0], (u8)line[0], (u16)u[1], u[2], tg};
        }
    }
    fclose(f);
    sortSched();
    return p.nepochs > 0 && p.tick > 0;
}

// ---------------------------------------------------------------- running
static void resetRun() {
    for (u32 i = 0; i < (u32)MAXFILES; i++) {
        SimFile &f = shm->files[i];
        f.size = 0; f.exists = 0; f.readable = f.writable = 1; f.nwrites = 0; f.dirtyFrom = 0; f.name[0] = 0;
    }
    static const char *names[] = {"compressedLog", "logA", "logB", "logC", "logD"};
    shm->nfiles = 5;
    for (int i = 0; i < 5; i++) snprintf(shm->files[i].name, sizeof shm->files[i].name, "%s", names[i]);
    snprintf(shm->files[5].name, sizeof shm->files[5].name, "readonly");
    shm->files[5].exists = 1; shm->files[5].writable = 0; shm->nfiles = 6;
    shm->nrec = 0; shm->epoch = 0; shm->gseq = 0; shm->vnow = 1000; shm->wallOff = 0;
    shm->curFile = 0;
    shm->verdict.n = 0;
    memset(&shm->cov, 0, sizeof shm->cov);
    memset(shm->epochClean, 0, sizeof shm->epochClean);
    memset(shm->epochTorn, 0, sizeof shm->epochTorn);
    memset(shm->epochLostAio, 0, sizeof shm->epochLostAio);
    memset(shm->epochIoErr, 0, sizeof shm->epochIoErr);
    memset(shm->stderrLen, 0, sizeof shm->stderrLen);
    shm->ntt = shm->nmsg = shm->nev = shm->narg = shm->ntext = 0;
    shm->schedRng.seed(shm->plan.seed ^ 0x5ced5ced5cedull);
    Rng r; r.seed(shm->plan.seed ^ 0x75cull);
    shm->tscBase = 1000000000000ull + (r.next() % 1000000007ull) * 1000;
    for (u32 i = 0; i < shm->plan.nfaults; i++) shm->plan.faults[i].fired = 0;
}

static void grabStderr(u32 slot) {
    off_t n = lseek(errFd, 0, SEEK_END);
    size_t keep = sizeof shm->stderrText[0] - 1;
    ssize_t g = pread(errFd, shm->stderrText[slot], (size_t)n < keep ? (size_t)n : keep, 0);
    if (g < 0) g = 0;
    shm->stderrText[slot][g] = 0;
    shm->stderrLen[slot] = (u32)n;
    if (ftruncate(errFd, 0)) {}
    lseek(errFd, 0, SEEK_SET);
}

enum { CHILD = 1, PARENT = 0 };

// returns CHILD in the forked child (which must return from the constructor)
static int spawn(u32 mode, int *status) {
    shm->mode = mode;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(errFd, 2);
        if (!shm->verbose) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); close(dn); }
        simChildInit(gargc, gargv);
        return CHILD;
    }
    if (pid < 0) { perror("fork"); _exit(3); }
    while (waitpid(pid, status, 0) < 0 && errno == EINTR) {}
    return PARENT;
}

static void abnormal(const char *who, int st, u32 slot) {
    char tail[600];
    snprintf(tail, sizeof tail, "%s", shm->stderrText[slot]);
    if (WIFSIGNALED(st)) simFail("crash", "%s died on signal %d (%s) in epoch %u; stderr: %s", who, WTERMSIG(st), strsignal(WTERMSIG(st)), shm->epoch, tail);
    else simFail("crash", "%s exited with status %d in epoch %u; stderr: %s", who, WEXITSTATUS(st), shm->epoch, tail);
}

// returns CHILD in children
static int runPlan() {
    resetRun();
    int st;
    Plan &p = shm->plan;
    for (u32 e = 0; e < p.nepochs; e++) {
        shm->epoch = e;
        for (u32 i = 0; i < shm->nfiles; i++) shm->files[i].bytesAtEpoch[e] = shm->files[i].size;
        if (e) {
            // about every second restart is a reboot: the cycle counter starts over
            Rng r; r.seed(p.seed ^ 0xb007ull ^ e * 7919ull);
            if (r.below(2)) {
                u64 at = 200000000000ull + r.next() % (r.below(2) ? 5000000ull : 4000000000000000ull);   // room for skewed counters below
                shm->tscBase = at - (u64)((unsigned __int128)shm->vnow * p.tscRate / 1000000000u);
            }
        }
        if (spawn(1, &st) == CHILD) return CHILD;
        shm->cov.epochs++;
        grabStderr(e);
        for (u32 i = 0; i < shm->nfiles; i++) shm->files[i].dirtyFrom = shm->files[i].size;
        bool crashed = WIFEXITED(st) && WEXITSTATUS(st) == 77;
        bool verdict = WIFEXITED(st) && WEXITSTATUS(st) == 78;
        bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->epochClean[e];
        if (!crashed && !verdict && !clean) abnormal("program", st, e);
        if (shm->verdict.n) return PARENT;
        // A crash that was planned but never triggered is simply a clean exit.
        shm->vnow += 2000000000ull;      // restart takes a while
    }
    shm->epoch = p.nepochs;
    if (spawn(2, &st) == CHILD) return CHILD;
    grabStderr(MAXEP);
    bool okd = WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 78);
    if (!okd) abnormal("decoder", st, MAXEP);
    shm->cov.vtime = shm->vnow;
    u64 h = 1469598103934665603ull;
    for (u32 i = 0; i < shm->nfiles; i++) { hashBytes(h, &shm->files[i].size, 4); }
    hashBytes(h, &shm->cov.textHash, 8);     // not the bytes themselves: long doubles have padding
    for (u32 i = 0; i < shm->nmsg; i++) { Msg &m = shm->msg[i]; hashBytes(h, &m.begin, 8); hashBytes(h, &m.end, 8); hashBytes(h, &m.tscLo, 8); hashBytes(h, &m.uid, 4); }
    for (u32 i = 0; i < shm->verdict.n; i++) hashBytes(h, shm->verdict.v[i].oracle, strlen(shm->verdict.v[i].oracle));
    shm->cov.histHash = h;
    return PARENT;
}

static bool relevant(const char *oracles, const char *o) {
    if (!strcmp(oracles, "all")) return true;
    if (!strcmp(o, "harness")) return true;
    size_t n = strlen(o);
    for (const char *q = oracles; (q = strstr(q, o)); q += n)
        if ((q == oracles || q[-1] == ',') && (q[n] == 0 || q[n] == ',')) return true;
    return false;
}

static void verdictJson(FILE *o) {
    fprintf(o, "\"verdicts\":[");
    for (u32 i = 0; i < shm->verdict.n; i++) {
        VEnt &v = shm->verdict.v[i];
        fprintf(o, "%s{\"oracle\":\"%s\",\"epoch\":%u,\"text\":", i ? "," : "", v.oracle, v.epoch);
        jsonStr(o, v.text, sizeof v.text);
        fprintf(o, "}");
    }
    fprintf(o, "]");
}

// Plans are generated in a child of their own, so that the heap of the process
// that forks the simulated executions is the same whatever was generated before.
static void genPlan(const char *fam, const char *variant, u64 seed) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) { simGen(shm->plan, fam, variant, seed); _exit(0); }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "plan generation failed\n"); _exit(3); }
}

static Coverage total;
static u64 hset[1 << 20];
static u32 hcount, hmsgs;
static bool addHash(u64 h) {
    if (!h) h = 1;
    u32 i = (u32)(h >> 20) & ((1 << 20) - 1);
    for (u32 k = 0; k < 64; k++, i = (i + 1) & ((1 << 20) - 1)) {
        if (hset[i] == h) return false;
        if (!hset[i]) { hset[i] = h; hcount++; return true; }
    }
    return false;
}

static int doSearch() {
    const char *families = arg("--families", "conc"), *variant = arg("--variant", "small");
    const char *oracles = arg("--oracles", "all");
    u64 base = strtoull(arg("--base", "1"), nullptr, 10);
    u64 stride = strtoull(arg("--stride", "1"), nullptr, 10), off = strtoull(arg("--offset", "0"), nullptr, 10);
    double secs = atof(arg("--secs", "5"));
    u64 maxRuns = strtoull(arg("--runs", "1000000000"), nullptr, 10);
    u32 twice = (u32)atoi(arg("--twice", "50"));
    u32 dumpHash = flag("--hashes");
    const char *out = arg("--replay-out", "");
    static char fam[16][16];
    int nf = 0;
    for (const char *q = families; *q && nf < 16;) {
        size_t n = strcspn(q, ",");
        snprintf(fam[nf++], 16, "%.*s", (int)(n < 15 ? n : 15), q);
        q += n; if (*q) q++;
    }
    double t0 = now();
    u64 runs = 0, i = off, twiceRuns = 0, otherBad = 0;
    static char otherText[600];
    u64 famRuns[16] = {0};
    while (runs < maxRuns && now() - t0 < secs) {
        u64 seed = base * 1000003ull + i;
        int fi = (int)((i / stride) % (u64)nf);
        genPlan(fam[fi], variant, seed);
        shm->replay = 0;
        if (runPlan() == CHILD) return CHILD;
        runs++; famRuns[fi]++;
        i += stride;
        Coverage c = shm->cov;
        total.steps += c.steps; total.switches += c.switches; total.blocks += c.blocks; total.aioWrites += c.aioWrites;
        total.aioBytes += c.aioBytes; total.condWaits += c.condWaits; total.timedWaits += c.timedWaits; total.msgs += c.msgs;
        total.syncs += c.syncs; total.crashes += c.crashes; total.epochs += c.epochs; total.tscReads += c.tscReads;
        total.deletedThreads += c.deletedThreads; total.tornCrashes += c.tornCrashes; total.decodes += c.decodes;
        total.decodedMsgs += c.decodedMsgs; total.overlapMsgs += c.overlapMsgs; total.vtime += c.vtime; total.backpressure += c.backpressure; total.memChecks += c.memChecks;
        for (int k = 0; k < FK_LAST; k++) total.faultsFired[k] += c.faultsFired[k];
        bool fresh = addHash(c.schedHash ^ (c.histHash * 3));
        if (fresh && (c.decodedMsgs || shm->ntt)) hmsgs++;
        if (dumpHash) printf("%lu %016lx %016lx\n", (unsigned long)seed, (unsigned long)c.schedHash, (unsigned long)c.histHash);
        bool bad = false;
        for (u32 k = 0; k < shm->verdict.n; k++) {
            if (relevant(oracles, shm->verdict.v[k].oracle)) bad = true;
            else { if (!otherBad) snprintf(otherText, sizeof otherText, "%.20s: %.500s", shm->verdict.v[k].oracle, shm->verdict.v[k].text); otherBad++; }
        }
        if (!bad && twice && runs % twice == 0) {
            // alternately from the seed and from the recorded decisions
            bool rep = twiceRuns % 2 == (flag("--rep") ? 0 : 1) && shm->nrec < MAXSCHED;
            if (rep) {
                memcpy(shm->sched, shm->rec, shm->nrec * sizeof(SEnt));
                shm->nsched = shm->nrec;
                sortSched();
            }
            genPlan(fam[fi], variant, seed);
            shm->replay = rep;
            if (runPlan() == CHILD) return CHILD;
            twiceRuns++;
            if (shm->cov.schedHash != c.schedHash || shm->cov.histHash != c.histHash) {
                printf("{\"type\":\"nondet\",\"seed\":%lu,\"family\":\"%s\",\"variant\":\"%s\",\"detail\":\"%s %016lx/%016lx vs %016lx/%016lx\"}\n", (unsigned long)seed, fam[fi], variant, rep ? "replay" : "rerun",
                       (unsigned long)c.schedHash, (unsigned long)c.histHash, (unsigned long)shm->cov.schedHash, (unsigned long)shm->cov.histHash);
                fflush(stdout);
            }
        }
        if (bad) {
            FILE *f = *out ? fopen(out, "w") : nullptr;
            if (f) { writePlan(f, shm->plan, shm->rec, shm->nrec); fclose(f); }
            printf("{\"type\":\"violation\",\"seed\":%lu,\"family\":\"%s\",\"variant\":\"%s\",\"replay\":", (unsigned long)seed, fam[fi], variant);
            jsonStr(stdout, out, 4096);
            printf(",\"sched\":%u,\"truncated\":%d,", shm->nrec, shm->nrec >= MAXSCHED);
            verdictJson(stdout);
            printf("}\n");
            fflush(stdout);
            if (!flag("--keep-going")) break;
        }
    }
    printf("{\"type\":\"summary\",\"variant\":\"%s\",\"runs\":%lu,\"secs\":%.3f,\"distinct\":%u,\"distinct_nontrivial\":%u,\"twice\":%lu,"
           "\"steps\":%lu,\"switches\":%lu,\"blocks\":%lu,\"aio_writes\":%lu,\"aio_bytes\":%lu,\"cond_waits\":%lu,\"messages\":%lu,\"syncs\":%lu,"
           "\"crashes\":%lu,\"torn_crashes\":%lu,\"epochs\":%lu,\"threads_exited\":%lu,\"decodes\":%lu,\"decoded_messages\":%lu,\"fair_mode\":%lu,\"reclaim_checks\":%lu,\"virtual_ns\":%lu,\"other_bad\":%lu,\"other_text\":",
           variant, (unsigned long)runs, now() - t0, hcount, hmsgs, (unsigned long)twiceRuns, (unsigned long)total.steps,
           (unsigned long)total.switches, (unsigned long)total.blocks, (unsigned long)total.aioWrites, (unsigned long)total.aioBytes,
           (unsigned long)total.condWaits, (unsigned long)total.msgs, (unsigned long)total.syncs, (unsigned long)total.crashes,
           (unsigned long)total.tornCrashes, (unsigned long)total.epochs, (unsigned long)total.deletedThreads, (unsigned long)total.decodes,
           (unsigned long)total.decodedMsgs, (unsigned long)total.overlapMsgs, (unsigned long)total.memChecks, (unsigned long)total.vtime, (unsigned long)otherBad);
    jsonStr(stdout, otherText, sizeof otherText);
    printf(",\"families\":{");
    for (int k = 0; k < nf; k++) printf("%s\"%s\":%lu", k ? "," : "", fam[k], (unsigned long)famRuns[k]);
    printf("},\"faults\":{");
    bool first = true;
    for (int k = 1; k < FK_LAST; k++) if (total.faultsFired[k]) { printf("%s\"%s\":%lu", first ? "" : ",", faultNames[k], (unsigned long)total.faultsFired[k]); first = false; }
    printf("}}\n");
    fflush(stdout);
    return PARENT;
}

static int replayOne(const char *file, bool dump) {
    if (!readPlan(file)) { printf("{\"type\":\"error\",\"text\":\"bad replay file\"}\n"); return PARENT; }
    shm->replay = 1;
    if (runPlan() == CHILD) return CHILD;
    printf("{\"type\":\"replay\",\"schedHash\":\"%016lx\",\"histHash\":\"%016lx\",\"steps\":%lu,\"decoded\":%lu,\"msgs\":%u,", (unsigned long)shm->cov.schedHash,
           (unsigned long)shm->cov.histHash, (unsigned long)shm->cov.steps, (unsigned long)shm->cov.decodedMsgs, shm->nmsg);
    verdictJson(stdout);
    printf("}\n");
    if (dump) {
        for (u32 i = 0; i < shm->nmsg; i++) {
            Msg &m = shm->msg[i];
            printf("# msg e%u t%u seq%u site%u lvl%u uid%u state%u [%lu,%lu] tsc[%lu,%lu] %.*s\n", m.epoch, m.tid, m.seq, m.site, m.level, m.uid, m.state,
                   (unsigned long)m.begin, (unsigned long)m.end, (unsigned long)m.tscLo, (unsigned long)m.tscHi, (int)(m.textLen > 120 ? 120 : m.textLen), shm->text + m.textOff);
        }
        for (u32 i = 0; i < shm->nev; i++) {
            Event &v = shm->ev[i];
            printf("# event kind%u e%u t%u done%u ok%u [%lu,%lu] a=%lu b=%lu\n", v.kind, v.epoch, v.tid, v.done, v.ok, (unsigned long)v.begin, (unsigned long)v.end, (unsigned long)v.a, (unsigned long)v.b);
        }
        for (u32 i = 0; i < shm->nfiles; i++) if (shm->files[i].exists) printf("# file %s %u bytes\n", shm->files[i].name, shm->files[i].size);
        for (u32 e = 0; e <= (u32)MAXEP; e++) if (shm->stderrLen[e]) printf("# stderr[%u]: %s\n", e, shm->stderrText[e]);
        printf("# crash info: clean %u %u torn %u %u\n", shm->epochClean[0], shm->epochClean[1], shm->epochTorn[0], shm->epochTorn[1]);
    }
    fflush(stdout);
    return PARENT;
}

// replay server: reads replay file names on stdin, answers one JSON line each
static int doServe() {
    static char line[4096];
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\r\n")] = 0;
        if (replayOne(line, false) == CHILD) return CHILD;
    }
    return PARENT;
}

static int drive() {
    const char *cmd = gargc > 1 ? gargv[1] : "";
    if (!strcmp(cmd, "search")) return doSearch();
    if (!strcmp(cmd, "replay")) return replayOne(gargv[2], flag("--dump"));
    if (!strcmp(cmd, "serve")) return doServe();
    if (!strcmp(cmd, "plan")) {
        simGen(shm->plan, arg("--family", "conc"), arg("--variant", "small"), strtoull(arg("--seed", "1"), nullptr, 10));
        writePlan(stdout, shm->plan, nullptr, 0);
        fflush(stdout);
        return PARENT;
    }
    fprintf(stderr, "usage: %s search|replay|serve|plan ...\n", gargv[0]);
    _exit(2);
}

__attribute__((constructor(101))) static void simStart(int argc, char **argv, char **) {
    gargc = argc; gargv = argv;
    mallopt(M_MMAP_THRESHOLD, 1 << 20);        // no dynamic threshold
    int pers = personality(0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
        if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) {
            setenv("SIM_NO_REEXEC", "1", 1);
            setenv("TZ", "UTC", 1);
            setenv("LC_ALL", "C", 1);
            setenv("MALLOC_ARENA_MAX", "4", 1);
            execv("/proc/self/exe", argv);
        }
    }
    simResolve();
    const char *core = getenv("SIM_CORE");
    if (core) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(atoi(core), &s); sched_setaffinity(0, sizeof s, &s); }
    shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shm == MAP_FAILED) { perror("mmap"); _exit(3); }
    shm->verbose = flag("--verbose");
    static char obuf[1 << 16];
    setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
    errFd = (int)syscall(SYS_memfd_create, "simerr", 0);
    if (errFd < 0) { perror("memfd"); _exit(3); }
    if (drive() == PARENT) _exit(0);
    // CHILD: fall through into the program's static constructors and main()
}

int main() {
    if (shm->mode == 1) simEpochMain();
    else { simDecodeMain(); _exit(shm->verdict.n ? 78 : 0); }
    return 0;
}
