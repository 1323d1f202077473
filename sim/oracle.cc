// Decodes the files left on the simulated disk with the real decoder and checks
// the result against the recorded history.  Compiled without instrumentation.
#include "sim.h"
#include <algorithm>
#include <map>
#include <set>
#include <stdlib.h>
#include <string>
#include <string.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>

typedef std::string S;
namespace {
const char *levelName[] = {"(none)", "ERROR", "WARNING", "NOTICE", "DEBUG"};

struct Rec {
    int section = 0, line = 0, level = -1;
    i64 t = 0;               // printed time, ns
    u32 buf = 0;
    u64 tsc = 0;
    S file, text;
    int msg = -1;
    u32 pos = 0;             // how far the file had been read when it was delivered
};
struct Out {                 // what one decoding of one file produced
    bool opened = false, complete = true;
    int sections = 0;
    i64 ret = -2;
    long trailer = -1;
    std::vector<Rec> recs;
    S bad;                   // unparsable output
};

std::map<u32, int> byUid;
std::map<u32, std::vector<int>> staticBySite;     // line -> messages in logging order
bool gSkew, gJump;
enum { L_MUST, L_MUSTNOT, L_EITHER };
std::vector<u8> lvl;
std::vector<std::vector<Event *>> setfiles;        // per epoch

S show(const Msg &m) {
    char b[400];
    int n = (int)(m.textLen > 100 ? 100 : m.textLen);
    snprintf(b, sizeof b, "message #%u of thread %u, execution %u (line %u, %s) \"%.*s\"%s", m.seq, m.tid, m.epoch, m.line,
             levelName[m.level % 5], n, shm->text + m.textOff, m.textLen > 100 ? "..." : "");
    return b;
}
S clip(const S &s) { return s.size() > 160 ? s.substr(0, 160) + "..." : s; }

bool parseTime(const char *p, i64 *ns, const char **end) {
    int Y, M, D, h, m, s, n = 0;
    if (sscanf(p, "%4d-%2d-%2d %2d:%2d:%2d.%n", &Y, &M, &D, &h, &m, &s, &n) != 6 || n == 0) return false;
    p += n;
    i64 f = 0; int d = 0;
    while (*p >= '0' && *p <= '9' && d < 12) { f = f * 10 + (*p++ - '0'); d++; }
    if (d == 0 || *p != ' ') return false;
    struct tm tm; memset(&tm, 0, sizeof tm);
    tm.tm_year = Y - 1900; tm.tm_mon = M - 1; tm.tm_mday = D; tm.tm_hour = h; tm.tm_min = m; tm.tm_sec = s;
    if (d != 9) { *ns = -1; } else *ns = (i64)timegm(&tm) * 1000000000ll + f;
    *end = p + 1;
    return true;
}

bool parseRec(const S &l, Rec &r) {
    const char *p;
    if (!parseTime(l.c_str(), &r.t, &p)) return false;
    const char *c = strchr(p, ':');
    if (!c) return false;
    r.file = S(p, (size_t)(c - p));
    int n = 0; unsigned line, buf; char lev[16];
    if (sscanf(c + 1, "%u %10[A-Z()a-z][%u]:%n", &line, lev, &buf, &n) != 3 || n == 0 || c[1 + n] != ' ') return false;
    r.line = (int)line;
    r.buf = buf;
    for (int i = 0; i < 5; i++) if (!strcmp(lev, levelName[i])) r.level = i;
    r.text = S(c + 1 + n + 1, (size_t)(l.c_str() + l.size() - (c + 1 + n + 1)));
    return true;
}

// Parses a piece of decoder output; section is carried along.
void parseOut(const char *b, size_t n, Out &o, int &section) {
    u64 th = shm->cov.textHash ^ n;
    for (size_t i = 0; i < n; i++) th = (th ^ (u8)b[i]) * 1099511628211ull;
    shm->cov.textHash = th;
    size_t i = 0;
    while (i < n) {
        const char *e = (const char *)memmem(b + i, n - i, "\r\n", 2);
        size_t len = e ? (size_t)(e - (b + i)) : n - i;
        S l(b + i, len);
        i += len + (e ? 2 : 0);
        if (l.empty()) continue;
        if (l == "# New execution started") { section++; o.sections++; continue; }
        long c;
        if (sscanf(l.c_str(), "# Decompression Complete after printing %ld log messages", &c) == 1) { o.trailer = c; continue; }
        Rec r;
        r.section = section;
        if (!e || !parseRec(l, r)) { if (o.bad.empty()) o.bad = l; continue; }
        o.recs.push_back(std::move(r));
    }
}

i64 tagOf(const S &t) {
    size_t a = t.find('<');
    while (a != S::npos) {
        size_t k = a + 1; i64 v = 0;
        while (k < t.size() && t[k] >= '0' && t[k] <= '9' && k - a < 12) v = v * 10 + (t[k++] - '0');
        if (k > a + 1 && k < t.size() && t[k] == '>') return v;
        a = t.find('<', a + 1);
    }
    return -1;
}

// ---- decoding modes
Out finish(Out &&o, char *b, size_t n) { int s = 0; o.sections = 1; parseOut(b, n, o, s); free(b); return std::move(o); }

Out runText(void *d, const char *file, bool sorted) {
    Out o;
    o.opened = decOpen(d, file);
    if (!o.opened) return o;
    char *b = nullptr; size_t n = 0;
    FILE *f = open_memstream(&b, &n);
    o.ret = sorted ? decSorted(d, f) : decUnordered(d, f);
    fclose(f);
    shm->cov.decodes++;
    return finish(std::move(o), b, n);
}

void checkArgs(void *d, const DecMsg &dm, const Msg &m) {
    if (dm.nargs != m.nargs) { simFail("args", "LogMessage has %d arguments, %u were logged: %s", dm.nargs, m.nargs, show(m).c_str()); return; }
    for (u32 i = 0; i < m.nargs; i++) {
        const Arg &a = shm->arg[m.argOff + i];
        if (a.type == '-') continue;
        u64 raw = 0; double dv = 0; const char *s = nullptr;
        if (!decArg(d, (int)i, a.type, &raw, &dv, &s)) { simFail("args", "argument %u cannot be read: %s", i, show(m).c_str()); return; }
        if (a.type == 'f') memcpy(&raw, &dv, 8);
        if (a.type == 's') {
            size_t n = s ? strnlen(s, a.len + 1) : (size_t)-1;
            if (n != a.len || memcmp(s, shm->text + a.off, a.len)) { simFail("args", "string argument %u of the LogMessage differs from what was logged: %s", i, show(m).c_str()); return; }
        } else if (raw != a.raw) { simFail("args", "argument %u of the LogMessage is 0x%lx, logged 0x%lx: %s", i, (unsigned long)raw, (unsigned long)a.raw, show(m).c_str()); return; }
    }
}

// iterative interface; quiet = no text output (LogMessage only)
Out runIter(void *d, const char *file, bool quiet, u32 limit, bool reopen = true) {
    Out o;
    o.opened = reopen ? decOpen(d, file) : true;
    if (!o.opened) return o;
    char *b = nullptr; size_t n = 0;
    FILE *f = quiet ? nullptr : open_memstream(&b, &n);
    int section = 0;
    o.sections = 1;
    size_t done = 0;
    DecMsg dm;
    u32 cnt = 0;
    while (cnt < limit) {
        if (!decNext(d, f, &dm)) { o.complete = true; break; }
        o.complete = false;
        cnt++;
        if (quiet) {
            Rec r; r.tsc = dm.tsc; r.section = -1;
            o.recs.push_back(r);
        } else {
            fflush(f);
            size_t before = o.recs.size();
            parseOut(b + done, n - done, o, section);
            done = n;
            if (o.recs.size() == before + 1) {
                Rec &r = o.recs.back();
                r.tsc = dm.tsc;
                r.pos = simReadPos();
                i64 u = tagOf(r.text);
                auto it = u >= 0 ? byUid.find((u32)u) : byUid.end();
                if (it != byUid.end()) checkArgs(d, dm, shm->msg[it->second]);
            } else if (o.bad.empty()) o.bad = "(getNextLogStatement did not print exactly one message)";
        }
        if (o.recs.size() > 4 * (size_t)MAXMSG) { o.bad = "(endless stream of messages)"; break; }
    }
    if (f) fclose(f);
    free(b);
    o.ret = (i64)cnt;
    shm->cov.decodes++;
    return o;
}

// ---- history helpers
bool possiblyActive(const Event *w, u64 b, u64 e, const std::vector<Event *> &all) {
    if (w && w->begin > e) return false;
    u64 we = w ? (w->done ? w->end : ~0ull) : 0;
    for (Event *x : all) {
        if (x == w || !x->done) continue;
        if (we < x->begin && x->end < b) return false;
    }
    return true;
}
std::set<int> levelsDuring(u32 epoch, u64 b, u64 e) {
    std::vector<Event *> all;
    for (u32 i = 0; i < shm->nev; i++) if (shm->ev[i].kind == EV_SETLEVEL && shm->ev[i].epoch == epoch) all.push_back(&shm->ev[i]);
    std::set<int> r;
    if (possiblyActive(nullptr, b, e, all)) r.insert(3);      // initial level is NOTICE
    for (Event *w : all) if (possiblyActive(w, b, e, all)) r.insert((int)w->a);
    return r;
}
// files a message may be in
std::set<int> filesFor(const Msg &m) {
    std::set<int> r;
    u64 mend = m.state == MS_BEGUN ? ~0ull : m.end;
    int cur = 0;
    bool certain = true;
    (void)certain;
    r.insert(0);
    for (Event *s : setfiles[m.epoch]) {
        int f = (int)s->a;
        if (s->done && !s->ok) continue;                      // threw: keeps the old file
        if (s->done && s->end < m.begin) { r.clear(); r.insert(f); cur = f; continue; }
        if (mend < s->begin) break;
        r.insert(f);                                          // overlaps the switch
        (void)cur;
    }
    return r;
}

void match(Out &o) {
    // tagged messages first
    for (Rec &r : o.recs) {
        i64 u = tagOf(r.text);
        if (u >= 0) { auto it = byUid.find((u32)u); if (it != byUid.end() && !shm->msg[it->second].isStatic) r.msg = it->second; }
    }
    // messages without dynamic data: by call site, in logging order, within the
    // execution the section belongs to
    std::map<int, int> secEpoch;
    for (Rec &r : o.recs) if (r.msg >= 0 && !secEpoch.count(r.section)) secEpoch[r.section] = shm->msg[r.msg].epoch;
    std::set<int> used;
    for (Rec &r : o.recs) {
        if (r.msg >= 0) continue;
        auto it = staticBySite.find((u32)r.line);
        if (it == staticBySite.end()) continue;
        int lo = 0, hi = MAXEP;
        for (auto &se : secEpoch) { if (se.first <= r.section) lo = std::max(lo, se.second); if (se.first >= r.section) hi = std::min(hi, se.second); }
        int pick = -1;
        for (int mi : it->second) {
            const Msg &m = shm->msg[mi];
            if (m.epoch < lo || m.epoch > hi || used.count(mi)) continue;
            if (r.tsc && (r.tsc < m.tscLo || r.tsc > m.tscHi)) continue;
            if (pick < 0) pick = mi;
            // executions are two seconds apart
            if (lo != hi && !r.tsc && !gJump && !gSkew && (r.t < m.wallLo - 1400000000ll || (m.state != MS_BEGUN && r.t > m.wallHi + 900000000ll))) continue;
            pick = mi;
            break;
        }
        if (pick >= 0) { r.msg = pick; used.insert(pick); secEpoch[r.section] = shm->msg[pick].epoch; }
    }
}

u32 allTorn, anyIoErr;
bool intact;                    // no torn tails anywhere, no hard errors

void checkOut(const char *mode, int fi, Out &o, bool sorted) {
    const char *fn = shm->files[fi].name;
    if (!o.bad.empty()) simFail("invented", "%s of %s printed something that is not a log message: %s", mode, fn, clip(o.bad).c_str());
    match(o);
    std::map<int, int> seen;
    std::map<u64, int> lastSeq;            // epoch/tid -> msg
    std::map<u32, int> lastInSection;
    int lastEpoch = -1;
    std::map<int, int> secEpoch;
    for (size_t i = 0; i < o.recs.size(); i++) {
        Rec &r = o.recs[i];
        if (r.msg < 0) {
            simFail("invented", "%s of %s contains a message that was never logged: %s:%d \"%s\"", mode, fn, r.file.c_str(), r.line, clip(r.text).c_str());
            continue;
        }
        const Msg &m = shm->msg[r.msg];
        if (r.line != (int)m.line || r.file != simSiteFile() || r.level != m.level)
            simFail("content", "%s of %s: wrong static data %s:%d %s for %s", mode, fn, r.file.c_str(), r.line, r.level >= 0 ? levelName[r.level] : "?", show(m).c_str());
        else if (r.text.size() != m.textLen || memcmp(r.text.data(), shm->text + m.textOff, m.textLen)) {
            size_t k = 0;
            while (k < r.text.size() && k < m.textLen && r.text[k] == shm->text[m.textOff + k]) k++;
            simFail("content", "%s of %s: text differs at byte %zu (%zu vs %u bytes): got \"%s\" for %s", mode, fn, k, r.text.size(), m.textLen, clip(r.text).c_str(), show(m).c_str());
        }
        if (seen.count(r.msg)) simFail("dup", "%s of %s: decoded twice: %s", mode, fn, show(m).c_str());
        seen[r.msg] = (int)i;
        if (!filesFor(m).count(fi)) simFail("file", "%s: found in %s: %s", mode, fn, show(m).c_str());
        if (lvl[r.msg] == L_MUSTNOT) simFail("level", "%s of %s: recorded although below the log level in force: %s", mode, fn, show(m).c_str());
        u64 key = (u64)m.epoch << 32 | m.tid;
        auto it = lastSeq.find(key);
        if (it != lastSeq.end() && shm->msg[it->second].seq >= m.seq)
            simFail("order", "%s of %s: %s appears after %s", mode, fn, show(m).c_str(), show(shm->msg[it->second]).c_str());
        lastSeq[key] = r.msg;
        if (m.epoch < lastEpoch) simFail("sections", "%s of %s: execution %d after execution %d", mode, fn, m.epoch, lastEpoch);
        lastEpoch = std::max(lastEpoch, (int)m.epoch);
        auto se = secEpoch.find(r.section);
        if (se == secEpoch.end()) secEpoch[r.section] = m.epoch;
        else if (se->second != m.epoch) simFail("sections", "%s of %s: messages of executions %d and %d without a separator in between", mode, fn, se->second, m.epoch);
    }
    // real-time order
    if (sorted && !gSkew) {
        size_t n = o.recs.size();
        u64 minEnd = ~0ull; int who = -1, sec = -1;
        for (size_t i = n; i-- > 0;) {
            Rec &r = o.recs[i];
            if (r.msg < 0) continue;
            const Msg &m = shm->msg[r.msg];
            if (r.section != sec) { minEnd = ~0ull; sec = r.section; }
            if (minEnd < m.begin)
                simFail("sortorder", "sorted decode of %s: %s is printed before %s, whose call had returned before it started", fn, show(m).c_str(), show(shm->msg[who]).c_str());
            if (m.state == MS_DONE && m.end < minEnd) { minEnd = m.end; who = r.msg; }
        }
    }
    // timestamps: printed time = common base + TSC of the call
    {
        std::map<int, std::vector<int>> secs;
        for (size_t i = 0; i < o.recs.size(); i++) if (o.recs[i].msg >= 0) secs[o.recs[i].section].push_back((int)i);
        double rate = (double)shm->plan.tscRate / 1e9;
        for (auto &sv : secs) {
            bool first = true;
            double lo = 0, hi = 0; u64 ref = 0; i64 tref = 0; int loM = -1, hiM = -1;
            for (int i : sv.second) {
                Rec &r = o.recs[i];
                const Msg &m = shm->msg[r.msg];
                if (m.state == MS_BEGUN) continue;
                if (r.t < 0) { simFail("ts", "%s of %s: malformed timestamp for %s", mode, fn, show(m).c_str()); continue; }
                if (first) { ref = m.tscLo; tref = r.t; }
                double a = (double)((i64)(m.tscLo - ref)) / rate, b = (double)((i64)(m.tscHi - ref)) / rate, t = (double)(r.t - tref);
                double slack = 12 + 2e-5 * (t < 0 ? -t : t);
                double l = t - b - slack, h = t - a + slack;
                if (first || l > lo) { lo = l; loM = r.msg; }
                if (first || h < hi) { hi = h; hiM = r.msg; }
                first = false;
                if (lo > hi) {
                    simFail("ts", "%s of %s: the time printed between %s and %s is not the time that passed", mode, fn, show(shm->msg[loM]).c_str(), show(shm->msg[hiM]).c_str());
                    break;
                }
                if (!gJump && !gSkew && (r.t < m.wallLo - 1300000000ll || r.t > m.wallHi + 300000000ll))
                    simFail("ts", "%s of %s: printed time is %.6f s off the wall clock for %s", mode, fn, (double)(r.t - m.wallHi) / 1e9, show(m).c_str());
                if (r.tsc && (r.tsc < m.tscLo || r.tsc > m.tscHi))
                    simFail("ts", "%s of %s: LogMessage timestamp %lu is outside the call [%lu, %lu] of %s", mode, fn, (unsigned long)r.tsc, (unsigned long)m.tscLo, (unsigned long)m.tscHi, show(m).c_str());
            }
        }
    }
    if (intact) {
        if (o.opened && o.ret < 0) simFail("ret", "%s of the intact file %s reported an error (%ld)", mode, fn, (long)o.ret);
        else if (o.opened && o.ret != (i64)o.recs.size()) simFail("ret", "%s of %s returned %ld but produced %zu messages", mode, fn, (long)o.ret, o.recs.size());
        if (o.opened && o.trailer >= 0 && o.trailer != (long)o.recs.size()) simFail("ret", "%s of %s claims %ld messages but printed %zu", mode, fn, o.trailer, o.recs.size());
    }
}

std::vector<int> ids(const Out &o) { std::vector<int> v; for (auto &r : o.recs) v.push_back(r.msg); return v; }

S capCli(const char *cmd, const char *file, int *rc) {
    int fd = (int)memfd_create("cli", 0);
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        dup2(fd, 1);
        char *av[] = {(char *)"decompressor", (char *)cmd, (char *)file, nullptr};
        int r = decCli(3, av);
        fflush(stdout);
        _exit(r & 0x7f);
    }
    int st = 0;
    waitpid(p, &st, 0);
    *rc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    off_t n = lseek(fd, 0, SEEK_END);
    S s((size_t)n, '\0');
    if (pread(fd, &s[0], (size_t)n, 0) != n) s.clear();
    close(fd);
    return s;
}
}

namespace {
// Every prefix of a log is what some crash could have left: decode a few of
// them and compare with the decoding of the whole file.
// light: only the sizes the file had when a sync() returned, one decoding each
void checkCuts(const Out &full, const Out &iter, u64 shortSeed, bool light) {
    Plan &p = shm->plan;
    SimFile &src = shm->files[0];
    u32 slot = shm->nfiles;
    if (slot >= (u32)MAXFILES || src.size == 0) return;
    Rng r; r.seed(p.seed ^ 0xc07);
    std::vector<u32> syncSizes;
    for (u32 i = 0; i < shm->nev; i++) if (shm->ev[i].kind == EV_SYNC && shm->ev[i].done && shm->ev[i].a <= src.size) syncSizes.push_back((u32)shm->ev[i].a);
    std::vector<u32> cuts;
    if (light) {
        // look closer only where the decoder had to read beyond that size
        for (u32 i = 0; i < shm->nev && cuts.size() < 6; i++) {
            Event &v = shm->ev[i];
            if (v.kind != EV_SYNC || !v.done || v.a > src.size) continue;
            for (const Rec &q : iter.recs) {
                if (q.msg < 0 || q.pos <= v.a) continue;
                const Msg &mm = shm->msg[q.msg];
                if (mm.epoch == v.epoch && mm.state == MS_DONE && mm.end < v.begin) { cuts.push_back((u32)v.a); break; }
            }
        }
    }
    for (int c = 0; c < (light ? 0 : 6); c++) {
        u32 x = r.below(10), k;
        if (x < 4 && !syncSizes.empty()) k = syncSizes[r.below((u32)syncSizes.size())] + (r.below(2) ? 0 : r.below(50));
        else if (x < 7) k = src.size - r.below(src.size < 100 ? src.size : 100);
        else k = r.below(src.size);
        cuts.push_back(k > src.size ? src.size : k);
    }
    std::sort(cuts.begin(), cuts.end());
    SimFile &cf = shm->files[slot];
    shm->nfiles++;
    snprintf(cf.name, sizeof cf.name, "cut.log");
    cf.exists = 1; cf.readable = 1; cf.writable = 0;
    bool was = intact;
    intact = false;
    std::vector<int> fu = ids(full);
    size_t before = 0;
    for (u32 k : cuts) {
        cf.size = k;
        memcpy(cf.data(), src.data(), k);
        simDecodeReads(shortSeed, -1);
        char m[3][80];
        snprintf(m[0], 80, "unordered decode of the first %u bytes", k);
        snprintf(m[1], 80, "iterative decode of the first %u bytes", k);
        snprintf(m[2], 80, "sorted decode of the first %u bytes", k);
        void *d = decNew();
        Out u = runText(d, cf.name, false); decFree(d); checkOut(m[0], 0, u, false);
        std::vector<int> a = ids(u);
        if (!light) {
        d = decNew();
        Out it = runIter(d, cf.name, false, ~0u); decFree(d); checkOut(m[1], 0, it, false);
        d = decNew();
        Out so = runText(d, cf.name, true); decFree(d); checkOut(m[2], 0, so, true);
        std::vector<int> b = ids(it), c = ids(so);
        if (a != b) simFail("agree", "iterative decode of the first %u bytes of %s yields %zu messages, unordered decode %zu (or a different order)", k, src.name, b.size(), a.size());
        std::sort(c.begin(), c.end());
        std::vector<int> as = a;
        std::sort(as.begin(), as.end());
        if (as != c) simFail("agree", "sorted decode of the first %u bytes of %s yields %zu messages, unordered decode %zu", k, src.name, c.size(), as.size());
        }
        if (a.size() > fu.size() || !std::equal(a.begin(), a.end(), fu.begin())) simFail("invented", "decoding the first %u of the %u bytes of %s yields messages that are not the beginning of what the whole file yields", k, src.size, src.name);
        if (a.size() < before) simFail("gap", "decoding the first %u bytes of %s yields %zu messages, decoding fewer bytes yielded %zu", k, src.name, a.size(), before);
        before = std::max(before, a.size());
        std::set<int> have(a.begin(), a.end());
        for (u32 i = 0; i < shm->nev; i++) {
            Event &v = shm->ev[i];
            if (v.kind != EV_SYNC || !v.done || v.a > k) continue;
            for (u32 q = 0; q < shm->nmsg; q++) {
                const Msg &mm = shm->msg[q];
                if (mm.epoch != v.epoch || mm.state != MS_DONE || lvl[q] != L_MUST || mm.end >= v.begin || have.count((int)q)) continue;
                simFail("durable", "not decoded from the first %u bytes of %s, although sync() was called after it and returned when the file had %lu bytes: %s", k, src.name, (unsigned long)v.a, show(mm).c_str());
                break;
            }
        }
    }
    intact = was;
    cf.exists = 0; cf.size = 0;
    shm->nfiles--;
}

// ---------------------------------------------------------------- time traces
// A trace shows, per thread, the most recent records (a buffer retains the last
// 8191), back to the time from which every thread's records are complete.
const u32 TTKEEP = 8191;
void checkTrace(const Event &d, const std::vector<const Event *> &dumps, u64 resetAt) {
    S t(shm->text + d.textOff, d.textLen);
    const char *what = d.a ? "print()" : "getTrace()";
    if (d.a == 2) return;                         // to a file that cannot be opened
    std::map<int, std::vector<u32>> th;           // per thread, in order
    for (u32 i = 0; i < shm->ntt; i++) {
        const TTRec &r = shm->tt[i];
        if (r.epoch == d.epoch && r.begin > resetAt && r.begin < d.end) th[r.tid].push_back(i);
    }
    auto must = [&](u32 i) {
        const TTRec &r = shm->tt[i];
        if (!r.done || r.end > d.begin) return false;
        // records are discarded while a trace is being taken
        for (const Event *o : dumps) if (o->epoch == d.epoch && r.begin < (o->done ? o->end : ~0ull) && o->begin < r.end) return false;
        return true;
    };
    std::vector<u8> mustV(shm->ntt, 0), seen(shm->ntt, 0);
    for (auto &x : th) for (u32 i : x.second) mustV[i] = must(i);
    u64 startHi = 0, startLo = 0;                 // bounds of the start time
    for (auto &x : th) {
        auto &v = x.second;
        size_t n = v.size(), from = n > TTKEEP ? n - TTKEEP : 0, k = from;
        while (k < n && !mustV[v[k]]) k++;
        startHi = std::max(startHi, shm->tt[v[k < n ? k : n - 1]].tsHi);
        size_t m = 0;
        bool any = false;
        for (u32 i : v) { m += mustV[i]; any |= mustV[i]; }
        k = 0;
        if (any) {
            while (k < n) { size_t after = m - mustV[v[k]]; if (after < TTKEEP) break; m = after; k++; }
            startLo = std::max(startLo, shm->tt[v[k]].tsLo);
        }
    }
    std::map<int, size_t> last;                   // per thread: index after the last record shown
    double prev = 0, rate = apiCps() / 1e9;
    bool first = true, empty = false;
    double c0 = 0, lo = 0, hi = 0;
    size_t pos = 0;
    while (pos < t.size()) {
        size_t e = t.find('\n', pos);
        if (e == S::npos) e = t.size();
        S l = t.substr(pos, e - pos);
        pos = e + 1;
        if (l == "No time trace events to print") { empty = true; continue; }
        double ns, dl;
        int n = 0;
        if (sscanf(l.c_str(), "%lf ns (+%lf ns): %n", &ns, &dl, &n) != 2 || n == 0) { simFail("trace", "%s: malformed line \"%s\"", what, clip(l).c_str()); return; }
        S txt = l.substr((size_t)n);
        size_t dg = txt.find_first_of("0123456789");
        u32 uid = dg == S::npos ? ~0u : (u32)strtoul(txt.c_str() + dg, nullptr, 10);
        if (uid >= shm->ntt || shm->tt[uid].epoch != d.epoch || shm->tt[uid].begin > d.end) { simFail("trace", "%s shows an event that was never recorded: \"%s\"", what, clip(l).c_str()); return; }
        const TTRec &r = shm->tt[uid];
        char want[300];
        snprintf(want, sizeof want, ttFormats[r.fmt], uid, r.a[0], r.a[1], r.a[2]);
        if (txt != want) { simFail("trace", "%s shows \"%s\" for the event \"%s\"", what, clip(txt).c_str(), want); return; }
        if (r.begin < resetAt) { simFail("trace", "%s shows an event from before reset(): \"%s\"", what, want); return; }
        if (seen[uid]) { simFail("trace", "%s shows an event twice: \"%s\"", what, want); return; }
        seen[uid] = 1;
        auto &v = th[r.tid];
        size_t ix = (size_t)(std::lower_bound(v.begin(), v.end(), uid) - v.begin());
        if (last.count(r.tid)) {
            if (ix < last[r.tid]) { simFail("trace", "%s shows the events of thread %u out of order at \"%s\"", what, r.tid, want); return; }
            for (size_t q = last[r.tid]; q < ix; q++) if (mustV[v[q]]) { simFail("trace", "%s leaves out event %u of thread %u, but shows earlier and later ones", what, v[q], r.tid); return; }
        }
        last[r.tid] = ix + 1;
        if (r.tsHi < startLo) { simFail("trace", "%s shows the event \"%s\" from before the time that all threads' records cover", what, want); return; }
        if (dl - (ns - prev) > 0.11 || (ns - prev) - dl > 0.11) { simFail("trace", "%s: the interval printed with \"%s\" is wrong", what, want); return; }
        if (!first && ns < prev - 0.01) { simFail("trace", "%s is not in the order of time at \"%s\"", what, want); return; }
        if (first) c0 = (double)r.tsLo;
        double slack = 0.11 + 1e-9 * ns, a = ((double)r.tsLo - c0) / rate - ns, b = ((double)r.tsHi - c0) / rate - ns;
        lo = first ? a - slack : std::max(lo, a - slack);
        hi = first ? b + slack : std::min(hi, b + slack);
        if (lo > hi) { simFail("trace", "%s: the time printed for \"%s\" is wrong", what, want); return; }
        prev = ns;
        first = false;
    }
    if (empty && !first) simFail("trace", "%s shows events and says that there are none", what);
    if (!empty && first) simFail("trace", "%s shows nothing", what);
    for (auto &x : th) {
        auto &v = x.second;
        size_t n = v.size();
        for (size_t q = n > TTKEEP ? n - TTKEEP : 0; q < n; q++)
            if (mustV[v[q]] && !seen[v[q]] && shm->tt[v[q]].tsLo >= startHi) { simFail("trace", "%s does not show event %u of thread %u (%zu. of %zu)", what, v[q], x.first, q + 1, n); return; }
    }
}

void checkTraces() {
    std::vector<const Event *> dumps;
    for (u32 i = 0; i < shm->nev; i++) if (shm->ev[i].kind == EV_TTDUMP) dumps.push_back(&shm->ev[i]);
    for (const Event *d : dumps) {
        if (!d->done) continue;
        u64 rs = 0;
        for (u32 i = 0; i < shm->nev; i++) if (shm->ev[i].kind == EV_TTRESET && shm->ev[i].epoch == d->epoch && shm->ev[i].end < d->begin) rs = shm->ev[i].begin;
        checkTrace(*d, dumps, rs);
    }
}
}

void simDecodeMain() {
    checkTraces();
    Plan &p = shm->plan;
    for (u32 i = 0; i < p.nfaults; i++) {
        if (p.faults[i].kind == FK_SKEW) gSkew = true;
        if (p.faults[i].kind == FK_WALLJUMP) gJump = true;
    }
    setfiles.resize(MAXEP + 1);
    for (u32 i = 0; i < shm->nev; i++) if (shm->ev[i].kind == EV_SETFILE) setfiles[shm->ev[i].epoch].push_back(&shm->ev[i]);
    lvl.assign(shm->nmsg, L_EITHER);
    for (u32 i = 0; i < shm->nmsg; i++) {
        Msg &m = shm->msg[i];
        if (m.isStatic) { if (m.begin) staticBySite[m.line].push_back((int)i); }
        else byUid[m.uid] = (int)i;
        u64 e = m.state == MS_BEGUN ? ~0ull : m.end;
        if (m.state == MS_BEGUN && !m.begin) { lvl[i] = L_MUSTNOT; continue; }
        auto s = levelsDuring(m.epoch, m.begin, e);
        bool all = true, none = true;
        for (int l : s) { if (l >= m.level) none = false; else all = false; }
        lvl[i] = all ? L_MUST : none ? L_MUSTNOT : L_EITHER;
    }
    for (u32 e = 0; e < p.nepochs; e++) { allTorn += shm->epochTorn[e]; anyIoErr += shm->epochIoErr[e]; }
    intact = !allTorn && !anyIoErr;
    bool allClean = true;
    for (u32 e = 0; e < p.nepochs; e++) if (!shm->epochClean[e]) allClean = false;

    // harness-visible API results
    for (u32 i = 0; i < shm->nev; i++) {
        Event &v = shm->ev[i];
        if (!v.done) continue;
        if (v.kind == EV_SETFILE && v.b == 1) {
            bool injected = false;
            for (u32 k = 0; k < p.nfaults; k++) if (p.faults[k].kind == FK_OPEN_FAIL && p.faults[k].epoch == v.epoch && p.faults[k].fired) injected = true;
            if (!injected) simFail("setfile", "setLogFile(\"%s\") threw although the file can be opened (execution %u)", shm->files[v.a].name, v.epoch);
        }
        if ((v.kind == EV_SETFILE || v.kind == EV_BADFILE) && v.b == 2) simFail("setfile", "setLogFile threw something other than std::ios_base::failure");
        if (v.kind == EV_BADFILE && v.b == 0) simFail("setfile", "setLogFile on a file that cannot be opened for writing returned without an exception");
        if (v.kind == EV_GETLEVEL && !levelsDuring(v.epoch, v.begin, v.end).count((int)v.a))
            simFail("level", "getLogLevel returned %ld which was not in force during the call", (long)v.a);
    }

    std::map<int, int> where;          // message -> file, from the unordered decode (or whatever mode runs first)
    std::map<u64, std::pair<u32, int>> bufOf;
    std::map<u64, u64> ownerOf;
    u64 shortSeed = 0;
    for (u32 i = 0; i < p.nfaults; i++) if (p.faults[i].kind == FK_SHORT_READ) shortSeed = (u64)p.faults[i].v;
    struct FileOut { int fi; Out s, u, it; };
    std::vector<FileOut> outs;
    void *reuse = decNew();
    // Nothing is claimed about the contents of a log that lost a block to a
    // hard I/O error.
    for (u32 fi = 0; fi < shm->nfiles && !anyIoErr; fi++) {
        SimFile &sf = shm->files[fi];
        if (!sf.exists || fi == 5 || !strcmp(sf.name, "trace.txt")) continue;
        FileOut fo;
        fo.fi = (int)fi;
        u32 modes = p.decode;
        bool haveS = modes & DM_SORTED, haveU = modes & DM_UNORD, haveI = modes & DM_ITER;
        simDecodeReads(shortSeed, -1);
        if (haveU) { void *d = decNew(); fo.u = runText(d, sf.name, false); decFree(d); checkOut("unordered decode", (int)fi, fo.u, false); }
        if (haveI) { void *d = decNew(); fo.it = runIter(d, sf.name, false, ~0u); decFree(d); checkOut("iterative decode", (int)fi, fo.it, false); }
        if (haveS) { void *d = decNew(); fo.s = runText(d, sf.name, true); decFree(d); checkOut("sorted decode", (int)fi, fo.s, true); }
        shm->cov.decodedMsgs += fo.u.recs.size();
        if (intact && sf.size > 0 && haveU && !fo.u.opened) simFail("ret", "the intact file %s cannot be opened by the decoder", sf.name);
        // the three interfaces agree
        if (haveU && haveI && ids(fo.u) != ids(fo.it)) simFail("agree", "iterative decode of %s yields %zu messages, unordered decode %zu (or a different order)", sf.name, fo.it.recs.size(), fo.u.recs.size());
        if (haveU && haveS) {
            auto a = ids(fo.u), b = ids(fo.s);
            std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
            if (a != b) {
                S ex;
                std::set<int> sb(b.begin(), b.end()), sa(a.begin(), a.end());
                for (int x : a) if (x >= 0 && !sb.count(x)) { ex = "; only unordered has " + show(shm->msg[x]); break; }
                for (int x : b) if (x >= 0 && !sa.count(x)) { ex = "; only sorted has " + show(shm->msg[x]); break; }
                simFail("agree", "sorted decode of %s yields %zu messages, unordered decode %zu%s", sf.name, b.size(), a.size(), ex.c_str());
            }
        }
        // separators
        if (haveU && fo.u.opened && intact && allClean) {
            int want = 0;
            if (fi == 0) want += (int)p.nepochs;
            for (u32 e = 0; e < p.nepochs; e++) for (Event *s : setfiles[e]) if (s->ok && s->a == fi) want++;
            if (fo.u.sections != want) simFail("sections", "%s holds the logs of %d executions/openings but the decoder reports %d", sf.name, want, fo.u.sections);
            if (haveS && fo.s.sections != want) simFail("sections", "%s holds the logs of %d executions/openings but the sorted decode reports %d", sf.name, want, fo.s.sections);
        }
        // thread ids
        for (Rec &r : fo.u.recs) {
            if (r.msg < 0) continue;
            const Msg &m = shm->msg[r.msg];
            u64 key = (u64)m.epoch << 32 | m.tid, bkey = (u64)m.epoch << 32 | r.buf;
            auto b = bufOf.find(key);
            if (b == bufOf.end()) bufOf[key] = {r.buf, r.msg};
            else if (b->second.first != r.buf) simFail("thrid", "thread %u of execution %u is labelled [%u] and [%u]", m.tid, m.epoch, b->second.first, r.buf);
            auto w = ownerOf.find(bkey);
            if (w == ownerOf.end()) ownerOf[bkey] = key;
            else if (w->second != key) simFail("thrid", "label [%u] is used for threads %lu and %u of execution %u", r.buf, (unsigned long)(w->second & 0xffffffff), m.tid, m.epoch);
        }
        Out &prim = haveU ? fo.u : haveS ? fo.s : fo.it;
        for (Rec &r : prim.recs) {
            if (r.msg < 0) continue;
            if (where.count(r.msg) && where[r.msg] != (int)fi) simFail("dup", "decoded from %s and from %s: %s", shm->files[where[r.msg]].name, sf.name, show(shm->msg[r.msg]).c_str());
            where[r.msg] = (int)fi;
        }
        // a decoder object used for one file after the other
        if (modes & DM_REUSE) {
            Rng r; r.seed(p.seed ^ fi);
            for (int k = 0; k < 2; k++) {
                if (r.below(3) == 0 && decOpen(reuse, "no/such/file.log")) simFail("reuse", "open() of a file that does not exist succeeded");
                u32 lim = r.below(4) == 0 ? 0 : r.below((u32)fo.it.recs.size() + 2);
                Out part = runIter(reuse, sf.name, false, lim);
                if (part.opened) {
                    checkOut("iterative decode with a reused decoder", (int)fi, part, false);
                    auto a = ids(fo.it), b = ids(part);
                    if (b.size() > a.size() || !std::equal(b.begin(), b.end(), a.begin()) || (b.size() != a.size() && b.size() != lim))
                        simFail("reuse", "a reused decoder yields different messages for %s (%zu of %zu)", sf.name, b.size(), a.size());
                } else if (fo.it.opened) simFail("reuse", "a reused decoder cannot open %s", sf.name);
            }
            Out t = runText(reuse, sf.name, r.below(2));
            checkOut("decode with a reused decoder", (int)fi, t, false);
            auto a = ids(fo.u), b = ids(t);
            std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
            if (a != b) simFail("reuse", "a reused decoder yields %zu messages for %s instead of %zu", b.size(), sf.name, a.size());
        }
        if (modes & DM_STEP) {
            void *d = decNew();
            Out q = runIter(d, sf.name, true, ~0u);
            decFree(d);
            bool same = q.recs.size() == fo.it.recs.size();
            for (size_t i = 0; same && i < q.recs.size(); i++) if (q.recs[i].tsc != fo.it.recs[i].tsc) same = false;
            if (!same) simFail("agree", "iterating over %s without printing yields different messages than with printing", sf.name);
        }
        if ((modes & DM_CLI) && fo.u.opened) {
            for (int k = 0; k < 2; k++) {
                int rc;
                S out = capCli(k ? "decompressUnordered" : "decompress", sf.name, &rc);
                if (rc < 0) simFail("crash", "the decompressor program died on signal %d for %s", -rc, sf.name);
                Out o; int s = 0;
                o.opened = true; o.sections = 1;
                parseOut(out.data(), out.size(), o, s);
                o.ret = (i64)o.recs.size();
                checkOut(k ? "decompressor (unordered)" : "decompressor (sorted)", (int)fi, o, !k);
                if (ids(o) != ids(k ? fo.u : fo.s)) simFail("agree", "the decompressor program prints %zu messages for %s, the library %zu", o.recs.size(), sf.name, (k ? fo.u : fo.s).recs.size());
            }
        }
        if (modes & DM_EIO) {
            Rng r; r.seed(p.seed ^ 77 ^ fi);
            for (int k = 0; k < 6; k++) {
                void *d = decNew();
                u32 at = r.below(r.below(2) ? 6 : 40);
                simDecodeReads(shortSeed, (i64)at, (int)r.below(2));
                Out o = k % 3 == 0 ? runText(d, sf.name, true) : k % 3 == 1 ? runText(d, sf.name, false) : runIter(d, sf.name, false, ~0u);
                simDecodeReads(0, -1);
                decFree(d);
                bool was = intact;
                intact = false;
                checkOut(k % 3 == 0 ? "sorted decode with a read error" : k % 3 == 1 ? "unordered decode with a read error" : "iterative decode with a read error", (int)fi, o, k % 3 == 0);
                intact = was;
            }
        }
        outs.push_back(std::move(fo));
    }
    decFree(reuse);
    if ((p.decode & (DM_CUT | DM_SYNCCUT)) && intact && !outs.empty() && outs[0].fi == 0) {
        bool sw = false;
        for (auto &v : setfiles) if (!v.empty()) sw = true;
        if (!sw && (p.decode & DM_CUT)) checkCuts(outs[0].u, outs[0].it, shortSeed, false);
        if (!sw && (p.decode & DM_SYNCCUT)) checkCuts(outs[0].u, outs[0].it, shortSeed, true);
    }

    // conservation and durability
    std::map<u64, std::pair<int, int>> firstMissing;   // thread -> (missing must-message)
    std::vector<Event *> syncs[MAXEP];
    for (u32 i = 0; i < shm->nev; i++) {
        Event &v = shm->ev[i];
        if (v.done && (v.kind == EV_SYNC || (v.kind == EV_SETFILE && v.ok))) syncs[v.epoch].push_back(&v);
    }
    for (u32 i = 0; i < shm->nmsg; i++) {
        Msg &m = shm->msg[i];
        bool present = where.count((int)i);
        u64 key = (u64)m.epoch << 32 | m.tid;
        if (present) {
            auto it = firstMissing.find(key);
            if (it != firstMissing.end() && it->second.second < (int)m.seq)
                simFail("gap", "%s is present but the earlier %s is not", show(m).c_str(), show(shm->msg[it->second.first]).c_str());
            continue;
        }
        if (m.state != MS_DONE || lvl[i] == L_MUSTNOT) continue;
        bool must = lvl[i] == L_MUST;
        if (!must || shm->epochIoErr[m.epoch]) continue;
        if (!firstMissing.count(key)) firstMissing[key] = {(int)i, (int)m.seq};
        if (shm->epochClean[m.epoch]) {
            simFail("loss", "lost although the program exited normally: %s", show(m).c_str());
            for (Event *s : syncs[m.epoch]) if (m.end < s->begin) { simFail("durable", "lost although sync()/setLogFile() was called after it and returned: %s", show(m).c_str()); break; }
        } else {
            for (Event *s : syncs[m.epoch])
                if (m.end < s->begin) { simFail("durable", "lost in the crash although %s was called after it and had returned: %s", s->kind == EV_SYNC ? "sync()" : "setLogFile()", show(m).c_str()); break; }
        }
    }
    // hard I/O errors have to be reported
    for (u32 e = 0; e < p.nepochs; e++)
        if (shm->epochIoErr[e] && shm->epochClean[e] && shm->stderrLen[e] == 0) simFail("silent", "a failed write was not reported (execution %u)", e);
    // statistics at quiescence
    for (u32 i = 0; i < shm->nev; i++) {
        Event &v = shm->ev[i];
        if (v.kind != EV_STATS || !v.done || v.a != 1) continue;
        // only a read at rest says something: everything recorded so far was synced
        bool rest = false;
        for (Event *s : syncs[v.epoch]) {
            if (s->end >= v.begin) continue;
            bool ok = true;
            for (u32 j = 0; ok && j < shm->nmsg; j++) {
                Msg &m = shm->msg[j];
                if (m.epoch == v.epoch && m.begin < v.end && (m.state != MS_DONE || m.end >= s->begin)) ok = false;
            }
            if (ok) rest = true;
        }
        if (!rest) continue;
        S t(shm->text + v.textOff, v.textLen);
        unsigned long n = 0, in = 0, out = 0, pad = 0; unsigned fl = 0;
        u64 want = 0;
        for (auto &w : where) if (shm->msg[w.first].epoch == v.epoch && shm->msg[w.first].end < v.begin) want++;
        size_t k = t.find("Wrote ");
        if (k == S::npos || sscanf(t.c_str() + k, "Wrote %lu events", &n) != 1) simFail("stats", "getStats() does not report the number of events");
        else if (n != want) simFail("stats", "getStats() reports %lu events after sync(), %lu were recorded", n, (unsigned long)want);
        k = t.find("There were ");
        if (k != S::npos && sscanf(t.c_str() + k, "There were %u file flushes", &fl) == 1 && fl != v.c) simFail("stats", "getStats() reports %u file flushes, %lu writes completed", fl, (unsigned long)v.c);
        k = t.find("x (");
        if (k != S::npos && sscanf(t.c_str() + k, "x (%lu bytes in, %lu bytes out, %lu pad bytes)", &in, &out, &pad) == 3) {
            if (out != v.b) simFail("stats", "getStats() reports %lu bytes out, the files grew by %lu", out, (unsigned long)v.b);
        }
    }
}
