// Plan generation: everything a simulated run does -- the program (per-thread
// operations), the environment parameters and the faults -- is derived from the
// seed here, before the run starts.  Only scheduling decisions are drawn later.
#include "sim.h"
#include <errno.h>
#include <string.h>
#include <deque>
#include <vector>

namespace {
struct Gen {
    Plan &p;
    Rng r;
    std::deque<std::vector<Op>> th[MAXEP];     // ops per thread
    std::vector<u16> pool;
    bool statics = true, debugSites = false;
    u32 staging;

    explicit Gen(Plan &pl) : p(pl) {}

    void fault(u32 e, FaultKind k, u32 n, i64 v) {
        if (p.nfaults >= (u32)MAXFAULT) return;
        Fault &f = p.faults[p.nfaults++];
        f = Fault{};
        f.epoch = (u8)e; f.kind = k; f.n = n; f.v = v;
        if (k == FK_AIO_LATENCY) f.v = lat(v);
    }

    // the compression thread polls every microsecond while a write is in
    // progress: keep the number of polls within reason
    i64 lat(i64 v) { i64 m = 1000000 + (i64)p.tick * 20000; return v > m ? m : v; }

    u16 anySite() {
        u32 x = r.below(100);
        if (x < 45) return (u16)(simNumStatic + (int)r.below((u32)(simNumVaried - simNumStatic)));
        if (x < 55) return (u16)(simNumVaried + (int)r.below((u32)(simNumBig - simNumVaried)));
        return (u16)(simNumBig + (int)r.below((u32)(simNumSites - simNumBig)));
    }
    void makePool(u32 k) {
        pool.clear();
        for (u32 i = 0; i < k; i++) pool.push_back(anySite());
    }
    u16 poolSite() { return pool[r.below((u32)pool.size())]; }
    Op op(OpKind k, u32 a = 0, u32 b = 0) { Op o; o.kind = k; o.pad = 0; o.a = (u16)a; o.b = b; return o; }
    Op log(u32 t) {
        if (t == 1 && statics && r.below(6) == 0) return op(OP_LOG, r.below((u32)simNumStatic), 0);
        return op(OP_LOG, poolSite(), (u32)(r.next() & 0x7fffffff));
    }
    Op big() { return op(OP_LOG, (u32)(simNumVaried + (int)r.below((u32)(simNumBig - simNumVaried))), (u32)(r.next() & 0x7fffffff)); }
    std::vector<Op> &t(u32 e, u32 i) { while (th[e].size() <= i) th[e].push_back({}); return th[e][i]; }

    void finish() {
        p.nops = 0;
        for (u32 e = 0; e < p.nepochs; e++) {
            EpochPlan &ep = p.ep[e];
            ep.nthreads = (u32)th[e].size();
            for (u32 i = 0; i < ep.nthreads; i++) {
                ep.th[i].start = p.nops;
                ep.th[i].count = 0;
                for (auto &o : th[e][i]) {
                    if (p.nops >= (u32)MAXOPS) break;
                    p.ops[p.nops++] = o;
                    ep.th[i].count++;
                }
            }
        }
    }

    void env() {
        static const u32 ticks[] = {1, 3, 5, 10, 20, 50, 200, 1000};
        static const u64 rates[] = {1000000000ull, 2400000000ull, 3000000000ull, 2100000000ull, 800000000ull};
        static const u32 lats[] = {0, 200, 2000, 10000, 50000, 300000, 3000000};
        static const u32 gaps[] = {4, 12, 40, 150, 600, 2500};
        p.tick = ticks[r.below(8)];
        p.tscRate = rates[r.below(5)];
        p.aioLatency = (u32)lat(lats[r.below(7)]);
        p.aioSplit = r.below(3) == 0 ? 1000 : r.below(1001);
        p.wallFrac = r.below(1000000);
        u32 s = r.below(100);
        p.strat = s < 36 ? ST_RANDOM : s < 52 ? ST_STALL : s < 72 ? ST_WINDOW : s < 93 ? ST_PCT : ST_RR;
        p.gap = gaps[r.below(6)];
        p.hotW = 1 + r.below(p.gap < 40 ? 4 : 20);
        p.stallLen = 200 + r.below(20000);
        p.maxStr = staging / 2 > 700 ? 500 + r.below(staging / 2 > 60000 ? 20000 : staging / 2 - 640) : staging / 4;
        if (r.below(2)) p.maxStr = 60 + r.below(200);
        if (p.maxStr > staging / 2 - 140) p.maxStr = staging / 2 - 140;
        p.decode = DM_SORTED | DM_UNORD | DM_ITER;
    }

    struct Mix { u32 sync = 3, prealloc = 30, sleep = 3, stats = 0, setlevel = 0, bigp = 5, getlevel = 0; };

    void body(u32 e, u32 ti, u32 n, const Mix &m) {
        auto &v = t(e, ti);
        if (r.below(100) < m.prealloc) v.push_back(op(OP_PREALLOC));
        for (u32 i = 0; i < n; i++) {
            u32 x = r.below(1000);
            u32 lim = m.sync * 10;
            if (x < lim) { v.push_back(op(OP_SYNC)); continue; }
            lim += m.sleep * 10;
            if (x < lim) { static const u32 z[] = {1, 50, 1000, 3000, 20000, 400000}; v.push_back(op(OP_SLEEP, 0, z[r.below(6)])); continue; }
            lim += m.stats * 10;
            if (x < lim) { v.push_back(op(OP_STATS)); continue; }
            lim += m.setlevel * 10;
            if (x < lim) { v.push_back(op(OP_SETLEVEL, r.below(5))); continue; }
            lim += m.getlevel * 10;
            if (x < lim) { v.push_back(op(OP_GETLEVEL)); continue; }
            if (x < lim + m.bigp * 10) { v.push_back(big()); continue; }
            v.push_back(log(ti));
        }
    }

    // main thread + workers in waves
    void program(u32 e, u32 workers, u32 perWorker, u32 mainOps, const Mix &m, bool allowPark = true) {
        auto &mn = t(e, 0);
        u32 w = 1;
        std::vector<u32> live, parked;
        for (u32 i = 1; i <= workers; i++) {
            body(e, i, 1 + r.below(perWorker), m);
            if (allowPark && r.below(10) == 0) { t(e, i).push_back(op(OP_PARK)); parked.push_back(i); }
        }
        auto isParked = [&](u32 x) { for (u32 q : parked) if (q == x) return true; return false; };
        std::vector<Op> tmp;
        Mix mm = m;
        u32 left = mainOps;
        while (w <= workers) {
            u32 k = 1 + r.below(workers - w + 1);
            if (r.below(3) == 0) k = workers - w + 1;
            for (u32 i = 0; i < k; i++, w++) { mn.push_back(op(OP_SPAWN, w)); live.push_back(w); }
            u32 some = left ? r.below(left + 1) : 0;
            left -= some;
            body(e, 0, some, mm);
            // join a random subset
            for (size_t q = 0; q < live.size();) {
                if (r.below(2)) {
                    mn.push_back(op(isParked(live[q]) ? OP_WAITDONE : OP_JOIN, live[q]));
                    live.erase(live.begin() + (long)q);
                } else q++;
            }
            if (left && r.below(2)) { body(e, 0, 1, mm); left--; }
        }
        body(e, 0, left, mm);
        while (!live.empty()) {
            u32 q = r.below((u32)live.size());
            mn.push_back(op(isParked(live[q]) ? OP_WAITDONE : OP_JOIN, live[q]));
            live.erase(live.begin() + (long)q);
            if (r.below(4) == 0) mn.push_back(log(0));
        }
        if (r.below(5) == 0) mn.push_back(op(OP_SYNC));
    }

    void crash(u32 e, bool torn) {
        EpochPlan &ep = p.ep[e];
        ep.end = r.below(3) ? END_KILL : END_POWER;
        u32 x = r.below(10);
        ep.trigDelta = r.below(3) == 0 ? 0 : r.below(2) ? r.below(40) : r.below(3000);
        if (x < 3) { ep.trig = TRIG_SYNC_RET; ep.trigN = 1 + r.below(3); }
        else if (x < 6) { ep.trig = TRIG_AIO_SUBMIT; ep.trigN = 1 + r.below(8); }
        else if (x < 7) { ep.trig = TRIG_AIO_DONE; ep.trigN = 1 + r.below(8); }
        else if (x < 9) { ep.trig = TRIG_LOG_RET; ep.trigN = 1 + r.below(60); }
        else { ep.trig = TRIG_STEP; ep.trigN = 1 + r.below(30000); ep.trigDelta = 0; }
        ep.tornPermille = !torn ? 0 : r.below(4) == 0 ? 1000 : r.below(1001);
    }

    void benign(u32 e, u32 dens) {      // delays and harmless wakeups
        for (u32 i = 0; i < dens; i++) {
            u32 x = r.below(4);
            if (x == 0) { static const i64 l[] = {0, 500, 20000, 1000000, 30000000}; fault(e, FK_AIO_LATENCY, 1 + r.below(12), l[r.below(5)]); }
            else if (x == 1) fault(e, FK_OVERSLEEP, 1 + r.below(60), (i64)r.below(2) ? r.below(5000) : r.below(5000000));
            else if (x == 2) fault(e, FK_SPURIOUS, 1 + r.below(80), r.below(3000));
            else fault(e, FK_AIO_LATENCY, 1 + r.below(4), r.below(2000000));
        }
    }
};
}

void simGen(Plan &p, const char *family, const char *variant, u64 seed) {
    memset(&p, 0, offsetof(Plan, ops));
    p.nfaults = 0;
    snprintf(p.variant, sizeof p.variant, "%s", variant);
    snprintf(p.family, sizeof p.family, "%s", family);
    p.seed = seed;
    Gen g(p);
    g.staging = apiStaging();
    u64 fh = 0;
    for (const char *q = family; *q; q++) fh = fh * 131 + (u8)*q;
    g.r.seed(seed ^ (fh << 20));
    Rng &r = g.r;
    g.env();
    p.nepochs = 1;
    Gen::Mix m;
    bool small = g.staging < 65536;
    auto is = [&](const char *s) { return !strcmp(family, s); };
    auto workers = [&]() -> u32 { u32 x = r.below(20); return x < 2 ? 0 : x < 6 ? 1 : x < 11 ? 2 : x < 16 ? 3 : x < 19 ? 4 + r.below(3) : 8 + r.below(8); };

    if (is("conc")) {
        if (r.below(6) == 0) p.nepochs = 2;
        if (r.below(2)) g.benign(0, 1 + r.below(6));
        g.makePool(1 + r.below(10));
        m.bigp = r.below(3) ? 4 : 40;
        for (u32 e = 0; e < p.nepochs; e++) g.program(e, workers(), r.below(4) ? 16 : 50, r.below(15), m);
    } else if (is("crash")) {
        p.nepochs = 1 + r.below(3);
        m.sync = 10 + r.below(15);
        m.bigp = r.below(3) ? 4 : 30;
        g.makePool(1 + r.below(8));
        for (u32 e = 0; e < p.nepochs; e++) {
            g.program(e, workers(), 24, r.below(15), m);
            if (e + 1 == p.nepochs || r.below(3)) g.crash(e, e + 1 == p.nepochs);
            if (r.below(3) == 0) g.benign(e, 1 + r.below(4));
        }
    } else if (is("micro")) {                 // few short calls: many runs, dense interleavings
        g.makePool(1 + r.below(3));
        m.sync = 15 + r.below(30);
        m.prealloc = r.below(3) ? 0 : 50;
        m.sleep = 10 + r.below(20);
        m.bigp = r.below(3) ? 3 : 30;
        if (r.below(3)) p.strat = r.below(3) ? ST_WINDOW : ST_PCT;
        if (r.below(2)) p.gap = 4 + r.below(30);
        u32 w = 1 + r.below(5);
        g.program(0, w, 2 + r.below(7), r.below(7), m);
        if (r.below(3)) {                     // mostly idle threads that wake up, log and sync
            static const u32 z[] = {300, 1500, 5000, 20000, 60000, 300000};
            for (u32 i = 1; i <= w; i++) {
                auto &v = g.t(0, i);
                v.clear();
                u32 n = 2 + r.below(6), zz = z[r.below(6)];
                for (u32 j = 0; j < n; j++) {
                    if (r.below(4)) v.push_back(g.op(OP_SLEEP, 0, 1 + zz / 2 + r.below(zz)));
                    for (u32 q = 1 + r.below(2); q; q--) v.push_back(r.below(5) ? g.log(i) : g.big());
                    if (r.below(4)) v.push_back(g.op(OP_SYNC));
                }
            }
            if (r.below(2)) p.aioLatency = (u32)g.lat(z[r.below(6)]);
        }
        if (r.below(2)) g.benign(0, 1 + r.below(4));
        if (r.below(3) == 0) g.crash(0, true);
    } else if (is("append")) {
        p.nepochs = 2 + r.below(4);
        g.makePool(1 + r.below(8));
        for (u32 e = 0; e < p.nepochs; e++) {
            if (r.below(2)) g.makePool(1 + r.below(8));
            if (r.below(8) == 0) g.t(e, 0);        // an execution that logs nothing
            else g.program(e, r.below(4), 10, r.below(10), m);
            if (r.below(6) == 0) g.crash(e, false);
        }
    } else if (is("switch")) {
        g.statics = false;
        p.nepochs = 1 + (r.below(4) == 0);
        g.makePool(1 + r.below(8));
        if (r.below(2)) g.benign(0, 1 + r.below(5));
        for (u32 e = 0; e < p.nepochs; e++) {
            m.sync = 0;
            bool shrt = r.below(3) == 0;
            g.program(e, r.below(4), shrt ? 5 : 30, shrt ? 1 + r.below(4) : 4 + r.below(16), m);
            auto &v = g.t(e, 0);
            u32 k = 1 + r.below(4);
            for (u32 i = 0; i < k; i++) {
                u32 x = r.below(10);
                Op o = x < 7 ? g.op(OP_SETFILE, r.below(5)) : g.op(OP_BADFILE, r.below(3));
                v.insert(v.begin() + r.below((u32)v.size() + 1), o);
                if (x == 7) g.fault(e, FK_OPEN_FAIL, 2 + r.below(3), ENOSPC);
            }
            if (r.below(2)) v.insert(v.begin() + r.below((u32)v.size() + 1), g.op(OP_SYNC));
            if (r.below(4) == 0) g.crash(e, e + 1 == p.nepochs);
        }
    } else if (is("iofault")) {
        p.nepochs = 1;
        g.makePool(1 + r.below(8));
        m.sync = r.below(2) ? 4 : 12 + r.below(20);
        m.bigp = 20;
        bool shrt = r.below(4) == 0;
        g.program(0, workers(), shrt ? 5 : 30, r.below(shrt ? 5 : 20), m);
        u32 k = 1 + r.below(5);
        for (u32 i = 0; i < k; i++) {
            u32 x = r.below(5);
            if (x == 0) g.fault(0, FK_AIO_SHORT, 1 + r.below(12), r.below(1000));
            else if (x == 4) g.fault(0, r.below(2) ? FK_WRITE_SHORT : FK_WRITE_EINTR, 1 + r.below(3), r.below(1000));
            else if (x == 1) g.fault(0, FK_AIO_EAGAIN, 1 + r.below(12), 0);
            else if (x == 2) g.fault(0, FK_SUSPEND_EINTR, 1 + r.below(6), 0);
            else g.benign(0, 2);
        }
        if (r.below(3) == 0) g.crash(0, true);
    } else if (is("ioerr")) {                 // hard errors: reported, never a hang
        g.makePool(1 + r.below(8));
        m.sync = 6; m.bigp = 20;
        g.program(0, workers(), 30, r.below(20), m);
        static const int er[] = {EIO, ENOSPC, EDQUOT, EFBIG};
        u32 k = 1 + r.below(3);
        for (u32 i = 0; i < k; i++) {
            if (r.below(3)) { g.fault(0, FK_AIO_ERROR, 1 + r.below(8), er[r.below(4)]); continue; }
            // as a disk that fills up: a part is written, the rest is refused
            g.fault(0, FK_AIO_SHORT, 1 + r.below(8), r.below(1000));
            if (r.below(2)) g.fault(0, r.below(2) ? FK_WRITE_SHORT : FK_WRITE_EINTR, 1 + i, r.below(1000));
            g.fault(0, FK_WRITE_ERROR, 1 + i + r.below(2), er[r.below(4)]);
        }
    } else if (is("live")) {
        g.makePool(1 + r.below(4));
        m.sync = r.below(3) ? 10 : 0;
        m.bigp = 60;
        if (p.maxStr < 300) p.maxStr = 300;
        if (p.maxStr > g.staging / 2 - 140) p.maxStr = g.staging / 2 - 140;
        static const u32 lt[] = {1000, 100000, 2000000, 20000000};
        p.aioLatency = (u32)g.lat(lt[r.below(4)]);
        g.benign(0, r.below(10));
        g.program(0, 1 + r.below(6), small ? 60 : 40, r.below(30), m);
        if (r.below(3) == 0) g.crash(0, true);
    } else if (is("churn")) {                 // many short-lived threads
        g.makePool(1 + r.below(6));
        m.prealloc = 40; m.sync = 6;
        u32 w = 4 + r.below(r.below(4) ? 12 : 40);
        g.program(0, w, 1 + r.below(5), r.below(30), m);
        if (r.below(2)) g.benign(0, 1 + r.below(4));
        if (r.below(3) == 0) g.crash(0, true);
        {
            auto &mn = g.t(0, 0);
            for (u32 i = 1; i <= w; i++) {
                bool park = false;
                for (auto &o : g.t(0, i)) if (o.kind == OP_PARK) park = true;
                if (!park) mn.push_back(g.op(OP_JOIN, i));
            }
            mn.push_back(g.op(OP_SYNC));
            mn.push_back(g.op(OP_SYNC));
            mn.push_back(g.op(OP_SLEEP, 0, 300000));
            mn.push_back(g.op(OP_SYNC));
            mn.push_back(g.op(OP_MEM));
        }
    } else if (is("reg")) {
        g.makePool(1);
        u32 w = 2 + r.below(5);
        u32 k = r.below(4) ? 3 + r.below(20) : 60 + r.below(200);
        std::vector<u16> order;
        bool all = r.below(4) == 0;                 // every statement once, in some order
        if (all) {
            k = (u32)(simNumSites - simNumBig);
            for (u32 i = 0; i < k; i++) order.push_back((u16)(simNumBig + (int)i));
            for (u32 i = k; i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
        } else
        for (u32 i = 0; i < k; i++) order.push_back(g.anySite());
        auto &mn = g.t(0, 0);
        for (u32 i = 1; i <= w; i++) {
            mn.push_back(g.op(OP_SPAWN, i));
            auto &v = g.t(0, i);
            if (r.below(2)) v.push_back(g.op(OP_PREALLOC));
            for (u32 j = 0; j < k; j++) {
                u16 s = all || r.below(8) ? order[j] : order[r.below(k)];
                v.push_back(g.op(OP_LOG, s, (u32)(r.next() & 0x7fffffff)));
                if (r.below(200) == 0) v.push_back(g.op(OP_SYNC));
            }
        }
        if (r.below(3) == 0) mn.push_back(g.op(OP_SETFILE, 1 + r.below(4)));
        for (u32 i = 1; i <= w; i++) mn.push_back(g.op(OP_JOIN, i));
        if (r.below(3) == 0) g.crash(0, true);
    } else if (is("level")) {
        g.statics = false;
        p.nepochs = 1 + (r.below(4) == 0);
        for (u32 e = 0; e < p.nepochs; e++) {
            g.makePool(6 + r.below(10));
            m.setlevel = 10; m.getlevel = 6; m.bigp = 2; m.sync = 3;
            Gen::Mix mw = m;
            mw.setlevel = r.below(3) ? 0 : 6;
            auto sv = m; (void)sv;
            // workers use mw, main uses m: build with mw and sprinkle level changes on main
            g.program(e, workers(), 20, r.below(16), mw);
            auto &v = g.t(e, 0);
            u32 k = 1 + r.below(6);
            for (u32 i = 0; i < k; i++) v.insert(v.begin() + r.below((u32)v.size() + 1), g.op(OP_SETLEVEL, r.below(8) == 0 ? 5 + r.below(5) : r.below(5)));
            v.insert(v.begin() + r.below((u32)v.size() + 1), g.op(OP_GETLEVEL));
        }
    } else if (is("skew")) {
        p.nepochs = 1 + (r.below(4) == 0);
        g.makePool(1 + r.below(8));
        for (u32 e = 0; e < p.nepochs; e++) {
            u32 w = 1 + r.below(4);
            g.program(e, w, 20, r.below(12), m);
            if (r.below(3)) for (u32 i = 0; i <= w + 2; i++) if (r.below(2)) g.fault(e, FK_SKEW, i, r.range(-5000000, 5000000) * (r.below(4) ? 1 : 1000));
            if (r.below(2)) for (u32 i = 1 + r.below(4); i; i--) g.fault(e, FK_TSCSNAP, 1 + r.below(30), r.below(4));
            if (r.below(2)) g.fault(e, FK_WALLJUMP, 1 + r.below(2), r.range(-100000, 100000));
        }
    } else if (is("stats")) {
        g.makePool(1 + r.below(8));
        m.stats = 4; m.sync = 4;
        g.program(0, r.below(4), 20, r.below(15), m, false);
        auto &v = g.t(0, 0);
        v.push_back(g.op(OP_SYNC));
        v.push_back(g.op(OP_STATS, 1));
    } else if (is("decoder")) {
        g.statics = false;
        p.nepochs = 1 + r.below(3);
        g.makePool(3 + r.below(12));
        for (u32 e = 0; e < p.nepochs; e++) {
            g.program(e, r.below(4), 20, r.below(15), m);
            if (r.below(4) == 0) g.t(e, 0).insert(g.t(e, 0).begin() + r.below((u32)g.t(e, 0).size() + 1), g.op(OP_SETFILE, r.below(3)));
        }
        if (r.below(3) == 0) g.crash(p.nepochs - 1, true);
        p.decode = DM_SORTED | DM_UNORD | DM_ITER | DM_REUSE | DM_CLI | DM_STEP | (r.below(3) ? 0 : DM_EIO);
        g.fault(p.nepochs, FK_SHORT_READ, 0, (i64)(1 + r.below(1000000)));
    } else if (is("alloc")) {
        g.statics = false;
        g.makePool(2 + r.below(8));
        m.prealloc = 60; m.sync = 4;
        g.program(0, 1 + r.below(5), 14, r.below(15), m);
        u32 k = 1 + r.below(4);
        for (u32 i = 0; i < k; i++) g.fault(0, FK_ALLOC_FAIL, 1 + r.below(14), 0);
    } else if (is("ttrace")) {
        u32 w = r.below(4);
        u32 full = r.below(8) == 0 ? r.below(w + 1) : 99;      // a thread that fills its buffer
        u32 dumps = r.below(3);
        if (p.tick > 50) p.tick = 1 + r.below(50);
        if (full != 99 && p.tick > 5) p.tick = 1 + r.below(5);
        auto &mn = g.t(0, 0);
        for (u32 i = 1; i <= w; i++) mn.push_back(g.op(OP_SPAWN, i));
        for (u32 i = 0; i <= w; i++) {
            auto &v = g.t(0, i);
            for (int part = 0; part < 2; part++) {
                u32 n = r.below(2) ? r.below(6) : r.below(40);
                for (u32 j = 0; j < n; j++) {
                    v.push_back(g.op(OP_TTREC, r.below(6), (u32)(r.next() & 0xffffff)));
                    if (dumps && r.below(full == 99 ? 12 : 80) == 0) v.push_back(i == 0 && r.below(3) == 0 ? g.op(OP_TTPRINT, r.below(5) == 0) : g.op(OP_TTGET));
                    if (r.below(20) == 0) v.push_back(g.op(OP_SLEEP, 0, 1 + r.below(5000)));
                }
                if (part == 0 && i == full) v.push_back(g.op(OP_TTREC, 90 + r.below(6), 8185 - (r.below(2) ? (n < 8185 ? n : 0) : 0) + r.below(r.below(3) ? 14 : 3000)));
            }
            if (dumps && r.below(full == 99 ? 3 : 6) == 0) v.push_back(g.op(OP_TTGET));
        }
        for (u32 i = 1; i <= w; i++) mn.push_back(g.op(OP_JOIN, i));
        mn.push_back(r.below(3) ? g.op(OP_TTGET) : g.op(OP_TTPRINT));
        if (r.below(3) == 0) {
            mn.push_back(g.op(OP_TTRESET));
            u32 n = r.below(6);
            for (u32 j = 0; j < n; j++) mn.push_back(g.op(OP_TTREC, r.below(6), (u32)(r.next() & 0xffffff)));
            mn.push_back(g.op(OP_TTGET));
        }
    }
    if (is("micro")) p.decode = DM_UNORD | DM_ITER | (r.below(3) ? 0 : DM_SORTED);
    if (is("micro") || ((is("crash") || is("live") || is("conc") || is("churn") || is("iofault")) && r.below(2))) p.decode |= DM_SYNCCUT;
    if ((is("crash") || is("live") || is("append") || is("decoder") || is("churn")) && r.below(3) == 0) p.decode |= DM_CUT;
    g.finish();
}
