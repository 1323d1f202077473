// Shared declarations of the deterministic simulator.
//
// Everything in here is plain-old-data that lives in one MAP_SHARED region
// (struct Shm), so that the driver ("zygote"), the process that plays one
// execution of the logging program ("epoch child") and the process that decodes
// the resulting files ("decode child") see the same plan, disk and history.
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <wchar.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

struct Rng {
    u64 s;
    void seed(u64 x) { s = x * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull; next(); }
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u32 below(u32 n) { return n ? (u32)(((next() >> 32) * (u64)n) >> 32) : 0; }
    i64 range(i64 lo, i64 hi) { return lo + (i64)(next() % (u64)(hi - lo + 1)); }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
    bool chance(double p) { return unit() < p; }
};

// ---------------------------------------------------------------- plan
enum OpKind : u8 {
    OP_NONE = 0, OP_LOG, OP_SYNC, OP_PREALLOC, OP_SETFILE, OP_SETLEVEL,
    OP_SPAWN, OP_JOIN, OP_WAITDONE, OP_PARK, OP_SLEEP, OP_STATS, OP_GETLEVEL,
    OP_TTREC, OP_TTPRINT, OP_TTGET, OP_BADFILE, OP_MEM, OP_TTRESET, OP_LAST
};
extern const char *opNames[];
struct Op { u8 kind; u8 pad; u16 a; u32 b; };

enum FaultKind : u8 {
    FK_NONE = 0,
    FK_AIO_LATENCY,     // nth aio_write of the epoch: latency v ns
    FK_AIO_SHORT,       // nth aio_write: only v/1000 of the bytes are written
    FK_AIO_EAGAIN,      // nth aio_write call fails with EAGAIN
    FK_AIO_ERROR,       // nth aio_write completes with errno v
    FK_SUSPEND_EINTR,   // nth aio_suspend call interrupted
    FK_SPURIOUS,        // nth cond wait: spurious wakeup after v ns
    FK_OPEN_FAIL,       // nth open() fails with errno v
    FK_ALLOC_FAIL,      // nth allocation made by a logging call fails
    FK_SHORT_READ,      // decode: stream reads return few bytes, v = seed
    FK_SKEW,            // thread n reads the TSC with offset v cycles
    FK_WALLJUMP,        // nth time() call sees the wall clock jump by v s
    FK_TSCSNAP,         // the nth log statement's clock read falls v cycles before a whole second
    FK_STALL,           // thread n is stalled for v points
    FK_READ_EIO,        // decode: nth stream read fails with EIO
    FK_OVERSLEEP,       // nth timed wait oversleeps by v ns
    FK_WRITE_SHORT,     // nth write() transfers only v/1000 of the bytes
    FK_WRITE_EINTR,     // nth write() is interrupted before it transferred anything
    FK_WRITE_ERROR,     // nth write() fails with errno v
    FK_LAST
};
extern const char *faultNames[];
struct Fault { u8 epoch; u8 kind; u16 fired; u32 n; i64 v; };

enum EndKind : u8 { END_EXIT = 0, END_KILL = 1, END_POWER = 2 };
extern const char *endNames[];
enum TrigKind : u8 { TRIG_STEP = 0, TRIG_AIO_SUBMIT, TRIG_AIO_DONE, TRIG_SYNC_RET, TRIG_LOG_RET, TRIG_LAST };
extern const char *trigNames[];

static const int MAXEP = 6;
static const int MAXTH = 340;
static const int MAXOPS = 40000;
static const int MAXFAULT = 4000;

struct ThreadPlan { u32 start, count; };
enum Strat : u8 { ST_RANDOM = 0, ST_PCT, ST_STALL, ST_RR, ST_WINDOW, ST_LAST };

struct EpochPlan {
    u8 end, trig;
    u32 trigN, trigDelta;
    u32 tornPermille;
    u32 nthreads;
    ThreadPlan th[MAXTH];
};

enum { DM_SORTED = 1, DM_UNORD = 2, DM_ITER = 4, DM_CLI = 8, DM_REUSE = 16, DM_STEP = 32, DM_EIO = 64, DM_CUT = 128, DM_SYNCCUT = 256 };

struct Plan {
    char variant[16];
    char family[16];
    u64 seed;
    u32 nepochs;
    u32 tick;          // virtual ns per memory access
    u64 tscRate;       // virtual TSC cycles per second
    u32 aioLatency;    // default AIO latency, ns
    u32 aioSplit;      // permille of the bytes copied at submission
    u32 maxStr;        // longest string argument generated
    u32 wallFrac;      // sub-second phase of the wall clock at start (us)
    u32 strat;
    u32 gap;           // mean number of points between preemptions
    u32 hotW;          // weight of an access to a shared address
    u32 stallLen;
    u32 decode;        // DM_* bits
    u32 nops;
    u32 nfaults;
    EpochPlan ep[MAXEP];
    Op ops[MAXOPS];
    Fault faults[MAXFAULT];
};

// ---------------------------------------------------------------- schedule
enum { SK_PRE = 'S', SK_BLK = 'B', SK_SIG = 'W' };
struct SEnt { u8 epoch; u8 kind; u16 tid; u32 n; int32_t target; };
static const u32 MAXSCHED = 300000;

// ---------------------------------------------------------------- history
enum MsgState : u8 { MS_BEGUN = 0, MS_DONE = 1, MS_THREW = 2 };
struct Arg { char type; u64 raw; u32 off, len; };
struct Msg {
    u8 epoch, state, level, nargs;
    u16 tid, site;
    u32 seq, uid, line;
    u64 begin, end;          // global event sequence numbers
    u64 tscLo, tscHi;        // TSC of the logging thread around the call
    i64 wallLo, wallHi;      // wall clock, ns
    u32 textOff, textLen, argOff;
    u8 isStatic;
};
enum EvKind : u8 { EV_SYNC = 1, EV_SETFILE, EV_SETLEVEL, EV_STATS, EV_GETLEVEL, EV_PREALLOC, EV_EPOCH_END, EV_TTRESET, EV_TTDUMP, EV_BADFILE };
struct Event {
    u8 kind, epoch, done, ok;
    u16 tid;
    u64 begin, end;
    u64 a, b, c;
    u32 textOff, textLen;
};

struct TTRec { u8 epoch, fmt, done; u16 tid; u32 a[3]; u64 begin, end, tsLo, tsHi; };   // a time trace record
static const u32 MAXTT = 60000;
static const u32 MAXMSG = 24000;
static const u32 MAXEV = 6000;
static const u32 MAXARG = 160000;
static const u32 TEXTCAP = 24u << 20;

// ---------------------------------------------------------------- disk
static const int MAXFILES = 12;
static const u32 FILECAP = 10u << 20;
struct SimFile {
    char name[48];
    u32 size;
    u8 exists, readable, writable, pad;
    u32 nwrites;
    u32 bytesAtEpoch[MAXEP + 1];
    u32 dirtyFrom;           // bytes from here on are not durable
    u8 *data() const;
};

struct Coverage {
    u64 steps, switches, blocks, aioWrites, aioBytes, condWaits, timedWaits;
    u64 msgs, syncs, crashes, epochs, tscReads, backpressure;
    u64 faultsFired[FK_LAST];
    u64 schedHash;           // hash of the executed interleaving
    u64 histHash;            // hash of everything observable
    u64 deletedThreads;
    u64 tornCrashes, decodes, decodedMsgs, overlapMsgs, memChecks;
    u64 vtime;
    u64 textHash;            // of all decoded text
};

struct VEnt { char oracle[24]; u32 epoch; char text[1800]; };
struct Verdict { u32 n; VEnt v[12]; };   // at most one entry per oracle

struct Shm {
    Plan plan;
    // replay
    u32 replay;              // use sched[] instead of the PRNG
    u32 nsched;
    SEnt sched[MAXSCHED];
    u32 nrec;
    SEnt rec[MAXSCHED];
    // run state carried across epochs
    u32 epoch;
    u32 mode;                // 1 epoch child, 2 decode child
    u64 gseq;
    u64 vnow;
    i64 wallOff;
    Rng schedRng;
    u64 tscBase;
    u32 verbose;
    // disk
    SimFile files[MAXFILES];
    u32 nfiles;
    u32 curFile;
    // per-epoch results
    u32 epochClean[MAXEP];   // 1 = exited normally
    u32 epochTorn[MAXEP];    // bytes of a torn write left on disk
    u32 epochLostAio[MAXEP];
    u32 epochIoErr[MAXEP];   // hard I/O errors injected
    i64 tscAtStart[MAXEP];
    u32 stderrLen[MAXEP + 1];
    char stderrText[MAXEP + 1][3000];
    Verdict verdict;
    Coverage cov;
    u32 hangWhere;
    // history
    u32 nmsg, nev, narg, ntext, ntt;
    TTRec tt[MAXTT];
    Msg msg[MAXMSG];
    Event ev[MAXEV];
    Arg arg[MAXARG];
    char text[TEXTCAP];
    u8 filedata[MAXFILES][FILECAP];
};
extern Shm *shm;
inline u8 *SimFile::data() const { return shm->filedata[this - shm->files]; }

// ---------------------------------------------------------------- engine API
void simFail(const char *oracle, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void simGen(Plan &p, const char *family, const char *variant, u64 seed);   // plan.cc
void simEpochMain();          // workload.cc
void simDecodeMain();         // oracle.cc
u64 simEvent();               // next global sequence number (also a point)
u64 simTsc();                 // TSC as the current thread sees it (advances)
i64 simWall();                // wall clock, ns
void simPoint(const void *addr, int size, int write);
void simEpochBegin(); void simEpochDone();
void simTrigger(int kind);    // SYNC_RET / LOG_RET triggers
void simSetInLog(int on);     // alloc faults are only armed inside log calls
void simPark();               // park the calling thread for ever
void simWaitDone(int planTid);
void simThreadDone(int planTid);
void simSetPlanTid(int planTid);
int simPlanTid();
extern "C" void *__real_malloc(size_t);
extern "C" void *__real_memcpy(void *, const void *, size_t);
u32 simTextAlloc(u32 n);
const char *simOp(u32 k);
int simFileIdx(const char *name);
FILE *simOpenRead(const char *name);
u64 simAioDone();
u32 simBlocksOf(const bool *gone, size_t n);
u32 simReadPos();            // of the log file opened last
void simDecodeReads(u64 shortSeed, i64 eioAt, int stay = 0);

// api.cc: the only callers of the library under test besides the sites
void apiPreallocate(); void apiSync(); void apiSetLevel(int l); int apiGetLevel();
int apiSetFile(const char *name);       // 0 ok, 1 threw std::ios_base::failure, 2 threw something else
u32 apiStats(char *out, u32 cap);
u32 apiStaging(); u32 apiOutput(); u32 apiOdirect();
double apiCps();
void apiTtRecord(const char *fmt, u64 ts, u32 a, u32 b, u32 c, u32 d);   // ts 0: reads the clock itself
u32 apiTtGet(char **out); void apiTtPrint(); void apiTtFile(const char *name); void apiTtReset();
extern const char *ttFormats[];
// decapi.cc
struct DecMsg { u64 tsc; u32 logId; int nargs; };
void *decNew(); void decFree(void *d); bool decOpen(void *d, const char *file);
i64 decSorted(void *d, FILE *o); i64 decUnordered(void *d, FILE *o);
bool decNext(void *d, FILE *o, DecMsg *m);
bool decArg(void *d, int i, char type, u64 *raw, double *dv, const char **s);
int decCli(int argc, char **argv);

struct LogCtx {
    Msg *m;
    Rng r;
    u32 uid;
    char uids[16];
    char *buf; u32 cap; int len;
    u32 scratchUsed;
    char *scratch;
    Arg args[64]; u32 nargs;
    int i32(); unsigned u32_(); long i64_(); unsigned long u64_(); double dbl(); float flt();
    short i16(); unsigned short u16_(); signed char i8(); unsigned char u8_();
    char chr();
    const char *str(u32 maxlen);
    const char *strN(u32 len);
    const char *ustr(int prec);   // exactly prec bytes that are not terminated
    char *own[8]; u32 nown;
    const wchar_t *wstr(u32 maxlen);
    const void *ptr();
    int width(); int prec();
    u32 maxStr();
    void A(char type, u64 raw);
    void AF(double v);
    void AS(const char *s, int prec);
    bool few();
    void skip();
    void mark(u32 line, int level, int isStatic, int textLen);
    void begin(); void end();
};
extern const int simNumSites;      // all sites
extern const int simNumStatic;     // sites [0, simNumStatic) carry no tag
extern const int simNumVaried;     // then varied tagged sites up to here
extern const int simNumBig;        // then big-string sites up to here
void simSite(int site, LogCtx &c);
const char *simSiteFile();
#endif
