// Thin calls into the decoder under test; compiled with its flags.
#include "Log.h"
#include "sim.h"
#include <string.h>
using NanoLogInternal::Log::Decoder;
using NanoLogInternal::Log::LogMessage;
struct D { Decoder d; LogMessage m; };
void *decNew() { return new D(); }
void decFree(void *d) { delete (D *)d; }
bool decOpen(void *d, const char *f) { return ((D *)d)->d.open(f); }
i64 decSorted(void *d, FILE *o) { return ((D *)d)->d.decompressTo(o); }
i64 decUnordered(void *d, FILE *o) { return ((D *)d)->d.decompressUnordered(o); }
bool decNext(void *d, FILE *o, DecMsg *m) {
    D *x = (D *)d;
    if (!x->d.getNextLogStatement(x->m, o)) return false;
    m->tsc = x->m.getTimestamp();
    m->logId = x->m.getLogId();
    m->nargs = x->m.getNumArgs();
    return true;
}
bool decArg(void *d, int i, char t, u64 *raw, double *dv, const char **s) {
    LogMessage &m = ((D *)d)->m;
    if (i >= m.getNumArgs()) return false;
    switch (t) {
        case 'b': *raw = (u64)(i64)m.get<signed char>(i); break;
        case 'B': *raw = m.get<unsigned char>(i); break;
        case 'h': *raw = (u64)(i64)m.get<short>(i); break;
        case 'H': *raw = m.get<unsigned short>(i); break;
        case 'i': *raw = (u64)(i64)m.get<int>(i); break;
        case 'I': *raw = m.get<unsigned>(i); break;
        case 'l': *raw = (u64)m.get<long>(i); break;
        case 'L': *raw = m.get<unsigned long>(i); break;
        case 'q': *raw = (u64)m.get<long long>(i); break;
        case 'Q': *raw = m.get<unsigned long long>(i); break;
        case 'p': *raw = (u64)m.get<const void *>(i); break;
        case 'f': *dv = m.get<double>(i); break;
        case 's': *s = m.get<const char *>(i); break;
        default: return false;
    }
    return true;
}
int decompressor_main(int argc, char **argv);
int decCli(int argc, char **argv) { return decompressor_main(argc, argv); }
