// Thin calls into the library under test; compiled with its flags.
#include "NanoLog.h"
#include "Config.h"
#include "Cycles.h"
#include "TimeTrace.h"
#include "sim.h"
#include <fcntl.h>
#include <ios>
#include <string>

void apiPreallocate() { NanoLog::preallocate(); }
void apiSync() { NanoLog::sync(); }
void apiSetLevel(int l) { NanoLog::setLogLevel(static_cast<NanoLog::LogLevel>(l)); }
int apiGetLevel() { return static_cast<int>(NanoLog::getLogLevel()); }
int apiSetFile(const char *name) {
    try { NanoLog::setLogFile(name); return 0; }
    catch (const std::ios_base::failure &) { return 1; }
    catch (...) { return 2; }
}
u32 apiStats(char *out, u32 cap) {
    std::string s = NanoLog::getStats();
    return (u32)snprintf(out, cap, "%s", s.c_str());
}
u32 apiStaging() { return NanoLogConfig::STAGING_BUFFER_SIZE; }
u32 apiOutput() { return NanoLogConfig::OUTPUT_BUFFER_SIZE; }
u32 apiOdirect() { return (NanoLogConfig::FILE_PARAMS & O_DIRECT) != 0; }
double apiCps() { return PerfUtils::Cycles::getCyclesPerSec(); }

void apiTtRecord(const char *fmt, u64 ts, u32 a, u32 b, u32 c, u32 d) {
    if (ts) PerfUtils::TimeTrace::record(ts, fmt, a, b, c, d);
    else PerfUtils::TimeTrace::record(fmt, a, b, c, d);
}
u32 apiTtGet(char **out) {
    std::string s = PerfUtils::TimeTrace::getTrace();
    *out = (char *)__real_malloc(s.size() + 1);
    __real_memcpy(*out, s.data(), s.size());
    return (u32)s.size();
}
void apiTtPrint() { PerfUtils::TimeTrace::print(); }
void apiTtFile(const char *name) { PerfUtils::TimeTrace::setOutputFileName(name); }
void apiTtReset() { PerfUtils::TimeTrace::reset(); }
