#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RL, NL, LOG, C17 = 'runtime/RuntimeLogger.cc', 'runtime/NanoLog.cc', 'runtime/Log.cc', 'runtime/NanoLogCpp17.h'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)), note))


prop('C01', 'Every completed log statement is recorded exactly once',
     'After a program that used any number of logging threads exits normally, decoding its log file yields every log statement that completed, each exactly once, and nothing that was never logged. This holds for every interleaving of logging threads, the background compression thread, sync(), preallocate() and thread exits, for every I/O latency, and for every message size the library accepts.',
     ['schedules', 'histories', 'configurations'], 'all interleavings of 1..50 logging threads with the background thread, all AIO latencies, buffer sizes from 1 KB to the shipped 1 MB',
     'The unit tests run one schedule with one or two threads and poke internal state; no test decodes what many concurrently logging and exiting threads wrote.',
     ['runtime/RuntimeLogger.h', RL, LOG, 'runtime/Log.h', 'runtime/NanoLogCpp17.h', 'runtime/Config.h'],
     [('per-thread staging buffer (single producer, single consumer ring with wrap-around)', 'StagingBuffer::reserveProducerSpace/finishReservation/peek/consume, runtime/RuntimeLogger.h'),
      ('background pass over all staging buffers, with resumption when the output fills', 'RuntimeLogger::compressionThreadMain, runtime/RuntimeLogger.cc'),
      ('double-buffered asynchronous output', 'compressionThreadMain, waitForAIO, runtime/RuntimeLogger.cc'),
      ('buffer extents and dictionary fragments', 'Log::Encoder::encodeLogMsgs/encodeNewDictionaryEntries, runtime/Log.cc')],
     ['text and messages produced by the decoder for the files the program left'], 'conservation against the recorded call history')
prop('C02', 'Decoded messages carry exactly the logged text and static data',
     'A decoded message shows the file name, line and severity of its log statement and, byte for byte, the text printf would have produced from the format string and the argument values at the time of the call. This holds for every supported conversion, width, precision and string length, wherever the message happens to fall in the internal buffers and whatever other threads log meanwhile.',
     ['inputs', 'schedules', 'configurations'], 'all argument values and string lengths of the ~45 generated statement shapes, at all buffer positions (wrap-around, split over output buffers) and interleavings',
     'The tests compare a few fixed messages placed at the start of a buffer; alignment, wrap-around and split positions come from concurrent histories.',
     [C17, LOG, 'runtime/Log.h', 'runtime/Packer.h', 'preprocessor/parser.py'],
     [('argument marshalling and compression', 'store_arguments/compress in runtime/NanoLogCpp17.h; generated code of preprocessor/parser.py'),
      ('integer packing', 'BufferUtils::pack/unpack, runtime/Packer.h'), ('decoding and formatting', 'Log::decompress*/Decoder::internalDecompressUnordered, runtime/Log.cc')],
     ['decoded text, LogMessage arguments'], 'comparison with snprintf and with the recorded argument values')
prop('C03', 'Each thread\'s messages keep their order and their thread label',
     'In every decoding, the messages of one thread appear in the order in which that thread logged them, without a hole in the middle, and messages of one execution carry the same thread label exactly when the same thread logged them. This holds for every interleaving and for threads that come and go.',
     ['schedules', 'histories'], 'all interleavings of the generated programs, with up to 50 threads that start and exit at any time',
     'No test decodes interleaved output of several threads that exit while the background thread reads their buffers.',
     ['runtime/RuntimeLogger.h', RL, LOG],
     [('ring order and peek/consume', 'StagingBuffer, runtime/RuntimeLogger.h'), ('stable assignment of buffer ids', 'RuntimeLogger::ensureStagingBufferAllocated, runtime/RuntimeLogger.h'),
      ('merging by timestamp', 'Decoder::decompressTo, runtime/Log.cc')],
     ['decoded text'], 'per-thread sequence check')
prop('C04', 'Sorted decoding never contradicts real time',
     'In the sorted output of the decompressor, if one log statement returned before another one started in the same execution, it is printed before it, whichever threads logged the two and however the background thread split them over passes and output blocks.',
     ['schedules', 'histories', 'configurations'], 'all interleavings, all positions at which an output block can fill, all buffer sizes; timestamp counters consistent across cores',
     'Tests sort hand-made logs; real logs in which a pass ends in the middle of a staging buffer, or a buffer is skipped, need particular interleavings.',
     [RL, LOG], [('marking the start of a pass', 'Encoder::encodeBufferExtentStart newPass, compressionThreadMain wrap-around'), ('k-way merge over buffered passes', 'Decoder::decompressTo, runtime/Log.cc')],
     ['sorted decoder output'], 'real-time precedence of recorded calls against the printed order')
prop('C05', 'What was logged before sync() survives any later crash',
     'When sync() returns, every log statement that completed before the call started (by the caller, or by any thread whose statement is ordered before the call) is in the log file and durable: killing the process or losing power at any later instant, including in the middle of later writes, leaves it decodable.',
     ['crash_points', 'schedules', 'histories'], 'all crash points (process kill and power loss) after a sync() returns, all interleavings of concurrent loggers, syncs, exits and background work, spurious wake-ups included',
     'Tests call sync() from one thread and never crash the process or inspect which writes had completed at return.',
     [RL, 'runtime/Config.h'],
     [('sync state machine', 'RuntimeLogger::sync_internal, compressionThreadMain (SYNC_REQUESTED/PERFORMING_SECOND_PASS/WAITING_ON_AIO/SYNC_COMPLETED)'), ('O_DSYNC file flags', 'NanoLogConfig::FILE_PARAMS')],
     ['log file contents at the crash'], 'durable-prefix oracle over the crashed disk image')
prop('C06', 'A crash leaves a log whose content is a correct prefix',
     'If the process is killed or power is lost at any instant, also with a write half done, the log file still opens and decodes without crashing or hanging; what is decoded are messages that were really logged, unmodified, each at most once, and for each thread a gap-free prefix of what it logged. Everything in the writes that had completed before the crash is decoded, and cutting a log at any byte yields a prefix of what the whole log decodes to.',
     ['crash_points', 'schedules', 'fault_sequences'], 'all crash points, torn and lost in-flight writes of any length, all interleavings',
     'No test truncates a log at arbitrary bytes produced by a concurrent run or compares what survives with what was logged.',
     [RL, LOG], [('append-only blocks written in order', 'compressionThreadMain'), ('end-of-file handling in every decode path', 'Decoder::readDictionary/BufferFragment::readBufferExtent/decompressTo, runtime/Log.cc')],
     ['decoder output on the crashed image'], 'prefix oracle')
prop('C07', 'Appending executions to one file keeps all of them decodable',
     'When successive executions of a program (or of different programs) append to one log file, every execution\'s messages decode with that execution\'s own static data and clock, in execution order, with a separator between executions, also when an earlier execution was killed between writes.',
     ['histories', 'crash_points', 'schedules'], 'sequences of 1..6 executions with different sets of used log statements, empty executions and executions killed at any point',
     'Tests append at most two hand-made executions; dictionaries, checkpoints and buffered stages of longer histories are not covered.',
     [LOG, RL], [('checkpoint and dictionary reset at each execution', 'Log::insertCheckpoint/readCheckpoint, Decoder::readDictionary'), ('flushing buffered stages before the next execution', 'Decoder::decompressTo')],
     ['decoder output'], 'section oracle over multi-execution files')
prop('C08', 'Switching the log file loses, duplicates and misplaces nothing',
     'After setLogFile() returns, everything logged before the call is durably in the old file and everything logged after it goes to the new file, which decodes on its own; statements concurrent with the switch end up in exactly one of the two. A setLogFile() that cannot open or create the file throws and leaves logging to the previous file working.',
     ['schedules', 'histories', 'fault_sequences', 'crash_points'], 'all interleavings of switches with concurrent loggers, repeated switches back and forth, failing opens, crashes',
     'The tests switch files from a single thread with nothing in flight.',
     [RL, LOG], [('stop, drain, reopen, restart', 'RuntimeLogger::setLogFile_internal'), ('re-emitting the dictionary into a new file', 'Encoder::swapBuffer/insertCheckpoint, setLogFile_internal'),
                 ('permission probing', 'setLogFile_internal')],
     ['all files and exceptions'], 'file-placement oracle from call intervals')
prop('C09', 'Logging, sync, file switches and exit always make progress',
     'No log statement, sync(), setLogFile(), thread exit or program exit blocks forever: when a buffer is full or a write is in flight the caller only waits until the background thread has drained it, whatever the interleaving, the latency of the disk and the sizes of the messages. A blocked caller loses and corrupts nothing.',
     ['schedules', 'histories', 'configurations'], 'all interleavings with full staging and output buffers, slow disks, concurrent syncs and exits; progress is required within a bounded number of steps once the scheduler is fair',
     'Tests never fill the buffers while several threads contend, so lost wake-ups and full-buffer corner cases do not occur.',
     ['runtime/RuntimeLogger.h', RL, 'runtime/Config.h'], [('back-pressure loop', 'StagingBuffer::reserveSpaceInternal'), ('wake-ups of the background thread', 'workAdded/hintSyncCompleted condition variables'), ('output-full resumption', 'compressionThreadMain')],
     ['completion of every call'], 'deadlock detection and bounded liveness under a fair scheduler')
prop('C10', 'Interrupted, delayed or short writes lose nothing',
     'Transient conditions of the I/O system (a write that transfers only part of its bytes, a request that is rejected for lack of resources, a wait interrupted by a signal, arbitrary delays) neither lose, duplicate nor corrupt log messages, and sync() still only returns once the data is durable.',
     ['fault_sequences', 'schedules', 'configurations'], 'all placements of short writes, EAGAIN, EINTR and delays over the writes of a run, for buffered and direct I/O',
     'No test injects an I/O condition.', [RL], [('completion handling', 'RuntimeLogger::waitForAIO, writeSynchronously, compressionThreadMain')],
     ['log file contents'], 'conservation under injected transient I/O faults')
prop('C11', 'Failed writes are reported and never block the program',
     'When writing the log fails for good (I/O error, full disk, quota, file too large), the failure is reported on standard error and the program keeps running: log statements, sync() and exit still return.',
     ['fault_sequences', 'schedules'], 'all placements of failing writes over the writes of a run and all interleavings',
     'No test injects an I/O error.', [RL], [('error reporting after aio_return/aio_write', 'RuntimeLogger::waitForAIO, compressionThreadMain')],
     ['standard error, completion of calls'], 'report and progress oracle under injected I/O errors')
prop('C12', 'A failed allocation costs at most the statement it hit',
     'If an allocation inside a log statement or preallocate() fails, the call throws std::bad_alloc and that statement may be missing, but every other statement before and after it, by this and other threads and at the same call site, is recorded exactly once and decodes correctly.',
     ['fault_sequences', 'schedules'], 'all placements of one to four failing allocations over the allocations made by logging calls',
     'No test makes an allocation fail.', ['runtime/RuntimeLogger.h', RL], [('registration of a log statement and of a thread\'s buffer', 'RuntimeLogger::registerInvocationSite_internal, ensureStagingBufferAllocated')],
     ['decoder output'], 'conservation under injected allocation failures')
prop('C13', 'Concurrent first use of log statements registers each correctly',
     'When many threads execute log statements for the first time at the same moment, every message decodes with the static data (format, file, line, severity) of the statement that produced it, also when the registrations span several output blocks, a file switch or a crash; the description of a statement is in the file before its first message.',
     ['schedules', 'histories', 'crash_points'], 'all interleavings of first uses of up to ~260 statements by several threads',
     'Tests register statements from one thread.', ['runtime/NanoLogCpp17.h', RL, LOG],
     [('double-checked registration', 'registerInvocationSite_internal'), ('persisting new dictionary entries before use', 'compressionThreadMain shadowStaticInfo / encodeNewDictionaryEntries')],
     ['decoder output'], 'static-data oracle')
prop('C14', 'The log level decides exactly which statements are recorded',
     'A statement whose severity is at or above the level in force is recorded and one below it is not, from the moment setLogLevel() returns until the next change, in all threads; getLogLevel() returns the level last set. A statement concurrent with a level change may go either way.',
     ['schedules', 'histories', 'inputs'], 'all interleavings of level changes (including out-of-range levels) with logging threads',
     'Tests set the level from one thread around a statement.', [RL, 'runtime/NanoLogCpp17.h', 'preprocessor/parser.py'],
     [('level test in each statement', 'NANO_LOG macro / generated code'), ('level storage and clamping', 'RuntimeLogger::setLogLevel')],
     ['decoder output, getLogLevel()'], 'interval-based level model')
prop('C15', 'Decoded timestamps tell when each statement was executed',
     'The decoded time of a message is the wall-clock time of its execution (to the one-second accuracy of the recorded start time), and differences between the times of two messages of one execution equal the elapsed time between the statements to the printed nanosecond precision, for every counter frequency, start phase, per-core counter offset and wall-clock step.',
     ['schedules', 'inputs', 'histories', 'fault_sequences'], 'counter rates, skewed counters between threads, wall-clock jumps, long and short gaps, all interleavings',
     'The tests use a mocked fixed counter for a few values.', ['runtime/Cycles.cc', LOG, RL],
     [('checkpoint relating counter to wall clock', 'Log::insertCheckpoint'), ('delta-compressed timestamps', 'Log::compressMetadata/decompressMetadata'), ('conversion', 'Decoder printing in runtime/Log.cc, Cycles')],
     ['decoded timestamps'], 'interval arithmetic on the simulated clocks')
prop('C16', 'Statistics reflect what was really written',
     'At quiescence after sync(), getStats() reports exactly the number of events recorded, of bytes written and of completed file writes since the program started.',
     ['schedules', 'histories'], 'all interleavings of logging, sync and getStats() calls',
     'Tests check that a string is produced.', [RL], [('counters of the background thread', 'RuntimeLogger::getStats, compressionThreadMain, waitForAIO')],
     ['getStats() text'], 'counter comparison with the simulated disk and history')
prop('C17', 'All ways of decoding a log agree',
     'Sorted decoding, unordered decoding, the message iterator (with and without printing) and the decompressor program report the same messages with the same text, the iterator delivers the argument values that were logged, and the returned message counts are the numbers of messages delivered. This holds for every log a run can leave, truncated ones included.',
     ['histories', 'schedules', 'crash_points', 'inputs'], 'all logs produced by the simulated runs', 'Tests compare fixed outputs of small logs.',
     [LOG, 'runtime/Log.h', 'runtime/LogDecompressor.cc'], [('the decode loops', 'Decoder::decompressTo/decompressUnordered/getNextLogStatement, runtime/Log.cc')],
     ['output of each interface'], 'cross-comparison of interfaces')
prop('C18', 'Decoding is insensitive to read sizes and to earlier use',
     'A decoder yields the same messages whether the file is delivered in one piece or in arbitrarily small reads, and a decoder object that was used for other files before, completely or only partly, behaves like a new one after open().',
     ['fault_sequences', 'histories'], 'all read-size sequences and reuse histories over the logs produced by the simulated runs',
     'Tests use each decoder once with whole-file reads.', [LOG, 'runtime/Log.h'], [('state reset in open()', 'Decoder::open'), ('extent reads', 'BufferFragment::readBufferExtent')],
     ['decoder output'], 'comparison with a fresh decoder')
prop('C19', 'Preprocessed programs log and decode like C++17 ones',
     'For programs built through the source preprocessor, the generated code records and decodes every log statement with the guarantees of the C++17 version: exactly once, with correct text, static data, order, severity filtering and durability.',
     ['schedules', 'inputs', 'histories', 'crash_points'], 'all interleavings, argument values and crash points for ~100 statement shapes run through the preprocessor pipeline',
     'The preprocessor tests compare generated source text; the integration test runs one fixed program.',
     ['preprocessor/parser.py', 'preprocessor/FunctionGenerator.py', 'runtime/GeneratedCode.h', NL, LOG], [('code generation', 'preprocessor/FunctionGenerator.py'), ('statically known dictionary', 'Encoder/Decoder PREPROCESSOR_NANOLOG paths in runtime/Log.cc')],
     ['decoder output'], 'the oracles of C01-C06 on the preprocessor flavour')

prop('C20', 'Buffers of exited threads are given back, never while in use',
     'The memory a thread needed for logging is released once the thread has exited and its messages are written, so that programs which start and end any number of threads do not accumulate buffers; it is never released, and no memory is touched outside or after its lifetime, while a message is still in it or the background thread still reads it.',
     ['schedules', 'histories'], 'all interleavings of thread exits with the background thread, sync() and other threads that log, start and exit',
     'Tests delete at most a couple of buffers from one thread; the race between exit and the background pass needs particular interleavings.',
     ['runtime/RuntimeLogger.h', RL], [('hand-over of a dead thread\'s buffer', 'StagingBufferDestroyer, StagingBuffer::checkCanDelete, runtime/RuntimeLogger.h'), ('deletion by the background thread', 'RuntimeLogger::compressionThreadMain')],
     ['live blocks of the allocator, decoder output'], 'allocator that tracks live blocks and traps accesses outside them')

prop('C21', 'Time traces show exactly what was recorded, in the order of time',
     'TimeTrace::getTrace() and print(), called in any thread while others record, show only events that were recorded, each once, with its own text, time and interval, in the order of time; of each thread they show the most recent events without a gap, back to the time from which the records of all threads are complete; nothing recorded before the call is missing unless it was recorded during another dump, overwritten, or discarded by reset(); a file that cannot be opened does not crash the program.',
     ['schedules', 'histories'], 'all interleavings of recording threads and dumps, before and after the circular buffers wrap around',
     'No test of the repository touches TimeTrace; torn events need a dump in the middle of a record() call.',
     ['runtime/TimeTrace.h', 'runtime/TimeTrace.cc'], [('recording', 'TimeTrace::Buffer::record, runtime/TimeTrace.cc'), ('merging the buffers', 'TimeTrace::printInternal, runtime/TimeTrace.cc')],
     ['returned string, printed file'], 'per-thread history of record() calls as the reference for every dump')

if __name__ == '__main__':
    with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
        for d, _ in P:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    m = dict(version=1, setup_cmd='python3 check.py setup',
             hooks=dict(guard='TESTING', enable='-DTESTING=1 (the define that already exists in the repository for its mocked timestamp counter; no hooks were added to /repo, everything else is intercepted at the compiler-instrumentation, libc and pthread level)', source_commits=[]),
             checks=[], not_applicable=[])
    for d, note in P:
        m['checks'].append(dict(property=d['id'], quick_cmd=f'python3 check.py {d["id"]} quick', thorough_cmd=f'python3 check.py {d["id"]} thorough',
                                technique='deterministic simulation with fault injection: ' + note, level='exploration',
                                level_note='Seeded search over schedules, histories and faults of the real library code; a clean run is evidence for the seeds explored, not proof. Assumes sequentially consistent memory and preemption at instrumented memory accesses and intercepted calls.'))
    m['not_applicable'] = []
    json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
