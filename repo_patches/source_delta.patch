From f58a7dde5ad97a836112c326ac1b5943dd9596bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:13 +0000
Subject: [PATCH 01/21] fix: decode wide string arguments that are not aligned
 in the log

---
 runtime/Log.cc | 68 ++++++++++++++++++++++++++------------------------
 runtime/Log.h  |  6 +++++
 2 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index d941041..5d3ffa2 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -503,6 +503,7 @@ Log::LogMessage::LogMessage()
         , totalCapacity(sizeof(rawArgs)/sizeof(uint64_t))
         , rawArgs()
         , rawArgsExtension(nullptr)
+        , wideStrings()
 {}
 
 // Destructor for LogMessage
@@ -570,6 +571,35 @@ Log::LogMessage::reset(FormatMetadata *meta, uint32_t logId, uint64_t rdtsc)
     this->rdtsc = rdtsc;
     this->logId = logId;
     numArgs = 0;
+    wideStrings.clear();
+}
+
+/**
+ * Copies a null-terminated wide string out of the packed log data. The packed
+ * string may start at any byte offset, so it cannot be handed directly to
+ * functions that expect a properly aligned wchar_t pointer.
+ *
+ * \param packed
+ *      Start of the wide string in the packed log data
+ *
+ * \return
+ *      Copy of the string that is valid until the next reset()
+ */
+const std::wstring&
+Log::LogMessage::copyWideString(const char *packed)
+{
+    wideStrings.emplace_back();
+    std::wstring &copy = wideStrings.back();
+
+    wchar_t wc;
+    for (memcpy(&wc, packed, sizeof(wchar_t));
+            wc != L'\0';
+            memcpy(&wc, packed, sizeof(wchar_t))) {
+        copy.push_back(wc);
+        packed += sizeof(wchar_t);
+    }
+
+    return copy;
 }
 
 // Indicates whether the structure stores a valid log statement or not
@@ -1434,7 +1464,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
         // TODO(syang0) We can probably skip processing the log message at
         // if we (a) aren't printing and (b) aren't aggregating
         for (int i = 0; i < metadata->numPrintFragments; ++i) {
-            const wchar_t *wstrArg;
+            const std::wstring *wstrArg;
 
             int width = -1;
             if (pf->hasDynamicWidth)
@@ -1611,42 +1641,16 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                     break;
 
                 case const_wchar_t_ptr_t:
-
-                    /**
-                     * I've occasionally encountered the following assertion:
-                     * __wcsrtombs: Assertion `data.__outbuf[-1] == '\0'' failed
-                     *
-                     * I don't know why this occurs, but it appears to be caused
-                     * by a wcslen() call deep inside printf returning the wrong
-                     * value when called on the dynamic buffer. I've found
-                     * that copying the data into a stack buffer first fixes
-                     * the problem (not implemented here).
-                     *
-                     * I don't know why this is the case and I'm inclined to
-                     * believe it's a problem with the library because I've...
-                     *  (1) verified byte by byte that the copied wchar_t
-                     *      strings and the surrounding bytes are exactly the
-                     *      same in the dynamic and stack allocated buffers.
-                     *  (2) copied the wcslen code from the glib sources into
-                     *      to this file and calling it on the dynamic buffer
-                     *      works, but the public wcslen() API still returns an
-                     *      incorrect value.
-                     *  (3) verified that no corruption occurs in the buffers
-                     *      before and after the wcslen() returns the wrong val
-                     *
-                     * If wide character support becomes important and this
-                     * assertion keeps erroring out, I would work around it
-                     * by copying the wide string into a stack buffer before
-                     * passing it to printf.
-                     */
-                    wstrArg = reinterpret_cast<const wchar_t *>(nextStringArg);
+                    // Strings are packed without alignment, so make an aligned
+                    // copy for the wide string functions to operate on.
+                    wstrArg = &(logArgs.copyWideString(nextStringArg));
                     printSingleArg(outputFd,
                                    logArgs,
                                    pf->formatFragment,
-                                   wstrArg,
+                                   wstrArg->c_str(),
                                    width, precision);
                     // +1 for NULL
-                    nextStringArg += (wcslen(wstrArg) + 1) * sizeof(wchar_t);
+                    nextStringArg += (wstrArg->length() + 1) * sizeof(wchar_t);
                     break;
 
                 case MAX_FORMAT_TYPE:
diff --git a/runtime/Log.h b/runtime/Log.h
index abf2873..5acd409 100644
--- a/runtime/Log.h
+++ b/runtime/Log.h
@@ -14,6 +14,8 @@
  */
 
 #include <ctime>
+#include <deque>
+#include <string>
 #include <vector>
 
 #include <cassert>
@@ -746,6 +748,9 @@ namespace Log {
         // Extension for the arguments if we run out of space above
         uint64_t *rawArgsExtension;
 
+        // Properly aligned copies of the wide string arguments
+        std::deque<std::wstring> wideStrings;
+
         void reserve(int nparams);
 
     PUBLIC:
@@ -758,6 +763,7 @@ namespace Log {
         uint64_t getTimestamp();
         void reset(FormatMetadata *fm= nullptr, uint32_t logId=uint32_t(-1),
                         uint64_t rdtsc=0);
+        const std::wstring& copyWideString(const char *packed);
 
         /**
          * Add a dynamic log argument into the structure.
-- 
2.43.0


From 4e647ccdfaba28a58745ea9413afca1b316473bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:53 +0000
Subject: [PATCH 02/21] fix: print every buffered message before starting the
 next execution in decompressTo

---
 runtime/Log.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 5d3ffa2..b868429 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1869,11 +1869,14 @@ Log::Decoder::decompressTo(FILE* outputFd)
                     // New logical start to the logs detected, at this point
                     // we should make sure we've printed all the buffered logs
                     // before continuing to parse the next logical start.
-                    if (!stages[0].empty()) {
-                        mustDepleteAllStages = true;
-                        break;
+                    for (auto &stage : stages) {
+                        if (!stage.empty())
+                            mustDepleteAllStages = true;
                     }
 
+                    if (mustDepleteAllStages)
+                        break;
+
                     // We're safe, all the stages are empty
                     good = readDictionary(inputFd, true);
 
-- 
2.43.0


From 4c50dc98a9cbfe2448a1459c2c3970410e5e51c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:16 +0000
Subject: [PATCH 03/21] fix: keep enough stages buffered in decompressTo to
 sort messages correctly

---
 runtime/Log.cc | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index b868429..3f997b2 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1824,15 +1824,16 @@ Log::Decoder::decompressTo(FILE* outputFd)
         return -1;
 
     // In ordered decompression, we must sort the entries by time which means
-    // we need to buffer in 3 rounds of NanoLog output. We need more than one
+    // we need to buffer in 4 rounds of NanoLog output. We need more than one
     // round of output because the compression is non-quiescent, which means
     // that as we're outputting the nth buffer, new entries may be added to
     // n-1 and n, and the entries in n could logically come /before/ the new
     // entries added to n-1. The reason why we need at least 3 is due to an
     // implementation detail in StagingBuffer whereby one peek() does not
     // return all the data and at least 2 peek()'s are needed to deplete a
-    // buffer.
-    static const uint32_t stagesToBuffer = 3;
+    // buffer. A fourth is needed because the first BufferExtent of a round
+    // is what marks its start and is stored along with the previous round.
+    static const uint32_t stagesToBuffer = 4;
     std::vector<BufferFragment*> stages[stagesToBuffer];
 
     // Running number of stages being kept in stages
@@ -1860,8 +1861,14 @@ Log::Decoder::decompressTo(FILE* outputFd)
                     good = bf->readBufferExtent(inputFd, &newStage);
                     ++numBufferFragmentsRead;
 
-                    if (good)
+                    // The compression repeats the new stage marker after an
+                    // extent that turned out to be empty, so don't count both
+                    if (good && bf->hasNext())
                         stages[stagesBuffered].push_back(bf);
+                    else {
+                        freeBufferFragment(bf);
+                        newStage = false;
+                    }
 
                     break;
                 }
@@ -1917,7 +1924,20 @@ Log::Decoder::decompressTo(FILE* outputFd)
 
         // Step 3: Deplete the first stage
         while (true) {
-            // Step 3a: Find the minimum amongst the stages
+            // Step 3a: Check for exit condition
+            while (stagesBuffered > 0 && stages[0].empty()) {
+                for (uint32_t i = 0; i < stagesBuffered - 1; ++i) {
+                    stages[i] = stages[i+1];
+                }
+                stages[stagesBuffered - 1].clear();
+
+                --stagesBuffered;
+            }
+
+            if (stagesBuffered < stagesToBuffer && !mustDepleteAllStages)
+                break;
+
+            // Step 3b: Find the minimum amongst the stages
             std::vector<BufferFragment*> *minStage = nullptr;
             for (uint32_t i = 0; i < stagesBuffered; ++i) {
                 if (stages[i].empty())
@@ -1936,7 +1956,7 @@ Log::Decoder::decompressTo(FILE* outputFd)
                 break;
             }
 
-            // Step 3b: Output the log message
+            // Step 3c: Output the log message
             BufferFragment *bf = minStage->front();
             bf->decompressNextLogStatement(outputFd, logMsgsPrinted,
                                            logArguments, checkpoint,
@@ -1955,18 +1975,6 @@ Log::Decoder::decompressTo(FILE* outputFd)
                 minStage->pop_back();
                 freeBufferFragment(bf);
             }
-
-            // Step 3c: Check for exit condition
-            if (stages[0].empty()) {
-                for (uint32_t i = 0; i < stagesBuffered - 1; ++i) {
-                    stages[i] = stages[i+1];
-                }
-                stages[stagesBuffered - 1].clear();
-
-                --stagesBuffered;
-                if (!mustDepleteAllStages)
-                    break;
-            }
         }
     }
 
-- 
2.43.0


From 41820c15e1ea375e144d2e71e63fba62dc4cab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:16 +0000
Subject: [PATCH 04/21] fix: print the messages read before a truncated entry
 in decompressTo

---
 runtime/Log.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 3f997b2..b8e4f7f 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1903,7 +1903,9 @@ Log::Decoder::decompressTo(FILE* outputFd)
                     break;
             }
 
-            if (feof(inputFd))
+            // Nothing more can be read at the end of the file or after an
+            // error (i.e. truncated file), so print out whatever we have.
+            if (feof(inputFd) || !good)
                 mustDepleteAllStages = true;
 
             // If we reach a logical end to the current stage,
-- 
2.43.0


From 58f446cca979c0249c94eea8df4c66bb7539d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:51 +0000
Subject: [PATCH 05/21] fix: do not end a pass early when a dead thread's
 buffer is deleted

---
 runtime/RuntimeLogger.cc | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 56b7c0f..bb5882d 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -484,13 +484,28 @@ RuntimeLogger::compressionThreadMain() {
                             break;
                         }
 
-                        // Back up the indexes so that we ensure we wont skip
-                        // a buffer in our pass (and it's okay to redo one)
-                        if (lastStagingBufferChecked >= i &&
-                            lastStagingBufferChecked > 0) {
+                        // Adjust the indexes so that we ensure we wont skip
+                        // a buffer in our pass. The next buffer to check has
+                        // moved to i, and if we deleted the buffer that the
+                        // pass started with, the pass now starts with it.
+                        bool restartPass = (i == lastStagingBufferChecked);
+                        if (i < lastStagingBufferChecked)
                             --lastStagingBufferChecked;
+
+                        if (i == threadBuffers.size()) {
+                            i = 0;
+                            wrapAround = true;
+                        }
+
+                        if (restartPass) {
+                            lastStagingBufferChecked = i;
+                            continue;
                         }
-                        --i;
+
+                        if (i == lastStagingBufferChecked)
+                            break;
+
+                        continue;
                     }
                 }
 
-- 
2.43.0


From b1d09149ce7e9e5555fd01e893d860355fa9b148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:36 +0000
Subject: [PATCH 06/21] fix: do not return from sync() on a spurious wakeup

---
 runtime/RuntimeLogger.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index bb5882d..2697f63 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -740,7 +740,10 @@ RuntimeLogger::sync() {
     std::unique_lock<std::mutex> lock(nanoLogSingleton.condMutex);
     nanoLogSingleton.syncStatus = SYNC_REQUESTED;
     nanoLogSingleton.workAdded.notify_all();
-    nanoLogSingleton.hintSyncCompleted.wait(lock);
+
+    // Condition variables may wake up spuriously
+    while (nanoLogSingleton.syncStatus != SYNC_COMPLETED)
+        nanoLogSingleton.hintSyncCompleted.wait(lock);
 }
 
 /**
-- 
2.43.0


From d9f2b0aee21afcfce28cc2d7f3046de863636a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:22 +0000
Subject: [PATCH 07/21] fix: do not mark a new pass when the output buffer
 fills up on the last buffer

---
 runtime/RuntimeLogger.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 2697f63..2c29b3a 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -471,6 +471,10 @@ RuntimeLogger::compressionThreadMain() {
                     }
                     cyclesCompressing += PerfUtils::Cycles::rdtsc() - start;
                     lock.lock();
+
+                    // We're not done with this buffer
+                    if (outputBufferFull)
+                        break;
                 } else {
                     // If there's no work, check if we're supposed to delete
                     // the stagingBuffer
-- 
2.43.0


From 1f0c6de78e76e89b5f90a6ec47ed389f850e5f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:17 +0000
Subject: [PATCH 08/21] fix: keep waiting for the AIO when aio_suspend is
 interrupted by a signal

---
 runtime/RuntimeLogger.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 2c29b3a..b11433a 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -562,7 +562,7 @@ RuntimeLogger::compressionThreadMain() {
                     cyclesActive += PerfUtils::Cycles::rdtsc() - cyclesAwakeStart;
                     int err = aio_suspend(aiocb_list, 1, NULL);
                     cyclesAwakeStart = PerfUtils::Cycles::rdtsc();
-                    if (err != 0)
+                    if (err != 0 && errno != EINTR)
                         perror("LogCompressor's Posix AIO "
                                        "suspend operation failed");
                 } else {
@@ -577,10 +577,11 @@ RuntimeLogger::compressionThreadMain() {
                                 NanoLogConfig::POLL_INTERVAL_DURING_IO_US));
                         cyclesAwakeStart = PerfUtils::Cycles::rdtsc();
                     }
-
-                    if (aio_error(&aioCb) == EINPROGRESS)
-                        continue;
                 }
+
+                // Either we didn't wait or the wait was interrupted
+                if (aio_error(&aioCb) == EINPROGRESS)
+                    continue;
             }
 
             // Finishing up the IO
-- 
2.43.0


From 6643c5ac75b08f58405f9a1d4d4594471b10c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:46 +0000
Subject: [PATCH 09/21] fix: write out the rest of a short or rejected AIO
 write

---
 runtime/RuntimeLogger.cc | 45 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index b11433a..35b8fc1 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -346,6 +346,35 @@ RuntimeLogger::waitForAIO() {
     }
 }
 
+/**
+* Internal helper function that synchronously writes out the data that an AIO
+* operation was not able to write.
+*
+* \param fd
+*      File descriptor to write to
+* \param data
+*      Data to write
+* \param nbytes
+*      Number of bytes to write
+*/
+static void
+writeSynchronously(int fd, const volatile void *data, size_t nbytes) {
+    const char *pos = static_cast<const char*>(const_cast<const void*>(data));
+    while (nbytes > 0) {
+        ssize_t written = write(fd, pos, nbytes);
+        if (written < 0 && errno == EINTR)
+            continue;
+
+        if (written <= 0) {
+            perror("LogCompressor's write operation failed");
+            return;
+        }
+
+        pos += written;
+        nbytes -= static_cast<size_t>(written);
+    }
+}
+
 /**
 * Main compression thread that handles scanning through the StagingBuffers,
 * compressing log entries, and outputting a compressed log file.
@@ -593,6 +622,11 @@ RuntimeLogger::compressionThreadMain() {
                         " with %d: %s\r\n", err, strerror(err));
             } else if (ret < 0) {
                 perror("LogCompressor's Posix AIO Write failed");
+            } else if (static_cast<size_t>(ret) < aioCb.aio_nbytes) {
+                // Short write
+                writeSynchronously(aioCb.aio_fildes,
+                        static_cast<volatile char*>(aioCb.aio_buf) + ret,
+                        aioCb.aio_nbytes - static_cast<size_t>(ret));
             }
             ++numAioWritesCompleted;
             hasOutstandingOperation = false;
@@ -632,10 +666,13 @@ RuntimeLogger::compressionThreadMain() {
         totalBytesWritten += bytesToWrite;
 
         cyclesAtLastAIOStart = PerfUtils::Cycles::rdtsc();
-        if (aio_write(&aioCb) == -1)
-            fprintf(stderr, "Error at aio_write(): %s\n", strerror(errno));
-
-        hasOutstandingOperation = true;
+        if (aio_write(&aioCb) == -1) {
+            // The operation could not be queued (i.e. EAGAIN)
+            writeSynchronously(outputFd, compressingBuffer, bytesToWrite);
+            ++numAioWritesCompleted;
+        } else {
+            hasOutstandingOperation = true;
+        }
 
         // Swap buffers
         encoder.swapBuffer(outputDoubleBuffer,
-- 
2.43.0


From 3ecd9b0ef2e0eed9a3a54ea258993117c1751b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:21 +0000
Subject: [PATCH 10/21] fix: leave no half-registered log site or staging
 buffer behind when an allocation fails

---
 runtime/RuntimeLogger.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/runtime/RuntimeLogger.h b/runtime/RuntimeLogger.h
index 03ba2b9..ee0685a 100644
--- a/runtime/RuntimeLogger.h
+++ b/runtime/RuntimeLogger.h
@@ -20,6 +20,7 @@
 #include <cassert>
 
 #include <condition_variable>
+#include <memory>
 #include <mutex>
 #include <string>
 #include <thread>
@@ -57,8 +58,11 @@ using namespace NanoLog;
             if (logId != UNASSIGNED_LOGID)
                 return;
 
-            logId = static_cast<int32_t>(invocationSites.size());
+            // Only assign the logId after the site is stored, as push_back()
+            // may throw and other threads use the logId without locking.
+            int32_t newLogId = static_cast<int32_t>(invocationSites.size());
             invocationSites.push_back(info);
+            logId = newLogId;
 
 #ifdef ENABLE_DEBUG_PRINTING
             printf("Registered '%s' as id=%d\r\n", info.formatString, logId);
@@ -177,10 +181,14 @@ using namespace NanoLog;
 
                 // Unlocked for the expensive StagingBuffer allocation
                 guard.unlock();
-                stagingBuffer = new StagingBuffer(bufferId);
+                std::unique_ptr<StagingBuffer> buffer(
+                        new StagingBuffer(bufferId));
                 guard.lock();
 
-                threadBuffers.push_back(stagingBuffer);
+                // Only use the buffer once the compression thread knows it,
+                // as push_back() may throw.
+                threadBuffers.push_back(buffer.get());
+                stagingBuffer = buffer.release();
             }
         }
 
-- 
2.43.0


From 79b9100977c956b2b94a2d2d1bb550e3ad02d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:45 +0000
Subject: [PATCH 11/21] fix: pad the end of the output rather than overwriting
 its start with O_DIRECT

---
 runtime/RuntimeLogger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 35b8fc1..d610c46 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -654,7 +654,7 @@ RuntimeLogger::compressionThreadMain() {
             ssize_t bytesOver = bytesToWrite % 512;
 
             if (bytesOver != 0) {
-                memset(compressingBuffer, 0, 512 - bytesOver);
+                memset(compressingBuffer + bytesToWrite, 0, 512 - bytesOver);
                 bytesToWrite = bytesToWrite + 512 - bytesOver;
                 padBytesWritten += (512 - bytesOver);
             }
-- 
2.43.0


From 5de5a0786933544b291a4f95a3fa82e61bdfecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:56 +0000
Subject: [PATCH 12/21] fix: forget about the previous file when a Decoder
 opens another one

---
 runtime/Log.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index b8e4f7f..ce64de9 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1114,6 +1114,11 @@ Log::Decoder::readDictionaryFragment(FILE *fd) {
  */
 bool
 Log::Decoder::open(const char *filename) {
+    // Forget about a previously opened, perhaps only partially read file
+    if (inputFd)
+        fclose(inputFd);
+    bufferFragment->reset();
+
     inputFd = fopen(filename, "rb");
     good = false;
 
-- 
2.43.0


From eadf48874ba923eadd9dddc65dd51d5dc27cf3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:06 +0000
Subject: [PATCH 13/21] fix: stop decoding after a read error instead of
 looping forever

---
 runtime/Log.cc | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index ce64de9..7380d00 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1008,6 +1008,18 @@ Log::Decoder::createMicroCode(char **microCode,
     return true;
 }
 
+/**
+ * Returns true when no more data can be read from a file, i.e. at the end of
+ * the file or after a read error.
+ *
+ * \param fd
+ *      File to check
+ */
+static inline bool
+endOfInput(FILE *fd) {
+    return feof(fd) || ferror(fd);
+}
+
 /**
  * Reads a partial dictionary from the log file and adds it to the global
  * mapping of log identifiers to static log information.
@@ -1038,7 +1050,7 @@ Log::Decoder::readDictionaryFragment(FILE *fd) {
 
     assert(df.entryType == EntryType::LOG_MSGS_OR_DIC);
 
-    while (bytesRead < df.newMetadataBytes && !feof(fd)) {
+    while (bytesRead < df.newMetadataBytes && !endOfInput(fd)) {
         CompressedLogInfo cli;
         size_t newBytesRead = 0;
         newBytesRead += fread(&cli, 1, sizeof(CompressedLogInfo), fd);
@@ -1740,7 +1752,7 @@ Log::Decoder::internalDecompressUnordered(FILE* outputFd,
 
     LogMessage logArguments;
     BufferFragment *bf = allocateBufferFragment();
-    while(!feof(inputFd) && good) {
+    while(!endOfInput(inputFd) && good) {
         bool wrapAround = false;
 
         EntryType entry = peekEntryType(inputFd);
@@ -1777,7 +1789,7 @@ Log::Decoder::internalDecompressUnordered(FILE* outputFd,
                 break;
             case EntryType::INVALID:
                 // Consume whitespace
-                while (!feof(inputFd) && peekEntryType(inputFd) == INVALID)
+                while (!endOfInput(inputFd) && peekEntryType(inputFd) == INVALID)
                     fgetc(inputFd);
                 break;
         }
@@ -1851,11 +1863,11 @@ Log::Decoder::decompressTo(FILE* outputFd)
     bool mustDepleteAllStages = false;
 
     LogMessage logArguments;
-    while (!feof(inputFd) && good) {
+    while (!endOfInput(inputFd) && good) {
 
         // Step 1: Read in up to a certain number of "stages" of BufferFragments
         mustDepleteAllStages = false;
-        while (!feof(inputFd) && good && !mustDepleteAllStages) {
+        while (!endOfInput(inputFd) && good && !mustDepleteAllStages) {
             EntryType entry = peekEntryType(inputFd);
             bool newStage = false;
 
@@ -1903,14 +1915,14 @@ Log::Decoder::decompressTo(FILE* outputFd)
 
                 case EntryType::INVALID:
                     // Consume padding
-                    while (!feof(inputFd) && peekEntryType(inputFd) == INVALID)
+                    while (!endOfInput(inputFd) && peekEntryType(inputFd) == INVALID)
                         fgetc(inputFd);
                     break;
             }
 
             // Nothing more can be read at the end of the file or after an
             // error (i.e. truncated file), so print out whatever we have.
-            if (feof(inputFd) || !good)
+            if (endOfInput(inputFd) || !good)
                 mustDepleteAllStages = true;
 
             // If we reach a logical end to the current stage,
@@ -2027,10 +2039,10 @@ Log::Decoder::getNextLogStatement(LogMessage &logMsg,
         return false;
 
     // We've read the end of the file or an error
-    if (feof(inputFd) || !good)
+    if (endOfInput(inputFd) || !good)
         return false;
 
-    while(!bufferFragment->hasNext() && !feof(inputFd) && good) {
+    while(!bufferFragment->hasNext() && !endOfInput(inputFd) && good) {
         EntryType entry = peekEntryType(inputFd);
         bool wrapAround;
 
@@ -2063,7 +2075,7 @@ Log::Decoder::getNextLogStatement(LogMessage &logMsg,
 
             case EntryType::INVALID:
                 // Consume padding
-                while (!feof(inputFd) && peekEntryType(inputFd) == INVALID)
+                while (!endOfInput(inputFd) && peekEntryType(inputFd) == INVALID)
                     fgetc(inputFd);
                 break;
         }
-- 
2.43.0


From 66b8d936ef0126ba4bef7baa1969922201331669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:56 +0000
Subject: [PATCH 14/21] fix: read the dictionary of the next execution to where
 it is parsed from

---
 runtime/Log.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 7380d00..1ea0e65 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -681,6 +681,12 @@ Log::Decoder::readDictionary(FILE *fd, bool flushOldDictionary) {
         return false;
     }
 
+    if (flushOldDictionary) {
+        endOfRawMetadata = rawMetadata;
+        fmtId2metadata.clear();
+        fmtId2fmtString.clear();
+    }
+
     size_t bytesRead = fread(endOfRawMetadata, 1, checkpoint.newMetadataBytes,
                              fd);
     if (bytesRead != checkpoint.newMetadataBytes) {
@@ -688,12 +694,6 @@ Log::Decoder::readDictionary(FILE *fd, bool flushOldDictionary) {
         return false;
     }
 
-    if (flushOldDictionary) {
-        endOfRawMetadata = rawMetadata;
-        fmtId2metadata.clear();
-        fmtId2fmtString.clear();
-    }
-
     // Build an index of format id to metadata
     const char *start = endOfRawMetadata;
     const char *newEnd = endOfRawMetadata + bytesRead;
-- 
2.43.0


From ac73c96c0db15b3e10f83dce2fc9f412102ef319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:04 +0000
Subject: [PATCH 15/21] fix: honor negative dynamic widths and precisions when
 decoding

printf allows the value of a '*' width or precision to be negative. The
decoder took negative values for absent ones and then passed too few
arguments to printf, which printed garbage and possibly gigabytes of padding.
---
 runtime/Log.cc | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 1ea0e65..c070757 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1283,6 +1283,15 @@ Log::Decoder::BufferFragment::readBufferExtent(FILE *fd, bool *wrapAround) {
     return hasMoreLogs;
 }
 
+/**
+ * A width or precision that was passed as an argument to the log statement
+ * (i.e. the '*' in "%*.*lf"). The value has no meaning unless it exists.
+ */
+struct DynamicParam {
+    bool exists;
+    int value;
+};
+
 /**
  * Helper to decompressNextLogStatement to print a single PrintFragment
  * given an argument and optional width/precision specifiers.
@@ -1296,9 +1305,11 @@ Log::Decoder::BufferFragment::readBufferExtent(FILE *fd, bool *wrapAround) {
  * \param arg
  *      Argument to pass in with the format string
  * \param width
- *      Width parameter of a printf-specifier, a value of -1 specifies none
+ *      Dynamic width parameter of the printf-specifier, if it has one. Note
+ *      that printf allows the value to be negative.
  * \param precision
- *      precision parameter of a printf-specifier, a value of -1 specifies none
+ *      Dynamic precision parameter of the printf-specifier, if it has one. Note
+ *      that printf allows the value to be negative.
  */
 template<typename T>
 static inline void
@@ -1306,8 +1317,8 @@ printSingleArg(FILE *outputFd,
                NanoLogInternal::Log::LogMessage &logArguments,
                const char* formatString,
                T arg,
-               int width = -1,
-               int precision = -1)
+               DynamicParam width,
+               DynamicParam precision)
 {
     logArguments.push(arg);
 
@@ -1318,14 +1329,14 @@ printSingleArg(FILE *outputFd,
 #pragma GCC diagnostic ignored "-Wformat-security"
 #pragma GCC diagnostic ignored "-Wformat-nonliteral"
 
-    if (width < 0 && precision < 0) {
+    if (!width.exists && !precision.exists) {
         fprintf(outputFd, formatString, arg);
-    } else if (width >= 0 && precision < 0)
-        fprintf(outputFd, formatString, width, arg);
-    else if (width >= 0 && precision >= 0)
-        fprintf(outputFd, formatString, width, precision, arg);
+    } else if (width.exists && !precision.exists)
+        fprintf(outputFd, formatString, width.value, arg);
+    else if (width.exists && precision.exists)
+        fprintf(outputFd, formatString, width.value, precision.value, arg);
     else
-        fprintf(outputFd, formatString, precision, arg);
+        fprintf(outputFd, formatString, precision.value, arg);
 
 #pragma GCC diagnostic pop
 }
@@ -1483,13 +1494,13 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
         for (int i = 0; i < metadata->numPrintFragments; ++i) {
             const std::wstring *wstrArg;
 
-            int width = -1;
+            DynamicParam width = {false, 0};
             if (pf->hasDynamicWidth)
-                width = nb.getNext<int>();
+                width = {true, nb.getNext<int>()};
 
-            int precision = -1;
+            DynamicParam precision = {false, 0};
             if (pf->hasDynamicPrecision)
-                precision = nb.getNext<int>();
+                precision = {true, nb.getNext<int>()};
 
             switch(pf->argType) {
                 case NONE:
-- 
2.43.0


From 9f0cc1db9919936c5e6f10bf36f7b9e0bc962b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:17 +0000
Subject: [PATCH 16/21] fix: carry rounded up nanoseconds over to the seconds
 of a timestamp

A timestamp within half a nanosecond of the next full second was printed with
a fraction of 1000000000.
---
 runtime/Log.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index c070757..6b95fd7 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -14,6 +14,7 @@
  */
 
 #include <algorithm>
+#include <cmath>
 
 #include <bits/algorithmfwd.h>
 #include <regex>
@@ -1419,6 +1420,14 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
             nanos += 1.0e9;
         }
 
+        // The nanoseconds are printed without a fraction; make sure that they
+        // don't round up to a full second.
+        nanos = std::rint(nanos);
+        if (nanos >= 1.0e9) {
+            wholeSeconds++;
+            nanos -= 1.0e9;
+        }
+
         std::time_t absTime = wholeSeconds + checkpoint.unixTime;
         std::tm *tm = localtime(&absTime);
         strftime(timeString, sizeof(timeString), "%Y-%m-%d %H:%M:%S", tm);
-- 
2.43.0


From 2e8c710f5b3b92f78e8c35550157e4bf9086ec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:47 +0000
Subject: [PATCH 17/21] fix: decode a precision without digits

"%.f" is the same as "%.0f". The logging side accepts it, but the decoder
did not recognize the specifier, so that it misread the arguments of the
message and lost all following messages of the buffer extent.
---
 runtime/Log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 6b95fd7..5614630 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -878,7 +878,7 @@ Log::Decoder::createMicroCode(char **microCode,
     std::regex regex("^%"
                      "([-+ #0]+)?" // Flags (Position 1)
                      "([\\d]+|\\*)?" // Width (Position 2)
-                     "(\\.(\\d+|\\*))?"// Precision (Position 4; 3 includes '.')
+                     "(\\.(\\d*|\\*))?"// Precision (Position 4; 3 includes '.')
                      "(hh|h|l|ll|j|z|Z|t|L)?" // Length (Position 5)
                      "([diuoxXfFeEgGaAcspn])"// Specifier (Position 6)
                      );
-- 
2.43.0


From 6e9c162629b8afec76b230250988990090685f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:47 +0000
Subject: [PATCH 18/21] fix: decode specifiers that follow a backslash

The format string in the dictionary is the one the compiler produced, i.e. it
no longer contains escape sequences and a backslash is an ordinary character.
Skipping the character after it made the decoder overlook the specifier in
"\\%d", misread the arguments and then crash on the following messages.
---
 runtime/Log.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 5614630..fbff345 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -897,12 +897,6 @@ Log::Decoder::createMicroCode(char **microCode,
     while (i < formatStringLength) {
         char c = formatString[i];
 
-        // Skip the next character if there's an escape
-        if (c == '\\') {
-            i += 2;
-            continue;
-        }
-
         if (c != '%') {
             ++i;
             consecutivePercents = 0;
-- 
2.43.0


From a39b215165aff82a9c5c38f93a6022b6cba0f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:40 +0000
Subject: [PATCH 19/21] fix: do not read a string argument beyond its precision

---
 runtime/NanoLogCpp17.h | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/runtime/NanoLogCpp17.h b/runtime/NanoLogCpp17.h
index ffb063e..01266b6 100644
--- a/runtime/NanoLogCpp17.h
+++ b/runtime/NanoLogCpp17.h
@@ -609,20 +609,22 @@ getArgSize(const ParamType fmtType,
     if (fmtType <= ParamType::NON_STRING)
         return sizeof(void*);
 
-    stringBytes = strlen(str);
     uint32_t fmtLength = static_cast<uint32_t>(fmtType);
 
     // Strings with static length specifiers (ex %.10s), have non-negative
     // ParamTypes equal to the static length. Thus, we use that value to
-    // truncate the string as necessary.
-    if (fmtType >= ParamType::STRING && stringBytes > fmtLength)
-        stringBytes = fmtLength;
+    // truncate the string as necessary. Note that like with printf, a string
+    // with a precision does not have to be null-terminated.
+    if (fmtType >= ParamType::STRING)
+        stringBytes = strnlen(str, fmtLength);
 
     // If the string had a dynamic precision specified (i.e. %.*s), use
     // the previous parameter as the precision and truncate as necessary.
-    else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION &&
-                stringBytes > previousPrecision)
-        stringBytes = previousPrecision;
+    else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION)
+        stringBytes = strnlen(str, previousPrecision);
+
+    else
+        stringBytes = strlen(str);
 
     return stringBytes + sizeof(uint32_t);
 }
@@ -639,20 +641,22 @@ getArgSize(const ParamType fmtType,
     if (fmtType <= ParamType::NON_STRING)
         return sizeof(void*);
 
-    stringBytes = wcslen(wstr);
     uint32_t fmtLength = static_cast<uint32_t>(fmtType);
 
     // Strings with static length specifiers (ex %.10s), have non-negative
     // ParamTypes equal to the static length. Thus, we use that value to
-    // truncate the string as necessary.
-    if (fmtType >= ParamType::STRING && stringBytes > fmtLength)
-        stringBytes = fmtLength;
+    // truncate the string as necessary. Note that like with printf, a string
+    // with a precision does not have to be null-terminated.
+    if (fmtType >= ParamType::STRING)
+        stringBytes = wcsnlen(wstr, fmtLength);
 
     // If the string had a dynamic precision specified (i.e. %.*s), use
     // the previous parameter as the precision and truncate as necessary.
-    else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION &&
-             stringBytes > previousPrecision)
-        stringBytes = previousPrecision;
+    else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION)
+        stringBytes = wcsnlen(wstr, previousPrecision);
+
+    else
+        stringBytes = wcslen(wstr);
 
     stringBytes *= sizeof(wchar_t);
     return stringBytes + sizeof(uint32_t);
-- 
2.43.0


From 551897c731ba17b1b7d420909560f371c043db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:24 +0000
Subject: [PATCH 20/21] fix: record strings with a precision correctly in
 preprocessed programs

---
 preprocessor/FunctionGenerator.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 45e8892..96eb0b5 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -396,6 +396,8 @@ size_t numLogIds = {count};
 
         # Create more usable strings for each list
         strlenDeclarations = []
+        # Strings with a precision don't have to be null-terminated
+        unterminatedArgsIdx = set()
         argNum = 0
         for fmtSpecifier in fmtSpecifiers:
             precision = fmtSpecifier.precision
@@ -410,21 +412,24 @@ size_t numLogIds = {count};
                 argNum += 1
                 continue
 
+            if precision is not None:
+                unterminatedArgsIdx.add(argNum)
+
             strlenToAdd = "size_t str{0}Len = ".format(argNum)
 
             # The +1's below are for the NULL character
             if isWideString(fmtSpecifier.type):
-                if not precision:
+                if precision is None:
                     strlenToAdd += "(1 + wcslen(arg{0}))*sizeof(wchar_t);"\
                                         .format(argNum)
                 elif precision == '*':
-                    strlenToAdd += "(1 + wcsnlen_s(arg{0}, arg{1}))*sizeof(wchar_t);"\
+                    strlenToAdd += "(1 + wcsnlen(arg{0}, arg{1}))*sizeof(wchar_t);"\
                                         .format(argNum,argNum - 1)
                 else:
-                    strlenToAdd += "(1 + wcsnlen_s(arg{0}, {1}))*sizeof(wchar_t);"\
+                    strlenToAdd += "(1 + wcsnlen(arg{0}, {1}))*sizeof(wchar_t);"\
                                         .format(argNum, precision)
             else:
-                if not precision:
+                if precision is None:
                     strlenToAdd += "1 + strlen(arg{0});".format(argNum)
                 elif precision == '*':
                     strlenToAdd += "1 + strnlen(arg{0}, arg{1});".format(argNum,
@@ -451,10 +456,13 @@ size_t numLogIds = {count};
         recordNonStringArgsCode = "".join(["\t%s(buffer, arg%d);\n" % \
                 (RECORD_PRIMITIVE_FN, idx) for idx in nonStringArgsIdx])
 
-        recordStringsArgsCode = ["memcpy(buffer, arg{0}, str{0}Len); "
+        recordStringsArgsCode = ["memcpy(buffer, arg{0}, str{0}Len{1}); "
                "buffer += str{0}Len;"
                "*(reinterpret_cast<std::remove_const<typename std::remove_pointer<decltype(arg{0})>::type>::type*>(buffer) - 1) = L'\\0';".format(
-                                               idx) for idx in stringArgsIdx]
+                               idx,
+                               " - sizeof(*arg%d)" % idx
+                                       if idx in unterminatedArgsIdx else ""
+                               ) for idx in stringArgsIdx]
 
         # Start Generating the record code
         recordCode = \
-- 
2.43.0


From d856404b91797f0387d1209d96360e83617eb086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:03 +0000
Subject: [PATCH 21/21] fix: print only complete time trace events

The count of active readers was never incremented (fetch_and(1) on a zero
stays zero), so record() did not stop for a reader, and an event became visible
before it was filled in. getTrace() and print() in one thread could therefore
show mixtures of old and new events, out of order, or overwrite their own
starting point while other threads recorded. Also do not crash if the output
file cannot be opened.
---
 runtime/TimeTrace.cc | 43 ++++++++++++++++++++++++++++++-------------
 runtime/TimeTrace.h  |  2 +-
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/runtime/TimeTrace.cc b/runtime/TimeTrace.cc
index 4e8fa97..cc4ea29 100644
--- a/runtime/TimeTrace.cc
+++ b/runtime/TimeTrace.cc
@@ -129,8 +129,8 @@ void TimeTrace::Buffer::record(uint64_t timestamp, const char* format,
         return;
     }
 
-    Event* event = &events[nextIndex];
-    nextIndex = (nextIndex + 1) & BUFFER_MASK;
+    int index = nextIndex.load(std::memory_order_relaxed);
+    Event* event = &events[index];
 
     // There used to be code here for prefetching the next few events,
     // in order to minimize cache misses on the array of events. However,
@@ -144,6 +144,9 @@ void TimeTrace::Buffer::record(uint64_t timestamp, const char* format,
     event->arg1 = arg1;
     event->arg2 = arg2;
     event->arg3 = arg3;
+
+    // Make the event visible to readers only now that it is complete.
+    nextIndex.store((index + 1) & BUFFER_MASK, std::memory_order_release);
 }
 
 /**
@@ -214,25 +217,38 @@ void
 TimeTrace::printInternal(std::vector<TimeTrace::Buffer*>* buffers, string* s)
 {
     bool printedAnything = false;
-    for (uint32_t i = 0; i < buffers->size(); i++) {
-        buffers->at(i)->activeReaders.fetch_and(1);
-    }
 
     // Initialize file for writing
     FILE* output = NULL;
-    if (s == NULL)
+    if (s == NULL) {
         output = filename ? fopen(filename, "a") : stdout;
+        if (output == NULL) {
+            perror("Could not open the time trace output file");
+            return;
+        }
+    }
+
+    for (uint32_t i = 0; i < buffers->size(); i++) {
+        buffers->at(i)->activeReaders.fetch_add(1);
+    }
 
     // Holds the index of the next event to consider from each trace.
     std::vector<int> current;
 
+    // Holds the value of nextIndex for each trace at the start of the
+    // printout. A record call that began before activeReaders was incremented
+    // can still be filling in this event (and no other) and advance nextIndex,
+    // so events at or beyond this index must not be looked at.
+    std::vector<int> end;
+
     // Find the first (oldest) event in each trace. This will be events[0]
     // if we never completely filled the buffer, otherwise events[nextIndex+1].
     // This means we don't print the entry at nextIndex; this is convenient
     // because it simplifies boundary conditions in the code below.
     for (uint32_t i = 0; i < buffers->size(); i++) {
         TimeTrace::Buffer* buffer = buffers->at(i);
-        int index = (buffer->nextIndex + 1) % Buffer::BUFFER_SIZE;
+        end.push_back(buffer->nextIndex.load(std::memory_order_acquire));
+        int index = (end[i] + 1) % Buffer::BUFFER_SIZE;
         if (buffer->events[index].format != NULL) {
             current.push_back(index);
         } else {
@@ -250,7 +266,8 @@ TimeTrace::printInternal(std::vector<TimeTrace::Buffer*>* buffers, string* s)
     uint64_t startTime = 0;
     for (uint32_t i = 0; i < buffers->size(); i++) {
         Event* event = &buffers->at(i)->events[current[i]];
-        if ((event->format != NULL) && (event->timestamp > startTime)) {
+        if ((current[i] != end[i]) && (event->format != NULL)
+                && (event->timestamp > startTime)) {
             startTime = event->timestamp;
         }
     }
@@ -258,9 +275,9 @@ TimeTrace::printInternal(std::vector<TimeTrace::Buffer*>* buffers, string* s)
     // Skip all events before the starting time.
     for (uint32_t i = 0; i < buffers->size(); i++) {
         TimeTrace::Buffer* buffer = buffers->at(i);
-        while ((buffer->events[current[i]].format != NULL) &&
-                (buffer->events[current[i]].timestamp < startTime) &&
-                (current[i] != buffer->nextIndex)) {
+        while ((current[i] != end[i]) &&
+                (buffer->events[current[i]].format != NULL) &&
+                (buffer->events[current[i]].timestamp < startTime)) {
             current[i] = (current[i] + 1) % Buffer::BUFFER_SIZE;
         }
     }
@@ -278,7 +295,7 @@ TimeTrace::printInternal(std::vector<TimeTrace::Buffer*>* buffers, string* s)
         for (uint32_t i = 0; i < buffers->size(); i++) {
             buffer = buffers->at(i);
             event = &buffer->events[current[i]];
-            if ((current[i] != buffer->nextIndex) && (event->format != NULL)
+            if ((current[i] != end[i]) && (event->format != NULL)
                     && (event->timestamp < earliestTime)) {
                 currentBuffer = static_cast<int>(i);
                 earliestTime = event->timestamp;
@@ -331,7 +348,7 @@ TimeTrace::printInternal(std::vector<TimeTrace::Buffer*>* buffers, string* s)
     }
 
     for (uint32_t i = 0; i < buffers->size(); i++) {
-        buffers->at(i)->activeReaders.fetch_and(-1);
+        buffers->at(i)->activeReaders.fetch_sub(1);
     }
     if (output && output != stdout)
         fclose(output);
diff --git a/runtime/TimeTrace.h b/runtime/TimeTrace.h
index 42d9409..bc75c06 100644
--- a/runtime/TimeTrace.h
+++ b/runtime/TimeTrace.h
@@ -164,7 +164,7 @@ class TimeTrace {
 
         // Index within events of the slot to use for the next call to the
         // record method.
-        int nextIndex;
+        std::atomic<int> nextIndex;
 
         // Count of number of calls to printInternal that are currently active
         // for this buffer; if nonzero, then it isn't safe to log new
-- 
2.43.0

