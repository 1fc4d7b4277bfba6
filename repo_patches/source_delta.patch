From 2f6916cf0e19ea2cabcc4501b967d094736e71b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:18 +0000
Subject: [PATCH 01/37] fix: don't deadlock when a completion callback waits
 for a frame

Worker threads waiting for their turn to run a completion callback were
counted as active. If the callback being run called getFrame() and all
other threads were in that state nobody was left to produce the frame.
---
 src/core/vscore.h         |  3 +++
 src/core/vsthreadpool.cpp | 41 ++++++++++++++++++++++++++++-----------
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/core/vscore.h b/src/core/vscore.h
index f006060..ac70cfd 100644
--- a/src/core/vscore.h
+++ b/src/core/vscore.h
@@ -1022,6 +1022,8 @@ private:
     std::condition_variable allIdle;
     size_t activeThreads;
     size_t idleThreads;
+    size_t callbackWaiters; // threads waiting for another thread's callback to return
+    size_t blockingRequests; // getFrame() calls in progress on threads belonging to the pool
     size_t reqCounter;
     size_t maxThreads;
 
@@ -1041,6 +1043,7 @@ private:
     void wakeThread();
     void startInternalRequest(const PVSFrameContext &notify, NodeOutputKey key);
     void spawnThread();
+    size_t runningThreads() const;
     static void runTasksWrapper(VSThreadPool *owner, bool &stop);
     void runTasks(bool &stop);
     static bool taskCmp(const PVSFrameContext &a, const PVSFrameContext &b);
diff --git a/src/core/vsthreadpool.cpp b/src/core/vsthreadpool.cpp
index b648e8c..9392133 100644
--- a/src/core/vsthreadpool.cpp
+++ b/src/core/vsthreadpool.cpp
@@ -344,7 +344,7 @@ void VSThreadPool::runTasks(bool &stop) {
             break;
         }
 
-        if (!ranTask || (activeThreads > maxThreads) || (core->memory->is_over_limit() && activeThreads > 1)) {
+        if (!ranTask || (runningThreads() > maxThreads) || (core->memory->is_over_limit() && runningThreads() > 1)) {
             --activeThreads;
             if (stop) {
                 lock.unlock();
@@ -376,7 +376,7 @@ void VSThreadPool::runTasks(bool &stop) {
                 // Wait predicates don't work since they're the equivalent of a wrapping while loop
                 do {
                     newWork.wait(lock);
-                } while (activeThreads >= maxThreads && !stop);
+                } while (runningThreads() >= maxThreads && !stop);
                 --idleThreads;
                 ++activeThreads;
             }
@@ -384,10 +384,17 @@ void VSThreadPool::runTasks(bool &stop) {
     }
 }
 
-VSThreadPool::VSThreadPool(VSCore *core) : core(core), activeThreads(0), idleThreads(0), reqCounter(0), overLimitSince(0), lastCacheSweep(0), completedExternalFrames(0), inflightAllocation(0), processingThreads(0), cacheSweepActive(false), stopThreads(false), flushCaches(false) {
+VSThreadPool::VSThreadPool(VSCore *core) : core(core), activeThreads(0), idleThreads(0), callbackWaiters(0), blockingRequests(0), reqCounter(0), overLimitSince(0), lastCacheSweep(0), completedExternalFrames(0), inflightAllocation(0), processingThreads(0), cacheSweepActive(false), stopThreads(false), flushCaches(false) {
     setThreadCount(0);
 }
 
+// The callback currently being run may be blocked in getFrame() itself, in that case the threads waiting
+// to run their own callbacks can't get any further until that frame has been produced. Don't count them
+// or there may be nobody left who's allowed to produce it.
+size_t VSThreadPool::runningThreads() const {
+    return activeThreads - ((blockingRequests > 0) ? callbackWaiters : 0);
+}
+
 size_t VSThreadPool::threadCount() {
     std::lock_guard<std::mutex> l(taskLock);
     return maxThreads;
@@ -424,7 +431,7 @@ void VSThreadPool::queueTask(const PVSFrameContext &ctx) {
 }
 
 void VSThreadPool::wakeThread() {
-    size_t numActive = activeThreads;
+    size_t numActive = runningThreads();
     if (numActive < maxThreads) {
         if (core->memory->is_over_limit() && numActive > 0) {
             // do nothing
@@ -442,8 +449,10 @@ void VSThreadPool::startExternal(const PVSFrameContext &context) {
     std::lock_guard<std::mutex> l(taskLock);
     context->reqOrder = ++reqCounter;
     context->reserveThread = context->reserveThread && (allThreads.count(std::this_thread::get_id()) > 0);
-    if (context->reserveThread)
+    if (context->reserveThread) {
         --activeThreads;
+        ++blockingRequests;
+    }
     assert(context);
     // A reserveThread request comes from a pool thread that immediately blocks waiting for this exact
     // frame. Parking it in altTasks during a flush would deadlock: the blocked thread never becomes idle,
@@ -465,22 +474,30 @@ void VSThreadPool::returnFrame(VSFrameContext *rCtx, const PVSFrame &f, std::uni
     bool reserveThread = rCtx->reserveThread;
     // we need to unlock here so the callback may request more frames without causing a deadlock
     // AND so that slow callbacks will only block operations in this thread, not all the others
+    bool waitForCallback = outputLock && !callbackLock.try_lock();
+    if (waitForCallback) {
+        ++callbackWaiters;
+        if (blockingRequests > 0 && !tasks.empty())
+            wakeThread();
+    }
     lock.unlock();
 
     // don't hold on to frame references only used for processing while waiting to output
     rCtx->availableFrames.clear();
 
+    if (waitForCallback) {
+        callbackLock.lock();
+        lock.lock();
+        --callbackWaiters;
+        lock.unlock();
+    }
+
     if (rCtx->hasError()) {
-        if (outputLock)
-            callbackLock.lock();
         rCtx->frameDone(rCtx->userData, nullptr, rCtx->key.second, rCtx->key.first, rCtx->errorMessage.c_str());
         if (outputLock)
             callbackLock.unlock();
     } else {
         f->add_ref();
-        if (outputLock)
-            callbackLock.lock();
-
         rCtx->frameDone(rCtx->userData, f.get(), rCtx->key.second, rCtx->key.first, nullptr);
         if (outputLock)
             callbackLock.unlock();
@@ -488,8 +505,10 @@ void VSThreadPool::returnFrame(VSFrameContext *rCtx, const PVSFrame &f, std::uni
     if (core->enableFrameRefDebug)
         core->logMessage(mtInformation, core->getFrameRefInfo());
     lock.lock();
-    if (reserveThread)
+    if (reserveThread) {
         ++activeThreads;
+        --blockingRequests;
+    }
 }
 
 void VSThreadPool::startInternalRequest(const PVSFrameContext &notify, NodeOutputKey key) {
-- 
2.43.0


From 1790a49cee23db799c16fa61cd4d4f5999036f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:46 +0000
Subject: [PATCH 02/37] fix: keep cache registration consistent when several
 threads change it

The new state was read after cacheMutex had been released so the loser of
a race between setCacheMode() and a consumer being added or removed could
leave an enabled cache unregistered. Such a cache was never swept or cleared.
---
 src/core/vscore.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 49a9fbc..5d33adc 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -848,7 +848,8 @@ VSNode::~VSNode() {
 
 void VSNode::registerCache(bool add) {
     std::lock_guard<std::mutex> lock(core->cacheLock);
-    if (add) {
+    // cacheEnabled may have been changed again by another thread since the caller looked at it
+    if (add && cacheEnabled) {
         core->caches.insert(this);
     } else {
         core->caches.erase(this);
@@ -872,7 +873,7 @@ void VSNode::addConsumer(VSNode *consumer, int strictSpatial) {
 
         updateCacheState();
     }
-    registerCache(cacheEnabled);
+    registerCache(true);
 }
 
 void VSNode::removeConsumer(VSNode *consumer, int strictSpatial) {
@@ -887,7 +888,7 @@ void VSNode::removeConsumer(VSNode *consumer, int strictSpatial) {
 
         updateCacheState();
     }
-    registerCache(cacheEnabled);
+    registerCache(true);
 }
 
 
@@ -998,7 +999,7 @@ int VSNode::setLinear() {
         cache.setFixedSize(true);
         cache.setMaxFrames(static_cast<int>(threadCount) * 2 + 20);
     }
-    registerCache(cacheEnabled);
+    registerCache(true);
     return cache.getMaxFrames() / 2;
 }
 
@@ -1032,7 +1033,7 @@ void VSNode::setCacheMode(int mode) {
         if (!cacheEnabled)
             cache.clear();
     }
-    registerCache(cacheEnabled);
+    registerCache(true);
 }
 
 void VSNode::setCacheOptions(int fixedSize, int maxSize, int maxHistorySize) {
-- 
2.43.0


From f83482f061d3130be4c19be9101afac0ac5f0fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:50 +0000
Subject: [PATCH 03/37] fix: lock the output state in vspipe before counting a
 completed frame

The main thread checks the completion counters under the mutex and tears everything down as soon as
all frames are counted, which could happen while the last callback was still writing.
---
 src/vspipe/vspipe.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 5c19fd7..de0b352 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -296,6 +296,9 @@ static std::string doubleToString(double v) {
 static void VS_CC frameDoneCallback(void *userData, const VSFrame *f, int n, VSNode *rnode, const char *errorMsg) {
     VSPipeOutputData *data = reinterpret_cast<VSPipeOutputData *>(userData);
 
+    // The main thread checks the counters under the mutex and takes everything down as soon as they say that all frames are completed
+    std::lock_guard<std::mutex> lock(data->mutex);
+
     bool printToConsole = false;
     bool hasMeaningfulFPS = false;
     double fps = 0;
@@ -430,10 +433,8 @@ static void VS_CC frameDoneCallback(void *userData, const VSFrame *f, int n, VSN
         }
     }
 
-    if (data->totalFrames == data->completedFrames && data->totalFrames == data->completedAlphaFrames) {
-        std::lock_guard<std::mutex> lock(data->mutex);
+    if (data->totalFrames == data->completedFrames && data->totalFrames == data->completedAlphaFrames)
         data->condition.notify_one();
-    }
 }
 
 static std::string floatBitsToLetter(int bits) {
-- 
2.43.0


From 819cfd2433f0e2262fdf7ae37e018686e405c757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:50 +0000
Subject: [PATCH 04/37] fix: don't free the result map twice when trimming
 fails in vspipe

---
 src/vspipe/vspipe.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index de0b352..a380509 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -1200,7 +1200,6 @@ int main(int argc, char **argv) {
 
             if (mapError) {
                 fprintf(stderr, "%s\n", vsapi->mapGetError(mapError));
-                vsapi->freeMap(mapError);
                 vsapi->freeMap(result);
                 vsapi->freeMap(alphaResult);
                 vsapi->freeNode(node);
-- 
2.43.0


From 08f45f534c41a68a741a11a0e943daed8b9c6009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:50 +0000
Subject: [PATCH 05/37] fix: make vspipe fail when buffered output can't be
 written

Errors from flushing and closing the output, timecodes, JSON and filter time files were ignored so lost
output was reported as success.
---
 src/vspipe/vspipe.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index a380509..88de9da 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -77,6 +77,16 @@ static FILE *OpenFile(const std::filesystem::path &Path) {
 #endif
 }
 
+// Output is buffered so a failure to write it may only show up here, returns true if everything was written
+static bool finishFile(FILE *file, bool close, const char *description) {
+    bool success = !fflush(file) && !ferror(file);
+    if (close && fclose(file))
+        success = false;
+    if (!success)
+        fprintf(stderr, "Error: failed to write all data to %s\n", description);
+    return success;
+}
+
 /////////////////////////////////////////////
 
 enum class VSPipeMode {
@@ -1135,7 +1145,7 @@ int main(int argc, char **argv) {
             vsapi->freeNode(mainNode);
         }
         vssapi->freeScript(se);
-        return 0;
+        return (!outFile || finishFile(outFile, closeOutFile, "output")) ? 0 : 1;
     }
 
     VSNode *node = vssapi->getOutputNode(se, opts.outputIndex);
@@ -1284,14 +1294,14 @@ int main(int argc, char **argv) {
         }
     }
 
-    if (outFile && closeOutFile)
-        fclose(outFile);
-    if (timecodesFile)
-        fclose(timecodesFile);
-    if (jsonFile)
-        fclose(jsonFile);
-    if (filterTimeGraphFile)
-        fclose(filterTimeGraphFile);
+    if (outFile && !finishFile(outFile, closeOutFile, "output"))
+        success = false;
+    if (timecodesFile && !finishFile(timecodesFile, true, "timecodes file"))
+        success = false;
+    if (jsonFile && !finishFile(jsonFile, true, "JSON file"))
+        success = false;
+    if (filterTimeGraphFile && !finishFile(filterTimeGraphFile, true, "filter time graph file"))
+        success = false;
 
     vsapi->freeNode(node);
     vsapi->freeNode(alphaNode);
-- 
2.43.0


From 9167a3abf9d7eda3f12f8ab1fd3f0ab25fbcb94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:42 +0000
Subject: [PATCH 06/37] fix: don't crash on a plugin manifest that only has
 line breaks

---
 src/core/vscore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 5d33adc..3b39410 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -1869,7 +1869,7 @@ bool VSCore::loadPluginManifest(const std::filesystem::path &path) {
     std::vector<std::string> lines;
 
     size_t lastPos = contents.find_first_not_of("\r\n", 0);
-    size_t pos = contents.find_first_of("\r\n", lastPos + 1);
+    size_t pos = contents.find_first_of("\r\n", lastPos);
     while (pos != std::string::npos) {
         lines.push_back(contents.substr(lastPos, pos - lastPos));
         lastPos = contents.find_first_not_of("\r\n", pos + 1);
-- 
2.43.0


From b5b630a0ad322715f9d1631f517ee8db6debb014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:42 +0000
Subject: [PATCH 07/37] fix: read the whole plugin manifest and report when it
 can't be read

---
 src/core/vscore.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 3b39410..81a364f 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -1855,13 +1855,15 @@ bool VSCore::loadPluginManifest(const std::filesystem::path &path) {
         return false;
 
     std::string contents;
-    contents.resize(10000);
-    size_t numRead = fread(contents.data(), 1, contents.size(), f);
-    contents.resize(numRead);
+    char buffer[4096];
+    size_t numRead;
+    while ((numRead = fread(buffer, 1, sizeof(buffer), f)) > 0)
+        contents.append(buffer, numRead);
+    bool readError = !!ferror(f);
 
     fclose(f);
 
-    if (contents.empty()) {
+    if (contents.empty() || readError) {
         logMessage(mtCritical, ("Couldn't read contents of manifest file: " + manifestPath.u8string()).c_str());
         return true;
     }
-- 
2.43.0


From d3f16ad297b8e89ac0c6e02048d1be6b797cd068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:42 +0000
Subject: [PATCH 08/37] fix: report plugin paths the filesystem rejects instead
 of terminating

---
 src/core/vscore.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 81a364f..3513c08 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -2245,7 +2245,10 @@ static void VS_CC configPlugin3(const char *identifier, const char *defaultNames
 
 VSPlugin::VSPlugin(const std::filesystem::path &relFilename, const std::string &forcedNamespace, const std::string &forcedId, bool altSearchPath, bool loadCPUOptimized, std::string separator, VSCore *core)
     : fnamespace(forcedNamespace), id(forcedId), core(core) {
-    std::filesystem::path fullPath = std::filesystem::absolute(relFilename);
+    std::error_code ec;
+    std::filesystem::path fullPath = std::filesystem::absolute(relFilename, ec);
+    if (ec)
+        throw VSException("Failed to load " + relFilename.u8string() + ". Error given: " + ec.message());
 
 #ifdef VS_TARGET_CPU_X86
     if (loadCPUOptimized) {
@@ -2263,7 +2266,8 @@ VSPlugin::VSPlugin(const std::filesystem::path &relFilename, const std::string &
 
             std::filesystem::path abiLevelPath = std::filesystem::path(fullPath).replace_extension();
             abiLevelPath += newExtension;
-            if (std::filesystem::exists(abiLevelPath)) {
+            std::error_code ec;
+            if (std::filesystem::exists(abiLevelPath, ec)) {
                 fullPath = abiLevelPath;
                 return true;
             }
-- 
2.43.0


From feb3f4ec9fac9d56f81ba822c6b0a7adc9273f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:42 +0000
Subject: [PATCH 09/37] fix: look up plugin functions under the lock that
 guards their registration

---
 src/core/vscore.cpp | 7 ++++---
 src/core/vscore.h   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 3513c08..297f4fa 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -2430,9 +2430,9 @@ bool VSPlugin::registerFunction(const std::string &name, const std::string &args
 }
 
 VSMap *VSPlugin::invoke(const std::string &funcName, const VSMap &args) {
-    auto it = funcs.find(funcName);
-    if (it != funcs.end()) {
-        return it->second.invoke(args);
+    VSPluginFunction *func = getFunctionByName(funcName);
+    if (func) {
+        return func->invoke(args);
     } else {
         VSMap *v = new VSMap();
         vs_internal_vsapi.mapSetError(v, ("Function '" + funcName + "' not found in " + id).c_str());
@@ -2461,6 +2461,7 @@ VSPluginFunction *VSPlugin::getFunctionByName(const std::string name) {
 }
 
 void VSPlugin::getFunctions3(VSMap *out) const {
+    std::lock_guard<std::mutex> lock(functionLock);
     for (const auto &f : funcs) {
         if (f.second.isV3Compatible()) {
             std::string b = f.first + ";" + f.second.getV3ArgString();
diff --git a/src/core/vscore.h b/src/core/vscore.h
index ac70cfd..e2052a0 100644
--- a/src/core/vscore.h
+++ b/src/core/vscore.h
@@ -1103,7 +1103,7 @@ private:
     void *libHandle;
 #endif
     std::map<std::string, VSPluginFunction> funcs;
-    std::mutex functionLock;
+    mutable std::mutex functionLock;
     VSCore *core;
 public:
     explicit VSPlugin(VSCore *core);
-- 
2.43.0


From 6ce7b3b5a7e49263c3badc859f97e456cf4f71cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:54 +0000
Subject: [PATCH 10/37] fix: call the completion callback of requests made
 without a current environment

Requests from threads without a current environment are allowed, but their completion tried to activate
that missing environment, which raised an exception, so the callback was never called and a future
returned by get_frame_async() never resolved.
---
 src/cython/vapoursynth.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index ff695af..28d5c02 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1059,8 +1059,12 @@ cdef void __stdcall frameDoneCallback(void *data, const VSFrame *f, int n, VSNod
                 result = createConstFrame(f, d.funcs, d.node.core.core)
 
             try:
-                with use_environment(d.env).use():
+                if d.env is None:
+                    # requested from a thread without a current environment
                     d.callback(result, error)
+                else:
+                    with use_environment(d.env).use():
+                        d.callback(result, error)
             except:
                 traceback.print_exc()
         finally:
-- 
2.43.0


From aa35ef19c0a37ac5b3cdb7143ce015fab4568889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 11/37] fix: wait instead of spinning when iterating the frames
 of a clip

A future is resolved before its callback makes the next request, so the consumer can find nothing
requested for a moment. It then polled without ever giving up the interpreter lock, which kept the
callback from running and hung the process. Abandoning the iterator also could miss a request made at
the same time.
---
 src/cython/vapoursynth.pyx | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 28d5c02..da789bb 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -47,7 +47,7 @@ import functools
 import typing
 import warnings
 import keyword
-from threading import local as ThreadLocal, Lock, RLock
+from threading import local as ThreadLocal, Condition, Lock, RLock
 from types import MappingProxyType
 from collections.abc import ItemsView, Iterable, KeysView, MutableMapping, ValuesView
 from concurrent.futures import Future, CancelledError as FutureCancelledError, wait as wait_futures
@@ -2172,7 +2172,7 @@ cdef class RawNode(object):
 
         finished = False
         running = 0
-        lock = RLock()
+        lock = Condition(RLock())
         reorder = {}
         curr_frames = 0
 
@@ -2200,6 +2200,8 @@ cdef class RawNode(object):
 
             with lock:
                 running -= 1
+                # The consumer may be waiting for the requests made below.
+                lock.notify_all()
 
                 if finished:
                     return
@@ -2224,20 +2226,25 @@ cdef class RawNode(object):
         sidx = 0
 
         try:
-            while (not finished) or (curr_frames > 0) or running > 0:
-                if sidx not in reorder:
-                    # Spin. Reorder being empty should never happen.
-                    continue
+            while True:
+                with lock:
+                    # A future is resolved before _finished gets to make the next request, so
+                    # there may be nothing requested at all for a moment.
+                    while sidx not in reorder and not finished:
+                        lock.wait()
+
+                    if sidx not in reorder:
+                        break
 
-                # Get next requested frame
-                fut = reorder[sidx]
+                    # Get next requested frame
+                    fut = reorder[sidx]
 
                 result = fut.result()
 
-                del reorder[sidx]
-
-                curr_frames -= 1
-                _refill()
+                with lock:
+                    del reorder[sidx]
+                    curr_frames -= 1
+                    _refill()
 
                 sidx += 1
 
@@ -2248,9 +2255,11 @@ cdef class RawNode(object):
                     if close:
                         result.close()
         finally:
-            finished = True
+            with lock:
+                finished = True
+                outstanding = list(reorder.values())
 
-            for fut in reorder.copy().values():
+            for fut in outstanding:
                 if fut.exception() is not None:
                     continue
 
-- 
2.43.0


From e1a9b20bb855b4ce43b2e254a793fbc9356c02a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:13 +0000
Subject: [PATCH 12/37] fix: don't leak a frame for every frames() iterator
 that is abandoned

The generator that made the requests was part of a reference cycle the garbage collector could not
collect once it was left suspended, so the last delivered frame and its future stayed alive forever.
---
 src/cython/vapoursynth.pyx | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index da789bb..159292a 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2157,18 +2157,8 @@ cdef class RawNode(object):
         elif backlog < prefetch:
             backlog = prefetch
 
-        def _get_enum_fut():
-            get_frame_async = self.get_frame_async
-
-            for n in range(self.num_frames):
-                handle = HandleFuture()
-                get_frame_async(n, handle)
-
-                yield n, handle.fut
-
-            return None
-
-        enum_fut = _get_enum_fut().__next__
+        num_frames = self.num_frames
+        next_frame = 0
 
         finished = False
         running = 0
@@ -2177,23 +2167,25 @@ cdef class RawNode(object):
         curr_frames = 0
 
         def _request_next():
-            nonlocal finished, running, curr_frames
+            nonlocal finished, running, curr_frames, next_frame
 
             if finished:
                 return
 
             with lock:
-                try:
-                    idx, fut = enum_fut()
-                except StopIteration:
+                if next_frame >= num_frames:
                     finished = True
                     return
 
-                reorder[idx] = fut
+                handle = HandleFuture()
+                self.get_frame_async(next_frame, handle)
+
+                reorder[next_frame] = handle.fut
+                next_frame += 1
                 running += 1
                 curr_frames += 1
 
-                fut.add_done_callback(_finished)
+                handle.fut.add_done_callback(_finished)
 
         def _finished(f):
             nonlocal finished, running
-- 
2.43.0


From f8fc077caefd9b7d74e3015009d0dbebbaf0ee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:23 +0000
Subject: [PATCH 13/37] fix: replace shell startup files atomically and keep
 their bytes

register-install rewrote .bashrc and friends in place, so a crash or a failing
write lost the contents of the file. Line endings were converted as well.
---
 src/py/_shell.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/py/_shell.py b/src/py/_shell.py
index fa8755b..9abbd85 100644
--- a/src/py/_shell.py
+++ b/src/py/_shell.py
@@ -2,11 +2,40 @@ from __future__ import annotations
 
 import os
 import re
+import shutil
 import sys
+from contextlib import suppress
 from enum import StrEnum, auto, unique
 from pathlib import Path, PurePath
 
 
+def replace_file(path: Path, data: bytes) -> None:
+    """Replace the contents of a file so that its old or its new contents survive an interruption at any point.
+
+    The new contents are stored completely in a temporary file before it takes the place of the old file. Symbolic
+    links, the mode and if possible the owner of the file are kept.
+    """
+    path = Path(os.path.realpath(path))
+    temp_path = path.with_name(f".{path.name}.{os.getpid()}.tmp")
+
+    try:
+        with open(temp_path, "wb") as f:
+            if path.exists():
+                shutil.copymode(path, temp_path)
+                if hasattr(os, "chown"):
+                    stat = path.stat()
+                    with suppress(OSError):
+                        os.chown(temp_path, stat.st_uid, stat.st_gid)
+            f.write(data)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(temp_path, path)
+    except BaseException:
+        with suppress(OSError):
+            temp_path.unlink()
+        raise
+
+
 @unique
 class Shell(StrEnum):
     BASH = auto()
@@ -196,7 +225,7 @@ def update_shell(path: str) -> None:
     for file in files:
         if file.is_file():
             try:
-                contents = file.read_text()
+                contents = file.read_bytes().decode(errors="surrogateescape")
             except Exception:
                 sys.exit(f"Failed to read configuration file: {file}")
 
@@ -205,7 +234,7 @@ def update_shell(path: str) -> None:
                 continue
 
             try:
-                file.write_text(new_contents)
+                replace_file(file, new_contents.encode(errors="surrogateescape"))
             except Exception:
                 sys.exit(f"Failed to write configuration file: {file}")
 
@@ -215,7 +244,7 @@ def update_shell(path: str) -> None:
             file.parent.mkdir(parents=True, exist_ok=True)
 
             try:
-                file.write_text(f"# VapourSynth\n{command}\n")
+                replace_file(file, f"# VapourSynth\n{command}\n".encode(errors="surrogateescape"))
             except Exception:
                 sys.exit(f"Failed to write configuration file: {file}")
 
-- 
2.43.0


From 27cecb231b66e6a2f77e26dae2375421028c52aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 14/37] fix: update the configuration file atomically and keep
 all its entries

vapoursynth config emptied the file before writing to it, so a crash, a failing
write or an entry it could not handle lost the entries of all installations, as
did a file that could not be read or parsed. Success was reported before the
data had been written. Quotes and control characters in paths made the file
unparsable.
---
 src/py/_utils.py | 60 +++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/src/py/_utils.py b/src/py/_utils.py
index 7c9225d..633a930 100644
--- a/src/py/_utils.py
+++ b/src/py/_utils.py
@@ -5,7 +5,7 @@ import tomllib
 from ctypes.util import find_library
 from pathlib import Path, PurePath
 
-from ._shell import update_shell
+from ._shell import replace_file, update_shell
 from .vapoursynth import Error, __version__
 
 
@@ -281,7 +281,29 @@ def vapoursynth_check_env():
 
 
 def _escape_toml_string(s):
-    return '"' + str(s).replace("\\", "\\\\") + '"'
+    escaped = str(s).replace("\\", "\\\\").replace('"', '\\"')
+    return '"' + "".join(c if (c >= " " and c != "\x7f") or c == "\t" else f"\\u{ord(c):04X}" for c in escaped) + '"'
+
+
+def _read_config(config_path):
+    """Return all entries of the configuration, even if other parts of the file can't be parsed."""
+    try:
+        data = config_path.read_bytes()
+    except FileNotFoundError:
+        return {}
+
+    contents = {}
+    try:
+        contents = tomllib.loads(data.decode("utf-8"))
+    except ValueError:
+        # Every entry is stored on a line of its own so only the damaged ones are lost
+        for line in data.splitlines():
+            try:
+                contents = tomllib.loads(line.decode("utf-8")) | contents
+            except ValueError:
+                pass
+
+    return {key: entry for key, entry in contents.items() if isinstance(entry, list) and len(entry) >= 3}
 
 
 def vapoursynth_config():
@@ -294,27 +316,19 @@ def vapoursynth_config():
     config_path = _get_vapoursynth_config_path()
 
     try:
-        with open(config_path, "a+b") as f:
-            f.seek(0)
-            contents = {}
-            try:
-                contents = tomllib.load(f)
-            except Exception:
-                pass
-            py_symbol_path = _find_python_symbol_path()
-            if py_symbol_path is not None:
-                f.truncate(0)
-                vsscript_path = _mangle_vsscript_key(get_vsscript())
-                contents[vsscript_path] = [sys.executable, py_symbol_path, int(os.stat(sys.executable).st_mtime)]
-                for key in contents:
-                    f.write(
-                        f"{_escape_toml_string(key)} = [{_escape_toml_string(contents[key][0])},{_escape_toml_string(contents[key][1])},{_escape_toml_string(contents[key][2])}]\n".encode(
-                            "utf-8"
-                        )
-                    )
-                print(f"Configuration successfully written to {config_path}")
-            else:
-                print("Failed to determine Python symbol path")
+        contents = _read_config(config_path)
+        py_symbol_path = _find_python_symbol_path()
+        if py_symbol_path is not None:
+            vsscript_path = _mangle_vsscript_key(get_vsscript())
+            contents[vsscript_path] = [sys.executable, py_symbol_path, int(os.stat(sys.executable).st_mtime)]
+            lines = [
+                f"{_escape_toml_string(key)} = [{_escape_toml_string(contents[key][0])},{_escape_toml_string(contents[key][1])},{_escape_toml_string(contents[key][2])}]\n"
+                for key in contents
+            ]
+            replace_file(config_path, "".join(lines).encode("utf-8"))
+            print(f"Configuration successfully written to {config_path}")
+        else:
+            print("Failed to determine Python symbol path")
     except Exception:
         print(f"Failed to write configuration to {config_path}")
 
-- 
2.43.0


From 2977b8c3f496d1815dd8f14f8187d89b5a46b555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:28 +0000
Subject: [PATCH 15/37] fix: don't lose entries of the configuration file to
 concurrent updates

Every application that finds no entry for its installation runs vapoursynth
config, so several updates can run at the same time, and the last one to finish
dropped the entries the others had just reported as written.
---
 src/py/_utils.py | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/py/_utils.py b/src/py/_utils.py
index 633a930..916e65e 100644
--- a/src/py/_utils.py
+++ b/src/py/_utils.py
@@ -2,6 +2,7 @@ import ctypes
 import os
 import sys
 import tomllib
+from contextlib import contextmanager
 from ctypes.util import find_library
 from pathlib import Path, PurePath
 
@@ -306,6 +307,19 @@ def _read_config(config_path):
     return {key: entry for key, entry in contents.items() if isinstance(entry, list) and len(entry) >= 3}
 
 
+@contextmanager
+def _lock_config(config_path):
+    """Keep other installations from updating the configuration at the same time, where locking is possible."""
+    with open(config_path.with_name(config_path.name + ".lock"), "ab") as f:
+        try:
+            import fcntl
+
+            fcntl.flock(f, fcntl.LOCK_EX)
+        except (ImportError, OSError):
+            pass
+        yield
+
+
 def vapoursynth_config():
     _check_visual_studio_runtime()
 
@@ -316,19 +330,20 @@ def vapoursynth_config():
     config_path = _get_vapoursynth_config_path()
 
     try:
-        contents = _read_config(config_path)
-        py_symbol_path = _find_python_symbol_path()
-        if py_symbol_path is not None:
-            vsscript_path = _mangle_vsscript_key(get_vsscript())
-            contents[vsscript_path] = [sys.executable, py_symbol_path, int(os.stat(sys.executable).st_mtime)]
-            lines = [
-                f"{_escape_toml_string(key)} = [{_escape_toml_string(contents[key][0])},{_escape_toml_string(contents[key][1])},{_escape_toml_string(contents[key][2])}]\n"
-                for key in contents
-            ]
-            replace_file(config_path, "".join(lines).encode("utf-8"))
-            print(f"Configuration successfully written to {config_path}")
-        else:
-            print("Failed to determine Python symbol path")
+        with _lock_config(config_path):
+            contents = _read_config(config_path)
+            py_symbol_path = _find_python_symbol_path()
+            if py_symbol_path is not None:
+                vsscript_path = _mangle_vsscript_key(get_vsscript())
+                contents[vsscript_path] = [sys.executable, py_symbol_path, int(os.stat(sys.executable).st_mtime)]
+                lines = [
+                    f"{_escape_toml_string(key)} = [{_escape_toml_string(contents[key][0])},{_escape_toml_string(contents[key][1])},{_escape_toml_string(contents[key][2])}]\n"
+                    for key in contents
+                ]
+                replace_file(config_path, "".join(lines).encode("utf-8"))
+                print(f"Configuration successfully written to {config_path}")
+            else:
+                print("Failed to determine Python symbol path")
     except Exception:
         print(f"Failed to write configuration to {config_path}")
 
-- 
2.43.0


From a6206938132356a32bc0062c8af4641b28955a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 16/37] fix: wait for all requests of an environment and
 release all its objects when it is destroyed

---
 src/cython/vapoursynth.pyx | 282 ++++++++++++++++++++++---------------
 1 file changed, 168 insertions(+), 114 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 159292a..2214d10 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -232,12 +232,14 @@ __api_version__ = VapourSynthAPIVersion(VAPOURSYNTH_API_MAJOR, VAPOURSYNTH_API_M
 @final
 cdef class EnvironmentData(object):
     cdef bint alive
+    cdef bint destroying
     cdef Core core
     cdef object on_destroy
     cdef dict outputs
     cdef dict active_exceptions
     cdef int next_exc_id
     cdef object exc_lock
+    cdef object lock
 
     cdef int coreCreationFlags
     cdef VSLogHandle* log
@@ -286,6 +288,49 @@ cdef class EnvironmentData(object):
                 pass
         return None
 
+    cdef int wait_for_requests(self) except -1:
+        # more may be made while waiting, by callbacks or by other threads
+        while self.active_futures:
+            wait_futures(list(self.active_futures))
+        return 0
+
+    cdef int add_node(self, RawNode node) except -1:
+        with self.lock:
+            if self.known_nodes is None:
+                raise Error("The environment has been destroyed.")
+            self.known_nodes[id(node)] = node
+        return 0
+
+    cdef int add_frame(self, RawFrame frame) except -1:
+        with self.lock:
+            if self.known_frames is None:
+                raise Error("The environment has been destroyed.")
+            self.known_frames[id(frame)] = frame
+        return 0
+
+
+# The environment everything made by a core belongs to, whichever environment is the current one.
+cdef EnvironmentData _owner(Core core):
+    if core is None or core.env is None:
+        return None
+    return core.env()
+
+# Tracks a request until _end_request so that destroying the environment can wait for it.
+cdef object _begin_request(RawNode node, EnvironmentData env):
+    fut = Future()
+    fut.set_running_or_notify_cancel()
+    node.ensure_valid()
+    if env is not None:
+        if env.active_futures is None:
+            raise Error("The environment has been destroyed.")
+        env.active_futures.add(fut)
+    return fut
+
+cdef object _end_request(EnvironmentData env, object fut):
+    if env is not None:
+        env.active_futures.discard(fut)
+    fut.set_result(None)
+
 
 class EnvironmentPolicy(object):
 
@@ -429,9 +474,10 @@ cdef class EnvironmentPolicyAPI:
         env.coreCreationFlags = flags
         env.on_destroy = []
         env.env_locals = weakref.WeakKeyDictionary()
-        env.known_nodes = weakref.WeakSet()
-        env.known_frames = weakref.WeakSet()
-        env.active_futures = weakref.WeakSet()
+        env.known_nodes = weakref.WeakValueDictionary()
+        env.known_frames = weakref.WeakValueDictionary()
+        env.active_futures = set()
+        env.lock = RLock()
         env.alive = True
 
         with self._lock:
@@ -455,57 +501,71 @@ cdef class EnvironmentPolicyAPI:
 
     def destroy_environment(self, EnvironmentData env):
         self.ensure_policy_matches()
-        if not env.alive:
+        if not env.alive or env.destroying:
             return
 
-        futs = env.active_futures
-        env.active_futures = None
-        wait_futures(futs)
+        env.destroying = True
+        try:
+            env.wait_for_requests()
+
+            callbacks = env.on_destroy or []
+            env.on_destroy = None
+
+            with use_environment(env).use():
+                for callback in callbacks:
+                    try:
+                        callback()
+                    except Exception as e:
+                        formatted = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
+                        if env.core is not None:
+                            env.core.log_message(MessageType.MESSAGE_TYPE_CRITICAL, formatted)
+                        else:
+                            sys.stderr.write(formatted)
 
-        callbacks = env.on_destroy
-        env.on_destroy = None
+            env.wait_for_requests()
+            # no requests from here on
+            env.active_futures = None
+        finally:
+            env.destroying = env.active_futures is None
 
-        with use_environment(env).use():
-            for callback in callbacks:
-                try:
-                    callback()
-                except Exception as e:
-                    formatted = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
-                    if env.core is not None:
-                        env.core.log_message(MessageType.MESSAGE_TYPE_CRITICAL, formatted)
-                    else:
-                        sys.stderr.write(formatted)
+        with env.lock:
+            nodes = list(env.known_nodes.values())
+            env.known_nodes = None
+            frames = list(env.known_frames.values())
+            env.known_frames = None
 
         # Invalidate all remaining nodes and frames from this environment
-        for node in list(env.known_nodes):
-            if not isinstance(node, RawNode):
-                continue
+        cdef VSNode *n
+        for node in nodes:
             rn = <RawNode>node
-            if rn.node:
-                if rn.funcs:
-                    rn.funcs.freeNode(rn.node)
+            n = rn.node
+            if n:
                 rn.node = NULL
                 rn.core = None
+                if rn.funcs:
+                    rn.funcs.freeNode(n)
 
-        for frame in list(env.known_frames):
-            if not isinstance(frame, RawFrame):
-                continue
+        cdef const VSFrame *f
+        for frame in frames:
             rf = <RawFrame>frame
-            if rf.constf:
-                if rf.funcs:
-                    rf.funcs.freeFrame(rf.constf)
+            f = rf.constf
+            if f:
                 rf.constf = NULL
+                if rf.funcs:
+                    rf.funcs.freeFrame(f)
 
         _unset_logger(env)
 
         # Invalidate the core wrapper itself
         cdef Core c = env.core
+        cdef VSCore *core
         if c is not None:
-            if c.core:
+            core = c.core
+            if core:
+                c.core = NULL
                 if c.funcs:
                     with nogil:
-                        c.funcs.freeCore(c.core)
-                c.core = NULL
+                        c.funcs.freeCore(core)
 
         env.core = None
         env.log = NULL
@@ -514,10 +574,6 @@ cdef class EnvironmentPolicyAPI:
         env.env_locals = None
         env.active_exceptions = None
         env.exc_lock = None
-        env.known_nodes.clear()
-        env.known_nodes = None
-        env.known_frames.clear()
-        env.known_frames = None
         env.alive = False
 
     def unregister_policy(self):
@@ -999,9 +1055,12 @@ cdef class CallbackData(object):
 
     cdef EnvironmentData env
 
+    # the environment of the node
+    cdef EnvironmentData owner
+
     cdef object fut
 
-    def __init__(self, object node, EnvironmentData env, object callback):
+    def __init__(self, RawNode node, EnvironmentData env, object callback):
         # Keeps the node alive during the call.
         self.node = node
 
@@ -1009,10 +1068,8 @@ cdef class CallbackData(object):
         self.env = env
         # tracked so environment teardown can wait for every outstanding request and not
         # just the future returning form
-        self.fut = Future()
-        self.fut.set_running_or_notify_cancel()
-        if env is not None and env.active_futures is not None:
-            env.active_futures.add(self.fut)
+        self.owner = _owner(node.core)
+        self.fut = _begin_request(node, self.owner)
 
 
 cdef createCallbackData(const VSAPI* funcs, RawNode node, object cb):
@@ -1053,10 +1110,10 @@ cdef void __stdcall frameDoneCallback(void *data, const VSFrame *f, int n, VSNod
                 error_str = 'Internal error - no error message.'
                 if errormsg != NULL:
                     error_str = errormsg.decode('utf-8')
-                py_exc = d.env.retrieve_exception(error_str) if d.env is not None else None
+                py_exc = d.owner.retrieve_exception(error_str) if d.owner is not None else None
                 error = py_exc or Error(error_str)
             else:
-                result = createConstFrame(f, d.funcs, d.node.core.core)
+                result = createConstFrame(f, d.funcs, d.node.core)
 
             try:
                 if d.env is None:
@@ -1068,7 +1125,7 @@ cdef void __stdcall frameDoneCallback(void *data, const VSFrame *f, int n, VSNod
             except:
                 traceback.print_exc()
         finally:
-            d.fut.set_result(None)
+            _end_request(d.owner, d.fut)
             Py_DECREF(d)
 
 cdef object intToRangeFilter(int64_t value, str key):
@@ -1089,7 +1146,7 @@ cdef int64_t rangeToIntFilter(object value, str key):
             value = Range.RANGE_FULL
     return int(value)
 
-cdef object mapToDict(const VSMap *map, bint flatten):
+cdef object mapToDict(const VSMap *map, bint flatten, Core core = None):
     cdef const VSAPI *funcs = getVSAPIInternal()
     cdef int numKeys = funcs.mapNumKeys(map)
     retdict = {}
@@ -1114,9 +1171,9 @@ cdef object mapToDict(const VSMap *map, bint flatten):
                 if funcs.mapGetDataTypeHint(map, retkey, y, NULL) == dtUtf8:
                     newval = newval.decode('utf-8')
             elif proptype == ptVideoNode or proptype == ptAudioNode:
-                newval = createNode(funcs.mapGetNode(map, retkey, y, NULL), funcs, _get_core())
+                newval = createNode(funcs.mapGetNode(map, retkey, y, NULL), funcs, _get_core() if core is None else core)
             elif proptype == ptVideoFrame or proptype == ptAudioFrame:
-                newval = createConstFrame(funcs.mapGetFrame(map, retkey, y, NULL), funcs, _get_core().core)
+                newval = createConstFrame(funcs.mapGetFrame(map, retkey, y, NULL), funcs, _get_core() if core is None else core)
             elif proptype == ptFunction:
                 newval = createFuncRef(funcs.mapGetFunction(map, retkey, y, NULL), funcs)
 
@@ -1394,10 +1451,10 @@ cdef class FrameProps(object):
                 ol.append(aval)
         elif t == ptVideoNode or t == ptAudioNode:
             for i in range(numelem):
-                ol.append(createNode(self.funcs.mapGetNode(m, b, i, NULL), self.funcs, _get_core()))
+                ol.append(createNode(self.funcs.mapGetNode(m, b, i, NULL), self.funcs, self.frame.core))
         elif t == ptVideoFrame or t == ptAudioFrame:
             for i in range(numelem):
-                ol.append(createConstFrame(self.funcs.mapGetFrame(m, b, i, NULL), self.funcs, self.core))
+                ol.append(createConstFrame(self.funcs.mapGetFrame(m, b, i, NULL), self.funcs, self.frame.core))
         elif t == ptFunction:
             for i in range(numelem):
                 ol.append(createFuncRef(self.funcs.mapGetFunction(m, b, i, NULL), self.funcs))
@@ -1576,7 +1633,7 @@ cdef FrameProps createFrameProps(RawFrame f):
     cdef FrameProps instance = FrameProps.__new__(FrameProps)
     instance.frame = f
     instance.funcs = f.funcs
-    instance.core = f.core
+    instance.core = f.core.core
     instance.readonly = f.readonly
     return instance
 
@@ -1611,7 +1668,7 @@ class ChannelLayout(int):
 cdef class RawFrame(object):
     cdef const VSFrame *constf
     cdef VSFrame *f
-    cdef VSCore *core
+    cdef Core core
     cdef const VSAPI *funcs
     cdef unsigned flags
 
@@ -1704,7 +1761,7 @@ cdef class VideoFrame(RawFrame):
 
     def copy(self):
         self._ensure_open()
-        return createVideoFrame(self.funcs.copyFrame(self.constf, self.core), self.funcs, self.core)
+        return createVideoFrame(self.funcs.copyFrame(self.constf, self.core.core), self.funcs, self.core)
 
     def readchunks(self):
         self._ensure_open()
@@ -1780,37 +1837,37 @@ cdef class VideoFrame(RawFrame):
         )
 
 
-cdef VideoFrame createConstVideoFrame(const VSFrame *constf, const VSAPI *funcs, VSCore *core):
+cdef VideoFrame createConstVideoFrame(const VSFrame *constf, const VSAPI *funcs, Core core):
     cdef:
         VideoFrame instance = VideoFrame.__new__(VideoFrame)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _owner(core)
     instance.constf = constf
     instance.f = NULL
     instance.funcs = funcs
     instance.core = core
     instance.flags = 0
-    instance.format = createVideoFormat(funcs.getVideoFrameFormat(constf), funcs, core)
+    instance.format = createVideoFormat(funcs.getVideoFrameFormat(constf), funcs, core.core)
     instance.width = funcs.getFrameWidth(constf, 0)
     instance.height = funcs.getFrameHeight(constf, 0)
-    if env is not None and env.known_frames is not None:
-        env.known_frames.add(instance)
+    if env is not None:
+        env.add_frame(instance)
     return instance
 
 
-cdef VideoFrame createVideoFrame(VSFrame *f, const VSAPI *funcs, VSCore *core):
+cdef VideoFrame createVideoFrame(VSFrame *f, const VSAPI *funcs, Core core):
     cdef:
         VideoFrame instance = VideoFrame.__new__(VideoFrame)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _owner(core)
     instance.constf = f
     instance.f = f
     instance.funcs = funcs
     instance.core = core
     instance.flags = -1
-    instance.format = createVideoFormat(funcs.getVideoFrameFormat(f), funcs, core)
+    instance.format = createVideoFormat(funcs.getVideoFrameFormat(f), funcs, core.core)
     instance.width = funcs.getFrameWidth(f, 0)
     instance.height = funcs.getFrameHeight(f, 0)
-    if env is not None and env.known_frames is not None:
-        env.known_frames.add(instance)
+    if env is not None:
+        env.add_frame(instance)
     return instance
 
 
@@ -1926,7 +1983,7 @@ cdef class AudioFrame(RawFrame):
 
     def copy(self):
         self._ensure_open()
-        return createAudioFrame(self.funcs.copyFrame(self.constf, self.core), self.funcs, self.core)
+        return createAudioFrame(self.funcs.copyFrame(self.constf, self.core.core), self.funcs, self.core)
 
     @property
     def channels(self):
@@ -1985,11 +2042,11 @@ cdef class AudioFrame(RawFrame):
         )
 
 
-cdef AudioFrame createConstAudioFrame(const VSFrame *constf, const VSAPI *funcs, VSCore *core):
+cdef AudioFrame createConstAudioFrame(const VSFrame *constf, const VSAPI *funcs, Core core):
     cdef:
         AudioFrame instance = AudioFrame.__new__(AudioFrame)
         const VSAudioFormat *format = funcs.getAudioFrameFormat(constf)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _owner(core)
     instance.constf = constf
     instance.f = NULL
     instance.funcs = funcs
@@ -2000,16 +2057,16 @@ cdef AudioFrame createConstAudioFrame(const VSFrame *constf, const VSAPI *funcs,
     instance.bytes_per_sample = format.bytesPerSample
     instance.channel_layout = format.channelLayout
     instance.num_channels = format.numChannels
-    if env is not None and env.known_frames is not None:
-        env.known_frames.add(instance)
+    if env is not None:
+        env.add_frame(instance)
     return instance
 
 
-cdef AudioFrame createAudioFrame(VSFrame *f, const VSAPI *funcs, VSCore *core):
+cdef AudioFrame createAudioFrame(VSFrame *f, const VSAPI *funcs, Core core):
     cdef:
         AudioFrame instance = AudioFrame.__new__(AudioFrame)
         const VSAudioFormat *format = funcs.getAudioFrameFormat(f)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _owner(core)
     instance.constf = f
     instance.f = f
     instance.funcs = funcs
@@ -2020,8 +2077,8 @@ cdef AudioFrame createAudioFrame(VSFrame *f, const VSAPI *funcs, VSCore *core):
     instance.bytes_per_sample = format.bytesPerSample
     instance.channel_layout = format.channelLayout
     instance.num_channels = format.numChannels
-    if env is not None and env.known_frames is not None:
-        env.known_frames.add(instance)
+    if env is not None:
+        env.add_frame(instance)
     return instance
 
 
@@ -2402,28 +2459,25 @@ cdef class VideoNode(RawNode):
         cdef char *ep = errorMsg
         cdef const VSFrame *f
         self.ensure_valid_frame_number(n)
-        cdef EnvironmentData env = _env_current()
+        cdef EnvironmentData env = _owner(self.core)
 
         # tracked so environment teardown can wait for blocking requests as well
-        fut = Future()
-        fut.set_running_or_notify_cancel()
-        if env is not None and env.active_futures is not None:
-            env.active_futures.add(fut)
+        fut = _begin_request(self, env)
         try:
             with nogil:
                 f = self.funcs.getFrame(n, self.node, errorMsg, 4096)
-        finally:
-            fut.set_result(None)
 
-        if f == NULL:
-            if (errorMsg[0]):
-                msg_str = ep.decode('utf-8')
-                py_exc = env.retrieve_exception(msg_str) if env is not None else None
-                raise py_exc or Error(msg_str)
+            if f == NULL:
+                if (errorMsg[0]):
+                    msg_str = ep.decode('utf-8')
+                    py_exc = env.retrieve_exception(msg_str) if env is not None else None
+                    raise py_exc or Error(msg_str)
+                else:
+                    raise Error('Internal error - no error given')
             else:
-                raise Error('Internal error - no error given')
-        else:
-            return createConstVideoFrame(f, self.funcs, self.core.core)
+                return createConstVideoFrame(f, self.funcs, self.core)
+        finally:
+            _end_request(env, fut)
 
     def set_output(self, int index = 0, VideoNode alpha = None, int alt_output = 0):
         self.ensure_valid()
@@ -2664,7 +2718,7 @@ cdef class VideoNode(RawNode):
 cdef VideoNode createVideoNode(VSNode *node, const VSAPI *funcs, Core core):
     cdef:
         VideoNode instance = VideoNode.__new__(VideoNode)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _owner(core)
     instance.core = core
     instance.node = node
     instance.funcs = funcs
@@ -2681,8 +2735,8 @@ cdef VideoNode createVideoNode(VSNode *node, const VSAPI *funcs, Core core):
     else:
         instance.fps = Fraction(0, 1)
 
-    if env is not None and env.known_nodes is not None:
-        env.known_nodes.add(instance)
+    if env is not None:
+        env.add_node(instance)
 
     return instance
 
@@ -2724,28 +2778,25 @@ cdef class AudioNode(RawNode):
         cdef char *ep = errorMsg
         cdef const VSFrame *f
         self.ensure_valid_frame_number(n)
-        cdef EnvironmentData env = _env_current()
+        cdef EnvironmentData env = _owner(self.core)
 
         # tracked so environment teardown can wait for blocking requests as well
-        fut = Future()
-        fut.set_running_or_notify_cancel()
-        if env is not None and env.active_futures is not None:
-            env.active_futures.add(fut)
+        fut = _begin_request(self, env)
         try:
             with nogil:
                 f = self.funcs.getFrame(n, self.node, errorMsg, 4096)
-        finally:
-            fut.set_result(None)
 
-        if f == NULL:
-            if (errorMsg[0]):
-                msg_str = ep.decode('utf-8')
-                py_exc = env.retrieve_exception(msg_str) if env is not None else None
-                raise py_exc or Error(msg_str)
+            if f == NULL:
+                if (errorMsg[0]):
+                    msg_str = ep.decode('utf-8')
+                    py_exc = env.retrieve_exception(msg_str) if env is not None else None
+                    raise py_exc or Error(msg_str)
+                else:
+                    raise Error('Internal error - no error given')
             else:
-                raise Error('Internal error - no error given')
-        else:
-            return createConstAudioFrame(f, self.funcs, self.core.core)
+                return createConstAudioFrame(f, self.funcs, self.core)
+        finally:
+            _end_request(env, fut)
 
     def output(self, object fileobj not None, bint wav = False, bint w64 = False, object progress_update = None, int prefetch = 0, int backlog = -1):
         self.ensure_valid()
@@ -2968,7 +3019,7 @@ cdef class AudioNode(RawNode):
 cdef AudioNode createAudioNode(VSNode *node, const VSAPI *funcs, Core core):
     cdef:
         AudioNode instance = AudioNode.__new__(AudioNode)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _owner(core)
 
     instance.core = core
     instance.node = node
@@ -2983,8 +3034,8 @@ cdef AudioNode createAudioNode(VSNode *node, const VSAPI *funcs, Core core):
     instance.channel_layout = instance.ai.format.channelLayout
     instance.num_channels = instance.ai.format.numChannels
 
-    if env is not None and env.known_nodes is not None:
-        env.known_nodes.add(instance)
+    if env is not None:
+        env.add_node(instance)
 
     return instance
 
@@ -3059,6 +3110,7 @@ cdef class Core(object):
     cdef int creationFlags
     cdef VSCore *core
     cdef const VSAPI *funcs
+    cdef object env
 
     cdef readonly object timings
 
@@ -3156,7 +3208,7 @@ cdef class Core(object):
             raise Error('Invalid format id specified')
 
         cdef VSFrame* ref = self.funcs.newVideoFrame(&fmt, width, height, NULL, self.core)
-        return createVideoFrame(ref, self.funcs, self.core)
+        return createVideoFrame(ref, self.funcs, self)
 
     def log_message(self, int message_type, str message):
         # released gil, the log api dispatches to handlers that acquire the gil so calling in
@@ -3248,7 +3300,7 @@ cdef object createNode(VSNode *node, const VSAPI *funcs, Core core):
     else:
         return createAudioNode(node, funcs, core)
 
-cdef object createConstFrame(const VSFrame *f, const VSAPI *funcs, VSCore *core):
+cdef object createConstFrame(const VSFrame *f, const VSAPI *funcs, Core core):
     if funcs.getFrameType(f) == mtVideo:
         return createConstVideoFrame(f, funcs, core)
     else:
@@ -3260,19 +3312,21 @@ cdef Core createCore(EnvironmentData env):
     if instance.funcs == NULL:
         raise Error('Failed to obtain VapourSynth API pointer. Is the Python module and loaded core library mismatched?')
     instance.core = instance.funcs.createCore(env.coreCreationFlags)
+    instance.env = weakref.ref(env)
     instance.timings = createCoreTimings(instance)
     instance.creationFlags = env.coreCreationFlags
     if instance.core_version.release_major != VS_CURRENT_RELEASE:
         instance.log_message(mtWarning, f'Version mismatch: The VapourSynth Python module version is R{__version__.release_major:d} but the VapourSynth core library is R{instance.core_version.release_major:d}. This usually indicates a broken install.')
     return instance
 
-cdef Core createCore2(VSCore *core):
+cdef Core createCore2(VSCore *core, EnvironmentData env):
     cdef Core instance = Core.__new__(Core)
     cdef VSCoreInfo2 v
     instance.funcs = getVapourSynthAPI(VAPOURSYNTH_API_VERSION)
     if instance.funcs == NULL:
         raise Error('Failed to obtain VapourSynth API pointer. Is the Python module and loaded core library mismatched?')
     instance.core = core
+    instance.env = weakref.ref(env)
     instance.funcs.getCoreInfo2(instance.core, &v)
     instance.creationFlags = v.creationFlags
     instance.timings = createCoreTimings(instance)
@@ -3563,7 +3617,7 @@ cdef class Function(object):
             py_exc = env.retrieve_exception(msg_str) if env is not None else None
             raise py_exc or Error(msg_str)
 
-        retdict = mapToDict(outm, True)
+        retdict = mapToDict(outm, True, self.plugin.core)
         self.funcs.freeMap(outm)
         return retdict
 
@@ -3742,7 +3796,7 @@ cdef class VSScriptEnvironmentPolicy:
         cdef EnvironmentData env = self._api.create_environment()
 
         if se and se.core:
-            env.core = createCore2(se.core)
+            env.core = createCore2(se.core, env)
             se.core = NULL # unset the core to indicate it's been used
 
         self._env_map[script_id] = env
-- 
2.43.0


From 3b66e592d07c2409841c12fa52aedec39851dc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:09 +0000
Subject: [PATCH 17/37] fix: raise an error when objects of a destroyed
 environment are used

---
 src/cython/vapoursynth.pyx | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 2214d10..6ab58b6 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1223,9 +1223,11 @@ cdef void dictToMap(dict ndict, VSMap *inm, VSCore *core, const VSAPI *funcs) ex
                 if funcs.mapSetData(inm, ckey, v, <int>len(v), dtBinary, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, RawNode):
+                (<RawNode>v).ensure_valid()
                 if funcs.mapSetNode(inm, ckey, (<RawNode>v).node, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, RawFrame):
+                (<RawFrame>v)._ensure_open()
                 if funcs.mapSetFrame(inm, ckey, (<RawFrame>v).constf, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, Func):
@@ -1258,9 +1260,11 @@ cdef void typedDictToMap(dict ndict, dict atypes, VSMap *inm, VSCore *core, cons
 
         for v in val:
             if (atypes[key][:5] == 'vnode' and isinstance(v, VideoNode)) or (atypes[key][:5] == 'anode' and isinstance(v, AudioNode)):
+                (<RawNode>v).ensure_valid()
                 if funcs.mapSetNode(inm, ckey, (<RawNode>v).node, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif ((atypes[key][:6] == 'vframe') and isinstance(v, VideoFrame)) or (atypes[key][:6] == 'aframe' and isinstance(v, AudioFrame)):
+                (<RawFrame>v)._ensure_open()
                 if funcs.mapSetFrame(inm, ckey, (<RawFrame>v).constf, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif atypes[key][:4] == 'func' and isinstance(v, Func):
@@ -1490,9 +1494,11 @@ cdef class FrameProps(object):
         try:
             for v in val:
                 if isinstance(v, RawNode):
+                    (<RawNode>v).ensure_valid()
                     if funcs.mapSetNode(m, b, (<RawNode>v).node, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, RawFrame):
+                    (<RawFrame>v)._ensure_open()
                     if funcs.mapSetFrame(m, b, (<RawFrame>v).constf, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, Func):
@@ -2206,6 +2212,7 @@ cdef class RawNode(object):
 
 
     def frames(self, prefetch=None, backlog=None, close=False):
+        self.ensure_valid()
         if prefetch is None or prefetch <= 0:
             prefetch = self.core.num_threads
 
@@ -2322,6 +2329,8 @@ cdef class RawNode(object):
 
     # Inspect API
     cdef bint _inspectable(self):
+        if self.node == NULL:
+            return False
         if self.funcs.getAPIVersion() != VAPOURSYNTH_API_VERSION:
             return False
         return bool(self.core.flags & ccfEnableGraphInspection)
@@ -2333,24 +2342,29 @@ cdef class RawNode(object):
 
     @property
     def node_name(self):
+        self.ensure_valid()
         return self.funcs.getNodeName(self.node).decode("utf-8")
 
     @property
     def timings(self):
+        self.ensure_valid()
         return self.funcs.getNodeProcessingTime(self.node, False)
 
     @timings.setter
     def timings(self, bint value):
         if value != 0:
             raise ValueError("You can only set timings to 0, to reset its counter!")
+        self.ensure_valid()
         self.funcs.getNodeProcessingTime(self.node, True)
 
     @property
     def mode(self):
+        self.ensure_valid()
         return FilterMode(self.funcs.getNodeFilterMode(self.node))
 
     @property
     def dependencies(self):
+        self.ensure_valid()
         return tuple(
             createNode(self.funcs.addNodeRef(self.funcs.getNodeDependency(self.node, idx).source), self.funcs, self.core)
             for idx in range(self.funcs.getNumNodeDependencies(self.node))
@@ -3071,20 +3085,24 @@ cdef class CoreTimings(object):
 
     @property
     def enabled(self):
+        self.core.ensure_valid()
         return bool(self.core.funcs.getCoreNodeTiming(self.core.core))
 
     @enabled.setter
     def enabled(self, bint enabled):
+        self.core.ensure_valid()
         self.core.funcs.setCoreNodeTiming(self.core.core, enabled)
 
     @property
     def freed_nodes(self):
+        self.core.ensure_valid()
         return self.core.funcs.getFreedNodeProcessingTime(self.core.core, False)
 
     @freed_nodes.setter
     def freed_nodes(self, bint value):
         if value != 0:
             raise ValueError("You can only set freed_nodes to 0, to reset its counter!")
+        self.core.ensure_valid()
         self.core.funcs.getFreedNodeProcessingTime(self.core.core, True)
 
     def __repr__(self):
@@ -3183,19 +3201,23 @@ cdef class Core(object):
             raise AttributeError('No attribute with the name ' + name + ' exists. Did you mistype a plugin namespace or forget to install a plugin?')
 
     def plugins(self):
+        self.ensure_valid()
         cdef VSPlugin *plugin = self.funcs.getNextPlugin(NULL, self.core)
         while plugin:
             tmp = createPlugin(plugin, self.funcs, self)
             plugin = self.funcs.getNextPlugin(plugin, self.core)
             yield tmp
+            self.ensure_valid()
 
     def query_video_format(self, int color_family, int sample_type, int bits_per_sample, int subsampling_w = 0, int subsampling_h = 0):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.queryVideoFormat(&fmt, color_family, sample_type, bits_per_sample, subsampling_w, subsampling_h, self.core):
             raise Error('Invalid format specified')
         return createVideoFormat(&fmt, self.funcs, self.core)
 
     def get_video_format(self, uint32_t id):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.getVideoFormatByID(&fmt, id, self.core):
             raise Error('Invalid format id specified')
@@ -3203,6 +3225,7 @@ cdef class Core(object):
             return createVideoFormat(&fmt, self.funcs, self.core)
 
     def create_video_frame(self, int format, int width, int height):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.getVideoFormatByID(&fmt, format, self.core):
             raise Error('Invalid format id specified')
@@ -3211,6 +3234,7 @@ cdef class Core(object):
         return createVideoFrame(ref, self.funcs, self)
 
     def log_message(self, int message_type, str message):
+        self.ensure_valid()
         # released gil, the log api dispatches to handlers that acquire the gil so calling in
         # while holding it can deadlock against a thread mid message delivery
         cdef bytes message_bytes = message.encode('utf-8')
@@ -3219,6 +3243,7 @@ cdef class Core(object):
             self.funcs.logMessage(message_type, message_cstr, self.core)
 
     def add_log_handler(self, handler_func):
+        self.ensure_valid()
         handler_func(mtDebug, 'New message handler installed from python')
         cdef LogHandle lh = createLogHandle(handler_func)
         Py_INCREF(lh)
@@ -3230,6 +3255,7 @@ cdef class Core(object):
         return lh
 
     def remove_log_handler(self, LogHandle handle):
+        self.ensure_valid()
         cdef VSLogHandle *h = handle.handle
         cdef bint result
         with nogil:
@@ -3237,10 +3263,12 @@ cdef class Core(object):
         return result
 
     def clear_cache(self):
+        self.ensure_valid()
         self.funcs.clearCoreCaches(self.core)
 
     @property
     def core_version(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
@@ -3248,6 +3276,7 @@ cdef class Core(object):
 
     @property
     def api_version(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
@@ -3278,6 +3307,7 @@ cdef class Core(object):
         )
 
     def __str__(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
@@ -3343,6 +3373,8 @@ cdef Core _get_core(threads = None):
 
 cdef Core vsscript_get_core_internal(EnvironmentData env):
     if env.core is None:
+        if not env.alive:
+            raise Error('The environment has been destroyed.')
         env.core = createCore(env)
     return env.core
 
@@ -3424,6 +3456,7 @@ cdef class Plugin(object):
         raise Error('Class cannot be instantiated directly')
 
     def __getattr__(self, name):
+        self.core.ensure_valid()
         tname = name.encode('utf-8')
         cdef const char *cname = tname
         cdef VSPluginFunction *func = self.funcs.getPluginFunctionByName(cname, self.plugin)
@@ -3434,14 +3467,17 @@ cdef class Plugin(object):
             raise AttributeError('There is no function named ' + name)
 
     def functions(self):
+        self.core.ensure_valid()
         cdef VSPluginFunction *func = self.funcs.getNextPluginFunction(NULL, self.plugin)
         while func:
             tmp = createFunction(func, self, self.funcs)
             func = self.funcs.getNextPluginFunction(func, self.plugin)
             yield tmp
+            self.core.ensure_valid()
 
     @property
     def version(self):
+        self.core.ensure_valid()
         ver = <int>self.funcs.getPluginVersion(self.plugin)
 
         ver_major = (ver >> 16)
@@ -3451,6 +3487,7 @@ cdef class Plugin(object):
 
     @property
     def plugin_path(self):
+        self.core.ensure_valid()
         cdef const char *ppath = self.funcs.getPluginPath(self.plugin)
         if ppath:
             return ppath.decode('utf-8')
@@ -3532,6 +3569,7 @@ cdef class Function(object):
         cdef VSMap *inm
         cdef VSMap *outm
         cdef char *cname
+        self.plugin.core.ensure_valid()
         arglist = list(args)
         if self.plugin.injected_arg is not None:
             arglist.insert(0, self.plugin.injected_arg)
-- 
2.43.0


From e56d1433e6f0924a9e735032f8f96512a8d48c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:09 +0000
Subject: [PATCH 18/37] fix: end frames() with an error when a request can't be
 made

---
 src/cython/vapoursynth.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 6ab58b6..dcdf38c 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2242,7 +2242,11 @@ cdef class RawNode(object):
                     return
 
                 handle = HandleFuture()
-                self.get_frame_async(next_frame, handle)
+                try:
+                    self.get_frame_async(next_frame, handle)
+                except Exception as e:
+                    # raised in the place of the frame, whoever makes the request
+                    handle.fut.set_exception(e)
 
                 reorder[next_frame] = handle.fut
                 next_frame += 1
-- 
2.43.0


From 05c4ec9c9527a7616fee92eaa4fd96db0e3168ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:16 +0000
Subject: [PATCH 19/37] fix: log from Python threads that have no current
 environment

PythonVSScriptLoggingBridge keeps its parent handler in _parent but emit()
used parent, so every logging call on such a thread raised AttributeError.
---
 src/cython/vapoursynth.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index dcdf38c..6460b90 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3719,7 +3719,7 @@ class PythonVSScriptLoggingBridge(logging.Handler):
     def emit(self, record):
         env = _env_current()
         if env is None:
-            self.parent.handle(record)
+            self._parent.handle(record)
             return
         core = vsscript_get_core_internal(env)
 
-- 
2.43.0


From 37a25a3acb8cbf5a1264ad7cca5b181b5b2dbc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:07 +0000
Subject: [PATCH 20/37] fix: destroy the environment of a script before its
 variables

vpy4_freeScript() set every variable to None and dropped the core first. Requests
the script still had outstanding and its register_on_destroy() callbacks then ran
without the script's globals, could create a second core by using vs.core, and the
script's own core was only freed by whatever ran the garbage collector next since
destroy_environment() no longer knew about it. A finalizer that defined a variable
ended the loop early and left the environment alive.
---
 src/cython/vapoursynth.pyx | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 6460b90..888bc6f 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -4022,21 +4022,18 @@ cdef public api int vpy4_evaluateFile(VSScript *se, const char *scriptFilename)
 
 cdef public api void vpy4_freeScript(VSScript *se) noexcept nogil:
     with gil:
+        # Destroyed before the variables go away since outstanding requests and
+        # on_destroy callbacks, which it waits for and calls, still use them.
+        try:
+            _get_vsscript_policy()._free_environment(se.id)
+        except:
+            pass
+
         if se.pyenvdict:
             pyenvdict = <dict>se.pyenvdict
-            for key in pyenvdict:
+            for key in list(pyenvdict):
                 pyenvdict[key] = None
             pyenvdict.clear()
-            try:
-                # Environment is lazily created at the time of exec'ing a script,
-                # if the process errors out before that (e.g. fails compiling),
-                # the environment might be None.
-                env = _get_vsscript_policy().get_environment(se.id)
-                if env is not None:
-                    env.outputs.clear()
-                    env.core = None
-            except:
-                pass
 
             se.pyenvdict = NULL
             Py_DECREF(pyenvdict)
@@ -4048,11 +4045,6 @@ cdef public api void vpy4_freeScript(VSScript *se) noexcept nogil:
             Py_DECREF(errstr)
             errstr = None
 
-        try:
-            _get_vsscript_policy()._free_environment(se.id)
-        except:
-            pass
-
         gc.collect()
 
 cdef public api const char *vpy4_getError(VSScript *se) nogil:
-- 
2.43.0


From 4545631e25d92a0c72af312ce9295157428b557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:07 +0000
Subject: [PATCH 21/37] fix: free a script's environment although stdout or
 stderr can't be flushed

The exception skipped destroy_environment() and vpy4_freeScript() dropped it, so
the core of the script was never freed.
---
 src/cython/vapoursynth.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 888bc6f..aac9413 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3850,8 +3850,11 @@ cdef class VSScriptEnvironmentPolicy:
     cdef _free_environment(self, int script_id):
         env = self._env_map.pop(script_id, None)
         if env is not None:
-            sys.stdout.flush()
-            sys.stderr.flush()
+            for stream in (sys.stdout, sys.stderr):
+                try:
+                    stream.flush()
+                except Exception:
+                    pass # closed, broken or None, which is no reason to keep the environment
             self._api.destroy_environment(env)
 
     def is_alive(self, EnvironmentData environment):
-- 
2.43.0


From 82ccf0ddf63e7650bcab05a04fcd9b044bdd09d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:38 +0000
Subject: [PATCH 22/37] fix: release the gil while a function reference is
 called

A native function, like one an application put into a script with setVariables(),
that waits for a frame never got it when producing the frame needs Python.
---
 src/cython/vapoursynth.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index aac9413..9278d64 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1015,7 +1015,9 @@ cdef class Func(object):
         inm = self.funcs.createMap()
         try:
             dictToMap(kwargs, inm, NULL, vsapi)
-            self.funcs.callFunction(self.ref, inm, outm)
+            # the function may wait for another thread that needs the gil
+            with nogil:
+                self.funcs.callFunction(self.ref, inm, outm)
             error = self.funcs.mapGetError(outm)
             if error:
                 msg_str = error.decode('utf-8')
-- 
2.43.0


From 8a1f7012f35d7287838f1e6c80296340835d1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:15 +0000
Subject: [PATCH 23/37] fix: report errors and messages that aren't valid utf-8

They come from filters and may hold anything, file names for instance, or end
within a character where they were cut to the size of a buffer. The decoding
error took the place of the message, or of the callback so that a future was
never resolved.
---
 src/cython/vapoursynth.pyx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 9278d64..325cc74 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -429,7 +429,7 @@ cdef void _unset_logger(EnvironmentData env):
 
 cdef void __stdcall _logCb(int msgType, const char *msg, void *userData) noexcept nogil:
     with gil:
-        message = msg.decode("utf-8")
+        message = msg.decode("utf-8", "replace")
         (<object>userData)(msgType, message)
 
 cdef void __stdcall _logFree(void* userData) noexcept nogil:
@@ -1020,7 +1020,7 @@ cdef class Func(object):
                 self.funcs.callFunction(self.ref, inm, outm)
             error = self.funcs.mapGetError(outm)
             if error:
-                msg_str = error.decode('utf-8')
+                msg_str = error.decode('utf-8', 'replace')
                 env = _env_current()
                 py_exc = env.retrieve_exception(msg_str) if env is not None else None
                 raise py_exc or Error(msg_str)
@@ -1111,7 +1111,7 @@ cdef void __stdcall frameDoneCallback(void *data, const VSFrame *f, int n, VSNod
             elif f == NULL:
                 error_str = 'Internal error - no error message.'
                 if errormsg != NULL:
-                    error_str = errormsg.decode('utf-8')
+                    error_str = errormsg.decode('utf-8', 'replace')
                 py_exc = d.owner.retrieve_exception(error_str) if d.owner is not None else None
                 error = py_exc or Error(error_str)
             else:
@@ -2489,7 +2489,7 @@ cdef class VideoNode(RawNode):
 
             if f == NULL:
                 if (errorMsg[0]):
-                    msg_str = ep.decode('utf-8')
+                    msg_str = ep.decode('utf-8', 'replace')
                     py_exc = env.retrieve_exception(msg_str) if env is not None else None
                     raise py_exc or Error(msg_str)
                 else:
@@ -2808,7 +2808,7 @@ cdef class AudioNode(RawNode):
 
             if f == NULL:
                 if (errorMsg[0]):
-                    msg_str = ep.decode('utf-8')
+                    msg_str = ep.decode('utf-8', 'replace')
                     py_exc = env.retrieve_exception(msg_str) if env is not None else None
                     raise py_exc or Error(msg_str)
                 else:
@@ -3074,7 +3074,7 @@ cdef LogHandle createLogHandle(object handler_func):
 
 cdef void __stdcall log_handler_wrapper(int msgType, const char *msg, void *userData) noexcept nogil:
     with gil:
-        (<LogHandle>userData).handler_func(msgType, msg.decode('utf-8'))
+        (<LogHandle>userData).handler_func(msgType, msg.decode('utf-8', 'replace'))
 
 cdef void __stdcall log_handler_free(void *userData) noexcept nogil:
     with gil:
@@ -3656,7 +3656,7 @@ cdef class Function(object):
         if err:
             emsg = err
             self.funcs.freeMap(outm)
-            msg_str = emsg.decode('utf-8')
+            msg_str = emsg.decode('utf-8', 'replace')
             env = _env_current()
             py_exc = env.retrieve_exception(msg_str) if env is not None else None
             raise py_exc or Error(msg_str)
-- 
2.43.0


From 8642ff6ceea5190656194b13e8c8299ca7c6a2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:15 +0000
Subject: [PATCH 24/37] fix: report errors and messages that can't be encoded
 as utf-8

Texts with surrogates, as in file names that aren't valid utf-8, replaced the
error of a script, made the call of a function seem to succeed and turned a
logged message into an exception.
---
 src/cython/vapoursynth.pyx | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 325cc74..948080c 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3243,7 +3243,7 @@ cdef class Core(object):
         self.ensure_valid()
         # released gil, the log api dispatches to handlers that acquire the gil so calling in
         # while holding it can deadlock against a thread mid message delivery
-        cdef bytes message_bytes = message.encode('utf-8')
+        cdef bytes message_bytes = message.encode('utf-8', 'backslashreplace')
         cdef const char *message_cstr = message_bytes
         with nogil:
             self.funcs.logMessage(message_type, message_cstr, self.core)
@@ -3764,10 +3764,10 @@ cdef void __stdcall publicFunction(const VSMap *inm, VSMap *outm, void *userData
             if (isinstance(e, BaseException) and not isinstance(e, Exception)) or isinstance(e, FutureCancelledError):
                 exc_id = d.env.store_exception(e) if d.env is not None else 0
                 tb_str = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
-                emsg = f"[VS_PY_EXC_ID:{exc_id}]\n{tb_str}".encode('utf-8')
+                emsg = f"[VS_PY_EXC_ID:{exc_id}]\n{tb_str}".encode('utf-8', 'backslashreplace')
                 vsapi.mapSetError(outm, emsg)
             else:
-                emsg = b'\n' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)).encode('utf-8')
+                emsg = b'\n' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)).encode('utf-8', 'backslashreplace')
                 vsapi.mapSetError(outm, emsg)
 
 
@@ -3944,19 +3944,19 @@ cdef int _vpy_evaluate(VSScript *se, bytes script, str filename):
         except OverflowError:
             se.exitCode = 1
         errstr = 'Python exit with code ' + str(e.code) + '\n'
-        errstr = errstr.encode('utf-8')
+        errstr = errstr.encode('utf-8', 'backslashreplace')
         Py_INCREF(errstr)
         se.errstr = <void *>errstr
         return 3
     except BaseException, e:
         errstr = 'Python exception: ' + str(e) + '\n\n' + traceback.format_exc()
-        errstr = errstr.encode('utf-8')
+        errstr = errstr.encode('utf-8', 'backslashreplace')
         Py_INCREF(errstr)
         se.errstr = <void *>errstr
         return 2
     except:
         errstr = 'Unspecified Python exception' + '\n\n' + traceback.format_exc()
-        errstr = errstr.encode('utf-8')
+        errstr = errstr.encode('utf-8', 'backslashreplace')
         Py_INCREF(errstr)
         se.errstr = <void *>errstr
         return 1
@@ -3970,7 +3970,7 @@ cdef public api int vpy4_createScript(VSScript *se) nogil:
 
         except:
             errstr = 'Unspecified Python exception' + '\n\n' + traceback.format_exc()
-            errstr = errstr.encode('utf-8')
+            errstr = errstr.encode('utf-8', 'backslashreplace')
             Py_INCREF(errstr)
             se.errstr = <void *>errstr
             return 1
@@ -3998,7 +3998,7 @@ cdef public api int vpy4_evaluateBuffer(VSScript *se, const char *buffer, const
 
         except BaseException, e:
             errstr = 'File reading exception:\n' + str(e)
-            errstr = errstr.encode('utf-8')
+            errstr = errstr.encode('utf-8', 'backslashreplace')
             Py_INCREF(errstr)
             se.errstr = <void *>errstr
             return 2
@@ -4014,13 +4014,13 @@ cdef public api int vpy4_evaluateFile(VSScript *se, const char *scriptFilename)
             return vpy4_evaluateBuffer(se, script, scriptFilename)
         except BaseException, e:
             errstr = 'File reading exception:\n' + str(e)
-            errstr = errstr.encode('utf-8')
+            errstr = errstr.encode('utf-8', 'backslashreplace')
             Py_INCREF(errstr)
             se.errstr = <void *>errstr
             return 2
         except:
             errstr = 'Unspecified file reading exception'
-            errstr = errstr.encode('utf-8')
+            errstr = errstr.encode('utf-8', 'backslashreplace')
             Py_INCREF(errstr)
             se.errstr = <void *>errstr
             return 1
-- 
2.43.0


From 929dcaf04b743be9406c77b83a51908120fc0f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:31 +0000
Subject: [PATCH 25/37] fix: escape the library path in shell configuration
 files

Quotes, dollar signs, backquotes and backslashes in the path made the shell
set the variable to something else or run commands.
---
 src/py/_shell.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/py/_shell.py b/src/py/_shell.py
index 9abbd85..a00e3f4 100644
--- a/src/py/_shell.py
+++ b/src/py/_shell.py
@@ -167,10 +167,16 @@ class Shell(StrEnum):
         """Return the command necessary to export VSSCRIPT_PATH in this shell."""
         match self:
             case Shell.BASH | Shell.ZSH | Shell.KSH:
+                path = re.sub(r'([\\"$`])', r"\\\1", path)
                 return f'export VSSCRIPT_PATH="{path}"'
             case Shell.FISH:
+                path = re.sub(r'([\\"$])', r"\\\1", path)
                 return f'set -gx VSSCRIPT_PATH "{path}"'
             case Shell.CSH:
+                if re.search(r'["$`!]', path):
+                    # These can't be escaped within double quotes
+                    path = path.replace("'", "'\\''").replace("!", "\\!")
+                    return f"setenv VSSCRIPT_PATH '{path}'"
                 return f'setenv VSSCRIPT_PATH "{path}"'
 
     def match_pattern(self) -> re.Pattern:
-- 
2.43.0


From ceeb5a5ab7c5c98535e0eba6c931f8e6fe495b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:44 +0000
Subject: [PATCH 26/37] fix: release frames dropped from caches without holding
 any locks

Frame properties can own the last reference to a node or function. The caches
released frames with the cache lock or the core's list of caches locked,
and the thread pool with its task lock held, destroying such a node then tried
to lock the list of caches again and deadlocked. The free functions of functions
and filters also ran with the locks held, where they may block on other locks
(the GIL with Python).
---
 src/core/vscore.cpp       | 31 +++++++++++++++++++++------
 src/core/vscore.h         | 45 +++++++++++++++++++++++++++++++++++----
 src/core/vsthreadpool.cpp | 19 +++++++++++++----
 3 files changed, 80 insertions(+), 15 deletions(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 297f4fa..d37574c 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -867,6 +867,7 @@ void VSNode::updateCacheState() {
 }
 
 void VSNode::addConsumer(VSNode *consumer, int strictSpatial) {
+    VSDroppedFrames dropped;
     {
         std::lock_guard<std::mutex> lock(cacheMutex);
         consumers.push_back({consumer, strictSpatial});
@@ -877,6 +878,7 @@ void VSNode::addConsumer(VSNode *consumer, int strictSpatial) {
 }
 
 void VSNode::removeConsumer(VSNode *consumer, int strictSpatial) {
+    VSDroppedFrames dropped;
     {
         std::lock_guard<std::mutex> lock(cacheMutex);
         for (auto iter = consumers.begin(); iter != consumers.end(); ++iter) {
@@ -989,6 +991,7 @@ const VSMap *VSNode::getCreationFunctionArguments(int level) const {
 }
 
 int VSNode::setLinear() {
+    VSDroppedFrames dropped;
     {
         size_t threadCount = core->threadPool->threadCount();
         std::lock_guard<std::mutex> lock(cacheMutex);
@@ -1004,6 +1007,7 @@ int VSNode::setLinear() {
 }
 
 void VSNode::setCacheMode(int mode) {
+    VSDroppedFrames dropped;
     {
         std::lock_guard<std::mutex> lock(cacheMutex);
 
@@ -1037,6 +1041,7 @@ void VSNode::setCacheMode(int mode) {
 }
 
 void VSNode::setCacheOptions(int fixedSize, int maxSize, int maxHistorySize) {
+    VSDroppedFrames dropped;
     std::lock_guard<std::mutex> lock(cacheMutex);
     if (fixedSize >= 0)
         cache.setFixedSize(!!fixedSize);
@@ -1046,12 +1051,16 @@ void VSNode::setCacheOptions(int fixedSize, int maxSize, int maxHistorySize) {
         cache.setMaxHistory(maxHistorySize);
 }
 
-PVSFrame VSNode::getCachedFrameInternal(int n) {
-    std::lock_guard<std::mutex> lock(cacheMutex);
-    if (cacheEnabled)
-        return cache.object(n);
-    else
-        return nullptr;
+PVSFrame VSNode::getCachedFrameInternal(int n, std::vector<PVSFrame> &droppedFrames) {
+    VSDroppedFrames dropped;
+    PVSFrame f;
+    {
+        std::lock_guard<std::mutex> lock(cacheMutex);
+        if (cacheEnabled)
+            f = cache.object(n);
+    }
+    dropped.moveTo(droppedFrames);
+    return f;
 }
 
 PVSFrame VSNode::getFrameInternal(int n, int activationReason, VSFrameContext *frameCtx) {
@@ -1107,6 +1116,7 @@ PVSFrame VSNode::getFrameInternal(int n, int activationReason, VSFrameContext *f
         PVSFrame ref(const_cast<VSFrame *>(r));
 
         if (cacheEnabled) {
+            VSDroppedFrames dropped;
             std::lock_guard<std::mutex> lock(cacheMutex);
             int lastFrame = (nodeType == mtVideo ? vi.numFrames : ai.numFrames) - 1;
             if (cacheEnabled && (!cacheLastOnly || n == lastFrame))
@@ -1151,12 +1161,14 @@ void VS_CC MakeLinearWrapper::freeFilter(void *instanceData, VSCore *core, const
 }
 
 void VSNode::cacheFrame(const VSFrame *frame, int n) {
+    VSDroppedFrames dropped;
     std::lock_guard<std::mutex> lock(cacheMutex);
     assert(cacheLinear);
     cache.insert(n, {const_cast<VSFrame *>(frame), true});
 }
 
 void VSNode::clearCache(bool resetSize) {
+    VSDroppedFrames dropped;
     std::lock_guard<std::mutex> lock(cacheMutex);
     cache.clear();
     if (resetSize && !cacheLinear && !cache.getFixedSize())
@@ -1164,6 +1176,7 @@ void VSNode::clearCache(bool resetSize) {
 }
 
 void VSNode::notifyCache(bool memoryComfortable, uint64_t completedExtFrames) {
+    VSDroppedFrames dropped;
     std::lock_guard<std::mutex> lock(cacheMutex);
     cache.adjustSize(memoryComfortable, completedExtFrames);
 }
@@ -1174,6 +1187,7 @@ VSNode::CachePressureInfo VSNode::getCachePressureInfo() {
 }
 
 size_t VSNode::evictCacheBytes(size_t maxBytes) {
+    VSDroppedFrames dropped;
     std::lock_guard<std::mutex> lock(cacheMutex);
     return cache.dropLRUFrames(maxBytes);
 }
@@ -1210,6 +1224,7 @@ int64_t VSNode::expectedTransientAllocation() const {
 
 void VSCore::notifyCaches(bool needMemory) {
     uint64_t completedExtFrames = threadPool->getCompletedExternalFrames();
+    VSDroppedFrames dropped;
     std::lock_guard<std::mutex> lock(cacheLock);
 
     if (needMemory) {
@@ -1977,6 +1992,7 @@ void VSCore::destroyFilterInstance(VSNode *node) {
 }
 
 void VSCore::clearCaches(bool resetSize) {
+    VSDroppedFrames dropped;
     std::lock_guard<std::mutex> lock(cacheLock);
     for (const auto &iter : caches)
         iter->clearCache(resetSize);
@@ -2551,7 +2567,7 @@ size_t VSNode::VSCache::evictFrames(int maxCount, size_t byteBudget) {
 
         if (weakpoint) {
             freed += subtractFrameBytes(*weakpoint);
-            weakpoint->frame.reset();
+            VSDroppedFrames::drop(weakpoint->frame);
         }
 
         currentSize--;
@@ -2633,5 +2649,6 @@ ptrdiff_t VSFrame::alignment = 32;
 #endif
 
 thread_local VSNode *VSCore::currentProcessingNode = nullptr;
+thread_local VSDroppedFrames *VSDroppedFrames::current = nullptr;
 thread_local PVSFunctionFrame VSCore::functionFrame;
 std::atomic<uint64_t> VSFrame::allocationSeq = 0;
\ No newline at end of file
diff --git a/src/core/vscore.h b/src/core/vscore.h
index e2052a0..9bf7284 100644
--- a/src/core/vscore.h
+++ b/src/core/vscore.h
@@ -650,6 +650,40 @@ struct VSFunctionFrame {
 
 
 
+// Frame properties can hold the last reference to nodes and functions, and destroying those takes locks and runs user code.
+// While an instance exists the frames the caches of the current thread let go of are only released when it goes away. Declare
+// it ahead of the locks.
+class VSDroppedFrames {
+private:
+    static thread_local VSDroppedFrames *current;
+    bool outermost;
+    std::vector<PVSFrame> frames;
+public:
+    VSDroppedFrames() : outermost(!current) {
+        if (outermost)
+            current = this;
+    }
+
+    VSDroppedFrames(const VSDroppedFrames &) = delete;
+    VSDroppedFrames &operator=(const VSDroppedFrames &) = delete;
+
+    ~VSDroppedFrames() {
+        if (outermost)
+            current = nullptr;
+    }
+
+    void moveTo(std::vector<PVSFrame> &target) {
+        target.insert(target.end(), std::make_move_iterator(frames.begin()), std::make_move_iterator(frames.end()));
+        frames.clear();
+    }
+
+    static void drop(PVSFrame &frame) {
+        if (current)
+            current->frames.push_back(std::move(frame));
+        frame.reset();
+    }
+};
+
 struct VSNode {
     friend class VSThreadPool;
     friend struct VSCore;
@@ -721,6 +755,7 @@ private:
 
             if (n.frame) {
                 subtractFrameBytes(n);
+                VSDroppedFrames::drop(n.frame);
                 currentSize--;
             } else {
                 historySize--;
@@ -770,12 +805,12 @@ private:
                 if (currentSize > maxSize) {
                     weakpoint = last;
                     subtractFrameBytes(*weakpoint);
-                    weakpoint->frame.reset();
+                    VSDroppedFrames::drop(weakpoint->frame);
                 }
             } else if (&n == origWeakPoint || historySize > maxHistorySize) {
                 weakpoint = weakpoint->prevNode;
                 subtractFrameBytes(*weakpoint);
-                weakpoint->frame.reset();
+                VSDroppedFrames::drop(weakpoint->frame);
             }
 
             assert(historySize <= maxHistorySize);
@@ -829,6 +864,8 @@ private:
         }
 
         inline void clear() {
+            for (auto &iter : hash)
+                VSDroppedFrames::drop(iter.second.frame);
             hash.clear();
             first = nullptr;
             last = nullptr;
@@ -917,7 +954,7 @@ private:
     vs3::VSVideoInfo v3vi = {};
 
     void registerCache(bool add);
-    PVSFrame getCachedFrameInternal(int n);
+    PVSFrame getCachedFrameInternal(int n, std::vector<PVSFrame> &droppedFrames);
     PVSFrame getFrameInternal(int n, int activationReason, VSFrameContext *frameCtx);
     void updateTransientAllocEstimate(int64_t sample);
 public:
@@ -1050,7 +1087,7 @@ private:
 public:
     VSThreadPool(VSCore *core);
     ~VSThreadPool();
-    void returnFrame(VSFrameContext *rCtx, const PVSFrame &f, std::unique_lock<std::mutex> &lock);
+    void returnFrame(VSFrameContext *rCtx, PVSFrame &f, std::unique_lock<std::mutex> &lock);
     size_t threadCount();
     size_t setThreadCount(size_t threads);
     void startExternal(const PVSFrameContext &context);
diff --git a/src/core/vsthreadpool.cpp b/src/core/vsthreadpool.cpp
index 9392133..a6078e7 100644
--- a/src/core/vsthreadpool.cpp
+++ b/src/core/vsthreadpool.cpp
@@ -90,14 +90,18 @@ void VSThreadPool::runTasks(bool &stop) {
     std::unique_lock<std::mutex> lock(taskLock);
 
     std::string deferredLog;
+    std::vector<PVSFrame> droppedFrames;
 
     while (true) {
         // status messages are built while holding taskLock but only emitted here after releasing it,
         // log handlers can block on locks whose holders in turn take taskLock (the python bindings
         // acquire the GIL in their handler) so dispatching them under the lock can deadlock
-        if (!deferredLog.empty()) {
+        // frames are released here for the same reason, see VSDroppedFrames
+        if (!deferredLog.empty() || !droppedFrames.empty()) {
             lock.unlock();
-            core->logMessage(mtInformation, deferredLog);
+            droppedFrames.clear();
+            if (!deferredLog.empty())
+                core->logMessage(mtInformation, deferredLog);
             deferredLog.clear();
             lock.lock();
         }
@@ -121,7 +125,7 @@ void VSThreadPool::runTasks(bool &stop) {
 // Fast path if a frame is cached
 
             if (node->cacheEnabled && frameContext->first) {
-                PVSFrame f = node->getCachedFrameInternal(frameContext->key.second);
+                PVSFrame f = node->getCachedFrameInternal(frameContext->key.second, droppedFrames);
 
                 if (f) {
                     bool needsSort = false;
@@ -241,6 +245,10 @@ void VSThreadPool::runTasks(bool &stop) {
             if (frameContext->hasError() && f)
                 core->logFatal("A frame was returned by " + node->name + " but an error was also set, this is not allowed");
 
+            // don't release the input frames while holding taskLock
+            if (frameProcessingDone)
+                frameContext->availableFrames.clear();
+
 /////////////////////////////////////////////////////////////////////////////////////////////
 // Unlock so the next job can run on the context
             if (useSerialLock) {
@@ -355,7 +363,9 @@ void VSThreadPool::runTasks(bool &stop) {
 
             if (++idleThreads == allThreads.size()) {
                 if (flushCaches) {
+                    VSDroppedFrames dropped;
                     core->clearCaches(true);
+                    dropped.moveTo(droppedFrames);
                     flushCaches = false;
                     lastCacheSweep = steadyClockNow();
                     overLimitSince = 0; // require another full interval over the limit before flushing again
@@ -467,7 +477,7 @@ void VSThreadPool::startExternal(const PVSFrameContext &context) {
     }
 }
 
-void VSThreadPool::returnFrame(VSFrameContext *rCtx, const PVSFrame &f, std::unique_lock<std::mutex> &lock) {
+void VSThreadPool::returnFrame(VSFrameContext *rCtx, PVSFrame &f, std::unique_lock<std::mutex> &lock) {
     assert(rCtx->frameDone);
     completedExternalFrames.fetch_add(1, std::memory_order_relaxed);
     bool outputLock = rCtx->lockOnOutput;
@@ -504,6 +514,7 @@ void VSThreadPool::returnFrame(VSFrameContext *rCtx, const PVSFrame &f, std::uni
     }
     if (core->enableFrameRefDebug)
         core->logMessage(mtInformation, core->getFrameRefInfo());
+    f.reset();
     lock.lock();
     if (reserveThread) {
         ++activeThreads;
-- 
2.43.0


From 44f4c53beb241159912879c2adb5b3bebd1e8402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:14 +0000
Subject: [PATCH 27/37] fix: python: don't hold the gil when something may be
 freed

The free functions of filters and functions can log. When that happened with the
gil held while another thread was delivering a message to a python log handler
the process hung. Clearing caches and dropping frames can free nodes and
functions as well, these are properties of frames.
---
 src/cython/vapoursynth.pyx | 59 +++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 948080c..48640c0 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -316,10 +316,13 @@ cdef EnvironmentData _owner(Core core):
     return core.env()
 
 # Tracks a request until _end_request so that destroying the environment can wait for it.
-cdef object _begin_request(RawNode node, EnvironmentData env):
+cdef object _begin_request(RawNode node, EnvironmentData env, Core core = None):
     fut = Future()
     fut.set_running_or_notify_cancel()
-    node.ensure_valid()
+    if node is not None:
+        node.ensure_valid()
+    else:
+        core.ensure_valid()
     if env is not None:
         if env.active_futures is None:
             raise Error("The environment has been destroyed.")
@@ -535,6 +538,8 @@ cdef class EnvironmentPolicyAPI:
             env.known_frames = None
 
         # Invalidate all remaining nodes and frames from this environment
+        # released gil, here and wherever else the last reference to something may go away, because
+        # the free functions of filters and of functions can log, see _set_logger
         cdef VSNode *n
         for node in nodes:
             rn = <RawNode>node
@@ -543,7 +548,8 @@ cdef class EnvironmentPolicyAPI:
                 rn.node = NULL
                 rn.core = None
                 if rn.funcs:
-                    rn.funcs.freeNode(n)
+                    with nogil:
+                        rn.funcs.freeNode(n)
 
         cdef const VSFrame *f
         for frame in frames:
@@ -552,7 +558,8 @@ cdef class EnvironmentPolicyAPI:
             if f:
                 rf.constf = NULL
                 if rf.funcs:
-                    rf.funcs.freeFrame(f)
+                    with nogil:
+                        rf.funcs.freeFrame(f)
 
         _unset_logger(env)
 
@@ -1003,7 +1010,8 @@ cdef class Func(object):
 
     def __dealloc__(self):
         if self.funcs:
-            self.funcs.freeFunction(self.ref)
+            with nogil:
+                self.funcs.freeFunction(self.ref)
 
     def __call__(self, **kwargs):
         cdef VSMap *outm
@@ -1026,8 +1034,9 @@ cdef class Func(object):
                 raise py_exc or Error(msg_str)
             return mapToDict(outm, True)
         finally:
-            vsapi.freeMap(outm)
-            vsapi.freeMap(inm)
+            with nogil:
+                vsapi.freeMap(outm)
+                vsapi.freeMap(inm)
 
 cdef Func createFuncPython(object func, VSCore *core, const VSAPI *funcs):
     cdef Func instance = Func.__new__(Func)
@@ -1089,7 +1098,8 @@ cdef class FramePtr(object):
 
     def __dealloc__(self):
         if self.funcs:
-            self.funcs.freeFrame(self.f)
+            with nogil:
+                self.funcs.freeFrame(self.f)
 
 cdef FramePtr createFramePtr(const VSFrame *f, const VSAPI *funcs):
     cdef FramePtr instance = FramePtr.__new__(FramePtr)
@@ -1106,7 +1116,7 @@ cdef void __stdcall frameDoneCallback(void *data, const VSFrame *f, int n, VSNod
         try:
             if d.node.node == NULL or d.node.core is None:
                 if f != NULL:
-                    d.funcs.freeFrame(f)
+                    createFramePtr(f, d.funcs)
                 error = Error("Use of invalidated VideoNode (the environment has been destroyed).")
             elif f == NULL:
                 error_str = 'Internal error - no error message.'
@@ -1687,7 +1697,8 @@ cdef class RawFrame(object):
 
     def __dealloc__(self):
         if self.funcs:
-            self.funcs.freeFrame(self.constf)
+            with nogil:
+                self.funcs.freeFrame(self.constf)
 
     def copy(self):
         raise NotImplementedError
@@ -1704,9 +1715,11 @@ cdef class RawFrame(object):
         if self.closed:
             return
 
-        if self.funcs:
-            self.funcs.freeFrame(self.constf)
+        cdef const VSFrame *constf = self.constf
         self.constf = NULL
+        if self.funcs:
+            with nogil:
+                self.funcs.freeFrame(constf)
 
     def __getitem__(self, index):
         raise NotImplementedError
@@ -2331,7 +2344,10 @@ cdef class RawNode(object):
 
     def clear_cache(self):
         self.ensure_valid()
-        self.funcs.clearNodeCache(self.node)
+        cdef VSNode *node = self.funcs.addNodeRef(self.node)
+        with nogil:
+            self.funcs.clearNodeCache(node)
+            self.funcs.freeNode(node)
 
     # Inspect API
     cdef bint _inspectable(self):
@@ -2441,7 +2457,8 @@ cdef class RawNode(object):
 
     def __dealloc__(self):
         if self.funcs != NULL and self.node != NULL:
-            self.funcs.freeNode(self.node)
+            with nogil:
+                self.funcs.freeNode(self.node)
             self.node = NULL
 
 
@@ -3270,7 +3287,14 @@ cdef class Core(object):
 
     def clear_cache(self):
         self.ensure_valid()
-        self.funcs.clearCoreCaches(self.core)
+        cdef EnvironmentData env = _owner(self)
+        # tracked so environment teardown doesn't free the core meanwhile
+        fut = _begin_request(None, env, self)
+        try:
+            with nogil:
+                self.funcs.clearCoreCaches(self.core)
+        finally:
+            _end_request(env, fut)
 
     @property
     def core_version(self):
@@ -3649,7 +3673,7 @@ cdef class Function(object):
         cname = tname
         with nogil:
             outm = self.funcs.invoke(self.plugin.plugin, cname, inm)
-        self.funcs.freeMap(inm)
+            self.funcs.freeMap(inm)
         cdef const char *err = self.funcs.mapGetError(outm)
         cdef bytes emsg
 
@@ -3662,7 +3686,8 @@ cdef class Function(object):
             raise py_exc or Error(msg_str)
 
         retdict = mapToDict(outm, True, self.plugin.core)
-        self.funcs.freeMap(outm)
+        with nogil:
+            self.funcs.freeMap(outm)
         return retdict
 
     def __repr__(self):
-- 
2.43.0


From ef79f4914857ef8a6d68790834daed7c36585d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:44 +0000
Subject: [PATCH 28/37] fix: python: output() handles files that write less
 than they're given

---
 src/cython/vapoursynth.pyx | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 48640c0..9509d52 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2462,6 +2462,16 @@ cdef class RawNode(object):
             self.node = NULL
 
 
+# unbuffered files may write less than they're given, for example when the disk fills up
+cdef object _write_all(object write, object data):
+    written = write(data)
+    while type(written) is int and written < len(data):
+        if written <= 0:
+            raise OSError("Failed to write all data to the file")
+        data = memoryview(data)[written:]
+        written = write(data)
+
+
 cdef class VideoNode(RawNode):
     cdef const VSVideoInfo *vi
     cdef readonly VideoFormat format
@@ -2580,7 +2590,7 @@ cdef class VideoNode(RawNode):
                 f"YUV4MPEG2 C{y4mformat} W{self.width} H{self.height} F{self.fps_num}:{self.fps_den} "
                 f"Ip A0:0 XLENGTH={self.num_frames}\n"
             )
-            fileobj.write(data.encode("ascii"))
+            _write_all(fileobj.write, data.encode("ascii"))
 
         write = fileobj.write
         total = self.num_frames
@@ -2606,7 +2616,7 @@ cdef class VideoNode(RawNode):
         try:
             for idx, frame in enumerate(self.frames(prefetch, backlog, close=True)):
                 if y4m:
-                    write(b"FRAME\n")
+                    _write_all(write, b"FRAME\n")
 
                 constf = (<VideoFrame>frame).constf
                 fi = lib.getVideoFrameFormat(constf)
@@ -2617,11 +2627,11 @@ cdef class VideoNode(RawNode):
                     height = lib.getFrameHeight(constf, p)
 
                     if stride == <ptrdiff_t>rowSize:
-                        write(PyMemoryView_FromMemory(<char *>readPtr, rowSize * height, PyBUF_READ))
+                        _write_all(write, PyMemoryView_FromMemory(<char *>readPtr, rowSize * height, PyBUF_READ))
                     else:
                         with nogil:
                             bitblt(buffer, rowSize, readPtr, stride, rowSize, height)
-                        write(PyMemoryView_FromMemory(<char *>buffer, rowSize * height, PyBUF_READ))
+                        _write_all(write, PyMemoryView_FromMemory(<char *>buffer, rowSize * height, PyBUF_READ))
 
                 alpha = frame.props.get("_Alpha")
                 if alpha is not None:
@@ -2637,11 +2647,11 @@ cdef class VideoNode(RawNode):
                         height = lib.getFrameHeight(constf, p)
 
                         if stride == <ptrdiff_t>rowSize:
-                            write(PyMemoryView_FromMemory(<char *>readPtr, rowSize * height, PyBUF_READ))
+                            _write_all(write, PyMemoryView_FromMemory(<char *>readPtr, rowSize * height, PyBUF_READ))
                         else:
                             with nogil:
                                 bitblt(buffer, rowSize, readPtr, stride, rowSize, height)
-                            write(PyMemoryView_FromMemory(<char *>buffer, rowSize * height, PyBUF_READ))
+                            _write_all(write, PyMemoryView_FromMemory(<char *>buffer, rowSize * height, PyBUF_READ))
 
                     alpha.close()
 
@@ -2901,7 +2911,7 @@ cdef class AudioNode(RawNode):
                     self.num_samples,
                 ):
                     raise Error("Failed to create WAVE64 header")
-                write((<char *>&w64hdr)[:sizeof(Wave64Header)])
+                _write_all(write, (<char *>&w64hdr)[:sizeof(Wave64Header)])
             elif wav:
                 if not CreateWaveHeader(
                     whdr,
@@ -2912,7 +2922,7 @@ cdef class AudioNode(RawNode):
                     self.num_samples,
                 ):
                     raise Error("Failed to create WAV header")
-                write((<char *>&whdr)[:sizeof(WaveHeader)])
+                _write_all(write, (<char *>&whdr)[:sizeof(WaveHeader)])
 
             for idx, frame in enumerate(self.frames(prefetch, backlog, close=True)):
                 af = <AudioFrame>frame
@@ -2934,7 +2944,7 @@ cdef class AudioNode(RawNode):
 
                     pack_func(src_ptrs, interleave_buffer, num_samples_in_frame, self.num_channels)
 
-                write((<char *>interleave_buffer)[:required_size])
+                _write_all(write, (<char *>interleave_buffer)[:required_size])
 
                 if progress_update is not None:
                     progress_update(idx + 1, self.num_frames)
-- 
2.43.0


From d24199f98e946ebabe07eedfea6532b00eb1b8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:54 +0000
Subject: [PATCH 29/37] fix: python: output() handles alpha frames of any size

---
 src/cython/vapoursynth.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 9509d52..53043a5 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2599,6 +2599,7 @@ cdef class VideoNode(RawNode):
             const VSAPI *lib = self.funcs
             const VSVideoFormat *fi
             uint8_t *buffer = NULL
+            uint8_t *new_buffer
             size_t buffer_size = <size_t>0
             ptrdiff_t stride
             const uint8_t *readPtr
@@ -2637,6 +2638,8 @@ cdef class VideoNode(RawNode):
                 if alpha is not None:
                     if y4m:
                         raise ValueError("Can only apply y4m headers to clips without alpha")
+                    if not isinstance(alpha, VideoFrame):
+                        raise ValueError("The _Alpha frame property must be a single video frame")
 
                     constf = (<VideoFrame>alpha).constf
                     fi = lib.getVideoFrameFormat(constf)
@@ -2646,6 +2649,14 @@ cdef class VideoNode(RawNode):
                         rowSize = <size_t>lib.getFrameWidth(constf, p) * fi.bytesPerSample
                         height = lib.getFrameHeight(constf, p)
 
+                        # the alpha frame isn't necessarily as big as the clip's frames
+                        if rowSize * height > buffer_size:
+                            new_buffer = <uint8_t *>realloc(buffer, rowSize * height)
+                            if not new_buffer:
+                                raise Error("Failed to reallocate output buffer")
+                            buffer = new_buffer
+                            buffer_size = rowSize * height
+
                         if stride == <ptrdiff_t>rowSize:
                             _write_all(write, PyMemoryView_FromMemory(<char *>readPtr, rowSize * height, PyBUF_READ))
                         else:
-- 
2.43.0


From e293cd63408ee8ee19930cd93eb22c538134b156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 30/37] fix: python: functions can't be called once their
 environment has been destroyed

---
 src/cython/vapoursynth.pyx | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 53043a5..0313a68 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1004,6 +1004,8 @@ cdef FuncData createFuncData(object func, VSCore *core, EnvironmentData env):
 cdef class Func(object):
     cdef const VSAPI *funcs
     cdef VSFunction *ref
+    # functions don't keep the core they're called with
+    cdef Core core
 
     def __init__(self):
         raise Error('Class cannot be instantiated directly')
@@ -1013,7 +1015,21 @@ cdef class Func(object):
             with nogil:
                 self.funcs.freeFunction(self.ref)
 
+    cdef ensure_valid(self):
+        if self.core is None or self.core.core == NULL:
+            raise Error("Use of invalidated Func (the environment has been destroyed).")
+
     def __call__(self, **kwargs):
+        self.ensure_valid()
+        cdef EnvironmentData owner = _owner(self.core)
+        # tracked so environment teardown doesn't free the core meanwhile
+        fut = _begin_request(None, owner, self.core)
+        try:
+            return self._call(kwargs)
+        finally:
+            _end_request(owner, fut)
+
+    cdef object _call(self, dict kwargs):
         cdef VSMap *outm
         cdef VSMap *inm
         cdef const VSAPI *vsapi
@@ -1032,7 +1048,7 @@ cdef class Func(object):
                 env = _env_current()
                 py_exc = env.retrieve_exception(msg_str) if env is not None else None
                 raise py_exc or Error(msg_str)
-            return mapToDict(outm, True)
+            return mapToDict(outm, True, self.core)
         finally:
             with nogil:
                 vsapi.freeMap(outm)
@@ -1045,16 +1061,18 @@ cdef Func createFuncPython(object func, VSCore *core, const VSAPI *funcs):
     cdef EnvironmentData env = _env_current()
     if env is None:
         raise Error('Internal environment id not set. Did the environment die?')
+    instance.core = env.core
     fdata = createFuncData(func, core, env)
 
     Py_INCREF(fdata)
     instance.ref = instance.funcs.createFunction(publicFunction, <void *>fdata, freeFunc, core)
     return instance
 
-cdef Func createFuncRef(VSFunction *ref, const VSAPI *funcs):
+cdef Func createFuncRef(VSFunction *ref, const VSAPI *funcs, Core core):
     cdef Func instance = Func.__new__(Func)
     instance.funcs = funcs
     instance.ref = ref
+    instance.core = core
     return instance
 
 
@@ -1187,7 +1205,7 @@ cdef object mapToDict(const VSMap *map, bint flatten, Core core = None):
             elif proptype == ptVideoFrame or proptype == ptAudioFrame:
                 newval = createConstFrame(funcs.mapGetFrame(map, retkey, y, NULL), funcs, _get_core() if core is None else core)
             elif proptype == ptFunction:
-                newval = createFuncRef(funcs.mapGetFunction(map, retkey, y, NULL), funcs)
+                newval = createFuncRef(funcs.mapGetFunction(map, retkey, y, NULL), funcs, _get_core() if core is None else core)
 
             if y == 0:
                 vval = newval
@@ -1243,6 +1261,7 @@ cdef void dictToMap(dict ndict, VSMap *inm, VSCore *core, const VSAPI *funcs) ex
                 if funcs.mapSetFrame(inm, ckey, (<RawFrame>v).constf, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, Func):
+                (<Func>v).ensure_valid()
                 if funcs.mapSetFunction(inm, ckey, (<Func>v).ref, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif callable(v):
@@ -1280,6 +1299,7 @@ cdef void typedDictToMap(dict ndict, dict atypes, VSMap *inm, VSCore *core, cons
                 if funcs.mapSetFrame(inm, ckey, (<RawFrame>v).constf, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif atypes[key][:4] == 'func' and isinstance(v, Func):
+                (<Func>v).ensure_valid()
                 if funcs.mapSetFunction(inm, ckey, (<Func>v).ref, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif atypes[key][:4] == 'func' and callable(v):
@@ -1473,7 +1493,7 @@ cdef class FrameProps(object):
                 ol.append(createConstFrame(self.funcs.mapGetFrame(m, b, i, NULL), self.funcs, self.frame.core))
         elif t == ptFunction:
             for i in range(numelem):
-                ol.append(createFuncRef(self.funcs.mapGetFunction(m, b, i, NULL), self.funcs))
+                ol.append(createFuncRef(self.funcs.mapGetFunction(m, b, i, NULL), self.funcs, self.frame.core))
 
         if len(ol) == 1:
             return ol[0]
@@ -1514,6 +1534,7 @@ cdef class FrameProps(object):
                     if funcs.mapSetFrame(m, b, (<RawFrame>v).constf, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, Func):
+                    (<Func>v).ensure_valid()
                     if funcs.mapSetFunction(m, b, (<Func>v).ref, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif callable(v):
-- 
2.43.0


From 9162f1af8b1c496f1449326866c06a4c1e161007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 31/37] fix: python: the inputs of a node belong to its
 environment

---
 src/cython/vapoursynth.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 0313a68..b33ba98 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2439,7 +2439,7 @@ cdef class RawNode(object):
         if not self._inspectable():
             raise Error("This node is not inspectable.")
 
-        return mapToDict(self.funcs.getNodeCreationFunctionArguments(self.node, 0), False)
+        return mapToDict(self.funcs.getNodeCreationFunctionArguments(self.node, 0), False, self.core)
 
     def __add__(self, other):
         raise NotImplementedError
-- 
2.43.0


From e73eba09a1bcc740db972de3d00a3de362516a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:22 +0000
Subject: [PATCH 32/37] fix: python: environments aren't freed while other
 threads invoke functions or log

---
 src/cython/vapoursynth.pyx | 65 +++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 11 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index b33ba98..2ce0f10 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -334,6 +334,19 @@ cdef object _end_request(EnvironmentData env, object fut):
         env.active_futures.discard(fut)
     fut.set_result(None)
 
+# Tracks a call into the core until _end_call so that the core isn't freed meanwhile. Unlike requests
+# such calls can be made for as long as the core exists.
+cdef object _begin_call(Core core):
+    fut = Future()
+    fut.set_running_or_notify_cancel()
+    core.ensure_valid()
+    core.calls.add(fut)
+    return fut
+
+cdef object _end_call(Core core, object fut):
+    core.calls.discard(fut)
+    fut.set_result(None)
+
 
 class EnvironmentPolicy(object):
 
@@ -570,6 +583,9 @@ cdef class EnvironmentPolicyAPI:
             core = c.core
             if core:
                 c.core = NULL
+                # by other threads
+                while c.calls:
+                    wait_futures(list(c.calls))
                 if c.funcs:
                     with nogil:
                         c.funcs.freeCore(core)
@@ -3194,6 +3210,7 @@ cdef class Core(object):
     cdef VSCore *core
     cdef const VSAPI *funcs
     cdef object env
+    cdef set calls
 
     cdef readonly object timings
 
@@ -3304,8 +3321,13 @@ cdef class Core(object):
         # while holding it can deadlock against a thread mid message delivery
         cdef bytes message_bytes = message.encode('utf-8', 'backslashreplace')
         cdef const char *message_cstr = message_bytes
-        with nogil:
-            self.funcs.logMessage(message_type, message_cstr, self.core)
+        cdef VSCore *core = self.core
+        call = _begin_call(self)
+        try:
+            with nogil:
+                self.funcs.logMessage(message_type, message_cstr, core)
+        finally:
+            _end_call(self, call)
 
     def add_log_handler(self, handler_func):
         self.ensure_valid()
@@ -3314,8 +3336,13 @@ cdef class Core(object):
         Py_INCREF(lh)
         cdef void *userData = <void *>lh
         cdef VSLogHandle *handle
-        with nogil:
-            handle = self.funcs.addLogHandler(log_handler_wrapper, log_handler_free, userData, self.core)
+        cdef VSCore *core = self.core
+        call = _begin_call(self)
+        try:
+            with nogil:
+                handle = self.funcs.addLogHandler(log_handler_wrapper, log_handler_free, userData, core)
+        finally:
+            _end_call(self, call)
         lh.handle = handle
         return lh
 
@@ -3323,8 +3350,13 @@ cdef class Core(object):
         self.ensure_valid()
         cdef VSLogHandle *h = handle.handle
         cdef bint result
-        with nogil:
-            result = self.funcs.removeLogHandler(h, self.core)
+        cdef VSCore *core = self.core
+        call = _begin_call(self)
+        try:
+            with nogil:
+                result = self.funcs.removeLogHandler(h, core)
+        finally:
+            _end_call(self, call)
         return result
 
     def clear_cache(self):
@@ -3415,6 +3447,7 @@ cdef Core createCore(EnvironmentData env):
         raise Error('Failed to obtain VapourSynth API pointer. Is the Python module and loaded core library mismatched?')
     instance.core = instance.funcs.createCore(env.coreCreationFlags)
     instance.env = weakref.ref(env)
+    instance.calls = set()
     instance.timings = createCoreTimings(instance)
     instance.creationFlags = env.coreCreationFlags
     if instance.core_version.release_major != VS_CURRENT_RELEASE:
@@ -3431,6 +3464,7 @@ cdef Core createCore2(VSCore *core, EnvironmentData env):
     instance.env = weakref.ref(env)
     instance.funcs.getCoreInfo2(instance.core, &v)
     instance.creationFlags = v.creationFlags
+    instance.calls = set()
     instance.timings = createCoreTimings(instance)
     if instance.core_version.release_major != VS_CURRENT_RELEASE:
         instance.log_message(mtWarning, f'Version mismatch: The VapourSynth Python module version is R{__version__.release_major:d} but the VapourSynth core library is R{instance.core_version.release_major:d}. This usually indicates a broken install.')
@@ -3638,10 +3672,18 @@ cdef class Function(object):
         return first_arg_i > 0 and self.signature.find(':anode') == first_arg_i
 
     def __call__(self, *args, **kwargs):
+        cdef EnvironmentData env = _owner(self.plugin.core)
+        # tracked so environment teardown doesn't free the core meanwhile
+        fut = _begin_request(None, env, self.plugin.core)
+        try:
+            return self._call(args, kwargs)
+        finally:
+            _end_request(env, fut)
+
+    cdef object _call(self, tuple args, dict kwargs):
         cdef VSMap *inm
         cdef VSMap *outm
         cdef char *cname
-        self.plugin.core.ensure_valid()
         arglist = list(args)
         if self.plugin.injected_arg is not None:
             arglist.insert(0, self.plugin.injected_arg)
@@ -3727,10 +3769,11 @@ cdef class Function(object):
             py_exc = env.retrieve_exception(msg_str) if env is not None else None
             raise py_exc or Error(msg_str)
 
-        retdict = mapToDict(outm, True, self.plugin.core)
-        with nogil:
-            self.funcs.freeMap(outm)
-        return retdict
+        try:
+            return mapToDict(outm, True, self.plugin.core)
+        finally:
+            with nogil:
+                self.funcs.freeMap(outm)
 
     def __repr__(self):
         sig = self.__signature__
-- 
2.43.0


From 4df6bcb8f58d89ac1b30d0965eca5867e3cea875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:28 +0000
Subject: [PATCH 33/37] fix: python: output() keeps the frame it writes

---
 src/cython/vapoursynth.pyx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 2ce0f10..1c056a6 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2656,7 +2656,10 @@ cdef class VideoNode(RawNode):
                 if y4m:
                     _write_all(write, b"FRAME\n")
 
+                (<VideoFrame>frame)._ensure_open()
                 constf = (<VideoFrame>frame).constf
+                # keeps the frame while it's written, even if the environment is destroyed
+                hold = createFramePtr(lib.addFrameRef(constf), lib)
                 fi = lib.getVideoFrameFormat(constf)
                 for p in range(fi.numPlanes):
                     stride = lib.getStride(constf, p)
@@ -2678,7 +2681,9 @@ cdef class VideoNode(RawNode):
                     if not isinstance(alpha, VideoFrame):
                         raise ValueError("The _Alpha frame property must be a single video frame")
 
+                    (<VideoFrame>alpha)._ensure_open()
                     constf = (<VideoFrame>alpha).constf
+                    hold = createFramePtr(lib.addFrameRef(constf), lib)
                     fi = lib.getVideoFrameFormat(constf)
                     for p in range(fi.numPlanes):
                         stride = lib.getStride(constf, p)
@@ -2703,6 +2708,8 @@ cdef class VideoNode(RawNode):
 
                     alpha.close()
 
+                hold = None
+
                 if progress_update is not None:
                     progress_update(idx + 1, total)
         finally:
@@ -2922,6 +2929,7 @@ cdef class AudioNode(RawNode):
             void (*pack_func)(const uint8_t *const *const, uint8_t *, size_t, size_t) noexcept nogil
 
             AudioFrame af
+            const VSFrame *constf
             int num_samples_in_frame
             size_t required_size
 
@@ -2974,7 +2982,11 @@ cdef class AudioNode(RawNode):
 
             for idx, frame in enumerate(self.frames(prefetch, backlog, close=True)):
                 af = <AudioFrame>frame
-                num_samples_in_frame = af.funcs.getFrameLength(af.constf)
+                af._ensure_open()
+                constf = af.constf
+                # keeps the frame while it's written, even if the environment is destroyed
+                hold = createFramePtr(af.funcs.addFrameRef(constf), af.funcs)
+                num_samples_in_frame = af.funcs.getFrameLength(constf)
                 required_size = <size_t>num_samples_in_frame * self.num_channels * bytes_per_output_sample
 
                 if required_size > buffer_size:
@@ -2988,10 +3000,11 @@ cdef class AudioNode(RawNode):
 
                 with nogil:
                     for c in range(self.num_channels):
-                        src_ptrs[c] = af.funcs.getReadPtr(af.constf, c)
+                        src_ptrs[c] = af.funcs.getReadPtr(constf, c)
 
                     pack_func(src_ptrs, interleave_buffer, num_samples_in_frame, self.num_channels)
 
+                hold = None
                 _write_all(write, (<char *>interleave_buffer)[:required_size])
 
                 if progress_update is not None:
-- 
2.43.0


From 5d989bd6dab9039910cdd74a0af234f29a711eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:47 +0000
Subject: [PATCH 34/37] fix: python: frame properties can change and frames be
 closed while iterating

---
 src/cython/vapoursynth.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 1c056a6..39e9c2b 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1588,8 +1588,8 @@ cdef class FrameProps(object):
         cdef const VSMap *m = self.funcs.getFramePropertiesRO(self.frame.constf)
         cdef int numkeys = self.funcs.mapNumKeys(m)
 
-        for i in range(numkeys):
-            yield self.funcs.mapGetKey(m, i).decode('utf-8')
+        # the properties may change and the frame may be closed while the caller iterates
+        return iter([self.funcs.mapGetKey(m, i).decode('utf-8') for i in range(numkeys)])
 
     def __len__(self):
         self.frame._ensure_open()
-- 
2.43.0


From d94ba0f9de2a02e35cb05fbf9942bc74dd16c05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:47 +0000
Subject: [PATCH 35/37] fix: python: keep all of a string frame property that
 contains null characters

---
 src/cython/vapoursynth.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 39e9c2b..c4f957e 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1564,7 +1564,8 @@ cdef class FrameProps(object):
                     if funcs.mapSetFloat(m, b, float(v), 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, str):
-                    if funcs.mapSetData(m, b, v.encode('utf-8'), -1, dtUtf8, 1) != 0:
+                    s = v.encode('utf-8')
+                    if funcs.mapSetData(m, b, s, <int>len(s), dtUtf8, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, (bytes, bytearray)):
                     if funcs.mapSetData(m, b, v, <int>len(v), dtBinary, 1) != 0:
-- 
2.43.0


From 98da7e5324ee22287659235a7196c2528b3dcc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:47 +0000
Subject: [PATCH 36/37] fix: python: copies of frames don't change when the
 original is written through a view

---
 src/cython/vapoursynth.pyx | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index c4f957e..03d0301 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1789,6 +1789,10 @@ cdef class RawFrame(object):
         cdef const uint8_t *d = self.funcs.getWritePtr(self.f, plane)
         if d == NULL:
             raise IndexError('Specified plane index out of range')
+        if self.funcs.getFrameType(self.f) == mtVideo:
+            self.flags &= ~(<unsigned>1 << plane+1)
+        else:
+            self.flags &= 1
         return ctypes.c_void_p(<uintptr_t>d)
 
     def get_read_ptr(self, int plane):
@@ -1820,7 +1824,9 @@ cdef class VideoFrame(RawFrame):
 
     def copy(self):
         self._ensure_open()
-        return createVideoFrame(self.funcs.copyFrame(self.constf, self.core.core), self.funcs, self.core)
+        cdef VSFrame *newf = self.funcs.copyFrame(self.constf, self.core.core)
+        _frame.detach(newf, self.funcs.getVideoFrameFormat(newf).numPlanes, self.flags, self.funcs)
+        return createVideoFrame(newf, self.funcs, self.core)
 
     def readchunks(self):
         self._ensure_open()
@@ -1949,6 +1955,15 @@ cdef class _frame:
         else:
             return <void*> lib.getReadPtr(frame, index)
 
+    @staticmethod
+    cdef void detach(VSFrame* frame, int numplanes, unsigned flags, const VSAPI* lib) noexcept nogil:
+        # the copied planes that can be written through memory handed out earlier can't be shared
+        cdef int plane
+        if flags & 1:
+            for plane in range(numplanes):
+                if not flags & (1 << plane+1):
+                    lib.getWritePtr(frame, plane)
+
 
 @cython.final
 @cython.internal
@@ -2042,7 +2057,9 @@ cdef class AudioFrame(RawFrame):
 
     def copy(self):
         self._ensure_open()
-        return createAudioFrame(self.funcs.copyFrame(self.constf, self.core.core), self.funcs, self.core)
+        cdef VSFrame *newf = self.funcs.copyFrame(self.constf, self.core.core)
+        _frame.detach(newf, 1, self.flags, self.funcs)  # there's only one plane in audio frames
+        return createAudioFrame(newf, self.funcs, self.core)
 
     @property
     def channels(self):
-- 
2.43.0


From bba9d7a6ec4b7970fb5c7ca1b1304ca840b364bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:47 +0000
Subject: [PATCH 37/37] fix: python: frames may be closed while their
 properties are read or set

---
 src/cython/vapoursynth.pyx | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 03d0301..a1ec50f 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1454,6 +1454,25 @@ cdef VideoFormat createVideoFormat(const VSVideoFormat *f, const VSAPI *funcs, V
     instance.id = funcs.queryVideoFormatID(instance.color_family, instance.sample_type, instance.bits_per_sample, instance.subsampling_w, instance.subsampling_h, core)
     return instance
 
+@cython.final
+@cython.internal
+cdef class FrameMapCopy(object):
+    cdef VSMap *map
+    cdef const VSAPI *funcs
+
+    def __dealloc__(self):
+        if self.funcs:
+            with nogil:
+                self.funcs.freeMap(self.map)
+
+cdef FrameMapCopy createFrameMapCopy(const VSMap *map, const VSAPI *funcs):
+    cdef FrameMapCopy instance = FrameMapCopy.__new__(FrameMapCopy)
+    instance.map = funcs.createMap()
+    instance.funcs = funcs
+    funcs.copyMap(map, instance.map)
+    return instance
+
+
 cdef class FrameProps(object):
     cdef RawFrame frame
     cdef VSCore *core
@@ -1472,7 +1491,9 @@ cdef class FrameProps(object):
 
     def __getitem__(self, str name):
         self.frame._ensure_open()
-        cdef const VSMap *m = self.funcs.getFramePropertiesRO(self.frame.constf)
+        # python code and other threads may run and close the frame or change its properties
+        cdef FrameMapCopy copy = createFrameMapCopy(self.funcs.getFramePropertiesRO(self.frame.constf), self.funcs)
+        cdef const VSMap *m = copy.map
         cdef bytes b = name.encode('utf-8')
         cdef list ol = []
         cdef int numelem = self.funcs.mapNumElements(m, b)
@@ -1520,6 +1541,8 @@ cdef class FrameProps(object):
         self.frame._ensure_open()
         if self.readonly:
             raise Error('Cannot delete properties of a read only object')
+        # the frame may be closed by the code that produces the values
+        cdef FramePtr hold = createFramePtr(self.funcs.addFrameRef(self.frame.constf), self.funcs)
         cdef VSMap *m = self.funcs.getFramePropertiesRW(self.frame.f)
         cdef bytes b = name.encode('utf-8')
         cdef const VSAPI *funcs = self.funcs
-- 
2.43.0

