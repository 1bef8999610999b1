From 250ebbd264f1245e74fc69741f0974d8dc35fb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 01/38] fix: compute message queue sizes in 64 bits and reject
 non-positive geometry

---
 src/message_queue.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 580b343..65cb8cc 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -23,11 +23,11 @@ bool MessageQueue::create(const std::string& path) {
         assert(!shm_ && !rwLock_ && !readSmp_);
         close();
 
-        if (msgMaxNumber_ <= 0) {
+        if (msgMaxNumber_ <= 0 || msgExpectedMaxSize_ <= 0) {
             break;
         }
 
-        int64_t shmSize = sizeof(int64_t) * (msgMaxNumber_ + 3) + msgMaxNumber_ * msgExpectedMaxSize_;
+        int64_t shmSize = (int64_t)sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         std::string shmName = path + "_shm";
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
@@ -85,7 +85,7 @@ bool MessageQueue::open(const std::string& path) {
         close();
 
         std::string shmName = path + "_shm";
-        int64_t shmSize = sizeof(int64_t) * (msgMaxNumber_ + 3) + msgMaxNumber_ * msgExpectedMaxSize_;
+        int64_t shmSize = (int64_t)sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
         if (!shm_->open()) {
@@ -164,7 +164,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
     }
 
     assert(msgMaxNumber_ > 0);
-    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
+    if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
         veigar::log("Veigar: Error: The data size has exceeded the total size of the message queue. Please adjust the parameters of the message queue.\n");
         return false;
     }
@@ -327,7 +327,7 @@ bool MessageQueue::waitForRead(int64_t ms) {
 
 bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const {
     assert(msgMaxNumber_ > 0);
-    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
+    if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
         waitable = false;
         veigar::log("Veigar: Error: The data size has exceeded the total size of the message queue. Please adjust the parameters of the message queue.\n");
         return false;
-- 
2.43.0


From 29b8dcedb93a24613a2d75c41dbfdbf7cea25864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 02/38] fix: use memmove for overlapping moves inside the
 message queue

---
 src/message_queue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 65cb8cc..89dcdde 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -224,7 +224,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
 
             // move old data to offset zero
             uint8_t* pOldData = pFirstMsgData + *pFrontFree;
-            memcpy(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);
+            memmove(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);
 
             // set front free to 0
             *pFrontFree = 0;
@@ -292,7 +292,7 @@ bool MessageQueue::popFront(void* buf, int64_t bufSize, int64_t& written) {
         *pFrontFree += *pFirstMsgDataSize;
 
         // pop a element from data size list
-        memcpy(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));
+        memmove(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));
 
         ret = true;
     } while (false);
-- 
2.43.0


From 5d0129630698bb6d4ac94c900b468216c6817970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 03/38] fix: carry nanoseconds into seconds in timed semaphore
 waits

---
 src/semaphore.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index 11851d1..bfedc13 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -112,6 +112,10 @@ bool Semaphore::wait(const int64_t& ms) {
 
         ts.tv_sec += (ms / 1000);
         ts.tv_nsec += ((ms % 1000) * 1000000);
+        if (ts.tv_nsec >= 1000000000) {
+            ts.tv_sec += 1;
+            ts.tv_nsec -= 1000000000;
+        }
 
         return (sem_timedwait(sh_->named_, &ts) == 0);
     }
-- 
2.43.0


From 22559d890d8178338902fd01ec3dd96a2c7573b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 04/38] fix: retry semaphore waits that a signal interrupted

---
 src/semaphore.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index bfedc13..75b5640 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -87,7 +87,8 @@ void Semaphore::wait() {
 #ifdef VEIGAR_OS_WINDOWS
         WaitForSingleObject(sh_->h_, INFINITE);
 #else
-        sem_wait(sh_->named_);
+        while (sem_wait(sh_->named_) != 0 && errno == EINTR) {
+        }
 #endif
     }
 }
@@ -117,10 +118,18 @@ bool Semaphore::wait(const int64_t& ms) {
             ts.tv_nsec -= 1000000000;
         }
 
-        return (sem_timedwait(sh_->named_, &ts) == 0);
+        int ret = 0;
+        do {
+            ret = sem_timedwait(sh_->named_, &ts);
+        } while (ret != 0 && errno == EINTR);
+        return (ret == 0);
     }
 
-    return (sem_wait(sh_->named_) == 0);
+    int ret = 0;
+    do {
+        ret = sem_wait(sh_->named_);
+    } while (ret != 0 && errno == EINTR);
+    return (ret == 0);
 #endif
 }
 
-- 
2.43.0


From 82a02926d9a9e6903904ebd3ec146c5702424dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 05/38] fix: wait without limit on an event when the timeout is
 negative

---
 src/event.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/event.cpp b/src/event.cpp
index d9c9601..03d6043 100644
--- a/src/event.cpp
+++ b/src/event.cpp
@@ -58,8 +58,12 @@ bool Event::isCancelled() {
 
 bool Event::wait(int64_t millseconds) {
     std::unique_lock<std::mutex> ul(m_);
-    int64_t m = (millseconds >= 0 ? millseconds : std::chrono::duration_values<int64_t>::max());
-    settedCondVar_.wait_for(ul, std::chrono::milliseconds(m), [this] { return (isSet_ || isCancelled_); });
+    if (millseconds < 0) {
+        settedCondVar_.wait(ul, [this] { return (isSet_ || isCancelled_); });
+    }
+    else {
+        settedCondVar_.wait_for(ul, std::chrono::milliseconds(millseconds), [this] { return (isSet_ || isCancelled_); });
+    }
     return (isSet_ || isCancelled_);
 }
 }  // namespace veigar
-- 
2.43.0


From c95f5b2fbbefca29bfc79294e4ea33fdd2185753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:54 +0000
Subject: [PATCH 06/38] fix: refuse calls whose argument count differs from the
 bound function

---
 include/veigar/call_dispatcher.inl | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/veigar/call_dispatcher.inl b/include/veigar/call_dispatcher.inl
index 204cb53..edb66d7 100644
--- a/include/veigar/call_dispatcher.inl
+++ b/include/veigar/call_dispatcher.inl
@@ -7,6 +7,13 @@
  */
 namespace veigar {
 namespace detail {
+// note: dispatcher will catch this type_error exception.
+inline void checkArgsCount(veigar_msgpack::object const& args, uint32_t count) {
+    if (args.type != veigar_msgpack::type::ARRAY || args.via.array.size != count) {
+        throw veigar_msgpack::type_error();
+    }
+}
+
 template <typename F>
 bool CallDispatcher::bind(std::string const& name, F func) {
     if (name.empty() || isFuncNameExist(name)) {
@@ -29,7 +36,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
     funcs_.insert(
         std::make_pair(name, [func, name](veigar_msgpack::object const& args) {
             constexpr int args_count = std::tuple_size<args_type>::value;
-            assert(args_count == args.via.array.size);
+            checkArgsCount(args, args_count);
             func();
             return detail::make_unique<veigar_msgpack::object_handle>();
         }));
@@ -49,7 +56,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
         std::make_pair(name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
-                           assert(args_count == args.via.array.size);
+                           checkArgsCount(args, args_count);
 
                            args_type args_real;
                            // note: dispatcher will catch this type_error exception.
@@ -74,7 +81,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
         std::make_pair(name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
-                           assert(args_count == args.via.array.size);
+                           checkArgsCount(args, args_count);
 
                            auto z = detail::make_unique<veigar_msgpack::zone>();
                            auto result = veigar_msgpack::object(func(), *z);
@@ -96,7 +103,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
     funcs_.insert(std::make_pair(name,
                                  [func, name](veigar_msgpack::object const& args) {
                                      constexpr int args_count = std::tuple_size<args_type>::value;
-                                     assert(args_count == args.via.array.size);
+                                     checkArgsCount(args, args_count);
 
                                      args_type args_real;
                                      // note: dispatcher will catch this type_error exception.
-- 
2.43.0


From 9c0d938279f5298e05e96c98be240c50338ff823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:10 +0000
Subject: [PATCH 07/38] fix: start every received message with a clean unpacker

---
 src/call_dispatcher.cpp | 5 +++++
 src/resp_dispatcher.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index e1f5006..77a5596 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -269,6 +269,11 @@ void CallDispatcher::dispatchThreadProc() {
             }
 
         } while (true);
+
+        // Forget what is left of a malformed or incomplete message, the next message starts from scratch.
+        callPac.skip_nonparsed_buffer(callPac.nonparsed_size());
+        callPac.reset();
+        callPac.reset_zone();
     }
 }
 
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 74510a8..c5d2f6f 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -226,6 +226,11 @@ void RespDispatcher::dispatchRespThreadProc() {
                 releaseCall(callId);
             }
         } while (true);  // msgpack unpack while
+
+        // Forget what is left of a malformed or incomplete message, the next message starts from scratch.
+        respPac.skip_nonparsed_buffer(respPac.nonparsed_size());
+        respPac.reset();
+        respPac.reset_zone();
     }
 }
 
-- 
2.43.0


From 0bb262be94b901c1c0ba830faa5ba0e3b94fbc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:10 +0000
Subject: [PATCH 08/38] fix: complete a call only by the first response to it

---
 src/resp_dispatcher.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index c5d2f6f..7dd4afe 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -180,8 +180,11 @@ void RespDispatcher::dispatchRespThreadProc() {
                 }
 
                 ongoingCallsMutex_.lock();
-                if (ongoingCalls_.find(callId) != ongoingCalls_.end()) {
-                    retMeta = ongoingCalls_[callId];
+                auto itCall = ongoingCalls_.find(callId);
+                if (itCall != ongoingCalls_.end()) {
+                    // A call completes once, take it out so that a repeated response finds nothing.
+                    retMeta = itCall->second;
+                    ongoingCalls_.erase(itCall);
                 }
                 else {
                     veigar::log("Veigar: Warning: Unable to find call: %s, Going-Call number: %d.\n", callId.c_str(), ongoingCalls_.size());
@@ -222,8 +225,6 @@ void RespDispatcher::dispatchRespThreadProc() {
                 if (retMeta.cb) {
                     retMeta.cb(callRet);
                 }
-
-                releaseCall(callId);
             }
         } while (true);  // msgpack unpack while
 
-- 
2.43.0


From c9012f90c2fe989a4fae55c6f8efccce04bfbef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:10 +0000
Subject: [PATCH 09/38] fix: ignore response messages that do not have four
 elements

---
 src/resp_dispatcher.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 7dd4afe..2ccbf32 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -163,6 +163,12 @@ void RespDispatcher::dispatchRespThreadProc() {
             CallResult callRet;
             std::string callId;
             try {
+                // The conversion to a tuple accepts arrays of any length.
+                if (obj.get().type != veigar_msgpack::type::ARRAY || obj.get().via.array.size != 4) {
+                    veigar::log("Veigar: Error: Invalid response message.\n");
+                    continue;
+                }
+
                 detail::Response::ResponseMsg r;
                 obj.get().convert(r);
 
-- 
2.43.0


From e8ccb88e459821987394f8e3839224fe2987dfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 10/38] fix: do not let exceptions of result callbacks end the
 process

---
 src/resp_dispatcher.cpp | 6 +++++-
 src/sender.cpp          | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 2ccbf32..bd55bee 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -229,7 +229,11 @@ void RespDispatcher::dispatchRespThreadProc() {
             else if (retMeta.metaType == 1) {
                 assert(retMeta.cb);
                 if (retMeta.cb) {
-                    retMeta.cb(callRet);
+                    try {
+                        retMeta.cb(callRet);
+                    } catch (...) {
+                        veigar::log("Veigar: Error: The result callback threw an exception.\n");
+                    }
                 }
             }
         } while (true);  // msgpack unpack while
diff --git a/src/sender.cpp b/src/sender.cpp
index fd98ac7..fd842ae 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -258,7 +258,11 @@ void Sender::sendCallThreadProc() {
                 }
                 else if (cm.resultMeta.metaType == 1) {
                     if (cm.resultMeta.cb) {
-                        cm.resultMeta.cb(failedRet);
+                        try {
+                            cm.resultMeta.cb(failedRet);
+                        } catch (...) {
+                            veigar::log("Veigar: Error: The result callback threw an exception.\n");
+                        }
                     }
                 }
             }
-- 
2.43.0


From 78cde7a88e573ed455d0bf610fd73c37826a5eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 11/38] fix: release the queue lock while waiting for room in
 the queue

---
 src/sender.cpp | 50 +++++++++++++++++++++++++++++++++++---------------
 src/sender.h   |  3 ++-
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index fd842ae..7c471aa 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -194,6 +194,7 @@ void Sender::sendCallThreadProc() {
 
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
+            bool locked = false;
             try {
                 errMsg.clear();
 
@@ -205,8 +206,9 @@ void Sender::sendCallThreadProc() {
                 }
 
                 if (mq) {
-                    if (mq->processRWLock(veigar_->timeoutOfRWLock())) {
-                        if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout)) {
+                    locked = mq->processRWLock(veigar_->timeoutOfRWLock());
+                    if (locked) {
+                        if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout, locked)) {
                             if (mq->pushBack(cm.data, cm.dataSize)) {
                                 mq->notifyRead();
                                 ec = ErrorCode::SUCCESS;
@@ -219,7 +221,10 @@ void Sender::sendCallThreadProc() {
                             ec = ErrorCode::TIMEOUT;
                             errMsg = "Waiting for call queue availability timeout.";
                         }
-                        mq->processRWUnlock();
+                        if (locked) {
+                            locked = false;
+                            mq->processRWUnlock();
+                        }
                     }
                     else {
                         ec = ErrorCode::TIMEOUT;
@@ -231,14 +236,14 @@ void Sender::sendCallThreadProc() {
                 }
 
             } catch (std::exception& e) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (mq && locked) {
+                    mq->processRWUnlock();
                 }
                 veigar::log("Veigar: Error: An exception occurred during pushing message to call queue: %s.\n", e.what());
                 errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to call queue: %s.", e.what());
             } catch (...) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (mq && locked) {
+                    mq->processRWUnlock();
                 }
                 veigar::log("Veigar: Error: An exception occurred during pushing message to call queue.\n");
                 errMsg = "An exception occurred during pushing message to call queue.";
@@ -301,6 +306,7 @@ void Sender::sendRespThreadProc() {
 
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
+            bool locked = false;
             try {
                 errMsg.clear();
 
@@ -312,8 +318,9 @@ void Sender::sendRespThreadProc() {
                 }
 
                 if (mq) {
-                    if (mq->processRWLock(veigar_->timeoutOfRWLock())) {
-                        if (checkSpaceAndWait(mq, rm.dataSize, rm.startCallTimePoint, rm.timeout)) {
+                    locked = mq->processRWLock(veigar_->timeoutOfRWLock());
+                    if (locked) {
+                        if (checkSpaceAndWait(mq, rm.dataSize, rm.startCallTimePoint, rm.timeout, locked)) {
                             if (mq->pushBack(rm.data, rm.dataSize)) {
                                 mq->notifyRead();
                                 ec = ErrorCode::SUCCESS;
@@ -326,7 +333,10 @@ void Sender::sendRespThreadProc() {
                             ec = ErrorCode::TIMEOUT;
                             errMsg = "Waiting for response queue availability timeout.";
                         }
-                        mq->processRWUnlock();
+                        if (locked) {
+                            locked = false;
+                            mq->processRWUnlock();
+                        }
                     }
                     else {
                         ec = ErrorCode::TIMEOUT;
@@ -338,13 +348,13 @@ void Sender::sendRespThreadProc() {
                 }
 
             } catch (std::exception& e) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (mq && locked) {
+                    mq->processRWUnlock();
                 }
                 errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to response queue: %s.", e.what());
             } catch (...) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (mq && locked) {
+                    mq->processRWUnlock();
                 }
                 errMsg = "An exception occurred during parsing pushing message to response queue.";
             }
@@ -363,7 +373,8 @@ void Sender::sendRespThreadProc() {
 bool Sender::checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
                                int64_t needSize,
                                int64_t startCallTimePoint,
-                               int64_t timeout) {
+                               int64_t timeout,
+                               bool& locked) {
     bool result = false;
     do {
         bool waitable = false;
@@ -390,9 +401,18 @@ bool Sender::checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
             waitMS = ms;
         }
 
+        // The receiver needs the lock to make room, do not hold it while waiting.
+        locked = false;
+        mq->processRWUnlock();
+
         if (stopEvent_.wait(waitMS)) {
             break;  // user call uninit, exit now!
         }
+
+        locked = mq->processRWLock(veigar_->timeoutOfRWLock());
+        if (!locked) {
+            break;
+        }
     } while (true);
 
     return result;
diff --git a/src/sender.h b/src/sender.h
index 65e9cd9..e4a366b 100644
--- a/src/sender.h
+++ b/src/sender.h
@@ -62,7 +62,8 @@ class Sender {
     bool checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
                            int64_t needSize,
                            int64_t startCallTimePoint,
-                           int64_t timeout);
+                           int64_t timeout,
+                           bool& locked);
 
    private:
     bool isInit_ = false;
-- 
2.43.0


From 03a7ab8e0838182f45c19e82c45d7ccc89f67f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 12/38] fix: keep the read signal of a message when the
 dispatcher cannot get the lock

---
 src/call_dispatcher.cpp | 2 ++
 src/resp_dispatcher.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 77a5596..98bce2e 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -183,6 +183,8 @@ void CallDispatcher::dispatchThreadProc() {
 
         if (!impl_->callMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
             veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from call message queue.\n");
+            // The message is still queued, give its read signal back.
+            impl_->callMsgQueue_->notifyRead();
             continue;
         }
 
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index bd55bee..8158bef 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -99,6 +99,8 @@ void RespDispatcher::dispatchRespThreadProc() {
 
         if (!respMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
             veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from response message queue.\n");
+            // The message is still queued, give its read signal back.
+            respMsgQueue_->notifyRead();
             continue;
         }
 
-- 
2.43.0


From 6229f8c039210e2ddbc3856493aa8e9d0790b747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 13/38] fix: separate function name and index in call ids

---
 src/veigar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index 6f05ebe..73cbbcb 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -237,7 +237,7 @@ uint32_t Veigar::timeoutOfRWLock() const {
 std::string Veigar::getNextCallId(const std::string& funcName) const {
     assert(impl_);
     uint32_t idx = impl_->callIndex_.fetch_add(1);
-    std::string callId = impl_->uuid_ + funcName + std::to_string((unsigned long)idx);
+    std::string callId = impl_->uuid_ + funcName + "-" + std::to_string((unsigned long)idx);
     return callId;
 }
 
-- 
2.43.0


From 1ef7ee9fe83e6b3be0a0833d3a46a9d0c5854ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 14/38] fix: compute the call timeout in 64 bits

---
 src/veigar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index 73cbbcb..cd50d7f 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -270,7 +270,7 @@ bool Veigar::sendCall(const std::string& channelName,
         memcpy(cm.data, buffer->data(), cm.dataSize);
     }
 
-    cm.timeout = timeoutMS * 1000;
+    cm.timeout = (int64_t)timeoutMS * 1000;
     cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
     impl_->sender_->addCall(cm);
-- 
2.43.0


From fe83d8b79a5da88ee5a05befedbcca576e0404ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 15/38] fix: fail cleanly when the channel name is empty

---
 src/veigar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index cd50d7f..3bdd873 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -79,11 +79,11 @@ class Veigar::Impl {
                 veigar_->callDisp_->uninit();
             }
 
-            if (respDispatcher_->isInit()) {
+            if (respDispatcher_ && respDispatcher_->isInit()) {
                 respDispatcher_->uninit();
             }
 
-            if (sender_->isInit()) {
+            if (sender_ && sender_->isInit()) {
                 sender_->uninit();
             }
 
-- 
2.43.0


From 8cd3c3030f6c6c29a46d37cb68b667315405e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 16/38] fix: forget the creator role of shared memory when
 closing it

---
 src/shared_memory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 5707d40..1aa29db 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -240,6 +240,7 @@ void SharedMemory::close() {
             if (!path_.empty()) {
                 shm_unlink(path_.c_str());
             }
+            shmCreator_ = false;
         }
     }
 }
-- 
2.43.0


From c146058f39fe35b5eece000bc7660bfc1db11afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 17/38] fix: report failures while preparing a call through its
 result

---
 include/veigar/veigar.inl | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index 90c2da0..e7b0bf0 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -75,7 +75,7 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
     auto p = std::make_shared<std::promise<CallResult>>();
 
     try {
-        auto ft = p->get_future();
+        acr->second = p->get_future();
 
         std::string curChannelName = channelName();
         auto argsObj = std::make_tuple(args...);
@@ -99,11 +99,12 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
 
             p->set_value(std::move(failedRet));
         }
-
-        acr->second = std::move(ft);
     } catch (std::exception& e) {
         failedRet.errorMessage = e.what();
         p->set_value(std::move(failedRet));
+    } catch (...) {
+        failedRet.errorMessage = "Unknown exception.";
+        p->set_value(std::move(failedRet));
     }
 
     return acr;
@@ -161,6 +162,12 @@ void Veigar::doAsyncCallWithCallback(
             cb(failedRet);
         }
         return;
+    } catch (...) {
+        failedRet.errorMessage = "Unknown exception.";
+        if (cb) {
+            cb(failedRet);
+        }
+        return;
     }
 }
 }  // namespace veigar
\ No newline at end of file
-- 
2.43.0


From c0e56b5d6b207941b1eeca32b46aba8f7e9d6488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:08 +0000
Subject: [PATCH 18/38] fix: run the callback of a call that could not be sent
 only once

---
 include/veigar/veigar.inl | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index e7b0bf0..77e9faf 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -130,6 +130,7 @@ void Veigar::doAsyncCallWithCallback(
         return;
     }
 
+    bool sent = false;
     try {
         std::string curChannelName = channelName();
         auto argsObj = std::make_tuple(args...);
@@ -143,31 +144,27 @@ void Veigar::doAsyncCallWithCallback(
         retMeta.cb = cb;
 
         std::string errMsg;
-        if (!sendCall(targetChannel, timeoutMS, buffer, callId, funcName, retMeta, errMsg)) {
+        sent = sendCall(targetChannel, timeoutMS, buffer, callId, funcName, retMeta, errMsg);
+        if (!sent) {
             if (errMsg.empty()) {
                 failedRet.errorMessage = "Send failed: Unknown.";
             }
             else {
                 failedRet.errorMessage = "Send failed: " + errMsg;
             }
-
-            if (cb) {
-                cb(failedRet);
-            }
-            return;
         }
     } catch (std::exception& e) {
         failedRet.errorMessage = e.what();
-        if (cb) {
-            cb(failedRet);
-        }
-        return;
     } catch (...) {
         failedRet.errorMessage = "Unknown exception.";
-        if (cb) {
+    }
+
+    // The callback is user code: call it once and keep its exceptions away from the caller.
+    if (!sent && cb) {
+        try {
             cb(failedRet);
+        } catch (...) {
         }
-        return;
     }
 }
 }  // namespace veigar
\ No newline at end of file
-- 
2.43.0


From ecfe13dbe7ec75f87ccc2196c9784f75d8faee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:08 +0000
Subject: [PATCH 19/38] fix: complete the outstanding calls when the caller
 shuts down

---
 src/resp_dispatcher.cpp | 21 ++++++++++++++++++++-
 src/sender.cpp          |  4 ++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 8158bef..b2b143b 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -65,10 +65,29 @@ void RespDispatcher::uninit() {
         respMsgQueue_.reset();
     }
 
+    // Nobody will answer the outstanding calls any more, complete them as failed.
+    std::unordered_map<std::string, ResultMeta> outstandingCalls;
     ongoingCallsMutex_.lock();
-    ongoingCalls_.clear();
+    outstandingCalls.swap(ongoingCalls_);
     ongoingCallsMutex_.unlock();
 
+    for (auto& it : outstandingCalls) {
+        CallResult failedRet;
+        failedRet.errCode = ErrorCode::FAILED;
+        failedRet.errorMessage = "The caller has been uninitialized.";
+
+        try {
+            if (it.second.metaType == 0 && it.second.p) {
+                it.second.p->set_value(std::move(failedRet));
+            }
+            else if (it.second.metaType == 1 && it.second.cb) {
+                it.second.cb(failedRet);
+            }
+        } catch (...) {
+            veigar::log("Veigar: Error: An exception occurred during completing an outstanding call.\n");
+        }
+    }
+
     init_ = false;
 }
 
diff --git a/src/sender.cpp b/src/sender.cpp
index 7c471aa..03eddb3 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -82,6 +82,10 @@ void Sender::uninit() {
     callListMutex_.lock();
     while (!callList_.empty()) {
         CallMeta cm = callList_.front();
+        // The response dispatcher completes the outstanding calls when it is uninitialized.
+        if (respDisp_) {
+            respDisp_->addOngoingCall(cm.callId, cm.resultMeta);
+        }
         if (cm.data) {
             free(cm.data);
         }
-- 
2.43.0


From 7fc4e99f3a246b3b3f7235b0c4e34cfdfaa1ec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:08 +0000
Subject: [PATCH 20/38] fix: release the unsent responses when the sender shuts
 down

---
 src/sender.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index 03eddb3..5e357b1 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -95,7 +95,7 @@ void Sender::uninit() {
 
     // release all responses memory
     respListMutex_.lock();
-    while (!callList_.empty()) {
+    while (!respList_.empty()) {
         RespMeta rm = respList_.front();
         if (rm.data) {
             free(rm.data);
-- 
2.43.0


From d43347b1823402084f715068c679edb99f24ed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:08 +0000
Subject: [PATCH 21/38] fix: let calls and dispatch threads find a sender
 during shutdown

---
 src/sender.cpp | 32 ++++++++++++++++++++++++--------
 src/sender.h   |  6 ++++--
 src/veigar.cpp | 15 +++++++++++----
 3 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index 5e357b1..b762314 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -43,6 +43,12 @@ bool Sender::init(std::shared_ptr<RespDispatcher> respDisp,
 }
 
 void Sender::uninit() {
+    callListMutex_.lock();
+    respListMutex_.lock();
+    stopped_ = true;
+    respListMutex_.unlock();
+    callListMutex_.unlock();
+
     stopEvent_.set();
 
     callListSetEvent_.cancel();
@@ -115,20 +121,30 @@ bool Sender::isInit() const {
     return isInit_;
 }
 
-void Sender::addCall(const Sender::CallMeta& cm) {
-    callListMutex_.lock();
-    callList_.emplace(cm);
-    callListMutex_.unlock();
+bool Sender::addCall(const Sender::CallMeta& cm) {
+    {
+        std::lock_guard<std::mutex> lg(callListMutex_);
+        if (stopped_) {
+            return false;
+        }
+        callList_.emplace(cm);
+    }
 
     callListSetEvent_.set();
+    return true;
 }
 
-void Sender::addResp(const Sender::RespMeta& rm) {
-    respListMutex_.lock();
-    respList_.emplace(rm);
-    respListMutex_.unlock();
+bool Sender::addResp(const Sender::RespMeta& rm) {
+    {
+        std::lock_guard<std::mutex> lg(respListMutex_);
+        if (stopped_) {
+            return false;
+        }
+        respList_.emplace(rm);
+    }
 
     respListSetEvent_.set();
+    return true;
 }
 
 std::shared_ptr<MessageQueue> Sender::getTargetCallMessageQueue(const std::string& channelName) {
diff --git a/src/sender.h b/src/sender.h
index e4a366b..7792e74 100644
--- a/src/sender.h
+++ b/src/sender.h
@@ -49,8 +49,9 @@ class Sender {
 
     bool isInit() const;
 
-    void addCall(const Sender::CallMeta& cm);
-    void addResp(const Sender::RespMeta& rm);
+    // Return false if the sender has been shut down, the caller keeps the data then.
+    bool addCall(const Sender::CallMeta& cm);
+    bool addResp(const Sender::RespMeta& rm);
 
    private:
     std::shared_ptr<MessageQueue> getTargetCallMessageQueue(const std::string& channelName);
@@ -67,6 +68,7 @@ class Sender {
 
    private:
     bool isInit_ = false;
+    bool stopped_ = false;  // protected by callListMutex_ and respListMutex_
     Event stopEvent_;
 
     Veigar* veigar_ = nullptr;
diff --git a/src/veigar.cpp b/src/veigar.cpp
index 3bdd873..b4ed87e 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -110,7 +110,6 @@ class Veigar::Impl {
             if (sender_->isInit()) {
                 sender_->uninit();
             }
-            sender_.reset();
         }
 
         assert(veigar_ && veigar_->callDisp_);
@@ -123,9 +122,9 @@ class Veigar::Impl {
             if (respDispatcher_->isInit()) {
                 respDispatcher_->uninit();
             }
-            respDispatcher_.reset();
         }
 
+        // The sender and the response dispatcher are kept, other threads may still be about to use them.
         isInit_ = false;
     }
 
@@ -273,7 +272,11 @@ bool Veigar::sendCall(const std::string& channelName,
     cm.timeout = (int64_t)timeoutMS * 1000;
     cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
-    impl_->sender_->addCall(cm);
+    if (!impl_->sender_->addCall(cm)) {
+        free(cm.data);
+        exceptionMsg = "The caller has been uninitialized.";
+        return false;
+    }
 
     return true;
 }
@@ -300,7 +303,11 @@ bool Veigar::sendResponse(const std::string& targetChannel,
     rm.timeout = VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT * 1000;
     rm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
-    impl_->sender_->addResp(rm);
+    if (!impl_->sender_->addResp(rm)) {
+        free(rm.data);
+        errMsg = "The sender has been uninitialized.";
+        return false;
+    }
 
     return true;
 }
-- 
2.43.0


From de2283b2b47b4401d72ae5088341f3100598c75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:08 +0000
Subject: [PATCH 22/38] fix: forget the finished call dispatch threads

---
 src/call_dispatcher.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 98bce2e..f76dec7 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -82,6 +82,8 @@ void CallDispatcher::uninit() {
         }
     }
 
+    impl_->workers_.clear();
+
     if (impl_->callMsgQueue_) {
         impl_->callMsgQueue_->close();
         impl_->callMsgQueue_.reset();
-- 
2.43.0


From ad4c560a6f86f3eef2888679352c76a7bddda39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:08 +0000
Subject: [PATCH 23/38] fix: protect the function registry against concurrent
 use

---
 include/veigar/call_dispatcher.h   |  3 +++
 include/veigar/call_dispatcher.inl |  1 +
 src/call_dispatcher.cpp            | 16 ++++++++++++++--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index a46c2a6..84138a8 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -12,6 +12,7 @@
 
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <unordered_map>
 #include "veigar/config.h"
 #include "veigar/msgpack.hpp"
@@ -76,6 +77,7 @@ class VEIGAR_API CallDispatcher {
 
     // returns a list of all names which functors are binded to
     std::vector<std::string> names() const {
+        std::lock_guard<std::recursive_mutex> lg(funcsMutex_);
         std::vector<std::string> names;
         for (auto it = funcs_.begin(); it != funcs_.end(); ++it)
             names.push_back(it->first);
@@ -98,6 +100,7 @@ class VEIGAR_API CallDispatcher {
     Veigar* veigar_ = nullptr;
     bool init_ = false;
 
+    mutable std::recursive_mutex funcsMutex_;
     std::unordered_map<std::string, AdaptorType> funcs_;
 
     class Impl;
diff --git a/include/veigar/call_dispatcher.inl b/include/veigar/call_dispatcher.inl
index edb66d7..17a4ee6 100644
--- a/include/veigar/call_dispatcher.inl
+++ b/include/veigar/call_dispatcher.inl
@@ -16,6 +16,7 @@ inline void checkArgsCount(veigar_msgpack::object const& args, uint32_t count) {
 
 template <typename F>
 bool CallDispatcher::bind(std::string const& name, F func) {
+    std::lock_guard<std::recursive_mutex> lg(funcsMutex_);
     if (name.empty() || isFuncNameExist(name)) {
         return false;
     }
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index f76dec7..4440246 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -89,7 +89,9 @@ void CallDispatcher::uninit() {
         impl_->callMsgQueue_.reset();
     }
 
+    funcsMutex_.lock();
     funcs_.clear();
+    funcsMutex_.unlock();
 
     init_ = false;
 }
@@ -99,6 +101,7 @@ std::shared_ptr<veigar::MessageQueue> CallDispatcher::messageQueue() {
 }
 
 void CallDispatcher::unbind(std::string const& name) {
+    std::lock_guard<std::recursive_mutex> lg(funcsMutex_);
     auto it = funcs_.find(name);
     if (it != funcs_.end()) {
         funcs_.erase(it);
@@ -140,15 +143,23 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
     auto&& funcName = std::get<3>(the_call);
     auto&& args = std::get<4>(the_call);
 
+    // The function may be unbound while it runs, work on a copy.
+    AdaptorType func;
+    funcsMutex_.lock();
     std::unordered_map<std::string, AdaptorType>::const_iterator itFunc = funcs_.find(funcName);
-    if (itFunc == funcs_.cend()) {
+    if (itFunc != funcs_.cend()) {
+        func = itFunc->second;
+    }
+    funcsMutex_.unlock();
+
+    if (!func) {
         return Response::MakeResponseWithError(
             callId,
             StringHelper::StringPrintf("Could not find function '%s' with argument count %d.", funcName.c_str(), args.via.array.size));
     }
 
     try {
-        auto result = (itFunc->second)(args);
+        auto result = func(args);
         return Response::MakeResponseWithResult(callId, std::move(result));
     } catch (std::exception& e) {
         return Response::MakeResponseWithError(
@@ -282,6 +293,7 @@ void CallDispatcher::dispatchThreadProc() {
 }
 
 bool CallDispatcher::isFuncNameExist(std::string const& func) {
+    std::lock_guard<std::recursive_mutex> lg(funcsMutex_);
     auto pos = funcs_.find(func);
     if (pos != end(funcs_)) {
         return true;
-- 
2.43.0


From 2c07d5dc448268f3280401b8e01beea269024d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:39 +0000
Subject: [PATCH 24/38] fix: do not create a semaphore when asking whether it
 exists

---
 src/semaphore.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index 75b5640..bdb22f8 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -20,12 +20,12 @@ bool Semaphore::IsExist(const std::string& name) {
     }
     return (h != NULL);
 #else
-    sem_t* sem = ::sem_open(name.c_str(), O_CREAT | O_EXCL);
+    sem_t* sem = ::sem_open(name.c_str(), 0);
     if (sem == SEM_FAILED) {
-        return true;
+        return false;
     }
     ::sem_close(sem);
-    return false;
+    return true;
 #endif
 }
 
-- 
2.43.0


From 1fb33ff3b5700dbde62cad9ca5f2cc31c48839c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:39 +0000
Subject: [PATCH 25/38] fix: fail to initialize when a thread cannot be created

---
 src/call_dispatcher.cpp | 11 +++++++++--
 src/resp_dispatcher.cpp | 11 +++++++++--
 src/sender.cpp          | 16 +++++++++++-----
 3 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 4440246..0c67a46 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -52,8 +52,15 @@ bool CallDispatcher::init() {
 
     impl_->stop_.store(false);
 
-    for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
-        impl_->workers_.emplace_back(std::thread(&CallDispatcher::dispatchThreadProc, this));
+    try {
+        for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
+            impl_->workers_.emplace_back(std::thread(&CallDispatcher::dispatchThreadProc, this));
+        }
+    } catch (std::exception& e) {
+        veigar::log("Veigar: Error: Create call dispatch thread failed: %s.\n", e.what());
+        init_ = true;
+        uninit();
+        return false;
     }
 
     init_ = true;
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index b2b143b..77035dd 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -30,8 +30,15 @@ bool RespDispatcher::init() {
         return false;
     }
 
-    for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
-        workers_.emplace_back(std::thread(&RespDispatcher::dispatchRespThreadProc, this));
+    try {
+        for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
+            workers_.emplace_back(std::thread(&RespDispatcher::dispatchRespThreadProc, this));
+        }
+    } catch (std::exception& e) {
+        veigar::log("Veigar: Error: Create response dispatch thread failed: %s.\n", e.what());
+        init_ = true;
+        uninit();
+        return false;
     }
 
     init_ = true;
diff --git a/src/sender.cpp b/src/sender.cpp
index b762314..a40bf84 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -29,12 +29,18 @@ bool Sender::init(std::shared_ptr<RespDispatcher> respDisp,
     selfCallMQ_ = selfCallMQ;
     selfRespMQ_ = selfRespMQ;
 
-    for (size_t i = 0; i < VEIGAR_SEND_CALL_THREAD_NUMBER; ++i) {
-        callWorkers_.emplace_back(std::thread(&Sender::sendCallThreadProc, this));
-    }
+    try {
+        for (size_t i = 0; i < VEIGAR_SEND_CALL_THREAD_NUMBER; ++i) {
+            callWorkers_.emplace_back(std::thread(&Sender::sendCallThreadProc, this));
+        }
 
-    for (size_t i = 0; i < VEIGAR_SEND_RESPONSE_THREAD_NUMBER; ++i) {
-        respWorkers_.emplace_back(std::thread(&Sender::sendRespThreadProc, this));
+        for (size_t i = 0; i < VEIGAR_SEND_RESPONSE_THREAD_NUMBER; ++i) {
+            respWorkers_.emplace_back(std::thread(&Sender::sendRespThreadProc, this));
+        }
+    } catch (std::exception& e) {
+        veigar::log("Veigar: Error: Create send thread failed: %s.\n", e.what());
+        uninit();
+        return false;
     }
 
     isInit_ = true;
-- 
2.43.0


From af8e0f46557c44bed230e84061a6b6dd03633b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:22 +0000
Subject: [PATCH 26/38] fix: refuse to open a message queue of another size

---
 src/message_queue.cpp | 5 +++++
 src/shared_memory.cpp | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 89dcdde..63d976f 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -92,6 +92,11 @@ bool MessageQueue::open(const std::string& path) {
             break;
         }
 
+        if (*(int64_t*)shm_->data() != shmSize) {
+            veigar::log("Veigar: Error: The size of the message queue differs from the one of its creator.\n");
+            break;
+        }
+
         std::string rwLockName = path + "_rwlock";
         if (!Semaphore::IsExist(rwLockName)) {
             break;
diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 1aa29db..d8421e3 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -190,6 +190,15 @@ bool SharedMemory::open() {
         return false;
     }
 
+    // Never map more than the creator has provided.
+    struct stat st;
+    if (fstat(fd_, &st) != 0 || st.st_size < size_) {
+        veigar::log("Veigar: Error: The shared memory is smaller than %" PRId64 " bytes.\n", size_);
+        ::close(fd_);
+        fd_ = -1;
+        return false;
+    }
+
     void* memory = mmap(nullptr,                 // addr
                         size_,                   // length
                         PROT_READ | PROT_WRITE,  // prot
-- 
2.43.0


From 94cde46fdadf3ef8be123ea86418ce2dddd592f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 27/38] fix: start queues from fresh system objects and find
 restarted peers again

---
 src/message_queue.cpp | 50 ++++++++++++++++++++++++-------------------
 src/message_queue.h   |  6 +++++-
 src/semaphore.cpp     |  6 ++++++
 src/semaphore.h       |  3 +++
 src/sender.cpp        | 10 +++++++--
 src/shared_memory.cpp | 16 ++++++++++++++
 src/shared_memory.h   |  4 ++++
 7 files changed, 70 insertions(+), 25 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 63d976f..279ab07 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -16,6 +16,10 @@ MessageQueue::MessageQueue(int32_t msgMaxNumber, int32_t msgExpectedMaxSize) noe
     msgExpectedMaxSize_(msgExpectedMaxSize) {
 }
 
+MessageQueue::~MessageQueue() noexcept {
+    close();
+}
+
 bool MessageQueue::create(const std::string& path) {
     bool result = false;
 
@@ -29,12 +33,23 @@ bool MessageQueue::create(const std::string& path) {
 
         int64_t shmSize = (int64_t)sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
+        // Do not take over what a crashed process has left behind.
+        Semaphore::Unlink(path + "_rwlock");
+        Semaphore::Unlink(path + "_readsmp");
+
         std::string shmName = path + "_shm";
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
         if (!shm_->create()) {
             break;
         }
 
+        // Others can use the queue as soon as the semaphores exist.
+        createdPath_ = path;
+        uint8_t* data = shm_->data();
+        memset(data, 0, (size_t)shmSize);
+        int64_t* pDataSize = (int64_t*)data;
+        *pDataSize = shmSize;
+
         std::string rwLockName = path + "_rwlock";
         rwLock_ = std::make_shared<Semaphore>();
         if (!rwLock_->open(rwLockName.c_str(), 1, 1)) {
@@ -47,32 +62,11 @@ bool MessageQueue::create(const std::string& path) {
             break;
         }
 
-        uint8_t* data = shm_->data();
-        memset(data, 0, (size_t)shmSize);
-        int64_t* pDataSize = (int64_t*)data;
-        *pDataSize = shmSize;
-
         result = true;
     } while (false);
 
     if (!result) {
-        if (shm_) {
-            if (shm_->valid())
-                shm_->close();
-            shm_.reset();
-        }
-
-        if (rwLock_) {
-            if (rwLock_->valid())
-                rwLock_->close();
-            rwLock_.reset();
-        }
-
-        if (readSmp_) {
-            if (readSmp_->valid())
-                readSmp_->close();
-            readSmp_.reset();
-        }
+        close();
     }
 
     return result;
@@ -382,7 +376,19 @@ bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const
     return result;
 }
 
+bool MessageQueue::stale() const {
+    return (!shm_ || shm_->stale());
+}
+
 void MessageQueue::close() {
+    if (!createdPath_.empty()) {
+        if (!stale()) {
+            Semaphore::Unlink(createdPath_ + "_rwlock");
+            Semaphore::Unlink(createdPath_ + "_readsmp");
+        }
+        createdPath_.clear();
+    }
+
     if (shm_) {
         if (shm_->valid())
             shm_->close();
diff --git a/src/message_queue.h b/src/message_queue.h
index e5dd93f..ce31670 100644
--- a/src/message_queue.h
+++ b/src/message_queue.h
@@ -18,12 +18,15 @@ namespace veigar {
 class MessageQueue {
    public:
     MessageQueue(int32_t msgMaxNumber, int32_t msgExpectedMaxSize) noexcept;
-    ~MessageQueue() noexcept = default;
+    ~MessageQueue() noexcept;
 
     bool create(const std::string& path);
     bool open(const std::string& path);
     void close();
 
+    // The creator of the opened queue has closed or replaced it.
+    bool stale() const;
+
     // Read/Write locker for multi processes.
     bool processRWLock(uint32_t timeoutMS);
     void processRWUnlock();
@@ -47,6 +50,7 @@ class MessageQueue {
    private:
     int32_t msgMaxNumber_ = 0;
     int32_t msgExpectedMaxSize_ = 0;
+    std::string createdPath_;  // not empty if this object is the creator
     std::shared_ptr<SharedMemory> shm_ = nullptr;
     std::shared_ptr<Semaphore> rwLock_ = nullptr;
     std::shared_ptr<Semaphore> readSmp_ = nullptr;
diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index bdb22f8..9f2d874 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -29,6 +29,12 @@ bool Semaphore::IsExist(const std::string& name) {
 #endif
 }
 
+void Semaphore::Unlink(const std::string& name) {
+#ifndef VEIGAR_OS_WINDOWS
+    ::sem_unlink(name.c_str());
+#endif
+}
+
 bool Semaphore::open(const std::string& name, int value /*= 0*/, int maxValue /*= 2147483647*/) {
     assert(!name.empty());
     assert(!valid());
diff --git a/src/semaphore.h b/src/semaphore.h
index ec72dcf..041ff5f 100644
--- a/src/semaphore.h
+++ b/src/semaphore.h
@@ -41,6 +41,9 @@ class Semaphore {
 
     static bool IsExist(const std::string& name);
 
+    // Remove the name, the handles that are already open stay usable.
+    static void Unlink(const std::string& name);
+
     // The semaphore will be created if it does not already exist.
     // 
     // named semaphore used in synchronization among processes.
diff --git a/src/sender.cpp b/src/sender.cpp
index a40bf84..54be0a7 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -158,7 +158,10 @@ std::shared_ptr<MessageQueue> Sender::getTargetCallMessageQueue(const std::strin
     std::shared_ptr<MessageQueue> queue = nullptr;
     auto it = targetCallMsgQueues_.find(channelName);
     if (it != targetCallMsgQueues_.cend()) {
-        return it->second;
+        if (!it->second->stale()) {
+            return it->second;
+        }
+        targetCallMsgQueues_.erase(it);
     }
 
     queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
@@ -177,7 +180,10 @@ std::shared_ptr<MessageQueue> Sender::getTargetRespMessageQueue(const std::strin
     std::shared_ptr<MessageQueue> queue = nullptr;
     auto it = targetRespMsgQueues_.find(channelName);
     if (it != targetRespMsgQueues_.cend()) {
-        return it->second;
+        if (!it->second->stale()) {
+            return it->second;
+        }
+        targetRespMsgQueues_.erase(it);
     }
 
     queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index d8421e3..eda546b 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -115,6 +115,10 @@ bool SharedMemory::create() {
     return true;
 }
 
+bool SharedMemory::stale() const {
+    return false;
+}
+
 #else   // !VEIGAR_OS_WINDOWS
 
 SharedMemory::SharedMemory(const std::string& path, int64_t size) noexcept :
@@ -128,6 +132,9 @@ bool SharedMemory::create() {
         return false;
     }
 
+    // Do not take over what a crashed process has left behind.
+    shm_unlink(path_.c_str());
+
     fd_ = shm_open(path_.c_str(), O_CREAT | O_RDWR, 0666);
     if (fd_ < 0) {
         int err = errno;
@@ -232,6 +239,11 @@ bool SharedMemory::valid() const {
     return fd_ != -1;
 }
 
+bool SharedMemory::stale() const {
+    struct stat st;
+    return (fd_ == -1 || fstat(fd_, &st) != 0 || st.st_nlink == 0);
+}
+
 void SharedMemory::close() {
     if (fd_ != -1) {
         //veigar::log("Veigar: Close fd: %d.\n", fd_);
@@ -240,6 +252,10 @@ void SharedMemory::close() {
             data_ = nullptr;
         }
 
+        if (shmCreator_ && stale()) {
+            shmCreator_ = false;  // the name belongs to another creator now
+        }
+
         if (fd_ >= 0) {
             ::close(fd_);
             fd_ = -1;
diff --git a/src/shared_memory.h b/src/shared_memory.h
index a62b9a6..999fe1e 100644
--- a/src/shared_memory.h
+++ b/src/shared_memory.h
@@ -29,6 +29,10 @@ class SharedMemory {
     bool create();
     bool open();
     bool valid() const;
+
+    // The creator has closed or replaced the shared memory.
+    bool stale() const;
+
     void close();
 
     inline int64_t size() const {
-- 
2.43.0


From 36504c012a327302e87af0e0533b82fbd7e727ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 28/38] fix: refuse to open a message queue with another number
 of messages

---
 src/message_queue.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 279ab07..9774dff 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -38,7 +38,7 @@ bool MessageQueue::create(const std::string& path) {
         Semaphore::Unlink(path + "_readsmp");
 
         std::string shmName = path + "_shm";
-        shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
+        shm_ = std::make_shared<SharedMemory>(shmName, shmSize + (int64_t)sizeof(msgMaxNumber_));
         if (!shm_->create()) {
             break;
         }
@@ -49,6 +49,7 @@ bool MessageQueue::create(const std::string& path) {
         memset(data, 0, (size_t)shmSize);
         int64_t* pDataSize = (int64_t*)data;
         *pDataSize = shmSize;
+        memcpy(data + shmSize, &msgMaxNumber_, sizeof(msgMaxNumber_));
 
         std::string rwLockName = path + "_rwlock";
         rwLock_ = std::make_shared<Semaphore>();
@@ -81,12 +82,12 @@ bool MessageQueue::open(const std::string& path) {
         std::string shmName = path + "_shm";
         int64_t shmSize = (int64_t)sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
-        shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
+        shm_ = std::make_shared<SharedMemory>(shmName, shmSize + (int64_t)sizeof(msgMaxNumber_));
         if (!shm_->open()) {
             break;
         }
 
-        if (*(int64_t*)shm_->data() != shmSize) {
+        if (*(int64_t*)shm_->data() != shmSize || memcmp(shm_->data() + shmSize, &msgMaxNumber_, sizeof(msgMaxNumber_)) != 0) {
             veigar::log("Veigar: Error: The size of the message queue differs from the one of its creator.\n");
             break;
         }
@@ -150,8 +151,8 @@ void MessageQueue::processRWUnlock() {
 }
 
 /*
-| Shm Total Size | Msg Number | Front Free Size | Msg 0 Size | Msg 1 Size | ... | Msg 0 Data | Msg 1 Data | ... |
-|      8         |      8     |       8         |    8       |    8       |     | Msg 0 Size | Msg 1 Size | ... |
+| Shm Total Size | Msg Number | Front Free Size | Msg 0 Size | Msg 1 Size | ... | Msg 0 Data | Msg 1 Data | ... | Max Msg Number |
+|      8         |      8     |       8         |    8       |    8       |     | Msg 0 Size | Msg 1 Size | ... |       4        |
 */
 bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
     bool ret = false;
-- 
2.43.0


From 8244c416a32d63697030567cc9fac31c06bcc84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 29/38] fix: take the random part of call ids from the system

---
 src/uuid.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/uuid.cpp b/src/uuid.cpp
index a7c84cc..f527ab1 100644
--- a/src/uuid.cpp
+++ b/src/uuid.cpp
@@ -16,12 +16,20 @@
 #include <cstdio>
 #include <cstdlib>
 #include <ctime>
+#include <random>
 #endif
 #include "string_helper.h"
 
 namespace veigar {
 #ifndef VEIGAR_OS_WINDOWS
 uint32_t UUID::Rand32() {
+    // rand() starts with the same sequence in every process.
+    try {
+        std::random_device rd;
+        return rd();
+    } catch (std::exception&) {
+    }
+
     return ((rand() & 0x3) << 30) | ((rand() & 0x7fff) << 15) |
            (rand() & 0x7fff);
 }
-- 
2.43.0


From 41a99d6e46bf0ae1a707358917459d304685f911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 30/38] fix: keep a function alive while it is called instead
 of copying it

---
 include/veigar/call_dispatcher.h   |  2 +-
 include/veigar/call_dispatcher.inl | 16 ++++++++--------
 src/call_dispatcher.cpp            |  8 ++++----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index 84138a8..d191720 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -101,7 +101,7 @@ class VEIGAR_API CallDispatcher {
     bool init_ = false;
 
     mutable std::recursive_mutex funcsMutex_;
-    std::unordered_map<std::string, AdaptorType> funcs_;
+    std::unordered_map<std::string, std::shared_ptr<AdaptorType>> funcs_;
 
     class Impl;
     Impl* impl_ = nullptr;
diff --git a/include/veigar/call_dispatcher.inl b/include/veigar/call_dispatcher.inl
index 17a4ee6..d01cf6c 100644
--- a/include/veigar/call_dispatcher.inl
+++ b/include/veigar/call_dispatcher.inl
@@ -35,12 +35,12 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
     }
 
     funcs_.insert(
-        std::make_pair(name, [func, name](veigar_msgpack::object const& args) {
+        std::make_pair(name, std::make_shared<AdaptorType>([func, name](veigar_msgpack::object const& args) {
             constexpr int args_count = std::tuple_size<args_type>::value;
             checkArgsCount(args, args_count);
             func();
             return detail::make_unique<veigar_msgpack::object_handle>();
-        }));
+        })));
     return true;
 }
 
@@ -55,7 +55,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
 
     funcs_.insert(
         std::make_pair(name,
-                       [func, name](veigar_msgpack::object const& args) {
+                       std::make_shared<AdaptorType>([func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
                            checkArgsCount(args, args_count);
 
@@ -65,7 +65,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
                            detail::call(func, args_real);
 
                            return detail::make_unique<veigar_msgpack::object_handle>();
-                       }));
+                       })));
     return true;
 }
 
@@ -80,7 +80,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
 
     funcs_.insert(
         std::make_pair(name,
-                       [func, name](veigar_msgpack::object const& args) {
+                       std::make_shared<AdaptorType>([func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
                            checkArgsCount(args, args_count);
 
@@ -88,7 +88,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
                            auto result = veigar_msgpack::object(func(), *z);
 
                            return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));
-                       }));
+                       })));
     return true;
 }
 
@@ -102,7 +102,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
     }
 
     funcs_.insert(std::make_pair(name,
-                                 [func, name](veigar_msgpack::object const& args) {
+                                 std::make_shared<AdaptorType>([func, name](veigar_msgpack::object const& args) {
                                      constexpr int args_count = std::tuple_size<args_type>::value;
                                      checkArgsCount(args, args_count);
 
@@ -114,7 +114,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
                                      auto result = veigar_msgpack::object(detail::call(func, args_real), *z);
 
                                      return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));
-                                 }));
+                                 })));
 
     return true;
 }
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 0c67a46..661d2e9 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -150,10 +150,10 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
     auto&& funcName = std::get<3>(the_call);
     auto&& args = std::get<4>(the_call);
 
-    // The function may be unbound while it runs, work on a copy.
-    AdaptorType func;
+    // The function may be unbound while it runs, keep it alive.
+    std::shared_ptr<AdaptorType> func;
     funcsMutex_.lock();
-    std::unordered_map<std::string, AdaptorType>::const_iterator itFunc = funcs_.find(funcName);
+    auto itFunc = funcs_.find(funcName);
     if (itFunc != funcs_.cend()) {
         func = itFunc->second;
     }
@@ -166,7 +166,7 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
     }
 
     try {
-        auto result = func(args);
+        auto result = (*func)(args);
         return Response::MakeResponseWithResult(callId, std::move(result));
     } catch (std::exception& e) {
         return Response::MakeResponseWithError(
-- 
2.43.0


From dcd97ce9f8d46ba43f47949590376a360ab10c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 31/38] fix: refuse channel names with an embedded null
 character

---
 src/veigar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index b4ed87e..4f40fa2 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -35,8 +35,8 @@ class Veigar::Impl {
         }
 
         do {
-            if (channelName.empty()) {
-                veigar::log("Veigar: Error: Channel name is empty.\n");
+            if (channelName.empty() || channelName.find('\0') != std::string::npos) {
+                veigar::log("Veigar: Error: Channel name is invalid.\n");
                 break;
             }
 
-- 
2.43.0


From 16f1abeaff254345125e4eeecaca98cf7e9dd5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 32/38] fix: running out of memory for a large function name
 ended the process

---
 include/veigar/veigar.inl | 31 ++++++++++++++-----------------
 src/resp_dispatcher.cpp   |  3 +--
 src/sender.cpp            |  5 ++---
 3 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index 77e9faf..a6dfe8b 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -65,18 +65,19 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
     failedRet.errCode = ErrorCode::FAILED;
 
     std::shared_ptr<AsyncCallResult> acr = std::make_shared<AsyncCallResult>();
-    const std::string callId = getNextCallId(funcName);
-    assert(!callId.empty());
-    if (callId.empty()) {
-        return nullptr;
-    }
-
-    acr->first = callId;
     auto p = std::make_shared<std::promise<CallResult>>();
 
     try {
         acr->second = p->get_future();
 
+        const std::string callId = getNextCallId(funcName);
+        assert(!callId.empty());
+        if (callId.empty()) {
+            return nullptr;
+        }
+
+        acr->first = callId;
+
         std::string curChannelName = channelName();
         auto argsObj = std::make_tuple(args...);
         auto callObj = std::make_tuple(0, callId, curChannelName, funcName, argsObj);
@@ -120,18 +121,14 @@ void Veigar::doAsyncCallWithCallback(
     CallResult failedRet;
     failedRet.errCode = ErrorCode::FAILED;
 
-    const std::string callId = getNextCallId(funcName);
-    assert(!callId.empty());
-    if (callId.empty()) {
-        if (cb) {
-            failedRet.errorMessage = "Unable to generate call id.";
-            cb(failedRet);
-        }
-        return;
-    }
-
     bool sent = false;
     try {
+        const std::string callId = getNextCallId(funcName);
+        assert(!callId.empty());
+        if (callId.empty()) {
+            throw std::runtime_error("Unable to generate call id.");
+        }
+
         std::string curChannelName = channelName();
         auto argsObj = std::make_tuple(args...);
         auto callObj = std::make_tuple(0, callId, curChannelName, funcName, argsObj);
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 77035dd..1ce0514 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -274,9 +274,8 @@ void RespDispatcher::dispatchRespThreadProc() {
 }
 
 void RespDispatcher::addOngoingCall(const std::string& callId, const ResultMeta& retMeta) {
-    ongoingCallsMutex_.lock();
+    std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
     ongoingCalls_[callId] = retMeta;
-    ongoingCallsMutex_.unlock();
 }
 
 void RespDispatcher::releaseCall(const std::string& callId) {
diff --git a/src/sender.cpp b/src/sender.cpp
index 54be0a7..2344d3d 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -218,17 +218,16 @@ void Sender::sendCallThreadProc() {
                 callListMutex_.unlock();
                 break;
             }
-            cm = callList_.front();
+            cm = std::move(callList_.front());
             callList_.pop();
             callListMutex_.unlock();
 
-            respDisp_->addOngoingCall(cm.callId, cm.resultMeta);
-
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
             bool locked = false;
             try {
                 errMsg.clear();
+                respDisp_->addOngoingCall(cm.callId, cm.resultMeta);
 
                 if (cm.channel == veigar_->channelName()) {
                     mq = selfCallMQ_;
-- 
2.43.0


From 403a0bdee4a8abf8790d690e3bc9c4e98e5eccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 33/38] fix: a message too large for the receive buffer was
 left without read signal when memory was short

---
 src/call_dispatcher.cpp | 5 +++++
 src/resp_dispatcher.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 661d2e9..4a5a75d 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -12,6 +12,8 @@
 #include "veigar/veigar.h"
 #include "time_util.h"
 #include <atomic>
+#include <chrono>
+#include <thread>
 #include <queue>
 #include "message_queue.h"
 #include "run_time_recorder.h"
@@ -232,6 +234,9 @@ void CallDispatcher::dispatchThreadProc() {
             } catch (std::bad_alloc& e) {
                 veigar::log("Veigar: Error: Pre-alloc call memory(%u bytes) failed: %s.\n", written, e.what());
                 impl_->callMsgQueue_->processRWUnlock();
+                // The message is still queued, give its read signal back and try again later.
+                impl_->callMsgQueue_->notifyRead();
+                std::this_thread::sleep_for(std::chrono::milliseconds(30));
                 continue;
             }
 
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 1ce0514..1d39d4d 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -6,6 +6,8 @@
  * LICENSE file in the root directory of this source tree.
  */
 #include "resp_dispatcher.h"
+#include <chrono>
+#include <thread>
 #include "veigar/veigar.h"
 #include "log.h"
 #include "string_helper.h"
@@ -154,6 +156,9 @@ void RespDispatcher::dispatchRespThreadProc() {
             } catch (std::bad_alloc& e) {
                 veigar::log("Veigar: Error: Pre-alloc response memory(%d bytes) failed: %s.\n", written, e.what());
                 respMsgQueue_->processRWUnlock();
+                // The message is still queued, give its read signal back and try again later.
+                respMsgQueue_->notifyRead();
+                std::this_thread::sleep_for(std::chrono::milliseconds(30));
                 continue;
             }
 
-- 
2.43.0


From 8922ccbda633074db0a4b6d60a6c86e24fc7d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 34/38] fix: let an instance be moved, with its functions and
 while it runs

The threads of an instance kept a pointer to the object it was moved from, the bound functions stayed behind, and the destructor of the moved-from object dereferenced a null pointer.
---
 include/veigar/veigar.h |  6 +++++-
 src/veigar.cpp          | 29 +++++++++++++++++++++--------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/include/veigar/veigar.h b/include/veigar/veigar.h
index a9ded89..c23e174 100644
--- a/include/veigar/veigar.h
+++ b/include/veigar/veigar.h
@@ -99,6 +99,11 @@ class VEIGAR_API Veigar {
     uint32_t timeoutOfRWLock() const;
 
    private:
+    class Impl;
+
+    // The view of an instance that its threads use, it stays where it is when the instance is moved.
+    explicit Veigar(Impl* impl) noexcept;
+
     std::string getNextCallId(const std::string& funcName) const;
 
     // std::promise will not set_exception forever.
@@ -133,7 +138,6 @@ class VEIGAR_API Veigar {
         std::string& errMsg);
 
    private:
-    class Impl;
     Impl* impl_ = nullptr;
     std::shared_ptr<detail::CallDispatcher> callDisp_;
 
diff --git a/src/veigar.cpp b/src/veigar.cpp
index 4f40fa2..79c69f9 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -19,11 +19,14 @@
 namespace veigar {
 class Veigar::Impl {
    public:
-    Impl(Veigar* veigar) noexcept :
-        veigar_(veigar) {
+    Impl() noexcept :
+        self_(this),
+        veigar_(&self_) {
     }
 
-    ~Impl() noexcept = default;
+    ~Impl() noexcept {
+        self_.impl_ = nullptr;
+    }
 
     bool init(const std::string& channelName, uint32_t msgQueueCapacity, uint32_t expectedMsgMaxSize) {
         if (isInit_) {
@@ -128,6 +131,7 @@ class Veigar::Impl {
         isInit_ = false;
     }
 
+    Veigar self_;
     Veigar* veigar_ = nullptr;
     bool isInit_ = false;
     uint32_t msgQueueCapacity_ = 0;
@@ -148,8 +152,13 @@ class Veigar::Impl {
 };
 
 Veigar::Veigar() noexcept :
-    impl_(new Veigar::Impl(this)) {
-    callDisp_ = std::make_shared<detail::CallDispatcher>(this);
+    impl_(new Veigar::Impl()) {
+    callDisp_ = std::make_shared<detail::CallDispatcher>(impl_->veigar_);
+    impl_->veigar_->callDisp_ = callDisp_;
+}
+
+Veigar::Veigar(Impl* impl) noexcept :
+    impl_(impl) {
 }
 
 Veigar::Veigar(Veigar&& other) noexcept {
@@ -158,8 +167,13 @@ Veigar::Veigar(Veigar&& other) noexcept {
 
 Veigar& Veigar::operator=(Veigar&& other) noexcept {
     if (this != &other) {
-        impl_ = std::move(other.impl_);
+        if (impl_) {
+            impl_->uninit();
+            delete impl_;
+        }
+        impl_ = other.impl_;
         other.impl_ = nullptr;
+        callDisp_ = std::move(other.callDisp_);
     }
     return *this;
 }
@@ -184,8 +198,7 @@ bool Veigar::init(const std::string& channelName, uint32_t msgQueueCapacity, uin
 }
 
 bool Veigar::isInit() const {
-    assert(impl_);
-    return impl_->isInit_;
+    return impl_ && impl_->isInit_;  // an instance that was moved away is not running
 }
 
 void Veigar::uninit() {
-- 
2.43.0


From 020b2b447cc3691304752c1f0fd99245ce3dd4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 35/38] fix: fail to initialize when memory for the receive
 buffers cannot be allocated

The dispatch threads allocated their buffers themselves: they ended the process when the first one failed and went away silently when the second did, although init() reported success.
---
 include/veigar/call_dispatcher.h |  2 +-
 src/call_dispatcher.cpp          | 14 +++++---------
 src/resp_dispatcher.cpp          | 15 +++++----------
 src/resp_dispatcher.h            |  2 +-
 4 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index d191720..69b269c 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -94,7 +94,7 @@ class VEIGAR_API CallDispatcher {
     // Dispatches a call (which will have a response).
     detail::Response dispatchCall(veigar_msgpack::object const& msg, std::string& callerChannelName);
 
-    void dispatchThreadProc();
+    void dispatchThreadProc(std::shared_ptr<veigar_msgpack::unpacker> unpacker);
 
    private:
     Veigar* veigar_ = nullptr;
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 4a5a75d..054d73d 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -56,7 +56,9 @@ bool CallDispatcher::init() {
 
     try {
         for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
-            impl_->workers_.emplace_back(std::thread(&CallDispatcher::dispatchThreadProc, this));
+            auto unpacker = std::make_shared<veigar_msgpack::unpacker>();
+            unpacker->reserve_buffer(veigar_->expectedMsgMaxSize());
+            impl_->workers_.emplace_back(std::thread(&CallDispatcher::dispatchThreadProc, this, unpacker));
         }
     } catch (std::exception& e) {
         veigar::log("Veigar: Error: Create call dispatch thread failed: %s.\n", e.what());
@@ -185,14 +187,8 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
     }
 }
 
-void CallDispatcher::dispatchThreadProc() {
-    veigar_msgpack::unpacker callPac;
-    try {
-        callPac.reserve_buffer(veigar_->expectedMsgMaxSize());
-    } catch (std::bad_alloc& e) {
-        veigar::log("Veigar: Error: Pre-alloc call memory(%u bytes) failed: %s.\n", veigar_->expectedMsgMaxSize(), e.what());
-        return;
-    }
+void CallDispatcher::dispatchThreadProc(std::shared_ptr<veigar_msgpack::unpacker> unpacker) {
+    veigar_msgpack::unpacker& callPac = *unpacker;
 
     int64_t written = 0L;
     while (!impl_->stop_.load()) {
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 1d39d4d..5c81129 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -34,7 +34,9 @@ bool RespDispatcher::init() {
 
     try {
         for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
-            workers_.emplace_back(std::thread(&RespDispatcher::dispatchRespThreadProc, this));
+            auto unpacker = std::make_shared<veigar_msgpack::unpacker>();
+            unpacker->reserve_buffer(veigar_->expectedMsgMaxSize());
+            workers_.emplace_back(std::thread(&RespDispatcher::dispatchRespThreadProc, this, unpacker));
         }
     } catch (std::exception& e) {
         veigar::log("Veigar: Error: Create response dispatch thread failed: %s.\n", e.what());
@@ -104,15 +106,8 @@ std::shared_ptr<veigar::MessageQueue> RespDispatcher::messageQueue() {
     return respMsgQueue_;
 }
 
-void RespDispatcher::dispatchRespThreadProc() {
-    veigar_msgpack::unpacker respPac;
-
-    try {
-        respPac.reserve_buffer(veigar_->expectedMsgMaxSize());
-    } catch (std::bad_alloc& e) {
-        veigar::log("Veigar: Error: Pre-alloc response memory(%d bytes) failed: %s.\n", veigar_->expectedMsgMaxSize(), e.what());
-        return;
-    }
+void RespDispatcher::dispatchRespThreadProc(std::shared_ptr<veigar_msgpack::unpacker> unpacker) {
+    veigar_msgpack::unpacker& respPac = *unpacker;
 
     int64_t written = 0L;
     while (!stop_.load()) {
diff --git a/src/resp_dispatcher.h b/src/resp_dispatcher.h
index 5760a68..6d1274a 100644
--- a/src/resp_dispatcher.h
+++ b/src/resp_dispatcher.h
@@ -41,7 +41,7 @@ class RespDispatcher {
     void releaseCall(const std::string& callId);
 
    private:
-    void dispatchRespThreadProc();
+    void dispatchRespThreadProc(std::shared_ptr<veigar_msgpack::unpacker> unpacker);
 
    private:
     Veigar* veigar_ = nullptr;
-- 
2.43.0


From 2edf9cbbe677619e2825aca52a244689d5cfd008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 36/38] fix: a tuple converted from an array of another length
 read beside the array

---
 .../veigar/msgpack/v1/adaptor/cpp11/tuple.hpp  | 15 ++++++++-------
 .../v1/adaptor/detail/cpp11_msgpack_tuple.hpp  | 18 ++++++++++--------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/veigar/msgpack/v1/adaptor/cpp11/tuple.hpp b/include/veigar/msgpack/v1/adaptor/cpp11/tuple.hpp
index 6e274a8..ef8b1fb 100644
--- a/include/veigar/msgpack/v1/adaptor/cpp11/tuple.hpp
+++ b/include/veigar/msgpack/v1/adaptor/cpp11/tuple.hpp
@@ -69,23 +69,23 @@ struct StdTupleAs;
 
 template <typename T, typename... Args>
 struct StdTupleAsImpl {
-    static std::tuple<T, Args...> as(veigar_msgpack::object const& o) {
+    static std::tuple<T, Args...> as(veigar_msgpack::object const* p) {
         return std::tuple_cat(
-            std::make_tuple(o.via.array.ptr[o.via.array.size - sizeof...(Args) - 1].as<T>()),
-            StdTupleAs<Args...>::as(o));
+            std::make_tuple(p->as<T>()),
+            StdTupleAs<Args...>::as(p + 1));
     }
 };
 
 template <typename... Args>
 struct StdTupleAs {
-    static std::tuple<Args...> as(veigar_msgpack::object const& o) {
-        return StdTupleAsImpl<Args...>::as(o);
+    static std::tuple<Args...> as(veigar_msgpack::object const* p) {
+        return StdTupleAsImpl<Args...>::as(p);
     }
 };
 
 template <>
 struct StdTupleAs<> {
-    static std::tuple<> as (veigar_msgpack::object const&) {
+    static std::tuple<> as (veigar_msgpack::object const*) {
         return std::tuple<>();
     }
 };
@@ -116,7 +116,8 @@ struct as<std::tuple<Args...>, typename std::enable_if<veigar_msgpack::any_of<ve
     std::tuple<Args...> operator()(
         veigar_msgpack::object const& o) const {
         if (o.type != veigar_msgpack::type::ARRAY) { throw veigar_msgpack::type_error(); }
-        return StdTupleAs<Args...>::as(o);
+        if (o.via.array.size < sizeof...(Args)) { throw veigar_msgpack::type_error(); }
+        return StdTupleAs<Args...>::as(o.via.array.ptr);
     }
 };
 
diff --git a/include/veigar/msgpack/v1/adaptor/detail/cpp11_msgpack_tuple.hpp b/include/veigar/msgpack/v1/adaptor/detail/cpp11_msgpack_tuple.hpp
index c8c1057..855bb99 100644
--- a/include/veigar/msgpack/v1/adaptor/detail/cpp11_msgpack_tuple.hpp
+++ b/include/veigar/msgpack/v1/adaptor/detail/cpp11_msgpack_tuple.hpp
@@ -96,23 +96,23 @@ struct pack<veigar_msgpack::type::tuple<Args...>> {
 
 template <typename T, typename... Args>
 struct MsgpackTupleAsImpl {
-    static veigar_msgpack::type::tuple<T, Args...> as(veigar_msgpack::object const& o) {
+    static veigar_msgpack::type::tuple<T, Args...> as(veigar_msgpack::object const* p) {
         return veigar_msgpack::type::tuple_cat(
-            veigar_msgpack::type::make_tuple(o.via.array.ptr[o.via.array.size - sizeof...(Args) - 1].as<T>()),
-            MsgpackTupleAs<Args...>::as(o));
+            veigar_msgpack::type::make_tuple(p->as<T>()),
+            MsgpackTupleAs<Args...>::as(p + 1));
     }
 };
 
 template <typename... Args>
 struct MsgpackTupleAs {
-    static veigar_msgpack::type::tuple<Args...> as(veigar_msgpack::object const& o) {
-        return MsgpackTupleAsImpl<Args...>::as(o);
+    static veigar_msgpack::type::tuple<Args...> as(veigar_msgpack::object const* p) {
+        return MsgpackTupleAsImpl<Args...>::as(p);
     }
 };
 
 template <>
 struct MsgpackTupleAs<> {
-    static veigar_msgpack::type::tuple<> as (veigar_msgpack::object const&) {
+    static veigar_msgpack::type::tuple<> as (veigar_msgpack::object const*) {
         return veigar_msgpack::type::tuple<>();
     }
 };
@@ -133,7 +133,8 @@ struct MsgpackTupleConverter<Tuple, 1> {
     static void convert (
         veigar_msgpack::object const& o,
         Tuple& v) {
-        o.via.array.ptr[0].convert<typename std::remove_reference<decltype(v.template get<0>())>::type>(v.template get<0>());
+        if (o.via.array.size >= 1)
+            o.via.array.ptr[0].convert<typename std::remove_reference<decltype(v.template get<0>())>::type>(v.template get<0>());
     }
 };
 
@@ -152,7 +153,8 @@ struct as<veigar_msgpack::type::tuple<Args...>, typename std::enable_if<veigar_m
     veigar_msgpack::type::tuple<Args...> operator()(
         veigar_msgpack::object const& o) const {
         if (o.type != veigar_msgpack::type::ARRAY) { throw veigar_msgpack::type_error(); }
-        return MsgpackTupleAs<Args...>::as(o);
+        if (o.via.array.size < sizeof...(Args)) { throw veigar_msgpack::type_error(); }
+        return MsgpackTupleAs<Args...>::as(o.via.array.ptr);
     }
 };
 
-- 
2.43.0


From 2b92500251a5d454486858e231b9cd33b8f22ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 37/38] fix: an std::array converted from an array of another
 length read beyond it or kept invented elements

---
 include/veigar/msgpack/v1/adaptor/cpp11/array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/veigar/msgpack/v1/adaptor/cpp11/array.hpp b/include/veigar/msgpack/v1/adaptor/cpp11/array.hpp
index f422a43..7c39b52 100644
--- a/include/veigar/msgpack/v1/adaptor/cpp11/array.hpp
+++ b/include/veigar/msgpack/v1/adaptor/cpp11/array.hpp
@@ -78,7 +78,7 @@ template <typename T, std::size_t N>
 struct as<std::array<T, N>, typename std::enable_if<veigar_msgpack::has_as<T>::value>::type> {
     std::array<T, N> operator()(veigar_msgpack::object const& o) const {
         if(o.type != veigar_msgpack::type::ARRAY) { throw veigar_msgpack::type_error(); }
-        if(o.via.array.size > N) { throw veigar_msgpack::type_error(); }
+        if(o.via.array.size != N) { throw veigar_msgpack::type_error(); }
         return detail::array::as_impl<T, N>::as(o);
     }
 };
@@ -87,7 +87,7 @@ template <typename T, std::size_t N>
 struct convert<std::array<T, N>> {
     veigar_msgpack::object const& operator()(veigar_msgpack::object const& o, std::array<T, N>& v) const {
         if(o.type != veigar_msgpack::type::ARRAY) { throw veigar_msgpack::type_error(); }
-        if(o.via.array.size > N) { throw veigar_msgpack::type_error(); }
+        if(o.via.array.size != N) { throw veigar_msgpack::type_error(); }
         if(o.via.array.size > 0) {
             veigar_msgpack::object* p = o.via.array.ptr;
             veigar_msgpack::object* const pend = o.via.array.ptr + o.via.array.size;
-- 
2.43.0


From 6d029c23f4e38a70a9e2ee7aaea40a983ea20d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 38/38] fix: an std::array of bytes converted from a shorter
 string read beyond the string

---
 include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp        | 4 ++--
 .../veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp b/include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp
index 9872b9c..7638393 100644
--- a/include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp
+++ b/include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp
@@ -33,11 +33,11 @@ struct convert<std::array<char, N>> {
     veigar_msgpack::object const& operator()(veigar_msgpack::object const& o, std::array<char, N>& v) const {
         switch (o.type) {
         case veigar_msgpack::type::BIN:
-            if(o.via.bin.size > N) { throw veigar_msgpack::type_error(); }
+            if(o.via.bin.size != N) { throw veigar_msgpack::type_error(); }
             std::memcpy(v.data(), o.via.bin.ptr, o.via.bin.size);
             break;
         case veigar_msgpack::type::STR:
-            if(o.via.str.size > N) { throw veigar_msgpack::type_error(); }
+            if(o.via.str.size != N) { throw veigar_msgpack::type_error(); }
             std::memcpy(v.data(), o.via.str.ptr, N);
             break;
         default:
diff --git a/include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp b/include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp
index e646573..f65842d 100644
--- a/include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp
+++ b/include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp
@@ -33,11 +33,11 @@ struct convert<std::array<unsigned char, N>> {
     veigar_msgpack::object const& operator()(veigar_msgpack::object const& o, std::array<unsigned char, N>& v) const {
         switch (o.type) {
         case veigar_msgpack::type::BIN:
-            if(o.via.bin.size > N) { throw veigar_msgpack::type_error(); }
+            if(o.via.bin.size != N) { throw veigar_msgpack::type_error(); }
             std::memcpy(v.data(), o.via.bin.ptr, o.via.bin.size);
             break;
         case veigar_msgpack::type::STR:
-            if(o.via.str.size > N) { throw veigar_msgpack::type_error(); }
+            if(o.via.str.size != N) { throw veigar_msgpack::type_error(); }
             std::memcpy(v.data(), o.via.str.ptr, N);
             break;
         default:
-- 
2.43.0

