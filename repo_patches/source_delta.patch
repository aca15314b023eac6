From f48bc4f7847de3042caa82df4101cbc399848876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 01/30] fix: carry nanoseconds and retry after signals in
 Semaphore::wait

The deadline of a timed wait was computed without carrying tv_nsec, so
sem_timedwait refused it with EINVAL and the wait failed at once in the
last part of every second. A signal also ended waits early.
---
 src/semaphore.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index 11851d1..b1c9490 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -9,6 +9,9 @@
 #include "log.h"
 #include <assert.h>
 #include <limits>
+#ifndef VEIGAR_OS_WINDOWS
+#include <errno.h>
+#endif
 
 namespace veigar {
 
@@ -87,7 +90,8 @@ void Semaphore::wait() {
 #ifdef VEIGAR_OS_WINDOWS
         WaitForSingleObject(sh_->h_, INFINITE);
 #else
-        sem_wait(sh_->named_);
+        while (sem_wait(sh_->named_) != 0 && errno == EINTR) {
+        }
 #endif
     }
 }
@@ -112,11 +116,25 @@ bool Semaphore::wait(const int64_t& ms) {
 
         ts.tv_sec += (ms / 1000);
         ts.tv_nsec += ((ms % 1000) * 1000000);
+        if (ts.tv_nsec >= 1000000000) {
+            ts.tv_sec += 1;
+            ts.tv_nsec -= 1000000000;
+        }
+
+        int ret = 0;
+        do {
+            ret = sem_timedwait(sh_->named_, &ts);
+        } while (ret != 0 && errno == EINTR);
 
-        return (sem_timedwait(sh_->named_, &ts) == 0);
+        return (ret == 0);
     }
 
-    return (sem_wait(sh_->named_) == 0);
+    int ret = 0;
+    do {
+        ret = sem_wait(sh_->named_);
+    } while (ret != 0 && errno == EINTR);
+
+    return (ret == 0);
 #endif
 }
 
-- 
2.43.0


From 6f4f05268881f952b256cd45eee4702bfce2a949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 02/30] fix: Semaphore::IsExist must not create the semaphore

It called sem_open with O_CREAT and without the mode and value arguments,
which left a semaphore with arbitrary permissions and count behind.
---
 src/semaphore.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index b1c9490..d1f6ce1 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -23,12 +23,12 @@ bool Semaphore::IsExist(const std::string& name) {
     }
     return (h != NULL);
 #else
-    sem_t* sem = ::sem_open(name.c_str(), O_CREAT | O_EXCL);
+    sem_t* sem = ::sem_open(name.c_str(), 0);
     if (sem == SEM_FAILED) {
-        return true;
+        return false;
     }
     ::sem_close(sem);
-    return false;
+    return true;
 #endif
 }
 
-- 
2.43.0


From 793125bafda601de9191507c6c0e53266f316b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 03/30] fix: Event::wait with a negative time must not return
 at once

The largest number of milliseconds overflowed when it was converted to the
resolution of the clock, so the wait had a deadline in the past.
---
 src/event.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/event.cpp b/src/event.cpp
index d9c9601..dd3b2b9 100644
--- a/src/event.cpp
+++ b/src/event.cpp
@@ -58,8 +58,14 @@ bool Event::isCancelled() {
 
 bool Event::wait(int64_t millseconds) {
     std::unique_lock<std::mutex> ul(m_);
-    int64_t m = (millseconds >= 0 ? millseconds : std::chrono::duration_values<int64_t>::max());
-    settedCondVar_.wait_for(ul, std::chrono::milliseconds(m), [this] { return (isSet_ || isCancelled_); });
+    // A deadline that far ahead can not be represented by the clock.
+    const int64_t maxMilliseconds = 1000LL * 3600 * 24 * 365 * 100;
+    if (millseconds < 0 || millseconds > maxMilliseconds) {
+        settedCondVar_.wait(ul, [this] { return (isSet_ || isCancelled_); });
+    }
+    else {
+        settedCondVar_.wait_for(ul, std::chrono::milliseconds(millseconds), [this] { return (isSet_ || isCancelled_); });
+    }
     return (isSet_ || isCancelled_);
 }
 }  // namespace veigar
-- 
2.43.0


From f3efa6cf75c07a492043af5c38ed93ccc77335d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 04/30] fix: overlapping memcpy when messages are moved inside
 the queue

---
 src/message_queue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 580b343..79309e6 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -224,7 +224,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
 
             // move old data to offset zero
             uint8_t* pOldData = pFirstMsgData + *pFrontFree;
-            memcpy(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);
+            memmove(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);
 
             // set front free to 0
             *pFrontFree = 0;
@@ -292,7 +292,7 @@ bool MessageQueue::popFront(void* buf, int64_t bufSize, int64_t& written) {
         *pFrontFree += *pFirstMsgDataSize;
 
         // pop a element from data size list
-        memcpy(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));
+        memmove(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));
 
         ret = true;
     } while (false);
-- 
2.43.0


From 5312e8e541e051e069c4398be03617536b813cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 05/30] fix: 32-bit overflow in the size of a message queue

The number of messages times their size was computed in int32_t, so a queue
of 2 GB and more was created too small, and a negative size was accepted.
---
 src/message_queue.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 79309e6..6384ab4 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -23,11 +23,11 @@ bool MessageQueue::create(const std::string& path) {
         assert(!shm_ && !rwLock_ && !readSmp_);
         close();
 
-        if (msgMaxNumber_ <= 0) {
+        if (msgMaxNumber_ <= 0 || msgExpectedMaxSize_ < 0) {
             break;
         }
 
-        int64_t shmSize = sizeof(int64_t) * (msgMaxNumber_ + 3) + msgMaxNumber_ * msgExpectedMaxSize_;
+        int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         std::string shmName = path + "_shm";
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
@@ -85,7 +85,7 @@ bool MessageQueue::open(const std::string& path) {
         close();
 
         std::string shmName = path + "_shm";
-        int64_t shmSize = sizeof(int64_t) * (msgMaxNumber_ + 3) + msgMaxNumber_ * msgExpectedMaxSize_;
+        int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
         if (!shm_->open()) {
@@ -164,7 +164,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
     }
 
     assert(msgMaxNumber_ > 0);
-    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
+    if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
         veigar::log("Veigar: Error: The data size has exceeded the total size of the message queue. Please adjust the parameters of the message queue.\n");
         return false;
     }
@@ -327,7 +327,7 @@ bool MessageQueue::waitForRead(int64_t ms) {
 
 bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const {
     assert(msgMaxNumber_ > 0);
-    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
+    if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
         waitable = false;
         veigar::log("Veigar: Error: The data size has exceeded the total size of the message queue. Please adjust the parameters of the message queue.\n");
         return false;
-- 
2.43.0


From 7e649f2b9fba25ea4a459b32a6cc652989764bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 06/30] fix: 32-bit overflow of call timeouts above 71 minutes

---
 src/veigar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index 6f05ebe..8b8467b 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -270,7 +270,7 @@ bool Veigar::sendCall(const std::string& channelName,
         memcpy(cm.data, buffer->data(), cm.dataSize);
     }
 
-    cm.timeout = timeoutMS * 1000;
+    cm.timeout = (int64_t)timeoutMS * 1000;
     cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
     impl_->sender_->addCall(cm);
-- 
2.43.0


From b1c8fb48619e08a3e17e8d258570077df066c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 07/30] fix: ambiguous call ids

The call number directly followed the function name, so call 11 of 'f' and
call 1 of 'f1' had the same id and each could get the other's result.
---
 src/veigar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index 8b8467b..cd50d7f 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -237,7 +237,7 @@ uint32_t Veigar::timeoutOfRWLock() const {
 std::string Veigar::getNextCallId(const std::string& funcName) const {
     assert(impl_);
     uint32_t idx = impl_->callIndex_.fetch_add(1);
-    std::string callId = impl_->uuid_ + funcName + std::to_string((unsigned long)idx);
+    std::string callId = impl_->uuid_ + funcName + "-" + std::to_string((unsigned long)idx);
     return callId;
 }
 
-- 
2.43.0


From 8b37e0f36f3a9b3e5784b87156ea6f737aff5811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 08/30] fix: uuids were not unique

rand() is never seeded, so every process produced the same sequence of
uuids, and a late response could match a call of a restarted instance.
---
 src/uuid.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uuid.cpp b/src/uuid.cpp
index a7c84cc..e4bd1d2 100644
--- a/src/uuid.cpp
+++ b/src/uuid.cpp
@@ -16,14 +16,15 @@
 #include <cstdio>
 #include <cstdlib>
 #include <ctime>
+#include <random>
 #endif
 #include "string_helper.h"
 
 namespace veigar {
 #ifndef VEIGAR_OS_WINDOWS
 uint32_t UUID::Rand32() {
-    return ((rand() & 0x3) << 30) | ((rand() & 0x7fff) << 15) |
-           (rand() & 0x7fff);
+    std::random_device rd;
+    return rd();
 }
 
 std::string UUID::GenUuid4() {
-- 
2.43.0


From d720ecf57e7c1f583a5412f61fcdb88dd2a00b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 09/30] fix: a message was left in the queue when the rw-lock
 timed out

The read signal had been consumed already, so nobody looked for the message
until another one arrived.
---
 src/call_dispatcher.cpp | 1 +
 src/resp_dispatcher.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index e1f5006..3531030 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -183,6 +183,7 @@ void CallDispatcher::dispatchThreadProc() {
 
         if (!impl_->callMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
             veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from call message queue.\n");
+            impl_->callMsgQueue_->notifyRead();  // the message is still there, try again
             continue;
         }
 
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 74510a8..96744a7 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -99,6 +99,7 @@ void RespDispatcher::dispatchRespThreadProc() {
 
         if (!respMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
             veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from response message queue.\n");
+            respMsgQueue_->notifyRead();  // the message is still there, try again
             continue;
         }
 
-- 
2.43.0


From 0763ac395d91a8ef91122ffc8ec5dd7d9128a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 10/30] fix: waiting for room in a full queue kept the rw-lock

The consumer could not get the lock to make room, so the wait never
succeeded and the consumer was blocked for the whole time. The handlers of
exceptions also released the lock when it was not held.
---
 src/sender.cpp | 53 ++++++++++++++++++++++++++++++++++++--------------
 src/sender.h   |  5 ++++-
 2 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index fd98ac7..26a9e64 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -194,6 +194,7 @@ void Sender::sendCallThreadProc() {
 
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
+            bool locked = false;
             try {
                 errMsg.clear();
 
@@ -205,8 +206,9 @@ void Sender::sendCallThreadProc() {
                 }
 
                 if (mq) {
-                    if (mq->processRWLock(veigar_->timeoutOfRWLock())) {
-                        if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout)) {
+                    locked = mq->processRWLock(veigar_->timeoutOfRWLock());
+                    if (locked) {
+                        if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout, locked)) {
                             if (mq->pushBack(cm.data, cm.dataSize)) {
                                 mq->notifyRead();
                                 ec = ErrorCode::SUCCESS;
@@ -219,7 +221,10 @@ void Sender::sendCallThreadProc() {
                             ec = ErrorCode::TIMEOUT;
                             errMsg = "Waiting for call queue availability timeout.";
                         }
-                        mq->processRWUnlock();
+                        if (locked) {
+                            mq->processRWUnlock();
+                            locked = false;
+                        }
                     }
                     else {
                         ec = ErrorCode::TIMEOUT;
@@ -231,14 +236,14 @@ void Sender::sendCallThreadProc() {
                 }
 
             } catch (std::exception& e) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (mq && locked) {
+                    mq->processRWUnlock();
                 }
                 veigar::log("Veigar: Error: An exception occurred during pushing message to call queue: %s.\n", e.what());
                 errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to call queue: %s.", e.what());
             } catch (...) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (mq && locked) {
+                    mq->processRWUnlock();
                 }
                 veigar::log("Veigar: Error: An exception occurred during pushing message to call queue.\n");
                 errMsg = "An exception occurred during pushing message to call queue.";
@@ -297,6 +302,7 @@ void Sender::sendRespThreadProc() {
 
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
+            bool locked = false;
             try {
                 errMsg.clear();
 
@@ -308,8 +314,9 @@ void Sender::sendRespThreadProc() {
                 }
 
                 if (mq) {
-                    if (mq->processRWLock(veigar_->timeoutOfRWLock())) {
-                        if (checkSpaceAndWait(mq, rm.dataSize, rm.startCallTimePoint, rm.timeout)) {
+                    locked = mq->processRWLock(veigar_->timeoutOfRWLock());
+                    if (locked) {
+                        if (checkSpaceAndWait(mq, rm.dataSize, rm.startCallTimePoint, rm.timeout, locked)) {
                             if (mq->pushBack(rm.data, rm.dataSize)) {
                                 mq->notifyRead();
                                 ec = ErrorCode::SUCCESS;
@@ -322,7 +329,10 @@ void Sender::sendRespThreadProc() {
                             ec = ErrorCode::TIMEOUT;
                             errMsg = "Waiting for response queue availability timeout.";
                         }
-                        mq->processRWUnlock();
+                        if (locked) {
+                            mq->processRWUnlock();
+                            locked = false;
+                        }
                     }
                     else {
                         ec = ErrorCode::TIMEOUT;
@@ -334,13 +344,13 @@ void Sender::sendRespThreadProc() {
                 }
 
             } catch (std::exception& e) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (mq && locked) {
+                    mq->processRWUnlock();
                 }
                 errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to response queue: %s.", e.what());
             } catch (...) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (mq && locked) {
+                    mq->processRWUnlock();
                 }
                 errMsg = "An exception occurred during parsing pushing message to response queue.";
             }
@@ -359,7 +369,8 @@ void Sender::sendRespThreadProc() {
 bool Sender::checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
                                int64_t needSize,
                                int64_t startCallTimePoint,
-                               int64_t timeout) {
+                               int64_t timeout,
+                               bool& locked) {
     bool result = false;
     do {
         bool waitable = false;
@@ -386,9 +397,21 @@ bool Sender::checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
             waitMS = ms;
         }
 
+        // The consumer needs the lock to make room.
+        mq->processRWUnlock();
+        locked = false;
+
         if (stopEvent_.wait(waitMS)) {
             break;  // user call uninit, exit now!
         }
+
+        do {
+            locked = mq->processRWLock(veigar_->timeoutOfRWLock());
+        } while (!locked && !stopEvent_.isSet() && TimeUtil::GetCurrentTimestamp() - startCallTimePoint < timeout);
+
+        if (!locked) {
+            break;
+        }
     } while (true);
 
     return result;
diff --git a/src/sender.h b/src/sender.h
index 65e9cd9..a7da7a4 100644
--- a/src/sender.h
+++ b/src/sender.h
@@ -59,10 +59,13 @@ class Sender {
     void sendCallThreadProc();
     void sendRespThreadProc();
 
+    // The rw-lock of the queue is held on entry and released while waiting.
+    // 'locked' tells whether it is still held on return.
     bool checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
                            int64_t needSize,
                            int64_t startCallTimePoint,
-                           int64_t timeout);
+                           int64_t timeout,
+                           bool& locked);
 
    private:
     bool isInit_ = false;
-- 
2.43.0


From 785c3dcd3ef4c75567608320ad5edd509a741836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 11/30] fix: a queued call waited behind a blocked one although
 a sending thread was idle

The event was reset by the first thread that woke up, even when more than
one call was queued, so the other sending threads kept sleeping.
---
 src/sender.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index 26a9e64..7563690 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -114,17 +114,15 @@ bool Sender::isInit() const {
 void Sender::addCall(const Sender::CallMeta& cm) {
     callListMutex_.lock();
     callList_.emplace(cm);
-    callListMutex_.unlock();
-
     callListSetEvent_.set();
+    callListMutex_.unlock();
 }
 
 void Sender::addResp(const Sender::RespMeta& rm) {
     respListMutex_.lock();
     respList_.emplace(rm);
-    respListMutex_.unlock();
-
     respListSetEvent_.set();
+    respListMutex_.unlock();
 }
 
 std::shared_ptr<MessageQueue> Sender::getTargetCallMessageQueue(const std::string& channelName) {
@@ -174,8 +172,6 @@ void Sender::sendCallThreadProc() {
         if (callListSetEvent_.isCancelled())
             break;
 
-        callListSetEvent_.unset();
-
         for (;;) {
             if (callListSetEvent_.isCancelled())
                 break;
@@ -183,6 +179,7 @@ void Sender::sendCallThreadProc() {
             CallMeta cm;
             callListMutex_.lock();
             if (callList_.empty()) {
+                callListSetEvent_.unset();
                 callListMutex_.unlock();
                 break;
             }
@@ -284,8 +281,6 @@ void Sender::sendRespThreadProc() {
         if (respListSetEvent_.isCancelled())
             break;
 
-        respListSetEvent_.unset();
-
         for (;;) {
             if (respListSetEvent_.isCancelled())
                 break;
@@ -293,6 +288,7 @@ void Sender::sendRespThreadProc() {
             RespMeta rm;
             respListMutex_.lock();
             if (respList_.empty()) {
+                respListSetEvent_.unset();
                 respListMutex_.unlock();
                 break;
             }
-- 
2.43.0


From 7f5d1ecbf31f9332820ec500d029d27f0dacc4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 12/30] fix: Sender::uninit did not release queued responses

---
 src/sender.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index 7563690..14d8307 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -91,7 +91,7 @@ void Sender::uninit() {
 
     // release all responses memory
     respListMutex_.lock();
-    while (!callList_.empty()) {
+    while (!respList_.empty()) {
         RespMeta rm = respList_.front();
         if (rm.data) {
             free(rm.data);
-- 
2.43.0


From f83d361b9164101448db1497d80b3bd88a71d6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 13/30] fix: complete every call exactly once, also when
 shutting down

A second response completed a promise twice, which ended the process. Calls
outstanding or queued at uninit were dropped: promises broke, callbacks never
ran. A completed promise call was kept until it was released by the user.
The call is now registered before it is queued, whoever completes it removes
it first, and uninit completes what is left with an error.
---
 src/resp_dispatcher.cpp | 54 +++++++++++++++++++++++++++++++----------
 src/resp_dispatcher.h   |  6 +++++
 src/sender.cpp          | 31 ++++++++++++++---------
 src/sender.h            |  8 +++---
 src/veigar.cpp          |  9 ++++---
 5 files changed, 76 insertions(+), 32 deletions(-)

diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 96744a7..4615ba2 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -65,9 +65,7 @@ void RespDispatcher::uninit() {
         respMsgQueue_.reset();
     }
 
-    ongoingCallsMutex_.lock();
-    ongoingCalls_.clear();
-    ongoingCallsMutex_.unlock();
+    failOngoingCalls();
 
     init_ = false;
 }
@@ -180,16 +178,10 @@ void RespDispatcher::dispatchRespThreadProc() {
                     continue;
                 }
 
-                ongoingCallsMutex_.lock();
-                if (ongoingCalls_.find(callId) != ongoingCalls_.end()) {
-                    retMeta = ongoingCalls_[callId];
-                }
-                else {
-                    veigar::log("Veigar: Warning: Unable to find call: %s, Going-Call number: %d.\n", callId.c_str(), ongoingCalls_.size());
-                    ongoingCallsMutex_.unlock();
+                if (!takeCall(callId, &retMeta)) {
+                    veigar::log("Veigar: Warning: Unable to find call: %s.\n", callId.c_str());
                     continue;
                 }
-                ongoingCallsMutex_.unlock();
 
                 if (retMeta.metaType != 0 && retMeta.metaType != 1) {
                     veigar::log("Veigar: Warning: Invalid result meta type: %d.\n", retMeta.metaType);
@@ -223,8 +215,6 @@ void RespDispatcher::dispatchRespThreadProc() {
                 if (retMeta.cb) {
                     retMeta.cb(callRet);
                 }
-
-                releaseCall(callId);
             }
         } while (true);  // msgpack unpack while
     }
@@ -243,4 +233,42 @@ void RespDispatcher::releaseCall(const std::string& callId) {
         ongoingCalls_.erase(it);
     }
 }
+
+bool RespDispatcher::takeCall(const std::string& callId, ResultMeta* retMeta) {
+    std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
+    auto it = ongoingCalls_.find(callId);
+    if (it == ongoingCalls_.cend()) {
+        return false;
+    }
+
+    if (retMeta) {
+        *retMeta = it->second;
+    }
+    ongoingCalls_.erase(it);
+    return true;
+}
+
+void RespDispatcher::failOngoingCalls() {
+    std::unordered_map<std::string, ResultMeta> calls;
+    ongoingCallsMutex_.lock();
+    calls.swap(ongoingCalls_);
+    ongoingCallsMutex_.unlock();
+
+    for (auto& it : calls) {
+        CallResult failedRet;
+        failedRet.errCode = ErrorCode::FAILED;
+        failedRet.errorMessage = "The instance was shut down before the call was completed.";
+
+        if (it.second.metaType == 0) {
+            if (it.second.p) {
+                it.second.p->set_value(std::move(failedRet));
+            }
+        }
+        else if (it.second.metaType == 1) {
+            if (it.second.cb) {
+                it.second.cb(failedRet);
+            }
+        }
+    }
+}
 }  // namespace veigar
\ No newline at end of file
diff --git a/src/resp_dispatcher.h b/src/resp_dispatcher.h
index 5760a68..dc223bc 100644
--- a/src/resp_dispatcher.h
+++ b/src/resp_dispatcher.h
@@ -40,6 +40,12 @@ class RespDispatcher {
     void addOngoingCall(const std::string& callId, const ResultMeta& retMeta);
     void releaseCall(const std::string& callId);
 
+    // Removes a call in order to complete it, only one caller gets true for each call.
+    bool takeCall(const std::string& callId, ResultMeta* retMeta = nullptr);
+
+    // Completes all remaining calls with an error.
+    void failOngoingCalls();
+
    private:
     void dispatchRespThreadProc();
 
diff --git a/src/sender.cpp b/src/sender.cpp
index 14d8307..897726a 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -13,19 +13,18 @@
 #include "run_time_recorder.h"
 
 namespace veigar {
-Sender::Sender(Veigar* v) noexcept :
-    veigar_(v) {
+Sender::Sender(Veigar* v, std::shared_ptr<RespDispatcher> respDisp) noexcept :
+    veigar_(v),
+    respDisp_(respDisp) {
 }
 
-bool Sender::init(std::shared_ptr<RespDispatcher> respDisp,
-                  std::shared_ptr<MessageQueue> selfCallMQ,
+bool Sender::init(std::shared_ptr<MessageQueue> selfCallMQ,
                   std::shared_ptr<MessageQueue> selfRespMQ) {
     if (isInit_)
         return true;
 
     stopEvent_.reset();
 
-    respDisp_ = respDisp;
     selfCallMQ_ = selfCallMQ;
     selfRespMQ_ = selfRespMQ;
 
@@ -43,7 +42,9 @@ bool Sender::init(std::shared_ptr<RespDispatcher> respDisp,
 }
 
 void Sender::uninit() {
+    callListMutex_.lock();
     stopEvent_.set();
+    callListMutex_.unlock();
 
     callListSetEvent_.cancel();
     respListSetEvent_.cancel();
@@ -100,7 +101,9 @@ void Sender::uninit() {
     }
     respListMutex_.unlock();
 
-    respDisp_.reset();
+    // Nothing is sent any more, the calls can not get a result.
+    respDisp_->failOngoingCalls();
+
     selfCallMQ_.reset();
     selfRespMQ_.reset();
 
@@ -111,11 +114,19 @@ bool Sender::isInit() const {
     return isInit_;
 }
 
-void Sender::addCall(const Sender::CallMeta& cm) {
+bool Sender::addCall(const Sender::CallMeta& cm) {
+    respDisp_->addOngoingCall(cm.callId, cm.resultMeta);
+
     callListMutex_.lock();
+    if (stopEvent_.isSet()) {
+        callListMutex_.unlock();
+        free(cm.data);
+        return !respDisp_->takeCall(cm.callId);  // false: the call still has to be completed
+    }
     callList_.emplace(cm);
     callListSetEvent_.set();
     callListMutex_.unlock();
+    return true;
 }
 
 void Sender::addResp(const Sender::RespMeta& rm) {
@@ -187,8 +198,6 @@ void Sender::sendCallThreadProc() {
             callList_.pop();
             callListMutex_.unlock();
 
-            respDisp_->addOngoingCall(cm.callId, cm.resultMeta);
-
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
             bool locked = false;
@@ -246,9 +255,7 @@ void Sender::sendCallThreadProc() {
                 errMsg = "An exception occurred during pushing message to call queue.";
             }
 
-            if (ec != ErrorCode::SUCCESS) {
-                respDisp_->releaseCall(cm.callId);
-
+            if (ec != ErrorCode::SUCCESS && respDisp_->takeCall(cm.callId)) {
                 CallResult failedRet;
                 failedRet.errCode = ec;
                 failedRet.errorMessage = errMsg;
diff --git a/src/sender.h b/src/sender.h
index a7da7a4..3dc29c7 100644
--- a/src/sender.h
+++ b/src/sender.h
@@ -38,18 +38,18 @@ class Sender {
         int64_t startCallTimePoint;  // microseconds
         int64_t timeout = 0;         // the timeout for waiting response queue availability, microseconds
     };
-    Sender(Veigar* v) noexcept;
+    Sender(Veigar* v, std::shared_ptr<RespDispatcher> respDisp) noexcept;
     ~Sender() noexcept = default;
 
-    bool init(std::shared_ptr<RespDispatcher> respDisp,
-              std::shared_ptr<MessageQueue> selfCallMQ,
+    bool init(std::shared_ptr<MessageQueue> selfCallMQ,
               std::shared_ptr<MessageQueue> selfRespMQ);
 
     void uninit();
 
     bool isInit() const;
 
-    void addCall(const Sender::CallMeta& cm);
+    // Returns false if the call was not accepted because the sender is being stopped.
+    bool addCall(const Sender::CallMeta& cm);
     void addResp(const Sender::RespMeta& rm);
 
    private:
diff --git a/src/veigar.cpp b/src/veigar.cpp
index cd50d7f..6a7d277 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -51,7 +51,7 @@ class Veigar::Impl {
             }
 
             respDispatcher_ = std::make_shared<RespDispatcher>(veigar_);
-            sender_ = std::make_shared<Sender>(veigar_);
+            sender_ = std::make_shared<Sender>(veigar_, respDispatcher_);
 
             assert(veigar_->callDisp_);
             if (!veigar_->callDisp_->init()) {
@@ -66,7 +66,7 @@ class Veigar::Impl {
             }
 
             assert(sender_);
-            if (!sender_->init(respDispatcher_, veigar_->callDisp_->messageQueue(), respDispatcher_->messageQueue())) {
+            if (!sender_->init(veigar_->callDisp_->messageQueue(), respDispatcher_->messageQueue())) {
                 veigar::log("Veigar: Error: Init sender failed.\n");
                 break;
             }
@@ -273,7 +273,10 @@ bool Veigar::sendCall(const std::string& channelName,
     cm.timeout = (int64_t)timeoutMS * 1000;
     cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
-    impl_->sender_->addCall(cm);
+    if (!impl_->sender_->addCall(cm)) {
+        exceptionMsg = "The instance is being shut down.";
+        return false;
+    }
 
     return true;
 }
-- 
2.43.0


From b9102f68fdab372df1bed0305f2367effe76769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:20 +0000
Subject: [PATCH 14/30] fix: a failed init crashed on an empty name and lost
 the bound functions

---
 include/veigar/call_dispatcher.h | 2 +-
 src/call_dispatcher.cpp          | 6 ++++--
 src/veigar.cpp                   | 6 +++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index a46c2a6..8258d30 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -40,7 +40,7 @@ class VEIGAR_API CallDispatcher {
 
     bool init();
     bool isInit() const;
-    void uninit();
+    void uninit(bool clearFuncs = true);
 
     std::shared_ptr<MessageQueue> messageQueue();
 
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 3531030..cc7c3e5 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -65,7 +65,7 @@ bool CallDispatcher::isInit() const {
     return init_;
 }
 
-void CallDispatcher::uninit() {
+void CallDispatcher::uninit(bool clearFuncs /*= true*/) {
     if (!init_) {
         return;
     }
@@ -87,7 +87,9 @@ void CallDispatcher::uninit() {
         impl_->callMsgQueue_.reset();
     }
 
-    funcs_.clear();
+    if (clearFuncs) {
+        funcs_.clear();
+    }
 
     init_ = false;
 }
diff --git a/src/veigar.cpp b/src/veigar.cpp
index 6a7d277..bbf6431 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -76,14 +76,14 @@ class Veigar::Impl {
 
         if (!isInit_) {
             if (veigar_->callDisp_->isInit()) {
-                veigar_->callDisp_->uninit();
+                veigar_->callDisp_->uninit(false);
             }
 
-            if (respDispatcher_->isInit()) {
+            if (respDispatcher_ && respDispatcher_->isInit()) {
                 respDispatcher_->uninit();
             }
 
-            if (sender_->isInit()) {
+            if (sender_) {
                 sender_->uninit();
             }
 
-- 
2.43.0


From 54a4bb96a37b760173e791987970a9a98427e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:20 +0000
Subject: [PATCH 15/30] fix: CallDispatcher kept the threads of earlier
 initialisations

---
 src/call_dispatcher.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index cc7c3e5..b96c784 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -81,6 +81,7 @@ void CallDispatcher::uninit(bool clearFuncs /*= true*/) {
             worker.join();
         }
     }
+    impl_->workers_.clear();
 
     if (impl_->callMsgQueue_) {
         impl_->callMsgQueue_->close();
-- 
2.43.0


From 887a56a0c64f0bd2a1d2e75395a872fee472df4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:54 +0000
Subject: [PATCH 16/30] fix: uninit destroyed the sender and dispatcher while
 other threads used them

Calls from other threads, releases of calls and responses of functions that
were still running used the objects without any protection.
---
 src/sender.cpp |  5 ++++
 src/veigar.cpp | 62 +++++++++++++++++++++++++++++++++++---------------
 2 files changed, 49 insertions(+), 18 deletions(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index 897726a..89f423c 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -131,6 +131,11 @@ bool Sender::addCall(const Sender::CallMeta& cm) {
 
 void Sender::addResp(const Sender::RespMeta& rm) {
     respListMutex_.lock();
+    if (stopEvent_.isSet()) {
+        respListMutex_.unlock();
+        free(rm.data);
+        return;
+    }
     respList_.emplace(rm);
     respListSetEvent_.set();
     respListMutex_.unlock();
diff --git a/src/veigar.cpp b/src/veigar.cpp
index bbf6431..faa8005 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -7,6 +7,7 @@
  */
 #include "veigar/veigar.h"
 #include <cstdlib>
+#include <mutex>
 #include "uuid.h"
 #include "log.h"
 #include "message_queue.h"
@@ -50,8 +51,11 @@ class Veigar::Impl {
                 break;
             }
 
-            respDispatcher_ = std::make_shared<RespDispatcher>(veigar_);
-            sender_ = std::make_shared<Sender>(veigar_, respDispatcher_);
+            {
+                std::lock_guard<std::mutex> lg(mutex_);
+                respDispatcher_ = std::make_shared<RespDispatcher>(veigar_);
+                sender_ = std::make_shared<Sender>(veigar_, respDispatcher_);
+            }
 
             assert(veigar_->callDisp_);
             if (!veigar_->callDisp_->init()) {
@@ -90,6 +94,7 @@ class Veigar::Impl {
             uuid_.clear();
             channelName_.clear();
 
+            std::lock_guard<std::mutex> lg(mutex_);
             sender_.reset();
             respDispatcher_.reset();
         }
@@ -105,12 +110,20 @@ class Veigar::Impl {
             return;
         }
 
-        assert(sender_);
-        if (sender_) {
-            if (sender_->isInit()) {
-                sender_->uninit();
+        // Other threads may be using these, they keep them alive but do not find them any more.
+        std::shared_ptr<Sender> sender;
+        std::shared_ptr<RespDispatcher> respDispatcher;
+        {
+            std::lock_guard<std::mutex> lg(mutex_);
+            sender.swap(sender_);
+            respDispatcher.swap(respDispatcher_);
+        }
+
+        assert(sender);
+        if (sender) {
+            if (sender->isInit()) {
+                sender->uninit();
             }
-            sender_.reset();
         }
 
         assert(veigar_ && veigar_->callDisp_);
@@ -118,12 +131,11 @@ class Veigar::Impl {
             veigar_->callDisp_->uninit();
         }
 
-        assert(respDispatcher_);
-        if (respDispatcher_) {
-            if (respDispatcher_->isInit()) {
-                respDispatcher_->uninit();
+        assert(respDispatcher);
+        if (respDispatcher) {
+            if (respDispatcher->isInit()) {
+                respDispatcher->uninit();
             }
-            respDispatcher_.reset();
         }
 
         isInit_ = false;
@@ -144,8 +156,19 @@ class Veigar::Impl {
     // If A need call B's function, A push the message to B's call message queue.
     // If B has a response to A, B push the message to A's response message queue.
     //
+    std::mutex mutex_;  // protects the two pointers
     std::shared_ptr<RespDispatcher> respDispatcher_;
     std::shared_ptr<Sender> sender_;
+
+    std::shared_ptr<RespDispatcher> respDispatcher() {
+        std::lock_guard<std::mutex> lg(mutex_);
+        return respDispatcher_;
+    }
+
+    std::shared_ptr<Sender> sender() {
+        std::lock_guard<std::mutex> lg(mutex_);
+        return sender_;
+    }
 };
 
 Veigar::Veigar() noexcept :
@@ -251,7 +274,8 @@ bool Veigar::sendCall(const std::string& channelName,
     assert(impl_);
     assert(timeoutMS > impl_->processRWTimeout_ && "The call timeout should be greater than the timeout for acquiring the inter-process read-write lock.");
 
-    if (!impl_->sender_) {
+    std::shared_ptr<Sender> sender = impl_->sender();
+    if (!sender) {
         return false;
     }
 
@@ -273,7 +297,7 @@ bool Veigar::sendCall(const std::string& channelName,
     cm.timeout = (int64_t)timeoutMS * 1000;
     cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
-    if (!impl_->sender_->addCall(cm)) {
+    if (!sender->addCall(cm)) {
         exceptionMsg = "The instance is being shut down.";
         return false;
     }
@@ -286,7 +310,8 @@ bool Veigar::sendResponse(const std::string& targetChannel,
                           size_t bufSize,
                           std::string& errMsg) {
     assert(impl_);
-    if (!impl_->sender_) {
+    std::shared_ptr<Sender> sender = impl_->sender();
+    if (!sender) {
         return false;
     }
 
@@ -303,14 +328,15 @@ bool Veigar::sendResponse(const std::string& targetChannel,
     rm.timeout = VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT * 1000;
     rm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
-    impl_->sender_->addResp(rm);
+    sender->addResp(rm);
 
     return true;
 }
 
 void Veigar::releaseCall(const std::string& callId) {
-    if (impl_->respDispatcher_) {
-        impl_->respDispatcher_->releaseCall(callId);
+    std::shared_ptr<RespDispatcher> respDispatcher = impl_->respDispatcher();
+    if (respDispatcher) {
+        respDispatcher->releaseCall(callId);
     }
 }
 
-- 
2.43.0


From c60e4c263c080eac67f2998ed83d42f9dbfb8092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 17/30] fix: syncCall waited for ever when no result arrived

The timeout was only applied to waiting for room in the queue of the target,
so a blocked, stopped or dead target blocked the caller for ever.
---
 include/veigar/veigar.h   | 1 +
 include/veigar/veigar.inl | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/veigar/veigar.h b/include/veigar/veigar.h
index a9ded89..3a20c48 100644
--- a/include/veigar/veigar.h
+++ b/include/veigar/veigar.h
@@ -12,6 +12,7 @@
 #include <string>
 #include <vector>
 #include <future>
+#include <chrono>
 #include <inttypes.h>
 #include "veigar/config.h"
 #include "veigar/call_result.h"
diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index 90c2da0..478e178 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -49,6 +49,15 @@ CallResult Veigar::syncCall(const std::string& targetChannel,
         return cr;
     }
 
+    if (acr->second.wait_for(std::chrono::milliseconds(timeoutMS)) != std::future_status::ready) {
+        releaseCall(acr->first);
+
+        CallResult cr;
+        cr.errCode = ErrorCode::TIMEOUT;
+        cr.errorMessage = "Waiting for the result of the call timeout.";
+        return cr;
+    }
+
     CallResult callRet = acr->second.get();
 
     releaseCall(acr->first);
-- 
2.43.0


From d8acd0ebf5519d9c00d6cbdbf143b5b801af17cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 18/30] fix: the function registry was not synchronised

Functions can be bound and unbound while calls are served by other threads.
---
 include/veigar/call_dispatcher.h   |  3 +++
 include/veigar/call_dispatcher.inl |  1 +
 src/call_dispatcher.cpp            | 17 ++++++++++++++---
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index 8258d30..3198833 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -12,6 +12,7 @@
 
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <unordered_map>
 #include "veigar/config.h"
 #include "veigar/msgpack.hpp"
@@ -76,6 +77,7 @@ class VEIGAR_API CallDispatcher {
 
     // returns a list of all names which functors are binded to
     std::vector<std::string> names() const {
+        std::lock_guard<std::mutex> lg(funcsMutex_);
         std::vector<std::string> names;
         for (auto it = funcs_.begin(); it != funcs_.end(); ++it)
             names.push_back(it->first);
@@ -98,6 +100,7 @@ class VEIGAR_API CallDispatcher {
     Veigar* veigar_ = nullptr;
     bool init_ = false;
 
+    mutable std::mutex funcsMutex_;
     std::unordered_map<std::string, AdaptorType> funcs_;
 
     class Impl;
diff --git a/include/veigar/call_dispatcher.inl b/include/veigar/call_dispatcher.inl
index 204cb53..b1d9418 100644
--- a/include/veigar/call_dispatcher.inl
+++ b/include/veigar/call_dispatcher.inl
@@ -9,6 +9,7 @@ namespace veigar {
 namespace detail {
 template <typename F>
 bool CallDispatcher::bind(std::string const& name, F func) {
+    std::lock_guard<std::mutex> lg(funcsMutex_);
     if (name.empty() || isFuncNameExist(name)) {
         return false;
     }
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index b96c784..7c98604 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -89,6 +89,7 @@ void CallDispatcher::uninit(bool clearFuncs /*= true*/) {
     }
 
     if (clearFuncs) {
+        std::lock_guard<std::mutex> lg(funcsMutex_);
         funcs_.clear();
     }
 
@@ -100,6 +101,7 @@ std::shared_ptr<veigar::MessageQueue> CallDispatcher::messageQueue() {
 }
 
 void CallDispatcher::unbind(std::string const& name) {
+    std::lock_guard<std::mutex> lg(funcsMutex_);
     auto it = funcs_.find(name);
     if (it != funcs_.end()) {
         funcs_.erase(it);
@@ -141,15 +143,24 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
     auto&& funcName = std::get<3>(the_call);
     auto&& args = std::get<4>(the_call);
 
-    std::unordered_map<std::string, AdaptorType>::const_iterator itFunc = funcs_.find(funcName);
-    if (itFunc == funcs_.cend()) {
+    // Copied, because the function may be unbound while it is running.
+    AdaptorType func;
+    {
+        std::lock_guard<std::mutex> lg(funcsMutex_);
+        std::unordered_map<std::string, AdaptorType>::const_iterator itFunc = funcs_.find(funcName);
+        if (itFunc != funcs_.cend()) {
+            func = itFunc->second;
+        }
+    }
+
+    if (!func) {
         return Response::MakeResponseWithError(
             callId,
             StringHelper::StringPrintf("Could not find function '%s' with argument count %d.", funcName.c_str(), args.via.array.size));
     }
 
     try {
-        auto result = (itFunc->second)(args);
+        auto result = func(args);
         return Response::MakeResponseWithResult(callId, std::move(result));
     } catch (std::exception& e) {
         return Response::MakeResponseWithError(
-- 
2.43.0


From 4fc6e522eb0b390a64b3a871c1bc47b3b4a67a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 19/30] fix: a call with the wrong number of arguments ran the
 function

The number was only checked by assert, in release builds missing arguments
were made up and surplus ones ignored.
---
 include/veigar/call_dispatcher.h   | 3 +++
 include/veigar/call_dispatcher.inl | 8 ++++----
 src/call_dispatcher.cpp            | 7 +++++++
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index 3198833..629c5f0 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -85,6 +85,9 @@ class VEIGAR_API CallDispatcher {
     }
 
    private:
+    // Throws an exception if args is not an array of count elements.
+    static void CheckArgsCount(veigar_msgpack::object const& args, uint32_t count);
+
     // Processes a message that contains a call according to the Msgpack-RPC spec.
     // msg: The messagepack object that contains the call.
     detail::Response dispatch(veigar_msgpack::object const& msg, std::string& callerChannelName);
diff --git a/include/veigar/call_dispatcher.inl b/include/veigar/call_dispatcher.inl
index b1d9418..7fe5c3e 100644
--- a/include/veigar/call_dispatcher.inl
+++ b/include/veigar/call_dispatcher.inl
@@ -30,7 +30,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
     funcs_.insert(
         std::make_pair(name, [func, name](veigar_msgpack::object const& args) {
             constexpr int args_count = std::tuple_size<args_type>::value;
-            assert(args_count == args.via.array.size);
+            CheckArgsCount(args, args_count);
             func();
             return detail::make_unique<veigar_msgpack::object_handle>();
         }));
@@ -50,7 +50,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
         std::make_pair(name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
-                           assert(args_count == args.via.array.size);
+                           CheckArgsCount(args, args_count);
 
                            args_type args_real;
                            // note: dispatcher will catch this type_error exception.
@@ -75,7 +75,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
         std::make_pair(name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
-                           assert(args_count == args.via.array.size);
+                           CheckArgsCount(args, args_count);
 
                            auto z = detail::make_unique<veigar_msgpack::zone>();
                            auto result = veigar_msgpack::object(func(), *z);
@@ -97,7 +97,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
     funcs_.insert(std::make_pair(name,
                                  [func, name](veigar_msgpack::object const& args) {
                                      constexpr int args_count = std::tuple_size<args_type>::value;
-                                     assert(args_count == args.via.array.size);
+                                     CheckArgsCount(args, args_count);
 
                                      args_type args_real;
                                      // note: dispatcher will catch this type_error exception.
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 7c98604..48faee5 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -13,6 +13,7 @@
 #include "time_util.h"
 #include <atomic>
 #include <queue>
+#include <stdexcept>
 #include "message_queue.h"
 #include "run_time_recorder.h"
 
@@ -108,6 +109,12 @@ void CallDispatcher::unbind(std::string const& name) {
     }
 }
 
+void CallDispatcher::CheckArgsCount(veigar_msgpack::object const& args, uint32_t count) {
+    if (args.type != veigar_msgpack::type::ARRAY || args.via.array.size != count) {
+        throw std::invalid_argument(StringHelper::StringPrintf("Expected %u argument(s)", count));
+    }
+}
+
 Response CallDispatcher::dispatch(veigar_msgpack::object const& msg, std::string& callerChannelName) {
     // Quickly check
     if (msg.via.array.size != 5) {
-- 
2.43.0


From 856fa508b62dd13d6eca2ddb1a467dea1f237bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 20/30] fix: a malformed message spoiled the messages after it

The unpacker kept the state and the bytes of a truncated message and parsed
the next message as its continuation. A call that is not an array was also
taken for one.
---
 src/call_dispatcher.cpp | 7 ++++++-
 src/resp_dispatcher.cpp | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 48faee5..2cc9cf9 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -117,7 +117,7 @@ void CallDispatcher::CheckArgsCount(veigar_msgpack::object const& args, uint32_t
 
 Response CallDispatcher::dispatch(veigar_msgpack::object const& msg, std::string& callerChannelName) {
     // Quickly check
-    if (msg.via.array.size != 5) {
+    if (msg.type != veigar_msgpack::type::ARRAY || msg.via.array.size != 5) {
         return Response::MakeEmptyResponse();
     }
 
@@ -262,6 +262,11 @@ void CallDispatcher::dispatchThreadProc() {
             }
 
             if (!nextRet) {
+                // Nothing of a truncated or malformed message may be taken for a part of the next one.
+                callPac.reset();
+                callPac.reset_zone();
+                callPac.set_referenced(false);
+                callPac.remove_nonparsed_buffer();
                 break;
             }
 
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 4615ba2..2dbfc50 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -155,6 +155,11 @@ void RespDispatcher::dispatchRespThreadProc() {
             }
 
             if (!nextRet) {
+                // Nothing of a truncated or malformed message may be taken for a part of the next one.
+                respPac.reset();
+                respPac.reset_zone();
+                respPac.set_referenced(false);
+                respPac.remove_nonparsed_buffer();
                 break;
             }
 
-- 
2.43.0


From 95d66da03669ac441810e0573e8eec1588a5d239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 21/30] fix: a deeply nested message overflowed the stack of
 its receiver

Results are cloned recursively, and a message may hold as many levels as it
has bytes.
---
 include/veigar/config.h | 4 ++++
 src/call_dispatcher.cpp | 5 ++++-
 src/resp_dispatcher.cpp | 5 ++++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/veigar/config.h b/include/veigar/config.h
index 2e067ff..4f7c478 100644
--- a/include/veigar/config.h
+++ b/include/veigar/config.h
@@ -59,6 +59,10 @@ static constexpr unsigned VERSION_MINOR = 5;
 #define VEIGAR_SEND_RESPONSE_THREAD_NUMBER 3
 #endif
 
+#ifndef VEIGAR_MAX_NESTING_DEPTH
+#define VEIGAR_MAX_NESTING_DEPTH 1024  // of the objects in a message
+#endif
+
 #ifndef VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT
 #define VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT 1500 // ms
 #endif
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 2cc9cf9..efe7d85 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -185,7 +185,10 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
 }
 
 void CallDispatcher::dispatchThreadProc() {
-    veigar_msgpack::unpacker callPac;
+    // Nested objects are processed recursively.
+    const veigar_msgpack::unpack_limit limit(0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, VEIGAR_MAX_NESTING_DEPTH);
+    veigar_msgpack::unpacker callPac(
+        [](veigar_msgpack::type::object_type, std::size_t, void*) { return true; }, nullptr, MSGPACK_UNPACKER_INIT_BUFFER_SIZE, limit);
     try {
         callPac.reserve_buffer(veigar_->expectedMsgMaxSize());
     } catch (std::bad_alloc& e) {
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 2dbfc50..64e3723 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -75,7 +75,10 @@ std::shared_ptr<veigar::MessageQueue> RespDispatcher::messageQueue() {
 }
 
 void RespDispatcher::dispatchRespThreadProc() {
-    veigar_msgpack::unpacker respPac;
+    // Nested objects are processed recursively.
+    const veigar_msgpack::unpack_limit limit(0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, VEIGAR_MAX_NESTING_DEPTH);
+    veigar_msgpack::unpacker respPac(
+        [](veigar_msgpack::type::object_type, std::size_t, void*) { return true; }, nullptr, MSGPACK_UNPACKER_INIT_BUFFER_SIZE, limit);
 
     try {
         respPac.reserve_buffer(veigar_->expectedMsgMaxSize());
-- 
2.43.0


From 9fb745658c9a53935e8b686cd6e937742757673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 22/30] fix: a shared memory was mapped with the size expected
 by the opener

If the creator had chosen a smaller size, or had not set it yet, an access
ended the process with SIGBUS. A handle that had created a shared memory also
removed the name when it was closed after being used to open one.
---
 src/shared_memory.cpp | 18 +++++++++++++++---
 src/shared_memory.h   |  3 ++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 5707d40..8fcb75e 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -190,8 +190,17 @@ bool SharedMemory::open() {
         return false;
     }
 
+    // The creator decided on the size, accessing memory behind it ends the process.
+    struct stat st;
+    if (fstat(fd_, &st) != 0 || st.st_size <= 0) {
+        veigar::log("Veigar: Error: The shared memory is not ready.\n");
+        ::close(fd_);
+        fd_ = -1;
+        return false;
+    }
+
     void* memory = mmap(nullptr,                 // addr
-                        size_,                   // length
+                        st.st_size,              // length
                         PROT_READ | PROT_WRITE,  // prot
                         MAP_SHARED,              // flags
                         fd_,                     // fd
@@ -200,7 +209,7 @@ bool SharedMemory::open() {
 
     if (memory == MAP_FAILED) {
         int err = errno;
-        veigar::log("Veigar: Error: mmap failed, size: %" PRId64 ", err: %d.\n", size_, err);
+        veigar::log("Veigar: Error: mmap failed, size: %" PRId64 ", err: %d.\n", (int64_t)st.st_size, err);
 
         ::close(fd_);
         fd_ = -1;
@@ -208,6 +217,7 @@ bool SharedMemory::open() {
     }
 
     data_ = static_cast<uint8_t*>(memory);
+    viewSize_ = st.st_size;
 
     if (!data_) {
         ::close(fd_);
@@ -227,8 +237,9 @@ void SharedMemory::close() {
     if (fd_ != -1) {
         //veigar::log("Veigar: Close fd: %d.\n", fd_);
         if (data_) {
-            munmap(data_, size_);
+            munmap(data_, size());
             data_ = nullptr;
+            viewSize_ = 0;
         }
 
         if (fd_ >= 0) {
@@ -240,6 +251,7 @@ void SharedMemory::close() {
             if (!path_.empty()) {
                 shm_unlink(path_.c_str());
             }
+            shmCreator_ = false;
         }
     }
 }
diff --git a/src/shared_memory.h b/src/shared_memory.h
index a62b9a6..b1cc9fb 100644
--- a/src/shared_memory.h
+++ b/src/shared_memory.h
@@ -32,7 +32,7 @@ class SharedMemory {
     void close();
 
     inline int64_t size() const {
-        return size_;
+        return viewSize_ > 0 ? viewSize_ : size_;
     }
 
     inline std::string path() const {
@@ -48,6 +48,7 @@ class SharedMemory {
     std::string path_;
     uint8_t* data_ = nullptr;
     int64_t size_ = 0;
+    int64_t viewSize_ = 0;  // of an opened one, the creator decides on the size
 #ifdef VEIGAR_OS_WINDOWS
     HANDLE handle_ = NULL;
 #else
-- 
2.43.0


From 3cee3d0bbf541addc34a7cc1125ee8e4a8022e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:54 +0000
Subject: [PATCH 23/30] fix: the semaphores of a queue were never removed

They stayed in the system for ever, and a queue created again under the same
name took over their counts: stale read signals, and a lock that was never
free again if its holder had died. create() also removes what is left by a
process that did not close its queue.
---
 src/message_queue.cpp | 53 ++++++++++++++-----------------------------
 src/message_queue.h   |  1 +
 src/semaphore.cpp     |  8 +++++++
 src/semaphore.h       |  3 +++
 src/shared_memory.cpp |  8 +++++++
 src/shared_memory.h   |  3 +++
 6 files changed, 40 insertions(+), 36 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 6384ab4..42eced2 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -30,18 +30,25 @@ bool MessageQueue::create(const std::string& path) {
         int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         std::string shmName = path + "_shm";
+        std::string rwLockName = path + "_rwlock";
+        std::string readSmpName = path + "_readsmp";
+
+        // Something may be left by a process that did not close the queue.
+        SharedMemory::Remove(shmName);
+        Semaphore::Remove(rwLockName);
+        Semaphore::Remove(readSmpName);
+        createdPath_ = path;
+
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
         if (!shm_->create()) {
             break;
         }
 
-        std::string rwLockName = path + "_rwlock";
         rwLock_ = std::make_shared<Semaphore>();
         if (!rwLock_->open(rwLockName.c_str(), 1, 1)) {
             break;
         }
 
-        std::string readSmpName = path + "_readsmp";
         readSmp_ = std::make_shared<Semaphore>();
         if (!readSmp_->open(readSmpName, 0)) {
             break;
@@ -56,23 +63,7 @@ bool MessageQueue::create(const std::string& path) {
     } while (false);
 
     if (!result) {
-        if (shm_) {
-            if (shm_->valid())
-                shm_->close();
-            shm_.reset();
-        }
-
-        if (rwLock_) {
-            if (rwLock_->valid())
-                rwLock_->close();
-            rwLock_.reset();
-        }
-
-        if (readSmp_) {
-            if (readSmp_->valid())
-                readSmp_->close();
-            readSmp_.reset();
-        }
+        close();
     }
 
     return result;
@@ -116,23 +107,7 @@ bool MessageQueue::open(const std::string& path) {
     } while (false);
 
     if (!result) {
-        if (shm_) {
-            if (shm_->valid())
-                shm_->close();
-            shm_.reset();
-        }
-
-        if (rwLock_) {
-            if (rwLock_->valid())
-                rwLock_->close();
-            rwLock_.reset();
-        }
-
-        if (readSmp_) {
-            if (readSmp_->valid())
-                readSmp_->close();
-            readSmp_.reset();
-        }
+        close();
     }
 
     return result;
@@ -395,6 +370,12 @@ void MessageQueue::close() {
             readSmp_->close();
         readSmp_.reset();
     }
+
+    if (!createdPath_.empty()) {
+        Semaphore::Remove(createdPath_ + "_rwlock");
+        Semaphore::Remove(createdPath_ + "_readsmp");
+        createdPath_.clear();
+    }
 }
 
 void MessageQueue::notifyRead() {
diff --git a/src/message_queue.h b/src/message_queue.h
index e5dd93f..bf46a8e 100644
--- a/src/message_queue.h
+++ b/src/message_queue.h
@@ -47,6 +47,7 @@ class MessageQueue {
    private:
     int32_t msgMaxNumber_ = 0;
     int32_t msgExpectedMaxSize_ = 0;
+    std::string createdPath_;  // empty if not the creator
     std::shared_ptr<SharedMemory> shm_ = nullptr;
     std::shared_ptr<Semaphore> rwLock_ = nullptr;
     std::shared_ptr<Semaphore> readSmp_ = nullptr;
diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index d1f6ce1..cdca155 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -32,6 +32,14 @@ bool Semaphore::IsExist(const std::string& name) {
 #endif
 }
 
+void Semaphore::Remove(const std::string& name) {
+#ifndef VEIGAR_OS_WINDOWS
+    ::sem_unlink(name.c_str());
+#else
+    (void)name;
+#endif
+}
+
 bool Semaphore::open(const std::string& name, int value /*= 0*/, int maxValue /*= 2147483647*/) {
     assert(!name.empty());
     assert(!valid());
diff --git a/src/semaphore.h b/src/semaphore.h
index ec72dcf..3c13123 100644
--- a/src/semaphore.h
+++ b/src/semaphore.h
@@ -41,6 +41,9 @@ class Semaphore {
 
     static bool IsExist(const std::string& name);
 
+    // Removes the name, the semaphore itself lives as long as it is open.
+    static void Remove(const std::string& name);
+
     // The semaphore will be created if it does not already exist.
     // 
     // named semaphore used in synchronization among processes.
diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 8fcb75e..5b00782 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -115,8 +115,16 @@ bool SharedMemory::create() {
     return true;
 }
 
+void SharedMemory::Remove(const std::string& path) {
+    (void)path;
+}
+
 #else   // !VEIGAR_OS_WINDOWS
 
+void SharedMemory::Remove(const std::string& path) {
+    shm_unlink(("/" + path).c_str());
+}
+
 SharedMemory::SharedMemory(const std::string& path, int64_t size) noexcept :
     size_(size) {
     // For portable use, a shared memory object should be identified by a name of the form / somename;
diff --git a/src/shared_memory.h b/src/shared_memory.h
index b1cc9fb..2f36296 100644
--- a/src/shared_memory.h
+++ b/src/shared_memory.h
@@ -31,6 +31,9 @@ class SharedMemory {
     bool valid() const;
     void close();
 
+    // Removes the name, the memory itself lives as long as it is open.
+    static void Remove(const std::string& path);
+
     inline int64_t size() const {
         return viewSize_ > 0 ? viewSize_ : size_;
     }
-- 
2.43.0


From d975d31002951c549f0dd4fd9955880b9567d6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 24/30] fix: a queue was opened with the settings of the opener
 and before it was initialised

---
 src/message_queue.cpp | 41 ++++++++++++++++++++++++++++++++++++-----
 src/message_queue.h   |  9 ++++++++-
 src/shared_memory.cpp |  9 +++++++++
 src/shared_memory.h   |  3 +++
 4 files changed, 56 insertions(+), 6 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 42eced2..87d7ec7 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -8,12 +8,15 @@
 #include "message_queue.h"
 #include "log.h"
 #include <assert.h>
+#include <atomic>
 #include <cstring>
 
 namespace veigar {
 MessageQueue::MessageQueue(int32_t msgMaxNumber, int32_t msgExpectedMaxSize) noexcept :
     msgMaxNumber_(msgMaxNumber),
-    msgExpectedMaxSize_(msgExpectedMaxSize) {
+    msgExpectedMaxSize_(msgExpectedMaxSize),
+    ownMaxNumber_(msgMaxNumber),
+    ownExpectedMaxSize_(msgExpectedMaxSize) {
 }
 
 bool MessageQueue::create(const std::string& path) {
@@ -39,7 +42,8 @@ bool MessageQueue::create(const std::string& path) {
         Semaphore::Remove(readSmpName);
         createdPath_ = path;
 
-        shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
+        // The limits follow the data, see open().
+        shm_ = std::make_shared<SharedMemory>(shmName, shmSize + sizeof(int32_t) * 2);
         if (!shm_->create()) {
             break;
         }
@@ -55,9 +59,13 @@ bool MessageQueue::create(const std::string& path) {
         }
 
         uint8_t* data = shm_->data();
-        memset(data, 0, (size_t)shmSize);
-        int64_t* pDataSize = (int64_t*)data;
-        *pDataSize = shmSize;
+        memset(data + sizeof(int64_t), 0, (size_t)shmSize - sizeof(int64_t));
+        const int32_t limits[2] = {msgMaxNumber_, msgExpectedMaxSize_};
+        memcpy(data + shmSize, limits, sizeof(limits));
+
+        // Others may use the queue from now on.
+        std::atomic<int64_t>* pDataSize = (std::atomic<int64_t>*)data;
+        pDataSize->store(shmSize);
 
         result = true;
     } while (false);
@@ -83,6 +91,17 @@ bool MessageQueue::open(const std::string& path) {
             break;
         }
 
+        // The limits are those of the creator.
+        int32_t limits[2] = {0, 0};
+        shmSize = shm_->size() < (int64_t)sizeof(int64_t) ? 0 : ((std::atomic<int64_t>*)shm_->data())->load();
+        if (shmSize <= 0 || shm_->size() < shmSize + (int64_t)sizeof(limits)) {
+            veigar::log("Veigar: Error: The message queue(%s) is not ready.\n", path.c_str());
+            break;
+        }
+        memcpy(limits, shm_->data() + shmSize, sizeof(limits));
+        msgMaxNumber_ = limits[0];
+        msgExpectedMaxSize_ = limits[1];
+
         std::string rwLockName = path + "_rwlock";
         if (!Semaphore::IsExist(rwLockName)) {
             break;
@@ -103,6 +122,11 @@ bool MessageQueue::open(const std::string& path) {
             break;
         }
 
+        // Otherwise the semaphores may belong to another queue of this name.
+        if (isRemoved()) {
+            break;
+        }
+
         result = true;
     } while (false);
 
@@ -376,6 +400,13 @@ void MessageQueue::close() {
         Semaphore::Remove(createdPath_ + "_readsmp");
         createdPath_.clear();
     }
+
+    msgMaxNumber_ = ownMaxNumber_;
+    msgExpectedMaxSize_ = ownExpectedMaxSize_;
+}
+
+bool MessageQueue::isRemoved() const {
+    return shm_ && shm_->isRemoved();
 }
 
 void MessageQueue::notifyRead() {
diff --git a/src/message_queue.h b/src/message_queue.h
index bf46a8e..3a736ac 100644
--- a/src/message_queue.h
+++ b/src/message_queue.h
@@ -18,12 +18,17 @@ namespace veigar {
 class MessageQueue {
    public:
     MessageQueue(int32_t msgMaxNumber, int32_t msgExpectedMaxSize) noexcept;
-    ~MessageQueue() noexcept = default;
+    ~MessageQueue() noexcept {
+        close();
+    }
 
     bool create(const std::string& path);
     bool open(const std::string& path);
     void close();
 
+    // Whether the creator has closed the queue.
+    bool isRemoved() const;
+
     // Read/Write locker for multi processes.
     bool processRWLock(uint32_t timeoutMS);
     void processRWUnlock();
@@ -47,6 +52,8 @@ class MessageQueue {
    private:
     int32_t msgMaxNumber_ = 0;
     int32_t msgExpectedMaxSize_ = 0;
+    int32_t ownMaxNumber_ = 0;  // for a queue created by this handle
+    int32_t ownExpectedMaxSize_ = 0;
     std::string createdPath_;  // empty if not the creator
     std::shared_ptr<SharedMemory> shm_ = nullptr;
     std::shared_ptr<Semaphore> rwLock_ = nullptr;
diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 5b00782..7e8fd25 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -119,12 +119,21 @@ void SharedMemory::Remove(const std::string& path) {
     (void)path;
 }
 
+bool SharedMemory::isRemoved() const {
+    return false;
+}
+
 #else   // !VEIGAR_OS_WINDOWS
 
 void SharedMemory::Remove(const std::string& path) {
     shm_unlink(("/" + path).c_str());
 }
 
+bool SharedMemory::isRemoved() const {
+    struct stat st;
+    return fd_ != -1 && fstat(fd_, &st) == 0 && st.st_nlink == 0;
+}
+
 SharedMemory::SharedMemory(const std::string& path, int64_t size) noexcept :
     size_(size) {
     // For portable use, a shared memory object should be identified by a name of the form / somename;
diff --git a/src/shared_memory.h b/src/shared_memory.h
index 2f36296..c3cc404 100644
--- a/src/shared_memory.h
+++ b/src/shared_memory.h
@@ -34,6 +34,9 @@ class SharedMemory {
     // Removes the name, the memory itself lives as long as it is open.
     static void Remove(const std::string& path);
 
+    // Whether the name was removed while this is open.
+    bool isRemoved() const;
+
     inline int64_t size() const {
         return viewSize_ > 0 ? viewSize_ : size_;
     }
-- 
2.43.0


From 10412ec753a35dc78f9aa8ea2540e4f970e69fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 25/30] fix: a restarted target was never reached again

---
 src/sender.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index 89f423c..e04bec9 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -146,7 +146,10 @@ std::shared_ptr<MessageQueue> Sender::getTargetCallMessageQueue(const std::strin
     std::shared_ptr<MessageQueue> queue = nullptr;
     auto it = targetCallMsgQueues_.find(channelName);
     if (it != targetCallMsgQueues_.cend()) {
-        return it->second;
+        if (!it->second->isRemoved()) {
+            return it->second;
+        }
+        targetCallMsgQueues_.erase(it);  // the target has been shut down, it may be back with a new queue
     }
 
     queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
@@ -165,7 +168,10 @@ std::shared_ptr<MessageQueue> Sender::getTargetRespMessageQueue(const std::strin
     std::shared_ptr<MessageQueue> queue = nullptr;
     auto it = targetRespMsgQueues_.find(channelName);
     if (it != targetRespMsgQueues_.cend()) {
-        return it->second;
+        if (!it->second->isRemoved()) {
+            return it->second;
+        }
+        targetRespMsgQueues_.erase(it);  // the target has been shut down, it may be back with a new queue
     }
 
     queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
-- 
2.43.0


From f09a514c05ed77c9938f3e1d2d7cacc8f0dd3107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:28 +0000
Subject: [PATCH 26/30] fix: a moved instance crashed on its next use

---
 include/veigar/call_dispatcher.h |  2 ++
 src/veigar.cpp                   | 13 ++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index 629c5f0..2b4ea56 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -108,6 +108,8 @@ class VEIGAR_API CallDispatcher {
 
     class Impl;
     Impl* impl_ = nullptr;
+
+    friend class veigar::Veigar;
 };
 }  // namespace detail
 }  // namespace veigar
diff --git a/src/veigar.cpp b/src/veigar.cpp
index faa8005..0b33f35 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -176,14 +176,21 @@ Veigar::Veigar() noexcept :
     callDisp_ = std::make_shared<detail::CallDispatcher>(this);
 }
 
-Veigar::Veigar(Veigar&& other) noexcept {
+Veigar::Veigar(Veigar&& other) noexcept :
+    Veigar() {
     *this = std::move(other);
 }
 
+// The background threads of an initialised instance refer to it, it can not be moved.
 Veigar& Veigar::operator=(Veigar&& other) noexcept {
     if (this != &other) {
-        impl_ = std::move(other.impl_);
-        other.impl_ = nullptr;
+        assert(!isInit() && !other.isInit());
+        std::swap(impl_, other.impl_);
+        callDisp_.swap(other.callDisp_);
+        impl_->veigar_ = this;
+        callDisp_->veigar_ = this;
+        other.impl_->veigar_ = &other;
+        other.callDisp_->veigar_ = &other;
     }
     return *this;
 }
-- 
2.43.0


From 5873f58449cad78bfd2b5b02f0649f46994f378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:02 +0000
Subject: [PATCH 27/30] fix: the future of a call whose arguments can not be
 packed was invalid

---
 include/veigar/veigar.inl | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index 478e178..7827096 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -84,7 +84,7 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
     auto p = std::make_shared<std::promise<CallResult>>();
 
     try {
-        auto ft = p->get_future();
+        acr->second = p->get_future();
 
         std::string curChannelName = channelName();
         auto argsObj = std::make_tuple(args...);
@@ -108,8 +108,6 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
 
             p->set_value(std::move(failedRet));
         }
-
-        acr->second = std::move(ft);
     } catch (std::exception& e) {
         failedRet.errorMessage = e.what();
         p->set_value(std::move(failedRet));
-- 
2.43.0


From a961cad92a230d7aff2f833ae648dbdf4403455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:46 +0000
Subject: [PATCH 28/30] fix: an opener could create the semaphores of a queue
 that was being removed or created

---
 src/message_queue.cpp | 12 ++----------
 src/semaphore.cpp     | 20 ++++++++++++++++++++
 src/semaphore.h       |  3 +++
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 87d7ec7..25fff11 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -103,22 +103,14 @@ bool MessageQueue::open(const std::string& path) {
         msgExpectedMaxSize_ = limits[1];
 
         std::string rwLockName = path + "_rwlock";
-        if (!Semaphore::IsExist(rwLockName)) {
-            break;
-        }
-
         rwLock_ = std::make_shared<Semaphore>();
-        if (!rwLock_->open(rwLockName.c_str())) {
+        if (!rwLock_->openExisting(rwLockName)) {
             break;
         }
 
         std::string readSmpName = path + "_readsmp";
-        if (!Semaphore::IsExist(readSmpName)) {
-            break;
-        }
-
         readSmp_ = std::make_shared<Semaphore>();
-        if (!readSmp_->open(readSmpName)) {
+        if (!readSmp_->openExisting(readSmpName)) {
             break;
         }
 
diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index cdca155..9329457 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -74,6 +74,26 @@ bool Semaphore::open(const std::string& name, int value /*= 0*/, int maxValue /*
     return valid();
 }
 
+bool Semaphore::openExisting(const std::string& name) {
+    assert(!valid());
+    close();
+
+#ifdef VEIGAR_OS_WINDOWS
+    HANDLE h = OpenSemaphoreA(SEMAPHORE_ALL_ACCESS, FALSE, name.c_str());
+    if (h) {
+        sh_ = new SemaphoreHandle();
+        sh_->h_ = h;
+    }
+#else
+    sem_t* sem = ::sem_open(name.c_str(), 0);
+    if (sem != SEM_FAILED) {
+        sh_ = new SemaphoreHandle();
+        sh_->named_ = sem;
+    }
+#endif
+    return valid();
+}
+
 void Semaphore::close() {
     if (valid()) {
 #ifdef VEIGAR_OS_WINDOWS
diff --git a/src/semaphore.h b/src/semaphore.h
index 3c13123..9df99d7 100644
--- a/src/semaphore.h
+++ b/src/semaphore.h
@@ -48,6 +48,9 @@ class Semaphore {
     // 
     // named semaphore used in synchronization among processes.
     bool open(const std::string& name, int value = 0, int maxValue = 2147483647);
+
+    // Fails if the semaphore does not exist.
+    bool openExisting(const std::string& name);
     void close();
 
     bool valid() const;
-- 
2.43.0


From 6d355f861352302916aa1d78d65a99fe164d8080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 29/30] fix: a response with missing elements completed a call
 successfully

---
 src/resp_dispatcher.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 64e3723..493aee5 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -170,6 +170,12 @@ void RespDispatcher::dispatchRespThreadProc() {
             CallResult callRet;
             std::string callId;
             try {
+                // Missing elements would be converted to default values.
+                if (obj.get().type != veigar_msgpack::type::ARRAY || obj.get().via.array.size != 4) {
+                    veigar::log("Veigar: Error: Invalid response message.\n");
+                    continue;
+                }
+
                 detail::Response::ResponseMsg r;
                 obj.get().convert(r);
 
-- 
2.43.0


From 12a9d3e6399b4b149395bd2852025c078c86592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 30/30] fix: revert the limit on the nesting of messages

Nothing processes nested objects recursively: parsing, cloning and packing use
a stack of their own.  The limit refused messages which are correct.
---
 include/veigar/config.h | 4 ----
 src/call_dispatcher.cpp | 5 +----
 src/resp_dispatcher.cpp | 5 +----
 3 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/include/veigar/config.h b/include/veigar/config.h
index 4f7c478..2e067ff 100644
--- a/include/veigar/config.h
+++ b/include/veigar/config.h
@@ -59,10 +59,6 @@ static constexpr unsigned VERSION_MINOR = 5;
 #define VEIGAR_SEND_RESPONSE_THREAD_NUMBER 3
 #endif
 
-#ifndef VEIGAR_MAX_NESTING_DEPTH
-#define VEIGAR_MAX_NESTING_DEPTH 1024  // of the objects in a message
-#endif
-
 #ifndef VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT
 #define VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT 1500 // ms
 #endif
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index efe7d85..2cc9cf9 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -185,10 +185,7 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
 }
 
 void CallDispatcher::dispatchThreadProc() {
-    // Nested objects are processed recursively.
-    const veigar_msgpack::unpack_limit limit(0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, VEIGAR_MAX_NESTING_DEPTH);
-    veigar_msgpack::unpacker callPac(
-        [](veigar_msgpack::type::object_type, std::size_t, void*) { return true; }, nullptr, MSGPACK_UNPACKER_INIT_BUFFER_SIZE, limit);
+    veigar_msgpack::unpacker callPac;
     try {
         callPac.reserve_buffer(veigar_->expectedMsgMaxSize());
     } catch (std::bad_alloc& e) {
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 493aee5..c1053cb 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -75,10 +75,7 @@ std::shared_ptr<veigar::MessageQueue> RespDispatcher::messageQueue() {
 }
 
 void RespDispatcher::dispatchRespThreadProc() {
-    // Nested objects are processed recursively.
-    const veigar_msgpack::unpack_limit limit(0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, VEIGAR_MAX_NESTING_DEPTH);
-    veigar_msgpack::unpacker respPac(
-        [](veigar_msgpack::type::object_type, std::size_t, void*) { return true; }, nullptr, MSGPACK_UNPACKER_INIT_BUFFER_SIZE, limit);
+    veigar_msgpack::unpacker respPac;
 
     try {
         respPac.reserve_buffer(veigar_->expectedMsgMaxSize());
-- 
2.43.0

