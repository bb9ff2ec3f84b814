From 2791bce521ddfb1836c3a7d711f3a4dc1a7a61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 01/80] fix: terminate the assert in TimerMgr::onTimerModified
 (Timer.cpp did not compile)

---
 src/common/maf/messaging/Timer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index fbef7a8..fe36ba5 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -222,8 +222,8 @@ void TimerMgr::stop(TimerDataPtr record) {
 void TimerMgr::onTimerModified() {
   auto thisProcessorInstance = this_processor::instance();
   assert(thisProcessorInstance &&
-         "Timer must be triggered in thread of a mesasging::Processor")
-      thisProcessorInstance->executeAsync([this] { this->checkAllTimers(); });
+         "Timer must be triggered in thread of a mesasging::Processor");
+  thisProcessorInstance->executeAsync([this] { this->checkAllTimers(); });
 }
 
 void TimerMgr::onShortestTimerExpired(const TimerDataPtr& record) {
-- 
2.43.0


From f045a8618d70cabfeb3f4203dd61762d37921a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 02/80] fix: unbind the thread from its processor when
 threadInit throws

---
 src/common/maf/messaging/Processor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 1f9517c..7451e39 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -193,15 +193,17 @@ const ProcessorID &Processor::id() const noexcept { return d_->id; }
 
 void Processor::run(ThreadFunction threadInit, ThreadFunction threadDeinit) {
   auto justSet = this_processor::testAndSetThreadLocalInstance(this);
+  CallOnExit unbind = [justSet] {
+    this_processor::clearTLInstanceIfSet(justSet);
+  };
   if (threadInit) {
     threadInit();
   }
 
-  CallOnExit deinit = [justSet, threadDeinit = std::move(threadDeinit)] {
+  CallOnExit deinit = [threadDeinit = std::move(threadDeinit)] {
     if (threadDeinit) {
       threadDeinit();
     }
-    this_processor::clearTLInstanceIfSet(justSet);
   };
 
   ExecutionUPtr exc;
-- 
2.43.0


From 959a53e18a1cabff67909996d1d8e2963cad827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 03/80] fix: decide inline execution by processor instance, not
 by id

---
 src/common/maf/messaging/Processor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 7451e39..0b84d5a 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -282,7 +282,7 @@ Processor::CompleteSignal Processor::waitablePost(Message msg) {
           [this, msg = move(msg)] { d_->processMessage(msg); });
 
       doneSignal = CompleteSignal{msgHandlingTask->get_future()};
-      if (this_processor::id() != id()) {
+      if (this_processor::instance().get() != this) {
         executeAsync([task{move(msgHandlingTask)}] { (*task)(); });
       } else {
         (*msgHandlingTask)();
@@ -321,7 +321,7 @@ Processor::CompleteSignal Processor::waitableExecute(Execution exec) {
   if (!stopped()) {
     auto task = make_shared<packaged_task<void()>>(move(exec));
     doneSignal = CompleteSignal{task->get_future()};
-    if (this_processor::id() != id()) {
+    if (this_processor::instance().get() != this) {
       executeAsync([task{move(task)}] { (*task)(); });
     } else {
       (*task)();
-- 
2.43.0


From 6115961f927b2d78a1d46a1c0cac5ec486e46562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 04/80] fix: executors report whether the processor accepted
 the callback

---
 src/common/maf/messaging/Processor.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 0b84d5a..a105476 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -41,8 +41,7 @@ class AsyncExecutor : public util::ExecutorIF {
   AsyncExecutor(ProcessorRef &&cr) : compref{std::move(cr)} {}
   bool execute(CallbackType callback) noexcept override {
     if (auto comp = compref.lock()) {
-      comp->executeAsync(std::move(callback));
-      return true;
+      return comp->executeAsync(std::move(callback));
     }
     return false;
   }
@@ -55,8 +54,7 @@ class DefaultExecutor : public util::ExecutorIF {
   DefaultExecutor(ProcessorRef &&cr) : compref{std::move(cr)} {}
   bool execute(CallbackType callback) noexcept override {
     if (auto comp = compref.lock()) {
-      comp->execute(std::move(callback));
-      return true;
+      return comp->execute(std::move(callback));
     }
     return false;
   }
-- 
2.43.0


From a25b6d6378abdf7913eba330ecde5ce75032c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 05/80] fix: release the previous connection on MsgConnection
 move assignment

---
 src/common/maf/messaging/Processor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index a105476..c793fa3 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -522,8 +522,11 @@ MsgConnection::MsgConnection(MsgConnection &&con) noexcept {
 }
 
 MsgConnection &MsgConnection::operator=(MsgConnection &&con) noexcept {
-  _ = con._;
-  con._ = nullptr;
+  if (this != &con) {
+    delete asSSC(_);
+    _ = con._;
+    con._ = nullptr;
+  }
   return *this;
 }
 
-- 
2.43.0


From d315ab1fc8767f6d98407644620bc9b453c8634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 06/80] fix: change the open/closed state of ThreadSafeQueue
 under its lock and report refused pushes

---
 include/maf/threading/ThreadSafeQueue.h | 24 +++++++++++++++++-------
 src/common/maf/messaging/Processor.cpp  |  3 +--
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/maf/threading/ThreadSafeQueue.h b/include/maf/threading/ThreadSafeQueue.h
index 7e1d6ad..b558269 100644
--- a/include/maf/threading/ThreadSafeQueue.h
+++ b/include/maf/threading/ThreadSafeQueue.h
@@ -21,19 +21,23 @@ class ThreadSafeQueue {
   ThreadSafeQueue() : closed_(false) {}
   ~ThreadSafeQueue() { close(); }
   bool empty() { return queue_.atomic()->empty(); }
-  void push(const value_type &data) {
+  bool push(const value_type &data) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       queue_->push(data);
       queueNotEmpty_.notify_one();
+      return true;
     }
+    return false;
   }
-  void push(value_type &&data) {
+  bool push(value_type &&data) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       queue_->emplace(std::move(data));
       queueNotEmpty_.notify_one();
+      return true;
     }
+    return false;
   }
 
   template <
@@ -42,14 +46,16 @@ class ThreadSafeQueue {
           std::is_same_v<
               std::void_t<decltype(std::declval<_Sequence>().begin())>, void>,
           bool> = true>
-  void push(const _Sequence &seq) {
+  bool push(const _Sequence &seq) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       for (auto &item : seq) {
         queue_->push(item);
       }
       queueNotEmpty_.notify_all();
+      return true;
     }
+    return false;
   }
   template <class TimePoint>
   bool waitUntil(value_type &value, const TimePoint &absTime) {
@@ -106,9 +112,13 @@ class ThreadSafeQueue {
     return false;
   }
 
-  void reOpen() { closed_.store(false, std::memory_order_release); }
+  void reOpen() {
+    std::lock_guard lock(queue_);
+    closed_.store(false, std::memory_order_release);
+  }
 
   void close() {
+    std::lock_guard lock(queue_);
     bool alreadyClosed = false;
     closed_.compare_exchange_strong(alreadyClosed, true);
     if (!alreadyClosed) {
diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index c793fa3..1ad1655 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -86,8 +86,7 @@ struct ProcessorDataPrv {
 
   bool addExecution(Execution e) {
     try {
-      pendingExecutions.push(std::make_unique<Execution>(move(e)));
-      return true;
+      return pendingExecutions.push(std::make_unique<Execution>(move(e)));
     } catch (const std::bad_alloc &ba) {
       MAF_LOGGER_ERROR("Queue overflow: ", ba.what());
     }
-- 
2.43.0


From 210e432f0aa100f16c1e04548a4b45c19dbd9677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 07/80] fix: reserve a processor id atomically when creating a
 routed processor

---
 src/common/maf/messaging/Processor.cpp | 8 ++------
 src/common/maf/messaging/Router.cpp    | 1 +
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 1ad1655..cc2c0ec 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -172,12 +172,8 @@ ProcessorInstance Processor::create(ProcessorID id) {
 
   auto comp = ProcessorInstance{new Processor{std::move(id)}};
 
-  if (willJoinRouting) {
-    if (Router::instance().findProcessor(comp->id())) {
-      comp.reset();
-    } else {
-      Router::instance().addProcessor(comp);
-    }
+  if (willJoinRouting && !Router::instance().addProcessor(comp)) {
+    comp.reset();
   }
   return comp;
 }
diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index 4602149..2576afa 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -76,6 +76,7 @@ bool Router::addProcessor(ProcessorInstance comp) {
       informNewProcessorAboutJoinedOnes(comp, *joinedProcessors);
       notifyAllAboutNewProcessor(*joinedProcessors, comp);
       joinedProcessors->insert(move(comp));
+      return true;
     }
   }
   return false;
-- 
2.43.0


From 76b9e9a07053acd09ed78f4de1a945e1f75188cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 08/80] fix: do not hold the routing registry while message
 handlers run in sendToAll

---
 src/common/maf/messaging/Router.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index 2576afa..79c1190 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -41,8 +41,9 @@ bool Router::postToAll(const Message &msg) {
 
 Processor::CompleteSignal Router::sendToAll(const Message &msg) {
   auto msgMessageHandledSignals = vector<Processor::CompleteSignal>{};
-  auto atProcessors = messageprocessors_.atomic();
-  for (const auto &comp : *atProcessors) {
+  // handlers may run inline on this thread: do not hold the registry meanwhile
+  auto processors = Processors{*messageprocessors_.atomic()};
+  for (const auto &comp : processors) {
     if (auto sig = askThenSend(comp, std::move(msg)); sig.valid()) {
       msgMessageHandledSignals.emplace_back(move(sig));
     }
-- 
2.43.0


From 9e83ea5f9edd64bd2f79d8c68cb6d2138d385d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 09/80] fix: leaving the routing removes only the leaving
 processor instance

---
 src/common/maf/messaging/Router.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index 79c1190..783e12b 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -84,7 +84,17 @@ bool Router::addProcessor(ProcessorInstance comp) {
 }
 
 bool Router::removeProcessor(const ProcessorInstance &comp) {
-  if (messageprocessors_.atomic()->erase(comp) != 0) {
+  auto removed = false;
+  {
+    auto joinedProcessors = messageprocessors_.atomic();
+    // another instance may have joined with the same id in the meantime
+    if (auto it = joinedProcessors->find(comp);
+        it != joinedProcessors->end() && *it == comp) {
+      joinedProcessors->erase(it);
+      removed = true;
+    }
+  }
+  if (removed) {
     postToAll(ProcessorStatusUpdateMsg{
         comp, ProcessorStatusUpdateMsg::Status::UnReachable});
     return true;
-- 
2.43.0


From 42fe08d2b334bccb690bcf0fe490166f1e5d6c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 10/80] fix: read the SyncTimer running state under its lock

---
 src/common/maf/messaging/SyncTimer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/SyncTimer.cpp b/src/common/maf/messaging/SyncTimer.cpp
index 0d492b8..110c2f5 100644
--- a/src/common/maf/messaging/SyncTimer.cpp
+++ b/src/common/maf/messaging/SyncTimer.cpp
@@ -75,7 +75,10 @@ void SyncTimer::stop() {
   }
 }
 
-bool SyncTimer::running() { return d_->running; }
+bool SyncTimer::running() {
+  std::lock_guard lock(d_->mutex);
+  return d_->running;
+}
 
 void SyncTimer::setCyclic(bool cyclic) {
   std::lock_guard lock(d_->mutex);
-- 
2.43.0


From a639584213eb7f7c5ab3fd3309f4075df08fee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 11/80] fix: do not hold the SyncTimer lock while the timeout
 callback runs

---
 src/common/maf/messaging/SyncTimer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/SyncTimer.cpp b/src/common/maf/messaging/SyncTimer.cpp
index 110c2f5..239a1b4 100644
--- a/src/common/maf/messaging/SyncTimer.cpp
+++ b/src/common/maf/messaging/SyncTimer.cpp
@@ -47,11 +47,15 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
     do {
       if (!d_->timeoutCondition.wait_for(lock, milliseconds,
                                          [this] { return !d_->running; })) {
+        // user code must not run under the timer's lock: other threads could
+        // neither stop nor query the timer meanwhile
+        lock.unlock();
         if (executor) {
-          executor->execute(d_->cyclic ? callback : std::move(callback));
+          executor->execute(callback);
         } else {
           callback();
         }
+        lock.lock();
       }
 
       if (!d_->running)  // restarted
-- 
2.43.0


From 98e1b1f4fe3331e98e9e1453b683fcfcfefef14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 12/80] fix: remove all requests of a stopped provider, and
 abort them without holding its lock

---
 src/common/maf/messaging/client-server/ServiceProvider.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index b1c8169..fe5d934 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -283,8 +283,9 @@ ServiceProvider::RequestPtr ServiceProvider::getRequestInfo(
 }
 
 void ServiceProvider::invalidateAndRemoveAllRequests() {
-  std::lock_guard lock(requestsMap_);
-  for (auto &[opID, requests] : *requestsMap_) {
+  // abort callbacks are user code, take the requests out and run them unlocked
+  auto pendingRequests = std::move(*requestsMap_.atomic());
+  for (auto &[opID, requests] : pendingRequests) {
     for (auto &request : requests) {
       request->invalidate();
       if (auto abortCallback = request->getAbortCallback()) {
@@ -292,7 +293,6 @@ void ServiceProvider::invalidateAndRemoveAllRequests() {
       }
     }
   }
-  regEntriesMap_->clear();
 }
 
 void ServiceProvider::saveRegisterInfo(const CSMessagePtr &msg) {
-- 
2.43.0


From 6f6e874c1370cd7b28469a688abd766d30130d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 13/80] fix: answering a request that is already gone must not
 dereference null

---
 src/common/maf/messaging/client-server/ServiceProvider.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index fe5d934..0f9b0ba 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -71,7 +71,9 @@ ActionCallStatus ServiceProvider::respondToRequest(const CSMessagePtr &csMsg) {
     request = getRequestInfo(csMsg, false);
   } else {
     request = getRequestInfo(csMsg, true);
-    request->invalidate();
+    if (request) {
+      request->invalidate();
+    }
   }
   if (request) {
     return sendBackMessageToClient(csMsg);
-- 
2.43.0


From 65133318fe0f384b87076d348502684260f1b3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 14/80] fix: a broadcast reports success only when a client
 received it

---
 .../messaging/client-server/ServiceProvider.cpp   | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 0f9b0ba..985146a 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -137,7 +137,8 @@ void ServiceProvider::broadcastServerSide(const OpID &opID,
 ActionCallStatus ServiceProvider::broadcastToClients(
     const OpID &propertyID, OpCode opCode, const CSPayloadIFPtr &payload) {
   using AddressList = std::vector<Address>;
-  bool success = false;
+  // nobody interested is not a failure
+  bool success = true;
   AddressList addresses;
 
   {  // locking _regEntriesMap block
@@ -157,11 +158,12 @@ ActionCallStatus ServiceProvider::broadcastToClients(
                                  RequestIDInvalid, payload);
 
     auto trySendToDestinations =
-        [this, &csMsg](AddressList &addresses) -> AddressList {
+        [this, &csMsg, &success](AddressList &addresses) -> AddressList {
       AddressList busyReceivers;
       for (const auto &addr : addresses) {
         auto errCode = sendMessage(csMsg, addr);
         if (errCode == ActionCallStatus::Success) {
+          success = true;
           MAF_LOGGER_INFO("Sent message id: ", csMsg->operationID(),
                           " from server side!");
         } else if (errCode == ActionCallStatus::ReceiverBusy) {
@@ -180,18 +182,17 @@ ActionCallStatus ServiceProvider::broadcastToClients(
       return busyReceivers;
     };
 
+    // success when succeeded to send msg to at least one receiver
+    success = false;
     auto busyReceivers = trySendToDestinations(addresses);
     if (!busyReceivers.empty()) {
       // If someones are busy, try with them once
       MAF_LOGGER_WARN("Trying to send message to busy addresses once again!");
       busyReceivers = trySendToDestinations(busyReceivers);
     }
-
-    // success when succeeded to send msg to at least one receiver
-    success = (busyReceivers.size() != addresses.size());
   }
-  return success ? ActionCallStatus::ReceiverUnavailable
-                 : ActionCallStatus::Success;
+  return success ? ActionCallStatus::Success
+                 : ActionCallStatus::ReceiverUnavailable;
 }
 
 CSPayloadIFPtr ServiceProvider::getStatus(const OpID &propertyID) {
-- 
2.43.0


From 09ecbf4e38b14f0a4c08fb25a31f25c8c715534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 15/80] fix: notify server side listeners without holding the
 listeners map

---
 .../client-server/ServiceProvider.cpp         | 21 ++++++++++++++-----
 .../messaging/client-server/ServiceProvider.h |  5 +++--
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 985146a..8113236 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -127,10 +127,17 @@ ActionCallStatus ServiceProvider::broadcast(const OpID &propertyID,
 
 void ServiceProvider::broadcastServerSide(const OpID &opID,
                                           const CSPayloadIFPtr &payload) {
-  LOCK(serverSideListenersMap_);
-  auto it = serverSideListenersMap_->find(opID);
-  if (it != serverSideListenersMap_->end()) {
-    it->second.notify(payload);
+  PropertyStatusChangedSignalPtr listeners;
+  {
+    LOCK(serverSideListenersMap_);
+    auto it = serverSideListenersMap_->find(opID);
+    if (it != serverSideListenersMap_->end()) {
+      listeners = it->second;
+    }
+  }
+  // listeners are user code, do not hold the map while they run
+  if (listeners) {
+    listeners->notify(payload);
   }
 }
 
@@ -364,7 +371,11 @@ bool ServiceProvider::unregisterRequestHandler(const OpID &opID) {
 signal_slots::Connection ServiceProvider::registerNotification(
     const OpID &opID, CSPayloadProcessCallback callback) {
   LOCK(serverSideListenersMap_);
-  return (*serverSideListenersMap_)[opID].connect(move(callback));
+  auto &listeners = (*serverSideListenersMap_)[opID];
+  if (!listeners) {
+    listeners = std::make_shared<PropertyStatusChangedSignal>();
+  }
+  return listeners->connect(move(callback));
 }
 
 void ServiceProvider::updateLatestStatus(const CSMessagePtr &registerMsg) {
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.h b/src/common/maf/messaging/client-server/ServiceProvider.h
index 8238614..e02a667 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.h
+++ b/src/common/maf/messaging/client-server/ServiceProvider.h
@@ -21,10 +21,11 @@ class ServiceProvider : public ServiceProviderIF,
 
   using RequestPtr                                = std::shared_ptr<Request>;
   using PropertyPtr                               = CSPayloadIFPtr;
-  using PropertyStatusChangedSignal               = signal_slots::SignalST<PropertyPtr>;
+  using PropertyStatusChangedSignal               = signal_slots::Signal<PropertyPtr>;
+  using PropertyStatusChangedSignalPtr            = std::shared_ptr<PropertyStatusChangedSignal>;
   using RequestMap                                = OpIDMap<std::list<RequestPtr>>;
   using PropertyMap                               = OpIDMap<PropertyPtr>;
-  using ServerSideListenersMap                    = OpIDMap<PropertyStatusChangedSignal>;
+  using ServerSideListenersMap                    = OpIDMap<PropertyStatusChangedSignalPtr>;
   using RequestHandlerMap                         = OpIDMap<RequestHandlerFunction>;
   using Address2OpIDsMap                          = threading::Lockable<std::map<Address, std::set<OpID>>>;
   // clang-format on
-- 
2.43.0


From b23d681a40549ab69d8144da9886bd5e1b33ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 16/80] fix: match a request by client address as well as by
 request id

---
 src/common/maf/messaging/client-server/Request.cpp         | 5 +++++
 src/common/maf/messaging/client-server/Request.h           | 1 +
 src/common/maf/messaging/client-server/ServiceProvider.cpp | 4 +++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/Request.cpp b/src/common/maf/messaging/client-server/Request.cpp
index e71fb72..2947190 100644
--- a/src/common/maf/messaging/client-server/Request.cpp
+++ b/src/common/maf/messaging/client-server/Request.cpp
@@ -95,6 +95,11 @@ RequestID Request::getRequestID() const {
   return _csMsg->requestID();
 }
 
+const Address &Request::getSourceAddress() const {
+  std::lock_guard lock(_mutex);
+  return _csMsg->sourceAddress();
+}
+
 ActionCallStatus Request::sendMsgBackToClient() {
   if (auto stub = _svStub.lock()) {
     return stub->respondToRequest(_csMsg);
diff --git a/src/common/maf/messaging/client-server/Request.h b/src/common/maf/messaging/client-server/Request.h
index 97f77f6..7d595d5 100644
--- a/src/common/maf/messaging/client-server/Request.h
+++ b/src/common/maf/messaging/client-server/Request.h
@@ -23,6 +23,7 @@ class Request : public RequestIF {
           std::weak_ptr<ServiceProviderIF> svStub);
   bool invalidate();
   AbortRequestCallback getAbortCallback();
+  const Address &getSourceAddress() const;
   ActionCallStatus sendMsgBackToClient();
   void setOperationCode(OpCode opCode);
 
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 8113236..7160546 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -280,7 +280,9 @@ ServiceProvider::RequestPtr ServiceProvider::getRequestInfo(
     for (auto itRequest = requestList.begin(); itRequest != requestList.end();
          ++itRequest) {
       RequestPtr &requestTmp = *itRequest;
-      if (requestTmp->getRequestID() == msg->requestID()) {
+      // request ids are only unique per client
+      if (requestTmp->getRequestID() == msg->requestID() &&
+          requestTmp->getSourceAddress() == msg->sourceAddress()) {
         request = requestTmp;
         if (remove) {
           requestList.erase(itRequest);
-- 
2.43.0


From 46acee6df84dac34977c3986b3e509ab99b09759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 17/80] fix: run the abort callback of an already invalid
 request without holding its lock

---
 src/common/maf/messaging/client-server/Request.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/common/maf/messaging/client-server/Request.cpp b/src/common/maf/messaging/client-server/Request.cpp
index 2947190..3b29599 100644
--- a/src/common/maf/messaging/client-server/Request.cpp
+++ b/src/common/maf/messaging/client-server/Request.cpp
@@ -71,11 +71,16 @@ CSPayloadIFPtr Request::getInput() {
 }
 
 void Request::onAborted(AbortRequestCallback abortCallback) {
-  std::lock_guard lock(_mutex);
-  if (!_valid) {
+  {
+    std::lock_guard lock(_mutex);
+    if (_valid) {
+      _abortCallback = std::move(abortCallback);
+      return;
+    }
+  }
+  // user code must not run under the lock, it may query this request
+  if (abortCallback) {
     abortCallback();
-  } else {
-    _abortCallback = std::move(abortCallback);
   }
 }
 
-- 
2.43.0


From 872ccca9330ce5503dc76e0d080586e81712f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 18/80] fix: read the state of a request under its lock in
 sendMsgBackToClient

---
 src/common/maf/messaging/client-server/Request.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/Request.cpp b/src/common/maf/messaging/client-server/Request.cpp
index 3b29599..85e4f68 100644
--- a/src/common/maf/messaging/client-server/Request.cpp
+++ b/src/common/maf/messaging/client-server/Request.cpp
@@ -106,8 +106,11 @@ const Address &Request::getSourceAddress() const {
 }
 
 ActionCallStatus Request::sendMsgBackToClient() {
+  std::unique_lock lock(_mutex);
   if (auto stub = _svStub.lock()) {
-    return stub->respondToRequest(_csMsg);
+    auto csMsg = _csMsg;
+    lock.unlock();
+    return stub->respondToRequest(csMsg);
   } else {
     return ActionCallStatus::ReceiverUnavailable;
   }
-- 
2.43.0


From 955ab2893d6617c2b84a79984ad6ca7f0685b9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 19/80] fix: a client calls requesters and its server without
 holding its maps

---
 .../messaging/client-server/ClientBase.cpp    | 42 +++++++++----------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ClientBase.cpp b/src/common/maf/messaging/client-server/ClientBase.cpp
index ce63a62..96db3a3 100644
--- a/src/common/maf/messaging/client-server/ClientBase.cpp
+++ b/src/common/maf/messaging/client-server/ClientBase.cpp
@@ -14,8 +14,9 @@ void ClientBase::onServerStatusChanged(Availability oldStatus,
                                        Availability newStatus) noexcept {
   if (newStatus != Availability::Available) {
     _serviceStatusMap.atomic()->clear();
-    std::lock_guard lock(_requestersMap);
-    for (auto &[sid, requester] : *_requestersMap) {
+    // observers are user code, notify them without holding the map
+    auto requesters = *_requestersMap.atomic();
+    for (auto &[sid, requester] : requesters) {
       requester->onServiceStatusChanged(sid, oldStatus, newStatus);
     }
   }
@@ -28,10 +29,17 @@ void ClientBase::onServiceStatusChanged(const ServiceID &sid,
                   "]: ", oldStatus, "-->", newStatus);
 
   (*_serviceStatusMap.atomic())[sid] = newStatus;
-  std::lock_guard lock(_requestersMap);
-  auto itProxy = _requestersMap->find(sid);
-  if (itProxy != _requestersMap->end()) {
-    itProxy->second->onServiceStatusChanged(sid, oldStatus, newStatus);
+  auto requester = ServiceRequesterIFPtr{};
+  {
+    std::lock_guard lock(_requestersMap);
+    if (auto itProxy = _requestersMap->find(sid);
+        itProxy != _requestersMap->end()) {
+      requester = itProxy->second;
+    }
+  }
+  // observers are user code, notify them without holding the map
+  if (requester) {
+    requester->onServiceStatusChanged(sid, oldStatus, newStatus);
   } else {
     MAF_LOGGER_WARN("There's no proxy for this service id: ", sid);
   }
@@ -114,23 +122,15 @@ Availability ClientBase::getServiceStatus(const ServiceID &sid) {
 bool ClientBase::init(const Address &) { return true; }
 
 void ClientBase::deinit() {
-  {
-    std::lock_guard lock(_requestersMap);
-    for (auto &[_, requester] : *_requestersMap) {
-      requester->deinit();
-    }
-
-    _requestersMap->clear();
+  auto requesters = std::move(*_requestersMap.atomic());
+  for (auto &[_, requester] : requesters) {
+    requester->deinit();
   }
 
-  {
-    std::lock_guard lock(_serviceStatusMap);
-    for (auto &[serviceID, status] : *_serviceStatusMap) {
-      sendMessageToServer(createCSMessage(serviceID, OpIDInvalid,
-                                          OpCode::UnregisterServiceStatus));
-    }
-
-    _serviceStatusMap->clear();
+  auto serviceStatuses = std::move(*_serviceStatusMap.atomic());
+  for (auto &[serviceID, status] : serviceStatuses) {
+    sendMessageToServer(createCSMessage(serviceID, OpIDInvalid,
+                                        OpCode::UnregisterServiceStatus));
   }
 }
 
-- 
2.43.0


From 7aec13669182f8a00ee1c8e5a86a9c7a2acd2c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 20/80] fix: notify service status observers without holding
 their list

---
 .../maf/messaging/client-server/ServiceRequester.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 7d803fb..49a1c7f 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -259,17 +259,16 @@ void ServiceRequester::onServiceStatusChanged(const ServiceID &sid,
 void ServiceRequester::forwardServiceStatusToObservers(const ServiceID &sid,
                                                        Availability oldStatus,
                                                        Availability newStatus) {
-  std::lock_guard lock(serviceStatusObservers_);
-  for (auto itO = std::begin(*serviceStatusObservers_);
-       itO != std::end(*serviceStatusObservers_);) {
+  // observers are user code, notify them without holding the list
+  auto observers = *serviceStatusObservers_.atomic();
+  for (auto &observer : observers) {
     try {
-      (*itO)->onServiceStatusChanged(sid, oldStatus, newStatus);
+      observer->onServiceStatusChanged(sid, oldStatus, newStatus);
     } catch (const UnavailableException &) {
       MAF_LOGGER_WARN(
           "An observer of ", sid,
           " is no longer available, then remove it from list observers");
-      itO = serviceStatusObservers_->erase(itO);
-      continue;
+      unregisterServiceStatusObserver(observer);
     } catch (const std::exception &e) {
       MAF_LOGGER_WARN("EXCEPTION: ", e.what(),
                       " when notify service status change of ", sid);
@@ -280,7 +279,6 @@ void ServiceRequester::forwardServiceStatusToObservers(const ServiceID &sid,
           sid);
       throw;
     }
-    ++itO;
   }
 }
 
-- 
2.43.0


From 94be83d4dd5cba9fe7c28ea8d918eaf2aaea77fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 21/80] fix: check the incoming message of a requester before
 using it

---
 src/common/maf/messaging/client-server/ServiceRequester.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 49a1c7f..b788a16 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -24,13 +24,16 @@ using util::assign_ptr;
 
 bool ServiceRequester::onIncomingMessage(const CSMessagePtr &csMsg) {
   bool handled = true;
+  if (!csMsg) {
+    return false;
+  }
   MAF_LOGGER_INFO(
       "ServiceRequester - New Incoming message from server:"
       "\n\t\t sid     = ",
       csMsg->serviceID(), "\n\t\t opID    = ", csMsg->operationID(),
       "\n\t\t opCode  = ", csMsg->operationCode());
 
-  if (csMsg && csMsg->serviceID() == serviceID()) {
+  if (csMsg->serviceID() == serviceID()) {
     switch (csMsg->operationCode()) {
       case OpCode::SignalRegister:
         onRegistersUpdated(csMsg);
-- 
2.43.0


From 0f9e35606544b7fdcbc9224c704c16c22dfbeb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 22/80] fix: a removed property is cached as null, do not
 dereference it

---
 src/common/maf/messaging/client-server/ServiceRequester.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index b788a16..0bcb4d2 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -564,7 +564,10 @@ CSPayloadIFPtr ServiceRequester::getCachedProperty(
   std::lock_guard lock(propertiesCache_);
   if (auto itProp = propertiesCache_->find(propertyID);
       itProp != propertiesCache_->end()) {
-    return CSPayloadIFPtr{itProp->second->clone()};
+    // a removed property is cached as null
+    if (itProp->second) {
+      return CSPayloadIFPtr{itProp->second->clone()};
+    }
   }
   return {};
 }
-- 
2.43.0


From db0eb3041bc096117b91f8aceb17317267b05739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 23/80] fix: a second answer to a sync request must not satisfy
 its promise again

---
 .../maf/messaging/client-server/ServiceRequester.cpp  | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 0bcb4d2..924384b 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -6,6 +6,7 @@
 #include <maf/messaging/client-server/Exceptions.h>
 #include <maf/utils/Pointers.h>
 
+#include <atomic>
 #include <variant>
 
 #define SET_ERROR_AND_RETURN_IF(condition, pErrorStore, errorValue, \
@@ -201,8 +202,14 @@ CSPayloadIFPtr ServiceRequester::sendMessageSync(
   auto asyncResponse = std::shared_ptr<ResponsePromise>(new ResponsePromise);
   auto resultFuture = asyncResponse->get_future();
   auto onSyncMsgCallback =
-      [asyncResponse = move(asyncResponse)](const CSPayloadIFPtr &msg) {
-        asyncResponse->set_value(msg);
+      [asyncResponse = move(asyncResponse),
+       answered = std::make_shared<std::atomic_bool>(false)](
+          const CSPayloadIFPtr &msg) {
+        // partial updates may come before the final answer, but a promise can
+        // be satisfied only once
+        if (!answered->exchange(true)) {
+          asyncResponse->set_value(msg);
+        }
       };
 
   auto regID = sendMessageAsync(operationID, opCode, msgContent,
-- 
2.43.0


From a19dd8242d26df6743d5552d2e34006a1f722466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 24/80] fix: report the call status of every requester
 operation

---
 .../client-server/ServiceRequester.cpp        | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 924384b..5350e32 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -118,6 +118,9 @@ void ServiceRequester::abortRequest(const RegID &regID,
     }
 
     assign_ptr(callStatus, status);
+  } else {
+    // already answered, aborted or never sent
+    assign_ptr(callStatus, ActionCallStatus::InvalidCall);
   }
 }
 
@@ -313,9 +316,11 @@ RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
     }
 
     assign_ptr(callStatus, status);
-  } else if (opCode == OpCode::StatusRegister) {
-    if (auto cachedProperty = getCachedProperty(opID)) {
-      callback(cachedProperty);
+  } else {
+    if (opCode == OpCode::StatusRegister) {
+      if (auto cachedProperty = getCachedProperty(opID)) {
+        callback(cachedProperty);
+      }
     }
     assign_ptr(callStatus, ActionCallStatus::Success);
   }
@@ -362,7 +367,8 @@ ActionCallStatus ServiceRequester::unregister(const RegID &regID) {
       if (serviceUnavailable()) {
         callstatus = ActionCallStatus::ServiceUnavailable;
       } else {
-        sendMessageToServer(createCSMessage(propertyID, OpCode::Unregister));
+        callstatus = sendMessageToServer(
+            createCSMessage(propertyID, OpCode::Unregister));
       }
     }
   } else {
@@ -379,7 +385,8 @@ ActionCallStatus ServiceRequester::unregisterAll(const OpID &propertyID) {
     callstatus = ActionCallStatus::ServiceUnavailable;
   } else {
     registerEntriesMap_.atomic()->erase(propertyID);
-    sendMessageToServer(createCSMessage(propertyID, OpCode::Unregister));
+    callstatus =
+        sendMessageToServer(createCSMessage(propertyID, OpCode::Unregister));
     removeCachedProperty(propertyID);
   }
 
@@ -415,7 +422,7 @@ ActionCallStatus ServiceRequester::getStatus(
     callback(getCachedProperty(propertyID));
   } else {
     sendMessageAsync(propertyID, OpCode::StatusGet, {}, std::move(callback),
-                     nullptr);
+                     &callstatus);
   }
   return callstatus;
 }
-- 
2.43.0


From 857c97d7bd88297fdea00d4070b66f331011bf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 25/80] fix: cache a property status before notifying, a new
 subscriber must not miss it

---
 src/common/maf/messaging/client-server/ServiceRequester.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 5350e32..c661258 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -40,9 +40,12 @@ bool ServiceRequester::onIncomingMessage(const CSMessagePtr &csMsg) {
         onRegistersUpdated(csMsg);
         break;
       case OpCode::StatusRegister: {
-        if (onRegistersUpdated(csMsg)) {
+        // cache first: who registers from now on and is not notified below
+        // gets the new status from the cache
+        if (subscribingProperty(csMsg->operationID())) {
           cachePropertyStatus(csMsg->operationID(), csMsg->payload());
         }
+        onRegistersUpdated(csMsg);
       } break;
       case OpCode::PartialRequestUpdate:
       case OpCode::Request:
-- 
2.43.0


From 1f1ef5f34df3bae26a5599a868901bb504278cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 26/80] fix: close the client and server factories outside
 their lock, forget closed clients

---
 src/common/maf/messaging/client-server/ClientFactory.cpp | 5 +++--
 src/common/maf/messaging/client-server/ServerFactory.cpp | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ClientFactory.cpp b/src/common/maf/messaging/client-server/ClientFactory.cpp
index 8d76b25..2642984 100644
--- a/src/common/maf/messaging/client-server/ClientFactory.cpp
+++ b/src/common/maf/messaging/client-server/ClientFactory.cpp
@@ -49,8 +49,9 @@ class ClientFactoryImpl {
     return client;
   }
   void close() {
-    std::lock_guard lock(_clientMap);
-    for (auto &[contype, clients] : *_clientMap) {
+    // stopping joins threads that may be calling into this factory
+    auto clientMap = std::move(*_clientMap.atomic());
+    for (auto &[contype, clients] : clientMap) {
       for (auto &[addr, client] : clients) {
         client->stop();
       }
diff --git a/src/common/maf/messaging/client-server/ServerFactory.cpp b/src/common/maf/messaging/client-server/ServerFactory.cpp
index 64cb342..0ba1cb8 100644
--- a/src/common/maf/messaging/client-server/ServerFactory.cpp
+++ b/src/common/maf/messaging/client-server/ServerFactory.cpp
@@ -53,8 +53,9 @@ class ServerFactoryImpl {
   }
 
   void close() {
-    std::lock_guard lock(serverMap_);
-    for (auto &[contype, servers] : *serverMap_) {
+    // stopping joins threads that may be calling into this factory
+    auto serverMap = std::move(*serverMap_.atomic());
+    for (auto &[contype, servers] : serverMap) {
       for (auto &[addr, server] : servers) {
         server->stop();
       }
@@ -62,7 +63,6 @@ class ServerFactoryImpl {
         server->deinit();
       }
     }
-    serverMap_->clear();
   }
 };
 
-- 
2.43.0


From d40c33da594b897d80d4bbf0c135578e113727ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 27/80] fix: a thread pool launches threads from any thread,
 and none after shutdown

---
 include/maf/threading/ThreadPoolImplBase.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/maf/threading/ThreadPoolImplBase.h b/include/maf/threading/ThreadPoolImplBase.h
index 6392ea2..00c4e4b 100644
--- a/include/maf/threading/ThreadPoolImplBase.h
+++ b/include/maf/threading/ThreadPoolImplBase.h
@@ -36,7 +36,9 @@ public:
   ~ThreadPoolImplBase() { shutdown(); }
 
   void tryLaunchNewThread() {
-    if (_pool.size() < _maxThreadCount) {
+    std::lock_guard<std::mutex> lock(_poolMutex);
+    // a thread launched after shutdown would never be joined
+    if (!_taskQueue.isClosed() && _pool.size() < _maxThreadCount) {
       try {
         _pool.emplace_back(
             std::thread{&ThreadPoolImplBase::coptRunPendingTask, this});
@@ -51,6 +53,7 @@ public:
   unsigned int maxThreadCount() const { return _maxThreadCount; }
 
   unsigned int activeThreadCount() {
+    std::lock_guard<std::mutex> lock(_poolMutex);
     return static_cast<unsigned int>(_pool.size());
   }
 
@@ -89,11 +92,12 @@ private:
   }
 
   std::vector<std::thread> _pool;
+  std::mutex _poolMutex;
   std::once_flag _shutdowned;
   TaskQueue _taskQueue;
   std::list<Task> _runningTasks;
   std::mutex _runningTaskMutex;
-  unsigned int _maxThreadCount;
+  std::atomic<unsigned int> _maxThreadCount;
   TaskExc _fRun;
   TaskExc _fStop;
   TaskExc _fDone;
@@ -120,7 +124,14 @@ private:
   }
 
   void waitForThreadsExited() {
-    for (auto &th : _pool) {
+    // launching is over since the queue is closed, but do not join under the
+    // lock: the threads may still ask for the thread count
+    std::vector<std::thread> pool;
+    {
+      std::lock_guard<std::mutex> lock(_poolMutex);
+      pool.swap(_pool);
+    }
+    for (auto &th : pool) {
       if (th.joinable()) {
         th.join();
       }
-- 
2.43.0


From 0af56edeb5528244940d63ca0ff88dca2fa1c07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 28/80] fix: release a task that is handed to a pool after
 shutdown

---
 include/maf/threading/ThreadPoolImplBase.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/maf/threading/ThreadPoolImplBase.h b/include/maf/threading/ThreadPoolImplBase.h
index 00c4e4b..b8186d9 100644
--- a/include/maf/threading/ThreadPoolImplBase.h
+++ b/include/maf/threading/ThreadPoolImplBase.h
@@ -48,7 +48,12 @@ public:
     }
   }
 
-  void run(Task task) { _taskQueue.push(std::move(task)); }
+  void run(Task task) {
+    // a closed pool never runs the task, release it
+    if (!_taskQueue.push(task)) {
+      _fDone(task);
+    }
+  }
 
   unsigned int maxThreadCount() const { return _maxThreadCount; }
 
-- 
2.43.0


From 38b417404f44a3b0f91cdee7e6401d1343fa7554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 29/80] fix: initialize the auto delete flag of Runnable

---
 include/maf/threading/Runnable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maf/threading/Runnable.h b/include/maf/threading/Runnable.h
index 1726576..26ad003 100644
--- a/include/maf/threading/Runnable.h
+++ b/include/maf/threading/Runnable.h
@@ -12,7 +12,7 @@ public:
   virtual ~Runnable() {}
 
 private:
-  bool _autoDeleted;
+  bool _autoDeleted = false;
 };
 
 inline void run(Runnable *runner) {
-- 
2.43.0


From 5ad7842ab86ee02ea80f9d54a3e2c0a267705fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 30/80] fix: ThreadSafeQueue::clear releases the elements
 outside its lock

---
 include/maf/threading/ThreadSafeQueue.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/maf/threading/ThreadSafeQueue.h b/include/maf/threading/ThreadSafeQueue.h
index b558269..eaa607c 100644
--- a/include/maf/threading/ThreadSafeQueue.h
+++ b/include/maf/threading/ThreadSafeQueue.h
@@ -129,16 +129,17 @@ class ThreadSafeQueue {
   bool isClosed() const { return closed_.load(std::memory_order_acquire); }
 
   void clear(ApplyAction onClearCallback = nullptr) {
-    using namespace std;
-    lock_guard lock(queue_);
-    if (onClearCallback) {
-      while (!queue_->empty()) {
-        auto v = std::move(queue_->front());
-        onClearCallback(v);
-        queue_->pop();
-      }
-    } else {
-      *queue_ = {};
+    // neither the callback nor the destructors of the elements may run under
+    // the lock, they are user code and may come back to this queue
+    QueueClass removed;
+    {
+      std::lock_guard lock(queue_);
+      std::swap(removed, *queue_);
+    }
+    while (onClearCallback && !removed.empty()) {
+      auto v = std::move(removed.front());
+      onClearCallback(v);
+      removed.pop();
     }
   }
 
-- 
2.43.0


From e5d4e538934d42fdd761824a8b8475ad1fe35f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 31/80] fix: destroy an executed job before waiting for the
 next one

---
 src/common/maf/messaging/Processor.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index cc2c0ec..41d325d 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -130,7 +130,9 @@ struct ProcessorDataPrv {
   }
 };
 
-static decltype(auto) invoke(const ExecutionUPtr &exc) { return (*exc)(); }
+// takes the execution over: it is destroyed here, not by the next take from the
+// queue, which happens under the lock of the queue
+static decltype(auto) invoke(ExecutionUPtr exc) { return (*exc)(); }
 
 static const ProcessorID &emptyProcessorID() {
   static ProcessorID emptyID;
@@ -201,7 +203,7 @@ void Processor::run(ThreadFunction threadInit, ThreadFunction threadDeinit) {
 
   ExecutionUPtr exc;
   while (d_->pendingExecutions.wait(exc)) {
-    invoke(exc);
+    invoke(std::move(exc));
   }
 }
 
@@ -217,7 +219,7 @@ void Processor::runUntil(ExecutionDeadline deadline) {
   };
 
   while (d_->pendingExecutions.waitUntil(exc, deadline)) {
-    invoke(exc);
+    invoke(std::move(exc));
   }
 }
 
@@ -234,7 +236,7 @@ bool Processor::runOnceUntil(ExecutionDeadline deadline) {
   };
 
   if (d_->pendingExecutions.waitUntil(exc, deadline)) {
-    invoke(exc);
+    invoke(std::move(exc));
     return true;
   }
 
-- 
2.43.0


From 83030688db31450b0143c1a008f1fc91269de321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 32/80] fix: the blocking executor must not report a dropped
 callback as executed

---
 src/common/maf/messaging/Processor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 41d325d..3dbe796 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -67,11 +67,16 @@ class WaitableExecutor : public util::ExecutorIF {
   bool execute(CallbackType callback) noexcept override {
     if (auto comp = compref.lock()) {
       try {
-        comp->waitableExecute(callback).wait();
+        // get() and not wait(): a callback that is dropped unexecuted, because
+        // the processor stops, breaks its promise
+        comp->waitableExecute(callback).get();
         return true;
       } catch (const std::future_error &e) {
         MAF_LOGGER_ERROR("Cauth exception when execute callback: ", e.what());
         return false;
+      } catch (...) {
+        MAF_LOGGER_ERROR("The callback threw an exception");
+        return true;
       }
     }
     return false;
-- 
2.43.0


From add0b6ec056ef8e1ddc949dedaa4e93fec66a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 33/80] fix: do not return an uninitialized result when a
 waited callable did not run

---
 include/maf/messaging/Processor.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/maf/messaging/Processor.h b/include/maf/messaging/Processor.h
index 96966ed..2430499 100644
--- a/include/maf/messaging/Processor.h
+++ b/include/maf/messaging/Processor.h
@@ -89,7 +89,8 @@ class Processor final : pattern::Unasignable,
                        bool> = true>
   auto waitableExecute(Callable &&cb) -> std::invoke_result_t<Callable> {
     std::invoke_result_t<Callable> ret;
-    this->waitableExecute([&] { ret = cb(); }).wait();
+    // throws if the callable did not run or threw: there is no result then
+    this->waitableExecute([&] { ret = cb(); }).get();
     return ret;
   }
 
-- 
2.43.0


From 04d48e24a9cd9d786abd592084df43e71ddda5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 34/80] fix: a task taken from the queue during shutdown must
 not start running unstoppable

---
 include/maf/threading/ThreadPoolImplBase.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/maf/threading/ThreadPoolImplBase.h b/include/maf/threading/ThreadPoolImplBase.h
index b8186d9..a356b8d 100644
--- a/include/maf/threading/ThreadPoolImplBase.h
+++ b/include/maf/threading/ThreadPoolImplBase.h
@@ -84,9 +84,10 @@ public:
 private:
   // copt = Called On Pool Threads
   void coptRun(Task task) {
-    addToRunningTasks(task);
-    _fRun(task);
-    removeFromRunningTasks(task);
+    if (addToRunningTasks(task)) {
+      _fRun(task);
+      removeFromRunningTasks(task);
+    }
     _fDone(task);
   }
   void coptRunPendingTask() {
@@ -107,9 +108,15 @@ private:
   TaskExc _fStop;
   TaskExc _fDone;
 
-  void addToRunningTasks(Task task) {
+  // false if the pool was shut down after the task was taken from the queue:
+  // nobody would stop the task anymore
+  bool addToRunningTasks(Task task) {
     std::lock_guard<std::mutex> lock(_runningTaskMutex);
+    if (_taskQueue.isClosed()) {
+      return false;
+    }
     _runningTasks.push_back(std::move(task));
+    return true;
   }
   void removeFromRunningTasks(const Task &task) {
     std::lock_guard<std::mutex> lock(_runningTaskMutex);
-- 
2.43.0


From 6cdbecc04b948b2019c2cb9e86a4aad30dd9c5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 35/80] fix: only an exception of the callback itself counts as
 executed

---
 src/common/maf/messaging/Processor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 3dbe796..4cec0af 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -66,10 +66,11 @@ class WaitableExecutor : public util::ExecutorIF {
   WaitableExecutor(ProcessorRef &&cr) : compref{std::move(cr)} {}
   bool execute(CallbackType callback) noexcept override {
     if (auto comp = compref.lock()) {
+      auto done = comp->waitableExecute(std::move(callback));
       try {
         // get() and not wait(): a callback that is dropped unexecuted, because
         // the processor stops, breaks its promise
-        comp->waitableExecute(callback).get();
+        done.get();
         return true;
       } catch (const std::future_error &e) {
         MAF_LOGGER_ERROR("Cauth exception when execute callback: ", e.what());
-- 
2.43.0


From 8ebd2766f16257b03b233cf4c0e61d60a68119e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 36/80] fix: announce that the services go down when their
 server is shut down

---
 src/common/maf/messaging/client-server/ServerBase.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServerBase.cpp b/src/common/maf/messaging/client-server/ServerBase.cpp
index 16fb8a8..0e5b731 100644
--- a/src/common/maf/messaging/client-server/ServerBase.cpp
+++ b/src/common/maf/messaging/client-server/ServerBase.cpp
@@ -34,11 +34,14 @@ bool ServerBase::onIncomingMessage(const CSMessagePtr &csMsg) {
 bool ServerBase::init(const Address &) { return true; }
 
 void ServerBase::deinit() {
-  auto providers = std::move(*providers_.atomic());
-
+  // a status is only announced for a service that is known, so keep them known
+  // until all of them have stopped
+  auto providers = *providers_.atomic();
   for (auto &[_, provider] : providers) {
     provider->stopServing();
   }
+
+  providers = std::move(*providers_.atomic());
   for (auto &[_, provider] : providers) {
     provider->deinit();
   }
-- 
2.43.0


From c2265dcd5face972eac2e9b6810635d4c9cea01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 37/80] fix: a message that could not be written completely was
 not sent

---
 .../messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
index abdfb42..b388e81 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
@@ -52,6 +52,7 @@ ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
     if (auto written = ns_global::write(
             fd, reinterpret_cast<char *>(&payloadSize), sizeof(SizeType));
         written == sizeof(SizeType)) {
+      acs = ActionCallStatus::Success;
       // Second write is to send payload content
       do {
         if (written = ns_global::write(fd, payload.data() + totalWritten,
@@ -65,8 +66,6 @@ ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
           break;
         }
       } while (totalWritten < payloadSize);
-
-      acs = ActionCallStatus::Success;
     } else {
       MAF_SOCKET_ERROR("Failed to send payload size[", payloadSize,
                        "] to receiver");
-- 
2.43.0


From 2c46840bd7eeca366207bb53bfc80637aeff81eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 38/80] fix: a receiver that closes its socket must not kill
 the sender by SIGPIPE

---
 .../client-server/ipc/LocalIPCBufferSenderImpl.cpp       | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
index b388e81..bbe85db 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
@@ -49,14 +49,15 @@ ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
     SizeType payloadSize = static_cast<SizeType>(payload.length());
 
     // First write is to send payload size to receiver to reserve a buffer
-    if (auto written = ns_global::write(
-            fd, reinterpret_cast<char *>(&payloadSize), sizeof(SizeType));
+    if (auto written =
+            ns_global::send(fd, reinterpret_cast<char *>(&payloadSize),
+                            sizeof(SizeType), MSG_NOSIGNAL);
         written == sizeof(SizeType)) {
       acs = ActionCallStatus::Success;
       // Second write is to send payload content
       do {
-        if (written = ns_global::write(fd, payload.data() + totalWritten,
-                                       payloadSize - totalWritten);
+        if (written = ns_global::send(fd, payload.data() + totalWritten,
+                                      payloadSize - totalWritten, MSG_NOSIGNAL);
             written != -1) {
           totalWritten += written;
         } else {
-- 
2.43.0


From d75b3d93ed5a517c115019c9bb2696fae6e9fd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 39/80] fix: do not send a payload whose size does not fit into
 its header

---
 .../client-server/ipc/LocalIPCBufferSenderImpl.cpp          | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
index bbe85db..b9b0567 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
@@ -1,5 +1,7 @@
 #include "LocalIPCBufferSenderImpl.h"
 
+#include <limits>
+
 #define ns_global
 
 namespace maf {
@@ -44,7 +46,9 @@ Availability LocalIPCBufferSenderImpl::checkReceiverStatus(
 ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
                                                 const SocketPath &sockpath) {
   ActionCallStatus acs = ActionCallStatus::FailedUnknown;
-  if (auto fd = connectToSocket(sockpath); fd != INVALID_FD) {
+  if (payload.length() > std::numeric_limits<SizeType>::max()) {
+    MAF_LOGGER_ERROR("Payload is too large to be sent: ", payload.length());
+  } else if (auto fd = connectToSocket(sockpath); fd != INVALID_FD) {
     SizeType totalWritten = 0;
     SizeType payloadSize = static_cast<SizeType>(payload.length());
 
-- 
2.43.0


From 3f8b3770c7df75c6c1f78a4902dae0834246c087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 40/80] fix: check the length of the address before asking for
 the status of a receiver

---
 .../messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
index b9b0567..3ff86d1 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
@@ -34,6 +34,9 @@ Availability LocalIPCBufferSenderImpl::checkReceiverStatus(
     const Address &destination) const {
   static thread_local sockaddr_un destSockAddr;
   static thread_local Address destAddr;
+  if (!isValidSocketPath(destination.get_name())) {
+    return Availability::Unavailable;
+  }
   if (destination != destAddr) {
     destAddr = destination;
     destSockAddr = createUnixAbstractSocketAddr(destAddr.get_name());
-- 
2.43.0


From 6e0abd6c508acba76a0c81328f8c8b3d0f8b58ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 41/80] fix: a moved AutoCloseFD closed an uninitialized
 descriptor

---
 .../unix/maf/messaging/client-server/ipc/SocketShared.h         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h b/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
index 08a58f3..28409ef 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
@@ -46,7 +46,7 @@ private:
       fd = INVALID_VALUE;
     }
   }
-  FileDescriptor fd;
+  FileDescriptor fd = INVALID_VALUE;
 };
 
 #define MAF_SOCKET_ERROR(...)                                                  \
-- 
2.43.0


From c0737613b520b9f3f79293061a5caaf406cff688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 42/80] fix: read no more than the announced length of a
 message, and end if it is truncated

---
 .../ipc/LocalIPCBufferReceiverImpl.cpp             | 14 ++++++++++----
 .../maf/messaging/client-server/ipc/SocketShared.h |  1 +
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index 9a22f2a..b270448 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -6,6 +6,8 @@
 #include <stdlib.h>
 #include <sys/stat.h>
 
+#include <algorithm>
+
 #include "SocketShared.h"
 
 namespace maf {
@@ -153,15 +155,18 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
       auto sd = fdClientSocks[i];
       if (FD_ISSET(sd, &readfds)) {
         SizeType messageLength = 0;
-        ssize_t totalRead = 0;
+        SizeType totalRead = 0;
         if (auto bytesRead = read(sd, reinterpret_cast<char *>(&messageLength),
                                   sizeof(SizeType));
             bytesRead == sizeof(SizeType)) {
           auto payload = srz::Buffer{};
-          payload.resize(messageLength);
           while (totalRead < messageLength) {
-            if (bytesRead = read(sd, payload.data() + totalRead, messageLength);
-                bytesRead != -1) {
+            // the length is not trusted: only make room for bytes that come
+            payload.resize(totalRead +
+                           std::min(messageLength - totalRead, MAXCHUNK));
+            if (bytesRead = read(sd, payload.data() + totalRead,
+                                 payload.size() - totalRead);
+                bytesRead > 0) {
               totalRead += bytesRead;
             } else {
               MAF_SOCKET_ERROR("Could not read bytes from socket total read = ",
@@ -169,6 +174,7 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
               break;
             }
           }
+          payload.resize(totalRead);
           if (totalRead == messageLength) {
             bytesComeCallback_(std::move(payload));
           }
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h b/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
index 28409ef..bdbdb35 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
@@ -17,6 +17,7 @@ using FD = int;
 using SockFD = FD;
 
 static constexpr size_t MAXCLIENTS = 30;
+static constexpr SizeType MAXCHUNK = 64 * 1024;
 static constexpr SockFD INVALID_FD = -1;
 template <typename FileDescriptor, FD INVALID_VALUE = INVALID_FD>
 class AutoCloseFD {
-- 
2.43.0


From dc9c7654b9c18101e1dbfe7a4ea59c708f5623da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 43/80] fix: a receiver that could not be set up must not be
 startable

---
 .../messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp   | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index b270448..13d9adf 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -23,7 +23,6 @@ bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
   auto sockpath = myaddr_.get_name();
   if (isValidSocketPath(sockpath)) {
     mySockAddr_ = createUnixAbstractSocketAddr(sockpath);
-    setState(State::Initialized);
     // Create the socket.
     int opt = true;
     fdMySock_ = socket(AF_UNIX, SOCK_STREAM, 0);
-- 
2.43.0


From e1023b0d9d12834df7226b68a70cc8ba15452396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 44/80] fix: stopping a receiver before its thread has started
 it must not be lost

---
 .../messaging/client-server/ipc/LocalIPCServer.cpp  |  4 +---
 .../ipc/LocalIPCBufferReceiverImpl.cpp              | 13 +++++--------
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
index 87a6adc..90e3e5f 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
@@ -35,9 +35,7 @@ bool LocalIPCServer::start() {
 }
 
 void LocalIPCServer::stop() {
-  if (pReceiver_->running()) {
-    pReceiver_->stop();
-  }
+  pReceiver_->stop();
   if (listeningThread_.joinable()) {
     listeningThread_.join();
   }
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index 13d9adf..36ceaa0 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -49,8 +49,8 @@ bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
 
 bool LocalIPCBufferReceiverImpl::start() {
   try {
-    if (getState() == State::Initialized) {
-      setState(State::Running);
+    auto expected = State::Initialized;
+    if (state_.compare_exchange_strong(expected, State::Running)) {
       waitAndProcessConnections();
     } else {
       return false;
@@ -63,13 +63,10 @@ bool LocalIPCBufferReceiverImpl::start() {
 }
 
 void LocalIPCBufferReceiverImpl::stop() {
-  if (running()) {
-    auto currentState = getState();
-    setState(State::Stopped);
+  // also a receiver that is about to be started must not run any more
+  if (state_.exchange(State::Stopped) == State::WaitingConnection) {
     // trying connect to socket to wake the running thread
-    if (currentState == State::WaitingConnection) {
-      connectToSocket(myaddr_.get_name());
-    }
+    connectToSocket(myaddr_.get_name());
   }
 }
 
-- 
2.43.0


From 372c8b181d0cdc202454a930ca0281fe878c4735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 45/80] fix: the receiver closes its sockets, drops no
 connection and survives a failed accept

---
 .../ipc/LocalIPCBufferReceiverImpl.cpp        | 52 +++++++++----------
 .../ipc/LocalIPCBufferReceiverImpl.h          |  2 +-
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index 36ceaa0..0bd986c 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -57,6 +57,7 @@ bool LocalIPCBufferReceiverImpl::start() {
     }
   } catch (StoppedInterruption) {
   } catch (...) {
+    setState(State::Stopped);
     return false;
   }
   return true;
@@ -91,23 +92,24 @@ void LocalIPCBufferReceiverImpl::setObserver(BytesComeCallback callback) {
 bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
   auto maxSd = INVALID_FD;
   socklen_t sockLen = sizeof(mySockAddr_);
-  std::vector<int> fdClientSocks(MAXCLIENTS, 0);
+  // a receiver that does not run any more must not be connectable
+  auto fdListener = std::move(fdMySock_);
+  std::vector<AutoCloseFD<SockFD>> fdClientSocks;
   fd_set readfds;
   do {
     // clear the socket set
     FD_ZERO(&readfds);
 
-    // add master socket to set
-    FD_SET(fdMySock_, &readfds);
-    maxSd = fdMySock_;
+    // add master socket to set, unless there's no room for another client
+    if (fdClientSocks.size() < MAXCLIENTS) FD_SET(fdListener, &readfds);
+    maxSd = fdListener;
 
     // add child sockets to set
-    for (size_t i = 0; i < MAXCLIENTS; i++) {
+    for (auto &fdClient : fdClientSocks) {
       // socket descriptor
-      auto sd = fdClientSocks[i];
+      SockFD sd = fdClient;
 
-      // if valid socket descriptor then add to read list
-      if (sd > 0) FD_SET(sd, &readfds);
+      FD_SET(sd, &readfds);
 
       // highest file descriptor number, need it for the select function
       if (sd > maxSd) maxSd = sd;
@@ -129,27 +131,21 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
 
     // If something happened on the master socket ,
     // then its an incoming connection
-    if (FD_ISSET(fdMySock_, &readfds)) {
-      auto acceptedSD = accept(fdMySock_, _2sockAddr(&mySockAddr_), &sockLen);
-      if (acceptedSD < 0) {
+    AutoCloseFD<SockFD> acceptedSD;
+    if (FD_ISSET(fdListener, &readfds)) {
+      acceptedSD = accept(fdListener, _2sockAddr(&mySockAddr_), &sockLen);
+      if (acceptedSD == INVALID_FD) {
         MAF_LOGGER_ERROR("Failed on accepting new socket connection");
-        return false;
-      }
-
-      // add new socket to array of sockets
-      for (size_t i = 0; i < MAXCLIENTS; i++) {
-        // if position is empty
-        if (fdClientSocks[i] == 0) {
-          fdClientSocks[i] = acceptedSD;
-          break;
-        }
       }
     }
 
     // else its some IO operation on some other socket
-    for (size_t i = 0; i < MAXCLIENTS; i++) {
-      auto sd = fdClientSocks[i];
-      if (FD_ISSET(sd, &readfds)) {
+    for (auto itClient = fdClientSocks.begin();
+         itClient != fdClientSocks.end();) {
+      SockFD sd = *itClient;
+      if (!FD_ISSET(sd, &readfds)) {
+        ++itClient;
+      } else {
         SizeType messageLength = 0;
         SizeType totalRead = 0;
         if (auto bytesRead = read(sd, reinterpret_cast<char *>(&messageLength),
@@ -175,10 +171,14 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
             bytesComeCallback_(std::move(payload));
           }
         }
-        close(sd);
-        fdClientSocks[i] = 0;
+        itClient = fdClientSocks.erase(itClient);
       }
     }
+
+    // add new socket to array of sockets
+    if (acceptedSD != INVALID_FD && acceptedSD < FD_SETSIZE) {
+      fdClientSocks.push_back(std::move(acceptedSD));
+    }
   } while (true);
 
   setState(State::Stopped);
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
index 6678aac..683d7fa 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
@@ -46,7 +46,7 @@ class LocalIPCBufferReceiverImpl {
   BytesComeCallback bytesComeCallback_;
   Address myaddr_;
   sockaddr_un mySockAddr_;
-  int fdMySock_;
+  AutoCloseFD<SockFD> fdMySock_;
   std::atomic<State> state_ = State::Uninitialized;
 };
 
-- 
2.43.0


From 0c21654d5182c91013c98f89f2e806c1b5a43b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 46/80] fix: let callers handle a message that cannot be
 serialized

---
 src/common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp | 2 +-
 src/common/maf/messaging/client-server/ipc/LocalIPCMessage.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp
index 5ec4113..8872217 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp
@@ -32,7 +32,7 @@ static std::shared_ptr<CSError> decodeAsError(Deserializer &ds) {
   return std::shared_ptr<CSError>{new CSError{std::move(desc), code}};
 }
 
-srz::Buffer LocalIPCMessage::toBytes() noexcept {
+srz::Buffer LocalIPCMessage::toBytes() {
   srz::OByteStream oss;
   Serializer sr(oss);
 
diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCMessage.h b/src/common/maf/messaging/client-server/ipc/LocalIPCMessage.h
index 4980eb7..3c3529e 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCMessage.h
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCMessage.h
@@ -11,7 +11,7 @@ namespace local {
 class LocalIPCMessage : public CSMessage {
  public:
   using CSMessage::CSMessage;
-  srz::Buffer toBytes() noexcept;
+  srz::Buffer toBytes();
   bool fromBytes(srz::Buffer &&bytes) noexcept;
 };
 
-- 
2.43.0


From bc511f9cabb9182cfe6e47e75698e147db260644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 47/80] fix: a value of which any part could not be read was
 not read

---
 include/maf/utils/serialization/Serializer.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 340a876..40dc3fa 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -275,7 +275,7 @@ struct Serializer {
         internal::ContainerReserver<Container>::reserve(c, size);
         for (SizeType i = 0; i < size; ++i) {
           DSBElemType elem;
-          if (success |= maf::srz::deserialize(is, elem); success) {
+          if (success = maf::srz::deserialize(is, elem); success) {
             if constexpr (nstl::is_back_insertible_v<Container>) {
               c.push_back(std::move(elem));
             } else {
@@ -312,11 +312,8 @@ struct Serializer<OStream, IStream, std::pair<First, Second>, void> {
   }
 
   bool deserialize(IStream &is, NCDType &value) {
-    bool success = false;
-    if (success |= maf::srz::deserialize(is, value.first); success) {
-      success |= maf::srz::deserialize(is, value.second);
-    }
-    return success;
+    return maf::srz::deserialize(is, value.first) &&
+           maf::srz::deserialize(is, value.second);
   }
 };
 
@@ -339,9 +336,9 @@ struct Serializer<OStream, IStream, Tuple,
   }
 
   bool deserialize(IStream &is, SrType &tp) {
-    bool success = false;
+    bool success = true;
     nstl::tuple_for_each(tp, [&is, &success](auto &elem) {
-      success |= maf::srz::deserialize(is, elem);
+      success = success && maf::srz::deserialize(is, elem);
     });
     return success;
   }
-- 
2.43.0


From 3cce763622c32e09b92e58771562673b60c57585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 48/80] fix: a pointer whose flag could not be read is not a
 null pointer

---
 include/maf/utils/serialization/Serializer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 40dc3fa..5951da5 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -211,8 +211,8 @@ struct Serializer {
       p = nullptr;
       uint8_t isNotNull = 0;
 
-      is.read(internal::to_cstr(&isNotNull), 1);
-      if (isNotNull) {
+      success = maf::srz::deserialize(is, isNotNull);
+      if (success && isNotNull) {
         p = new NormalTypeOfPointerType{};
         success = maf::srz::deserialize(is, *p);
         if (!success) {
-- 
2.43.0


From aa781060ab016bbd502ed90c953e9a9d34ce3f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 49/80] fix: do not allocate what a corrupt size announces

---
 include/maf/utils/serialization/Serializer.h | 24 ++++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 5951da5..87586c2 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -3,6 +3,8 @@
 #include <maf/utils/cppextension/TupleManip.h>
 #include <maf/utils/cppextension/TypeTraits.h>
 
+#include <algorithm>
+#include <stdexcept>
 #include <string>
 
 #include "Tuplizable.h"
@@ -41,6 +43,8 @@ using namespace nstl;
 
 using SizeType = uint32_t;
 inline constexpr SizeType SIZETYPE_WIDE = sizeof(SizeType);
+// most elements a container makes room for before they were read
+inline constexpr SizeType READ_CHUNK = 64 * 1024;
 
 template <class OStream, typename T>
 void serialize(OStream &, const T &);
@@ -271,8 +275,10 @@ struct Serializer {
       auto success = false;
       SizeType size = 0;
 
-      if (success |= maf::srz::deserialize(is, size); success && size > 0) {
-        internal::ContainerReserver<Container>::reserve(c, size);
+      if (success = maf::srz::deserialize(is, size); success && size > 0) {
+        // the size is not trusted: only make room for elements that come
+        internal::ContainerReserver<Container>::reserve(
+            c, std::min(size, READ_CHUNK));
         for (SizeType i = 0; i < size; ++i) {
           DSBElemType elem;
           if (success = maf::srz::deserialize(is, elem); success) {
@@ -367,11 +373,15 @@ struct Serializer<OStream, IStream, std::basic_string<CharT, Trait, Allocator>,
 
   bool deserialize(IStream &is, SrType &value) {
     SizeType size = 0;
-    if (maf::srz::deserialize(is, size)) {
-      if (size > 0) {
-        value.resize(size);
-        is.read(internal::to_cstr(&value[0]), size * sizeof(CharT));
-      }
+    if (!maf::srz::deserialize(is, size)) {
+      return false;
+    }
+    // the size is not trusted: only make room for characters that come
+    for (SizeType done = 0; done < size && !is.fail();) {
+      const SizeType count = std::min(size - done, READ_CHUNK);
+      value.resize(static_cast<size_t>(done) + count);
+      is.read(internal::to_cstr(&value[done]), count * sizeof(CharT));
+      done += count;
     }
     return !is.fail();
   }
-- 
2.43.0


From 56f402e1a7795e77bde342f9418e815b3339ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 50/80] fix: reading a container replaces what it contains

---
 include/maf/utils/serialization/Serializer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 87586c2..74bbb87 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -275,6 +275,7 @@ struct Serializer {
       auto success = false;
       SizeType size = 0;
 
+      c.clear();
       if (success = maf::srz::deserialize(is, size); success && size > 0) {
         // the size is not trusted: only make room for elements that come
         internal::ContainerReserver<Container>::reserve(
@@ -376,6 +377,7 @@ struct Serializer<OStream, IStream, std::basic_string<CharT, Trait, Allocator>,
     if (!maf::srz::deserialize(is, size)) {
       return false;
     }
+    value.clear();
     // the size is not trusted: only make room for characters that come
     for (SizeType done = 0; done < size && !is.fail();) {
       const SizeType count = std::min(size - done, READ_CHUNK);
-- 
2.43.0


From ac74c4de688610822f39d5097e0bca065c048d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 51/80] fix: deserializeBatch could not bind its temporary
 tuple

---
 include/maf/utils/serialization/Serializer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 74bbb87..1fb3e4a 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -454,7 +454,8 @@ void serializeBatch(OStream &os, const Ts &...ts) {
 
 template <class IStream, typename... Ts>
 bool deserializeBatch(IStream &is, Ts &...ts) {
-  return deserialize(is, std::tie(ts...));
+  auto values = std::tie(ts...);
+  return deserialize(is, values);
 }
 
 template <class OStream>
-- 
2.43.0


From e791056e219012dccc09d9cc69f7085c1f5669c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 52/80] fix: work a client hands to another thread must not use
 a client that is gone

---
 .../client-server/ipc/LocalIPCClient.cpp      | 34 +++++++++++++------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
index 0adbed4..628ca5a 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
@@ -73,7 +73,12 @@ bool LocalIPCClient::init(const Address &serverAddress) {
 
 bool LocalIPCClient::start() {
   receiverThread_ = std::thread{[this] { pReceiver_->start(); }};
-  single_threadpool::submit([this] { monitorServerStatus(); });
+  // the client may be gone when it comes to it
+  single_threadpool::submit([thisw = weak_from_this()] {
+    if (auto this_ = thisw.lock()) {
+      static_cast<LocalIPCClient *>(this_.get())->monitorServerStatus();
+    }
+  });
   return true;
 }
 
@@ -135,19 +140,26 @@ void LocalIPCClient::monitorServerStatus(long long tunedInterval) {
   } else if (tunedInterval < serverMonitorInterval) {
     tunedInterval += 5;
   }
-  serverMonitorTimer_.start(tunedInterval, [tunedInterval, this] {
-    this->monitorServerStatus(tunedInterval);
-  });
+  serverMonitorTimer_.start(
+      tunedInterval, [tunedInterval, thisw = weak_from_this()] {
+        if (auto this_ = thisw.lock()) {
+          static_cast<LocalIPCClient *>(this_.get())
+              ->monitorServerStatus(tunedInterval);
+        }
+      });
 }
 
 void LocalIPCClient::onBytesCome(srz::Buffer &&buff) {
-  single_threadpool::submit([this, buff = std::move(buff)]() mutable {
-    std::shared_ptr<LocalIPCMessage> csMsg =
-        std::make_shared<LocalIPCMessage>();
-    if (csMsg->fromBytes(std::move(buff))) {
-      onIncomingMessage(csMsg);
-    } else {
-      MAF_LOGGER_ERROR("incoming message is not wellformed");
+  single_threadpool::submit([thisw = weak_from_this(),
+                             buff = std::move(buff)]() mutable {
+    if (auto this_ = thisw.lock()) {
+      std::shared_ptr<LocalIPCMessage> csMsg =
+          std::make_shared<LocalIPCMessage>();
+      if (csMsg->fromBytes(std::move(buff))) {
+        static_cast<LocalIPCClient *>(this_.get())->onIncomingMessage(csMsg);
+      } else {
+        MAF_LOGGER_ERROR("incoming message is not wellformed");
+      }
     }
   });
 }
-- 
2.43.0


From af2ab03f04744d0ba2dc6421ab27387798b9e9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 53/80] fix: a server or client that was not stopped joins its
 thread when it is destroyed

---
 .../maf/messaging/client-server/ipc/LocalIPCClient.cpp       | 5 ++++-
 .../maf/messaging/client-server/ipc/LocalIPCServer.cpp       | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
index 628ca5a..2eeeea7 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
@@ -92,7 +92,10 @@ void LocalIPCClient::stop() {
 
 void LocalIPCClient::deinit() { ClientBase::deinit(); }
 
-LocalIPCClient::~LocalIPCClient() { LocalIPCClient::deinit(); }
+LocalIPCClient::~LocalIPCClient() {
+  LocalIPCClient::stop();
+  LocalIPCClient::deinit();
+}
 
 ActionCallStatus LocalIPCClient::sendMessageToServer(const CSMessagePtr &msg) {
   assert(msg != nullptr);
diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
index 90e3e5f..c0958f7 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
@@ -19,7 +19,7 @@ LocalIPCServer::LocalIPCServer()
     : pSender_{new LocalIPCBufferSender},
       pReceiver_{new LocalIPCBufferReceiver} {}
 
-LocalIPCServer::~LocalIPCServer() = default;
+LocalIPCServer::~LocalIPCServer() { LocalIPCServer::stop(); }
 
 bool LocalIPCServer::init(const Address &serverAddress) {
   if (pReceiver_->init(serverAddress)) {
-- 
2.43.0


From b3f3373c345f2045092e00a93c9ba9401aa1560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 54/80] fix: only the shortest timer expires, and a stopped one
 does not block the others

---
 src/common/maf/messaging/Timer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index fe36ba5..11bf733 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -187,14 +187,17 @@ void TimerMgr::checkAllTimers() {
       break;
     }
 
-    if (!timer->expired()) {
+    // another timer might have become the shortest one while waiting
+    if (timer != getShortestTimer() || !timer->expired()) {
       continue;
     }
 
     state_ = State::HaveTimer;
-    // shortest timer might be stopped while waiting
     if (timer->running) {
       onShortestTimerExpired(timer);
+    } else {
+      // stopped by a thread that does not have it in its records
+      removeShortestTimer();
     }
   }
 }
-- 
2.43.0


From 6f473da188f2de9aa9aae800edce09583bc99840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 55/80] fix: restarting a timer that is not running starts it
 again

---
 src/common/maf/messaging/Timer.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index 11bf733..d8f6608 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -240,12 +240,15 @@ void TimerMgr::onShortestTimerExpired(const TimerDataPtr& record) {
 }
 
 void TimerMgr::restart(const TimerDataPtr& r) {
+  if (!r->callback) {
+    return;
+  }
+  auto waiting = r->running;
   r->restart();
-  if (r == records_.front()) {
-    pop_heap(begin(), end(), timerGreater);
-    push_heap(begin(), end(), timerGreater);
-  } else {
+  if (waiting) {
     refresh();
+  } else {
+    add(r);
   }
   onTimerModified();
 }
-- 
2.43.0


From 5d8c65254e9aa5719da8f06322f188d383b95a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 56/80] fix: a timer callback must not be replaced while it
 runs

---
 src/common/maf/messaging/Timer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index d8f6608..1d54a20 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -46,7 +46,8 @@ struct TimerData {
     deadline = Clock::now() + duration;
   }
   bool expired() const { return deadline <= Clock::now(); }
-  void onExpired() { callback(); }
+  // the callback may start its timer again with another one
+  void onExpired() { TimeOutCallback{callback}(); }
   void reset(TimeOutCallback&& cb, ExecutionTimeout d, bool cc = false) {
     callback = move(cb);
     deadline = Clock::now() + d;
-- 
2.43.0


From 0575cce3d737a4a712e606717adfa5fba12895e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:50 +0000
Subject: [PATCH 57/80] fix: say so when the content of an outgoing payload was
 translated

---
 include/maf/messaging/client-server/ipc/local/ParamTrait.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/maf/messaging/client-server/ipc/local/ParamTrait.h b/include/maf/messaging/client-server/ipc/local/ParamTrait.h
index 90e983a..34198d9 100644
--- a/include/maf/messaging/client-server/ipc/local/ParamTrait.h
+++ b/include/maf/messaging/client-server/ipc/local/ParamTrait.h
@@ -27,6 +27,7 @@ class ParamTrait : public ParamTraitBase {
     }
 
     if (payload->type() == CSPayloadType::OutgoingData) {
+      assign_ptr(status, TranslationStatus::Success);
       return std::static_pointer_cast<OutgoingPayloadT<Message>>(payload)
           ->content();
     }
-- 
2.43.0


From 4c84d7ab4e083e991dc768b27dcbaeb8deadb276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:01 +0000
Subject: [PATCH 58/80] fix: IPC receiver wrote past its descriptor set when
 its socket number was too large

---
 .../messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index 0bd986c..411c8f0 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -26,7 +26,8 @@ bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
     // Create the socket.
     int opt = true;
     fdMySock_ = socket(AF_UNIX, SOCK_STREAM, 0);
-    if (fdMySock_ != INVALID_FD &&
+    // a descriptor that does not fit into an fd_set could not be waited for
+    if (fdMySock_ != INVALID_FD && fdMySock_ < FD_SETSIZE &&
         (setsockopt(fdMySock_, SOL_SOCKET, SO_REUSEADDR,
                     reinterpret_cast<char *>(&opt), sizeof(opt)) >= 0)) {
       if (bind(fdMySock_, _2sockAddr(&mySockAddr_), sizeof(mySockAddr_)) >= 0) {
-- 
2.43.0


From 6f93e1569e3ab08d43867d35579238b8ab4ef293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 59/80] fix: a slot that disconnects itself is destroyed while
 it runs

---
 include/maf/utils/SignalSlots.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 5760d34..2220e3f 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -61,7 +61,9 @@ class SingleSlotKeeper {
     if (valid()) {
       assert(!notifying_ && "Cyclic connection detected!");
       notifying_ = true;
-      mySlot()->operator()(args...);
+      // the slot must outlive its call even if it disconnects itself
+      auto slot = mySlot();
+      slot->operator()(args...);
       notifying_ = false;
     }
   }
@@ -110,11 +112,12 @@ class MultiSlotKeeper {
       notifying_ = true;
 
       for (auto it = begin(slots_); it != end(slots_);) {
-        if (!*it) {  // this this slot is disconnected;
-          it = slots_.erase(it);
-        } else {
-          std::invoke(*(*it), args...);
+        // the slot must outlive its call even if it disconnects itself
+        if (auto slot = *it) {
+          std::invoke(*slot, args...);
           ++it;
+        } else {  // this slot is disconnected
+          it = slots_.erase(it);
         }
       }
       notifying_ = false;
-- 
2.43.0


From 193789d6c6b3272f2298ae62256a15d01194b466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 60/80] fix: a signal stays marked as notifying for ever after
 a slot threw

---
 include/maf/utils/SignalSlots.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 2220e3f..58a1144 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -33,6 +33,19 @@ using Slot_ = function<void(ConstRef_<Args_>...)>;
 template <class... Args_>
 using SlotPtr_ = shared_ptr<Slot_<Args_...>>;
 
+// marks a keeper as notifying, also if a slot throws
+struct NotifyingGuard_ {
+  explicit NotifyingGuard_(bool& notifying) : notifying_{notifying} {
+    notifying_ = true;
+  }
+  ~NotifyingGuard_() { notifying_ = false; }
+  NotifyingGuard_(const NotifyingGuard_&) = delete;
+  NotifyingGuard_& operator=(const NotifyingGuard_&) = delete;
+
+ private:
+  bool& notifying_;
+};
+
 template <class... Args_>
 class SingleSlotKeeper {
  public:
@@ -60,11 +73,10 @@ class SingleSlotKeeper {
   void notify(ConstRef_<Args_>... args) const {
     if (valid()) {
       assert(!notifying_ && "Cyclic connection detected!");
-      notifying_ = true;
+      NotifyingGuard_ notifying{notifying_};
       // the slot must outlive its call even if it disconnects itself
       auto slot = mySlot();
       slot->operator()(args...);
-      notifying_ = false;
     }
   }
 
@@ -109,7 +121,7 @@ class MultiSlotKeeper {
   void notify(ConstRef_<Args_>... args) const {
     if (valid()) {
       assert(!notifying_ && "Cyclic connection detected");
-      notifying_ = true;
+      NotifyingGuard_ notifying{notifying_};
 
       for (auto it = begin(slots_); it != end(slots_);) {
         // the slot must outlive its call even if it disconnects itself
@@ -120,7 +132,6 @@ class MultiSlotKeeper {
           it = slots_.erase(it);
         }
       }
-      notifying_ = false;
     }
   }
 
-- 
2.43.0


From b3444f2aa64ceaab6797003081b811190789a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 61/80] fix: disconnecting all slots from within a slot
 invalidates the notification

---
 include/maf/utils/SignalSlots.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 58a1144..27b1830 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -152,7 +152,16 @@ class MultiSlotKeeper {
 
   bool valid() const { return !slots_.empty(); }
 
-  void clear() { slots_.clear(); }
+  void clear() {
+    if (!notifying_) {
+      slots_.clear();
+    } else {
+      // the notification goes on: it drops what is disconnected
+      for (auto& slot : slots_) {
+        slot.reset();
+      }
+    }
+  }
 
   bool has(const SlotPtrType& s) const {
     return find(begin(slots_), end(slots_), s) != end(slots_);
-- 
2.43.0


From 06717486dc03e63881f409ccaa19baa81e0819b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 62/80] fix: slots disconnected during a notification still
 count as connected

---
 include/maf/utils/SignalSlots.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 27b1830..263cebb 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -5,7 +5,7 @@
 
 #include "maf/threading/MutexRef.h"
 
-//#include <algorithm>
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <future>
@@ -150,7 +150,7 @@ class MultiSlotKeeper {
     return false;
   }
 
-  bool valid() const { return !slots_.empty(); }
+  bool valid() const { return size() != 0; }
 
   void clear() {
     if (!notifying_) {
@@ -164,10 +164,15 @@ class MultiSlotKeeper {
   }
 
   bool has(const SlotPtrType& s) const {
-    return find(begin(slots_), end(slots_), s) != end(slots_);
+    return s && find(begin(slots_), end(slots_), s) != end(slots_);
   }
 
-  size_t size() const { return slots_.size(); }
+  // slots disconnected during a notification may still be in the list
+  size_t size() const {
+    return static_cast<size_t>(
+        count_if(begin(slots_), end(slots_),
+                 [](const SlotPtrType& s) { return s != nullptr; }));
+  }
 
   SlotPtrType lastSlot() const { return slots_.back(); }
 
-- 
2.43.0


From 3aa717484e616d02625a13501897caea6a1db522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 63/80] fix: a signal destroyed by one of its slots takes its
 lock and slots along

---
 include/maf/utils/SignalSlots.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 263cebb..11ce611 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -347,7 +347,11 @@ class BasicSignal_ {
 
   void operator()(ConstRef_<Args_>... args) const { notify(args...); }
 
-  void notify(ConstRef_<Args_>... args) const { keeper()->notify(args...); }
+  void notify(ConstRef_<Args_>... args) const {
+    // a slot may destroy this signal
+    auto myKeeper = sharedKeeper();
+    (*myKeeper)->notify(args...);
+  }
 
   ConnectionType connect(SlotType s) {
     assert(s);
-- 
2.43.0


From 3d9f740dfa11237403e2e475b8f05308b63fa58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 64/80] fix: destroying a moved-from signal crashes

---
 include/maf/utils/SignalSlots.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 11ce611..4da2144 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -343,7 +343,11 @@ class BasicSignal_ {
   BasicSignal_& operator=(const BasicSignal_&) = delete;
   BasicSignal_(BasicSignal_&&) = default;
   BasicSignal_& operator=(BasicSignal_&&) = default;
-  ~BasicSignal_() { disconnect(); }
+  ~BasicSignal_() {
+    if (slotKeeper_) {  // not moved from
+      disconnect();
+    }
+  }
 
   void operator()(ConstRef_<Args_>... args) const { notify(args...); }
 
-- 
2.43.0


From 49628506d5ae15995e6274854336f9c1b42fa105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 65/80] fix: the single-connection signals with a shared lock
 accept many connections

---
 include/maf/utils/Observable.h  | 2 +-
 include/maf/utils/SignalSlots.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maf/utils/Observable.h b/include/maf/utils/Observable.h
index 1d362a6..c4cbf28 100644
--- a/include/maf/utils/Observable.h
+++ b/include/maf/utils/Observable.h
@@ -628,7 +628,7 @@ using SharedMutexObservable =
     BasicObservableTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 template <class... Args>
 using SharedMutexSCObservable =
-    BasicObservableTS<threading::MutexReference<std::recursive_mutex>, Args...>;
+    SCBasicObservableTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 
 template <class... _Args, class _Callback>
 auto waitableConnect(BasicObservable_<_Args...>& o, _Callback callback) {
diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 4da2144..14807b5 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -635,7 +635,7 @@ using SharedMutexSignal =
     BasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 template <class... Args>
 using SharedMutexSCSignal =
-    BasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
+    SCBasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 
 template <template <class, class...> class Signal_, class SlotKeeper_,
           typename... Args_>
-- 
2.43.0


From b53478bda6ab06c750e5bf6f7e6025bf8e0b1f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 66/80] fix: assigning an atomic reference leaves the lock it
 held locked and returns nothing

---
 include/maf/threading/AtomicObject.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/maf/threading/AtomicObject.h b/include/maf/threading/AtomicObject.h
index 612e28b..29aec9b 100644
--- a/include/maf/threading/AtomicObject.h
+++ b/include/maf/threading/AtomicObject.h
@@ -19,8 +19,14 @@ class AtomicObject : public pattern::UnCopyable {
     }
 
     AtomicRefBase_ &operator=(AtomicRefBase_ &&other) {
-      pointed_ = other.pointed_;
-      other.pointed_ = nullptr;
+      if (this != &other) {
+        if (pointed_) {
+          pointed_->mutex_.unlock();
+        }
+        pointed_ = other.pointed_;
+        other.pointed_ = nullptr;
+      }
+      return *this;
     }
 
     ~AtomicRefBase_() {
-- 
2.43.0


From 159f62647c07ee1187ee056422f6ff14111dac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:07 +0000
Subject: [PATCH 67/80] fix: an observable destroyed by one of its slots takes
 its lock and slots along

---
 include/maf/utils/Observable.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/maf/utils/Observable.h b/include/maf/utils/Observable.h
index c4cbf28..67459dc 100644
--- a/include/maf/utils/Observable.h
+++ b/include/maf/utils/Observable.h
@@ -143,7 +143,8 @@ class ObservableBasic_ : public BasicSignal<SlotsKeeper_, SubStates_...> {
   template <typename... _Args>
   Connection connect_(_Args&&... args) {
     auto con = Base_::connect(std::forward<_Args>(args)...);
-    this->keeper()->notifyOne(
+    // a slot may destroy this observable
+    (*this->sharedKeeper())->notifyOne(
         con.template getSlotPtr<typename Base_::SlotType>());
     return con;
   }
@@ -158,6 +159,7 @@ class ObservableBasic_ : public BasicSignal<SlotsKeeper_, SubStates_...> {
 
   template <size_t idx>
   struct SubStateRefBase_ {
+    typename Base_::SlotKeeperPtr keeper_;  // outlives the observable
     typename SlotsKeeper_::RefType atomickeeper_;
     SubState<idx> oldState_;
     SubState<idx>* operator->() {
@@ -167,7 +169,8 @@ class ObservableBasic_ : public BasicSignal<SlotsKeeper_, SubStates_...> {
     SubState<idx>& operator*() { return atomickeeper_->template get<idx>(); }
 
     SubStateRefBase_(ObservableBasic_* o)
-        : atomickeeper_(o->keeper().atomic()),
+        : keeper_(o->sharedKeeper()),
+          atomickeeper_(keeper_->atomic()),
           oldState_(atomickeeper_->template get<idx>()) {}
 
     ~SubStateRefBase_() {
@@ -263,12 +266,12 @@ class BasicObservable_ : public ObservableBasic_<SlotsKeeper_, SubStates_...> {
   }
 
   void set(ConstRef_<SubStates_>... substates) {
-    this->keeper()->set(substates...);
+    (*this->sharedKeeper())->set(substates...);
   }
 
   template <size_t... idx>
   void set(const SubState<idx>&... vals) {
-    this->keeper()->template set<idx...>(vals...);
+    (*this->sharedKeeper())->template set<idx...>(vals...);
   }
 
   void silentSet(ConstRef_<SubStates_>... substates) {
@@ -291,6 +294,7 @@ class BasicObservable_ : public ObservableBasic_<SlotsKeeper_, SubStates_...> {
   template <class _State>
   struct StateRef {
    private:
+    typename Base_::SlotKeeperPtr keeper_;  // outlives the observable
     typename SlotsKeeper_::RefType atomickeeper_;
     _State oldState_;
 
@@ -305,7 +309,8 @@ class BasicObservable_ : public ObservableBasic_<SlotsKeeper_, SubStates_...> {
     decltype(auto) operator*() { return atomickeeper_->get(); }
 
     StateRef(BasicObservable_* o)
-        : atomickeeper_{o->keeper().atomic()},
+        : keeper_{o->sharedKeeper()},
+          atomickeeper_{keeper_->atomic()},
           oldState_(atomickeeper_->get()) {}
 
     ~StateRef() {
@@ -377,7 +382,9 @@ class SingleStateObservableBasic_
     return *this;
   }
 
-  void set(const State& state) { this->keeper()->template set<0>(state); }
+  void set(const State& state) {
+    (*this->sharedKeeper())->template set<0>(state);
+  }
   State get() const { return this->keeper()->template get<0>(); }
 
   operator State() const { return this->get(); }
-- 
2.43.0


From 0044d39dca67bd6ca24db2f43eb4d6429ceeeb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:39 +0000
Subject: [PATCH 68/80] fix: disconnecting no slot reports that one was
 disconnected

---
 include/maf/utils/SignalSlots.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 14807b5..bde633d 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -86,7 +86,7 @@ class SingleSlotKeeper {
       mySlot().reset();
     }
   }
-  bool has(const SlotPtrType& s) const { return s == mySlot(); }
+  bool has(const SlotPtrType& s) const { return s && s == mySlot(); }
   size_t size() const { return mySlot() ? 1 : 0; }
 
   SlotPtrType lastSlot() const { return mySlot(); }
@@ -136,6 +136,9 @@ class MultiSlotKeeper {
   }
 
   bool remove(const SlotPtrType& s) {
+    if (!s) {  // slots already disconnected are not to be found
+      return false;
+    }
     if (!notifying_) {
       if (auto i = find(begin(slots_), end(slots_), s); i != end(slots_)) {
         slots_.erase(i);
-- 
2.43.0


From 9852c24f31d80a34776091ba4814e88f9a2cb673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:55 +0000
Subject: [PATCH 69/80] fix: a slot given as a std::function is told the state
 it is connected to

---
 include/maf/utils/Observable.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/maf/utils/Observable.h b/include/maf/utils/Observable.h
index 67459dc..817ea3d 100644
--- a/include/maf/utils/Observable.h
+++ b/include/maf/utils/Observable.h
@@ -111,7 +111,6 @@ class ObservableBasic_ : public BasicSignal<SlotsKeeper_, SubStates_...> {
 
  public:
   using SlotsKeeperType = SlotsKeeper_;
-  using Base_::connect;
   using State = tuple<PurgeType_<SubStates_>...>;
   ObservableBasic_() = default;
   ObservableBasic_(ObservableBasic_&&) = default;
-- 
2.43.0


From e9277715bf7dfa1ef66f889e093f0593eb4d5c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:28 +0000
Subject: [PATCH 70/80] fix: observables can be read as numbers and written
 silently part by part

---
 include/maf/utils/Observable.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/maf/utils/Observable.h b/include/maf/utils/Observable.h
index 817ea3d..11acc3e 100644
--- a/include/maf/utils/Observable.h
+++ b/include/maf/utils/Observable.h
@@ -187,6 +187,7 @@ class ObservableBasic_ : public BasicSignal<SlotsKeeper_, SubStates_...> {
       : public SubStateRefBase_<idx>,
         public ArithmeticStateBase_<SubState<idx>, SubStateRef<idx>> {
     auto& mutable_() { return *this; }
+    auto& immutable() const { return const_cast<SubStateRef&>(*this); }
     using ArithmeticStateBase_<SubState<idx>, SubStateRef<idx>>::operator=;
   };
 
@@ -250,6 +251,7 @@ class BasicObservable_ : public ObservableBasic_<SlotsKeeper_, SubStates_...> {
   using Base_::connect;
   using Base_::immutable;
   using Base_::mutable_;
+  using Base_::silentMutable;
 
   auto mutable_() { return StateRef<State>{this}; }
   auto immutable() const { return CStateRef{this}; }
@@ -328,12 +330,10 @@ class BasicObservable_ : public ObservableBasic_<SlotsKeeper_, SubStates_...> {
         : atomickeeper_{o->keeper().atomic()} {}
 
     decltype(auto) operator->() const {
-      return addressof(this->atomickeeper_->template get());
+      return addressof(this->atomickeeper_->get());
     }
 
-    decltype(auto) operator*() const {
-      return this->atomickeeper_->template get();
-    }
+    decltype(auto) operator*() const { return this->atomickeeper_->get(); }
 
     template <size_t idx>
     decltype(auto) get() const {
@@ -344,11 +344,13 @@ class BasicObservable_ : public ObservableBasic_<SlotsKeeper_, SubStates_...> {
   struct silentStateRef {
     typename SlotsKeeper_::RefType atomickeeper_;
 
+    silentStateRef(BasicObservable_* o) : atomickeeper_{o->keeper().atomic()} {}
+
     decltype(auto) operator->() {
-      return addressof(this->atomickeeper_->template get());
+      return addressof(this->atomickeeper_->get());
     }
 
-    decltype(auto) operator*() { return this->atomickeeper_->template get(); }
+    decltype(auto) operator*() { return this->atomickeeper_->get(); }
 
     template <size_t idx>
     decltype(auto) get() {
@@ -421,6 +423,7 @@ class BasicSingleStateObservable_<
  public:
   using Base_::Base_;
   using Base_::operator=;
+  using Base_::operator SingleState_;
 };
 
 template <class SlotsKeeper_, class SingleState_>
-- 
2.43.0


From 0dc5b7fa763b92eac676dccaed1e1bc99f3371f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:55 +0000
Subject: [PATCH 71/80] fix: a signal without attributes that is not registered
 says why

---
 include/maf/messaging/client-server/BasicProxy.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/maf/messaging/client-server/BasicProxy.h b/include/maf/messaging/client-server/BasicProxy.h
index df4dc15..12468fe 100644
--- a/include/maf/messaging/client-server/BasicProxy.h
+++ b/include/maf/messaging/client-server/BasicProxy.h
@@ -388,6 +388,7 @@ RegID BasicProxy<PTrait>::registerSignal(
                      "] failed, Please provide non-empty callback");
   }
 
+  util::assign_ptr(callStatus, ActionCallStatus::InvalidParam);
   return {};
 }
 
-- 
2.43.0


From b0a26d299efaa96b2f57bee243e3a1b92f4def8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:55 +0000
Subject: [PATCH 72/80] fix: an error sent in place of content is not read as
 content

---
 include/maf/messaging/client-server/ipc/local/ParamTrait.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/maf/messaging/client-server/ipc/local/ParamTrait.h b/include/maf/messaging/client-server/ipc/local/ParamTrait.h
index 34198d9..a738aa1 100644
--- a/include/maf/messaging/client-server/ipc/local/ParamTrait.h
+++ b/include/maf/messaging/client-server/ipc/local/ParamTrait.h
@@ -32,6 +32,12 @@ class ParamTrait : public ParamTraitBase {
           ->content();
     }
 
+    if (payload->type() != CSPayloadType::IncomingData) {
+      // e.g. an error sent in place of the content
+      assign_ptr(status, TranslationStatus::DestSrcMismatch);
+      return {};
+    }
+
     try {
       using PureContentType = std::decay_t<Message>;
       // Warning: avoid using dynamic_cast RTTI
-- 
2.43.0


From 86322874a594332103bc58ca2cd2f8c3c3b2b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:55 +0000
Subject: [PATCH 73/80] fix: an observer whose executor refuses it is not kept
 and ends no caller

---
 .../maf/messaging/client-server/ServiceRequester.cpp   | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index c661258..6a32d45 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -144,8 +144,14 @@ void ServiceRequester::registerServiceStatusObserver(
       // dont execute notification in critical section,
       // that might block other thread to update service status
       // when status has changed
-      observer->onServiceStatusChanged(serviceID(), Availability::Unknown,
-                                       Availability::Available);
+      try {
+        observer->onServiceStatusChanged(serviceID(), Availability::Unknown,
+                                         Availability::Available);
+      } catch (const UnavailableException &) {
+        MAF_LOGGER_WARN("An observer of ", serviceID(),
+                        " is not available, then don't keep it");
+        unregisterServiceStatusObserver(observer);
+      }
     }
   }
 }
-- 
2.43.0


From 9575f477d769ee404534672f1a7895e97db1fc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:55 +0000
Subject: [PATCH 74/80] fix: a request replaced by another is answered as one
 that is dropped

---
 include/maf/messaging/client-server/RequestT.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/maf/messaging/client-server/RequestT.h b/include/maf/messaging/client-server/RequestT.h
index 7799446..3d539ce 100644
--- a/include/maf/messaging/client-server/RequestT.h
+++ b/include/maf/messaging/client-server/RequestT.h
@@ -36,7 +36,12 @@ PTrait::template getOperationID<Output>(),                \
  public:
   RequestT() = default;
   RequestT(RequestT &&) = default;
-  RequestT &operator=(RequestT &&) = default;
+  RequestT &operator=(RequestT &&other) {
+    // the request that is replaced must not be left without an answer
+    RequestT replaced{std::move(other)};
+    delegate_.swap(replaced.delegate_);
+    return *this;
+  }
 
   ~RequestT() {
     if (delegate_ && valid()) {
-- 
2.43.0


From 6f55e57fad56aa7590a820c8a19d61c47567c90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:55 +0000
Subject: [PATCH 75/80] fix: a request whose callback has no executor to run on
 is refused

---
 include/maf/messaging/client-server/BasicProxy.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/maf/messaging/client-server/BasicProxy.h b/include/maf/messaging/client-server/BasicProxy.h
index 12468fe..8a27808 100644
--- a/include/maf/messaging/client-server/BasicProxy.h
+++ b/include/maf/messaging/client-server/BasicProxy.h
@@ -444,6 +444,13 @@ RegID BasicProxy<PTrait>::sendRequestAsync(
     ActionCallStatus *callStatus) noexcept {
   MAF_ASSERT_SAME_OPERATION_ID(Input, RequestOrOutput);
 
+  if (callback && !executor_) {
+    util::assign_ptr(callStatus, ActionCallStatus::InvalidParam);
+    MAF_LOGGER_ERROR("No executor to run the callback of request `",
+                     getOpID<RequestOrOutput>(), "`");
+    return {};
+  }
+
   return requester_->sendRequestAsync(
       getOpID<RequestOrOutput>(), translate(input),
       createResponseMsgHandlerCallback(std::move(callback)), callStatus);
@@ -455,6 +462,13 @@ template <class RequestOrOutput,
 RegID BasicProxy<PTrait>::sendRequestAsync(
     ResponseProcessingCallback<RequestOrOutput> callback,
     ActionCallStatus *callStatus) noexcept {
+  if (callback && !executor_) {
+    util::assign_ptr(callStatus, ActionCallStatus::InvalidParam);
+    MAF_LOGGER_ERROR("No executor to run the callback of request `",
+                     getOpID<RequestOrOutput>(), "`");
+    return {};
+  }
+
   return requester_->sendRequestAsync(
       getOpID<RequestOrOutput>(), {},
       createResponseMsgHandlerCallback(std::move(callback)), callStatus);
-- 
2.43.0


From 1ae5a60364c0366df34d4aa34220766034d676dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:55 +0000
Subject: [PATCH 76/80] fix: an empty request handler is refused

---
 include/maf/messaging/client-server/BasicStub.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/maf/messaging/client-server/BasicStub.h b/include/maf/messaging/client-server/BasicStub.h
index 0deadb1..77d8523 100644
--- a/include/maf/messaging/client-server/BasicStub.h
+++ b/include/maf/messaging/client-server/BasicStub.h
@@ -210,7 +210,10 @@ template <class RequestOrInput,
           AllowOnlyRequestOrInputT<PTrait, RequestOrInput>>
 bool BasicStub<PTrait>::registerRequestHandler(
     RequestHandlerFunction<RequestOrInput> handlerFunction) {
-  if (executor_) {
+  if (!handlerFunction) {
+    MAF_LOGGER_ERROR("Please provide a non-empty handler for requests `",
+                     PTrait::template getOperationID<RequestOrInput>(), "`");
+  } else if (executor_) {
     auto requestHandler =
         [handlerFunction = std::move(handlerFunction), executor = executor_](
             const std::shared_ptr<RequestIF> &request) mutable {
-- 
2.43.0


From 3a394d64ecc9787f556d405a9de59f6a92f941be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:32 +0000
Subject: [PATCH 77/80] fix: of two addresses at most one comes before the
 other

---
 src/common/maf/messaging/client-server/Address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/Address.cpp b/src/common/maf/messaging/client-server/Address.cpp
index 6b5b00a..9783e91 100644
--- a/src/common/maf/messaging/client-server/Address.cpp
+++ b/src/common/maf/messaging/client-server/Address.cpp
@@ -16,7 +16,7 @@ bool Address::operator!=(const Address &other) const {
 }
 
 bool Address::operator<(const Address &other) const {
-  return name_ < other.name_ || port_ < other.port_;
+  return cas_tuple() < other.cas_tuple();
 }
 
 bool Address::valid() const {
-- 
2.43.0


From 84c88f461c379dd4cf39750bc5b6afbaacf34b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:32 +0000
Subject: [PATCH 78/80] fix: registration ids that differ are not taken for one
 by a map

---
 include/maf/messaging/client-server/RegID.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/maf/messaging/client-server/RegID.h b/include/maf/messaging/client-server/RegID.h
index af3f385..6e50d7e 100644
--- a/include/maf/messaging/client-server/RegID.h
+++ b/include/maf/messaging/client-server/RegID.h
@@ -56,7 +56,8 @@ inline bool operator==(const RegID &r1, const RegID &r2) {
 inline bool operator!=(const RegID &r1, const RegID &r2) { return !(r1 == r2); }
 
 inline bool operator<(const RegID &r1, const RegID &r2) {
-  return (r1.requestID < r2.requestID) && (r1.opID < r2.opID);
+  return (r1.requestID < r2.requestID) ||
+         ((r1.requestID == r2.requestID) && (r1.opID < r2.opID));
 }
 
 }  // namespace messaging
-- 
2.43.0


From 09ec6d981e3d92440c330803f18a89b5e54ec661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:32 +0000
Subject: [PATCH 79/80] fix: a payload is equal to itself and to its copy

---
 .../messaging/client-server/ipc/local/IncomingPayload.h    | 2 +-
 .../messaging/client-server/ipc/local/OutgoingPayload.h    | 5 +++--
 include/maf/messaging/client-server/itc/Payload.h          | 7 +++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/maf/messaging/client-server/ipc/local/IncomingPayload.h b/include/maf/messaging/client-server/ipc/local/IncomingPayload.h
index 9622fd4..38fdf0d 100644
--- a/include/maf/messaging/client-server/ipc/local/IncomingPayload.h
+++ b/include/maf/messaging/client-server/ipc/local/IncomingPayload.h
@@ -21,7 +21,7 @@ class IncomingPayload : public CSMsgPayloadIF {
  public:
   IncomingPayload(StreamPtrType stream) : stream_{std::move(stream)} {}
   bool equal(const CSMsgPayloadIF *other) const override {
-    if (other && (other != this)) {
+    if (other) {
       if (other->type() == CSPayloadType::IncomingData) {
         auto otherAsThis = static_cast<const IncomingPayload *>(other);
         // Don't compare content of stream
diff --git a/include/maf/messaging/client-server/ipc/local/OutgoingPayload.h b/include/maf/messaging/client-server/ipc/local/OutgoingPayload.h
index da4b304..aca8ec0 100644
--- a/include/maf/messaging/client-server/ipc/local/OutgoingPayload.h
+++ b/include/maf/messaging/client-server/ipc/local/OutgoingPayload.h
@@ -33,8 +33,9 @@ class OutgoingPayloadT : public OutgoingPayload {
     if (other && other->type() == CSPayloadType::OutgoingData) {
       // assume that we always compare objects of same class
       auto otherOutgoing = static_cast<const OutgoingPayloadT *>(other);
-      return this->content() && otherOutgoing->content() &&
-             (*(this->content()) == *(otherOutgoing->content()));
+      return this->content() == otherOutgoing->content() ||
+             (this->content() && otherOutgoing->content() &&
+              (*(this->content()) == *(otherOutgoing->content())));
     } else {
       return false;
     }
diff --git a/include/maf/messaging/client-server/itc/Payload.h b/include/maf/messaging/client-server/itc/Payload.h
index 1f8f7ca..4942e26 100644
--- a/include/maf/messaging/client-server/itc/Payload.h
+++ b/include/maf/messaging/client-server/itc/Payload.h
@@ -25,12 +25,11 @@ class Payload : public CSMsgPayloadIF {
 
   bool equal(const CSMsgPayloadIF *other) const override {
     if (other) {
-      if ((other != this) && (other->type() == this->type())) {
+      if (other->type() == this->type()) {
         auto &thisContent = this->content();
         auto &otherContent = static_cast<const Payload *>(other)->content();
-        if (thisContent && otherContent) {
-          return *thisContent == *otherContent;
-        }
+        return (thisContent == otherContent) ||
+               (thisContent && otherContent && *thisContent == *otherContent);
       }
     }
     return false;
-- 
2.43.0


From 210a7f00abb949b116525af4c51c7ca5235f870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:32 +0000
Subject: [PATCH 80/80] fix: a copied error does not delete the data of the one
 copied

---
 include/maf/messaging/client-server/CSError.h      | 2 ++
 src/common/maf/messaging/client-server/CSError.cpp | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/maf/messaging/client-server/CSError.h b/include/maf/messaging/client-server/CSError.h
index dd49e01..dc68a57 100644
--- a/include/maf/messaging/client-server/CSError.h
+++ b/include/maf/messaging/client-server/CSError.h
@@ -30,6 +30,8 @@ class CSError : public CSMsgPayloadIF {
   MAF_EXPORT CSError(Description desc = {},
                      ErrorCode code = CSErrorCode::Unknown);
 
+  MAF_EXPORT CSError(const CSError &other);
+  MAF_EXPORT CSError &operator=(const CSError &other);
   MAF_EXPORT ~CSError();
   MAF_EXPORT CSPayloadType type() const override;
   MAF_EXPORT bool equal(const CSMsgPayloadIF *other) const override;
diff --git a/src/common/maf/messaging/client-server/CSError.cpp b/src/common/maf/messaging/client-server/CSError.cpp
index e93d5ea..42b9fa0 100644
--- a/src/common/maf/messaging/client-server/CSError.cpp
+++ b/src/common/maf/messaging/client-server/CSError.cpp
@@ -14,6 +14,14 @@ struct CSErrorDataPrv {
 CSError::CSError(Description desc, ErrorCode code)
     : d_{new CSErrorDataPrv{std::move(desc), code}} {}
 
+CSError::CSError(const CSError &other)
+    : CSMsgPayloadIF(other), d_{new CSErrorDataPrv{*other.d_}} {}
+
+CSError &CSError::operator=(const CSError &other) {
+  *d_ = *other.d_;
+  return *this;
+}
+
 CSError::~CSError() { delete d_; }
 
 bool CSError::equal(const CSMsgPayloadIF *other) const {
-- 
2.43.0

