"""the properties: single source of properties.jsonl (see mkmeta.py)"""
PROPS = []


def P(id, title, statement, over, q, why, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, mech=mech, **kw))


PROC = "src/common/maf/messaging/Processor.cpp"

P("T01", "A closable queue hands each element to one taker and refuses pushes when closed",
  """Every element accepted by the library's blocking queue is removed by at most one successful take, which delivers it, or by an explicit
  clear. A take reports success only after removing exactly one element from an open, non-empty queue inside one critical section, and
  leaves the queue untouched when it reports failure. A push reports success exactly when its element was added, never adds to a closed
  queue, and only an explicit reopen opens a closed queue again.""".replace("A take reports", "A take reports"),
  ["schedules", "histories"], "every interleaving of any number of pushing, taking, clearing, closing and reopening threads, and every instantiation",
  "the tests push and take from one or two threads in a fixed order; a second thread slipping in between the emptiness test and the removal, or "
  "between the closed test and the insertion, is a schedule they do not force",
  [("push / wait / waitFor / waitUntil / tryPop / clear / close / reOpen", "include/maf/threading/ThreadSafeQueue.h:21")])

P("T02", "No lost wake-ups: a satisfied wait always ends",
  """A thread blocked for a queue element or closure, for a timer to be stopped, or for a service availability is never left asleep after the
  event: every state change that can satisfy a wait is made under the lock the waiter checks the state under, and is followed by a wake-up on
  every path. Events that concern every waiter (closing, stopping, an availability change) wake all of them. A woken waiter re-checks the state
  before acting on it.""".replace("before acting on it.", "before acting on it."),
  ["schedules"], "every interleaving of waiters with the threads that change the state",
  "a lost wake-up needs the change to fall between the waiter's check and its sleep; tests run one schedule and would just hang rarely",
  [("queueNotEmpty_ notify", "include/maf/threading/ThreadSafeQueue.h:27"), ("SyncTimer::stop", "src/common/maf/messaging/SyncTimer.cpp:65"),
   ("ServiceStatusSignal", "include/maf/messaging/client-server/ServiceStatusSignal.h:29")])

P("M01", "A thread is bound to the processor it runs and unbound on every exit",
  """While a thread that had no current processor runs a processor's queued jobs, that processor is the thread's current one. When a run call ends, by return or by
  an exception from user code, the thread's current processor is what it was before the call, and a call that did not bind the thread does not
  unbind it.""",
  ["inputs", "histories", "fault_sequences"], "every entry point, nesting of run calls, and every place where user code may throw",
  "the tests run processors whose jobs and thread hooks return normally; exceptions out of hooks and jobs and nested runs are not sampled",
  [("run / runUntil / runOnceUntil", PROC + ":213"), ("testAndSetThreadLocalInstance", PROC + ":392")])

P("T03", "Shared state is only touched under its lock",
  """Data the library keeps next to a lock, such as the router's table, the pending requests of clients and services, the listener and observer
  lists, and the request, timer and availability states, is read and written only by a thread holding that lock, on every path from every public
  operation and every callback the library installs.""",
  ["schedules", "inputs"], "every path to every access of lock-guarded data, from every function a thread can enter the library through",
  "a missing lock is invisible in a test unless two threads collide inside a window of a few instructions",
  [("Lockable", "include/maf/threading/Lockable.h:30"), ("Request state", "src/common/maf/messaging/client-server/Request.cpp:1"),
   ("SyncTimer state", "src/common/maf/messaging/SyncTimer.cpp:1")])

P("T04", "Locks are taken in one order, never twice, and released on every exit",
  """No call into the library can block for ever on the library's own locks: any two of them that are ever held together are taken in the same
  order everywhere, no thread takes a non-recursive lock it already holds, and every lock taken is released, by the thread holding it, on every
  path out of the operation.""",
  ["schedules", "inputs"], "every chain of calls, through virtual calls too, made while a lock is held",
  "a lock-order inversion deadlocks only when two threads interleave between the two acquisitions",
  [("ServiceProvider / ServerBase locks", "src/common/maf/messaging/client-server/ServerBase.cpp:1"),
   ("ClientBase locks", "src/common/maf/messaging/client-server/ClientBase.cpp:1")])

P("T05", "User code never runs while the library holds a non-recursive lock",
  """Callbacks, observers, executors and message handlers supplied by users are called while the library holds no lock they could need: a callback
  may call back into the same object, or wait for another thread that does, without deadlock. Queued jobs that were executed are not destroyed under the
  queue's lock, and no thread or result is waited for under a lock.""",
  ["schedules", "inputs"], "every call of user-supplied code reachable while a lock is held, through any chain of calls",
  "the tests' callbacks do not call back into the object that invoked them, so a lock held around a callback stays unnoticed",
  [("ServerBase::onIncomingMessage", "src/common/maf/messaging/client-server/ServerBase.cpp:1"),
   ("ServiceStatusObserver notification", "src/common/maf/messaging/client-server/ServiceRequester.cpp:1"), ("Router::sendToAll", "src/common/maf/messaging/Router.cpp:1")])

P("M02", "A job runs inline only on the thread that is running its processor",
  """A job given to a processor is executed either by a thread that is running this very processor, or it is queued: no submission operation,
  executor or wrapped job ever executes it inline on a thread whose current processor is another one or none. Asynchronous submissions never
  execute inline. On the processor's own thread, synchronous and waitable submissions execute at once rather than queue behind themselves.""",
  ["inputs", "histories"], "every submission operation, executor and wrapper, and every state of the calling thread",
  "a wrong identity test only shows when the submitting thread happens to run another processor, or none",
  [("execute / waitableExecute / waitablePost", PROC + ":330"), ("executors", PROC + ":40")])

P("M03", "A submission reports truthfully whether the job was accepted",
  """A submission operation, executor or one-shot message post that reports success has queued the job, or has executed it, exactly once; one that
  reports refusal did neither, also when the processor is stopped or stops meanwhile, has no handler, is gone, or memory runs out. A blocking
  executor reports success only for a job that was executed, never for one dropped unexecuted.""",
  ["inputs", "schedules", "fault_sequences"], "every path of every submission operation, including stops and allocation failures between its steps",
  "tests submit to running processors; a stop between the check and the push, or a failed allocation, is not sampled",
  [("addExecution / execute / executeAsync / post", PROC + ":95"), ("executors", PROC + ":40")])

P("M04", "A stopped processor accepts nothing, and running ends only when the queue does",
  """Stopping a processor closes its job queue, then drops the jobs left in it, and takes a named processor out of the routing. An operation that sees
  the processor stopped neither queues nor executes the job. A run call ends only when the queue reports its end or the deadline, each job taken is
  executed exactly once, and a run-once call executes at most one job and tells whether it did.""",
  ["schedules", "histories"], "every path of the run, stop and submission operations, with the processor stopping between any two steps",
  "the order of closing and clearing only matters when a job is submitted between the two",
  [("stop / run / runUntil / runOnceUntil", PROC + ":185")])

P("M05", "Executors and wrapped jobs neither keep a processor alive nor use a dead one",
  """Executors and wrapped jobs handed out by a processor hold no owning and no plain pointer to it, so they do not extend its life. Whenever
  they are used, they touch the processor only after having obtained a strong reference that was found to be non-null; otherwise they do nothing.""",
  ["histories", "schedules"], "every executor class, every wrapper, and every use of the upgraded reference",
  "a dangling or a leaked processor needs the executor to outlive it, or the last reference to be dropped while the executor is in use",
  [("executors", PROC + ":40"), ("willExecuteOnThis", PROC + ":345")])

P("M06", "The routing registers each id once and tells members who joins and leaves",
  """A processor id is registered at most once, a named processor is created exactly if its id was free, and a lookup returns the processor
  registered under the id asked for, or nothing. Leaving removes only the very instance that leaves. Joining and leaving are reported truthfully and announced:
  each member that listens for membership changes is posted the change, and a newcomer that listens is told who is already there.""",
  ["schedules", "histories"], "every path of every operation on the registry, any number of members",
  "two processors racing for one id, or leaving while a successor joins with the same id, are histories the tests do not force",
  [("addProcessor / removeProcessor / findProcessor / postToAll", "src/common/maf/messaging/Router.cpp:30")])

P("M07", "A message reaches exactly the handlers connected for its type",
  """Processing a message notifies, once and with this very message, the handlers connected for the message's own type, and no others. A post is accepted only
  if a handler for the type of the message is connected, and what is then processed is the posted message. Connecting a handler keeps those already connected for
  the type; disconnecting a type removes the handlers of that type, and nothing else but lists without any handler.""",
  ["inputs", "histories"], "every message type, every set of connected handlers, and every path of posting, processing, connecting and disconnecting",
  "the tests use a handful of types with one or two handlers each; a lookup by the wrong key or a removal that hits another type shows only in combinations",
  [("processMessage / msgConnected / connect / disconnect", PROC + ":100")])

P("T06", "A pool runs a task at most once, finishes it exactly once, and shutdown ends all",
  """Every task given to a pool is finished exactly once: after it was run, or without having been run if the pool was shut down. A task runs only
  while registered as running, and only registered tasks are told to stop. Shutting down closes the queue, tells every running task to stop, drops and finishes the pending
  ones and joins every worker; no worker is launched beyond the limit or once the pool is closed.""",
  ["schedules", "histories"], "every path of workers, submitters and shutdown, with shutdown falling between any two steps of the others",
  "the window between a worker taking a task and registering it, or between the closed check and the launch, is a few instructions wide",
  [("coptRun / stopThePool / tryLaunchNewThread", "include/maf/threading/ThreadPoolImplBase.h:36"),
   ("StableThreadPool / PriorityThreadPool / VaryCountThreadPool", "src/common/maf/threading/threadpool/DynamicCountThreadPool.cpp:1")])

CSD = "src/common/maf/messaging/client-server/"
SRQ = CSD + "ServiceRequester.cpp"

P("C01", "An answer goes to the one request it answers, once, and ends it if final",
  """An answer from a service is given only to the callback of the pending request with the same service, operation and request id, and every
  answer whose request is pending is delivered, with the answer's own payload. A final answer takes its request, and no other, out of the pending ones
  before it is delivered; a partial answer leaves it pending. A blocked request is satisfied exactly once, by the first answer it gets.""",
  ["inputs", "histories"], "every incoming message and every set of pending requests",
  "tests answer one request at a time; answers out of order, partial ones, or for ids no longer pending need combinations nobody wrote down",
  [("onIncomingMessage / onRequestResult / sendMessageSync", SRQ + ":28")])

P("C02", "A request is kept before it is sent, withdrawn if it fails, reported truthfully",
  """A request or registration is kept under its operation and a fresh id before its message, which carries that service, operation, id and
  content, is sent. If it cannot be sent nothing stays behind and the caller gets no id; otherwise it stays until it is answered, aborted or given up, and only the
  entry meant is ever withdrawn. The status reported is what happened: success only if it was sent, a timeout with an abort of just that request, or broken if
  the request was dropped; a blocked caller never keeps its own request alive.""",
  ["inputs", "schedules", "fault_sequences"], "every operation of a requester, every result of the send, timeouts and service loss at any point",
  "a send that fails, an answer that comes before the send returns, or a service lost while a caller waits, are faults the tests do not inject",
  [("sendRequest / sendRequestAsync / getStatus / abortRequest", SRQ + ":75"), ("registerStatus / registerSignal / unregister / unregisterAll", SRQ + ":343")])

P("C03", "Losing a service drops its requests and tells every observer",
  """When a service or its server becomes unavailable the requester stores the new status, then drops every pending request and registration, so that nobody waits for an
  answer that cannot come, and tells every observer, also if one of them is gone. A status of another service, or one that has not changed, changes nothing. A new
  observer, and the client's table of statuses, never miss a change: reading the status and joining are one step, and a status is stored before the requester is looked up.""",
  ["schedules", "histories", "fault_sequences"], "every status change, any set of pending requests, registrations and observers",
  "a service that goes away between a request and its answer, or while an observer registers, is a schedule the tests do not force",
  [("onServiceStatusChanged / registerServiceStatusObserver / deinit", SRQ + ":258"), ("onServerStatusChanged / onServiceStatusChanged", CSD + "ClientBase.cpp:12")])

P("C04", "Registrations are announced once, and the cached status lives with them",
  """The first registration of an operation is announced to the service and the last one withdrawn takes it back and drops the cached status; others are not announced. Every registration
  of an operation gets every update, each its own copy. The status of a followed property is cached before it is announced, a later follower gets a copy of it,
  and a status is answered from the cache only while the property is followed or the service is away.""",
  ["inputs", "histories"], "every sequence of registrations, withdrawals, updates and status queries on any number of operations",
  "tests register once or twice for one operation; the count reaching zero, a second follower, or an update racing a registration are not sampled",
  [("registerStatus / unregister / unregisterAll / getStatus", SRQ + ":310"), ("onRegistersUpdated / cached properties", SRQ + ":432")])

P("C05", "A typed client call is the untyped one, and its callback gets what came of it",
  """Every typed call of a client is passed on once, for the operation of its type and with the content, timeout and registration given, and its caller learns the result the service gave.
  A callback runs once per message, on the executor, with the content of that message or with its error, and content is only read as what the message says it is; a call whose callback is
  missing or has no executor is refused and says so. Clients that share a service differ in their executor only.""",
  ["inputs", "schedules"], "every typed operation, for every kind of contract and both kinds of transport, every kind of message and every outcome of the call and of the executor",
  "no test that runs uses the typed client; an error, a timeout, an empty or unreadable answer or a refusing executor needs a faulty peer at the right moment",
  [("BasicProxy", "include/maf/messaging/client-server/BasicProxy.h:190"), ("ResponseT", "include/maf/messaging/client-server/ResponseT.h:12"),
   ("ParamTrait (inter-process)", "include/maf/messaging/client-server/ipc/local/ParamTrait.h:19"), ("ParamTrait (inter-thread)", "include/maf/messaging/client-server/itc/ParamTrait.h:14"),
   ("ServiceStatusObserverDelegater", "include/maf/messaging/client-server/ServiceStatusObserverDelegater.h:11")])

P("S01", "A service answers each pending request at most once, to the client that asked",
  """A request reaches the handler registered for its operation, once, and is kept as pending before; without a handler the client is told so. An answer is sent, to the
  client that asked and with the content given, only while its request is pending, found by operation, request id and client; a final answer or an abort ends that
  request, and no other, in one step. Whoever aborts, or a service that goes down, ends the request first and then runs its abort callback, once, whenever it was set.""",
  ["schedules", "histories", "inputs"], "every incoming message, every set of pending requests, answers racing aborts, and teardown",
  "an abort between two answers, a callback set while the request is aborted, or two clients using the same request id are not sampled",
  [("onActionRequest / respondToRequest / onRequestAborted", CSD + "ServiceProvider.cpp:68"), ("reply / onAborted / invalidate", CSD + "Request.cpp:38")])

P("S02", "A changed status is announced to every registered client and listener, once",
  """Setting a status stores it and announces it if and only if it differs from the one stored. What is announced reaches every listener and every client registered for exactly that
  operation, carrying service, operation, kind and status; a busy client is tried again, the registrations of one that cannot be reached are dropped, and the status returned says success only
  if someone was reached or nobody had to be. A client's registration is stored before the current status is read and sent to it, and only the registrations it names are taken back.""",
  ["inputs", "histories", "fault_sequences"], "every status, every set of registered clients and listeners, and every outcome of every send",
  "several clients of which some are busy or gone, or a client that registers while a status changes, are combinations the tests do not build",
  [("setStatus / removeProperty / broadcastToClients", CSD + "ServiceProvider.cpp:85"), ("saveRegisterInfo / removeRegisterInfo / updateLatestStatus", CSD + "ServiceProvider.cpp:333")])

P("S03", "Each id has one service, requester or connection, and messages reach it",
  """A server has one service object per service id, a client one requester per service id, and a factory one connection per kind and address: it is created, for that id, in the step that
  finds it missing, and what is handed out is what is kept. A connection is kept only if it could be set up, and is started before it is handed out; a new requester learns the status its service has.
  An incoming message is passed, unchanged, unlocked and once, to exactly the service or requester it names, and a message nobody is there for is reported as not handled.""",
  ["schedules", "inputs", "fault_sequences"], "every id, every set of existing objects, and creation from several threads at once",
  "two threads asking for the same id at once, or a connection that fails to set up, are not forced by the tests",
  [("getServiceProvider / onIncomingMessage", CSD + "ServerBase.cpp:11"), ("getServiceRequester / onIncomingMessage", CSD + "ClientBase.cpp:97"), ("getServer", CSD + "ServerFactory.cpp:38"), ("getClient", CSD + "ClientFactory.cpp:38")])

P("M08", "A timer expires when due, once per period, unless it was stopped",
  """A running timer is in the list of its thread exactly once, a stopped one is not; starting, restarting or stopping one timer never loses another. Only a running timer that is due and has the earliest
  deadline of the list expires, judged again after every wait: its own callback, the last one given, is run once; a single-shot timer has ended by then, a cyclic one has its next deadline. A timer that is
  started is due after its duration, and whatever starts one makes the thread it belongs to look at its timers; that thread waits for the earliest deadline and stops only when no timer is left.""",
  ["histories", "schedules"], "every sequence of starts, restarts, stops and expiries of any number of timers, also from within callbacks",
  "a timer started or stopped while the thread waits for another one, or by its own callback, is a history the tests do not build",
  [("start / stop / restart / checkAllTimers", "src/common/maf/messaging/Timer.cpp:175"), ("expiry and the heap of deadlines", "src/common/maf/messaging/Timer.cpp:233")])

P("E01", "Reading serialized data never takes in what is not there",
  """A value is reported as read exactly if all its parts were read, whatever the bytes are; nothing that could not be read becomes part of it, and a container or text has then exactly the number of
  elements announced, with room made only for what comes. A byte stream never reads past its end, and once failed it stays failed. A failed read is reported to whoever asked, and reading a message's content
  leaves that content where it can be read again.""",
  ["inputs"], "every sequence of bytes, cut off or altered anywhere, for every serializable type",
  "the tests read back what they wrote; data cut off or corrupted at every possible place are inputs no test enumerates",
  [("deserialize", "include/maf/utils/serialization/Serializer.h:120"), ("IByteStream", "include/maf/utils/serialization/IByteStream.h:30"), ("translate", "include/maf/messaging/client-server/ipc/local/ParamTrait.h:20")])

P("E02", "What is written is what is read, part by part",
  """For every kind of type the parts written - their order, widths, places and number - are the parts that reading it back expects, and the size announced for a value is the size of those parts. What is
  written goes after what was written before, completely. An inter-process message is read back with the service, operation, kind, request, source and payload it was written with.""",
  ["inputs"], "every value of every serializable type, alone or nested in others, and every message",
  "the tests write and read a few values of a few types; a mismatch for an empty pointer, a nested container or a certain payload shows only for such values",
  [("serialize / deserialize / serializedSize", "include/maf/utils/serialization/Serializer.h:100"), ("LocalIPCMessage toBytes / fromBytes", "src/common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp:36")])

P("I01", "A receiving process takes in complete messages, and stops",
  """Whatever connecting processes send, and however the system cuts it up, only complete messages are passed on, each once and with exactly its bytes; bytes are only read into room made for them, and room is
  only made for bytes that come. A receiver runs only after it could be set up on its address, looks whether it was stopped before it goes on, is woken when it waits, and does not come back once stopped.
  Every connection is closed exactly once, and one that was read from is not read from again.""",
  ["schedules", "faults", "inputs"], "every length announced, every split of the bytes, every failure of a system call at every place, and stopping at every moment",
  "the tests exchange a few small messages between two ends that behave; short reads, refused calls and a stop between two steps do not occur in them",
  [("LocalIPCBufferReceiverImpl", "src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp:109"), ("AutoCloseFD", "src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h:23")])

P("I02", "Sending reports success only for messages written completely",
  """A message sent to another process is its length followed by its bytes, each once and in order, and sending reports success only if all of them were written; a receiver that is gone is reported and does not
  end this process. An address is used whole or not at all, and is that of the receiver meant. A receiver counts as available exactly if it could be connected to, and every connection made is closed.""",
  ["faults", "inputs"], "every payload and address, every split of the bytes written, and every failure of a system call at every place",
  "the tests send to receivers that take everything; partial writes, a receiver that dies meanwhile and addresses at the limit do not occur in them",
  [("LocalIPCBufferSenderImpl", "src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp:56"), ("connectToSocket", "src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h:75")])

P("S04", "Every client that asked learns which services are available",
  """A service that starts or stops is stored as such and then announced, once, by its server to every client registered with it; a server that goes down announces the end
  of each of its services first. A client that registers is kept before it is told every service that is available, so no change is missed, and is taken off only when it
  leaves or cannot be reached. A client keeps watching its server, reports exactly the changes, registers with a server that comes up until that succeeds, and takes over
  just the status it is told of the service named.""",
  ["schedules", "histories"], "every path of every hop an announcement takes, with each send succeeding or failing",
  "the tests for this need two processes and are not among those that run; a change between a client's registration and its first look, or a failing send, is not sampled",
  [("startServing / stopServing", "src/common/maf/messaging/client-server/ServiceProvider.cpp:225"), ("ServerBase", "src/common/maf/messaging/client-server/ServerBase.cpp:33"),
   ("LocalIPCServer", "src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp:60"), ("LocalIPCClient", "src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp:112"),
   ("ClientBase", "src/common/maf/messaging/client-server/ClientBase.cpp:52")])

P("S05", "A typed service call is the untyped one, and no request is left unanswered",
  """Every typed call of a service is passed on once, for the operation of its type and with the content given, and its caller learns the result. A handler runs once per request, on the
  executor, with that request and its own input, and one that is empty or has no executor is refused; an input or a notification is only handed on as what the message says it is. A request
  that is dropped or replaced while it is pending is answered with an error, once, and one that is not is not answered again.""",
  ["inputs", "schedules", "histories"], "every typed operation of a service and of a request, for every kind of contract and both kinds of transport, and every kind of message",
  "no test that runs uses the typed service; a handler that forgets to answer, a request assigned over another, or an error sent in place of an input is not sampled",
  [("BasicStub", "include/maf/messaging/client-server/BasicStub.h:120"), ("RequestT", "include/maf/messaging/client-server/RequestT.h:14"),
   ("ParamTrait (inter-process)", "include/maf/messaging/client-server/ipc/local/ParamTrait.h:19")])

P("I03", "Inter-process servers and clients can be dropped at any time",
  """Work queued or timed for an inter-process server or client neither keeps it nor points to it, and does nothing once it is gone. Its threads have ended, after
  its receiver was told to stop, before anything of it is destroyed. Each buffer received while it exists is read once; what is well-formed is delivered once, as it came, and
  what is not is dropped.""",
  ["schedules", "inputs"], "every path of starting, stopping, destroying and receiving, with the owner dropping the connection at any time",
  "dropping a connection between a buffer's arrival and its delivery, or while the timer is due, is a schedule; malformed buffers are not sent by the tests that run",
  [("LocalIPCServer", "src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp:25"), ("LocalIPCClient", "src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp:72")])

P("U01", "A signal calls each connected slot once, whatever the slots do",
  """While a signal notifies, each slot that stays connected is called exactly once with the values given, and one that is disconnected before its turn is not. A slot may connect, disconnect
  itself, others or all, throw, or destroy the signal while it is called: what runs and what is still to be visited stays valid, and the signal works afterwards. Connecting and
  disconnecting, connections and counts tell the truth, and a slot connected with an object, an executor or a connection is only called while what it needs is there.""",
  ["histories", "inputs"], "every number of slots and everything a slot may do to its signal, on every path of every kind of signal",
  "the tests call slots that do little; a slot that disconnects itself and frees what it runs in, throws half-way or drops the signal is a history they do not have",
  [("MultiSlotKeeper", "include/maf/utils/SignalSlots.h:103"), ("SingleSlotKeeper", "include/maf/utils/SignalSlots.h:50"), ("BasicSignal_", "include/maf/utils/SignalSlots.h:326"),
   ("Connection", "include/maf/utils/SignalSlots.h:202")])

P("U02", "An observable announces every change of its state, and only changes",
  """Whatever writes the state of an observable - a new value, an arithmetic operator, a reference that ends, a source it is joined with - announces the new state once, after it is stored, and
  only if it differs; what is written silently announces nothing. A new connection is told the current state once unless it is silent. A joined state follows each source in its own part for
  as long as it lives, and an observable may be destroyed by what it tells.""",
  ["histories", "inputs"], "every way to write a state of any type, every order of writes and connections and every kind of observable",
  "the tests write one number through two ways; the values, parts, ways of writing and slots that break the order or the count are others",
  [("StateBasedSlotKeeper", "include/maf/utils/Observable.h:9"), ("ObservableBasic_", "include/maf/utils/Observable.h:105"), ("BasicCompoundObservable_", "include/maf/utils/Observable.h:437")])

P("U03", "Identifiers compare as the values they are",
  """Addresses, registration ids and the parameters generated from a contract are equal exactly if all their parts are, and ordered so that a map never takes two different ones for one nor loses
  one. An identifier is usable exactly if it was given, a copy is the same as what it was made from, and a registration id that was moved away is usable no more. An id that was handed out is
  never handed out again and is never the invalid one.""",
  ["inputs"], "every pair and triple of values of every part, and every schedule of allocations",
  "the tests never compare two addresses that differ in both parts the opposite way, which is what breaks an order; maps keyed by them then lose services at random",
  [("Address", "src/common/maf/messaging/client-server/Address.cpp:10"), ("RegID", "include/maf/messaging/client-server/RegID.h:9"), ("IDManager", "include/maf/utils/IDManager.h:42"),
   ("generated parameters", "include/maf/utils/serialization/Internal/SerializableObjectImpl.mc.h:6")])
P("C06", "A message says what it was given, and its copies are equal to it",
  """A message, its payload and an error say what they were made with or given last, and giving one thing changes nothing else. A copy or clone is an object of its own, of the same kind and
  with the same content. Two payloads are equal exactly if they are of one kind and what they hold is equal, so each is equal to itself, and the content of another is read only once it is known
  to be of the same kind.""",
  ["inputs"], "every kind of payload, every content and absence of content, every way to make, copy, move and set",
  "the tests compare no payloads and copy no errors; whether a status change is announced depends on this equality",
  [("CSMessage", "include/maf/messaging/client-server/CSMessage.h:15"), ("CSError", "src/common/maf/messaging/client-server/CSError.cpp:13"), ("Payload", "include/maf/messaging/client-server/itc/Payload.h:14"),
   ("OutgoingPayloadT", "include/maf/messaging/client-server/ipc/local/OutgoingPayload.h:22"), ("IncomingPayload", "include/maf/messaging/client-server/ipc/local/IncomingPayload.h:14")])

# ---- properties this technique does not decide
P("L01", "What one thread submits or sets is seen in that order everywhere",
  """Jobs, messages, property updates and announcements made by one thread are seen by every receiver in the order they were made, also when other threads make their own at the same time.
  The last value a cache holds is the last one that was set.""",
  ["schedules", "histories"], "every interleaving of any number of producers with the threads that pass things on",
  "tests have one producer",
  [("setStatus", "src/common/maf/messaging/client-server/ServiceProvider.cpp:1")],
  na="""a linearizability statement over whole histories: it relates the order of effects in different critical sections of different threads, which no rule over the paths of one
  thread bounds (known counterexamples in DESIGN.md: two concurrent setStatus calls may be broadcast in the reverse order). The per-thread part, one hand-over per event and no gap
  between lookup and use, is decided by T01, M02, C03 and S03.""")
P("L02", "Timers and timed waits end within a bounded time of their deadline",
  """A timer's callback, a timed wait and a synchronous request's time-out happen no earlier than asked and within a bounded delay after it.""",
  ["schedules"], "every load of the machine and every clock", "tests sleep and compare with generous tolerances",
  [("TimerMgr", "src/common/maf/messaging/Timer.cpp:100")],
  na="""the delay is a runtime quantity of the scheduler and of user callbacks that no static argument over these sources bounds; what is decidable, that a callback is called only after the
  clock was seen past its deadline and that a wait never sleeps past the next one, is decided by M03.""")
P("L03", "Every value that is sent arrives equal",
  """For every type the library can serialise and every value of it, reading back what was written yields an equal value.""",
  ["inputs"], "all values of all supported types, nested to any depth", "tests try a handful of values",
  [("Serializer", "include/maf/utils/serialization/Serializer.h:1")],
  na="""equality of values quantifies over runtime contents (floating point, user-written equality, container orders) which a static analysis cannot evaluate; the structural part, that
  reader and writer agree on the sequence, widths and number of the pieces for every type and that each piece is stored where it was read for, is decided by E01, and the bounds by E02.""")
P("L04", "Memory stays bounded by what is registered and pending",
  """A long-running client or service that registers and unregisters, asks and is answered, does not grow without bound.""",
  ["histories"], "every infinite history of operations", "tests run for a second",
  [("ServiceRequester", "src/common/maf/messaging/client-server/ServiceRequester.cpp:1")],
  na="""a bound over unbounded histories of container sizes; the code gives no static bound for queues filled by peers. The clean-up steps such a bound would need (every entry is removed when
  its event has happened) are decided one by one by C01, C02, S01, S02 and M06.""")
P("L05", "Every request to a live service is answered in the end",
  """If the service stays up and its handler responds, the requester's callback or wait is reached eventually, whatever other traffic there is.""",
  ["schedules"], "every fair schedule of both processes", "tests have no competing traffic",
  [("ServiceProvider", "src/common/maf/messaging/client-server/ServiceProvider.cpp:1")],
  na="""liveness under fairness over two processes and their sockets, with user handlers in between: not a statement about paths of this source. The safety part, no path drops a request, a reply or a
  wake-up, is decided by T02, C01, S01, S02, I01, I02 and I03.""")
