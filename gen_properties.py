#!/usr/bin/env python3
# Writes properties.jsonl (kept as a generator so that the long texts stay reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
p("C01","Every call completes exactly once, with its own result",
 "Every call issued on an initialised instance (synchronous, promise or callback) is completed exactly once, at the latest when its instance is shut down, and a successful completion carries exactly the value produced by running the named function of the target channel on that call's own arguments. This holds whatever the interleaving of concurrent callers, callees and background threads, however many calls are outstanding at once, and whatever the function names are.",
 ["schedules","histories"],"all interleavings of 1-3 calls between two or three instances and their background threads up to a deviation bound; all short call histories over function names that could be confused with each other",
 "the tests issue one call at a time from one thread and look at one schedule; mix-ups need two calls outstanding or an unusual interleaving",
 ["src/veigar.cpp","src/sender.cpp","src/resp_dispatcher.cpp","src/call_dispatcher.cpp","include/veigar/veigar.inl"],
 [("call id generation","src/veigar.cpp getNextCallId"),("ongoing-call table","src/resp_dispatcher.cpp"),("one promise/callback per call","include/veigar/veigar.inl")],
 [("ongoing calls","call id -> who waits for the result","src/resp_dispatcher.h")],["CallResult of syncCall","future of asyncCall","callback invocations"])
p("C02","A function runs at most once per call, and only the one that was named",
 "For each call the bound function of the target runs at most once, with exactly the arguments sent, and exactly once if the call is reported successful; no other function and no other channel's function runs. A call to a channel that does not exist runs nothing anywhere.",
 ["schedules","histories"],"all interleavings up to the deviation bound of concurrent calls to several functions on several channels, with retries, timeouts and refusals",
 "duplicate or misdirected execution needs two workers racing on one message, or a particular timeout; tests never count invocations",
 ["src/call_dispatcher.cpp","src/sender.cpp","src/message_queue.cpp"],
 [("pop under the inter-process lock","src/call_dispatcher.cpp dispatchThreadProc"),("target queue selection by channel name","src/sender.cpp")],
 [],["invocation counters in the bound functions"])
p("C03","Synchronous calls always return within their timeout",
 "A synchronous call returns no later than its timeout plus the time allowed for acquiring the inter-process lock, whether the target is absent, busy, blocked, not reading, shut down during the call, or its queue is full; the result is then a non-success with a message. A call issued with a large timeout is not cut short, and failures to send an asynchronous call are reported within the same bound.",
 ["schedules","fault_sequences","inputs"],"every target condition in the list crossed with every interleaving up to the bound, under virtual time; timeout values at unit and overflow boundaries",
 "the tests only time a call to a channel that never existed; a hang needs a target that stops answering and would take real time to observe",
 ["include/veigar/veigar.inl","src/veigar.cpp","src/sender.cpp"],
 [("wait on the future","include/veigar/veigar.inl syncCall"),("deadline while waiting for queue space","src/sender.cpp checkSpaceAndWait")],
 [],["virtual time at which syncCall returns","CallResult::errCode"])
p("C04","Arguments and results arrive unchanged",
 "Every supported argument and result type (integers of all widths, wide characters, booleans, floating point, strings, byte vectors, sequences, sets, maps, optionals, string views, user-defined structs, and nestings of them) reaches the function with the value that was passed and comes back with the value that was returned, for every value, number of arguments and message size that fits the queue.",
 ["inputs","programs"],"for every supported type all values of a boundary alphabet, all arities 0-5, and every message size from 1 byte to the queue's capacity, also back to back through the same worker",
 "the type tests pass one ordinary value per type; width boundaries, embedded zeros, empty containers and messages that cross buffer sizes are never sent",
 ["include/veigar/veigar.inl","include/veigar/call_dispatcher.inl","include/veigar/detail/call.h","include/veigar/detail/response.h","src/response.cpp","src/call_dispatcher.cpp","src/resp_dispatcher.cpp","include/veigar/msgpack"],
 [("msgpack packing of call and response tuples","include/veigar/veigar.inl, src/response.cpp"),("buffer growth when a message exceeds the expected size","src/call_dispatcher.cpp, src/resp_dispatcher.cpp")],
 [],["arguments seen by the bound function","CallResult::obj"])
p("C05","Failures come back as error values and harm nothing else",
 "Calling an unknown or unbound function, passing the wrong number or types of arguments, or calling a function that throws anything completes the call with a non-success result and a non-empty message, without running the function on arguments that were not sent. No exception escapes a call, and both instances keep serving later calls correctly.",
 ["inputs","histories"],"all sequences up to length 3 over {good call, unknown name, unbound name, too few/many arguments, each wrong type, throws std::exception, throws non-exception, returns unconvertible} in all three call styles",
 "no test exercises a failing function or a mismatched argument list at all",
 ["src/call_dispatcher.cpp","include/veigar/call_dispatcher.inl","src/resp_dispatcher.cpp","include/veigar/detail/response.h"],
 [("catch blocks around the bound function","src/call_dispatcher.cpp dispatchCall"),("argument conversion","include/veigar/call_dispatcher.inl"),("error object turned into errorMessage","src/resp_dispatcher.cpp")],
 [],["CallResult","invocation counters"])
p("C06","The message queue is a lossless byte-exact FIFO",
 "For every sequence of pushes and pops on a message queue, through any of the handles that have it open, the messages popped are exactly the messages pushed, byte for byte, in push order, none lost, repeated or altered. Popping into a buffer that is too small changes nothing and reports the size needed; popping an empty queue changes nothing.",
 ["histories","configurations"],"all reachable queue states under every operation sequence over small queues (all capacities and sizes up to a bound), explored to a fixpoint against a list model",
 "tests use equal-sized 12-byte messages and two or three operations; defects live in the wrap/compaction arithmetic for mixed sizes",
 ["src/message_queue.cpp"],
 [("size table and front-free offset","src/message_queue.cpp pushBack/popFront"),("compaction when the tail is short","src/message_queue.cpp pushBack")],
 [("shared header","message count, front free bytes, message sizes","shared memory of the queue")],["popFront output","msgNumber"])
p("C07","Queue limits are exact and a refused push changes nothing",
 "A queue created for N messages of expected size S accepts a message exactly when fewer than N messages are held and the bytes held plus the message do not exceed N*S, whatever was pushed and popped before; it predicts this answer correctly and tells whether waiting could help. A refused push leaves the queue unchanged, and no operation ever reads or writes outside the queue's shared memory, for any N and S including very large ones.",
 ["histories","inputs","configurations"],"all reachable states of small queues crossed with all message sizes around the limits; boundary values of N and S",
 "tests check one refusal on one geometry; an off-by-one or an overflow needs a particular fill level or size",
 ["src/message_queue.cpp","src/shared_memory.cpp"],
 [("free-space computation","src/message_queue.cpp pushBack, checkSpaceSufficient"),("shared memory sizing","src/message_queue.cpp create/open")],
 [],["return values of pushBack/checkSpaceSufficient","every memory access"])
p("C08","The inter-process lock excludes and its timed acquisition is exact",
 "At most one holder at a time exists for a queue's lock across all threads, handles and processes, so queue contents are never touched concurrently. A timed acquisition succeeds whenever the lock becomes free within the timeout and gives up only after the full timeout has elapsed, at every phase of the clock and even if signals interrupt the wait.",
 ["schedules","inputs","fault_sequences"],"all interleavings of 2-3 lock users up to the bound; every millisecond phase of the clock second crossed with timeouts; interruption at every blocking point",
 "whether it fails depends on when within a second the attempt is made (the suite is aligned to hide exactly that) and on schedules tests do not control",
 ["src/semaphore.cpp","src/message_queue.cpp","src/sender.cpp","src/call_dispatcher.cpp","src/resp_dispatcher.cpp"],
 [("named semaphore used as lock","src/message_queue.cpp"),("absolute deadline computation","src/semaphore.cpp wait(ms)")],
 [],["Semaphore::wait result and elapsed virtual time","happens-before over shared memory accesses"])
p("C09","A delivered message is always picked up",
 "Once a message is in the queue of a live instance that has an idle worker, it is processed without needing any further traffic: no interleaving, lock contention, lock timeout or spurious wake-up leaves a call or response stranded. Likewise a call handed to the library is always picked up by its sending side.",
 ["schedules","fault_sequences"],"all interleavings up to the bound including lock timeouts, spurious and early wake-ups, with every thread otherwise idle afterwards",
 "a lost wake-up needs a precise interleaving or contention for longer than the lock timeout; in tests later traffic or luck hides it",
 ["src/sender.cpp","src/event.cpp","src/call_dispatcher.cpp","src/resp_dispatcher.cpp","src/semaphore.cpp"],
 [("read semaphore posted after each push","src/message_queue.cpp notifyRead"),("event set after each enqueue","src/sender.cpp addCall/addResp"),("unset before drain","src/sender.cpp")],
 [],["completion of every issued call at quiescence"])
p("C10","A full queue delays callers but never blocks the consumer",
 "When the target's queue is full, a call waits and is delivered as soon as enough room appears within its timeout, and otherwise fails with a timeout; while it waits, the consumer can keep consuming and other callers can keep sending. A message that can never fit fails promptly with an error and leaves the queue and later calls unaffected.",
 ["schedules","histories","inputs"],"all interleavings up to the bound of producers against a slow or stopped consumer on queues of capacity 1-2; message sizes around the capacity",
 "no test ever fills the queue of a running instance",
 ["src/sender.cpp","src/message_queue.cpp"],
 [("wait for space with deadline","src/sender.cpp checkSpaceAndWait"),("space check","src/message_queue.cpp checkSpaceSufficient")],
 [],["CallResult and virtual time of each call","progress of the consumer"])
p("C11","Instances follow one lifecycle model",
 "For every sequence of init, uninit, bind, unbind and queries, the answers agree with a simple model: init succeeds exactly when the instance is not initialised and the name is usable, repeating it with the same name is accepted and with another name refused without effect, uninit returns the instance to the initial state so it can be initialised again under any name, and settings read back as given. An instance works after each such sequence exactly as a fresh one.",
 ["histories","configurations"],"all operation sequences up to depth 5 over two instances and two names, each followed by a probe call",
 "the single lifecycle test runs one sequence; re-init, failed init and empty names are not covered",
 ["src/veigar.cpp","src/call_dispatcher.cpp","src/resp_dispatcher.cpp","src/sender.cpp","include/veigar/veigar.h"],
 [("init/uninit","src/veigar.cpp Impl"),("registry cleared on uninit","src/call_dispatcher.cpp")],
 [],["return values of the public API"])
p("C12","Shutting down is safe at any moment",
 "An instance can be shut down at any moment, with calls arriving from other instances, functions running, responses on their way and its own calls outstanding: the shutdown returns, nothing crashes or touches released memory, and every outstanding call of the instance completes with a failure or its result. After shutdown returns no callback and no bound function of the instance runs any more.",
 ["schedules"],"all interleavings up to the bound of uninit against every phase of an incoming and an outgoing call, with idle and busy workers",
 "tests always shut down idle instances",
 ["src/veigar.cpp","src/sender.cpp","src/call_dispatcher.cpp","src/resp_dispatcher.cpp"],
 [("stop flags, wake-ups and joins","uninit of each component"),("shutdown order","src/veigar.cpp uninit")],
 [],["completion of uninit and of all calls","memory accesses"])
p("C13","Shutting down releases everything",
 "After an instance is shut down and destroyed, it has left no thread, file descriptor, memory mapping, named shared memory, named semaphore or heap memory behind, whatever calls it made, received or had pending, and whatever other instances it talked to.",
 ["histories","schedules"],"all histories up to the bound of calls made/received/pending/failed before shutdown, and interleavings of shutdown with them; all kernel objects and heap blocks accounted for",
 "tests never count resources; the test driver removes the leftovers of the tests itself",
 ["src/veigar.cpp","src/sender.cpp","src/message_queue.cpp","src/shared_memory.cpp","src/semaphore.cpp","src/call_dispatcher.cpp","src/resp_dispatcher.cpp"],
 [("close/uninit paths","all components")],
 [],["kernel object tables and heap of the virtual kernel"])
p("C14","No message content can crash or corrupt a receiver",
 "Whatever bytes another process puts into an instance's call or response queue - truncated, malformed, wrongly typed, unknown ids, duplicated or unsolicited responses - the instance neither crashes nor hangs, nor runs a function with made-up arguments, nor completes a call with a made-up result, and calls and responses that follow are handled correctly.",
 ["inputs","histories"],"all byte strings up to a length over the format's tag bytes, all truncations, type substitutions and duplications of valid messages, in all orders with valid traffic before and after",
 "tests only ever exchange well-formed messages",
 ["src/call_dispatcher.cpp","src/resp_dispatcher.cpp","include/veigar/msgpack"],
 [("exception handling around parsing","dispatchThreadProc, dispatchRespThreadProc"),("lookup of the ongoing call","src/resp_dispatcher.cpp")],
 [],["liveness and result of a following valid call","process state"])
p("C15","Concurrent use is free of data races and memory errors",
 "When any number of threads use the same instance at the same time - issuing calls of every style, releasing calls, binding and unbinding functions, reading names and settings - while it serves incoming calls, no two conflicting accesses to the same memory are unordered and no released memory is accessed.",
 ["schedules"],"all interleavings up to the bound of pairs and triples of public operations with background traffic; happens-before checked on every memory access of every execution",
 "tests are essentially single-threaded towards one instance and do not observe races",
 ["src/veigar.cpp","src/sender.cpp","src/call_dispatcher.cpp","src/resp_dispatcher.cpp","src/event.cpp","include/veigar/call_dispatcher.h","include/veigar/call_dispatcher.inl"],
 [("mutexes and atomics of each component","src/")],
 [],["every instrumented memory access"])
p("C16","The death of a peer does not take survivors down",
 "If a process that shares queues with an instance dies at any instant, the surviving instances never crash, hang or deliver a wrong result: their calls to the dead peer end within the timeout, their shutdown completes, and calls among survivors that do not need a lock the dead process held keep working.",
 ["crash_points","schedules"],"the peer killed at every scheduling point and every shared-memory write of a call in either direction, crossed with interleavings up to the bound",
 "the two tests about killing a process cannot run on this platform, and would hit one instant only",
 ["src/sender.cpp","src/message_queue.cpp","src/call_dispatcher.cpp","src/resp_dispatcher.cpp","include/veigar/veigar.inl"],
 [("timed lock acquisition","processRWLock users"),("call timeout","include/veigar/veigar.inl")],
 [],["results and timing of survivors' calls"])
p("C17","Contact with an instance that is just starting is all or nothing",
 "A call issued while the target channel is being created either fails cleanly or is served; it never disturbs the target's start-up, and once the target's initialisation has returned, calls to it are served and its lock and queues work, whatever the other instances did meanwhile.",
 ["schedules"],"all interleavings up to the bound of one instance's init with calls and queue opens by others, for fresh channels and channels with leftovers",
 "tests always start the target completely before calling it",
 ["src/message_queue.cpp","src/semaphore.cpp","src/shared_memory.cpp","src/veigar.cpp"],
 [("order of creation of shared memory and semaphores","src/message_queue.cpp create/open"),("existence test before opening","src/semaphore.cpp IsExist")],
 [],["result of the early call and of a call after init returned"])
p("C18","Callers survive a restart of their target",
 "After a target instance has been shut down and initialised again under the same channel name, calls from instances that had already talked to it reach the new incarnation and are served like calls from a fresh instance; a call made while it is down fails or times out. A result produced for a call of an earlier incarnation is never delivered as the result of a later call.",
 ["histories","schedules"],"all histories of init/uninit of the target and calls by two callers up to depth 5, and interleavings of a restart with a call",
 "no test restarts a target that already has callers",
 ["src/sender.cpp","src/message_queue.cpp","src/veigar.cpp"],
 [("cache of opened target queues","src/sender.cpp getTarget*MessageQueue")],
 [("target queue cache","channel name -> opened queue","src/sender.h")],["results of calls after the restart"])
p("C19","Instances with different queue settings interoperate",
 "Two instances initialised with different queue capacities or expected message sizes can call each other exactly as if their settings were equal: each queue keeps the limits its owner chose, and neither side corrupts, misreads or overruns the other's queue.",
 ["configurations","histories"],"all pairs of small geometries, all push/pop sequences through creator and opener up to a bound, plus calls both ways",
 "every test uses identical settings on both sides",
 ["src/message_queue.cpp","src/sender.cpp","src/shared_memory.cpp"],
 [("queue opened with the caller's own settings","src/sender.cpp getTarget*MessageQueue, src/message_queue.cpp open")],
 [],["results of calls and queue contents"])
p("C20","Finished and released calls leave no trace",
 "A call that has completed or been released keeps no memory in the instance, so any number of calls runs in bounded memory; a response that arrives after its call was released or timed out is discarded without effect, and releasing a call twice, early, or with an unknown id is harmless.",
 ["histories","schedules"],"all sequences up to a bound of calls of every style with release before, during and after completion; interleavings of release with the arriving response; heap compared before and after",
 "tests do not measure retained state and never race a release with a response",
 ["src/resp_dispatcher.cpp","src/sender.cpp","include/veigar/veigar.inl"],
 [("release of ongoing calls","src/resp_dispatcher.cpp releaseCall")],
 [],["live heap blocks at quiescence","late callbacks"])
p("C21","The function registry behaves like a map, also while serving",
 "Binding succeeds exactly for a non-empty name that is not bound, unbinding removes the name, and the list of names is exactly the set bound; a call that starts after bind returned and before unbind is invoked runs the function bound at that time, and a call that starts after unbind returned gets an error. This holds when binding and unbinding happen while calls are being served.",
 ["histories","schedules"],"all bind/unbind/list/call sequences up to depth 5 against a map model; interleavings up to the bound with calls in progress",
 "the bind test does not call the functions and never rebinds while serving",
 ["include/veigar/call_dispatcher.h","include/veigar/call_dispatcher.inl","src/call_dispatcher.cpp","src/veigar.cpp"],
 [("function table","include/veigar/call_dispatcher.h funcs_")],
 [],["return values of bind, bindNames and calls"])
p("C22","Operating system refusals are reported cleanly and leave no residue",
 "If the operating system refuses any shared memory, mapping, sizing or semaphore request while an instance initialises or first contacts a target, that operation reports failure, nothing stays behind, functions already bound stay usable, and the same operation succeeds once the refusal is gone.",
 ["fault_sequences"],"every single and double failure of every system request made during init, queue create/open and first call",
 "tests never inject failures",
 ["src/shared_memory.cpp","src/semaphore.cpp","src/message_queue.cpp","src/veigar.cpp","src/sender.cpp"],
 [("cleanup on the failure path","create/open/init of each component")],
 [],["return values","kernel object tables"])
p("C23","Events wake exactly the waiters they should",
 "Waiting on an event returns true as soon as it is set or cancelled, and otherwise false after no less than the requested time; a negative time waits without limit. No interleaving of set, unset, cancel, un-cancel and reset with any number of waiters loses a set that precedes the wait or is not undone.",
 ["schedules"],"all interleavings of 2-3 threads with 1-3 operations each, spurious wake-ups included, against a two-flag model",
 "events have no test of their own",
 ["src/event.cpp","src/event.h"],
 [("condition variable with predicate","src/event.cpp wait")],
 [],["return value and virtual time of wait"])
p("C24","Named semaphores and shared memory behave as documented",
 "A named semaphore counts: every successful wait takes exactly one release or initial unit, opening an existing one keeps its count, and asking whether one exists reports the truth without creating anything. A shared memory segment is visible through every handle that opened it, opening fails when it does not exist, its creator removes the name on close while openers do not, handles can be reused, and using a closed handle is harmless.",
 ["histories"],"all operation sequences up to a bound on three handles and two names against a reference model, executed on the real kernel and on the model kernel",
 "tests run a handful of fixed sequences; the existence query and reuse of handles are not tested",
 ["src/semaphore.cpp","src/shared_memory.cpp"],
 [("sem_open/shm_open flags","src/semaphore.cpp, src/shared_memory.cpp")],
 [],["return values, contents, names in the namespace"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
