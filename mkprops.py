#!/usr/bin/env python3
# writes properties.jsonl (the source of its text)
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(observe), "hook_needed": None}})
MQ = "src/message_queue.cpp"; SM = "src/semaphore.cpp"; SH = "src/shared_memory.cpp"; SE = "src/sender.cpp"; RD = "src/resp_dispatcher.cpp"; CD = "src/call_dispatcher.cpp"; VE = "src/veigar.cpp"; VI = "include/veigar/veigar.inl"
p("C01", "A queue delivers every message once, in order and byte for byte",
  "A message accepted by a queue is handed out exactly once, in acceptance order, with the length and bytes it was given, whatever messages were accepted or taken before it and through whichever handle. A pop with a buffer that is too small, or a refused push, reports that and changes nothing. The reported message count is always the number of accepted messages not yet taken.",
  ["inputs", "histories"], "all queue geometries, message sizes and contents and all interleavings of push/pop of bounded length, through one or two handles on the same queue",
  "The unit tests push three fixed strings through one geometry; wrap-around, compaction of a partly consumed queue, exact-fit and too-small buffers depend on the size arithmetic for all geometries and histories.",
  [MQ, "src/message_queue.h"], [("append with compaction", MQ + " pushBack"), ("take the first message and advance the free front", MQ + " popFront"), ("count", MQ + " msgNumber")],
  [("message count, front free space, size table", "layout of the queued messages", "shared memory header, " + MQ)], ["pushBack", "popFront", "msgNumber"])
p("C02", "Queue operations stay inside their own shared memory for every geometry",
  "For every capacity and expected message size, creating a queue either fails or yields room for capacity times expected size bytes, and every later operation touches only the memory of that queue and the caller's buffers. Capacities, sizes or messages that make no sense are refused without effect.",
  ["inputs", "configurations"], "all 32-bit geometries, message and buffer sizes (up to the mapping limit of the model)",
  "Tests use three small geometries; overflow and table-size mistakes appear only for particular products of two 32-bit values.",
  [MQ, SH], [("size arithmetic", MQ + " create/open/pushBack/popFront/checkSpaceSufficient"), ("mapping size", SH + " create/open")], [], ["create", "open", "pushBack", "popFront"])
p("C03", "A queue accepts a message exactly when it has room, and room is never lost",
  "A push succeeds exactly when fewer than the capacity of messages are queued and the queued bytes plus the new message fit into capacity times expected size; the advance space check gives the same answer, and says waiting can help exactly when the message could fit an empty queue. Taking messages gives back all their room, for any history, so an emptied queue again takes a message of the full size.",
  ["inputs", "histories"], "all geometries and message sizes, all bounded histories of pushes and pops",
  "Lost space only shows after particular sequences of differently sized messages; the tests never fill a queue and continue to use it.",
  [MQ], [("space check", MQ + " checkSpaceSufficient"), ("admission", MQ + " pushBack"), ("front space", MQ + " popFront")], [], ["checkSpaceSufficient", "pushBack"])
p("C04", "Timed waits honour their timeout at every moment of the clock",
  "A timed wait on the inter-process primitives returns success exactly when it obtained a token, and otherwise gives up no earlier than the requested time and without error, whatever the wall-clock second fraction at which it starts. A negative timeout waits until a token arrives.",
  ["inputs", "schedules"], "all clock readings (seconds and nanoseconds), all timeouts, token available before, during or never",
  "The failing fraction of a second is hit only with a probability of timeout/1s per wait; tests cannot choose the clock.",
  [SM, MQ], [("deadline computation", SM + " wait(ms)")], [], ["Semaphore::wait", "MessageQueue::processRWLock", "MessageQueue::waitForRead"])
p("C05", "The inter-process queue lock excludes and is always given back",
  "At most one participant is inside a queue at a time: a participant that did not obtain the queue lock neither touches the queue nor releases the lock. Every path on which the lock was obtained releases it exactly once, so after any traffic the lock is free again with its value one.",
  ["schedules", "fault_sequences", "inputs"], "all bounded interleavings of senders and dispatchers, lock timeouts, full queues, oversized and malformed messages, failing memory allocations",
  "An unbalanced release only shows after a rare timeout or error path, and then as corruption much later.",
  [SE, CD, RD, MQ], [("lock/unlock pairing", SE + " sendCallThreadProc/sendRespThreadProc"), ("dispatch loop", CD + " dispatchThreadProc, " + RD + " dispatchRespThreadProc")], [("rw-lock semaphore", "value 1 when free", MQ)], ["value of the lock semaphore", "who is between lock and unlock"])
p("C06", "A delivered message is processed: no wake-up is lost",
  "A message placed in a queue whose owner is running is eventually taken out and processed without needing any further message to arrive, for every timing of sender and dispatcher, including dispatchers that at first fail to obtain the queue lock.",
  ["schedules", "fault_sequences"], "all bounded interleavings and lock-timeout placements of one or two senders and the dispatch threads",
  "Needs a lock timeout exactly between consuming the wake-up token and taking the message; tests never provoke a lock timeout.",
  [CD, RD, SE, SM], [("token per message", SE + " notifyRead after pushBack"), ("dispatch loop", CD + " dispatchThreadProc, " + RD + " dispatchRespThreadProc")], [("read semaphore", "one token per queued message", MQ)], ["queued messages when every thread is idle"])
p("C07", "Every call completes exactly once",
  "Every synchronous, promise or callback call completes exactly once: with the callee's result or error, or with a failure if it could not be delivered or the caller shuts down first. A result callback is never invoked twice, a future never stays unfulfilled after the caller's instance has been shut down, and nothing the completion runs can bring the process down.",
  ["schedules", "fault_sequences", "histories"], "all bounded interleavings of calls, deliveries, failures and shutdown; all failure causes (absent target, full queue, lock timeout, allocation failure, shutdown)",
  "Tests only complete calls that succeed, and shut down only when idle.",
  [VI, VE, SE, RD], [("completion", SE + " sendCallThreadProc failure branch, " + RD + " dispatchRespThreadProc"), ("outstanding table", RD + " addOngoingCall/releaseCall"), ("shutdown", VE + " uninit, " + SE + " uninit, " + RD + " uninit")], [("outstanding calls", "calls without a result yet", RD)], ["futures", "callbacks", "syncCall return"])
p("C08", "A result reaches the call it answers and no other",
  "Whatever order responses arrive in, each outstanding call receives the result and error of the response that carries its own call id, and no other; a response to an unknown, released or already completed call changes nothing.",
  ["inputs", "histories", "schedules"], "all response orders, ids and payloads for several outstanding calls",
  "Tests with several calls accept any assignment that happens; mixed-up ids need specific response orders.",
  [RD, SE, VI], [("lookup by call id", RD + " dispatchRespThreadProc"), ("registration before delivery", SE + " sendCallThreadProc")], [], ["CallResult of each call"])
p("C09", "A call runs the named function once with the given arguments",
  "A delivered call executes exactly the function bound under the called name, exactly once, with the values the caller passed in the order it passed them, and the caller obtains exactly what the function returned. A function that is not bound, has another number of parameters, takes other types or throws is reported to the caller as an error naming the cause and nothing is executed with invented values.",
  ["inputs", "programs"], "all argument values for representative signatures (integers, bool, floating point, strings, containers, none), any bound/unbound name",
  "Tests use fixed argument values and correct arities.",
  [CD, "include/veigar/call_dispatcher.inl", "include/veigar/detail/call.h", VI], [("dispatch", CD + " dispatchCall"), ("argument conversion", "include/veigar/call_dispatcher.inl bind")], [], ["observed arguments in the callee", "CallResult"])
p("C10", "Malformed calls cannot harm the callee or later calls",
  "Whatever bytes arrive in the call queue, the callee neither crashes nor touches memory it does not own, executes no function for a message that is not a well-formed call, and processes the next well-formed call as if the malformed one had never arrived.",
  ["inputs", "histories"], "all byte strings up to the bound as a message, followed by a valid call",
  "Tests never send malformed messages; the harmful ones are specific byte patterns.",
  [CD, "include/veigar/msgpack"], [("parse and dispatch loop", CD + " dispatchThreadProc, dispatch, dispatchCall"), ("msgpack decoder", "include/veigar/msgpack/v3/parse.hpp")], [], ["callee process state", "response to the next call"])
p("C11", "Malformed or unexpected responses cannot harm the caller or later calls",
  "Whatever bytes arrive in the response queue, the caller neither crashes nor touches memory it does not own, no call is completed by a message that is not a well-formed response to it, a repeated response has no effect, and the next well-formed response is processed as if the malformed one had never arrived.",
  ["inputs", "histories"], "all byte strings up to the bound as a message, followed by a valid response; duplicated and unknown responses",
  "Tests never receive malformed, duplicate or unknown responses.",
  [RD, "include/veigar/msgpack"], [("parse and completion loop", RD + " dispatchRespThreadProc")], [], ["caller process state", "CallResult of the outstanding call"])
p("C12", "Values survive the trip over the wire unchanged",
  "Every value of a supported type, encoded and decoded by the library into the same type, comes back equal: all integers of all widths, booleans, floating point numbers (a zero may lose its sign, a NaN stays a NaN), strings and byte vectors of any content and length, and containers, tuples and user-defined structures of them. Encodings never depend on anything but the value.",
  ["inputs"], "all values of the scalar types; all strings and containers up to the length bound including every encoding-size boundary",
  "Tests send a handful of values; encoding-boundary errors affect single values out of 2^64.",
  ["include/veigar/msgpack"], [("encoder", "include/veigar/msgpack/v1/pack.hpp"), ("decoder", "include/veigar/msgpack/v3/parse.hpp"), ("adaptors", "include/veigar/msgpack/v1/adaptor")], [], ["decoded value"])
p("C13", "Result conversion never invents a value and never throws",
  "Converting a received result to a type either yields the value that was sent or reports failure, and never throws, whatever was received and whatever type is asked for, including results of failed calls. Integers convert only to integer types that hold them exactly, numbers may be rounded to floating point, and values of unlike kinds are refused; only tuples and user-defined structures may be filled from an array of another length.",
  ["inputs", "programs"], "all received objects up to the bound against all target types considered",
  "Tests convert only to the right type.",
  ["include/veigar/call_result.h", "include/veigar/msgpack/v1/adaptor"], [("convertObject", "include/veigar/call_result.h"), ("range checks", "include/veigar/msgpack/v1/adaptor/int.hpp")], [], ["convertObject result and destination"])
p("C14", "The wire decoder is safe on arbitrary bytes",
  "Decoding any byte string terminates without touching memory outside the input and its own allocations, and either yields an object whose strings and containers lie within it or reports incomplete or malformed input.",
  ["inputs"], "all byte strings up to the bound, delivered whole or in two pieces",
  "Tests never decode anything the library did not encode.",
  ["include/veigar/msgpack"], [("parser", "include/veigar/msgpack/v3/parse.hpp"), ("object construction", "include/veigar/msgpack/v2/create_object_visitor.hpp"), ("zone", "include/veigar/msgpack/v1/detail/cpp11_zone.hpp")], [], ["decoder result", "memory accesses"])
p("C15", "Shared memory and queues are acquired whole or not at all",
  "Creating or opening shared memory or a queue either succeeds with a mapping of the full size or fails leaving nothing behind: no open descriptor, mapping or semaphore handle, and no new name when creation failed. Closing releases everything, removes the name only if this participant created it, can be repeated, and the object can be created or opened again.",
  ["fault_sequences", "histories", "inputs"], "all single and double failures of the underlying system calls, all bounded sequences of create/open/close",
  "Tests never make a system call fail and cannot see leaked handles.",
  [SH, MQ, SM], [("acquire/rollback", SH + " create/open"), ("rollback", MQ + " create/open"), ("close", SH + " close, " + MQ + " close")], [("handles", "descriptor, mapping, semaphores", SH + ", " + MQ)], ["handles and names left"])
p("C16", "An instance can be started, used and shut down any number of times",
  "Starting an instance either succeeds and makes it callable, or fails leaving no threads, handles or names and an instance that can be started again; starting twice under the same name is accepted and under another name refused without effect. Shutting down at any moment, including with traffic in flight, waits for all its threads, releases every handle and buffer, never blocks forever or until the timeouts of undelivered messages have passed, and the instance can be started and called again.",
  ["histories", "fault_sequences", "schedules"], "all bounded sequences of start/call/shut down, failure of any single system call, and shutdown interleaved with traffic",
  "Tests start and stop idle instances without failures and cannot see leaks or races at shutdown.",
  [VE, SE, CD, RD], [("start and rollback", VE + " init"), ("shutdown order", VE + " uninit"), ("worker shutdown", SE + " uninit, " + CD + " uninit, " + RD + " uninit")], [], ["isInit", "handles, threads, heap blocks left"])
p("C17", "After a crash a restarted instance works",
  "If a process dies at any point, another instance started under the same channel name works: its queues start empty with a free lock, and calls to it are answered. A peer that talked to the dead instance is not blocked beyond its timeouts and reaches the restarted one.",
  ["crash_points", "histories"], "all crash points of the first instance at inter-process operations",
  "Tests never kill a process.",
  [MQ, SM, SE, VE], [("re-creation", MQ + " create"), ("target queue cache", SE + " getTargetCallMessageQueue")], [("named semaphores and shared memory", "persist after the process", MQ)], ["result of a call after restart"])
p("C18", "Call ids are never reused while they matter",
  "No two calls of one instance ever carry the same call id, whatever the functions are called and however calls interleave. The random part that tells instances apart comes from the randomness of the system, so ids of a restarted or another instance differ whenever that randomness differs.",
  ["inputs", "histories", "schedules"], "all function names up to the bound, sequences of calls, restarts, all values of the random source; concurrent calls",
  "A collision needs function names ending in digits and particular counter values.",
  [VE, "src/uuid.cpp"], [("id composition", VE + " getNextCallId"), ("random part", "src/uuid.cpp")], [], ["call ids on the wire and in AsyncCallResult"])
p("C19", "Events wake every waiter and stay set until cleared",
  "Waiting on an event returns true exactly when it is set or cancelled at some moment during the wait, returns false only after the full timeout, waits without limit for a negative timeout, and never misses a set or cancel made by another thread. Clearing affects only what it names.",
  ["schedules", "inputs"], "all bounded interleavings of wait, set, cancel, unset, reset and all timeouts",
  "No test uses events directly; a lost wake-up needs a precise interleaving.",
  ["src/event.cpp", "src/event.h"], [("condition wait", "src/event.cpp wait"), ("set/cancel", "src/event.cpp set, cancel, unset, unCancel, reset")], [], ["wait result"])
p("C20", "Formatted texts are complete whatever their length",
  "Text built by the library's formatting (error messages sent to callers, ids) contains every character of its parts for any length, is never cut, and never reads or writes outside its buffers. Text inserted by a caller is never interpreted as a format.",
  ["inputs"], "all string lengths around the buffer sizes, all contents of the inserted parts up to the bound",
  "Tests only produce short texts.",
  ["src/string_helper.cpp", CD, "src/log.cpp"], [("growing buffer", "src/string_helper.cpp StringPrintfV"), ("log buffer", "src/log.cpp")], [], ["returned text", "CallResult::errorMessage"])
p("C21", "The call timeout bounds delivery and nothing else",
  "A call that cannot be delivered because the target queue stays full fails with the timeout error after its own timeout and not before, for every timeout value, and one that cannot get the queue lock fails so after the lock timeout; a call that finds room in time is delivered, and its answer is accepted however late it comes. While a sender waits for room the target can still take messages.",
  ["inputs", "schedules", "configurations"], "all 32-bit timeouts, all bounded schedules of a full queue being drained",
  "Tests never fill a queue and use small timeouts.",
  [SE, VE], [("wait for room", SE + " checkSpaceAndWait"), ("timeout unit", VE + " sendCall")], [], ["ErrorCode of the call", "time until completion"])
p("C22", "The function registry does what it says",
  "Binding succeeds exactly when the name is not empty and not yet bound, unbinding removes exactly that name, the listed names are exactly the bound ones, and a call reaches the function bound at that time. Changing the registry while calls are being dispatched is safe.",
  ["histories", "schedules", "inputs"], "all bounded sequences of bind/unbind/call with any names, and their interleavings with dispatching",
  "The test binds and unbinds two fixed names in one order with no concurrent call.",
  [CD, "include/veigar/call_dispatcher.inl", "include/veigar/call_dispatcher.h"], [("registry", "include/veigar/call_dispatcher.h funcs_"), ("bind/unbind", "include/veigar/call_dispatcher.inl, " + CD)], [("bound functions", "name to function", "include/veigar/call_dispatcher.h")], ["bind result", "bindNames", "call result"])
p("C23", "Peers configured with different queue sizes cannot corrupt each other",
  "Opening a queue with a capacity or expected size that does not match the shared memory either fails or works within the memory that exists; no such opening, push or pop reads or writes outside the mapping, and messages already queued by others stay intact.",
  ["configurations", "inputs"], "all pairs of geometries of creator and opener",
  "Tests configure both sides alike.",
  [MQ, SH, SE], [("open", MQ + " open, " + SH + " open")], [], ["open result", "queue content"])
p("C24", "Calling an absent target fails cleanly and leaves no trace",
  "A call to a channel that is not running fails with an error within its timeout, and creates no system object under that channel's name, so the target can be started later and is then reachable by the same caller. Asking whether an inter-process object exists never changes anything.",
  ["histories", "configurations"], "all bounded sequences of calls and target starts/stops, partial presence of the target's objects",
  "Tests only call absent targets when the target is never started.",
  [SM, SE, MQ], [("existence probe", SM + " IsExist"), ("target lookup", SE + " getTargetCallMessageQueue")], [], ["CallResult", "system objects"])
p("C25", "The public interface never throws",
  "No public operation of an instance lets an exception escape to its caller or ends the process, whatever arguments, bound functions and result callbacks it meets, when a system call or thread creation fails while starting, or when memory for a large message runs out. Failures are reported through the return value or the call result, and the instance keeps working.",
  ["inputs", "fault_sequences", "programs"], "exceptions of any type thrown by bound functions and callbacks, failures of single allocations of message size, failing system calls, odd arguments such as empty, very long or binary names",
  "Tests never throw from callbacks or exhaust memory.",
  [VI, VE, CD, RD, SE], [("catch blocks", VI + ", " + CD + ", " + RD + ", " + SE)], [], ["exceptions at the API", "process termination"])
p("C27", "Traffic leaves nothing behind in a running instance",
  "An instance that keeps serving calls, making calls and meeting failures of every kind needs no more memory, handles, threads or named system objects than after the first few of them: whatever a call, a failed call, a late, repeated, foreign or malformed message, or a change of the registry takes is given back, while the instance goes on running.",
  ["histories", "inputs"], "all bounded repetitions of all pairs of kinds of events",
  "Tests run briefly and never look at memory or handles.",
  [VE, SE, CD, RD, MQ], [("call results", VE + ", include/veigar/detail/resp.h"), ("unpacker zone", CD + ", " + RD + " reset_zone"), ("target queues", SE)], [], ["heap", "handles", "threads", "named objects"])
p("C26", "A call reaches the channel it names and no other",
  "A call is executed by the instance that runs under exactly the channel name given, itself included, by no other instance and never twice, and its answer returns to the caller and to nobody else, whatever other channels run, start or stop and however similar their names are. Calls to a channel that stopped fail while calls to the others go on.",
  ["inputs", "histories", "schedules"], "all pairs of short names, all bounded sequences of calls, starts and stops over three instances, bounded schedules of crossing calls",
  "Tests use one or two channels with fixed names.",
  [SE, CD, VE], [("target lookup", SE + " getTargetCallMessageQueue, getTargetRespMessageQueue"), ("self call", SE + " selfCallMQ_"), ("return address", CD + " callerChannelName")], [("cached target queues", "channel name to open queue", SE)], ["which instance executes", "CallResult"])
p("C28", "One running instance may be used from several threads at once",
  "Any public operation on a running instance, except starting anew, stopping and moving it, gives the same result as alone when other threads perform other operations on the same instance at the same time: calls of every kind complete once with their own result, changes of the registry and settings take effect, and there is no data race and no deadlock.",
  ["schedules", "programs"], "all pairs and triples of operations, bounded preemptions",
  "Tests call from several threads only with one kind of call, and a race shows only under particular schedules.",
  [VE, "include/veigar/veigar.inl", SE, RD, "include/veigar/call_dispatcher.h"], [("locks", SE + ", " + RD + ", include/veigar/call_dispatcher.h"), ("atomics", VE + " callIndex_, processRWTimeout_")], [], ["results of all public operations"])
p("C29", "Moving an instance takes everything along",
  "After an instance is moved, by construction or assignment, the new object has its state, settings and bound functions, goes on serving and making calls if it was running, and completes the calls in flight; the moved-from object is not running, has no functions, and can be destroyed or assigned to. What the destination had before is released. Moving an instance to itself changes nothing.",
  ["programs", "schedules"], "all combinations of states of source and destination, calls in flight at the moment of moving, bounded schedules",
  "No test moves an instance.",
  [VE, "include/veigar/veigar.h"], [("move construction and assignment", VE + " operator="), ("destructor", VE + " ~Veigar")], [], ["isInit", "bindNames", "CallResult"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
