# What each check explores (quick tier; thorough deepens the figures as given in spec.py) and what it leaves out.
STD = 'one thread of each kind per instance (two where the case name ends in 2)'
PRE = 'a thread may lose the processor at any inter-process semaphore, mutex or condition operation, the stated number of times per run'
B = {
'C01': ('all expected sizes up to 65536 and, with three slots, all histories of 4 operations (any slot count 1..64: 3 operations) through two handles; message sizes, buffer sizes and contents are solver variables up to 1 MiB, bytes are compared at a symbolic position', 'longer histories before the final emptying, more than 1 MiB, concurrent handles (the queue lock is C05).'),
'C02': ('all 32-bit geometries with up to 2^24 slots and 4 GiB, message sizes up to 16 GiB, one push and pop per geometry, the pop first with a buffer that is too small by any amount; all non-positive geometries; all non-positive sizes and null buffers', 'histories longer than C01 and C03 run with every access checked; 32-bit builds; Windows.'),
'C03': ('three slots and 3 operations, two slots and 4 operations, symbolic expected size up to 65536 and message sizes up to 1 MiB, then emptied and probed with the full size, the full count or any size; histories of 5 operations over four sizes', 'longer histories; more slots.'),
'C04': ('all clock readings and all 32-bit timeouts for the deadline computation of the semaphore, the queue lock and the read signal; arrival of a token before, during and after the wait; two handles on one semaphore', 'changes of the wall clock during a wait (the library waits on the wall clock by design of sem_timedwait).'),
'C05': ('two instances, two or three calls, one or two foreign holders of any of the four queue locks at 3 moments for 4 durations, all eleven error paths in pairs, calls to a queue that is full and locked at the same time, 0 to 2 preemptions; ' + STD + '; ' + PRE, 'more preemptions, more than two instances, lock holders that never give the lock back (C17, C21).'),
'C06': ('one or two senders of up to 3 messages, 1 to 2 preemptions, one stall of 50 ms at any such point, a foreign holder of the lock at several moments; both dispatchers; ' + STD + '; ' + PRE, 'more messages and preemptions; processing is awaited for a bounded virtual time.'),
'C07': ('instances that were never started or are stopped; twelve causes of failure and success for all three kinds of call and all kinds of throwing callbacks; shutdown at 5 moments of one or two calls with 1 to 2 preemptions; reentrant callbacks, also while the shutdown completes them (8 operations, 1 preemption); duplicated answers; ' + STD + '; ' + PRE, 'a callee that dies after delivery (documented: the caller waits until it shuts down); more calls.'),
'C08': ('3 outstanding promise calls or 2 callback calls, all sequences of 3 responses over own, unknown, released and completed ids with symbolic values and errors; responses racing with the call (2 preemptions); crowds of calls between two instances; ' + STD, 'longer response sequences; with two dispatcher threads any one of several responses to the same id may win.'),
'C09': ('all values of the integer, boolean and floating-point arguments of fourteen signatures (among them string views, optional values, sets, characters, literals, references and twelve parameters), strings up to 3 symbolic bytes, small vectors and maps, waiting calls, futures and callbacks, two instances for four of them; results converted after the call is released, the instances are gone and the result has been moved; unbound names, wrong counts, wrong types (integers out of range, strings, arrays and maps for one another, fixed-size arrays of another length, pairs, bools) and throwing functions; bound functions that call back to their caller or to their own instance (1 preemption); two calls executed at once by two threads, also with every access checked for data races', 'longer strings and containers (C12 covers the encodings), other signatures.'),
'C10': ('all messages of 2 bytes (thorough 3); a valid call with any one byte replaced, inserted, erased, cut anywhere or followed by any byte; length fields of any 8, 16 or 32 bit value for each container kind at the front of a message; whole elements of the message or of its arguments dropped, inserted, doubled, replaced or swapped (two such edits, thorough three), with the array header adjusted or not, for a function with one argument and one without; for a function of an array of fixed length, a tuple, a user type and a pair, any one argument replaced by an array of up to 4 elements of four kinds, a string, a byte string, a map or a single value; then a valid call that must be answered', 'messages with more than one (thorough two) arbitrary bytes away from the ends.'),
'C11': ('all messages of 2 bytes (thorough 3) in the response queue; a valid response, to an unknown and to the outstanding call, with any byte replaced, cut anywhere or followed by any byte; hostile lengths; whole elements dropped, inserted, doubled, replaced or swapped; then a valid response that must be accepted; promise and callback calls', 'responses with more than one (thorough two) arbitrary bytes away from the ends.'),
'C12': ('all values of every integer type, bool, float and double; strings, byte vectors and containers at every length where the encoding changes (up to 65537) with symbolic content at probed positions; 67 types and nestings, among them variants, containers whose elements are obtained by value, complex numbers, wide strings, time points and timespec, extensions, references, pointers, C arrays, multisets, array references and functions of the packer for single integers; received objects compare equal exactly when what was sent is equal; encoding buffers of several initial sizes that grow, are moved, released and reused', 'other user types; content beyond the probed positions is concrete in the long cases.'),
'C13': ('43 target types (integers, floats, strings, containers, tuples, pairs, fixed-size arrays, user types, pointers, extensions, time types) against every received object: nil, bool, all integers, floats, strings and byte strings of several lengths, extensions, arrays and maps of other lengths, nested once, symbolic leaves; 13 containers whose elements are obtained by value, variants of any index; containers of such targets and such containers as elements; every extension of a time point', 'deeper received objects; other target types.'),
'C14': ('all byte strings of up to 3 bytes (thorough 4), whole and in two pieces, through the handle, zone, visitor and streaming decoders; an object followed by any 2 bytes (thorough 3) in three pieces through one streaming decoder, with every object taken as soon as it is complete; limits of any value given to the decoder; hostile 16 and 32 bit lengths for strings, byte strings, arrays, maps and extensions followed by 2 bytes (thorough 3); nesting to the depth limit; every fixed extension size with any type and any data', 'longer arbitrary inputs. Decoding is also run on every message of C10 and C11.'),
'C15': ('all sequences of 4 operations on two handles with at most one failing call out of open, truncate, map and semaphore open at any place (thorough: 5 operations, 2 failures); three handles without failures', 'failures of close and unlink; memory shortage.'),
'C16': ('all sequences of 4 operations on an instance; sequences of 2 with one failure; starting with up to 2 failures out of semaphore, shared memory, truncate, map and thread creation; shutdown of either side at 5 moments of promise, callback, slow and mutual traffic with 1 preemption; shutdown while senders wait for full or locked queues, finished within 1 s; handles, names, threads and heap blocks are counted; ' + STD + '; ' + PRE, 'more preemptions; operations on one instance from several threads at once, apart from calls racing with a shutdown.'),
'C17': ('the first instance dies at any inter-process operation of its start, service, calls or shutdown (1 preemption), with calls in flight, then another process starts the same name, and callers old and new are served', 'death while holding the lock of a living peer is a known finding (the peer stays blocked); damage to the content of shared memory by a dying process inside a queue of a living peer.'),
'C18': ('all function names of up to 3 bytes for the first, a later (10 calls on) and the repeated call; sequences of 3 calls on the wire over two names and both kinds; restarts of the same, another instance and another process; all values of the random source, also as seen through the ids of two starts; 3 threads with 2 preemptions', 'a collision of 128 random bits; wrap-around of the 32-bit call number.'),
'C19': ('all deadlines for symbolic timeouts and clock readings; all states of set and cancel; one waiter and one other thread with all preemptions at mutex and condition operations; patterns of two waiters; spurious wake-ups', 'more threads.'),
'C20': ('inserted texts of every length up to 70 and near 1024, 4096 and 8192 (thorough 2000 around them), symbolic bytes at probed positions, narrow and wide; log lines; error messages sent to callers with long names and texts', 'texts with embedded null characters; other platforms.'),
'C21': ('all 32-bit timeouts against a queue that stays full or is drained at 5 moments within 120 ms (timeouts up to 130 ms are split case by case, larger ones are one solver variable); lock timeouts 1 to 100 ms against holders of 0 to 150 ms; four calls to a slow callee with 1 preemption; answers waiting for room', 'delays of a loaded machine (a model tolerance of 15 ms is allowed after a timeout); other drain moments.'),
'C22': ('all sequences of 3 operations (bind, unbind, call, list) on four names with symbolic bytes, all pairs of names of up to 2 bytes, eight kinds of functions; seven changes made by the function itself or by another thread while two calls are dispatched (1 preemption, one and two dispatchers); two threads binding the same name (3 preemptions); every operation while a function runs for long; the memory of a running function is checked', 'more names'),
'C23': ('creators of 1 to 3 slots and every expected size up to 4096, with up to 2 messages of symbolic size queued, against openers of 1 to 6 slots and every expected size up to 8192; a creator of one slot against all 32-bit pairs (thorough: also 2 and 3 slots); the same total size with another slot count; foreign shared memory of every size up to 65536 with any header; instances of nine configurations calling each other', 'larger geometries; a creator that changes its geometry while others have it open.'),
'C24': ('existence probes in all combinations of existing objects; sequences of 5 starts, stops and calls; partial leftovers of a target; a call racing with the start or the stop of its target (1 to 2 preemptions)', 'longer histories.'),
'C25': ('eight kinds of exceptions from bound functions of three signatures and from callbacks in seven situations, and from encoding an argument or a result or decoding an argument or a result; eleven odd names in every argument position of ten operations in three states of the instance; the n-th (1..14) allocation of 500 bytes or more failing in a call with a large argument, result or name, for all three kinds of call; one failing system call or thread per start (thorough two); any one allocation of a receive buffer failing at a start', 'small allocations failing; copy constructors of user types that throw.'),
'C26': ('three instances; any two names of up to 2 bytes (thorough 3) besides "A", and twelve pairs of similar names, pairs of 15 to 230 characters that differ in the last one; sequences of 2 calls, starts and stops (thorough 3) of all three kinds of call before a final round over all pairs; nine or six calls crossing between the instances with 1 preemption, one and two threads of each kind, also at atomic operations; every call is attributed by counters in all instances, and all queues end empty', 'more instances; names that differ only in leading slashes (the same name for the system).'),
'C29': ('all combinations of four states of the source, construction and assignment to four states of the destination, four loads of calls in flight, source destroyed or reused, moving on and back and to itself; with calls in flight 1 preemption; functions, settings, calls in all directions, handles, names, threads and heap blocks are checked', 'moving an instance while another thread of the user works with it.'),
'C28': ('all pairs of 16 operations made at the same time on one running instance by two threads of the user, with 1 preemption at inter-process, mutex and atomic operations and race detection, and all triples by three threads in the order of the scheduler with two threads of each kind', 'init, uninit and moving at the same time as other operations (C07 and C16 have calls racing with a shutdown); more preemptions.'),
'C27': ('all ordered pairs of 22 kinds of events (calls of every kind, every failure, late, repeated and malformed messages, answers that cannot be sent, binding, locked and full queues), repeated 4 times to warm up and then twice 3 times (one kind alone with two threads of each kind); counted are heap blocks and bytes, handles, mappings, semaphores, threads and named objects; growth is an error when both later rounds show it', 'three kinds of events in turn; growth that needs more rounds to show; what the C library itself holds.'),
}
