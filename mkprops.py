#!/usr/bin/env python3
# Generates properties.jsonl (kept in git alongside its output).
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe):
    def k(o):
        o=o.lower()
        if 'cancel' in o or 'panic' in o or 'drop' in o or 'clear' in o: return 'crash_points'
        if 'i/o' in o or 'error' in o or 'failure' in o or 'spurious' in o: return 'fault_sequences'
        if 'schedule' in o or 'origin' in o or 'order' in o: return 'schedules'
        if 'operation' in o or 'tree' in o or 'branch' in o: return 'programs'
        if 'input' in o: return 'inputs'
        return 'configurations'
    over=list(dict.fromkeys(k(o) for o in over)); observe=[observe]
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe)))
SCH="every interleaving (and every legal weak-memory outcome) of the operations of the threads involved"
p("C01","Oneshot channel delivers its value exactly once or hands it back",
 "A value given to a oneshot sender is either received by the receiver exactly once, or handed back to the sender by a failed send, or dropped with the receiver; never lost, duplicated or invented, and a send that begins after the receiver was closed or dropped always fails. A receiver resolves to a cancellation only if the sender was dropped without sending or the receiver itself was closed. A side waiting for the other (receiver for a value, sender for cancellation) is always woken once the other side acts.",
 ["schedules","operation sequences of both ends","waker replacements"],"for "+SCH+" (send, drop, poll, try_recv, close, cancellation checks)",
 "Tests run a handful of interleavings on a strong memory model; lost values and lost wake-ups need close/drop to land inside a few-instruction window of send or poll.",
 ["futures-channel/src/oneshot.rs","futures-channel/src/lock.rs"],[("complete flag re-check after storing value or waker","futures-channel/src/oneshot.rs: Inner::send, Inner::recv, Inner::poll_canceled"),("try-lock slots","futures-channel/src/lock.rs: Lock::try_lock")],"public send/recv/try_recv/close/cancellation results and wake-ups")
p("C02","mpsc channel delivers each accepted message exactly once, in sender order",
 "Every message a channel accepted is received exactly once, messages of one sender arrive in the order it sent them, and a message that is refused (channel full or closed) is returned to the sender and never delivered. The receiver sees the end of the stream only after the channel was closed or every sender was dropped, and only after every message accepted before that was delivered; it is woken for every arrival and for the end. Messages still queued when the receiver goes away are dropped, not leaked.",
 ["schedules","operation sequences of several senders and the receiver"],"for "+SCH+" (send, try_send, clone, close, disconnect, drop, poll, try_recv) on bounded and unbounded channels",
 "Loss, duplication or a missed end-of-stream needs a sender to be preempted inside the lock-free queue or between counting and enqueuing; tests cannot place that preemption.",
 ["futures-channel/src/mpsc/mod.rs","futures-channel/src/mpsc/queue.rs","futures-channel/src/mpsc/sink_impl.rs"],[("open/count state word","futures-channel/src/mpsc/mod.rs: inc_num_messages, next_message"),("intrusive MPSC queue","futures-channel/src/mpsc/queue.rs: Queue::push, pop"),("recv task waker","futures-channel/src/mpsc/mod.rs: recv_task")],"results of send/try_send/poll_next/try_recv per thread")
p("C03","Bounded mpsc channel enforces its capacity and never strands a sender",
 "A bounded channel created with buffer n never holds more undelivered messages than n plus one for every sender that exists or whose message is still queued, a sender that has been told it is ready can send one message without being refused for lack of space while the receiver is open, and try_send reports full only when the buffer is really exhausted. Whenever messages are consumed or the channel closes, blocked senders are released: a sender waiting for capacity is eventually woken as long as the receiver keeps receiving or goes away.",
 ["schedules","buffer sizes","numbers of senders","sender clone/drop and receiver close points"],"for every buffer size, number of senders and interleaving of their operations with the receiver's",
 "The parked-sender hand-shake fails only when parking races with the receiver's unpark or with close; unit tests exercise it sequentially.",
 ["futures-channel/src/mpsc/mod.rs","futures-channel/src/mpsc/sink_impl.rs"],[("parked-sender queue","futures-channel/src/mpsc/mod.rs: BoundedSenderInner::park, unpark_one, SenderTask"),("state count vs buffer","futures-channel/src/mpsc/mod.rs: do_send_b, poll_unparked")],"number of accepted-but-not-received messages; readiness of senders")
p("C04","AtomicWaker never loses a wake-up",
 "If a task registers its waker and then checks a condition, and another thread makes the condition true and then wakes, the task either sees the condition or is woken through the waker of its latest registration. This holds for concurrent registrations, wakes and takes from several threads, and no registered waker is used after being dropped, dropped twice, or leaked.",
 ["schedules","numbers of waking threads"],"for "+SCH+" (register, wake, take)",
 "The guarantee is about the window in which register and wake overlap, and about memory ordering of the data published before wake; tests on x86 cannot produce either on demand.",
 ["futures-core/src/task/__internal/atomic_waker.rs"],[("REGISTERING/WAKING state machine","futures-core/src/task/__internal/atomic_waker.rs: register, take")],"wakes observed by the registering task; payload published before wake")
p("C05","Async mutex: exclusive access, and no waiter is stranded",
 "At most one guard of an asynchronous mutex exists at any time and everything done under one guard is visible under the next. Whenever the mutex is free and tasks are waiting, one of them is woken and acquires it, even if waiting tasks are cancelled (including after having been woken), polled spuriously or change their waker, and for owned and mapped guards alike; try_lock succeeds whenever the mutex is free.",
 ["schedules","cancellation points","lock kinds"],"for every interleaving of lock, try_lock, unlock, guard mapping and cancellation of waiting tasks across threads",
 "Stranding needs a waiter to be dropped between being woken and polling again while another waits; tests do not control that.",
 ["futures-util/src/lock/mutex.rs"],[("state bits IS_LOCKED/HAS_WAITERS","futures-util/src/lock/mutex.rs: unlock, lock_if_needed_waker"),("waiter slab hand-over","futures-util/src/lock/mutex.rs: remove_waker, Waiter")],"guard acquisition and completion of lock futures")
p("C06","Split halves share one object exclusively and never block each other forever",
 "The two halves of a split object (bi-lock, stream/sink split, reader/writer split) never touch the underlying object at the same time, each half's operations take effect exactly once and in that half's order, and a half that had to wait because the other one held the object is woken when it is released. The halves can be reunited exactly when they belong together, giving back the original object.",
 ["schedules","cancellation points"],"for every interleaving of operations on the two halves across two threads or tasks",
 "Requires the release of one half to fall between the other's failed acquisition and its waker registration.",
 ["futures-util/src/lock/bilock.rs","futures-util/src/stream/stream/split.rs","futures-util/src/io/split.rs"],[("state word as waker box","futures-util/src/lock/bilock.rs: poll_lock, unlock"),("sink slot","futures-util/src/stream/stream/split.rs: SplitSink")],"order of operations on the wrapped object; completion of both halves")
p("C07","A shared future runs once and every handle gets the same output",
 "However many handles of a shared future are polled, cloned, dropped or cancelled on any threads, the wrapped future is never polled by two of them at once, is polled at least once after each of its wake-ups while any handle is waiting, is not polled after completing, and every handle that is awaited gets its output. No waiting handle is stranded when other handles are dropped or change their wakers, and the wrapped future and its output are each dropped exactly once.",
 ["schedules","numbers of handles","cancellation points"],"for every interleaving of polls, clones, drops and wake-ups of several handles",
 "Stranding needs the polling handle to leave at the moment the wrapped future is woken or completes.",
 ["futures-util/src/future/future/shared.rs"],[("IDLE/POLLING/COMPLETE/POISONED state","futures-util/src/future/future/shared.rs: Shared::poll"),("notifier waker slab","futures-util/src/future/future/shared.rs: Notifier")],"outputs of all handles; polls of the wrapped future")
p("C08","FuturesUnordered completes every future exactly once and polls only woken ones",
 "Every future pushed into the set is driven to completion and its output is yielded exactly once, the set ends exactly when it is empty, and its length is always the number of futures not yet yielded. A member is polled only when it is new or was woken, every wake-up (from any thread, before, during or after its poll) leads to another poll, and wake-ups through wakers that outlive the member or the set are harmless. Dropping or clearing the set drops every member exactly once.",
 ["schedules","wake-up times and origins","push/clear/drop points"],"for every interleaving of pushes, polls, wake-ups from other threads, clears and drops",
 "A lost member needs a wake-up to race with dequeue or release inside the lock-free ready queue; tests do not control this.",
 ["futures-util/src/stream/futures_unordered/mod.rs","futures-util/src/stream/futures_unordered/ready_to_run_queue.rs","futures-util/src/stream/futures_unordered/task.rs","futures-util/src/stream/futures_unordered/iter.rs"],[("queued flag and ready queue","futures-util/src/stream/futures_unordered/task.rs: wake_by_ref; ready_to_run_queue.rs"),("linked list of all tasks","futures-util/src/stream/futures_unordered/mod.rs: link, unlink, release_task")],"yielded outputs, member polls, drops")
p("C09","Ordered and bounded-concurrency combinators keep order and limit",
 "Collections and adapters that run several futures at once (ordered queues, buffered and unordered buffering, concurrent for-each, and their fallible forms) yield results in the promised order (input order for the ordered ones), each exactly once, and never have more than the stated number of futures in progress. They accept new work as soon as there is room, and they finish exactly when the input is exhausted and all work is done; fallible forms stop at the first error as documented.",
 ["readiness schedules","completion orders","limits","errors"],"for every readiness schedule and completion order of the inner futures and the input stream, and every limit",
 "Orderings of completions grow factorially and interact with limits; tests pick one or two.",
 ["futures-util/src/stream/futures_ordered.rs","futures-util/src/stream/stream/buffered.rs","futures-util/src/stream/stream/buffer_unordered.rs","futures-util/src/stream/stream/for_each_concurrent.rs","futures-util/src/stream/try_stream/try_buffered.rs","futures-util/src/stream/try_stream/try_buffer_unordered.rs","futures-util/src/stream/try_stream/try_for_each_concurrent.rs"],[("index-ordered heap","futures-util/src/stream/futures_ordered.rs"),("in-progress limit","futures-util/src/stream/stream/buffered.rs: poll_next")],"order of outputs; number of concurrently live inner futures")
p("C10","Aborting stops the task, wakes it, and is reported",
 "After an abort handle was used, the abortable future, stream or copy is not polled into again and resolves as aborted the next time it is polled; a task waiting inside it at that moment is woken. If it was never aborted the result is exactly that of the wrapped future or stream, and the aborted flag never reverts.",
 ["schedules","numbers of handles"],"for every interleaving of abort from any number of handles with polls of the abortable",
 "The abort must fall between the flag check, the poll of the inner future and the waker registration.",
 ["futures-util/src/abortable.rs","futures-util/src/io/copy_buf_abortable.rs"],[("aborted flag and waker re-check","futures-util/src/abortable.rs: try_poll, AbortHandle::abort")],"results of the abortable; polls of the wrapped future after abort")
p("C11","A remote handle yields its task's result, and dropping it cancels",
 "A remote handle resolves to exactly the output of its remote computation, or propagates its panic, no matter where either side runs. Dropping the handle without forgetting it makes the remote side stop without further polling the computation once it next runs, and it is woken to do so; a forgotten handle lets the computation finish.",
 ["schedules","drop/forget/panic points"],"for every interleaving of the remote task with polling, dropping or forgetting the handle",
 "Needs the drop to land inside the remote task's poll or registration.",
 ["futures-util/src/future/future/remote_handle.rs"],[("keep_running flag plus oneshot cancellation","futures-util/src/future/future/remote_handle.rs: Remote::poll, RemoteHandle::forget")],"result of the handle; polls of the remote computation")
p("C12","Single-threaded executors run every task and never sleep through a wake-up",
 "A blocking run of a future, and a local pool running its spawned tasks, return exactly when the future (or, for a full run, every spawned task including those spawned while running) has completed; a wake-up from any thread at any moment, including before or while the executor goes to sleep, leads to another poll. A non-blocking run makes all progress possible at the time (a task whose wake-up is still under way on another thread excepted) and returns without blocking; tasks are polled only by the executor's thread and a pool's tasks are dropped with it.",
 ["schedules","wake-up origins","spawn trees"],"for every interleaving of wake-ups from other threads with the executor's poll/sleep cycle and every spawn tree",
 "The sleep/wake race needs the wake-up to hit between the last check and the park.",
 ["futures-executor/src/local_pool.rs","futures-executor/src/enter.rs"],[("thread-notify unparked flag","futures-executor/src/local_pool.rs: run_executor, ThreadNotify"),("incoming task queue drain","futures-executor/src/local_pool.rs: poll_pool")],"completion of tasks; executor returns")
p("C13","Thread pool runs every task to completion without overlapping polls",
 "Every task spawned on a thread pool is polled until it completes as long as the pool or its tasks live, a wake-up at any moment (also during the task's own poll) leads to another poll, and a task is never polled by two threads at once, with each poll seeing the effects of the previous one. When the last pool handle is dropped the worker threads exit after finishing the queued work, and failing to create worker threads is reported rather than hanging.",
 ["schedules","worker counts","thread-creation failures"],"for every interleaving of spawns, wake-ups, worker threads and handle drops",
 "Needs a wake-up to race with the end of a poll, or a drop to race with spawning.",
 ["futures-executor/src/thread_pool.rs","futures-executor/src/unpark_mutex.rs"],[("WAITING/POLLING/REPOLL/COMPLETE machine","futures-executor/src/unpark_mutex.rs"),("message channel and pool refcount","futures-executor/src/thread_pool.rs: PoolState, work")],"task completions; overlap of polls; thread exits")
p("C14","Merging streams yields every item once and starves nobody",
 "Combinators that merge several streams (two-way and n-way select, strategy-driven select, unordered flattening) yield exactly the items of their inputs, each once and in each input's own order, and end exactly when all inputs have ended. An input that can make progress is never ignored forever, a wake-up of any input leads to that input being polled again, and inputs are not polled after they ended; unordered flattening keeps at most the stated number of inner streams open.",
 ["readiness schedules","wake-up origins and threads","numbers of inputs"],"for every readiness schedule of the inputs, including wake-ups arriving from other threads during a poll",
 "Missed inputs need a wake-up during the merge's own poll; fairness needs adversarially ready inputs.",
 ["futures-util/src/stream/select_with_strategy.rs","futures-util/src/stream/select.rs","futures-util/src/stream/select_all.rs","futures-util/src/stream/stream/flatten_unordered.rs"],[("SharedPollState","futures-util/src/stream/stream/flatten_unordered.rs"),("left/right alternation","futures-util/src/stream/select_with_strategy.rs")],"merged output sequence versus inputs")
p("C15","Stream adapters equal their sequential meaning under any readiness schedule",
 "For every stream adapter (mapping, filtering, taking, skipping, chunking, zipping, chaining, folding, peeking, flattening, scanning, caching and their fallible forms) the sequence of items, errors and the end, and the side effects of the supplied closures, are those of the obvious sequential definition applied to the input items, no matter how often any input, future or closure result is not ready. The adapter asks to be polled again whenever it can make progress, never polls an input or future after it finished, and its size hint always brackets the number of items still to come.",
 ["readiness schedules","inputs and closures","errors","spurious polls"],"for every input sequence, every placement of not-ready results, spurious polls and waker replacement",
 "State carried across a not-ready result is the classic place for lost or duplicated items; tests poll mostly-ready streams.",
 ["futures-util/src/stream/stream","futures-util/src/stream/try_stream","futures-util/src/stream"],[("per-adapter pending state","futures-util/src/stream/stream/*.rs, futures-util/src/stream/try_stream/*.rs")],"output sequence compared with a reference evaluated on the plain input")
p("C16","Joins complete with every output, in position, and fail fast",
 "Joining futures (pairs, tuples, macros, collections, maybe-done wrappers) resolves only when all have completed and gives each output in its future's position, for small and large collections alike; fallible joins resolve with the first error that occurs, without waiting for the rest. The joined futures make progress independently of each other, so that one may wait for another; each is polled until it completes and not afterwards, and all are dropped exactly once.",
 ["readiness schedules","completion orders","errors"],"for every completion order, readiness schedule and error position",
 "Positional mix-ups and re-polls of completed futures depend on the completion order.",
 ["futures-util/src/future/join.rs","futures-util/src/future/join_all.rs","futures-util/src/future/try_join.rs","futures-util/src/future/try_join_all.rs","futures-util/src/future/maybe_done.rs","futures-util/src/future/try_maybe_done.rs","futures-macro/src/join.rs"],[("MaybeDone/TryMaybeDone","futures-util/src/future/maybe_done.rs"),("small/big switch","futures-util/src/future/join_all.rs")],"outputs and polls of the joined futures")
p("C17","Selecting resolves to a ready branch without losing the others",
 "Selecting among futures (pair select, select over a collection, select-ok, the select macros) resolves as soon as at least one branch is ready, with the output of a branch that is really ready, and the other branches stay intact: they can be polled on with no result lost. Completed or terminated branches are not polled again, the default branch runs only if nothing is ready and the complete branch only if everything is terminated, and biased variants honour their order.",
 ["readiness schedules","branch sets","random branch orders"],"for every readiness schedule of the branches and every pseudo-random branch order",
 "Which branch is polled first is random and readiness may change between branch polls.",
 ["futures-util/src/future/select.rs","futures-util/src/future/select_all.rs","futures-util/src/future/select_ok.rs","futures-util/src/future/try_select.rs","futures-util/src/async_await/select_mod.rs","futures-util/src/async_await/random.rs","futures-macro/src/select.rs"],[("branch polling closures","futures-macro/src/select.rs")],"chosen branch and state of the rest")
p("C18","Asynchronous readers deliver exactly the source's bytes",
 "Whatever short reads, not-ready results and interruptions the source produces, the reading operations (read, vectored, exact, to-end, to-string, until, line and lines, chained, limited, buffered, seeking and copying) deliver exactly the source's bytes, once and in order, stopping at the documented boundary; bytes beyond the boundary stay available to the next read. A source error is reported and data already delivered is not delivered again; a premature end is reported as such where the operation requires more. A window onto a buffer is exactly the range it was set to.",
 ["I/O schedules (short reads, pending, errors, end of file)","cancellation points"],"for every chopping of the byte stream, placement of pending, interrupted and error results, and buffer sizes",
 "The state between partial reads depends on where the source chops the data; tests use a few choppings.",
 ["futures-util/src/io"],[("buffer positions","futures-util/src/io/buf_reader.rs"),("boundary scanning","futures-util/src/io/read_until.rs, read_line.rs"),("length guards","futures-util/src/io/read_to_end.rs, take.rs, chain.rs")],"bytes delivered to the caller versus bytes of the source")
p("C19","Asynchronous writers deliver every byte in order and flush completely",
 "Whatever short writes, not-ready results and interruptions the destination produces, the writing operations (write-all, vectored, buffered, line-buffered, copying, byte sinks) pass on exactly the bytes accepted from the caller, once and in order; a completed flush or close means every previously accepted byte has reached the destination and been flushed. A destination error is reported, a destination that accepts nothing is reported as such, and bytes already passed on are not written again; line buffering passes on everything up to the last newline. A buffering writer holds back at most its capacity.",
 ["I/O schedules (short writes, pending, errors, zero writes)","cancellation points"],"for every placement of short, zero, pending, interrupted and failing writes and every buffer size",
 "The amount already written when a write is cut short decides what must be retried; tests use a few cuts.",
 ["futures-util/src/io"],[("written cursor","futures-util/src/io/buf_writer.rs: flush_buf"),("line split","futures-util/src/io/line_writer.rs"),("copy loop","futures-util/src/io/copy_buf.rs, copy_buf_abortable.rs")],"bytes arriving at the destination versus bytes accepted")
p("C20","Sink adapters pass on every item in order and flush what they accepted",
 "Every item accepted by a sink adapter (buffering, fan-out, mapping, flat-mapping, error mapping, channel-backed, unfolding, send and send-all operations, forwarding) reaches the underlying sink or sinks exactly once, transformed as specified and in order; a completed flush or close means nothing accepted is still held back and the underlying sink was flushed or closed. A fan-out goes on with each of its sinks while the other is not ready. Back-pressure is respected: an item is only started after readiness was reported, buffering never holds more than its capacity, and errors of the underlying sink are reported. While sending or forwarding a stream waits for its input, what was already sent is flushed. An item whose mapping fails is reported and dropped, and a sink is not used for sending once it is being closed.",
 ["readiness schedules of the underlying sink","errors","cancellation points"],"for every readiness schedule and error placement of the underlying sink and every sequence of ready/send/flush/close",
 "Items parked in an adapter are lost only if flush or close is called in a particular not-ready state.",
 ["futures-util/src/sink","futures-util/src/stream/stream/forward.rs","futures-util/src/unfold_state.rs"],[("buffer queue","futures-util/src/sink/buffer.rs"),("pending item","futures-util/src/sink/with_flat_map.rs, feed.rs, send_all.rs")],"items seen by the underlying sink, with flush/close marks")
p("C21","Cancelling or panicking never leaks, double-drops or corrupts",
 "Dropping any future, stream, sink, set or executor of the library at any point (including while it is waiting, from inside its own wake-up, or while its owner unwinds), and a panic raised by user code (in a poll, closure or waker called by the library) leaves every value it owned dropped exactly once, touches no freed memory, and does not prevent other tasks sharing the same structure from continuing or from being told of the failure. A panic in a destructor of user code may leak, but nothing is dropped twice or used after being freed.",
 ["cancellation points","panic points","schedules"],"for every cancellation point and panic point in the workload of every other property",
 "Requires unwinding out of the middle of unsafe code and wake-ups delivered afterwards.",
 ["futures-util/src/stream/futures_unordered/mod.rs","futures-util/src/future/future/shared.rs","futures-util/src/future/future/catch_unwind.rs","futures-executor/src/thread_pool.rs","futures-util/src/stream/stream/flatten_unordered.rs","futures-task/src/future_obj.rs"],[("Bomb guards","futures-util/src/stream/futures_unordered/mod.rs: poll_next"),("poison state","futures-util/src/future/future/shared.rs"),("manual drops","futures-task/src/future_obj.rs, arc_wake.rs")],"drop records of every payload; heap access checks")
p("C22","Fused and terminated states are truthful and final",
 "A future, stream or adapter that can report termination reports it exactly when it will never again produce a value: from then on polling a fused one never reaches the wrapped object and never panics, and one that reports it is not terminated can still make progress. A fused stream keeps returning the end after the end; one-shot combinators report termination after completing (fallible ones: after completing successfully). An adapter of an already terminated input may report termination at once, and so does a oneshot receiver whose sender is gone.",
 ["operation sequences","readiness schedules"],"for every reachable state of every type that reports termination",
 "Termination flags must be right after every partial progress, not only at the end states tests look at.",
 ["futures-util/src/future/future/fuse.rs","futures-util/src/stream/stream/fuse.rs","futures-core/src/future.rs","futures-core/src/stream.rs"],[("is_terminated implementations","futures-util/src/**: impl FusedFuture / FusedStream")],"is_terminated before and after every poll")
p("C23","Bridging between the 0.1 and 0.3 task models preserves results and wake-ups",
 "A future, stream, sink or byte I/O object wrapped to the other task model produces exactly the same values, errors and end (a sink being closed is first given and flushed everything accepted, and then only closed), and a wake-up or notification raised on one side reaches the task on the other side, whichever thread it comes from.",
 ["readiness schedules","wake-up origins"],"for every readiness schedule of the wrapped object and every wake-up origin",
 "The two models register interest differently; a lost notification only shows when readiness changes after the first poll.",
 ["futures-util/src/compat/compat01as03.rs","futures-util/src/compat/compat03as01.rs","futures-util/src/compat/executor.rs"],[("notify/waker bridges","futures-util/src/compat/compat01as03.rs: NotifyWaker; compat03as01.rs: Current")],"values and wake-ups seen through the bridge")
p("C24","Wakers built from shared handles are balanced and reach their handle",
 "Wakers made from reference-counted handles (owned, borrowed, cloned, compared, woken by value or by reference, dropped, on any thread) wake exactly the handle they were made from, once per wake, and keep it alive exactly as long as any of them lives. Type-erased task objects run the future they were made from and drop it exactly once.",
 ["schedules","operation sequences"],"for every sequence and interleaving of clone, wake, wake-by-reference, compare and drop",
 "Reference-count imbalance shows only when the last reference is dropped at a particular point.",
 ["futures-task/src/arc_wake.rs","futures-task/src/waker.rs","futures-task/src/waker_ref.rs","futures-task/src/future_obj.rs"],[("raw waker vtable","futures-task/src/waker.rs"),("FutureObj drop","futures-task/src/future_obj.rs")],"wake counts, strong counts, drops")
p("C25","Memory is accessed safely, fully reclaimed, and does not accumulate",
 "No history of operations on the library's types, on one thread or several, with any interleaving, cancellation or wake-up (also through wakers that outlive what they wake), makes the library read or write memory that was freed, free memory twice, or access memory from two threads without ordering. Once all handles, futures, streams, sinks and wakers of a structure are gone, everything it allocated has been freed and every waker it held released. A structure that is used in the same way over and over (messages through a channel, futures through a set, waiters of a lock, handles of a shared future, items through a buffer) does not accumulate memory or wakers.",
 ["schedules","operation sequences","numbers of repetitions"],"for every history of the workloads of all other properties, and for arbitrarily many repetitions of the same use",
 "A leaked node, a forgotten reference or a race changes no result a test looks at.",
 ["futures-channel/src","futures-core/src/task/__internal","futures-util/src","futures-task/src","futures-executor/src"],[("intrusive queues","futures-channel/src/mpsc/queue.rs; futures-util/src/stream/futures_unordered/ready_to_run_queue.rs"),("reference counts handled by hand","futures-util/src/stream/futures_unordered/mod.rs, task.rs; futures-task/src/waker.rs"),("waiter slabs","futures-util/src/lock/mutex.rs; futures-util/src/future/future/shared.rs")],"every heap access; live heap blocks and bytes; references to wakers")
p("C26","Test adapters perturb only what they promise, and report truthfully",
 "The adapters of the test crate change nothing but what they are for. Interleaving introduces exactly one not-ready result (with a wake-up) before every result of a future, stream, sink, reader, writer or seeker, pending-once introduces exactly one before the first; every other call reaches the wrapped object once, unchanged, and its results, errors, end and termination come back unchanged. Limiting never shows the wrapped object more than the limit per read or write. Close tracking reports closed exactly after a successful close and lets no later operation through, turning it into an error (writers) or a panic (sinks). The assertion against moves panics exactly when the object was moved after being polled, between polls or before its drop, and never while unwinding. Counting wakers count every wake-up once, from any thread; recording, ignoring and panicking spawners and wakers and the stream assertions do exactly what they say; a future run in the background runs to completion on its own thread.",
 ["readiness schedules","schedules","operation sequences","error points"],"for every stack of adapters, readiness and error schedule of the wrapped object and sequence of operations",
 "Tests that use these adapters assume them; a fault in them silently weakens every test built on them.",
 ["futures-test/src"],[("pended flag","futures-test/src/interleave_pending.rs: poll_with"),("recorded address","futures-test/src/assert_unmoved.rs"),("closed flag","futures-test/src/track_closed.rs"),("wake counter","futures-test/src/task/wake_counter.rs")],"calls and buffers seen by the wrapped object versus calls and results outside")
p("C27","Pinned values never move",
 "A future, stream, sink, reader or writer handed to a combinator, set, shared handle, lock, split pair, type-erased task object, join or select macro or executor of the library is polled and finally dropped at one and the same address, from its first poll on: also when the container that owns it is itself moved between polls (wherever that container may be moved), when the value completes, is cancelled, replaced, aborted or panics, when other members come and go, and whichever thread drops it.",
 ["operation sequences","readiness schedules","cancellation points","panic points","schedules"],"for every combinator and container, every nesting, every sequence of polls, moves of movable containers, completions, cancellations and panics",
 "Ordinary futures do not notice being moved, so results stay right; only address-sensitive ones become unsound.",
 ["futures-util/src","futures-task/src/future_obj.rs","futures-executor/src"],[("dropping in place","futures-util/src/stream/futures_unordered/mod.rs: release_task; futures-util/src/future/future/shared.rs"),("manual pin projections","futures-util/src/future/maybe_done.rs, try_maybe_done.rs, either.rs, join_all.rs; futures-util/src/lock/bilock.rs"),("type erasure","futures-task/src/future_obj.rs")],"addresses of address-sensitive values at every poll and at their drop")
p("C28","Future combinators equal their sequential meaning under any readiness",
 "For every combinator on single futures (mapping, chaining, flattening, converting, inspecting, recovering from errors, fusing, sharing, boxing, racing with or joining something trivial, maybe-done and immediate polling, optional and either-or futures, async blocks with the one-shot polling and yielding macros) and every nesting of them, the output is the one the expression denotes, each supplied closure is called exactly once, in sequence and only with the values its position is given (error branches only on errors, success branches only on success), nothing happens before the first poll, and whatever pattern of not-ready results, wake-ups and spurious polls occurs, a poll gets exactly as far as the first step that is not ready, leaves the task's current waker with that step, and does not poll that step again in the same poll; cancelled at any point, exactly the closures reached so far were called.",
 ["expressions","readiness schedules","cancellation points"],"for every nesting of combinators, every outcome of their inputs, every readiness schedule and cancellation point",
 "Tests poll single combinators over ready inputs; state machines lose a waker, call a closure twice or poll a finished step only under particular not-ready patterns and nestings.",
 ["futures-util/src/future","futures-util/src/async_await"],[("FutureExt","futures-util/src/future/future/*"),("TryFutureExt","futures-util/src/future/try_future/*"),("Either, OptionFuture, poll_immediate, maybe_done","futures-util/src/future/*.rs"),("poll! and pending!","futures-util/src/async_await/poll.rs, pending.rs")],"output, order of closure calls, and which step was reached by each poll, against the denoted value")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
