#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator because the lines are long)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
S, F, H, PR, I, CF = "schedules", "fault_sequences", "histories", "programs", "inputs", "configurations"
INC = "include/boost/fiber/"

prop("C01", "Mutexes give mutual exclusion to fibers of all threads",
 "At any instant at most one fiber owns a given mutex, recursive_mutex, timed_mutex or recursive_timed_mutex, whichever threads the competing fibers run on and whether ownership was obtained by lock, try_lock, try_lock_for or try_lock_until. A call that reports success returns as the owner, and a call that reports failure (false, or an exception) leaves the caller a non-owner.",
 [S, F, PR], "every interleaving of lock/try/timed/unlock calls by fibers of 1..3 threads, every position of timeouts, thread stalls and clock jumps",
 "mutex_mt tests sample a handful of uncontrolled interleavings with a counter; recursive_timed and timed variants are only run on one thread.",
 ["src/mutex.cpp", "src/timed_mutex.cpp", "src/recursive_mutex.cpp", "src/recursive_timed_mutex.cpp", "src/waker.cpp"],
 [("owner check and enqueue under one spinlock critical section", "src/mutex.cpp lock"), ("owner reset before a waiter is woken", "src/mutex.cpp unlock")],
 [("owner_", "fiber that owns the mutex", "include/boost/fiber/mutex.hpp")], ["return of lock/try_lock/try_lock_until", "unlock"])

prop("C02", "A released mutex is always handed on: blocked lockers make progress",
 "If every owner eventually unlocks, every fiber blocked in lock() of any of the four mutex types eventually acquires it, and every timed lock eventually returns. This holds even when other waiters' deadlines expire at the very moment of an unlock: a mutex is never left free while a fiber stays blocked on it. try_lock() lets other fibers of its thread run, so polling it cannot keep the owner from unlocking.",
 [S, F, PR], "every interleaving of unlock with waiters enqueuing, timing out and being resumed, on one or several threads; clock jumps and stalls included",
 "a lost hand-off needs an unlock inside the few instructions around a waiter's enqueue, timeout or resumption; the tests have no control over that instant and no timed contention across threads.",
 ["src/mutex.cpp", "src/timed_mutex.cpp", "src/recursive_timed_mutex.cpp", "src/recursive_mutex.cpp", "src/waker.cpp", "src/scheduler.cpp"],
 [("unlock pops one waiter under the wait-queue spinlock", "src/waker.cpp notify_one"), ("stale wakers rejected by epoch", "src/context.cpp wake"), ("timed wait removes itself from the queue", "src/waker.cpp suspend_and_wait_until")],
 [("wait_queue_", "blocked fibers", "include/boost/fiber/waker.hpp")], ["completion of every lock call within a step bound once faults stop"])

prop("C03", "Mutex ownership contract: recursion, lock_error, timed and try results",
 "A recursive mutex is released to others only after as many unlocks as successful locks by its owner; locking a non-recursive mutex one already owns, or unlocking any mutex one does not own, throws lock_error with the documented error code and changes nothing. try_lock never blocks and succeeds if no one owns the mutex or (recursive types) the caller does; a timed lock reports failure only after its deadline has passed, and acquires a mutex that is and stays free.",
 [S, PR, F], "all sequences of lock/try/timed/unlock calls including misuse, under all interleavings with other fibers and clock jumps",
 "the tests check a few fixed call sequences on idle mutexes; misuse during contention, nested timed locks across threads and deadlines that pass while blocked are not sampled.",
 ["src/mutex.cpp", "src/timed_mutex.cpp", "src/recursive_mutex.cpp", "src/recursive_timed_mutex.cpp"],
 [("owner comparison and count", "src/recursive_mutex.cpp"), ("deadline comparison", "src/timed_mutex.cpp try_lock_until_")],
 [("count_", "recursion depth", "include/boost/fiber/recursive_mutex.hpp")], ["return values and exceptions of every mutex call"])

prop("C04", "Condition variables never lose a notification",
 "A fiber that has atomically released its lock in wait, wait_for or wait_until is unblocked by a later notify_all, and a later notify_one unblocks at least one such waiter if there is any, on whatever thread the notifier runs. A wait that gives up with a timeout does not consume a notification: with k untimed waiters, notify_one called k times after they wait releases all k even if timed waiters give up at the same moment.",
 [S, F, PR], "every interleaving of waiters entering, timing out and being resumed with notifiers on the same or another thread, for condition_variable and condition_variable_any",
 "the tests notify long after the waiters sleep; the window between releasing the lock and suspending, and between a timeout and a notification, is a few instructions.",
 ["src/condition_variable.cpp", INC + "condition_variable.hpp", "src/waker.cpp"],
 [("waiter is queued before the external lock is released", INC + "condition_variable.hpp wait"), ("notify pops queued wakers until one is really woken", "src/waker.cpp notify_one")],
 [("wait_queue_", "waiting fibers", INC + "condition_variable.hpp")], ["return of wait*/notify*"])

prop("C05", "Condition variable wakeups are genuine, and waits return holding the lock",
 "A wait without predicate returns only because of a notification issued after it started or (timed forms) because its deadline was reached; it reports timeout only at or after the deadline, one notify_one releases no more than one waiter, and a wait that reports no_timeout was notified. Every wait - also when it times out - returns with the lock held again, and the predicate overloads return the predicate's value at return (always true for untimed waits).",
 [S, F, PR], "all interleavings, OS-level spurious wakeups and clock jumps, with several waiters and notifiers on one or several threads",
 "a spurious or doubled wakeup needs a stale wakeup from an earlier wait of the same fiber to arrive during a later one; the tests never have two outstanding.",
 ["src/condition_variable.cpp", INC + "condition_variable.hpp", "src/waker.cpp", "src/context.cpp", "src/scheduler.cpp"],
 [("waker epoch compare-exchange", "src/context.cpp wake"), ("relock after suspension", INC + "condition_variable.hpp")],
 [("waker_epoch_", "generation of the current suspension", INC + "context.hpp")], ["return of wait*/notify*", "ownership probe after wait"])

prop("C06", "A barrier releases each generation exactly when all have arrived",
 "No call to barrier::wait returns before the configured number of fibers has called wait in the same generation, and once they have, all of them return. In each generation exactly one call returns true, and the barrier is immediately reusable for any number of further generations, also when early leavers re-enter while late ones have not resumed; a barrier of size 0 is rejected.",
 [S, PR, F], "all interleavings of n fibers on 1..3 threads over several consecutive generations, with stalls",
 "tests use a single generation of few fibers with one scheduling; re-entry before the previous generation's sleepers have resumed is schedule dependent.",
 ["src/barrier.cpp", INC + "barrier.hpp"],
 [("cycle number tested by sleepers", "src/barrier.cpp wait")],
 [("cycle_", "generation", INC + "barrier.hpp"), ("current_", "fibers still missing", INC + "barrier.hpp")], ["return value and order of wait"])

prop("C07", "A buffered channel is a linearizable bounded FIFO queue",
 "Every interleaving of push, try_push, timed push, pop, try_pop, timed pop, value_pop, iteration and close by fibers of any threads is equivalent to some sequential use of one bounded first-in-first-out queue of capacity-1 elements: each successfully pushed value is popped exactly once, in order, unaltered, and never more than capacity-1 are held. Status codes are truthful: full, empty, closed and timeout are reported only when they describe that queue at some instant of the call, a push that reports success has stored its value, one that reports otherwise has not, and a capacity that is not a power of two of at least 2 is rejected.",
 [S, H, F, PR], "every history of up to ~12 concurrent operations by fibers on 1..3 threads, timeouts, stalls and clock jumps at every point",
 "tests check single-thread sequences and one two-fiber ping-pong; linearizability quantifies over interleavings of concurrent operations and over the timeout racing a transfer.",
 [INC + "buffered_channel.hpp", "src/waker.cpp"],
 [("ring indices under one spinlock", INC + "buffered_channel.hpp try_push_/try_pop_")],
 [("pidx_/cidx_", "ring positions", INC + "buffered_channel.hpp")], ["results of every channel call"])

prop("C08", "Buffered channel operations never hang while they could proceed; close frees all",
 "A push blocked on a full buffered channel returns once a slot is freed for it, a pop blocked on an empty one returns once a value is available for it, and timed forms return at the latest once their deadline has passed. close() makes every blocked and every later push report closed, and lets pops drain the remaining values and then report closed (value_pop throws channel-closed fiber_error), so no fiber stays blocked on a closed channel.",
 [S, F, PR], "all interleavings of producers, consumers, timeouts and close on one or several threads",
 "a stranded producer or consumer needs a slot freed or a value stored in the instant another waiter enqueues, times out or is closed; tests do not control that.",
 [INC + "buffered_channel.hpp", "src/waker.cpp"],
 [("wakeup of one waiter after each transfer, all on close", INC + "buffered_channel.hpp"), ],
 [("waiting_producers_/waiting_consumers_", "blocked fibers", INC + "buffered_channel.hpp")], ["completion of every call"])

prop("C09", "An unbuffered channel hands each value to exactly one consumer",
 "A push on an unbuffered channel that reports success returns only after exactly one pop has received that value; a push that reports timeout or closed has handed its value to nobody. Every pop that reports success received a value some push supplied, each value at most once, in the order each producer pushed, unaltered; values pushed by different producers in sequence are received in that sequence.",
 [S, H, F, PR], "every interleaving of 1..3 producers, 1..3 consumers, timeouts and close on 1..3 threads",
 "the hand-over is a slot on the producer's stack; whether a timeout, a close and a take race correctly needs schedules no existing test produces.",
 [INC + "unbuffered_channel.hpp"],
 [("slot pointer exchanged atomically", INC + "unbuffered_channel.hpp try_push_/try_pop_")],
 [("slot_", "value being offered", INC + "unbuffered_channel.hpp")], ["results of every channel call"])

prop("C10", "Unbuffered channel: partners always meet, close frees all",
 "If one fiber is blocked pushing and another popping the same open unbuffered channel, the hand-over happens and both return, and timed forms return at the latest once their deadline has passed. After close() every blocked and every later push reports closed, every later pop that finds no offered value reports closed (value_pop throws channel-closed fiber_error), and nobody stays blocked.",
 [S, F, PR], "all interleavings of producers, consumers, timeouts and close on one or several threads",
 "needs close or a partner's arrival exactly between a waiter's check and its suspension.",
 [INC + "unbuffered_channel.hpp", "src/waker.cpp"],
 [("waiters registered under a spinlock and re-check slot/closed", INC + "unbuffered_channel.hpp")],
 [("closed_", "channel closed", INC + "unbuffered_channel.hpp")], ["completion of every call"])

prop("C11", "Futures deliver the one result of their promise, task or async call",
 "A shared state is satisfied at most once: of any number of concurrent set_value/set_exception/task invocations on a promise or packaged_task exactly one succeeds and the others throw promise_already_satisfied. Every get() on its future or shared_futures returns that very value or reference, or rethrows that very exception, never an incomplete one; a second get_future, or use of an empty future or moved-from promise, throws the documented error, and valid() is truthful. An exception that ends a task never becomes the current exception of another fiber and is destroyed exactly once.",
 [S, PR, F], "all interleavings of setters, getters, waiters, copies and moves on 1..3 threads; value, reference, void and move-only results; results and constructors that throw",
 "tests set the value before or long after the wait, from one fiber; racing setters and many concurrent getters across threads are not sampled.",
 [INC + "future/detail/shared_state.hpp", INC + "future/promise.hpp", INC + "future/packaged_task.hpp", INC + "future/future.hpp", INC + "future/async.hpp", INC + "future/detail/task_object.hpp", "src/future.cpp"],
 [("ready flag under the state mutex", INC + "future/detail/shared_state.hpp")],
 [("ready_", "state satisfied", INC + "future/detail/shared_state_base.hpp")], ["get/wait/set results and exceptions"])

prop("C12", "Waiting on a future always ends: readiness, timeout and broken promises",
 "Every fiber waiting on a future or shared_future is released when the state is satisfied or the last promise or packaged_task able to satisfy it is destroyed, assigned over or reset; in the latter cases get() throws broken_promise. wait_for and wait_until report ready only if the state is satisfied and timeout only if the deadline has been reached.",
 [S, F, PR], "all interleavings of waiters entering or timing out with set_value/set_exception/destruction/move-assignment/reset on other fibers and threads",
 "abandonment racing a waiter that is just suspending, and reset() with a waiting future, are not tested.",
 [INC + "future/detail/shared_state.hpp", INC + "future/promise.hpp", INC + "future/packaged_task.hpp"],
 [("owner_destroyed sets broken_promise", INC + "future/detail/shared_state.hpp"), ("waiters_ condition variable", INC + "future/detail/shared_state_base.hpp")],
 [("waiters_", "blocked getters", INC + "future/detail/shared_state_base.hpp")], ["return of wait*/get"])

prop("C13", "A launched fiber runs exactly once; join waits for it; no thread abandons one",
 "The function of every launched fiber is invoked exactly once with the arguments given, and join() returns only after it has returned, with everything the fiber did visible to the joiner, whoever joins and on whatever thread the fiber ran. Detached fibers also run to completion before their thread ends; joining oneself or a non-joinable fiber throws fiber_error, joinable()/get_id() are truthful, and destroying or assigning over a joinable handle terminates the program.",
 [S, F, PR], "all fork/join/detach programs of a few fibers per thread, all schedules of 1..3 threads, both launch policies, alternative stack allocators",
 "join racing termination on another thread, and threads ending with pending detached or sleeping fibers, need schedule control; tests join on one thread.",
 ["src/fiber.cpp", INC + "fiber.hpp", "src/context.cpp", INC + "context.hpp", "src/scheduler.cpp"],
 [("terminated flag and join queue under one spinlock", "src/context.cpp join/terminate"), ("scheduler destructor runs the dispatcher until no worker is left", "src/scheduler.cpp")],
 [("terminated_", "fiber function has ended", INC + "context.hpp")], ["fiber function entry/exit", "join return"])

prop("C14", "Timed operations wake not before their deadline and always afterwards",
 "this_fiber::sleep_for and sleep_until return only once the given clock has reached the deadline, and every timed wait (sleeps, timed mutexes, condition variables, futures, channel operations) returns once its deadline is past and its fiber can run, whatever other fibers sleep, become ready or are woken meanwhile and however the clocks jump. Fibers whose deadlines have passed all become ready, and a deadline in the past never blocks.",
 [F, S, PR], "arbitrary sets of concurrent deadlines on one or several threads, forward jumps of the steady clock, jumps of the system clock in both directions, stalls, OS-level early or spurious wakeups",
 "tests use one deadline at a time on a real clock; they cannot jump a clock or have an idle thread wake spuriously.",
 ["src/scheduler.cpp", "src/algo/round_robin.cpp", "src/algo/shared_work.cpp", "src/algo/work_stealing.cpp", INC + "operations.hpp", INC + "detail/convert.hpp"],
 [("ordered sleep queue", "src/scheduler.cpp sleep2ready_/wait_until"), ("idle thread sleeps until earliest deadline", "src/scheduler.cpp dispatch")],
 [("sleep_queue_", "fibers with deadlines", INC + "scheduler.hpp")], ["simulated clock at return"])

prop("C15", "Ready fibers are scheduled in FIFO order per thread; launch policies hold",
 "With the default round-robin scheduling a fiber that is ready runs again before any fiber of its thread that became ready later, so every ready fiber is resumed within a bounded number of scheduling decisions and none starves. A fiber launched with policy dispatch starts before its launcher continues and one launched with post starts only after its launcher suspends, yields or ends; a fiber is never executing on two threads at once, stays on its thread under round_robin, and only switches at a suspension point.",
 [PR, S], "all programs of yields, sleeps, launches, wakes and joins by up to ~8 fibers; several threads",
 "tests check two fibers' order in a few fixed programs; the property is over all programs and every mix of local and remote wakeups.",
 ["src/algo/round_robin.cpp", "src/scheduler.cpp", "src/context.cpp", INC + "operations.hpp", INC + "fiber.hpp"],
 [("intrusive FIFO ready queue", "src/algo/round_robin.cpp"), ("switch_to vs schedule on launch", "src/fiber.cpp start_")],
 [("rqueue_", "ready fibers", INC + "algo/round_robin.hpp")], ["order of fiber resumptions"])

prop("C16", "Migrating schedulers run every ready fiber exactly once on some live thread",
 "Under shared_work, work_stealing and the NUMA work_stealing scheduler every ready fiber is eventually resumed by exactly one participating thread: none is lost, duplicated or run by two threads at once, for any number (including one) of participating threads and any number of ready fibers. A thread's main fiber never leaves its thread, and blocked, sleeping or joining fibers are resumed wherever they were last run. While one thread is stuck inside a fiber, the other polling threads run its ready fibers.",
 [S, F, CF, PR], "1..4 threads, suspend option on and off, fibers that block on mutexes, channels, sleeps and joins, queues growing beyond their initial size, stalls of any participant",
 "no existing test uses any of these schedulers.",
 ["src/algo/shared_work.cpp", "src/algo/work_stealing.cpp", "src/numa/algo/work_stealing.cpp", INC + "detail/context_spinlock_queue.hpp", INC + "detail/context_spmc_queue.hpp", INC + "detail/thread_barrier.hpp"],
 [("detach from the worker list before publishing", "src/algo/shared_work.cpp awakened"), ("bounded/growing queues with owner pop and thief steal", INC + "detail/context_spinlock_queue.hpp")],
 [("rqueue_", "shared or stealable ready queue", INC + "algo/shared_work.hpp")], ["per-fiber step log: thread id and exclusivity"])

prop("C17", "Fiber-specific storage is private to its fiber and cleaned up exactly once",
 "A fiber_specific_ptr read by a fiber returns exactly the pointer that same fiber last stored in it (null if none), whatever other fibers, threads or pointers store and wherever the fiber migrates. A stored value is passed to its cleanup function (or deleted) exactly once - when its fiber ends, when reset to a different pointer, or when the pointer object is destroyed - in the fiber that owns it while it ends, and never after release().",
 [S, PR, F], "all programs of get/reset/release/destroy over several pointers and fibers, fibers ending on other threads, migration by shared_work",
 "tests use one fiber at a time; cleanup interplay with migration, several pointers and termination is not sampled.",
 [INC + "fss.hpp", "src/context.cpp", INC + "detail/fss.hpp"],
 [("per-context map keyed by pointer object", "src/context.cpp get_fss_data/set_fss_data")],
 [("fss_data_", "per-fiber values", INC + "context.hpp")], ["get() results", "cleanup invocations"])

prop("C18", "No use after free, double destruction or leak; allocation failure is clean",
 "Whatever the schedule, the library touches no object or stack it has already released, destroys every fiber function, argument, stored result and channel element exactly once, and when all user objects are gone and all threads ended has released all fiber stacks, contexts and shared states. If an allocation or stack allocation fails in an operation that may throw, or a user copy/move throws, the exception reaches the caller, the object operated on stays usable, and nothing is leaked, lost or half-constructed.",
 [S, F, PR], "all schedules of create/terminate/join/detach/wake across threads; failure of each single allocation; throwing user constructors",
 "leaks and use-after-free in the termination and wake-up paths depend on the interleaving of two threads; no test fails an allocation.",
 ["src/context.cpp", "src/scheduler.cpp", INC + "context.hpp", INC + "buffered_channel.hpp", INC + "unbuffered_channel.hpp", INC + "future/detail/shared_state.hpp", INC + "future/detail/task_object.hpp", INC + "fiber.hpp"],
 [("intrusive reference counts", INC + "context.hpp"), ("terminated queue released by the dispatcher", "src/scheduler.cpp release_terminated_")],
 [("use_count_", "references", INC + "context.hpp")], ["allocator accounting", "object life counters"])

prop("C19", "Synchronization publishes data: a happens-before edge for every hand-over",
 "Everything a fiber wrote before unlocking a mutex, notifying under the mutex, arriving at a barrier, pushing to a channel, satisfying a promise, launching a fiber or terminating is visible to the fiber that subsequently locks, is woken, leaves the barrier, pops the value, gets the result, starts as the launched fiber or returns from join, on whatever threads the two run and even if they migrate between threads meanwhile. Plain user data protected by these operations is therefore free of data races.",
 [S, H], "all interleavings, judged by the C++ happens-before relation (vector clocks from the real memory orders used), not by the values x86 happens to deliver",
 "x86 hardware and the compiler hide missing acquire/release ordering from any test; only a happens-before analysis over many schedules can show it.",
 [INC + "detail/spinlock_ttas.hpp", "src/mutex.cpp", INC + "unbuffered_channel.hpp", INC + "buffered_channel.hpp", INC + "future/detail/shared_state.hpp", "src/context.cpp", "src/scheduler.cpp", INC + "detail/context_spmc_queue.hpp", INC + "detail/context_spinlock_queue.hpp"],
 [("acquire/release orders of the spinlocks and of lock-free slots", INC + "detail/spinlock_ttas.hpp")],
 [], ["race detector on user data"])

prop("C20", "All guarantees hold in every build configuration: locks, queues, assertions",
 "Mutual exclusion, lost-wakeup freedom and exactly-once scheduling hold unchanged whichever documented internal lock (test-and-test-and-set, its adaptive and futex-based variants, or the std::mutex fallback) or ready-queue implementation the library is configured with, whatever compiler and optimisation level build it, with lock elision by hardware transactions (BOOST_USE_TSX) whether transactions commit or abort, and on a single thread when it is built without cross-thread synchronisation (BOOST_FIBERS_NO_ATOMICS); a debug build, with the library's assertions enabled, behaves the same and never aborts a correct program. The internal locks themselves exclude each other and always make progress after release, and the stealable queues neither lose nor duplicate an element under concurrent push, pop, steal and growth.",
 [CF, S, F], "nine spinlock configurations, two queue configurations, two compilers, assertions on and off, 2..4 threads, futex calls failing spuriously (EINTR, EAGAIN, early return)",
 "the test build compiles exactly one configuration; the futex based and adaptive locks and the lock-free queue are never compiled by a test.",
 [INC + "detail/spinlock_ttas.hpp", INC + "detail/spinlock_ttas_adaptive.hpp", INC + "detail/spinlock_ttas_futex.hpp", INC + "detail/spinlock_ttas_adaptive_futex.hpp", INC + "detail/spinlock_rtm.hpp", INC + "detail/spinlock.hpp", INC + "detail/futex.hpp", INC + "detail/context_spmc_queue.hpp", INC + "detail/context_spinlock_queue.hpp"],
 [("value 0/1/2 futex protocol", INC + "detail/spinlock_ttas_futex.hpp"), ("Chase-Lev deque", INC + "detail/context_spmc_queue.hpp")],
 [], ["critical-section occupancy", "element accounting"])

prop("C21", "A wakeup from another thread always reaches an idle thread's fiber",
 "A fiber made ready by another thread (unlock, notify, channel transfer, promise, join) is resumed even if its thread has just gone idle or is going idle at that very moment, without waiting for an unrelated timer and without relying on OS-level spurious wakeups. Wakeups are not duplicated: such a fiber becomes ready once per suspension, and a wakeup meant for an earlier suspension never ends a later one.",
 [S, F], "every interleaving of remote wakeups with a thread entering or leaving its idle wait, under all schedulers; several simultaneous wakers; spurious and early OS wakeups",
 "the window is between the last look at the ready queues and the OS-level sleep; multi-thread tests hit it by luck and cannot tell late from lost.",
 ["src/scheduler.cpp", "src/context.cpp", "src/algo/round_robin.cpp", "src/algo/shared_work.cpp", "src/algo/work_stealing.cpp"],
 [("remote ready queue under spinlock then notify", "src/scheduler.cpp schedule_from_remote"), ("flag under mutex", "src/algo/round_robin.cpp suspend_until/notify")],
 [("remote_ready_queue_", "fibers woken by other threads", INC + "scheduler.hpp"), ("flag_", "pending notification", INC + "algo/round_robin.hpp")], ["resumption after wake"])

prop("C22", "Custom schedulers are called as documented, properties follow their fiber",
 "A user-supplied scheduling algorithm is told of each fiber exactly once each time that fiber becomes ready, is asked for the next fiber only when one may run, and a fiber it returns is resumed and one it withholds is not; suspend_until is called only when it has reported nothing ready, with a time point no later than the next deadline, and notify releases it. Each fiber keeps one properties object of its own for its whole life, reachable from its handle and from within, and every property change notification reaches the scheduler of the thread the fiber is on with that fiber and object.",
 [PR, S], "all programs of launches, waits, sleeps and remote wakes under an instrumented priority scheduler on 1..2 threads",
 "no test installs a custom scheduler or properties.",
 [INC + "algo/algorithm.hpp", "src/algo/algorithm.cpp", "src/scheduler.cpp", "src/properties.cpp", INC + "properties.hpp", INC + "fiber.hpp", INC + "operations.hpp", INC + "context.hpp"],
 [("awakened before the fiber is eligible", "src/scheduler.cpp schedule"), ("properties created on first awakened", INC + "algo/algorithm.hpp awakened")],
 [("properties_", "per-fiber properties", INC + "context.hpp")], ["calls received by the algorithm"])

prop("C23", "NUMA discovery and pinning are exact, also while the system changes or fails",
 "topology() returns, ordered by id, one entry per NUMA node that has online CPUs, with exactly its online logical CPUs and its line of node distances; every online CPU is in exactly one entry; on a machine that exposes no nodes there is one node 0 with all online CPUs, and a node without readable distances gets the distance 10. This holds for every CPU list syntax, sparse CPU and node ids and every directory order, however reads are split or interrupted. If opening, reading or scanning fails the call reports a system error or leaves out what it could not read, but never invents CPUs, puts a CPU into a wrong node, ends in another exception or an assertion, or leaves files open; CPUs that come or go during the call may be listed or not, all others are unaffected. pin_thread() restricts exactly the given thread to exactly the given logical CPU or throws the system error.",
 [I, F], "every machine shape, every file system failure and every CPU hotplug event between any two file system accesses",
 "the result depends on the files of the host, on errors of the file system and on CPUs changing state between two accesses; the tests never call it.",
 ["src/numa/linux/topology.cpp", "src/numa/linux/pin_thread.cpp"], [("parsing of sysfs text", "src/numa/linux/topology.cpp"), ("affinity system call", "src/numa/linux/pin_thread.cpp")])

prop("C24", "GPU stream waits suspend only the calling fiber and return every status",
 "cuda::waitfor_all() and hip::waitfor_all() return when, and not before, all work enqueued in the given streams up to the call has completed; they return each given stream exactly once with the status the runtime reported for it, including streams for which registering the callback failed; only the calling fiber is suspended, other fibers of the thread run on; what the stream's work wrote is visible after the wait; and no callback touches the wait's state after it has returned, whatever threads run the callbacks, in whatever order and however early (also before the registration call returned).",
 [S, F], "all completion orders, callback threads and interleavings of callbacks with the registration loop and with the return of the wait; failing registrations and failed streams",
 "needs a GPU and its toolkit; no test includes these headers.",
 [INC + "cuda/waitfor.hpp", INC + "hip/waitfor.hpp"], [("completion callback and condition variable", INC + "cuda/waitfor.hpp"), ("set of pending streams", INC + "hip/waitfor.hpp")])

prop("C25", "The library's own memory is free of data races",
 "Whatever mix of operations the threads of a program perform within the documented rules, any two accesses by different threads to the same memory of the library or of an object it owns or frees (mutexes, wait queues, schedulers and their queues, channel slots, shared states, fiber contexts and stacks, control blocks, global registries), at least one of them a write or the release of the memory and not both atomic, are ordered by happens-before in the C++ memory model.",
 [S], "all schedules and workloads of every part of the library, all spinlock and queue configurations, including stale atomic reads, allocation failures and clock jumps",
 "a data race is undefined behaviour even when every sampled run looks right; whether two accesses are ordered depends on the schedule and on memory orders that x86 hides.",
 [INC, "src"], [("spinlocks, wakers, ready queues", INC + "detail/spinlock_ttas.hpp, src/waker.cpp, src/scheduler.cpp"), ("reference counts", INC + "context.hpp intrusive_ptr_release, " + INC + "future/detail/shared_state.hpp"), ("slots and owners under their spinlock", "src/*mutex.cpp, " + INC + "buffered_channel.hpp")])

prop("C26", "Fibers and dispatchers run on the stacks of the allocators they are given",
 "A fiber or async() call given a stack allocator (copied or moved in, stateful or not) obtains exactly one stack from it, of at least the size the allocator provides, runs entirely on that stack, and hands the same stack back exactly once to that allocator: never while the function runs, and no later than its thread goes idle after the function has ended and the fiber object is gone; live stacks never overlap; an exception of the allocator reaches the caller and nothing is started. initialize_thread() on a thread that has not used the library yet returns true, installs the given algorithm and runs the thread's dispatcher on the one stack taken from the given allocator until the thread ends; on an initialised thread it returns false, only replaces the algorithm (the old one is destroyed, no fiber is lost) and does not use the allocator. The allocator object is destroyed with the last fiber that uses it.",
 [PR, S], "all programs of fibers, nested fibers and async() calls with stateful allocators, launch policies, joins, detaches and late joins, under every scheduler including migrating ones; initialize_thread() first or late, once or twice",
 "no test calls initialize_thread() or launches with an allocator that observes its use; release happens in the dispatcher, on whatever thread the fiber ends.",
 [INC + "fiber.hpp", INC + "context.hpp", INC + "future/async.hpp", "src/context.cpp", INC + "operations.hpp", INC + "stack_allocator_wrapper.hpp"],
 [("control block and stack allocated together", INC + "context.hpp make_worker_context_with_properties"), ("type-erased allocator of the dispatcher", INC + "stack_allocator_wrapper.hpp"), ("per-thread initialisation counter", "src/context.cpp context_initializer")], [], ["allocate()/deallocate() calls", "stack address of running code"])

prop("C27", "An idle thread sleeps in the operating system until there is work",
 "When no fiber of a thread is ready, its dispatcher calls suspend_until() with the earliest deadline of its sleeping fibers, or the maximal time point if none sleeps, never with an earlier one; round_robin, and shared_work and the work_stealing schedulers with suspension enabled, then block the thread until notify() is called or that time point is reached. The idle loop therefore turns only when a notification, a deadline or a fiber becoming ready gives it a reason, however long the thread is idle: no busy waiting, and a consumed notification does not keep the thread awake.",
 [S, PR], "all programs of waits, sleeps, timed waits that are served or expire, futures and channels on 1..3 threads under the four suspending schedulers",
 "busy waiting is invisible in results; no test counts idle turns.",
 ["src/scheduler.cpp", "src/algo/round_robin.cpp", "src/algo/shared_work.cpp", "src/algo/work_stealing.cpp", "src/numa/algo/work_stealing.cpp"],
 [("deadline of the first sleeper", "src/scheduler.cpp dispatch"), ("flag consumed by suspend_until", "src/algo/round_robin.cpp suspend_until")],
 [("flag_", "pending notification", INC + "algo/round_robin.hpp")], ["suspend_until() and notify() calls"])

prop("C28", "Programs over all primitives at once complete with their sequential result",
 "A program whose fibers interact only through blocking operations that all of its fibers reach in one common order (handing values or exceptions through promises, packaged tasks, shared futures, async(), buffered and unbuffered channels and channels with several producers and consumers closed by the last producer; flags and semaphores of mutex and condition variable; barriers; launching, joining and detaching fibers; critical sections under any of the four mutexes; fiber-specific storage; sleeps and timed waits that are repeated until they succeed) cannot deadlock and has one possible result. Under every scheduler, placement on threads and schedule it runs to its end, every fiber computes the value its sequential execution computes, stays the same fiber throughout, and sees the memory its partners wrote before they handed over.",
 [S], "random programs of 2..10 fibers and up to 25 collective operations on 1..3 threads, with all schedulers, spinlock and queue configurations, stalls, clock jumps, spurious wakeups and stale atomic reads",
 "the tests exercise one primitive at a time; what one leaves behind in wait queues, sleep queues, wakers and schedulers meets the next one only in composed programs.",
 [INC, "src"], [("one waker per wait, outdated by its epoch", "src/waker.cpp, src/context.cpp wake"), ("ready, sleep and remote queues shared by all primitives", "src/scheduler.cpp"), ("every blocking operation of the library", INC)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
