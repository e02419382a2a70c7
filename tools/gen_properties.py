#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
B = "portable_concurrency/bits/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[f if '/' in f else B+f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "A stored result reaches its consumer intact, and never changes afterwards",
 "Whatever value or exception a producer (promise, packaged task, async call, ready/exceptional future maker) stores is exactly what the consumer of its future obtains: the same value (moved, never silently copied or moved out of an object the user still owns), the same referenced object, the same exception. Once a result is stored it never changes: another attempt to satisfy the promise while its future exists fails with promise_already_satisfied and leaves the first result untouched. If constructing the stored value throws, the exception reaches the caller of set_value, the future stays unready and the promise can still be satisfied.",
 ["schedules", "inputs", "histories"],
 "every value type (void, value, reference, move-only), every producer kind, every outcome, every order of set / get / wait / re-set, from any threads",
 "the tests sample a handful of values from one or two threads with sleeps; they never race the producer with the consumer nor count copies nor re-satisfy under load",
 ["shared_state.h", "promise.h", "packaged_task.h", "utils.h", "future.hpp", "make_future.h", "either.h"],
 [("the result is written once into the shared storage before readiness is published", B+"shared_state.h emplace/set_exception"),
  ("value moved out by get after waiting", B+"future.hpp future::get")],
 [("shared state storage", "empty / value / forwarded / exception", B+"shared_state.h")],
 ["promise::set_value/set_exception", "future::get", "shared_future::get"])

prop("C02", "Everything before the result is visible to whoever observes readiness",
 "All effects sequenced before a producer satisfies (or abandons) a future are visible, without any data race, to every thread that observes the readiness: through get, wait, is_ready returning true, a timed wait returning ready, a notification, a continuation, when_all/when_any or unwrapping. The same holds from posting a task to a thread pool to the task body, from task bodies to a returned pool wait(), and from latch count-downs to released latch waiters. Concurrent use of distinct future/shared_future copies of one shared state and of the pool executor never races inside the library.",
 ["schedules"],
 "all thread interleavings and all memory-order-permitted executions of producer and observer threads",
 "the tests run on x86 where a missing acquire/release is invisible, use few threads, and never run under a race detector",
 ["once_consumable_stack.hpp", "portable_concurrency.cpp", "shared_state.h", "when_all.h", "when_any.h", "closable_queue.hpp", "timed_waiter.h"],
 [("acquire/release publication of the consumed marker", B+"once_consumable_stack.hpp push/consume/is_consumed"),
  ("atomic counters/flags of when_all/when_any", B+"when_all.h, when_any.h"),
  ("mutex protected queue and latch", B+"closable_queue.hpp, portable_concurrency.cpp")],
 [("continuation stack head", "list of pending continuations or consumed marker", B+"once_consumable_stack.h")],
 ["user data written before set_value and read after any readiness observation"])

prop("C03", "Every continuation and notification fires exactly once, and only when ready",
 "Each function attached with then, next or notify to a future or shared_future whose outcome is eventually produced, and whose own result is kept alive or detached, is scheduled exactly once: never lost, never duplicated, never before the outcome is available. This holds for any number of attachments made from any threads, before, after or concurrently with the moment the future becomes ready. When it is attached without an executor (or with an in-place one) to an already ready future it runs before the attaching call returns, and when attached before readiness it has run by the time the satisfying call returns.",
 ["schedules", "histories"],
 "any interleaving of attaching threads with the satisfying thread; any number and mix of attachments",
 "tests attach one or two continuations deterministically before or after set; the race between attach and set is never driven",
 ["once_consumable_stack.hpp", "continuations_stack.h", "portable_concurrency.cpp", "then.hpp", "future.hpp", "shared_future.hpp"],
 [("once-consumable stack: a push either lands before consumption or reports failure and the pusher runs the function itself", B+"once_consumable_stack.hpp"),
  ("one-shot continuation state", B+"then.hpp cnt_state::schedule/run")],
 [("continuation stack", "pending continuations", B+"continuations_stack.h")],
 ["body of attached functions"])

prop("C04", "Blocked waiters are always released; the library itself never deadlocks",
 "Every thread blocked in get, wait or an unexpired timed wait on a future or shared_future returns once the outcome of that future has been produced (or its producer abandoned), however many threads wait and however waiting, satisfying, spurious wake-ups and attachment of continuations interleave. No interleaving of library calls made from user functions, continuations, cancel actions or destructors of user objects held by the library (captured state, stored values) blocks forever as long as the awaited outcomes are produced.",
 ["schedules"],
 "all interleavings of waiters with producers, including spurious wake-ups and re-entrant library calls from continuations and destructors",
 "a lost wake-up or self-deadlock needs one particular interleaving or a destructor that re-enters the library; tests use sleeps and single waiters",
 ["portable_concurrency.cpp", "future_state.h", "closable_queue.hpp", "timed_waiter.h", "future.hpp"],
 [("waiting pushes a wake-up continuation guarded by mutex+cv with predicate", B+"portable_concurrency.cpp wait()"),
  ("tasks executed and destroyed outside the queue lock", B+"portable_concurrency.cpp process_queue, closable_queue.hpp")],
 [], ["return of get()/wait()"])

prop("C05", "Abandoned work always surfaces as broken_promise, and only then",
 "If a producer disappears without producing an outcome - a promise or packaged task destroyed or assigned over, a task or continuation dropped by its executor, an interruptible continuation's promise dropped, a thread pool destroyed with the task still queued - every consumer of that future becomes ready with future_error(broken_promise), and the abandoned function object is destroyed without being run. If the outcome was produced before the producer disappeared, consumers see that outcome and never broken_promise; a promise or task that was merely moved from abandons nothing.",
 ["schedules", "fault_sequences", "histories"],
 "every place where the producer can be dropped, in every order with waiting, attaching, and satisfying",
 "tests cover each drop site once, single threaded, with no consumer racing",
 ["promise.h", "packaged_task.h", "then.hpp", "shared_state.h", "async.h", "portable_concurrency.cpp"],
 [("abandon on destruction/assignment of the producer", B+"promise.h promise_common::abandon, packaged_task.h ~packaged_task"),
  ("abandon on destruction of an unexecuted continuation task", B+"then.hpp ~cnt_action")],
 [], ["future::get", "destructor of captured function state"])

prop("C06", "Errors and values propagate through then/next chains as specified",
 "In any chain of continuations, next runs its function with the parent's value and only if the parent holds a value; otherwise the function is not run and the very same exception becomes the result. then always runs its function, with the parent passed as a ready future; an exception of any type leaving a plain then/next function becomes the result of that link, and nothing else does. The outcome of the whole chain equals the outcome of evaluating the same functions sequentially, independent of executors, threads and the moment of attachment.",
 ["programs", "schedules", "inputs"],
 "all chains of then/next over future and shared_future, all value types and exception types, all executors, any attach/ready order",
 "tests check single links with one exception type; composition, non-standard exception types and racing attachment are not covered",
 ["then.hpp", "utils.h", "shared_state.h", "future.hpp", "shared_future.hpp"],
 [("exception short-circuit in next decorators", B+"then.hpp decorate_*_next"),
  ("catch-all storing of the function's exception", B+"utils.h set_state_value")],
 [], ["outcome of the last future", "functions invoked"])

prop("C07", "A future of a future is transparently unwrapped",
 "When an async function, packaged task or continuation returns a future or shared_future, the resulting future becomes ready only when the returned future is ready, and then carries exactly its value or exception (including broken_promise when it is abandoned). If the returned future is invalid the result is broken_promise; if the function throws, the exception. Unwrapping nests to any depth, works for every value type, whichever of the two becomes ready first, and dropping the outer future releases the inner one.",
 ["schedules", "programs"],
 "all outer kinds x inner kinds x readiness orders x depths",
 "tests cover ready/not ready sequentially; inner completing concurrently with the outer function's return and nested depths are not covered",
 ["shared_state.h", "then.hpp", "utils.h", "packaged_task.h", "async.h"],
 [("forwarding storage alternative plus readiness subscription on the inner state", B+"shared_state.h unwrap")],
 [("forwarded state", "storage alternative holding the inner state", B+"shared_state.h")],
 ["outer future"])

prop("C08", "Dropping the last future cancels work that has not started",
 "When a future, or every copy of a shared_future, at the end of a chain of continuations (not crossing when_all/when_any) is destroyed or reset before the functions leading to it have started, those functions never run, and they and everything they captured are destroyed by the time the drop returns (unless something is concurrently executing them). Satisfying a promise or running a task nobody awaits any more is a harmless no-op that neither throws nor runs anything; work already started completes normally; functions another live future still depends on are not cancelled.",
 ["schedules", "histories"],
 "any drop point relative to satisfying/starting, across threads; any chain shape; shared copies",
 "tests drop futures deterministically in one thread; the race drop-vs-satisfy and prompt destruction across longer or shared chains are untested",
 ["promise.h", "then.hpp", "packaged_task.h", "future.hpp", "shared_future.hpp"],
 [("producers hold only weak references to the shared state", B+"promise.h, packaged_task.h, then.hpp cnt_action"),
  ("children own parents through the pending continuation", B+"then.hpp decorate_*")],
 [], ["function bodies", "destructors of captures"])

prop("C09", "Detached work is completed even if every future is dropped",
 "After detach() on a future or shared_future, all functions leading to that future are run to completion exactly once when their inputs become available, even if the returned future is destroyed immediately, from any thread, at any time; the promise keeps reporting that it is awaited until then. Continuations attached after the detach remain individually cancellable, and everything kept alive by the detach is released once the outcome has been produced or abandoned.",
 ["schedules", "histories"],
 "any chain, any detach position, any drop point, any thread",
 "tests check validity and is_awaiten only, never that detached work really runs and is released",
 ["future.hpp", "shared_future.hpp", "future_state.h"],
 [("self reference kept in the state's own continuation list until it is executed", B+"future.hpp future::detach")],
 [], ["function bodies", "destructors of captures"])

prop("C10", "The cancel action runs exactly once iff the result is dropped unproduced",
 "A cancel action given to a promise is invoked exactly once if the last future/shared_future is destroyed before any value, exception or abandonment was recorded, and never otherwise, however setting, abandoning and dropping interleave; it is destroyed afterwards. is_awaiten() is true as long as a future or shared_future that could retrieve the result exists (including through attached continuations and unwrapping), is false once the last one is gone, and never turns back to true.",
 ["schedules", "histories"],
 "all interleavings of set/abandon/drop; all ways of keeping the result awaited",
 "tests are sequential; the race of set against drop decides who wins and is never exercised",
 ["promise.h"],
 [("cancel action invoked from the destructor of an unexecuted state", B+"promise.h ~cancellable_state"),
  ("weak reference expiry", B+"promise.h is_awaiten")],
 [], ["cancel action invocations", "promise::is_awaiten"])

prop("C11", "when_all becomes ready exactly when every input is ready",
 "The future returned by when_all (arguments, iterator range or vector, futures, shared_futures or mixed, any count including zero) becomes ready when and only when all inputs have become ready, by value, by exception or by abandonment, in any order and from any threads. Its result holds every input exactly once, in the input order, valid, ready and with its own outcome; unique inputs are consumed, shared inputs stay usable by the caller.",
 ["schedules", "inputs", "histories"],
 "any number and mix of inputs, any readiness order, any threads, all overloads",
 "tests use up to five inputs completed mostly sequentially; concurrent completion is not explored",
 ["when_all.h", "future_sequence.h", "portable_concurrency.cpp"],
 [("atomic count of remaining operations with one extra for registration", B+"when_all.h when_all_state")],
 [("operations_remains_", "inputs not ready yet", B+"when_all.h")], ["returned future"])

prop("C12", "when_any becomes ready with the index of a ready input",
 "The future returned by when_any (arguments, iterator range or vector, futures, shared_futures or mixed) becomes ready as soon as one input is ready and never before, exactly once; index names an input that is ready and all inputs are returned in their original order with their own outcomes intact, losers still pending and usable. The result is not altered by inputs that become ready later or simultaneously; with no inputs it is immediately ready with index size_t(-1).",
 ["schedules", "inputs", "histories"],
 "any number and mix of inputs, any order and simultaneity of completion, all overloads",
 "simultaneous completions and late losers are schedule dependent; tests complete inputs one at a time",
 ["when_any.h", "future_sequence.h", "portable_concurrency.cpp"],
 [("one-shot flag choosing the winner before publishing", B+"when_any.h when_any_state::notify")],
 [("ready_flag_", "winner chosen", B+"when_any.h")], ["returned future"])

prop("C13", "Functions run only through the executor they were given, posted once",
 "A function passed together with an executor to async, then, next or notify is handed to exactly that executor, exactly once, and only when its input is ready; it runs only when and where the executor runs it, whatever executor completed the input, and a skipped function is never run anywhere. A function attached without executor runs inside the call that makes its input ready or, if already ready, inside the attaching call. Function, arguments and executor are decay-copied by the attaching call: later changes to the originals or their destruction have no effect.",
 ["schedules", "programs", "configurations"],
 "all executors (in-place, deferred, pool, dropping, user defined), all attach kinds, all readiness orders",
 "tests check thread ids for one pool; they do not count posts nor mix executors in a chain",
 ["then.hpp", "async.h", "future.hpp", "shared_future.hpp", "execution.h", "thread_pool.h"],
 [("executor stored with the continuation and used once", B+"then.hpp cnt_state::schedule"),
  ("post found by ADL", B+"async.h, future.hpp notify")],
 [], ["post() of user executors"])

prop("C14", "The thread pool runs every accepted task exactly once before wait() returns",
 "Every task posted to a static_thread_pool that is not stopped before wait() is called runs exactly once, on a worker or attached thread, and has finished when wait() returns; tasks never run inside the posting or waiting call, and nothing runs after wait() returned. No task is lost or left unserved while a worker is idle, for any number of concurrent posters and workers; a task object is destroyed as soon as it has been executed, and tasks, their destructors and their captures may themselves use the pool. A pool with one worker runs tasks one at a time in the order they were posted.",
 ["schedules", "histories"],
 "any number of workers, attached threads, posters and tasks, any interleaving with wait()",
 "tests post one task to a one-thread pool",
 ["thread_pool.h", "closable_queue.hpp", "portable_concurrency.cpp"],
 [("mutex/cv protected closable queue", B+"closable_queue.hpp"), ("worker loop and joining", B+"portable_concurrency.cpp process_queue/attach/wait")],
 [("queue_, closed_", "pending tasks / no more accepted", B+"closable_queue.h")], ["task bodies", "task destructors"])

prop("C15", "Stopping or destroying a pool abandons queued tasks cleanly",
 "After stop() returns each worker completes the task it is executing and starts at most one more; destroying a pool stops it first, so it does not drain the queue; tasks posted after stop() or wait() are never run; stop, wait, attach and (once no attach call is pending) destruction always return, in any combination, once running tasks finish. Tasks that were accepted or offered but not run are destroyed exactly once, unexecuted, at the latest when the pool is destroyed, so futures depending on them become ready with broken_promise.",
 ["schedules", "fault_sequences", "histories"],
 "any stop/wait/destroy point relative to posting and running tasks, any thread counts, attached threads",
 "one test stops a pool with one queued task, after synchronising with the worker",
 ["portable_concurrency.cpp", "closable_queue.hpp", "thread_pool.h"],
 [("stop flag plus queue closing", B+"portable_concurrency.cpp static_thread_pool::stop"), ("drop of tasks pushed after close", B+"closable_queue.hpp push")],
 [("stopped_", "workers should leave", B+"thread_pool.h")], ["task bodies", "futures of pool tasks"])

prop("C16", "A latch opens exactly when counted down to zero, and may then be destroyed",
 "wait() and count_down_and_wait() return only after the counter reached zero and always return once it has, for every waiter; is_ready() is true exactly from then on and never reverts; count_down never blocks. As soon as the latch is open any participant may destroy it, even while the other waiters and the thread whose count-down opened it are still returning: the destructor waits for them and nothing touches the latch afterwards.",
 ["schedules"],
 "any number of waiters and counters, any count_down amounts, any destroyer, spurious wake-ups",
 "latch has no test of its own and the destruction race needs a specific preemption point",
 ["latch.h", "portable_concurrency.cpp"],
 [("counter and waiters under one mutex, destructor waits for waiters", B+"portable_concurrency.cpp latch")],
 [("counter_, waiters_", "remaining count / threads inside", B+"latch.h")], ["latch API"])

prop("C17", "Timed waits report ready iff ready, and time out only after the timeout",
 "timed_waiter and the wait_for/wait_until of future and shared_future return ready only if the future is ready, and timeout only if the full duration elapsed (the time point passed) while the future was not ready before; a future that is already ready is reported ready for any timeout, even zero or past. They return promptly when the future becomes ready while waiting; neither timing out nor polling repeatedly or from several waiters consumes or disturbs the future, its other waiters or continuations; a waiter may outlive its future.",
 ["schedules", "inputs", "histories"],
 "any timeout (zero, negative, past, huge), any interleaving with readiness, spurious wake-ups, many waiters",
 "tests use a few fixed timeouts on wall-clock time",
 ["timed_waiter.h", "future.hpp", "shared_future.hpp"],
 [("shared waiter record notified by a continuation, predicate wait", B+"timed_waiter.h")],
 [("waiter::notified", "future became ready", B+"timed_waiter.h")], ["return value and elapsed time"])

prop("C18", "unique_function owns exactly one callable and calls exactly it",
 "A unique_function calls the callable it was constructed from - small or large, move-only, function or member pointer, reference_wrapper - with perfectly forwarded arguments and returns its result or reference unchanged or lets its exception pass. Through any sequence of construction, moves, swaps, (self-)assignments and destruction every stored callable is owned by exactly one wrapper and destroyed exactly once; a wrapper built from nothing, nullptr or a null pointer/empty function is empty, tests false and throws bad_function_call when called. Function pointers, member pointers, reference wrappers, packaged tasks and the tasks the library hands to executors are stored without heap allocation.",
 ["inputs", "programs", "histories"],
 "all callables and signatures, all operation sequences",
 "tests check single operations on a few lambdas",
 ["unique_function.hpp", "small_unique_function.hpp", "unique_function.h", "small_unique_function.h", "invoke.h"],
 [("small buffer with move/destroy/call table", B+"small_unique_function.hpp"), ("heap box for large callables", B+"unique_function.hpp")],
 [], ["unique_function API"])

prop("C19", "No object held by the library is leaked, destroyed twice or used after free",
 "For every history of creating, sharing, attaching, combining, unwrapping, detaching, satisfying, abandoning and dropping futures from any threads, every value, exception, function object, executor copy and cancel action given to the library is destroyed exactly once, all memory it allocated is released when the last handle is gone and pending producers are resolved, and no memory or stack object is accessed outside its lifetime. No undefined behaviour is reached by any valid use of the API.",
 ["programs", "schedules", "histories"],
 "random programs over the whole API, any interleaving",
 "tests run without sanitizers and do not compose operations",
 ["shared_state.h", "then.hpp", "either.h", "once_consumable_stack.hpp", "when_all.h", "when_any.h", "small_unique_function.hpp", "packaged_task.h", "promise.h"],
 [("shared ownership of states, weak references from producers", B+"then.hpp, promise.h, packaged_task.h"), ("tagged storage destroying its alternative", B+"either.h")],
 [], ["constructors/destructors of tracked objects", "allocator calls", "sanitizer reports"])

prop("C20", "All copies of a shared_future observe one and the same result",
 "Every copy of a shared_future, and every repeated get() on it, yields a const reference to the same stored object (or rethrows the same exception), which stays alive and unmodified as long as any copy lives; reading, waiting, copying, dropping copies and attaching continuations may be done concurrently from many threads through their own copies. Attaching any kind of continuation or notification, waiting and getting leave a shared_future valid; continuations receive the shared value by const reference and cannot disturb other consumers.",
 ["schedules", "histories"],
 "any number of copies and readers, any interleaving with satisfying, copying and dropping",
 "tests use one or two copies in one thread",
 ["shared_future.hpp", "shared_future.h", "then.hpp"],
 [("shared ownership of the state", B+"shared_future.h state_"), ("const access for shared continuations", B+"then.hpp decorate_shared_*")],
 [], ["addresses and values returned by get"])

prop("C21", "Validity and error codes follow the documented state machine",
 "In every sequence of operations on futures, shared_futures, promises and packaged tasks: valid() is true exactly while the object is associated with a result; get, share, then, next and detach invalidate a unique future, detach also a shared one, moving invalidates the source, and get invalidates it even when it throws; reading, waiting, attaching, satisfying or invoking through an invalid object fails with no_state, a second get_future with future_already_retrieved, a second satisfaction or invocation while awaited with promise_already_satisfied, and such failures change nothing. is_ready() never reverts from true to false.",
 ["histories", "inputs"],
 "all operation sequences over pools of objects, all value types",
 "tests check isolated two-step sequences",
 ["future.hpp", "shared_future.hpp", "promise.h", "packaged_task.h", "either.h"],
 [("state pointer emptied by moves", B+"future.h, either.h"), ("explicit checks throwing future_error", B+"portable_concurrency.cpp")],
 [], ["valid(), is_ready(), thrown error codes"])

prop("C22", "A packaged task or async call runs its function at most once with its arguments",
 "packaged_task and async invoke the function given exactly once when run and not abandoned or cancelled, with the arguments given (async: decay-copied when the call is made and moved into the function, so move-only arguments and callables work), and deliver its result or exception to the future; conversions to the declared result type follow the language and objects merely returned by reference are never moved from. A second invocation throws promise_already_satisfied without running the function again, and the function object is destroyed after it ran even if the task object lives on.",
 ["inputs", "histories", "schedules"],
 "all signatures, callables, argument categories, results; any order of run/retrieve/move/drop across threads",
 "tests sample a few signatures and never race running against retrieving results or dropping",
 ["packaged_task.h", "async.h", "utils.h", "invoke.h"],
 [("one-shot function storage", B+"packaged_task.h task_state::run"), ("argument tuple", B+"async.h task")],
 [], ["function invocations, argument identities"])

prop("C23", "An interruptible continuation controls its result through its promise",
 "A continuation taking (promise, future) is run once when its parent is ready, receiving the ready parent; the resulting future is satisfied by whatever is set through that promise, during or after the continuation and from any thread, exactly like an ordinary promise, and becomes broken_promise if the promise is dropped unset. The promise reports is_awaiten() false as soon as the result has been dropped, also while the continuation is running; setting it then is a no-op.",
 ["schedules", "histories"],
 "any place/thread/time where the promise is set, moved or dropped; any drop point of the result",
 "three sequential tests exist",
 ["future.hpp", "shared_future.hpp", "promise.h", "then.hpp", "concurrency_type_traits.h"],
 [("promise built over a weak reference to the continuation's state", B+"future.hpp then(E&&, F&&) interruptible overload")],
 [], ["resulting future", "promise::is_awaiten"])

prop("C24", "Coroutines await and produce futures faithfully",
 "A coroutine returning a future delivers its co_return value, or the exception leaving it, to that future. co_await on a future or shared_future resumes the coroutine exactly once, only when it is ready, with its value or exception, whether it was ready before, becomes ready while suspending or later, on any thread; the coroutine frame and everything in it is destroyed exactly once.",
 ["schedules", "programs"],
 "all value types, ready/not ready/racing awaits, nested coroutines, exceptions",
 "no test is compiled with coroutine support at all",
 ["coro.h", "promise.h", "future.hpp", "shared_future.hpp"],
 [("promise as coroutine promise_type", B+"promise.h"), ("resume handle pushed as continuation", B+"future.hpp await_suspend")],
 [], ["coroutine bodies, returned futures"])

prop("C25", "A promise created with an allocator uses and balances that allocator",
 "A promise created with a user allocator takes its shared state from that allocator, delivers results exactly like an ordinary promise, and returns every block to an equal allocator with the size it was requested with, exactly once, at the latest when promise, futures and pending continuations are gone; waiting on or detaching such a future also allocates only through it. Allocation failure reported by the allocator reaches the caller and leaves the future unaffected and usable.",
 ["histories", "schedules", "fault_sequences"],
 "any history of use, stateful allocators, failure of any single allocation",
 "tests use an arena whose deallocate is a no-op",
 ["promise.h", "shared_state.h", "once_consumable_stack.h"],
 [("allocate_shared with the user allocator", B+"promise.h"), ("list nodes carrying their allocator", B+"once_consumable_stack.h allocate_list_node")],
 [], ["allocator calls"])

prop("C26", "An exception leaving a user function is delivered or fatal, never lost",
 "An exception of any type leaving a function whose result is a future (async, packaged task, then, next, on any executor, pool worker or attached thread) goes to that future and nowhere else: it never escapes from the library call that runs, posts, attaches or satisfies, never reaches the executor, and a thread pool keeps serving its other tasks. Where there is no future to carry it - a plain task posted to the thread pool, run by a worker or an attached thread, or an interruptible (promise taking) continuation - std::terminate is called; the exception is neither swallowed nor thrown into the library's caller.",
 ["histories", "schedules", "fault_sequences"],
 "any exception type, any place and executor, any number of other tasks",
 "tests throw only std::runtime_error derived exceptions in a few places and never look at the fatal cases",
 ["portable_concurrency.cpp", "future.hpp", "shared_future.hpp", "then.hpp", "utils.h", "packaged_task.h"],
 [("noexcept process_queue", B+"portable_concurrency.cpp process_queue"), ("noexcept continuation body", B+"then.hpp cnt_state::run"), ("exception captured into the state", B+"utils.h set_state_value")],
 [], ["termination of a forked child", "resulting futures"])

prop("C27", "A library call that fails has no effect beyond its failure",
 "If memory (or threads) runs out, or copying the user's function, argument or value throws, inside a library call - creating a promise, packaged task, async call or ready/exceptional future, set_value, then, next, notify, detach, share, wait, timed wait, when_all, when_any, a post to the thread pool or its construction (also when a thread cannot be created) - that very exception reaches the caller (for a user function run inside the call: the future of that function). The function given to the failed call never runs and is destroyed, a unique future is at worst consumed, and nothing leaks; every other participant - the promise, shared copies, earlier continuations, notifications, waiters and tasks - behaves exactly as if the failed call had not been made.",
 ["fault_sequences", "histories", "schedules"],
 "any position of the failing allocation or copy inside the call, any state of the future, concurrent satisfaction",
 "tests never make an allocation or a copy fail except in one or two constructors",
 ["once_consumable_stack.hpp", "future.hpp", "shared_future.hpp", "then.hpp", "promise.h", "packaged_task.h", "async.h", "when_all.h", "when_any.h", "closable_queue.hpp", "timed_waiter.h"],
 [("node allocated before it is linked", B+"once_consumable_stack.hpp push"), ("state built before it is attached", B+"then.hpp make_then_state"), ("value constructed before the state changes", B+"either.h emplace")],
 [], ["exception reaching the caller", "outcomes of all other futures", "live objects and heap blocks"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
