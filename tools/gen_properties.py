#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
H = "include/kelcoro/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[H+f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "A generator yields exactly its program's values, in order and on demand",
  "Iterating a generator produces exactly the values its body yields, in program order, where yielding the elements of another generator or range splices that sequence in place to any nesting depth. The body runs only when the next value is asked for, so every side effect happens between the two values that surround it in the program. Stopping early and calling begin again continues with the next not yet produced value, and the end is reported exactly when the body has finished.",
  ["programs", "inputs"],
  "every generator program (yields by value, copy and reference, nested generators and ranges of any depth and width, empty and default-constructed leaves, leaves allocated from other memory resources) and every consumer that breaks and resumes at arbitrary points",
  "Tests sample about a dozen fixed programs; leaf attach and detach depends on the whole shape of the nesting tree and on where the consumer stops.",
  ["generator.hpp", "noexport/generators_common.hpp", "memory_support.hpp"],
  [("attach_leaf", "noexport/generators_common.hpp"), ("generator_promise::final_awaiter, skip_this_leaf", "generator.hpp"), ("extract_from / to_generator", "noexport/generators_common.hpp")],
  [("current_worker/root/owner links", "the innermost coroutine that is resumed next", "generator_promise")],
  ["values seen by the iterator", "order of body side effects relative to values", "construction and destruction of body locals"])

p("C02", "An exception in a generator skips only the failing part and loses nothing else",
  "When a generator body throws, the exception reaches the consumer out of the increment or begin that ran the body, with its original identity, after every local of the failing body has been destroyed. If the failing body was nested inside another generator, only that nested part is skipped: a new begin continues in the enclosing body right after its failed nested yield and produces all remaining values, and if the outermost body failed, the generator is finished and iterates over nothing.",
  ["programs", "inputs"],
  "every generator program with throws at arbitrary points of arbitrary nesting levels (before the first value, between values, at the end, several times), and consumers that catch and continue",
  "Tests throw from a couple of fixed positions; the links between nesting levels that must be repaired differ for each position and history.",
  ["generator.hpp", "noexport/generators_common.hpp"],
  [("generator_promise::unhandled_exception", "generator.hpp"), ("skip_this_leaf", "generator.hpp")],
  [("current_result", "null exactly when nothing can be dereferenced", "generator")],
  ["exceptions leaving begin and increment", "values after a new begin"])

p("C03", "Generator objects own their coroutine: moves, swaps, clears keep state exact",
  "Moving, swapping, assigning, clearing, releasing and resetting generators carries the not yet produced remainder of the sequence with the coroutine, and iterators keep following the objects they were taken from. A cleared, released, moved-from, finished or default-constructed generator is empty and iterates over nothing. Each coroutine frame, with all locals and arguments still alive in it and in generators it is nested in, is destroyed exactly once, at whatever point of its execution it is abandoned.",
  ["histories", "programs"],
  "every sequence of generator operations (iterate a few values, move, swap, self-swap, assign, clear, release, reset, compare, destroy) over any number of generators in any state of execution",
  "Tests cover single operations in one state; a stale internal link only shows after a specific operation sequence.",
  ["generator.hpp"],
  [("swap / reset / release / clear", "generator.hpp"), ("prepare_to_start", "generator.hpp")],
  [("top, current_result", "owned frame and the current value", "generator")],
  ["values after each operation", "emptiness", "live objects and live memory"])

p("C04", "Yielded objects keep identity and lifetime, also for two-way communication",
  "Dereferencing the iterator gives access to the very object that was yielded: a temporary or reference yield gives that object itself, writes through it or through the output iterator are seen by the body when it resumes, and a yield of a const lvalue gives a private copy so that the original never changes. The object stays alive and unchanged until the next increment, for generators, channels and in-place generators and through any nesting.",
  ["inputs", "programs"],
  "every mix of rvalue, lvalue, const-lvalue, by-reference and reference-typed yields, nested to any depth, for every yielded type (move-only, copyable, large, throwing copy, reference, empty), with consumers that write, move out or only read",
  "Tests check a few ints and strings; lifetimes of temporaries and copies held across suspension are only visible with instrumentation.",
  ["generator.hpp", "channel.hpp", "inplace_generator.hpp", "noexport/generators_common.hpp"],
  [("hold_value_until_resume", "noexport/generators_common.hpp"), ("yield_block / by_ref", "generator.hpp"), ("generator_output_iterator", "generator.hpp")],
  [], ["addresses and contents observed by body and consumer", "object lifetimes"])

p("C05", "A channel yields exactly its program's values across asynchronous hops",
  "A coroutine consuming a channel receives exactly the values the channel body yields, in program order, where yielding the elements of another channel, generator or range splices that sequence in place to any nesting depth. This holds when bodies suspend and continue on other threads before and between yields and when the consumer itself hops threads between values: each value resumes the waiting consumer exactly once, producer and consumer never run at the same time, and everything each did before handing over is visible to the other. Requesting the next value from a finished or empty channel does not suspend and reports the end.",
  ["programs", "schedules"],
  "every channel program with nesting and thread hops at arbitrary points, every consumer (loop, begin again after break, next), and every schedule of the threads involved",
  "Tests run a handful of programs with natural timing and cannot see overlap or missing ordering between producer and consumer.",
  ["channel.hpp", "noexport/generators_common.hpp"],
  [("channel_promise::yield_value / final_awaiter", "channel.hpp"), ("starter / next_awaiter", "channel.hpp"), ("attach_leaf", "noexport/generators_common.hpp")],
  [("consumer handle", "the coroutine to resume with the next value", "channel")],
  ["values and their order", "side effect order", "happens-before between producer and consumer"])

p("C06", "Channel exceptions and object operations never lose or duplicate values",
  "An exception thrown by a channel body ends the running iteration and is rethrown to the consumer exactly once (or handed out exactly once when taken explicitly), and when it came from a nested channel a new begin continues in the enclosing body right after the failed nested part. Moving, swapping, assigning, clearing, releasing and resetting channels carries the unproduced remainder with the coroutine, iterators keep following the objects they were taken from, and empty or cleared channels produce nothing. Every frame and every object alive in it is destroyed exactly once.",
  ["histories", "programs"],
  "every channel program with throws at arbitrary nesting levels, and every sequence of channel object operations between values",
  "Tests exercise one throw position and hardly any object operations.",
  ["channel.hpp"],
  [("channel_promise::unhandled_exception", "channel.hpp"), ("channel::swap, reset, release, clear", "channel.hpp"), ("channel_iterator destructor, take_exception", "channel.hpp")],
  [("exception", "pending exception for the consumer", "channel")],
  ["values", "exceptions", "live objects"])

p("C07", "An in-place generator yields its exact sequence and owns its frame",
  "An in-place generator has computed its first value when creation returns, then produces exactly the values its body yields in program order, each increment running the body to its next yield, and reports the end exactly when the body has finished. Moving and swapping transfer the remaining sequence, a moved-from generator is empty, and an exception out of an increment leaves it finished with all body locals destroyed exactly once.",
  ["programs", "histories"],
  "every flat generator program (0..n yields of all yield forms, throws) and every sequence of moves, swaps, increments and destruction",
  "Tests cover few fixed sequences and no exceptions or interleaved object operations.",
  ["inplace_generator.hpp"],
  [("inplace_generator_promise", "inplace_generator.hpp"), ("move constructor / swap", "inplace_generator.hpp")],
  [], ["values", "emptiness", "live objects and memory"])

p("C08", "A task runs lazily, at most once, and delivers its result or exception intact",
  "A task's body does not start before the task is awaited, waited for or started, and then runs exactly once. Awaiting it gives exactly the value, reference or exception its body produced, also through chains of tasks, after completion on another thread, on a repeated await and via the blocking getter; results built in the return place are delivered without an extra copy. Arguments, locals and the result are destroyed exactly once whether the task is finished, never started, detached or abandoned while suspended.",
  ["programs", "histories", "schedules"],
  "every tree of tasks awaiting tasks with values, references, void, move-only and throwing results, thread hops at arbitrary points, and every sequence of move, wait, await, get, detach, release and destroy",
  "Tests sample a few shapes, mostly on one thread, and cannot observe object lifetimes.",
  ["task.hpp", "common.hpp", "async_task.hpp"],
  [("task_promise::final_suspend, who_waits", "task.hpp"), ("return_block", "common.hpp"), ("task::get / wait / start_and_detach", "task.hpp")],
  [("who_waits", "coroutine to continue at the end", "task_promise")],
  ["results and exceptions", "execution counts", "object lifetimes"])

p("C09", "A task's context sees owner, start and end in order, exactly once each",
  "For an awaited task its context is told the owner and then the start exactly once before the first statement of the body runs, and the end exactly once after the body finished (normally or by exception) and before the owner continues. The owner it is given is the awaiting coroutine, or for tasks run by a combinator the combinator's coroutine, a task started without an owner is told start and end but never an owner, and a task that never runs is told nothing. The context reachable from the body and from the task object is the same one.",
  ["programs", "schedules"],
  "every tree of tasks with contexts, awaited, waited with another owner, combined, started and detached, finishing normally or by exception on any thread",
  "Tests check one nesting with one kind of await.",
  ["task.hpp", "algorithm.hpp"],
  [("prepare_task_to_start", "task.hpp"), ("task_promise::final_suspend", "task.hpp"), ("start_and_detach", "task.hpp")],
  [("ctx", "user context", "task_promise")],
  ["recorded context calls with handles"])

p("C10", "An eager task publishes its outcome once, and its frame dies exactly once",
  "An eagerly started task runs immediately in the caller up to its first suspension; once it finished, on whichever thread, waiters wake, it reports ready, and the getter returns exactly its value or rethrows exactly its exception, with everything the body did visible to the getter. It reports ready never before completion. Whatever the race between completion and detaching, moving or destroying the owning object, the frame with its result is destroyed exactly once, after both the body and the owner are done with it.",
  ["schedules", "histories"],
  "every schedule of completion against wait, ready, get, detach and destruction, for all result kinds",
  "The window between completion and detach is a few instructions wide; tests hit it by luck and would not notice a leak.",
  ["async_task.hpp", "common.hpp"],
  [("destroy_if_consumer_dead_t", "async_task.hpp"), ("ref_count, ready", "async_task.hpp")],
  [("ready, ref_count", "completion flag and shared ownership", "async_task_promise")],
  ["wakeups", "value and exception", "live frames"])

p("C11", "A logical thread joins, detaches and stops without hang, leak or double free",
  "Joining a logical thread returns only after its coroutine has finished and with everything it did visible, and always returns once it has; a stop request made through the owner is observed, together with everything done before it, by every later check of its stop token, and never observed without a request. Destroying or overwriting a joinable logical thread requests stop and joins, stopping several requests stop of all of them before joining the first. Whatever the race between completion and join, detach or destruction, the frame is destroyed exactly once.",
  ["schedules", "histories"],
  "every schedule of coroutine completion against join, detach, request_stop, move assignment, swap, group stop and destruction",
  "Tests run a few sleeps-based scenarios; the completion/detach and completion/join races are never forced.",
  ["logical_thread.hpp"],
  [("two_way_bound::try_inform / wait", "logical_thread.hpp"), ("set_stopped_and_wait_or_destroy", "logical_thread.hpp"), ("try_cancel_and_join", "logical_thread.hpp")],
  [("stop_requested_, stopped", "stop flag and completion handshake", "logical_thread_promise")],
  ["join return", "stop observations", "live frames"])

p("C12", "A running pool or worker resumes every submitted task exactly once",
  "Every coroutine or function submitted to a running thread pool, worker or strand, from any thread including the pool's own workers, singly or as a list, is executed exactly once, with an ok status, on one of that executor's threads, without anyone having to submit further work to wake it up. Everything the submitter did before is visible to it. No task is executed by the submitting thread instead, and none is lost or repeated.",
  ["schedules", "programs"],
  "every schedule of submitters and workers, any number of workers and tasks, bursts against idle phases, tasks that resubmit themselves or submit others, any hash distribution",
  "A lost wakeup or a corrupted list needs a precise interleaving of submitter and worker that load tests rarely produce.",
  ["thread_pool.hpp", "executor_interface.hpp", "operation_hash.hpp"],
  [("task_queue push/push_list/pop_all_not_empty", "thread_pool.hpp"), ("default_worker_job", "thread_pool.hpp"), ("select_queue", "thread_pool.hpp")],
  [("first/last", "intrusive list of pending tasks", "task_queue")],
  ["execution counts", "executing thread", "status", "deadlock detection"])

p("C13", "Stopping a pool or worker resumes every task exactly once, ok or cancelled",
  "When a thread pool or worker is stopped, by its destructor, by a stop request from any thread (also from its own workers, also repeated and concurrent) followed by waiting or destruction, every task submitted before or during the shutdown is resumed exactly once in total, either normally or with a cancelled status, and none after the destructor or the wait returned. Tasks submitted to a worker before its stop was initiated run normally before the ones behind the stop are cancelled, scheduled functions that are cancelled are not invoked and their memory is freed. Stopping always terminates once running tasks return.",
  ["schedules", "histories"],
  "every schedule of submission, execution, stop requests, waiting and destruction, with tasks that submit more work during shutdown",
  "Tests stop idle or simply loaded pools; losses need submissions that race with the last steps of the shutdown.",
  ["thread_pool.hpp"],
  [("~thread_pool / ~worker", "thread_pool.hpp"), ("request_stop / push_deadpill", "thread_pool.hpp"), ("wait_stop, cancel_tasks", "thread_pool.hpp")],
  [("dead pill", "list element that ends a worker", "task_queue")],
  ["resume counts and statuses", "termination", "live frames"])

p("C14", "One worker or strand runs its tasks in submission order, never concurrently",
  "Tasks submitted to the same worker, strand or equal-hash slot of a pool run one at a time on a single thread, always the same one. Tasks submitted by one thread start in the order of submission, a task submitted after another submission completed (in any thread) starts later, and tasks submitted as a list start in list order, so tasks of one strand may share unsynchronised data. Copies of a strand and strands obtained with equal hashes behave as one.",
  ["schedules", "programs"],
  "every schedule and mix of submitters to any number of strands over any number of workers",
  "Order inversions need a submission that lands between particular steps of the queue's consumer.",
  ["thread_pool.hpp", "executor_interface.hpp", "operation_hash.hpp"],
  [("task_queue", "thread_pool.hpp"), ("strand / get_strand / select_queue", "thread_pool.hpp"), ("default_worker_job", "thread_pool.hpp")],
  [("first/last", "queue order", "task_queue")],
  ["start order per strand against submission order", "thread ids", "races on data shared by one strand"])

p("C15", "Failed pool construction and custom memory leave no thread, block or task behind",
  "If creating a pool fails part way (a thread cannot be created or memory is not available), the exception propagates, all threads already started are joined and all memory is returned. A pool given a memory resource takes its queues, threads and scheduled functions from that resource only, reports that resource, and returns every block to it with the size and alignment it was allocated with, by the time its destruction ends.",
  ["fault_sequences", "configurations"],
  "failure of the k-th thread creation or k-th allocation for every k, every pool size, every memory resource, with and without scheduled work",
  "No test injects faults or uses a resource other than the default one.",
  ["thread_pool.hpp", "noexport/fixed_array.hpp", "memory_support.hpp"],
  [("thread_pool constructor scope_exit", "thread_pool.hpp"), ("fixed_array", "noexport/fixed_array.hpp"), ("thread_pool::schedule", "thread_pool.hpp")],
  [("resource", "memory resource of the pool", "fixed_array")],
  ["resource call log", "live threads and blocks"])

p("C16", "A latch releases every waiter exactly once, exactly when its count hits zero",
  "No coroutine waiting on a latch continues before the internal count reached zero, and each of them continues exactly once, on the latch's executor (or without suspending when the count already is zero), when it has; the count decreases by exactly the amounts given. Everything done before each count down is visible to everyone released. Releasing is safe when a released coroutine destroys itself, or the latch once nobody else uses it.",
  ["schedules", "histories"],
  "every schedule of count_down, wait, arrive_and_wait and ready from any number of threads, with counts 0..n, and every executor",
  "The window between enqueueing a waiter and the last count down is a few instructions wide and cannot be hit reliably by tests.",
  ["latch.hpp", "nonowner_lockfree_stack.hpp"],
  [("wait_awaiter / arrive_and_wait_awaiter", "latch.hpp"), ("count_down / wakeup_all", "latch.hpp")],
  [("counter, stack", "remaining count and waiting coroutines", "latch")],
  ["release counts and times", "deadlock detection", "memory safety of awaiters"])

p("C17", "An event wakes each waiter exactly once per subscription with the exact input",
  "Each wait on an event ends with exactly one notification, namely the first that takes place after it subscribed, and receives an equal copy of that notification's input; no waiter is lost, woken twice, or woken without a notification, also when waiters resubscribe while being notified and when several threads notify at once. A notification reports whether it woke someone, callbacks run exactly once, and if copying the input throws then all waiters stay subscribed.",
  ["schedules", "histories"],
  "every schedule of subscriptions, callbacks, resubscriptions and notifications from any number of threads, with any executor, and a copy that throws at any element",
  "Tests notify from one thread at quiescent points and never let the input copy throw.",
  ["events.hpp", "nonowner_lockfree_stack.hpp"],
  [("event::subscribe / notify_all", "events.hpp"), ("nonowner_lockfree_stack", "nonowner_lockfree_stack.hpp")],
  [("subscribers", "waiting coroutines", "event")],
  ["wake counts and inputs", "return values of notifications"])

p("C18", "Waiting for all or any of several events completes once with the right inputs",
  "Waiting for all of several events continues exactly once, after each of them was notified at least once, with the input of the first notification of each. Waiting for any of them continues exactly once with the index and input of exactly one notification that took place, and later notifications of the other events are harmless, also when they happen concurrently, while subscribing is still in progress, or after the waiting coroutine is gone.",
  ["schedules", "histories"],
  "every schedule of notifications of the events relative to subscribing and to each other, for any number of events and input types",
  "Tests notify in one fixed order from one thread.",
  ["events.hpp"],
  [("when_all(event...)", "events.hpp"), ("when_any(event...)", "events.hpp")],
  [("count", "notifications seen", "awaiter")],
  ["completion counts and inputs", "memory safety"])

p("C19", "Waiting for all tasks returns every result in place, once, after all finished",
  "Waiting for all of several tasks starts every one of them, and completes exactly once, when and only when all have finished, with a result list holding at each position the value or the exception of the task at that position. This holds for any number of tasks of any result kinds, finishing synchronously or on other threads in any order, failing or not; everything they did is visible afterwards, and every task and result is destroyed exactly once.",
  ["schedules", "programs"],
  "every number of tasks, order and thread of completion, mix of results and exceptions, both for fixed and dynamic lists",
  "The last-finisher race needs concurrent completions which tests do not force.",
  ["algorithm.hpp", "task.hpp", "noexport/expected.hpp", "common.hpp"],
  [("job_for_when_all", "algorithm.hpp"), ("when_all", "algorithm.hpp"), ("destroy_and_transfer_control_to", "common.hpp")],
  [("count", "unfinished tasks", "when_all frame")],
  ["results per position", "completion counts", "lifetimes"])

p("C20", "Waiting for any task completes once, with the first success or the last failure",
  "Waiting for any of several tasks completes exactly once, with the position and value of a task that finished successfully, the one whose success was recorded first, and with an exception (that of the last failing task) only if every one of them failed. The remaining tasks keep running to their own end without effect on the result, also when the waiting coroutine, the result and everything around it are already gone, and tasks not yet started when the winner finished are not required to run. Everything is destroyed exactly once.",
  ["schedules", "programs"],
  "every number of tasks, order and thread of completion, mix of success and failure, winner that finishes synchronously, and destruction of the waiter while losers still run",
  "Tests use few fixed completion orders; the use of freed state by losers is invisible without instrumentation.",
  ["algorithm.hpp", "task.hpp", "noexport/expected.hpp", "common.hpp"],
  [("when_any_state", "algorithm.hpp"), ("job_for_when_any", "algorithm.hpp")],
  [("owner, count_waiters, result", "who is to be resumed with what", "when_any_state")],
  ["result", "completion counts", "lifetimes"])

p("C21", "Coroutine frames come from and return to exactly the chosen memory resource",
  "A coroutine given a memory resource by argument, by type or by the thread's pending resource takes its frame from exactly that resource, and returns exactly that block with the size it was requested with to the same resource exactly once, when the frame ends, whatever thread it ends on. A resource passed ahead for the next coroutine applies to exactly one, the next polymorphic coroutine created on that thread, and otherwise the default is used. A failing allocation propagates without leaving anything behind, and frames are suitably aligned.",
  ["programs", "configurations", "fault_sequences"],
  "all coroutine kinds, argument lists, stateless/stateful/over-sized/non-trivially destructible resources, nesting, threads, and failure of any allocation",
  "Tests check that a resource was used, not that sizes match, nor that every block comes back after any history.",
  ["memory_support.hpp"],
  [("overload_new_delete", "memory_support.hpp"), ("polymorphic_resource / pass_resource", "memory_support.hpp"), ("with_resource / resourced", "memory_support.hpp")],
  [("resource stored behind the frame", "how the frame finds its way back", "overload_new_delete")],
  ["resource call log", "alignment and disjointness of blocks"])

p("C22", "The stack resource hands out disjoint aligned memory and takes all of it back",
  "Blocks handed out by a stack resource are aligned, at least as big as asked for, and never overlap each other or anything that is still allocated, whatever stack-ordered sequence of allocations and deallocations of any sizes is made and wherever it crosses the initial buffer and its chunks. Memory released in stack order or all at once is reused by later allocations, including the initial buffer, and everything the resource allocated is returned at its destruction or after being moved from, each block once.",
  ["histories", "inputs"],
  "every stack-ordered history of allocate, deallocate, reuse and move, with any sizes and any initial buffer",
  "Tests use one or two fixed size patterns; chunk boundary cases need specific sequences.",
  ["stack_memory_resource.hpp"],
  [("stack_resource::allocate / deallocate / reuse_memory", "stack_memory_resource.hpp"), ("freelist_t", "stack_memory_resource.hpp")],
  [("b/m/e, freelist", "current chunk and spare chunks", "stack_resource")],
  ["returned blocks", "global allocations", "block contents"])

p("C23", "The lock-free stack never loses, duplicates or reorders nodes under contention",
  "Every node pushed on the lock-free stack, singly or as a chain, is taken out by exactly one take-all, in last-in first-out order consistent with when the pushes took effect, and a take-all returns everything pushed before it and not yet taken, and nothing else. Data written to a node before the push is visible to the thread that takes it, also when nodes are reused immediately after being taken.",
  ["schedules", "histories"],
  "every schedule of pushes, chain pushes and take-alls from any number of threads with immediate node reuse and spurious failures",
  "The compare-exchange windows are not hit by tests, which only use it from one thread at a time.",
  ["nonowner_lockfree_stack.hpp"],
  [("push / push_stack / try_pop_all", "nonowner_lockfree_stack.hpp")],
  [("top", "newest node", "nonowner_lockfree_stack")],
  ["operation history checked for linearizability", "races on node payload"])

p("C24", "Control transfers between coroutines never grow the call stack",
  "Handing control between coroutines, by yielding values, finishing nested generators or channels, awaiting tasks that finish at once, finishing tasks and combinators, costs no call stack that stays used: loops of any length of such transfers, and chains of nested generators, channels and tasks of any depth, run in constant stack space per transfer and produce each value in time independent of the nesting depth.",
  ["programs", "inputs"],
  "loops of any length and nestings of any depth of generators, channels, tasks and combinators, on compilers that implement the guaranteed tail calls the language requires for this",
  "Tests use short loops and shallow nesting that would survive linear stack growth.",
  ["generator.hpp", "channel.hpp", "task.hpp", "common.hpp", "noexport/generators_common.hpp"],
  [("attach_leaf, final_awaiter", "generator.hpp, channel.hpp"), ("transfer_control_to", "common.hpp")],
  [], ["stack pointer in bodies and consumers", "resumes per value"])

p("C25", "Hopping to an executor continues the coroutine once, there, with all it wrote",
  "Awaiting a hop to an executor suspends the coroutine and continues it exactly once, on a thread of that executor (the same thread for the inline executor, a fresh one for the new-thread executor), also through a type-erased executor reference and for chains of hops between different executors. All its earlier effects are visible after the hop, the hop reports ok unless the executor is being stopped, and submitting a list submits each of its elements exactly once.",
  ["schedules", "programs"],
  "every chain of hops between executors of all kinds by any number of coroutines, every schedule",
  "Tests check single hops; continuing before suspension has completed is a race which they cannot force.",
  ["executor_interface.hpp", "thread_pool.hpp", "operation_hash.hpp"],
  [("create_node_and_attach, jump_on", "executor_interface.hpp"), ("any_executor_ref, attach_list, reverse_list", "executor_interface.hpp"), ("jump_on_thread_pool", "thread_pool.hpp")],
  [], ["thread id before and after", "continuation counts", "races on coroutine locals"])

p("C26", "Fire-and-forget coroutines run at once and release everything when they end",
  "A fire-and-forget coroutine runs in its caller immediately up to its first suspension, continues wherever it is resumed, and on finishing, on whichever thread, destroys its arguments, locals and frame exactly once with no owner involved. A function scheduled to an executor is invoked exactly once there unless cancelled, and is destroyed exactly once in either case. A coroutine that destroys itself, or destroys itself handing control to another, does so exactly once and the other one continues exactly once.",
  ["schedules", "programs"],
  "every program of fire-and-forget coroutines with captures, arguments and suspensions over every executor and schedule",
  "Leaks and double destruction are invisible to the tests and need the finishing thread to race with the creator.",
  ["job.hpp", "thread_pool.hpp", "common.hpp"],
  [("job_promise", "job.hpp"), ("schedule_to", "thread_pool.hpp"), ("destroy_coro_t, destroy_and_transfer_control_to", "common.hpp")],
  [], ["execution counts", "live objects and memory"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
