#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one place to edit the property texts).
import json, os
B="boost/asynchronous/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=[B+f for f in files],mechanism=[dict(name=a,where=B+b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=m,where=B+w) for a,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

SCH=["scheduler/single_thread_scheduler.hpp","scheduler/threadpool_scheduler.hpp","scheduler/multiqueue_threadpool_scheduler.hpp","scheduler/stealing_threadpool_scheduler.hpp","scheduler/stealing_multiqueue_threadpool_scheduler.hpp","scheduler/composite_threadpool_scheduler.hpp","scheduler/multiple_thread_scheduler.hpp","scheduler/io_threadpool_scheduler.hpp","extensions/asio/asio_scheduler.hpp"]

p("C01","Every posted task runs exactly once, on a thread of its pool",
 "Every task accepted by a live scheduler, of whatever kind, is executed exactly once, on one of that scheduler's own worker threads (or of a pool allowed to steal from it), no matter how many threads post and how many workers compete for it. No task is lost, duplicated, or run on the posting thread. A task that throws a std::exception or is interrupted does not prevent later tasks from running.",
 ["schedules","configurations"],"All interleavings of posting threads and workers, for every scheduler kind and queue kind.",
 "The tests post a few tasks under one uncontrolled OS schedule and wait for them; the lost or doubled task needs a particular interleaving of push, pop, steal and idle loop.",
 SCH+["queue/lockfree_queue.hpp"],[("worker loop: pop/steal, execute, drain","scheduler/threadpool_scheduler.hpp"),("post -> queue push","scheduler/detail/single_queue_scheduler_policy.hpp"),("post -> queue selection","scheduler/detail/multi_queue_scheduler_policy.hpp")])

p("C02","Dropping the last proxy drains accepted tasks and joins the workers",
 "When the last proxy of a scheduler goes away, every task accepted before is still executed, all its worker threads end, and the destruction returns without deadlock. This holds for every scheduler kind, for any state of the queue and workers at that moment, including while tasks of the scheduler still post through locked weak handles (a proxy itself must not be dropped inside one of its own threads, as documented). After the destruction has returned, none of that scheduler's tasks runs any more.",
 ["schedules","configurations"],"Every interleaving of shutdown with running, queued and just-posted tasks; shutdown racing with tasks that hold or use locked handles.",
 "Tests destroy schedulers after their work is done; the windows between the termination task, the drain loop and the join are not reached on purpose.",
 SCH+["scheduler_shared_proxy.hpp"],[("termination task in private queue, then drain","scheduler/threadpool_scheduler.hpp"),("join in proxy destructor","scheduler_shared_proxy.hpp")])

p("C03","A single-thread scheduler is sequential and first-in first-out",
 "A single-threaded scheduler runs at most one task at a time, always on the same thread, and tasks posted by one thread with equal priority run in the order in which they were posted. Everything a task wrote is visible to the next task without further synchronisation.",
 ["schedules","configurations"],"All interleavings of up to three posting threads with the worker, for every FIFO queue type.",
 "Order and overlap are only sampled by the existing tests, with one poster.",
 ["scheduler/single_thread_scheduler.hpp","queue/lockfree_queue.hpp","queue/guarded_deque.hpp","queue/threadsafe_list.hpp","queue/lockfree_spsc_queue.hpp"],[("single worker loop","scheduler/single_thread_scheduler.hpp")])

p("C04","Prioritised queues serve the best enabled priority first",
 "With a prioritised queue, whenever a worker takes a task it takes one whose priority is at least as good (low numbered) as that of every task that was already queued on an enabled priority when the worker began to look, and in posting order within that priority. Tasks on a disabled priority are withheld without being lost or blocking other priorities and run after it is enabled again. Priorities beyond the last one select the last one; priority 0 means any.",
 ["histories","configurations","schedules"],"All operation sequences (push with each priority, pop, enable/disable) up to a depth, for all container shapes up to three queues, plus two-thread interleavings.",
 "The tests run one fixed posting sequence with three priorities.",
 ["queue/any_queue_container.hpp","queue/find_queue_position.hpp","queue/any_queue.hpp"],[("scan of queues in priority order, enabled flags","queue/any_queue_container.hpp"),("priority to queue index","queue/find_queue_position.hpp")])

p("C05","Each job queue is linearizable and never loses a wakeup",
 "Under any concurrent use that its type allows, each job queue behaves as one atomic queue: every pushed element is popped or stolen exactly once, first-in first-out (last-in first-out for the stack), 'empty' is reported only if the queue was empty at some instant during the call, and the size it reports, where supported, is that of the abstract queue when no operation is in progress and never more than was pushed; the maximal size is the largest the queue had. A blocking pop returns once an element is available and never sleeps while one is.",
 ["schedules","histories"],"All interleavings of two to three threads with up to three operations each on every queue type; all sequential histories up to a depth, across growth and wrap-around.",
 "The tests only use the queues through schedulers, mostly one queue type; lost wakeups and reordering need specific interleavings.",
 ["queue/lockfree_queue.hpp","queue/lockfree_stack.hpp","queue/lockfree_spsc_queue.hpp","queue/guarded_deque.hpp","queue/threadsafe_list.hpp","queue/circular_queue.hpp","queue/any_queue_container.hpp","queue/queue_converter.hpp"],
 [("two-lock list with condition variable","queue/threadsafe_list.hpp"),("mutex + condition deque","queue/guarded_deque.hpp"),("pointer hand-over through lock-free containers","queue/lockfree_queue.hpp"),("growable ring","queue/circular_queue.hpp")])

p("C06","post_future delivers exactly the task's own outcome",
 "The future obtained for a posted task becomes ready exactly once, with the value the task returned or the exception it threw, for void, value, move-only and continuation tasks, and never before the task has finished. For a task that yields a continuation it becomes ready only when the continuation has completed, with the continuation's value or exception.",
 ["schedules","inputs"],"All interleavings of poster, worker(s) and waiter; all outcome kinds (value, exception, continuation value, continuation exception, interruption).",
 "Tests check value and exception for plain tasks under one schedule; outcome kinds are not crossed with task kinds.",
 ["post.hpp","detail/continuation_impl.hpp","continuation_task.hpp"],[("promise set from task wrapper","post.hpp"),("promise moved into the continuation","post.hpp")])

p("C07","post_callback calls back exactly once, in the right thread, with the outcome",
 "For every task posted with a callback, the callback is invoked exactly once, in the thread of the callback scheduler, after the task, with the task's value or exception (for a continuation task: the continuation's), as long as the callback scheduler is alive. If that scheduler is gone, the callback is silently dropped and nothing crashes or blocks.",
 ["schedules","inputs"],"All interleavings of worker, callback thread and destruction of the callback scheduler; all outcome kinds.",
 "Tests cover a handful of outcomes under one schedule and never race the destruction of the callback scheduler.",
 ["post.hpp","trackable_servant.hpp"],[("task-then-callback wrapper","post.hpp")])

p("C08","A servant's pending tasks and callbacks die with it",
 "After the destructor of a trackable servant has run, no callback that it posted, and no task that it posted to its own thread, is executed, and a task it posted to its thread pool that has not yet started is not started. While it is alive its callbacks are all delivered, in its own thread.",
 ["schedules"],"All interleavings of the servant's destruction with posted tasks and callbacks in flight.",
 "The tests destroy servants at a moment fixed by sleeps.",
 ["trackable_servant.hpp","checks.hpp","post.hpp"],[("weak tracking object checked before task and callback","checks.hpp"),("post_callback wrappers","trackable_servant.hpp")])

p("C09","Safe callbacks run only in the servant's thread and only while it lives",
 "A functor made safe by a servant can be called from any thread at any time: it executes exactly once per call, in the servant's thread (immediately when already there unless posting is forced, in call order otherwise) if the servant is alive at that point, and is otherwise silently ignored. The arguments arrive unchanged.",
 ["schedules"],"All interleavings of foreign calls with the servant's own activity and destruction.",
 "One call per test under an uncontrolled schedule.",
 ["trackable_servant.hpp","checks.hpp"],[("safe callback helper","trackable_servant.hpp")])

p("C10","A servant lives entirely in its own thread",
 "A servant's constructor (unless the servant declares it as simple), every member called through its proxy, and its destructor execute in its scheduler's thread, one at a time, constructor first, destructor last and exactly once, after the last proxy is gone and after all calls made before; calls made through one proxy by one thread run in call order. This holds however many threads copy, use and drop proxies concurrently, including when a proxy is created or dropped inside the servant's own thread. If the constructor throws, the exception reaches the creator of the proxy.",
 ["schedules"],"All interleavings of up to three threads creating, calling, copying and dropping proxies.",
 "Tests check the thread id under one schedule with one client.",
 ["servant_proxy.hpp","scheduler_shared_proxy.hpp","scheduler/single_thread_scheduler.hpp"],[("posted constructor and servant_deleter","servant_proxy.hpp")])

p("C11","Proxy member calls return exactly what the member did",
 "A member function exposed by a proxy as a future-returning call delivers to its caller the value returned or exception thrown by exactly that call with exactly the passed arguments, and a fire-and-forget call executes the member exactly once; move-only arguments and results work. Members run in order of their declared priority when queued together.",
 ["schedules","inputs"],"All interleavings of two clients and the servant; each call kind (post, future, with and without log, continuation result).",
 "Each macro is tested with one call and one outcome.",
 ["servant_proxy.hpp","post.hpp"],[("BOOST_ASYNC_FUTURE_MEMBER / POST_MEMBER families","servant_proxy.hpp")])

p("C12","Interruption stops its own task, at most once, and nothing else",
 "Interrupting a task that has not started prevents it from running; interrupting a running task raises the interruption at its next interruption point; interrupting a finished task has no effect. In every case no other task, running or later, on any thread is interrupted, and the interrupting call returns. The future of the task always reports an outcome: the value if it completed, an error otherwise; its callback is called, with the outcome, exactly if the task was started (a task interrupted before its start calls nothing back).",
 ["schedules"],"All interleavings of interrupt() with enqueue, start, interruption point, end of the task and following tasks on the same worker; repeated and concurrent interrupts.",
 "Interruption tests rely on sleeps so that the interrupt lands in the middle of the task.",
 ["scheduler/detail/interrupt_state.hpp","scheduler/detail/interruptible_job.hpp","detail/any_interruptible.hpp","scheduler/detail/single_queue_scheduler_policy.hpp","scheduler/detail/multi_queue_scheduler_policy.hpp"],[("state machine of interrupt_state","scheduler/detail/interrupt_state.hpp"),("interruptible_job","scheduler/detail/interruptible_job.hpp")])

p("C13","A callback continuation fires once, after all its subtasks, with their results",
 "The completion of a callback continuation (variadic, tuple, or sequence of subtasks) is invoked exactly once, after every subtask has delivered its value or exception through its result object, and receives each subtask's own value or exception at that subtask's position. This holds for nested continuations, for subtasks that are themselves continuations, for any order and thread in which subtasks finish, and for either posting policy.",
 ["schedules","inputs"],"All task execution orders and thread interleavings for up to four subtasks; every pattern of failing subtasks.",
 "The tests compute Fibonacci numbers and a few fixed exception cases under one schedule.",
 ["detail/continuation_impl.hpp","continuation_task.hpp","scheduler/detail/any_continuation.hpp"],[("atomic countdown of ready subtasks","detail/continuation_impl.hpp")])

p("C14","A future continuation completes when all futures are ready or time is up",
 "A future-based continuation invokes its completion exactly once, not before all of its futures are ready unless its timeout has elapsed or it was interrupted (also while its task is still creating it), and then without waiting for anything else than its own worker thread becoming free. Completion receives all futures in position; those of finished subtasks hold the right value or exception.",
 ["schedules","inputs"],"All interleavings of subtasks finishing, the idle worker polling, and the (virtual) clock passing the timeout; all ready/not-ready/failed patterns of up to three futures.",
 "Timeout tests depend on real time; several are too flaky to be in the stable set.",
 ["detail/continuation_impl.hpp","continuation_task.hpp","scheduler/tss_scheduler.hpp"],[("is_ready polling in worker loops","detail/continuation_impl.hpp"),("waiting list of continuations","scheduler/threadpool_scheduler.hpp")])

p("C15","execute_in_all_threads runs once in each worker thread",
 "Calling execute_in_all_threads makes every (permanent) worker thread of the scheduler run the functor exactly once, and returns one future per thread which becomes ready after that thread has run it, or carries the exception it threw. A throwing functor leaves every worker operational.",
 ["schedules","configurations"],"All interleavings of the call with workers that are idle, busy or fetching other tasks, for each scheduler kind with one to three workers.",
 "One test per scheduler, one schedule, non-throwing functor.",
 ["scheduler/detail/execute_in_all_threads.hpp"]+SCH[:8],[("private queue per thread","scheduler/threadpool_scheduler.hpp"),("execute_in_all_threads_task","scheduler/detail/execute_in_all_threads.hpp")])

p("C16","Composite and stealing pools route and share work without losing it",
 "A task posted to a composite scheduler with pool index i goes to the i-th subpool; pools that can steal take tasks only from the pools they were given; a task is executed once even if owner and thief go for it at the same time; and a stalled owner does not stop its tasks from being executed by an idle thief. Tasks posted to one subpool from a task of another arrive there.",
 ["schedules","configurations"],"All interleavings of owner, thief and poster for pairs of pools; all routing indices.",
 "Tests check that some task was stolen under a lucky schedule.",
 ["scheduler/composite_threadpool_scheduler.hpp","scheduler/stealing_threadpool_scheduler.hpp","scheduler/stealing_multiqueue_threadpool_scheduler.hpp","scheduler/multiqueue_threadpool_scheduler.hpp","queue/queue_converter.hpp"],[("find_position routing","scheduler/composite_threadpool_scheduler.hpp"),("try_steal from foreign queues","scheduler/stealing_threadpool_scheduler.hpp")])

p("C17","multiple_thread_scheduler never runs one servant in two threads",
 "With a scheduler that shares several threads among several servants, no two tasks of the same servant ever overlap and they run in posting order, although different threads may run them; tasks of different servants may run in parallel; every task runs, whatever the servant's index and whether or not it was posted as interruptible.",
 ["schedules","configurations"],"All interleavings of two to three workers over two to three servant queues.",
 "The test checks a counter under one schedule.",
 ["scheduler/multiple_thread_scheduler.hpp","servant_proxy.hpp"],[("per-queue taken flag","scheduler/multiple_thread_scheduler.hpp")])

p("C18","The I/O thread pool grows and shrinks within its limits, losing nothing",
 "An I/O thread pool always has between its minimum and maximum number of threads. With a queue which reports its size, it starts an additional thread when a task is posted while another one already waits (and only then), up to the maximum, so that two waiting tasks never depend on blocked threads, and gives these threads back when the queue is empty. It executes every task and every continuation waiting in one of its threads exactly once, and shuts down cleanly at any point of growth or shrinkage.",
 ["schedules","configurations"],"All interleavings of posting, thread creation, thread retirement and destruction for min 1..2, max 2..3.",
 "Tests post a burst and sleep.",
 ["scheduler/io_threadpool_scheduler.hpp"],[("try_create_thread / test_worker_loop / cleanup_threads","scheduler/io_threadpool_scheduler.hpp")])

p("C19","Diagnostics record each logged task exactly once and faithfully",
 "With loggable jobs, the diagnostics of a scheduler contain, for every task name, exactly one entry per finished task with posted <= started <= finished times, the executing thread and the right failed and interrupted flags, also when the schedulers are the subpools of a composite; a task in execution appears as current under its thread and no longer after it ended, however it ended; clearing and reading while tasks run never corrupts them. Summaries built from diagnostics (counts, totals, averages, minima, maxima, most recent values per name and kind of end) are those of the union of the entries, however they were merged.",
 ["schedules","histories"],"All interleavings of workers finishing tasks with readers and clearing; all outcomes (ok, throwing, aborted).",
 "The logging tests check the totals once, after everything is finished.",
 ["diagnostics/diagnostics_table.hpp","diagnostics/diagnostic_item.hpp","diagnostics/any_loggable.hpp","job_traits.hpp","scheduler_diagnostics.hpp","scheduler/detail/interruptible_job.hpp"],[("diagnostics_table","diagnostics/diagnostics_table.hpp")])

p("C20","Published events reach every live matching subscriber exactly once",
 "An event published in a single-thread scheduler or a pool registered to a notification bus is delivered exactly once to every live servant, in any scheduler of the bus, whose subscription to that event (with a matching topic) was completed before, in the subscriber's own thread and in publication order per publisher, and to nobody whose subscription has ended (unsubscribed, died, or answered false in a single-shot handler). Subscribing, unsubscribing or dying, even from within a handler or followed by a new subscription, and the end of another scheduler never affect the deliveries to other subscribers. (Whether a subscription made or ended while an event is on its way sees that event is open; handlers which throw abort the delivery of that event only.)",
 ["histories","schedules"],"All histories of subscribe, unsubscribe, publish and destroy up to a depth for two servants in each of two schedulers, plus nested operations from handlers.",
 "Tests run one scenario each; several of the multi-scheduler tests are too flaky to be in the stable set.",
 ["notification/local_subscription.hpp","notification/notification_proxy.hpp","trackable_servant.hpp","any_scheduler.hpp"],[("thread-local subscription store","notification/local_subscription.hpp"),("cross-scheduler registration","notification/notification_proxy.hpp")])

p("C21","Topic matching is exactly segment-wise prefix matching",
 "A channel topic matches a published channel exactly if its segments, compared from the left, are each equal to the published segment or the single-character wildcard and the published channel has at least as many segments; trailing separators are insignificant. Exact topics match exactly equal values, and a subscription without topic matches everything.",
 ["inputs"],"All pairs of channels up to four segments over a small alphabet with wildcard, prefix-sharing and empty/trailing forms, for different separator and wildcard characters.",
 "The test checks a dozen literal pairs.",
 ["notification/topics.hpp"],[("channel_topic::matches","notification/topics.hpp")])

ALG="algorithm/"
p("C22","Parallel searches, counts and comparisons equal their sequential meaning",
 "The parallel non-modifying algorithms (for_each, for, all/any/none_of, count, find_all, find_first_of, find_end, search, search_n, adjacent_find, equal, mismatch, lexicographical_compare, is_sorted, is_partitioned, min/max element, KMP) return, for every input, range, cutoff and order in which their subtasks execute, what the sequential C++ algorithm defines.",
 ["inputs","schedules"],"All input sequences up to a small length over a small alphabet, every cutoff, every subtask execution order up to a bound; iterator, moved-range and continuation input forms.",
 "Tests use one large random input and one cutoff per algorithm, so boundary positions across chunk edges are hit by luck.",
 [ALG+f for f in ["parallel_for.hpp","parallel_for_each.hpp","parallel_all_of.hpp","parallel_any_of.hpp","parallel_none_of.hpp","parallel_count.hpp","parallel_find_all.hpp","parallel_find_first_of.hpp","parallel_find_end.hpp","parallel_search.hpp","parallel_search_n.hpp","parallel_adjacent_find.hpp","parallel_equal.hpp","parallel_mismatch.hpp","parallel_lexicographical_compare.hpp","parallel_is_sorted.hpp","parallel_is_partitioned.hpp","parallel_extremum.hpp","parallel_kmp.hpp"]],[("recursive halving at cutoff, merge of halves",ALG+"parallel_count.hpp")])

p("C23","Parallel modifying algorithms equal their sequential meaning",
 "The parallel modifying algorithms (transform, copy, copy_if, move, fill, generate, iota, replace, replace_copy, remove_copy, reverse, swap_ranges, partition, stable_partition, partition_copy, unique, group_by) leave, for every input, cutoff and subtask order, the contents and return the iterator that the sequential C++ algorithm defines, and touch nothing outside the destination.",
 ["inputs","schedules"],"All input sequences up to a small length over a small alphabet, every cutoff, every subtask execution order up to a bound.",
 "As for searches: one big input, one cutoff.",
 [ALG+f for f in ["parallel_transform.hpp","parallel_copy.hpp","parallel_copy_if.hpp","parallel_move.hpp","parallel_fill.hpp","parallel_generate.hpp","parallel_iota.hpp","parallel_replace.hpp","parallel_replace_copy.hpp","parallel_remove_copy.hpp","parallel_reverse.hpp","parallel_swap_ranges.hpp","parallel_partition.hpp","parallel_stable_partition.hpp","parallel_partition_copy.hpp","parallel_unique.hpp","parallel_group_by.hpp"]],[("split at cutoff, recombine",ALG+"parallel_partition.hpp")])

p("C24","Parallel sorting, merging and selection equal their sequential meaning",
 "parallel_sort, stable_sort, quicksort, sort_inplace, partial_sort, nth_element and merge produce, for every input, comparison, cutoff and subtask order, the result the sequential algorithm defines: sorted permutation of the input, stability where promised, the k smallest in front, and the n-th element in place.",
 ["inputs","schedules"],"All sequences up to a small length with duplicates, tagged for stability; presorted and reversed shapes; every cutoff.",
 "Tests sort one big random vector per variant.",
 [ALG+f for f in ["parallel_sort.hpp","parallel_sort_inplace.hpp","parallel_quicksort.hpp","parallel_partial_sort.hpp","parallel_nth_element.hpp","parallel_merge.hpp","detail/parallel_sort_helper.hpp"]],[("merge of sorted halves",ALG+"parallel_sort.hpp")])

p("C25","Parallel reductions and scans equal their sequential meaning",
 "parallel_reduce, inner_product, partial_sum, the (exclusive, inclusive, transforming) scans, and count-like folds yield, for every input, cutoff and subtask order, the left-to-right result for any associative operation, commutative or not, with every element contributing exactly once and initial values used exactly once.",
 ["inputs","schedules"],"All sequences up to a small length under a non-commutative associative operation, every cutoff and subtask order up to a bound.",
 "Tests use integer addition, which hides reordering, on one input.",
 [ALG+f for f in ["parallel_reduce.hpp","parallel_inner_product.hpp","parallel_partial_sum.hpp","parallel_scan.hpp","parallel_inclusive_scan.hpp","parallel_exclusive_scan.hpp","parallel_transform_inclusive_scan.hpp","parallel_transform_exclusive_scan.hpp"]],[("combine of halves in order",ALG+"parallel_reduce.hpp")])

p("C26","The asynchronous vector behaves as a std::vector",
 "Any sequence of operations on the asynchronous vector container (construction forms, assignment, copy, move, swap, element access, insertion, erasure, resize, reserve, shrink, clear, comparison, make/push/merge continuations) on element types whose operations do not throw has the results, contents, sizes and exceptions (that of at()) of the same sequence on std::vector, constructs and destroys each element exactly once, and an asynchronous continuation completes exactly once with that result.",
 ["histories","inputs"],"All operation sequences up to a depth over sizes around the cutoff.",
 "Tests exercise each member once on one large vector.",
 ["container/vector.hpp","container/algorithms.hpp",ALG+"parallel_placement.hpp"],[("parallel placement construction/destruction","container/vector.hpp")])

p("C27","Composed tasks run the right branches with the right values",
 "then, if_then_else, if_else, all_of, any_of, parallel_invoke and invoke run exactly the parts that the condition or data flow selects, each once, pass each part the outcome of the part before, and deliver the final outcome once; an exception in any part is delivered in its position and skips the parts that depend on it.",
 ["schedules","inputs"],"All branch outcomes and exception positions, and all execution orders of the parts.",
 "The tests cover one branch pattern each; the any/all continuations test is excluded as unstable.",
 [ALG+f for f in ["then.hpp","if_then_else.hpp","if_else.hpp","all_of.hpp","any_of.hpp","parallel_invoke.hpp","invoke.hpp"]],[("continuations chaining",ALG+"then.hpp")])

p("C28","An exception in a parallel algorithm's functor reaches the caller, once",
 "If a user functor (operation, predicate, comparison) passed to a parallel algorithm throws on any element, the algorithm completes, and the caller's future or callback receives an exception thrown by the functor exactly once; no worker dies, nothing hangs, and the pool remains usable.",
 ["inputs","schedules"],"Every algorithm, every position of the throwing element, every cutoff, every subtask order up to a bound.",
 "Only a few algorithms have one test with a throwing functor.",
 [ALG+f for f in ["parallel_for.hpp","parallel_reduce.hpp","parallel_sort.hpp","parallel_transform.hpp","parallel_partition.hpp","parallel_placement.hpp"]],[("catch and set_exception in each step",ALG+"parallel_for.hpp")])

p("C29","Jobs, results and bound arguments are carried without loss or duplication",
 "The value carriers (the job wrapper any_callable, the functors and arguments bound by move_bind, the result-or-exception holder expected) never lose, leak, invent or call after its hand-over a payload, through any sequence of moves, copies, swaps and assignments that their interface allows: a copy of a carrier whose payload can be copied equals its source; a carrier with a move-only payload or argument hands over the one payload there is; moved-to holders hold what the source held; every payload object is destroyed exactly once; and a result holder reports either its value or its exception, never both.",
 ["histories"],"All operation sequences up to a depth over two or three holders, for value, void, exception, move-only and non-default-constructible payloads.",
 "Tests move each once.",
 ["callable_any.hpp","expected.hpp","detail/move_bind.hpp","job_traits.hpp","any_serializable.hpp"],[("expected","expected.hpp"),("move-on-copy any_callable","callable_any.hpp"),("move_bind","detail/move_bind.hpp")])

p("C30","Asio tasks and timers fire exactly once, in time, in the right thread",
 "Tasks posted to an asio scheduler with index i run once, on a thread of that scheduler, in order when it has one thread, and all of those accepted run before shutdown completes; a deadline timer (used, as documented, from one servant of a single-threaded asio scheduler) runs each handler exactly once while that scheduler lives: with success not before its time, or with an abort error if it was cancelled, reset or destroyed before; interrupting a posted task stops that task only.",
 ["schedules","histories"],"All interleavings of posting, stealing between io contexts, timer expiry (virtual time), cancel and destruction.",
 "Timer tests wait for real time; one does not compile and others depend on sleeps.",
 ["extensions/asio/asio_scheduler.hpp","extensions/asio/asio_deadline_timer.hpp"],[("poll_one loop with stealing","extensions/asio/asio_scheduler.hpp"),("steady_timer servant","extensions/asio/asio_deadline_timer.hpp")])

p("C31","Weak scheduler handles lock to a usable scheduler or to none",
 "Locking a weak scheduler or weak proxy yields a usable scheduler while the scheduler is alive and an invalid one afterwards (once its last proxy and every locked handle are gone). What is posted through a locked handle is executed, or the handle is invalid: never a crash and never a task silently dropped. A scheduler whose last proxy is dropped while another thread holds a locked handle finishes as soon as that handle is released, without deadlock.",
 ["schedules"],"All interleavings of lock, post, release and destruction of the last proxy.",
 "The weak proxy test runs single-threaded.",
 ["scheduler_weak_proxy.hpp","scheduler/detail/lockable_weak_scheduler.hpp","any_scheduler.hpp","scheduler_shared_proxy.hpp"],[("weak_ptr lock","scheduler/detail/lockable_weak_scheduler.hpp")])

p("C32","Library internals are free of data races and use-after-free",
 "In any use that keeps to the documented rules (a scheduler shared by any threads, a servant used through proxies), no two threads access library state without synchronisation where one writes, and no freed memory is accessed, whatever the interleaving and even on a machine with weak memory ordering.",
 ["schedules","configurations"],"All explored interleavings of post, steal, continuation completion, interruption, diagnostics, notification and shutdown, with a happens-before race detector and freed-memory monitor on every one.",
 "The tests run on x86 without a race detector, where missing ordering is usually invisible.",
 SCH[:8]+["detail/continuation_impl.hpp","scheduler/detail/interrupt_state.hpp","diagnostics/diagnostics_table.hpp"],[("atomics, mutexes and queue hand-over","queue/lockfree_queue.hpp")])

p("C33","Jobs distributed over TCP complete exactly once although clients fail",
 "Every job offered to remote clients by a TCP job server is completed exactly once with the result or exception produced by the client that executed it, and a client that disconnects or crashes while holding a job does not lose it.",
 ["fault_sequences","histories"],"All histories of clients requesting, answering and disconnecting.",
 "The TCP tests use one well-behaved client over a real socket.",
 ['scheduler/tcp/simple_tcp_client.hpp', 'scheduler/tcp/tcp_server_scheduler.hpp', 'scheduler/tcp/detail/asio_comm_server.hpp', 'scheduler/tcp/detail/client_request.hpp', 'scheduler/tcp/detail/job_server.hpp', 'scheduler/tcp/detail/server_connection.hpp', 'scheduler/tcp/detail/server_response.hpp'],[("serialised job request/response","any_serializable.hpp")])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
missing=sorted({x for d in P for x in d["anchors"]["files"] if not os.path.exists("/repo/"+x)}|{m["where"] for d in P for m in d["anchors"]["mechanism"] if not os.path.exists("/repo/"+m["where"])})
print(len(P),"properties; missing files:",missing)
