#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))
R="rexecutor/src/"; S="rexecutor-sqlx/src/"

p("C01","Every execution outcome is recorded faithfully on the job",
  "Whatever an execution of a job ends with (done, cancel, snooze, error, panic, timeout), the stored job afterwards has exactly the status that outcome prescribes (complete, cancelled, scheduled/retryable, retryable or discarded, with the matching timestamp), and its error list is extended by exactly one entry carrying the attempt number, the right error type and the exact message, or by none for done and snooze. Every later execution of the job is handed that same history, and nothing else about the job (data, metadata, tags, priority, executor) changes.",
  ["histories","inputs","schedules"],
  "for all sequences of execution outcomes of all concurrently running jobs, all error types/messages/panic payloads, blocking and non-blocking executors, with and without a timeout",
  "The unit tests run one execution per outcome against a mock backend; they never chain outcomes over several attempts, mix jobs, or look at the stored job afterwards.",
  [R+"job/runner.rs",R+"backend/memory.rs",R+"job.rs",R+"executor.rs"],
  [("outcome dispatch and error conversion","rexecutor/src/job/runner.rs execute_job*, handle_*, From impls"),("state transitions","rexecutor/src/backend/memory.rs Job::mark_job_*")],
  observe=["Backend::query after the execution","the Job handed to Executor::execute"])

p("C02","A failing job is attempted exactly max_attempts times, then discarded",
  "A job that keeps failing is executed exactly max_attempts times (once if the maximum is zero) and is then discarded and never executed again; a job that stops failing earlier is not executed again. Snoozing never consumes an attempt, and each rerun grants exactly one further attempt.",
  ["histories","inputs"],
  "for all max_attempts values, all interleavings of failures, panics, timeouts, snoozes, reruns and changes of max_attempts between executions",
  "The tests check a single execution with attempt equal to or below the maximum; no test runs a job to exhaustion, snoozes between failures, or lowers max_attempts below the attempts already made.",
  [R+"job.rs",R+"job/runner.rs",R+"backend/memory.rs"],
  [("final attempt test","rexecutor/src/job.rs is_final_attempt"),("attempt accounting","rexecutor/src/backend/memory.rs mark_job_executing/mark_job_snoozed/mark_job_rerunable")],
  observe=["number of Executor::execute calls per job","final status and attempt"])

p("C03","A job runs only on its own executor, once per attempt, on one runner",
  "However many runners, nodes and executors share a backend, each attempt of a job is executed exactly once, two executions of the same job never overlap, and a job is only ever executed by the executor it was enqueued for. A job that is complete, cancelled, discarded or already executing is never started.",
  ["schedules","histories"],
  "for all numbers of runners and executors sharing one backend, all arrival orders, and all concurrent enqueues, updates and reruns of idle jobs",
  "Existing tests drive one stream with one or two jobs; claims racing between several subscribers are not explored.",
  [R+"backend/memory.rs",R+"job/runner.rs",R+"lib.rs"],
  [("atomic claim","rexecutor/src/backend/memory.rs load_job_mark_as_executing_for_executor"),("subscription by executor name","rexecutor/src/job/runner.rs spawn")],
  observe=["start/end log of Executor::execute"])

p("C04","A due job with a free runner starts promptly: no wakeup is lost",
  "Every runnable job whose scheduled time has been reached and whose executor has a running, non-saturated runner starts executing without noticeable delay (well under the 30 s polling period), whatever made it due: enqueue (past, now or future), a retry, a snooze, a rerun, an update or uniqueness replacement of its schedule, a notify_all on a paused backend, or capacity becoming free.",
  ["schedules","histories"],
  "for all orders and timings of enqueues, outcome-driven reschedules, reruns and schedule updates, including many jobs becoming due while the runner is busy",
  "Tests check three wakeup cases with one job each; combinations (earlier job arriving while sleeping for a later one, reschedule during saturation) are not sampled.",
  [R+"backend/memory.rs",R+"job/runner.rs"],
  [("subscriber notification","rexecutor/src/backend/memory.rs notify_subscribers/notify_all"),("sleep-until-next loop","rexecutor/src/backend/memory.rs ReadyJobStream::next")],
  observe=["virtual time of execution start versus scheduled time"])

p("C05","No execution starts before the job's scheduled time",
  "An execution never starts earlier than the scheduled time the job carries at that moment (beyond the 100 ms clock tolerance), whether that time came from the enqueue, a retry backoff, a snooze, an update, a replacement or a cron occurrence, and regardless of how many other jobs are ready.",
  ["schedules","histories","inputs"],
  "for all schedules of other jobs (ready or not), all reschedule sources, and all wakeups of the runner",
  "Tests enqueue a single future job; they do not put ready and future jobs of mixed priorities in one queue with wakeups in between.",
  [R+"backend/memory.rs",R+"job/runner.rs"],
  [("due filter on claim","rexecutor/src/backend/memory.rs load_job_mark_as_executing_for_executor")],
  observe=["virtual time of execution start versus scheduled_at of the job"])

p("C06","Ready jobs are taken in schedule and priority order",
  "When a runner takes its next job, it never takes a job while another ready job of the same executor is at least as urgent on both scheduled time and priority (lower number first) and strictly more urgent on one of them. In particular jobs due at the same instant run in priority order, and equal-priority jobs in schedule order.",
  ["inputs","schedules"],
  "for all sets of ready jobs (any priorities, any past schedules, retries and snoozed jobs included) and all arrival orders",
  "One test uses two jobs; ordering over arbitrary backlogs is not sampled.",
  [R+"backend/memory.rs"],
  [("ordering of claims","rexecutor/src/backend/memory.rs load_job_mark_as_executing_for_executor sort_by")],
  observe=["order of deliveries from subscribe_ready_jobs / Executor::execute"])

p("C07","MAX_CONCURRENCY bounds, and is used for, concurrent executions",
  "A runner never has more executions of its executor in progress than the declared maximum, and while work is ready it uses all of that capacity (without a maximum every ready job runs concurrently); one executor's limit does not throttle another's.",
  ["schedules","histories"],
  "for all backlogs, execution durations and outcomes, blocking and non-blocking executors, and limits",
  "The tests assert nothing about concurrency beyond one or two jobs.",
  [R+"job/runner.rs",R+"executor.rs"],
  [("for_each_concurrent(E::MAX_CONCURRENCY)","rexecutor/src/job/runner.rs spawn")],
  observe=["maximum overlap of execute intervals"])

p("C08","One bad job or backend error never stops other jobs from running",
  "A job whose data cannot be decoded or whose stored numbers are out of range, a panicking, hanging or absurdly-delayed execution, a panic in the executor's timeout or backoff function, any number of failing stream items, or an error from the backend while recording an outcome affects at most that job: the runner stays alive and every other job is still executed and recorded as usual.",
  ["fault_sequences","histories","inputs"],
  "for all placements of undecodable jobs, panics, extreme snooze/backoff values, stream errors and backend write errors among healthy jobs",
  "Tests inject one decoding error and one stream error into a mock; they never check that healthy jobs before, between and after the faults still run.",
  [R+"job/runner.rs",R+"job.rs"],
  [("errors logged, not propagated","rexecutor/src/job/runner.rs spawn/handle_*"),("execution isolated in its own task","rexecutor/src/job/runner.rs tokio::spawn/spawn_blocking")],
  observe=["healthy jobs' execution log and stored state"])

p("C09","Graceful shutdown drains running jobs and starts no new ones",
  "After graceful shutdown is requested (explicitly or by dropping the guard), every execution already in progress still runs to its end and has its outcome recorded, no runner starts another job, and the cron and pruner tasks stop enqueueing and pruning. Jobs not yet started stay stored, runnable by a later instance.",
  ["schedules","histories"],
  "for all shutdown instants relative to starts, ends, retries, cron ticks and pruner ticks, via graceful_shutdown or the drop guard",
  "The tests only check that the token is cancelled for one idle runner.",
  [R+"lib.rs",R+"job/runner.rs",R+"cron_runner.rs",R+"pruner/runner.rs"],
  [("cancellation token","rexecutor/src/lib.rs graceful_shutdown/drop_guard"),("take_until","rexecutor/src/job/runner.rs spawn")],
  observe=["execution log around the shutdown instant","stored jobs afterwards"])

p("C10","Timeouts fire when, and only when, the execution exceeds them",
  "An execution that does not finish within the timeout its executor gives for that job is stopped at the timeout and counts as a failed attempt of type timeout; an execution finishing earlier, or for which no timeout is given, is never affected and keeps its own outcome.",
  ["inputs","schedules"],
  "for all timeouts and execution durations (including many jobs with different timeouts at once) and outcomes",
  "One test uses one duration/timeout pair.",
  [R+"job/runner.rs",R+"executor.rs"],
  [("tokio::time::timeout","rexecutor/src/job/runner.rs execute_job_with_timeout")],
  observe=["start/end/abort times and recorded error"])

p("C11","Retries and snoozes are rescheduled by exactly the requested delay",
  "A failed, non-final attempt becomes due again at the instant of failure plus the delay the executor's backoff gives for that job and attempt, and a snoozed job at the instant of snoozing plus the requested delay (clamped only at the representable maximum), for any delay an executor can return. The default backoff for attempt n is 4^n seconds within ten percent, capped at seven days plus or minus ten percent.",
  ["inputs","histories"],
  "for all backoff and snooze delays (zero, negative, sub-second, huge) and attempt numbers",
  "Tests use one fixed delay and mostly match any timestamp.",
  [R+"job/runner.rs",R+"executor.rs"],
  [("next_scheduled_at computation","rexecutor/src/job/runner.rs handle_job_error/handle_job_snoozed"),("default backoff","rexecutor/src/executor.rs DEFAULT_BACKOFF_STRATEGY")],
  observe=["scheduled_at after the attempt","start time of the next attempt"])

p("C12","Enqueueing stores exactly the job that was built",
  "Enqueueing through the builder stores, under a fresh id, exactly the data, metadata, tags (in order), priority, schedule, maximum attempts and uniqueness criteria given to the builder, in whatever order its methods were called, falling back to the executor's declared maximum attempts and criteria and to 'now' when they were not given; the job starts out scheduled with no attempts and no errors. The executor later receives equal data and metadata, and reading the job back and writing it unchanged alters nothing.",
  ["inputs","histories"],
  "for all sequences of builder calls and all serialisable data and metadata values (unicode, nested, numeric extremes, null-like)",
  "Tests enqueue a handful of literal strings in one call order.",
  [R+"job/builder.rs",R+"backend/memory.rs",R+"job.rs",R+"backend.rs"],
  [("builder","rexecutor/src/job/builder.rs"),("conversions","rexecutor/src/job.rs TryFrom, rexecutor/src/backend.rs TryFrom")],
  observe=["EnqueuableJob received by a backend","Backend::query","Job in Executor::execute"])

p("C13","Uniqueness: a duplicate is detected exactly when the criteria match",
  "A unique enqueue is treated as a duplicate exactly when a stored job exists that satisfies every criterion the caller chose (executor, key, status set, scheduled less than the chosen duration away from the present) and ignores the ones not chosen; otherwise a new job is stored. Two keys match exactly when the hashed values are equal, and criteria built in any order of builder calls mean the same.",
  ["inputs","histories"],
  "for all stored job sets, all combinations of criteria, keys, windows, statuses and schedules (in-memory backend)",
  "Tests enumerate a few criteria against one stored job; combinations and absent criteria are not covered.",
  [R+"backend/queryable.rs",R+"backend/memory.rs",R+"job/uniqueness_criteria.rs"],
  [("EnqueuableJob::matches","rexecutor/src/backend/queryable.rs"),("criteria builders","rexecutor/src/job/uniqueness_criteria.rs")],
  observe=["number of jobs stored and the id returned by enqueue"])

p("C14","Uniqueness: conflicts change only what the resolution allows",
  "When a unique enqueue hits an existing job, the existing job's id is returned and no job is added; with do-nothing nothing stored changes, and with replace exactly the selected fields of one matching job take the new values if its status is in the allowed set, and nothing changes otherwise. All other fields of that job and all other jobs stay untouched.",
  ["inputs","histories"],
  "for all replace field/status combinations and all stored jobs in any state (in-memory backend)",
  "Tests use one stored, scheduled job and a few field combinations.",
  [R+"backend/memory.rs",R+"job/uniqueness_criteria.rs"],
  [("Job::replace","rexecutor/src/backend/memory.rs"),("insert_unique_job","rexecutor/src/backend/memory.rs")],
  observe=["full job table before and after"])

p("C15","Concurrent unique enqueues keep one job and disturb nothing",
  "When any number of tasks or threads enqueue jobs with the same uniqueness criteria at once, exactly one job is stored and all of them get its id. A unique enqueue racing with runners, updates or outcome recording never reverts another party's change: no execution is repeated and no status, attempt or error is lost.",
  ["schedules","histories"],
  "for all interleavings of concurrent unique enqueues with each other and with claims, completions and updates",
  "All uniqueness tests are sequential.",
  [R+"backend/memory.rs"],
  [("insert_unique_job","rexecutor/src/backend/memory.rs")],
  observe=["job table after the race","execution counts"])

p("C16","Queries return exactly the jobs that satisfy them",
  "For any query expression built from the query API (all predicates, and/or/not in any nesting), the jobs returned are exactly the stored jobs satisfying it under ordinary boolean logic, each once and with its full current contents; and querying through an executor only ever returns that executor's jobs.",
  ["inputs","histories"],
  "for all job tables and all query expressions, via the typed executor API and the backend API (in-memory backend)",
  "Tests evaluate each predicate against one job and one three-clause expression.",
  [R+"backend/queryable.rs",R+"job/query.rs",R+"backend.rs",R+"executor.rs"],
  [("Query::matches","rexecutor/src/backend/queryable.rs"),("Where combinators","rexecutor/src/job/query.rs"),("executor scoping","rexecutor/src/backend.rs for_executor")],
  observe=["Executor::query_jobs_on_backend / Backend::query results"])

p("C17","Pruning removes exactly the finished jobs the pruner describes",
  "Pruning by age removes exactly the jobs in the given finished status, of the covered executors, scheduled longer ago than the age; pruning by length keeps exactly the given number of most recently scheduled such jobs (all of them if fewer) and removes the rest. Jobs in another status or of an executor that is not covered are never removed or altered.",
  ["inputs","histories"],
  "for all job tables, ages, lengths, finished statuses and executor selections built with only/except/and (in-memory backend); of prunes of an unfinished status only that no other job is touched and the number kept",
  "Tests prune one or two jobs per case.",
  [R+"backend/memory.rs",R+"pruner.rs",R+"backend/queryable.rs"],
  [("prune_jobs","rexecutor/src/backend/memory.rs"),("Pruner/Spec builders","rexecutor/src/pruner.rs")],
  observe=["job table before and after prune_jobs"])

p("C18","The pruner runs every configured prune once per scheduled occurrence",
  "While running, the pruner executes each configured prune exactly once for every occurrence of its cron schedule, no earlier than a few milliseconds before it, never running more prunes at once than the configured maximum concurrency (ten by default). Occurrences passing while a round is still running may be skipped. A prune that fails or is slow does not prevent the other prunes or later occurrences.",
  ["schedules","fault_sequences","configurations"],
  "for all schedules, pruner lists, concurrency limits, prune durations and failure patterns",
  "One test observes a single tick with a mock.",
  [R+"pruner/runner.rs",R+"pruner.rs",R+"lib.rs"],
  [("prune loop","rexecutor/src/pruner/runner.rs")],
  observe=["prune_jobs calls (spec, time, overlap) on a recording backend"])

p("C19","Cron executors get exactly one job per occurrence, scheduled at it",
  "While running, a cron executor has exactly one job enqueued for each occurrence of its schedule in the given time zone: none skipped, duplicated or invented, each scheduled at exactly that instant, carrying the configured data and the executor's defaults, and executed on time. Several cron executors and data values run independently, and a failed enqueue loses at most that occurrence (occurrences passing while an enqueue is still running are not claimed).",
  ["schedules","configurations","fault_sequences"],
  "for all cron schedules, time zone offsets, start instants, data values, execution durations and enqueue failures",
  "One test waits for one tick of a once-per-second schedule.",
  [R+"cron_runner.rs",R+"lib.rs"],
  [("cron loop","rexecutor/src/cron_runner.rs spawn"),("enqueue with occurrence time","rexecutor/src/cron_runner.rs enqueue_job")],
  observe=["enqueued jobs and their scheduled_at versus the schedule's occurrences","execution log"])

p("C20","Backoff strategies stay within their formula, bounds and jitter",
  "For every configuration and every attempt number a backoff strategy returns without panicking a delay that is the strategy's formula (constant, linear, polynomial, exponential) capped by its maximum, moved by at most the jitter, and never below the configured minimum; jitter actually spreads over its range in both directions.",
  ["inputs","configurations"],
  "for all strategies, factors, powers, maxima, minima, jitters and attempts 0..=65535",
  "Tests use a few factors and attempts 1..100, which stay far from overflow.",
  [R+"backoff.rs"],
  [("Strategy impls","rexecutor/src/backoff.rs"),("Jitter::apply_jitter","rexecutor/src/backoff.rs")],
  observe=["Strategy::backoff return value"])

p("C21","Job management operations follow the job life-cycle model",
  "Cancel, rerun, update and the outcome-recording operations of the in-memory backend behave like the documented life-cycle for every history: cancel records the reason and cancelled status, rerun makes a job due now with one more allowed attempt and cleared completion marks, update stores exactly the given job, and each affects only the addressed job. Operations on an unknown id report job-not-found and change nothing.",
  ["histories","inputs"],
  "for all sequences of backend and executor-level operations over many jobs, including unknown and deleted ids",
  "Tests exercise each operation once on a fresh job.",
  [R+"backend/memory.rs",R+"executor.rs"],
  [("Backend for InMemoryBackend","rexecutor/src/backend/memory.rs"),("*_on_backend methods","rexecutor/src/executor.rs")],
  observe=["full job table after each operation"])

p("C22","The global backend is set once and used by every global operation",
  "Before a global backend is set every global operation fails with the global-backend error and has no effect; the first set wins, every later set fails and changes nothing; afterwards each global operation (enqueue, cancel, rerun, query, update, assertion) acts on exactly the backend that was set, with the same effect as its explicit-backend variant.",
  ["histories","schedules"],
  "for all orders of set attempts (also concurrent ones) and global operations in one process",
  "The backend is process-global, so unit tests in one process can only observe one set and cannot order operations before it.",
  [R+"global_backend.rs",R+"lib.rs",R+"executor.rs",R+"job/builder.rs"],
  [("OnceCell","rexecutor/src/global_backend.rs")],
  observe=["results of global calls and the job tables of the candidate backends"])

p("C23","PostgreSQL: stored jobs follow the same life-cycle model",
  "For every history of enqueue, claim, complete, retry, snooze, discard, cancel, rerun and update, the PostgreSQL backend's stored jobs equal those of the documented life-cycle (status, attempt, maximum, schedule, timestamps, error entries with type, message and attempt), every value read back equals the value written, only the addressed job changes, and unknown ids report job-not-found.",
  ["histories","inputs"],
  "for all operation sequences and all field values (unicode and SQL-special text, nested json, microsecond timestamps)",
  "The PostgreSQL tests need a live database, run each operation once, and are not run in this environment at all.",
  [S+"lib.rs",S+"backend.rs",S+"types.rs"],
  [("SQL statements","rexecutor-sqlx/src/lib.rs"),("rows-affected mapping","rexecutor-sqlx/src/backend.rs handle_update"),("row decoding","rexecutor-sqlx/src/types.rs")],
  observe=["Backend API results over a PostgreSQL wire connection"])

p("C24","PostgreSQL: queries return exactly the jobs that satisfy them",
  "For any query expression (all predicates, and/or/not in any nesting, empty lists included) the PostgreSQL backend returns exactly the stored jobs satisfying it under ordinary boolean logic, each once with its full contents, and executor-level queries never return another executor's jobs. Query values are data only: no value can change the meaning of the statement.",
  ["inputs","histories"],
  "for all job tables and query expressions, including quote, wildcard and unicode values",
  "The PostgreSQL query tests run single predicates and cannot run without a database.",
  [S+"query.rs",S+"backend.rs"],
  [("handle_query","rexecutor-sqlx/src/query.rs")],
  observe=["Backend::query results versus the model"])

p("C25","PostgreSQL: pruning removes exactly the jobs the pruner describes",
  "Pruning on the PostgreSQL backend removes exactly the same finished jobs as the pruner's description prescribes: by age those of the status and covered executors scheduled longer ago than the age, by length all but the given number of most recently scheduled ones, and never a job of another status or executor.",
  ["inputs","histories"],
  "for all job tables, ages, lengths, finished statuses and executor selections; of prunes of an unfinished status only that no other job is touched and the number kept",
  "The tests compare the SQL text of two prune specs; they never execute it.",
  [S+"query.rs",S+"lib.rs"],
  [("ToQuery for PruneSpec","rexecutor-sqlx/src/query.rs")],
  observe=["job table before and after prune_jobs"])

p("C26","PostgreSQL: unique enqueues keep at most one matching job",
  "On the PostgreSQL backend a unique enqueue is a duplicate exactly when a stored job satisfies every chosen criterion (executor, key, statuses, schedule within the window of the new schedule); duplicates return the existing id and change only what the resolution allows. Enqueues with the same criteria racing over many connections or nodes store exactly one job.",
  ["inputs","histories","schedules"],
  "for all stored jobs, criteria and resolutions, and all interleavings of concurrent unique enqueues at statement granularity",
  "The PostgreSQL uniqueness tests are sequential, few, and need a database.",
  [S+"unique.rs",S+"lib.rs"],
  [("advisory lock + query","rexecutor-sqlx/src/unique.rs"),("insert_unique_job","rexecutor-sqlx/src/lib.rs")],
  observe=["job table and returned ids"])

p("C27","PostgreSQL: due jobs are delivered promptly, once, across nodes",
  "With any number of nodes and runners sharing a PostgreSQL database each attempt of a job is handed to exactly one runner of its executor, never more than 100 ms early, in schedule/priority order, and promptly once due: at once when notifications work, and within the polling period when a notification is lost or a statement fails. Errors of single statements never stop delivery for good.",
  ["schedules","fault_sequences","histories"],
  "for all interleavings of statements from several nodes, all arrival patterns, lost notifications and statement errors",
  "Delivery tests need a database and use one node and one or two jobs.",
  [S+"stream.rs",S+"lib.rs",S+"backend.rs"],
  [("FOR UPDATE SKIP LOCKED claim","rexecutor-sqlx/src/lib.rs load_job_mark_as_executing_for_executor"),("listener fan-out","rexecutor-sqlx/src/lib.rs from_pool"),("poll/notify loop","rexecutor-sqlx/src/stream.rs")],
  observe=["deliveries from subscribe_ready_jobs on each node"])

p("C28","A backend behind a smart pointer behaves exactly like the backend",
  "Using a backend through a reference-counted or boxed pointer (to any depth) has the same effect as using it directly: every operation reaches the wrapped backend exactly once with exactly the arguments given, and its result or error comes back unchanged.",
  ["histories","inputs"],
  "for all sequences of backend operations and results, for Arc, Box and nested pointers",
  "One test per method checks a mock for a single call.",
  [R+"backend.rs"],
  [("blanket impl for Deref","rexecutor/src/backend.rs")],
  observe=["calls received by a recording backend and returned values"])

p("C29","assert_enqueued! passes exactly when the stated jobs are enqueued",
  "The enqueue assertion succeeds exactly when the number of stored jobs satisfying all of its clauses (data, metadata, tags, schedule bounds, executor) is the stated number, or at least one if no number is stated, and fails otherwise; it never changes the backend.",
  ["inputs","histories"],
  "for all job tables and all clause combinations and counts, explicit and global backend forms",
  "Tests only contain assertions that should pass for a couple of jobs.",
  [R+"testing.rs"],
  [("assert_enqueued!","rexecutor/src/testing.rs")],
  observe=["whether the macro panics"])

p("C30","PostgreSQL: instances that come and go carry every job to its end",
  "With instances of the library starting and shutting down gracefully on several nodes over one PostgreSQL database, every job is executed exactly as often as its outcomes and maximum ask for, never by two instances at once, within its executor's concurrency limit on each instance, and ends in the status and with the errors its outcomes call for. An instance takes no job after its shutdown; what it had not started stays runnable, with its schedule unchanged, and is executed by another instance.",
  ["schedules","histories"],
  "for all outcome scripts, start and shutdown instants, statement latencies and lost notifications",
  "No existing test runs executors over PostgreSQL, let alone several instances or a shutdown between two statements.",
  [R+"job/runner.rs",R+"lib.rs",S+"stream.rs",S+"backend.rs",S+"lib.rs"],
  [("claims put back","rexecutor-sqlx/src/stream.rs"),("take_until shutdown","rexecutor/src/job/runner.rs spawn"),("outcome statements","rexecutor-sqlx/src/lib.rs _mark_job_*")],
  observe=["job table, executions, and what each instance was handed"])

p("C31","A cron occurrence is one job across the instances over PostgreSQL",
  "With the same cron entries (executor, data and schedule) registered on several instances over one PostgreSQL database, every occurrence of a schedule that passes while an instance with it is up has exactly one job, however many instances have it and also when one of them claimed or finished the job before another came to it; entries of another executor or with other data have their own. The job is executed once and completes, and there is no job for an instant that is no occurrence.",
  ["schedules","histories"],
  "for all sets of cron entries, start and shutdown instants of instances and statement latencies",
  "No existing test runs cron over PostgreSQL or on two instances; whether the second instance finds the job depends on which statement comes first.",
  [R+"cron_runner.rs",R+"lib.rs",S+"unique.rs",S+"lib.rs"],
  [("uniqueness of an occurrence","rexecutor/src/cron_runner.rs enqueue_job"),("unique insert","rexecutor-sqlx/src/lib.rs _insert_unique_job"),("cron registration","rexecutor/src/lib.rs with_cron_executor")],
  observe=["job table and executions"])

p("C32","PostgreSQL: an interrupted operation happens completely or not at all",
  "When an operation of the PostgreSQL backend is interrupted - a statement of it (BEGIN, locks and COMMIT included) is refused, the connection is lost before or after a statement was carried out, or the caller gives up waiting - then either everything the operation does is stored or nothing of it, once. An operation that reports success has happened, with the result it has undisturbed; an existing job is never reported as not found. Nothing that was interrupted blocks, loses or changes a later operation on the same or on another node: those still do and report what they would have.",
  ["fault_sequences","crash_points","histories"],
  "for all tables, sequences of operations, statement latencies, failing statements, lost connections and instants of giving up",
  "No existing test makes a statement fail, loses a connection or abandons a call; what is left behind depends on the statement at which it happens.",
  [S+"lib.rs",S+"backend.rs"],
  [("transaction of a unique enqueue","rexecutor-sqlx/src/lib.rs insert_unique_job"),("single statement outcomes","rexecutor-sqlx/src/lib.rs _mark_job_*"),("error mapping","rexecutor-sqlx/src/backend.rs handle_update")],
  observe=["results of the operations","job table"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
