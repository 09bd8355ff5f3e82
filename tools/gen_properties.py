#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as source so that entries stay uniform)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))


p("C01", "A completed secure aggregation yields exactly the sum of accepted inputs",
  "When a secure aggregation session completes, the server's result for every vector equals, position by position, the sum modulo that vector's modulus of the inputs of exactly those clients whose masked input the server accepted. This holds whichever clients drop out in whichever round, in whatever order messages arrive, for every topology of secret sharing, vector length and modulus, and however the unmasking work is spread over threads. If too few shares survive to unmask, the session ends aborted and no result is handed out.",
  ["schedules", "histories", "inputs", "configurations", "fault_sequences"],
  "All client sets, dropout points per client and round, message orders, complete and sparse sharing graphs, synchronous and asynchronous masked-input collection, vector lengths and moduli up to 2^62.",
  "The unit tests run a handful of scripted sessions per state class with fixed dropouts; the whole client/server protocol over all dropout patterns, orders and topologies is never run, and none of the secure aggregation code is compiled by the existing tests.",
  ["fcp/secagg/server/*.cc", "fcp/secagg/server/aes/*.cc", "fcp/secagg/client/*.cc", "fcp/secagg/shared/*.cc"],
  [("pairwise masks added for lower, subtracted for higher ids, plus self mask", "fcp/secagg/client/secagg_client_r1_share_keys_base_state.cc, secagg_client_r2_masked_input_coll_base_state.cc"),
   ("server reconstructs keys from shares and removes residual masks", "fcp/secagg/server/secagg_server_r3_unmasking_state.cc, secagg_server_prng_running_state.cc, aes/aes_secagg_server_protocol_impl.cc")],
  ["SecAggServer::Result", "SecAggServer::State"],
  [("masked input sum", "running modular sum of accepted masked inputs", "aes_secagg_server_protocol_impl.h"),
   ("client states", "how far each client got before it dropped", "secagg_server_state.h")])

p("C02", "A peer's two kinds of secret share are never both disclosed to the server",
  "Within one session, an honest secure aggregation client never discloses to the server both the share that unmasks a peer's own mask and the share that reveals the same peer's pairwise-mask key, whatever messages the server sends and in whatever order. It discloses no share at all before its own masked input has been sent, nor when the request names itself, an unknown or already dropped peer, or leaves fewer surviving peers than the agreed minimum: then it aborts. An honest server asks for the pairwise-mask share only of clients whose masked input it did not accept.",
  ["histories", "inputs", "schedules"],
  "All server message sequences (honest and malformed, repeated, reordered), all dropout sets, all thresholds.",
  "Unit tests check single hand-written unmasking requests; secrecy is about every possible sequence of server messages during the life of a client.",
  ["fcp/secagg/client/secagg_client_r3_unmasking_state.cc", "fcp/secagg/client/*.cc", "fcp/secagg/server/secagg_server_r2_masked_input_coll_state.cc"],
  [("unmasking request validated once, then state becomes terminal", "fcp/secagg/client/secagg_client_r3_unmasking_state.cc"),
   ("dead list built from clients that never delivered a masked input", "fcp/secagg/server/secagg_server_r2_masked_input_coll_state.cc")],
  ["messages passed to SendToServerInterface::Send", "messages passed to SendToClientsInterface::Send"],
  [("other client states", "what this client believes about each peer", "fcp/secagg/client/other_client_state.h")])

p("C03", "Secure aggregation server advances, counts and aborts by the protocol",
  "At every moment the server's reported round, its counts of alive, pending, finished, failed and included clients, and its readiness to advance follow from the history of accepted messages and client aborts alone; it advances only when at least the minimum number of clients finished the round, and a session that can no longer reach the minimum aborts every surviving client instead of advancing. Each client is told at most once that it is aborted, invalid or unexpected messages remove only their sender, and completed or aborted sessions reject every further message, abort or advance attempt without changing anything.",
  ["histories", "schedules", "inputs", "configurations"],
  "All interleavings of client messages (valid, malformed, duplicated, wrong round), client aborts by either side, server aborts and attempts to advance, for every number of clients and minimum.",
  "Per-state unit tests fix the predecessor state by construction and check single calls; the accounting over whole histories, in particular after several kinds of dropout, is not covered.",
  ["fcp/secagg/server/secagg_server.cc", "fcp/secagg/server/secagg_server_state.cc", "fcp/secagg/server/secagg_server_r*_state.cc", "fcp/secagg/server/secagg_server_prng_running_state.cc", "fcp/secagg/server/secagg_server_aborted_state.cc", "fcp/secagg/server/secagg_server_completed_state.cc"],
  [("state pattern: one class per round, transferred counters", "fcp/secagg/server/secagg_server_state.cc"),
   ("thresholds and needs-to-abort", "fcp/secagg/server/secagg_server_r*_state.cc")],
  ["SecAggServer public getters", "SendToClientsInterface calls", "status codes of public calls"])

p("C04", "Secure aggregation client follows the rounds once, in order, then stays silent",
  "A secure aggregation client sends at most one message per round, in round order, sends its masked input only after both its input and the peers' keys arrived, and reports itself active exactly until it completed or aborted. A message that is wrong for the current round is refused without any effect, a malformed message for the current round makes it abort and tell the server exactly once, and after completion or abort nothing is ever sent again and every further start, input or abort leaves the outcome unchanged.",
  ["histories", "inputs", "schedules"],
  "All interleavings of start, input, abort and server messages, valid or malformed, for every group size and threshold.",
  "The unit tests exercise each state with a few prepared messages; they never run arbitrary histories across states.",
  ["fcp/secagg/client/*.cc"],
  [("state pattern with InputSet/InputNotSet variants", "fcp/secagg/client/secagg_client*.cc"),
   ("single mutex around every call", "fcp/secagg/client/secagg_client.cc")],
  ["SecAggClient public calls and return values", "SendToServerInterface::Send", "StateTransitionListenerInterface::Transition"])

p("C05", "Any threshold of shares restores the secret; sharing graphs are sound",
  "For every secret and every threshold up to the number of shares, every set of shares of at least threshold size restores exactly the secret and every smaller set is refused with an error rather than a wrong value. In every sharing topology the neighbour relation is symmetric, every participant is its own neighbour, all have the same number of neighbours, and the position one participant has in another's list is consistent with that list.",
  ["inputs", "configurations"],
  "All secrets (including extreme values and both key lengths), thresholds, subsets of shares, group sizes, degrees and random permutations.",
  "Tests use a few fixed secrets and subsets; the claim is over all subsets and topologies and over sequences of reconstructions that reuse cached coefficients.",
  ["fcp/secagg/shared/shamir_secret_sharing.cc", "fcp/secagg/shared/aes_key.cc", "fcp/secagg/server/secret_sharing_harary_graph.cc", "fcp/secagg/server/secret_sharing_complete_graph.h", "fcp/secagg/server/secret_sharing_graph_factory.h"],
  [("Lagrange interpolation with cached coefficients", "fcp/secagg/shared/shamir_secret_sharing.cc"),
   ("circular Harary graph under a random permutation", "fcp/secagg/server/secret_sharing_harary_graph.cc")],
  ["ShamirSecretSharing::Share/Reconstruct", "SecretSharingGraph accessors"])

p("C06", "Scheduled work runs exactly once, a worker's tasks serially and in order",
  "Every task handed to a scheduler or to one of its workers runs exactly once; tasks of one worker never overlap and run in the order they were handed in, even when handed in from several threads or from within running tasks. Waiting for the scheduler to be idle returns only when no task is running or queued, so that no task handed in before is lost when an idle scheduler is shut down. A pool of several threads works on as many tasks at the same time, so that tasks waiting for each other make progress.",
  ["schedules", "histories"],
  "All interleavings of submitting threads and pool threads, pool sizes, nesting of submissions, and idle waits.",
  "Timing-based unit tests sample a few interleavings of a handful of tasks.",
  ["fcp/base/scheduler.h", "fcp/base/scheduler.cc"],
  [("worker posts a run-next task only when none is active", "fcp/base/scheduler.cc"),
   ("idle accounting of busy threads and queue", "fcp/base/scheduler.cc")],
  ["Scheduler::Schedule", "Worker::Schedule", "Scheduler::WaitUntilIdle"])

p("C07", "Timed wake-ups fire exactly once, never early, in deadline order",
  "A waiter registered with a clock is woken exactly once and never before its deadline as shown by that clock; waiters that become due together are woken in deadline order, and in registration order when their deadlines are equal. When no clock call is running any more, every waiter that is due at the simulated time has been woken, also when waiters register others or advance the time while being woken and when several threads register and advance at once; on the realtime clock every waiter is woken once its deadline has passed.",
  ["schedules", "histories"],
  "All interleavings of registrations, time steps and wake-up callbacks, including re-entrant ones and several threads.",
  "Unit tests use short fixed scripts of alarms; re-entrant registrations and racing time steps are not enumerated.",
  ["fcp/base/clock.h", "fcp/base/clock.cc", "fcp/base/simulated_clock.cc", "fcp/base/simulated_clock.h"],
  [("ordered pending map keyed by (deadline, id) and dispatch level", "fcp/base/clock.cc")],
  ["Clock::WakeupWithDeadline", "Clock::Waiter::WakeUp", "SimulatedClock::AdvanceTime/SetTime"])

p("C08", "A promise settles its future exactly once and unblocks every waiter",
  "A future becomes ready exactly when its promise is either fulfilled or dropped, and then for good; taking the value yields exactly the value set, or nothing if the promise was dropped unfulfilled, and a promise fulfilled once cannot be fulfilled again. A thread waiting for the future is always released by fulfilment or abandonment, whichever thread does it and however the calls interleave, and a bounded wait reports readiness only if the future is ready.",
  ["schedules", "histories"],
  "All interleavings of setting, dropping, waiting, polling and taking from different threads.",
  "Unit tests run a few timed scenarios; they do not enumerate orders of the racing calls.",
  ["fcp/base/future.h", "fcp/base/future.cc"],
  [("shared state with a notification set once", "fcp/base/future.h")],
  ["Promise::Set", "Future::Wait", "Future::Take", "ScheduleFuture"])

p("C09", "Parallel accumulation folds every scheduled contribution exactly once",
  "An accumulator's final value is the result of combining its initial value with the output of every task handed to it, each exactly once and never two combinations at a time, regardless of how tasks are spread over threads or delayed. It reports itself idle only when every accepted task was generated and combined, notifies a registered observer once it becomes idle, and after cancellation returns no further task's effect is observed.",
  ["schedules", "histories"],
  "All interleavings of generators, combinations, delayed tasks, observers and cancellation.",
  "Tests use blocking-counter scripts over two or three tasks and thread pools whose schedule they do not control.",
  ["fcp/secagg/server/secagg_scheduler.h", "fcp/secagg/server/secagg_scheduler.cc"],
  [("parallel generator then sequential reduction with remaining counter", "fcp/secagg/server/secagg_scheduler.h")],
  ["Accumulator::Schedule/IsIdle/SetAsyncObserver/GetResultAndCancel/Cancel", "SecAggScheduler::WaitUntilIdle"])

p("C10", "Resource cache stays in budget and serves only correct bytes, despite crashes",
  "A resource that the cache reports as present is returned byte for byte as it was stored under that identifier together with its metadata; after every successful operation and after every re-opening, the bytes held in the cache directory stay within the configured budget, and room is made by removing expired entries first and then the least recently used ones. After a process crash or an I/O failure at any point the cache can be opened again, and from then on it serves only complete, correct resources and holds no file that it does not account for.",
  ["histories", "crash_points", "fault_sequences", "inputs"],
  "All histories of put/get/re-open with passing time and resource sizes, and a crash or I/O failure at every file-system step.",
  "Unit tests cover scripted histories without crashes inside an operation and a few injected errors.",
  ["fcp/client/cache/file_backed_resource_cache.cc", "fcp/client/cache/file_backed_resource_cache.h", "fcp/client/cache/cache_manifest.proto"],
  [("manifest written through an atomic proto store before the file", "fcp/client/cache/file_backed_resource_cache.cc"),
   ("clean-up on open and before each put", "fcp/client/cache/file_backed_resource_cache.cc")],
  ["FileBackedResourceCache::Put/Get/Create", "files in the cache directory"])

p("C11", "Scratch files are unique, confined and gone after their owner",
  "Every scratch file handed out by a temporary-file manager is newly created, empty, distinct from all others and inside the manager's own scratch directory under the given cache directory. When the manager is destroyed, or the next one is created after a crash, every file left in that scratch directory is removed and nothing outside that directory is touched; a directory that cannot be prepared yields an error instead of a manager.",
  ["histories", "crash_points", "inputs"],
  "All sequences of create, file creation with arbitrary prefix and suffix (parts of a file name), destruction or crash, and foreign files or directories being present.",
  "There is no test in the built subset; the upstream test covers two scripted cases.",
  ["fcp/client/cache/temp_files.cc", "fcp/client/cache/temp_files.h"],
  [("directory wiped on creation and destruction; exclusive creation with random names", "fcp/client/cache/temp_files.cc")],
  ["TempFiles::Create/CreateTempFile", "directory contents"])

p("C12", "A downloaded body is delivered complete and in order, or as an error",
  "Fetching one or several resources yields, position by position, for each either the exact bytes the server declared and sent (decompressed when stored compressed), the exact inline data, the exact bytes cached earlier under the same identifier, or an error; a short, overlong, undeclared-encoding or interrupted transfer is never delivered as success. One resource's failure never affects another's result, nothing is stored in the cache unless its transfer succeeded, and traffic counters include every byte of failed transfers as well.",
  ["inputs", "histories", "fault_sequences"],
  "All lists of inline and remote resources, cache hits and misses, response codes, header combinations, chunkings, truncations, transport errors and interruptions.",
  "Unit tests feed single scripted responses; combinations of several requests, cache states and failure kinds are not enumerated.",
  ["fcp/client/http/in_memory_request_response.cc", "fcp/client/http/http_client_util.cc", "fcp/base/compression.cc"],
  [("callback validating declared lengths and encodings", "fcp/client/http/in_memory_request_response.cc"),
   ("index bookkeeping between requests and results", "fcp/client/http/in_memory_request_response.cc")],
  ["FetchResourcesInMemory", "PerformMultipleRequestsInMemory", "InMemoryHttpRequest"])

p("C13", "Long-running operations are polled until done and cancelled when given up",
  "After starting a server-side operation the client keeps polling exactly that operation, with the server-requested pause clipped to the allowed range, until the server says it is done or polling fails, and then reports exactly the final operation or the failure. A check-in whose operation is abandoned by an error or interruption sends one cancellation for that operation, even while the application wants to stop, and every follow-up request goes to the endpoint, with the headers and API key, that the server last prescribed.",
  ["histories", "fault_sequences", "inputs"],
  "All sequences of operation responses, polling pauses, malformed names, HTTP errors and interruptions at any request.",
  "Unit tests script one or two polls; arbitrary response sequences and interruption points are not covered.",
  ["fcp/client/http/protocol_request_helper.cc", "fcp/client/http/http_federated_protocol.cc"],
  [("polling loop with clipped sleep", "fcp/client/http/protocol_request_helper.cc"),
   ("delayed interruptible runner for cancellation", "fcp/client/http/http_federated_protocol.cc")],
  ["requests reaching HttpClient", "ProtocolRequestHelper results"])

p("C14", "A federated session makes only legal requests and reports each task at most once",
  "Within one session the client first checks in for eligibility, then for tasks, and then reports each assigned task at most once; every request it sends is one the protocol allows at that point and carries the session, task and aggregation identifiers, tokens and endpoint that the server handed out for that very task. Results are uploaded and then submitted only after the server accepted the start of the upload, a failed upload is aborted (unless the server has aborted it) rather than submitted, and results destined for confidential aggregation leave the device only encrypted to a key that passed verification.",
  ["histories", "fault_sequences", "inputs"],
  "All sequences of client calls and server responses (success, rejection, malformed, HTTP error) over both single and multiple task assignment and all aggregation kinds.",
  "The large upstream unit test is not built here and scripts one path at a time with a mock; identifier mix-ups between several tasks in one session are not enumerated.",
  ["fcp/client/http/http_federated_protocol.cc", "fcp/client/http/http_federated_protocol.h"],
  [("object state and per-task state", "fcp/client/http/http_federated_protocol.cc"),
   ("per-task request creators and identifiers", "fcp/client/http/http_federated_protocol.h")],
  ["requests reaching HttpClient", "results of FederatedProtocol calls"])

p("C15", "The session always returns the retry window the outcome calls for",
  "After any sequence of protocol calls the retry delay returned lies in the window the outcome calls for: the server's accepted window after a reported or accepted task, its rejected window after rejection, partial success or a transient failure once windows are known, the configured permanent-error window after a permanent error or failed upload, and the configured transient-error window when the server never supplied one. The concrete moment is chosen once per server window, so later queries only count down to it and never go negative, and a configured delay stays within its jitter bounds for any jitter setting.",
  ["histories", "inputs", "fault_sequences"],
  "All sequences of protocol calls and outcomes, windows (including inverted, negative and zero ones), jitter values and permanent error code lists.",
  "Unit tests check a few state/window pairs; the choice after mixed multi-task outcomes is not enumerated.",
  ["fcp/client/http/http_federated_protocol.cc", "fcp/client/federated_protocol_util.cc"],
  [("object state to retry window switch", "fcp/client/http/http_federated_protocol.cc"),
   ("clamping and jitter", "fcp/client/federated_protocol_util.cc")],
  ["FederatedProtocol::GetLatestRetryWindow", "PickRetryTimeFromRange", "GenerateRetryWindowFromTargetDelay"])

p("C16", "An interruptible call returns its result or is cancelled, never both or neither",
  "A call run interruptibly is started at most once and not at all if an abort is already requested; if no abort is requested before it ends its own result is returned, otherwise its abort hook is invoked exactly once and the caller gets a cancellation only after the call has really ended. The runner never returns or is destroyed while the call is still executing, runs calls one at a time, and records the interruption category that matches how long the call took to stop.",
  ["schedules", "histories", "configurations"],
  "All timings of abort requests relative to start, poll ticks, completion and grace periods.",
  "Unit tests use a few fixed sleeps.",
  ["fcp/client/interruptible_runner.cc", "fcp/client/interruptible_runner.h"],
  [("future polled with polling period, grace periods after abort", "fcp/client/interruptible_runner.cc")],
  ["InterruptibleRunner::Run", "LogManager diagnostics"])

p("C17", "Operational statistics keep every run once, newest last, within bounds",
  "The statistics store returns the entries committed earlier, unchanged and in order, minus only entries older than the retention period and the oldest ones beyond the size limit, and its stated trustworthy-since time never claims more history than it holds. A run appears at most once however often it is committed and never replaces another run's entry, also when commits fail or the stored file is unreadable, and at most one user has the store open at a time.",
  ["histories", "fault_sequences", "inputs"],
  "All histories of opening, logging, committing, failing reads or writes, corruption and passing time across several runs.",
  "Unit tests cover single operations with single injected failures.",
  ["fcp/client/opstats/pds_backed_opstats_db.cc", "fcp/client/opstats/opstats_logger_impl.cc", "fcp/client/opstats/opstats_utils.cc"],
  [("transform under file lock with pruning", "fcp/client/opstats/pds_backed_opstats_db.cc"),
   ("append on first commit, replace last on later commits", "fcp/client/opstats/opstats_logger_impl.cc")],
  ["OpStatsDb::Read/Transform", "OpStatsLogger::CommitToStorage"])

p("C18", "A task is declared eligible exactly when every policy it uses allows it",
  "For any population specification and participation history the eligibility result lists every task exactly once, in order, and marks it eligible if and only if each policy attached to it is supported at the required version and is satisfied. A repeat-limiting policy is satisfied only if the history is trustworthy for the whole period and holds no successful contribution within it (per task, or per matching group), a separation policy only if the index distance exceeds the minimum, and a data policy only if enough examples exist; a policy that fails with an error makes only its own tasks ineligible.",
  ["inputs", "histories", "configurations"],
  "All combinations of policies, tasks, policy versions, flags, histories and times.",
  "Unit tests check policies mostly one at a time.",
  ["fcp/client/eligibility_decider.cc", "fcp/client/opstats/opstats_utils.cc"],
  [("per-policy filtering of the eligible set", "fcp/client/eligibility_decider.cc"),
   ("last successful contribution lookup", "fcp/client/opstats/opstats_utils.cc")],
  ["ComputeEligibility"])

p("C19", "The secure aggregation transport maps every round to its request and reply",
  "When a device takes part in secure aggregation over HTTP, each protocol message goes to the request of its round with its payload intact, the masked input and the unmasked result part are both uploaded before that round is submitted, and the server's reply to each round is handed to the protocol exactly once and in order. A transport failure, a rejected operation or an interruption ends the run with an error, never with success, and a client-initiated abort tells the server once.",
  ["histories", "fault_sequences", "schedules"],
  "All server replies and failures at every request of every round, and interruption at any point.",
  "Unit tests send one message at a time to a mocked HTTP client.",
  ["fcp/client/http/http_secagg_send_to_server_impl.cc", "fcp/client/secagg_runner.cc"],
  [("message-type switch and server response holder", "fcp/client/http/http_secagg_send_to_server_impl.cc"),
   ("receive loop until completed or aborted", "fcp/client/secagg_runner.cc")],
  ["requests reaching HttpClient", "SecAggRunner::Run result"])

p("C20", "An aggregation session releases a result only after enough client reports",
  "The demo aggregation service counts each authorised client report at most once, only after its upload, and includes exactly the reports it acknowledged in the session result; a session's result is released only by completing it with at least the required number of acknowledged reports, otherwise completing fails and releases nothing. Status counts always equal the history of tokens handed out, clients started, submitted and aborted, a waiting caller is released exactly when its condition holds or the session ends, finished, aborted or unknown sessions and used or foreign tokens are refused, and when a session ends its unused tokens and open uploads end with it.",
  ["histories", "schedules", "inputs"],
  "All interleavings of session and client calls from several threads, unknown or reused tokens, aborts and waits.",
  "The upstream test needs TensorFlow Federated and is not run; it scripts single-threaded cases.",
  ["fcp/demo/aggregations.py"],
  [("session table, token sets and min-clients check", "fcp/demo/aggregations.py")],
  ["Service methods and HTTP handlers"])

p("C21", "Each check-in is assigned to the right published tasks, with a usable token",
  "A client checking in for a single task is assigned to the longest-published task of that kind, or rejected if there is none; a client checking in for several receives exactly one assignment for each published multiple-assignment task it named. Every assignment carries its task's own session, resources and slice template, the client's session id, and a fresh token that this task's session accepts exactly once; other populations are refused. The eligibility answer lists exactly the announced tasks and modes, to clients that support several tasks. Removing a task stops new assignments without disturbing other tasks. A computation run by the server returns a result made of exactly the reports of its own clients, at least as many as asked for, serves its resources only meanwhile, and leaves nothing published whether it succeeds or fails.",
  ["histories", "schedules", "inputs"],
  "All interleavings of publishing, removal, single and multiple check-ins, eligibility requests and whole computations, including equal names.",
  "The upstream tests need TensorFlow and are not run; they script single-threaded cases.",
  ["fcp/demo/task_assignments.py", "fcp/demo/eligibility_eval_tasks.py", "fcp/demo/server.py"],
  [("task lists guarded by locks", "fcp/demo/task_assignments.py"),
   ("announced tasks", "fcp/demo/eligibility_eval_tasks.py"),
   ("publishing and withdrawing around a computation", "fcp/demo/server.py")],
  ["Service methods and HTTP handlers", "InProcessServer.run_computation"])

p("C22", "Uploaded and downloaded media are exact, single-use and unreachable when closed",
  "An upload resource accepts exactly one body and hands exactly those bytes to the waiting party; a second upload, an unknown name or a finalised name is refused. A download group serves exactly the bytes registered under each of its names (compressed only when marked so) for as long as the group is open, and every name answers not-found afterwards, for any interleaving of registrations, transfers and closing.",
  ["histories", "schedules", "inputs"],
  "All interleavings of registering, uploading, finalising, downloading, closing, and arbitrary names and bodies.",
  "The existing tests run one call at a time on a few names.",
  ["fcp/demo/media.py"],
  [("name tables guarded by a lock", "fcp/demo/media.py")],
  ["media.Service handlers and download groups"])

p("C23", "Every HTTP request reaches exactly the matching RPC with the decoded message",
  "The HTTP gateway routes a request to a handler if and only if its method and path match that handler's declared rule, and the handler receives a message in which path variables and body fields equal what was sent, with declared compression undone; its reply or error is returned with the corresponding HTTP status and encoding. Requests that match nothing, are malformed or use unsupported encodings are refused with an error status and reach no handler.",
  ["inputs", "configurations"],
  "All method, path, query, header and body combinations against all declared rules.",
  "The existing tests check a dozen fixed requests.",
  ["fcp/demo/http_actions.py"],
  [("path templates compiled to patterns; proto transcoding", "fcp/demo/http_actions.py")],
  ["http_actions.create_handler behaviour over HTTP"])

p("C24", "Trace events are attributed to the innermost open span of their thread",
  "Every trace event and new span is recorded under the innermost scoped span open on the calling thread, or under the explicitly given span, or under the root of the recorder installed for that thread or globally when none is open. Closing a scope restores the previous one, other threads' scopes never interfere, a recorder stays usable through references to its spans after it was uninstalled, and giving up the installed recorder while other threads trace sends their events elsewhere without disturbing them. Each event reaches its recorder exactly once and, in text, as one whole line.",
  ["histories", "schedules"],
  "All nestings and interleavings of scoped and unscoped spans, explicit parents, recorders and threads.",
  "Unit tests script a few fixed nestings.",
  ["fcp/tracing/tracing_span.h", "fcp/tracing/tracing_span_impl.cc", "fcp/tracing/tracing_recorder_impl.cc", "fcp/tracing/tracing_span_ref.cc", "fcp/tracing/test_tracing_recorder_impl.cc"],
  [("thread-local stack of spans", "fcp/tracing/tracing_span_impl.cc"),
   ("recorder registry", "fcp/tracing/tracing_recorder_impl.cc")],
  ["TracingSpan", "Trace", "recorder output"])

p("C25", "Slice requests deliver all requested slices in key order, or an error",
  "A request for model slices fetches, for every requested key and in request order, exactly the resource the server's address template names for that key under the session's base, and delivers all slices in that order through the example iterator or fails as a whole. Every scratch file it creates is removed when its slice is read past, the iterator is closed or destroyed, and identical requests are counted and reported to the statistics once per fetch.",
  ["inputs", "histories", "fault_sequences"],
  "All key lists, templates, per-slice failures and iterator usage orders.",
  "Unit tests script a few fixed key lists and failures.",
  ["fcp/client/federated_select.cc", "fcp/client/federated_select.h"],
  [("template substitution, all-or-nothing fetch, file-backed iterator", "fcp/client/federated_select.cc")],
  ["FederatedSelectManager iterator factory", "HTTP requests", "scratch files"])

p("C26", "A sealed client payload opens only to what was sealed",
  "A payload encoded or encrypted for confidential aggregation decodes to exactly the same header, metadata and message for every content and length, and its encoding consumes exactly its own bytes. A message opens only with the matching private key, associated data and header: any altered, truncated or extended ciphertext, wrapped key or associated data yields an error, never a different plaintext and never a crash, and re-wrapping for another recipient keeps the message readable by exactly that recipient.",
  ["inputs"],
  "All headers, key identifiers, associated data, messages and single alterations of the encoded bytes.",
  "Unit tests use a few fixed values; none is built by the existing test run.",
  ["fcp/confidentialcompute/client_payload.cc", "fcp/confidentialcompute/crypto.cc", "fcp/confidentialcompute/cose.cc"],
  [("varint length-prefixed header", "fcp/confidentialcompute/client_payload.cc"),
   ("HPKE-wrapped symmetric key, AES-GCM-SIV message, CBOR structures", "fcp/confidentialcompute/crypto.cc, cose.cc")],
  ["EncodeClientPayload/DecodeAndConsumeClientPayloadHeader", "MessageEncryptor/MessageDecryptor", "OkpKey/OkpCwt Encode/Decode"])

p("C27", "Each HTTP transfer reports one start, its exact body, and one final outcome",
  "For every request handed to the HTTP client the callbacks see at most one response start, then exactly the body bytes of the final response in order, then exactly one final outcome, which is success only if the whole response arrived. Cancelled requests end with a cancellation, a response that its callback refuses is abandoned without further callbacks, requests of one batch do not influence each other's callbacks, header names and values are reported as the server sent them for the final response only, and sent and received byte counts match the bodies.",
  ["inputs", "fault_sequences", "schedules"],
  "All sequences of server behaviours (status codes, redirects, encodings, chunkings, truncations, resets) for several requests at once, and cancellation at any time.",
  "The upstream test needs a TensorFlow Serving HTTP server and is not built; it covers well-behaved servers.",
  ["fcp/client/http/curl/curl_http_request_handle.cc", "fcp/client/http/curl/curl_http_client.cc", "fcp/client/http/curl/curl_header_parser.cc"],
  [("libcurl callbacks and completion flags", "fcp/client/http/curl/curl_http_request_handle.cc")],
  ["HttpRequestCallback calls"])

p("C28", "A client run does the tasks it was given and reports each exactly once",
  "A run starts only when the device's conditions hold, asks first for eligibility, then for exactly the eligible tasks meant for joint assignment, and for a single task only when the population offers some, telling the server the weight of each. Every task handed out whose plan and files can be used is worked on in turn, whatever became of the others, with example queries made under its own name, history and aggregation; nothing is sent before the history entry is on disk; its result is sent exactly when the computation and its conversion succeeded, with every output's values, type and shape, and a failure is reported otherwise. The caller is told the tasks whose results arrived, full, partial or no success accordingly, and the server's latest retry window.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "All eligibility answers and policies, assignments of zero to several tasks of every kind, defects and outcomes of plans, models, files, history store and server at every step, and settings of the client.",
  "The runner's tests need TensorFlow and are not built; they script one fault at a time with mocks.",
  ["fcp/client/fl_runner.cc", "fcp/client/eligibility_decider.cc", "fcp/client/engine/tflite_plan_engine.cc", "fcp/client/engine/example_query_plan_engine.cc", "fcp/client/converters.cc"],
  [("eligibility, assignment, computation, report in sequence", "fcp/client/fl_runner.cc"),
   ("conversion of computed values into results", "fcp/client/fl_runner.cc, fcp/client/engine/example_query_plan_engine.cc")],
  ["FederatedProtocol calls", "SimpleTaskEnvironment calls", "FLRunnerResult"])

p("C29", "Computations read every example once and all readings are accounted for",
  "A computation that reads from an example source receives the examples of that source one by one, each once and in order, also when several threads of the model read together, until the end, after which it keeps seeing the end; an error of the source reaches the reader. Sources are looked up among slices, own history and device by address. The record of queries, the published numbers and the stored history give for each task exactly the numbers and sizes of the examples it read, under the address read from, with the time of first use kept for sources of the device, and never those of another task.",
  ["inputs", "schedules", "fault_sequences"],
  "All numbers of sources, examples, readers and readings, failures when opening or reading, and sequences of tasks in one run.",
  "The engines' tests need TensorFlow and are not built; readers on several threads are not tried.",
  ["fcp/client/engine/plan_engine_helpers.cc", "fcp/client/engine/example_query_plan_engine.cc", "fcp/client/example_iterator_query_recorder.cc", "fcp/client/opstats/opstats_logger_impl.cc", "fcp/client/simple_task_environment.cc"],
  [("dataset iterator with counters", "fcp/client/engine/plan_engine_helpers.cc"),
   ("per-phase dataset statistics", "fcp/client/opstats/opstats_logger_impl.cc")],
  ["ExternalDatasetIterator::GetNext", "OnTaskCompleted queries", "EventPublisher example stats", "stored dataset stats"])

p("C30", "Published events and the stored history tell what the run really did",
  "For every run the published events are, in order, those of the steps that took place: each phase is announced before its first action, ends with exactly one outcome that matches what happened (completed, turned away, interrupted by the device, aborted by the server, unusable payload, failing source, failing model, storage error), and carries the name of the task it concerns and the network use since the phase began or its addresses were known. The entry in the history holds the same events in the same order, by phase when so configured, with the first error of each, session, population, retry window without its token, and separation index.",
  ["histories", "fault_sequences", "configurations"],
  "All runs over eligibility, assignment, computation and upload outcomes with storage, model, file and server failures at every step.",
  "Loggers are unit-tested call by call with mocks; agreement with what a run did is never checked and the tests are not built.",
  ["fcp/client/phase_logger_impl.cc", "fcp/client/fl_runner.cc", "fcp/client/opstats/opstats_logger_impl.cc"],
  [("each phase event is published and logged together", "fcp/client/phase_logger_impl.cc"),
   ("events and errors by phase", "fcp/client/opstats/opstats_logger_impl.cc")],
  ["EventPublisher calls", "OpStatsDb content"])

p("C31", "A computation on the device gets exactly its inputs and ends with one outcome",
  "A computation on the device that the conditions do not allow is reported as not started, cancelled, and runs nothing. Any other is announced, runs its model at most once, and ends with exactly one published outcome that agrees with the returned status and the history: plan file not readable, plan or inputs unusable, interrupted, failing source, failing model, no usable engine, or completed with the examples it read. The model gets the input and output directories, or the resources the caller gave under the plan's names, and the plan's constants: nothing else, nothing less. Resources unknown to the plan are passed over; an input directory beside resources is refused. Sources are asked with session, directories and all resources given.",
  ["inputs", "configurations", "fault_sequences"],
  "All plans, sets of resources, directories, sources with their failures, model outcomes and device conditions.",
  "The test of this entry point needs TensorFlow and is not built; it tries single examples with mocks.",
  ["fcp/client/lc_runner.cc", "fcp/client/engine/tflite_plan_engine.cc", "fcp/client/phase_logger_impl.cc"],
  [("one logged outcome on every path", "fcp/client/lc_runner.cc"),
   ("inputs by tensor name", "fcp/client/lc_runner.cc")],
  ["RunLocalComputation result", "model inputs", "EventPublisher calls", "SelectorContext given to sources", "OpStatsDb content"])

p("C32", "A server key is handed out only if attested, allowed and properly signed",
  "The attestation verifier returns a key to encrypt to exactly when the judged evidence, endorsements and reference values hold at the present time, the access policy parses and the digest of its very bytes is on the allowlist, and the token decodes, names the ES256 algorithm, holds a public key and is signed in full by the key the evidence vouches for. It then returns that token's key unchanged and records evidence, endorsements and policy once. In every other case it returns an error, records nothing and does not crash; one verification has no effect on the next.",
  ["inputs", "fault_sequences", "histories"],
  "All combinations of evidence, policies that mean the same in other bytes, tokens altered, stripped or signed by others.",
  "The tests of this class need the Rust verifier and recorded evidence and are not built; they cover single known values.",
  ["fcp/client/attestation/oak_rust_attestation_verifier.cc", "fcp/confidentialcompute/cose.cc", "fcp/confidentialcompute/crypto.cc"],
  [("hash over the bytes as received", "fcp/client/attestation/oak_rust_attestation_verifier.cc"),
   ("signature over the protected parts", "fcp/confidentialcompute/cose.cc")],
  ["OakRustAttestationVerifier::Verify result", "arguments of VerifyAttestation", "record logger calls"])

p("C33", "Attestation records written to a log are recovered exactly, others never",
  "A verification record written in serialized form appears as lines short enough for any log, closed by an empty one. Reading a log in which such lines stand among any others finds every record whose lines are all there, in order, and unmixed, once, with its exact bytes, digest, and first and last line; also in the older format whose lines overlap. Lines lost, repeated, cut off or mixed between two records cost only the records concerned: nothing is found that was not written.",
  ["inputs", "histories", "fault_sequences"],
  "All logs of several records with foreign lines, losses, repetitions, exchanged lines, and two writers at once.",
  "The tests of both files are not built and use a few fixed logs.",
  ["fcp/client/attestation/log_attestation_records.cc", "fcp/client/attestation/extract_attestation_records.cc", "fcp/base/compression.cc"],
  [("parts and an empty last one", "fcp/client/attestation/log_attestation_records.cc"),
   ("buffer and start line reset at each end", "fcp/client/attestation/extract_attestation_records.cc")],
  ["ExtractRecords callbacks and count", "lines given to the logger"])

p("C34", "A host object is found under its token exactly while it is registered",
  "An object registered for an interface gets a token nobody else has. A lookup with that very token and interface finds that object at every moment between registration and its end, whichever thread asks, and nothing before, after, or with any other token or interface. Moving a registration keeps it; destroying it or moving another into its place ends it. The object is destroyed exactly when it is neither registered nor held by somebody who found it, and its destruction may itself end other registrations.",
  ["schedules", "histories"],
  "All interleavings of registering, moving, dropping and looking up from several threads, objects that own registrations, altered tokens.",
  "The one test is sequential, never assigns or nests registrations, and is not built.",
  ["fcp/tensorflow/host_object.h", "fcp/tensorflow/host_object.cc", "fcp/base/unique_value.h", "fcp/base/random_token.cc"],
  [("table guarded by a lock that is free when objects die", "fcp/tensorflow/host_object.cc"),
   ("a moved-from registration holds no token", "fcp/base/unique_value.h")],
  ["HostObjectRegistry::TryLookup results", "destruction of objects", "token bytes"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for e in P:
        f.write(json.dumps(e) + "\n")
print(len(P))
