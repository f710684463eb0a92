// Source of properties.jsonl (one compact record per property).  `node tools/gen-properties.mjs` rewrites it.
import { writeFileSync } from "node:fs";
import { dirname, join } from "node:path";
import { fileURLToPath } from "node:url";
const here = dirname(fileURLToPath(import.meta.url));
const P = "packages/";
const props = [];
const p = (id, title, statement, over, text, why, files, mechanism, extra = {}) =>
  props.push({
    id, title, statement,
    quantifier: { over: over.split(" "), text },
    why_tests_cant: why,
    anchors: {
      files: files.map((f) => P + f),
      mechanism: mechanism.map(([name, where]) => ({ name, where: P + where })),
      ...extra,
    },
  });

// ---------------------------------------------------------------- edge recorder
const W = "backend-recorder-workerd/src/", S = "backend-recorder-sidecar-worker/src/";
p("E01", "Captured edge events reach the sidecar once and in capture order",
  "Every event captured while an edge request is being recorded is handed to the recorder sidecar exactly once, and events captured before the request's batch is closed are handed over in capture order. Work still running when the response is returned (body reads, background promises) has its events delivered too, also when they arrive after the batch was closed. A sidecar that is slow, rejects or is unreachable never makes capturing throw or reject, and never prevents events of later batches from being sent.",
  "schedules fault_sequences histories", "every interleaving of adding events, producers settling, size-triggered early flushes, closing, and sidecar answers or failures",
  "Unit tests drive single happy-path buffers and one or two late events; they do not reach the interleavings of early flushes in flight, nested producers and failing sends.",
  [W + "capture-buffer.ts", W + "sidecar-client.ts"],
  [["batching, early flush and drain rounds", W + "capture-buffer.ts"], ["sends that never reject, with timeouts", W + "sidecar-client.ts"]]);
p("E02", "Recording never changes what the wrapped worker returns or throws",
  "A request handled by a wrapped worker yields the response the app produced, or fails with the error the app threw, whatever the recorder sidecar does, and the app is invoked exactly once per request. Without a configured sidecar the request and the app's execution are passed through untouched, with nothing reported. With one, each request is reported once, with its true status or error, without the response waiting for the report.",
  "schedules fault_sequences configurations", "every combination of sidecar configuration, sidecar fault and delay, app outcome (response, stream, redirect, throw) and request kind",
  "Tests fix one configuration at a time with a healthy stub; fault timing against app completion is not explored.",
  [W + "with-meticulous.ts", W + "pages-function.ts", W + "error-capture.ts", W + "sidecar-client.ts"],
  [["request wrapper", W + "with-meticulous.ts"], ["background reporting through waitUntil", W + "capture-buffer.ts"]]);
p("E03", "Replay mode is entered only with proof from a trusted replay sidecar",
  "A request is handled as a replay only if it names a local replay sidecar address, a session and a replay, and that sidecar confirms the session; anything else is handled as an ordinary request, and a replay is never recorded. An answer of found or not found is remembered per sidecar and session, shared by concurrent requests, while an unreachable sidecar is asked again by the next request. At most 50 such answers are remembered.",
  "inputs histories schedules fault_sequences", "every header combination and address shape, and every history of requests, session answers, failures and concurrent lookups",
  "Tests check a handful of URLs and one cache hit; they do not explore concurrent lookups, eviction, or failure-then-recovery histories.",
  [W + "with-meticulous.ts", W + "replay-sidecar-url.ts", W + "sidecar-client.ts"],
  [["sidecar URL validation", W + "replay-sidecar-url.ts"], ["session info promise cache", W + "with-meticulous.ts"], ["session lookup outcome mapping", W + "sidecar-client.ts"]]);
p("E04", "Outbound calls during a replay never reach real services by accident",
  "While a request is replayed, an outbound fetch call is answered with the recorded response, with its recorded status, headers and body, or reaches the real network only if the call is explicitly marked for pass-through or addressed to the replay sidecar itself. A miss, an unreachable or slow sidecar, an unknown answer or a call that cannot be represented fails the call instead. Calls made outside a replay, also concurrently with one, go to the real network unchanged.",
  "inputs schedules fault_sequences", "every outbound request shape, sidecar answer and failure, and interleaving of replayed and ordinary requests in one process",
  "Tests cover individual answers; fail-closed behaviour has to hold for every answer shape and failure, and under concurrent replayed and live requests.",
  [W + "replay-fetch.ts", W + "fetch-patch.ts", W + "sidecar-client.ts"],
  [["lookup and fail-closed dispatch", W + "replay-fetch.ts"], ["context-dependent fetch patch", W + "fetch-patch.ts"]]);
p("E05", "Virtual time and randomness are deterministic and confined to replays",
  "While a request is replayed, its clock readings start at the recorded time and stand still between reads, and its random values are a function of the session and of how often each call site has drawn, so that replaying the same request gives the same values. Subclasses of Date behave likewise. Code outside a replay, also when it runs interleaved with one, sees the real clock and real randomness. A loop that waits for the frozen clock to move terminates.",
  "schedules inputs histories", "every interleaving of replayed and ordinary requests reading time and randomness, through every reading function",
  "Tests sample sequential reads of one request; isolation between interleaved requests and repeatability across replays are over all schedules.",
  [W + "virtual-clock.ts", W + "virtual-random.ts", W + "with-meticulous.ts"],
  [["patched Date constructor and now", W + "virtual-clock.ts"], ["per-request seeded generators", W + "virtual-random.ts"]]);
p("E06", "Session ids are minted only for page navigations and reach the browser",
  "A session id is minted only for a document navigation (GET or HEAD for a document) that carries no session id of its own, while recording and not opted out; the events of the request are recorded under the inbound id if there is one, else under the minted one. A minted id is published on the response exactly once, in addition to any timing entries the app set, without changing status, body or other headers. Responses to requests for which nothing was minted are not modified.",
  "inputs configurations", "every combination of method, fetch-destination, accept, inbound ids, opt-out switches, recording state and response kind",
  "Tests sample a few header sets; the decision is a product of eight independent inputs.",
  [W + "provisional-session-id.ts", W + "publish-session-id.ts", W + "with-meticulous.ts"],
  [["navigation test", W + "provisional-session-id.ts"], ["header publication", W + "publish-session-id.ts"]]);
p("E07", "Captured bodies are bounded, faithful and free of known secrets",
  "A captured body is the exact text of the body, or its leading part of at most the size cap marked as truncated; binary or failing bodies never disturb the app. Values under secret-looking keys are replaced in complete captured JSON request bodies at any depth, all other values and keys are kept as they are. The app still receives the complete, unmodified body.",
  "inputs schedules fault_sequences", "every body content, nesting, chunking, size around the cap, stalled or failing stream",
  "Tests use small single-chunk bodies; chunk boundaries, stalls and nested shapes are unbounded.",
  [W + "body-capture.ts", W + "redact-body.ts", W + "outbound-capture.ts"],
  [["capped reader", W + "body-capture.ts"], ["recursive key redaction", W + "redact-body.ts"]]);

p("E08", "Instrumented bindings, namespaces and database clients behave as the originals",
  "While a request is recorded, each call on a service binding, key-value namespace or wrapped Postgres client reaches the original exactly once, with the app's own arguments and receiver, and gives the app exactly the original's outcome (the same value or the same error). Each finished call on a recorded resource is reported exactly once, to the request that made it, under its binding name with its operation, arguments and outcome (bounded; streams and binary values named as omitted). Skipped resources, the sidecar's own binding, websockets, queries that cannot be replayed, and calls made outside a recorded request or during replay are passed through unreported.",
  "inputs schedules histories", "every order of concurrent requests, calls, outcomes and ends of requests; every kind of argument, operation and result",
  "Tests use one request and one call at a time on plain object doubles; receivers, interleavings between requests and values that cannot be serialised are unbounded.",
  [W + "binding-patch.ts", W + "kv-patch.ts", W + "kv-capture.ts", W + "outbound-capture.ts", W + "postgres/capture.ts", W + "postgres/with-meticulous-postgres.ts"],
  [["binding proxies", W + "binding-patch.ts"], ["namespace proxies", W + "kv-patch.ts"], ["reported fields", W + "kv-capture.ts"], ["query instrumentation", W + "postgres/capture.ts"]]);

p("S01", "Acknowledged backend events are uploaded exactly once, also across crashes",
  "Every batch the recorder has acknowledged is eventually uploaded exactly once to the session of the time, in arrival order, as long as uploads succeed, including when a flush is requested while another upload is running. A crash at any storage or upload step loses no acknowledged batch: it may at most upload again the batches whose upload was not yet committed. A flush request is answered with success only after everything buffered before it was uploaded.",
  "schedules crash_points fault_sequences histories", "every interleaving of appends, alarm-driven and requested flushes, storage and upload steps, with a crash between any two of them",
  "Tests run sequential appends and flushes against an in-memory store; they contain no concurrent flushes and no crash points.",
  [S + "recorder-session-object.ts", S + "session-store.ts"],
  [["append with alarm armed before the durable write", S + "recorder-session-object.ts"], ["state written before batches are deleted", S + "recorder-session-object.ts"]]);
p("S02", "Uploaded backend sessions are well formed and bounded",
  "A stored session has its metadata written before its first chunk, chunk numbers that are contiguous from 1 without reuse for different content, at most 30 chunks and chunks only within 10 minutes of its start; what follows goes to a new session. After three consecutive failed chunk uploads, or a failed metadata upload, the session is marked abandoned, its pending events are discarded, and no new session is started until five minutes later. A successful upload resets the failure count.",
  "histories fault_sequences schedules", "every history of batches, elapsed times around the limits, and upload failures",
  "Tests sample single rollovers and failures; the limits interact (failures at the last chunk, rollover during cooldown) over histories.",
  [S + "session-store.ts", S + "recorder-session-object.ts", S + "s3/storage.ts"],
  [["chunk flushing, rollover, abandonment", S + "session-store.ts"], ["credential cache", S + "s3/storage.ts"]]);
p("S03", "The event endpoint accepts only what it can store, and shards consistently",
  "The event endpoint acknowledges a batch only after it was durably stored; an unsupported protocol version, a malformed or empty batch, a payload declared larger than the limit or a missing configuration is answered with an error and nothing is stored. An event that cannot be interpreted never holds up the others. All batches of one request go to the same storage shard. Failures of storage are reported to the sender as an error, never as an acknowledgement.",
  "inputs fault_sequences", "every request shape, size around the limit, configuration and storage outcome",
  "Tests sample a few malformed requests.",
  [S + "index.ts", S + "recorder-session-object.ts"],
  [["routing and validation", S + "index.ts"]]);

p("S04", "Each recorded event is uploaded as one span that says what it said",
  "For every event that was reported, exactly one span is uploaded, in the order of the reports: a server's span for an inbound request, a client's span below it for what the request called, in the trace the event names (or else in one trace per request). It carries the event's name, times, outcome (an error from 500 on for a server, from 400 on for a client, and whenever the call failed), address, bodies with their truncation, session and technology, and nothing else: no credentials of the address, and no headers but the two that are known.",
  "inputs histories", "every kind of event, combination of its optional fields, address, status, and order of reports and drains",
  "Tests use a handful of complete events; combinations of absent fields, repeated parameters and drains between the events of one request are unbounded.",
  [W + "spans/span-builder.ts", W + "spans/serialize-span.ts", W + "spans/url-redaction.ts", W + "spans/readable-span.ts"],
  [["span building", W + "spans/span-builder.ts"], ["serialisation", W + "spans/serialize-span.ts"], ["address redaction", W + "spans/url-redaction.ts"]]);

p("S05", "Uploads are signed with valid, shared temporary credentials",
  "Every object that is written goes, in one request, to the configured bucket, region or endpoint under exactly its key and with exactly its contents, signed so that the store accepts it: with credentials that were issued for the configured identity pool and that do not end within five minutes, at the time of signing. Credentials are fetched once for all writes that wait for them and used until then; a refusal makes the next write fetch new ones; a fetch that fails or gives something incomplete fails the writes that wait for it and no later ones. A write that the store does not accept fails.",
  "schedules fault_sequences", "every interleaving of writes, of the two calls of the pool and of the store's answers, lifetime of credentials, key, and configuration",
  "Tests sign one fixed request; expiry, sharing and failures of the fetch depend on the order of answers and on time.",
  [S + "s3/storage.ts", S + "s3/cognito-credentials.ts", S + "s3/sigv4.ts", S + "env.ts"],
  [["sharing and expiry of credentials", S + "s3/storage.ts"], ["fetching credentials", S + "s3/cognito-credentials.ts"], ["signing", S + "s3/sigv4.ts"]]);

// ---------------------------------------------------------------- uploads
const R = "remote-replay-launcher/src/";
p("U01", "A multipart upload reassembles to exactly the produced byte stream",
  "The parts of an upload, concatenated by part number, are exactly the bytes produced, in order; part numbers run from 1 without gaps, every part except the last has exactly the configured size, and each part goes to its own upload address. The reported completion list has one entry per part in order, with the tag returned for that part. If any part finally fails, the upload as a whole fails and completion is never reported; at no time are more parts in flight than allowed.",
  "inputs schedules fault_sequences", "every sequence of written block sizes relative to the part size, order of part completions, number of pre-issued addresses, and part failures",
  "Tests use a few sizes with immediate uploads; out-of-order completions and failures while still writing are not explored.",
  [R + "upload-utils/multipart-buffer-manager.ts", R + "upload-utils/multipart-compressing-uploader.ts", R + "asset-upload-utils.ts"],
  [["buffering and part slicing", R + "upload-utils/multipart-buffer-manager.ts"], ["pipeline and completion", R + "upload-utils/multipart-compressing-uploader.ts"]]);
p("U02", "An asset chunk is declared complete only when its contents are uploaded",
  "An asset chunk is reported complete only after both its archive and its index were fully uploaded, and a chunk the server already has is neither uploaded nor completed again. A run over uploaded chunks is triggered only after every referenced upload succeeded, and an upload that fails at any step surfaces as an error without a completion report. Temporary files are always removed.",
  "fault_sequences histories configurations", "every failure point and every answer of the server at each step, for every kind of reference",
  "Tests stub each step with success or one failure; ordering across steps under failures is not covered.",
  [R + "upload-asset-chunk.ts", R + "run-with-uploaded-asset-chunks.ts"],
  [["upload protocol", R + "upload-asset-chunk.ts"], ["create, upload, trigger", R + "run-with-uploaded-asset-chunks.ts"]]);
p("U03", "Waiting for a base run is bounded and falls back exactly once",
  "While the server reports that the base for a run is missing, the trigger is retried at a fixed interval until the base appears, or until the allowed time, as extended by the latest server answer, has passed; only then is the run triggered once without a base, if the caller allows that. An answer other than a missing base ends the waiting at once, and an error is passed on. The fallback never happens while time remains and never more than once.",
  "histories schedules fault_sequences configurations", "every history of server answers and elapsed times, with every extension",
  "Tests sample a few answer sequences with one extension.",
  [R + "poll-for-base-test-run.ts", R + "asset-upload-utils.ts", R + "asset-upload-utils.ts", R + "run-with-uploaded-asset-chunks.ts"],
  [["poll loop", R + "poll-for-base-test-run.ts"]]);
p("U04", "Retries are bounded, spaced, and only for transient failures",
  "A request that fails with a transient failure is retried after a delay within the documented bounds, honouring the server's retry-after, until it succeeds or the attempts are used up, and then fails with the last failure. A failure that is not transient is reported at once, without a second attempt. A response that breaks off is a failure, never a wait without end.",
  "fault_sequences inputs", "every sequence of failures and successes, every retry-after form",
  "Tests sample short sequences.",
  ["common/src/http-retry.utils.ts", "client/src/utils/retry-transient-upload-errors.ts", R + "asset-upload-utils.ts"],
  [["retry loop", "common/src/http-retry.utils.ts"], ["transient upload retry", "client/src/utils/retry-transient-upload-errors.ts"]]);

// ---------------------------------------------------------------- auth
const C = "client/src/";
p("U05", "A tunnel stays open exactly as long as its test run needs it",
  "A test run over a tunnel is triggered only once the tunnel is open, with its address and credentials, and the tunnel stays open until the run has ended, nothing locks it and the caller no longer wants it, and is then closed exactly once. If anything fails the tunnel is closed too, the failure is reported and the server is not asked any further. The outcome is the status with which the run ended; a run that fails to execute is given five minutes to be retried.",
  "histories schedules fault_sequences", "every order of polls, answers, lock checks and failures, overlapping polls included",
  "Tests do not run it.",
  ["remote-replay-launcher/src/execute-remote-test-run.ts"],
  [["tunnelled run", "remote-replay-launcher/src/execute-remote-test-run.ts"]]);
p("W03", "Cleaning up deletes exactly the debug workspaces that were chosen",
  "Cleaning up deletes exactly the debug workspaces that were chosen: all of them if told so or if that is confirmed, the selected ones, and none if the user cancels or does not confirm. It takes the worktree that a workspace holds off the list of the project's repository when it runs there, and leaves everything else as it is: files and links beside the workspaces, whatever links in them lead to, the repository with its branches and uncommitted files, and the rest of the local data. A workspace that cannot be deleted does not keep the others from being deleted.",
  "histories inputs fault_sequences", "every short history of workspaces of every kind and of cleanups with every choice",
  "Tests do not run it.",
  ["cli/src/commands/debug/clean-workspaces.ts", "cli/src/commands/debug/project-worktree.ts"],
  [["cleanup", "cli/src/commands/debug/clean-workspaces.ts"], ["worktrees", "cli/src/commands/debug/project-worktree.ts"]]);
p("G01", "The commit, base and diff inferred for a run describe exactly what is tested",
  "The commit inferred for a run holds exactly what is tested: HEAD if the working tree is clean, and for agent builds of changed files a commit of just these changes. The base is HEAD itself on the default branch or without a branch and otherwise the last commit shared with the origin's default branch, and the diff applied to the base yields the text files of the head (for a repository directory: the tracked files of its working tree), from whatever directory of the repository the tool runs and however git is configured to show diffs. What cannot be captured (untracked files for agent builds, uncommitted changes for a lookup, no reachable base, no repository) is refused with an explanation and never left out silently, values given explicitly are taken as they are, and asking changes no branch, index or file of the clone.",
  "histories inputs configurations", "every short history of a clone and its origin: commits, merges, branches, edits, staging, untracked files, ways to know the default branch, diffs of any size",
  "Tests use mocked git output.",
  ["cli/src/commands/agent/build-git-options.ts", "cli/src/commands/ci/resolve-git-options.ts", "common/src/commit-sha.utils.ts"],
  [["agent builds", "cli/src/commands/agent/build-git-options.ts"], ["repository directory", "cli/src/commands/ci/resolve-git-options.ts"], ["git", "common/src/commit-sha.utils.ts"]]);
p("G02", "The edited lines asked about are exactly those of the local changes",
  "For every file of the base that local changes touch, committed or not, the lines reported as edited, numbered as in the base, are all lines that were changed or deleted and, where lines were only added, the lines before and after the addition (nothing need be reported for an addition above the first line); no other line, no file that did not change and no file that is new is reported. Ranges are ascending and do not overlap. If a starting point is given, only what changed since then is reported, still against the same base. This holds for diffs of any size, from whatever directory of the repository the tool runs and however git is configured to show diffs.",
  "histories inputs", "every sequence of deletions, additions and replacements of lines, deleted and new files and commits, at any distance from each other",
  "Tests parse a few diffs written by hand, with context lines that the diffs actually asked for do not have.",
  ["cli/src/commands/local/get-edited-files.utils.ts", "cli/src/commands/local/relevant-sessions.command.ts"],
  [["edited lines", "cli/src/commands/local/get-edited-files.utils.ts"], ["command", "cli/src/commands/local/relevant-sessions.command.ts"]]);
p("A01", "Stored login tokens stay valid and are never lost to a race",
  "A caller asking for an access token gets the stored one while it is valid for at least half a minute, otherwise a freshly refreshed one, which is stored for the next caller. If refreshing a login fails, that login is removed and no token is returned, but a login that was stored or removed by someone else in the meantime is left as it is. Concurrent callers never invalidate each other's tokens.",
  "schedules histories fault_sequences", "every interleaving of concurrent callers, refresh outcomes, logins and logouts, with rotating refresh tokens",
  "Tests exercise one caller at a time.",
  [C + "oauth/oauth-refresh.ts", C + "oauth/oauth-token-store.ts"],
  [["refresh on expiry", C + "oauth/oauth-refresh.ts"], ["token file", C + "oauth/oauth-token-store.ts"]]);
p("A02", "Device login polls politely and ends exactly as the server decides",
  "Device login polls no faster than the interval the server asks for, slows down by five more seconds on each request to slow down, and keeps polling through pending answers and transient failures until the code expires. It ends with the tokens once the login is approved, and with an error on denial, expiry or any other definite refusal. No poll is made after the outcome is known.",
  "histories fault_sequences", "every sequence of server answers and failures up to expiry",
  "Tests sample short answer sequences.",
  [C + "oauth/oauth-device-login.ts"],
  [["polling loop", C + "oauth/oauth-device-login.ts"]]);
p("A03", "Credentials are chosen by fixed precedence, and browser logins bound to them",
  "The credential used is the explicitly passed one, else the stored login (where logins are supported), else the environment's, else the configuration file's; without any, requests go out without one, and a refusal is explained as a missing credential. A client that uses a stored login authenticates every request with the login that is current when it is sent. A browser login is accepted only on this machine and only if the callback carries the state that was issued for it, and it is stored only after its code was exchanged.",
  "configurations inputs histories", "every combination of present, empty and absent credential sources and callback parameters",
  "Tests sample single sources.",
  [C + "api-token.utils.ts", C + "client.ts", C + "oauth/oauth-login.ts", C + "oauth/oauth-callback-server.ts"],
  [["source order", C + "api-token.utils.ts"], ["state check", C + "oauth/oauth-login.ts"]]);

p("A04", "The locally selected project is carried over to the account once",
  "A project that was selected in the local file of earlier versions becomes the default of the user's account, unless the account already has a default of its own; the file is removed once that is settled, and kept if it could not be settled. This happens only with a user's own login, and never makes a command fail.",
  "histories fault_sequences", "every sequence of runs with each kind of credential, account states and failures, including a lost answer",
  "Tests sample single runs.",
  [C + "oauth/legacy-project-migration.ts", C + "client.ts", C + "oauth/oauth-utils.ts"],
  [["migration", C + "oauth/legacy-project-migration.ts"]]);

// ---------------------------------------------------------------- downloads
const D = "downloading-helpers/src/";
p("D01", "A downloaded file is either complete or absent",
  "When a download succeeds the target holds exactly the served bytes; when it finally fails the error is reported and the target does not exist (an older file is left as it was if no content had arrived). Content that breaks off is fetched again from the start a bounded number of times, each attempt within its time limit and with the configured pause before the next, and a temporary archive is always removed, whether its extraction succeeded or not.",
  "fault_sequences schedules crash_points", "every sequence of connection failures, truncated bodies, stalls and extraction failures",
  "The package has no runnable tests here; the faults are over all points of a transfer.",
  [D + "file-downloads/download-file.ts"],
  [["stream with cleanup and content retry", D + "file-downloads/download-file.ts"]]);
p("D02", "Archive extraction stays inside its target and reports what it wrote",
  "Extracting a downloaded archive writes only inside the target directory, whatever names, links and entry types the archive contains, and reports every entry it wrote. Links, special files and names with a parent step may be skipped. A failed or interrupted extraction leaves no partial output behind and is retried from a clean directory a bounded number of times. A successful one holds every other regular file of the archive with its exact contents, for every degree of parallelism.",
  "inputs fault_sequences schedules", "every sequence of archive entries (names, types, sizes), failure points and concurrency levels",
  "No runnable tests here; hostile archive shapes and break-off points are unbounded.",
  [D + "file-downloads/download-file.ts"],
  [["target path guard", D + "file-downloads/download-file.ts"], ["cleanup and retry", D + "file-downloads/download-file.ts"]]);
p("D03", "Cached downloads are complete, shared and fetched once",
  "Cached data is treated as present only if an earlier download of at least that scope finished completely; an interrupted or failed download is fetched again by the next caller. Concurrent callers for the same item never download or write it at the same time, get the same complete result, and always release their claim. A partial request (excluded or best-effort parts) never marks the item as complete.",
  "schedules crash_points histories fault_sequences", "every interleaving of concurrent callers, scopes, failures at each file, and crashes leaving earlier partial results",
  "No runnable tests here; concurrency and crash histories are out of reach of examples.",
  [D + "scripts/replays.ts", D + "file-downloads/local-data.utils.ts", D + "file-downloads/sessions.ts", D + "file-downloads/test-runs.ts"],
  [["completion marker", D + "scripts/replays.ts"], ["directory and file locks", D + "file-downloads/local-data.utils.ts"]]);

// ---------------------------------------------------------------- custom checks
p("C01", "Waiting for a custom-check test run ends correctly and within its budget",
  "Waiting ends with the finished test run, followed through to the run that its results were merged into, and with its base run when one is available; a run that was skipped, aborted or failed to execute is returned as such without anything being registered. The whole wait shares a single time budget: if it runs out before the run has finished that is an error, and if it runs out afterwards the best-known run is returned. Transient server failures never fail the wait before the budget is used up.",
  "histories fault_sequences configurations", "every history of run statuses, merges, base availability, transient and permanent failures against elapsed time",
  "The package has no runnable tests here; the phases share a budget over all histories.",
  ["custom-checks/src/wait-for-test-run.ts"],
  [["phased wait", "custom-checks/src/wait-for-test-run.ts"]]);
p("C02", "Snapshots are assembled completely and in order",
  "The assembled snapshots contain each requested screenshot exactly once, in the requested order, with the contents downloaded for it, whatever the order in which the downloads finish. A failed download fails the assembly, and temporary files are removed in every case. No more downloads run at once than allowed.",
  "schedules fault_sequences", "every completion order and failure of the concurrent downloads",
  "No runnable tests here.",
  ["custom-checks/src/download-snapshots.ts"],
  [["bounded parallel map", "custom-checks/src/download-snapshots.ts"]]);

// ---------------------------------------------------------------- debug workspace
const B = "debug-workspace/src/";
p("W01", "DOM diff collection reports every screenshot's true outcome",
  "For every requested screenshot comparison exactly one outcome is recorded (written, no difference, missing or failed), and a diff file is listed only if that diff really was fetched and written. A failure for one screenshot never prevents the others from being processed. Names from the server are never used to write outside the workspace.",
  "inputs fault_sequences schedules", "every mix of outcomes, names and failures over several screenshots",
  "Tests sample single outcomes.",
  [B + "fetch-dom-diffs.ts"],
  [["outcome table", B + "fetch-dom-diffs.ts"]]);
p("W02", "Debug workspaces contain no cookies or credential headers",
  "In the recorded data written to a debug workspace every cookie value and every credential-bearing header is replaced, at any depth, in each of the representations recorded documents use for them (lists of name/value or key/value entries, storage state, injected custom headers, span attributes, recording tokens), and in the usual notations of replay logs; everything else is preserved. A file or line that cannot be parsed is not left in the workspace with its secrets, and nothing derived from these files contains them.",
  "inputs", "every nesting and representation of headers and cookies in recorded documents, malformed lines included",
  "Tests sample a few documents.",
  [B + "generate-debug-workspace.ts"],
  [["recursive redaction", B + "generate-debug-workspace.ts"]]);

// ---------------------------------------------------------------- tunnel
const T = "tunnel-client/src/";
p("T01", "The tunnel forwards requests only where it was told to",
  "Unless proxying of all hosts was requested, every request that arrives over the tunnel is sent to the local app and to nowhere else, whatever host the request names. When it was requested, a request goes to exactly the host and port it names, except that requests for the tunnel's own host go to the local app. Method, path, body and headers arrive as they were sent, less those that belong to the tunnel itself, and so does the answer. A request that cannot be forwarded is answered with a gateway error and leaves the other requests unaffected.",
  "inputs configurations fault_sequences", "every request target, host header and tunnel configuration, and every forwarding failure",
  "The package has no runnable tests here.",
  [T + "lib/tunnel-http2-cluster.ts", T + "lib/tunnel.ts"],
  [["request target", T + "lib/tunnel-http2-cluster.ts"]]);
p("T02", "The tunnel authenticates before it carries traffic, and keeps retrying",
  "A tunnel connection carries requests only after the server accepted its credentials, and every other answer closes it. A tunnel that cannot reach the server retries until it can, but stops at once when its credentials are refused. It opens as many connections as were asked for, and once closed it opens no further ones.",
  "fault_sequences histories schedules", "every order of connection, handshake fragments, failures, and closing",
  "No runnable tests here.",
  [T + "utils/open-socket.ts", T + "lib/tunnel.ts"],
  [["handshake", T + "utils/open-socket.ts"], ["reconnect loop", T + "lib/tunnel.ts"]]);

// ---------------------------------------------------------------- browser
p("L01", "Loading the recorder never blocks or breaks the page",
  "Starting the recorder always resolves, within the caller's time limit, and never rejects, whether the script loads, fails or stalls; if the limit passes first the recorder is not started later. Early interception starts at most once and is stopped exactly once when asked, also if the request to stop comes before the script has loaded. The recorder is started with the settings it was given, and is not loaded when the page already runs as a test.",
  "schedules fault_sequences configurations", "every order of script load, script failure, time limit, stop requests and recorder initialisation outcomes",
  "The package has no runnable tests here.",
  ["recorder-loader/src/loader.ts", "recorder-loader/src/install-meticulous-intercepts.ts"],
  [["bounded load", "recorder-loader/src/loader.ts"], ["intercept lifecycle", "recorder-loader/src/install-meticulous-intercepts.ts"]]);
p("L02", "The recorder script is injected exactly once, and only when it should be",
  "A build for which injection is enabled yields HTML pages (with a head) with exactly one recorder script: as the head's first element, or in place of the page's first placeholder if that is asked for; otherwise the page stays as it is, and what is commented out or only looks like a head or a placeholder does not count as one. A build for which injection is disabled, and a page that already has a recorder, yields unchanged pages, however many times and through however many hooks the page is processed, minified in between or not. Token, address and attributes are embedded such that they cannot break out of their attribute. By default nothing is injected into production builds. A missing token is an error unless the plugin is disabled (\"never\").",
  "inputs configurations", "every page shape, option combination, environment and sequence of processing hooks",
  "Tests sample single pages per bundler.",
  ["recorder-plugin/src/core/inject-html.ts", "recorder-plugin/src/core/rspack-html-hooks.ts", "recorder-plugin/src/index.ts"],
  [["injection", "recorder-plugin/src/core"]]);
p("L03", "A login flow is reported recorded only if it was saved",
  "Recording a login flow succeeds only if the user finished it, its data was flushed and saved, and the login session was registered; every other ending (page closed, window closed, flush or save failure) is reported as a failure; asked to finish twice, it finishes once. When sessions are recorded, each is announced once, and cookies are kept and restored only for windows that are not private. Pages record with the settings given, but not the guides and pages without an origin. The browser is always closed.",
  "schedules fault_sequences", "every order of user actions, page events and backend failures",
  "Tests do not drive the page event interleavings.",
  ["record/src/record/record-login-flow.ts", "record/src/record/record.ts"],
  [["login flow state machine", "record/src/record/record-login-flow.ts"]]);

// ---------------------------------------------------------------- cli
p("K01", "The local recorder is supervised: ready, restarted once, flushed on stop",
  "Starting the local recorder succeeds only once it reports healthy; if it exits afterwards it is restarted once, and if it stops again its end is announced exactly once. Stopping it flushes what is buffered, then terminates it, forcibly if it does not exit in time, and is safe to repeat. The developer's own command runs once and its exit code is passed on, whether or not the recorder works; signals are passed on to it, and it is killed if it does not heed them. However the tool ends, no recorder is left running.",
  "schedules fault_sequences histories", "every order of health answers, process exits, stop requests and timeouts",
  "Tests sample a few sequences.",
  ["cli/src/commands/record/backend-sidecar.utils.ts", "cli/src/commands/record/backend.command.ts"],
  [["supervision", "cli/src/commands/record/backend-sidecar.utils.ts"]]);
p("K02", "Onboarding writes only inside the repository, never through links",
  "Whatever path it is given, and whatever links the repository contains, a guarded write or copy changes files only inside the repository root, and never through a symbolic link; a path that leads elsewhere is refused with an error and leaves nothing behind. A path inside the repository without links is written with exactly the given content. The onboarding workspace is laid out complete, ignored by git exactly once, and can be laid out again; the external skills installer is fetched outside the repository, with none of the environment the repository can set, and neither starts nor succeeds while a link lies where it writes.",
  "inputs", "every relative path, directory layout and placement of symbolic links",
  "Tests sample a few layouts.",
  ["cli/src/commands/onboard/safe-repo-fs.ts", "cli/src/commands/onboard/materialize-workspace.ts", "cli/src/commands/onboard/setup-agent-integrations.ts"],
  [["path resolution without links", "cli/src/commands/onboard/safe-repo-fs.ts"]]);
p("K03", "Agent configuration merges leave exactly the canonical server entry",
  "After a successful merge an agent configuration file contains exactly the canonical entry for the product's server and every unrelated setting as it was; merging again changes nothing. A file that cannot be merged safely is reported as an error and left untouched. One that cannot be merged keeps none of the others from being merged. Text inside a string or an array is never taken for a table.",
  "inputs", "every arrangement of existing entries, tables, comments and malformed content",
  "Tests sample a few files.",
  ["cli/src/commands/onboard/codex-mcp.ts", "cli/src/commands/onboard/setup-agent-integrations.ts"],
  [["merge", "cli/src/commands/onboard/codex-mcp.ts"]]);

// ---------------------------------------------------------------- redaction, filters
p("X01", "Redaction removes every value it is configured to remove",
  "Applying a redactor leaves no occurrence of a value it is configured to redact, at any depth, for any key name, in any position of a list, and on every application; values it is not configured to redact are preserved. Redacting a URL, e-mail address or cookie keeps its shape but none of its secret parts.",
  "inputs histories", "every document shape, key name, redactor configuration and number of applications",
  "Tests sample a few documents and apply each redactor once.",
  ["redaction/src/generic/redact-recursively.ts", "redaction/src/generic/redact-nested-fields/redact-nested-fields.ts", "redaction/src/generic/redact-nested-fields/common-redactors.ts"],
  [["recursive redactors", "redaction/src/generic"]]);
p("X02", "A session filter is accepted exactly if it is well formed",
  "A session filter is accepted if and only if it has a known kind and its patterns are valid, non-empty and within the documented count and length limits; every other value is refused with a message and validation itself never fails.",
  "inputs", "every value, including wrong types and sizes around each limit",
  "Tests sample a few values.",
  ["session-filters/src"],
  [["validation", "session-filters/src"]]);

// at most three sentences each
for (const q of props) { const t = q.statement.split(". "); if (t.length > 3) q.statement = [...t.slice(0, 2), t.slice(2).map((x, i) => (i ? x[0].toLowerCase() + x.slice(1) : x)).join("; ")].join(". "); }
props.sort((a, b) => (a.id < b.id ? -1 : 1));
for (const q of props) if (q.title.length > 80) throw new Error(q.id + " title " + q.title.length);
writeFileSync(join(here, "..", "properties.jsonl"), props.map((q) => JSON.stringify(q)).join("\n") + "\n");
console.log(props.length, "properties");
