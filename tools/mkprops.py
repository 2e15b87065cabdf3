#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":qtext},
       "why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    assert len(title)<=80,(id,len(title))
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)

RT="grpc/federation/cel.go"; LIB="grpc/federation/lib.go"; ERR="grpc/federation/error.go"
EV="generator/templates/eval.go.tmpl"; SV="generator/templates/server.go.tmpl"
EH="generator/templates/error_handler.go.tmpl"; GR="resolver/graph.go"
PL="grpc/federation/cel/plugin.go"

p("C01","Each variable definition is evaluated exactly once per message instance",
  "While a federation service resolves one message instance, every variable definition whose result is used is evaluated exactly once, however many other definitions depend on it and in whatever order goroutines run. A downstream method called by a definition without a retry policy is therefore requested exactly once per evaluation (once per element for a map definition), and the side effects of custom resolvers happen once.",
  ["schedules","programs","inputs"],
  "every dependency graph of definitions, every interleaving of the goroutines evaluating it, every latency of downstream calls, with and without failures",
  "The example tests call each service a handful of times with instant mock backends; double evaluation needs one waiter to miss the result cache while another evaluation of the same definition is just finishing.",
  [RT,EV,GR],
  [("single-flight group plus result cache keyed by definition",RT),("one def closure per definition, referenced by every group needing it",EV)],
  [("resultMap","definitions already evaluated for this message instance",RT)],
  ["requests received by downstream stubs","custom resolver invocations"])

p("C02","A definition never starts before everything it references has finished",
  "No variable definition, downstream request or response field is evaluated before every definition it references has completed, and it is not evaluated at all if one of them failed or an earlier validation rejected the request. Values read by later definitions are always the final values of earlier ones.",
  ["schedules","programs","fault_sequences"],
  "every dependency graph (including diamonds, deep chains, conditional definitions, validations acting as barriers), every schedule and downstream latency or failure",
  "Tests fix one graph per example and return immediately from mocks, so a lost ordering edge usually still yields the right order.",
  [GR,"resolver/resolver.go",EV,RT],
  [("dependency graph construction",GR),("nested wait groups: starts, wait, end",EV)],
  None,["request contents and start/finish order at the downstream stubs"])

p("C03","The response equals sequential evaluation of the annotations",
  "For given request, downstream replies and environment, the response of a federation method is the one obtained by evaluating the annotated definitions one by one in dependency order: arguments, conditional definitions (zero value when the condition is false), list-order-preserving map definitions, nested messages, oneof and bound fields. The result never depends on goroutine scheduling, downstream latency, previous requests or how the concurrent groups were laid out.",
  ["programs","schedules","inputs"],
  "every annotated schema in the generated family, every request value and every schedule/latency assignment of the concurrent evaluation",
  "Generator tests compare generated text against golden files and the example tests check a few fixed requests; neither explores graphs or schedules.",
  [EV,SV,RT,GR,"generator/code_generator.go"],
  [("definition groups and setter closures",EV),("local value store",RT)],
  None,["gRPC response of the generated service"])

p("C04","Independent definitions run concurrently; a request takes its critical path",
  "A definition starts as soon as every definition it depends on has finished, so definitions (and downstream calls) with no dependency between them overlap. The time a fault-free request takes is the longest dependency chain of downstream latencies, not their sum, and a request always terminates once its downstream calls have.",
  ["schedules","programs"],
  "every dependency graph, every assignment of downstream latencies and every goroutine schedule",
  "The tests never measure overlap; serialising two calls or deadlocking on a lock held across a call only shows up with latencies and a specific schedule.",
  [GR,EV,RT],
  [("variable definition groups (parallel starts)",GR),("error groups per level",EV),("value lock not held across downstream calls",RT)],
  None,["simulated start/finish times at downstream stubs"])

p("C05","Timeouts fire exactly on time, cancel the work, and never fire early",
  "A method or call with a timeout returns no later than that timeout after it began: the client gets DEADLINE_EXCEEDED naming the method and timeout, and the context seen by the abandoned downstream calls is cancelled. A call that completes before its timeout keeps its own result, each call's timeout covers its whole retry sequence, and a caller's earlier deadline or cancellation reaches every downstream call still running.",
  ["schedules","fault_sequences","inputs"],
  "every timeout/latency relation (including stalled downstreams and downstreams that ignore cancellation), every cancellation instant of the client, nested method and call timeouts",
  "Existing tests use one real sleep with one timeout; deaf downstreams, ties, retries crossing the deadline and cancellation at arbitrary instants are not reachable.",
  [LIB,SV,EV],
  [("deadline context plus select over completion and expiry",LIB),("method/call level timeout wrapping",SV)],
  None,["client-visible status and simulated time of return","ctx of downstream stub"])

p("C06","Retry policies are followed exactly",
  "A call with a retry policy is re-issued only while it fails and its condition holds, at the configured constant interval or within the configured exponential bounds (giving up when the next attempt would start after the call's timeout), at most the configured number of retries after the first attempt (default five, zero meaning no limit), and stops at once on success, on a false condition, or when its context ends. The caller receives the first success or the last attempt's own error, and the request sent is identical on every attempt.",
  ["fault_sequences","schedules","inputs"],
  "every sequence of attempt outcomes (statuses, successes, non-status errors), policy parameters, concurrent failing siblings, and deadline or cancellation instants between or during attempts",
  "The examples exercise one policy against one mock that fails a fixed number of times with no concurrent failure.",
  [LIB,"generator/templates/retry.go.tmpl",EV,"resolver/resolver.go"],
  [("retry loop and condition evaluation",LIB),("backoff construction and context binding","generator/templates/retry.go.tmpl")],
  None,["attempts and their simulated times at downstream stubs"])

p("C07","Error handling rules are applied to the error of their own call",
  "When a call fails, its error rules are tried in order against that call's own error and the first rule whose condition holds decides: a custom status with exactly the declared code, message and details, ignoring (null result), or ignoring with the declared value; if none matches the original status reaches the client unchanged. This holds whatever other calls of the same request fail at the same time, and the configured global error handler sees each such error exactly once with its method name.",
  ["schedules","fault_sequences","programs"],
  "every combination of failing calls, error contents (code, message, details, non-status errors), rule lists and interleavings of sibling failures",
  "Tests trigger one error at a time, so state shared between concurrently failing calls is never observed.",
  [EH,RT,"grpc/federation/validation.go"],
  [("error rule evaluation",EH),("error variable exposed to rule expressions",RT)],
  [("error variable","error the rule expressions see",RT)],["client-visible status","global error handler calls"])

p("C08","A failure ends the request with its real error and leaves nothing running",
  "If any definition fails, the client receives a failure that really occurred in that request (never a success, a partial response, or the cancellation the failure caused in siblings), the contexts of sibling downstream calls are cancelled and no further definition starts. When the request and its downstream calls have returned, no goroutine of that request remains.",
  ["schedules","fault_sequences","programs"],
  "every set and timing of failing downstream calls, every graph shape including definitions shared between groups, deaf or cancellation-aware downstreams",
  "Goroutine leaks and error masking depend on which goroutine observes the cancellation first; the tests fail one call and look at one error.",
  [EV,RT,ERR,LIB],
  [("error groups cancel siblings and keep the first error",EV),("buffered completion channel of abandoned calls",LIB)],
  None,["client-visible status","goroutines alive in the simulated process at quiescence"])

p("C09","A panic in one request is contained and reported as an error",
  "A panic raised while serving a request (in a custom resolver, a downstream client or anything they call) on any goroutine of that request is turned into an error of that request and logged, whatever concurrent siblings are doing. The process survives, other requests in flight are unaffected, the panicking definition is not run again for that request, and later requests are served normally.",
  ["schedules","fault_sequences","programs"],
  "every place a panic can occur in a request's definition graph (direct, shared definition with waiters, under a timeout, inside map/retry), every interleaving with siblings and other requests",
  "Tests inject one panic on a single-goroutine path; a panic crossing the shared-evaluation machinery with waiters is schedule dependent and kills the test process if unhandled.",
  [ERR,LIB,SV,RT],
  [("recover wrappers on every spawned goroutine",ERR),("recover defer in method handler",SV),("recover in timeout goroutine",LIB)],
  None,["process liveness","client-visible errors of all requests"])

p("C10","Concurrent requests are isolated; expression caching is invisible",
  "Requests served concurrently by one service instance never observe each other's arguments, variables, metadata, errors or plugin results: each response is what the request would have got alone on a fresh instance. Caching compiled expressions across requests never changes a result, whichever request compiles first and even if earlier requests failed or were cancelled midway.",
  ["schedules","histories","inputs"],
  "every mix of concurrent and successive requests (different inputs, failing, cancelled), every interleaving, warm and cold caches",
  "Tests run requests one after another against fresh servers.",
  [RT,"grpc/federation/context.go","grpc/federation/cel/context.go","grpc/federation/cel/metadata.go"],
  [("service-wide program cache keyed by expression site",RT),("per-message value stores",RT)],
  [("cacheMap","compiled programs shared by all requests",RT)],["responses of concurrent requests","race detector under the simulated schedule"])

p("C11","Log attributes never leak between scopes or requests",
  "Log attributes added while resolving a message (by expressions or custom resolvers) appear on every later log line of that scope and the scopes opened under it, in the order added, and never on lines of sibling scopes, enclosing scopes or other requests. A log expression of a definition that is evaluated writes its line exactly once. A logger set by a custom resolver affects only that scope and its children. The failure of a request is logged, with the level of the error rule or validation that decided it and the attributes of the scope that failed.",
  ["schedules","programs","histories"],
  "every nesting of scopes, every interleaving of siblings adding attributes and logging, concurrent requests on one logger",
  "The only logging test adds attributes from a single goroutine.",
  ["grpc/federation/log/context.go","grpc/federation/cel/log.go",SV],
  [("logger reference per scope carried in the context","grpc/federation/log/context.go")],
  [("attrs","attributes of a scope","grpc/federation/log/context.go")],["records received by the slog handler"])

p("C12","Every plugin call returns the answer to its own request",
  "Each call of a WebAssembly plugin function receives the result computed from its own arguments and metadata (or the plugin's own error text, unaltered), in full, however many requests call the plugin concurrently and however calls interleave with garbage-collection requests. Responses are never swapped, merged, truncated or lost, whatever their size or how the plugin chunks its output.",
  ["schedules","inputs","histories"],
  "every interleaving of concurrent calls and GC triggers on one plugin instance, every payload size and content, every chunking of plugin output",
  "The plugin tests make sequential calls with tiny payloads.",
  [PL,"grpc/federation/cel_plugin.go","generator/templates/plugin.go.tmpl"],
  [("instance mutex over write+read of one exchange",PL),("newline framing",PL)],
  None,["call results versus the plugin's function definition"])

p("C13","A plugin that dies or misbehaves fails calls promptly and never hangs them",
  "If a plugin instance exits, traps, or produces undecodable output at any point of an exchange, the call in progress and all later calls return an error within bounded time; none hangs, panics or reports a fabricated or another call's value. Closing the service afterwards still completes.",
  ["crash_points","fault_sequences","schedules"],
  "every crash or garbage point relative to an exchange (before, during, after reading the request or writing the reply), concurrent callers and GC, closing before/after",
  "No test crashes a plugin mid-exchange; a hang only appears on the call after the one that saw the crash.",
  [PL],
  [("module termination channel raced against pipe I/O",PL),("closed flag",PL)],
  [("closed","instance has terminated",PL)],["return of every call within a simulated deadline"])

p("C14","Plugin start-up checks and shutdown are safe at any moment",
  "A plugin is used only if its content matches the configured digest, it speaks the expected protocol version and implements every declared function; otherwise service creation fails with an error saying which. Closing is idempotent, may happen while requests are running, never panics or makes a request panic, and ends the plugin's goroutines.",
  ["schedules","histories","configurations","fault_sequences"],
  "every interleaving of close, close again, calls and GC triggers; every version/function-set/digest mismatch; read faults while loading the module",
  "Tests close once, after all requests have finished.",
  [PL,SV],
  [("digest check, version handshake",PL),("close protocol and GC queue",PL)],
  [("gcQueue","pending GC trigger",PL)],["results of create/close/call, goroutines left in the simulated process"])

p("C15","Service variables and environment are computed once and gate start-up",
  "Environment values and service variables are evaluated exactly once, in declaration order, when a service is created, and every request sees those same values. If a required variable is missing or malformed, a service-level validation fails, or a dependency client cannot be created, creation fails with an error and no service is returned.",
  ["configurations","fault_sequences","histories","schedules"],
  "every environment content, validation outcome and client-factory failure; concurrent first requests; environment changes after creation",
  "The tests create the service once with one valid environment.",
  [SV,"grpc/federation/cel.go"],
  [("service initialisation",SV)],
  None,["errors from service creation, values in responses"])

p("C16","The language server's last diagnostics describe the latest document text",
  "After a burst of edits, the last diagnostics the client receives for a document are those computed from its latest text, equal to what a fresh validation of that text gives, whatever the order in which concurrent validations run or finish. Concurrent edits of several documents never corrupt server state or crash it.",
  ["schedules","histories","inputs"],
  "every sequence of open/change/save notifications over several documents and every interleaving of the background validations",
  "There is no concurrency test of the language server; stale diagnostics need an older validation to finish last.",
  ["lsp/server/handler.go","lsp/server/text_document_sync.go","lsp/server/validator.go","validator/validator.go","compiler/compiler.go"],
  [("document store and background validation","lsp/server/handler.go"),("shared validator and compiler","validator/validator.go")],
  [("documents","latest text per document","lsp/server/handler.go")],["publishDiagnostics notifications"])

p("C17","The language server answers every request exactly once and survives bad input",
  "Every well-formed JSON-RPC request the client sends gets exactly one response carrying its id, whatever the document contents (including unparsable ones), positions, parameters, request order, cancellations or message chunking on the wire. No such input makes the server exit or stop answering, and answers refer to the text the server had when asked.",
  ["inputs","schedules","histories","fault_sequences"],
  "every interleaving of definition/completion/token requests with edits; malformed documents and positions; arbitrary fragmentation of the byte stream; disconnects",
  "LSP tests call single handlers directly on valid files.",
  ["lsp/server/server.go","lsp/server/handler.go","lsp/server/definition.go","lsp/server/completion.go","lsp/server/semantic_tokens.go"],
  [("dispatch with panic recovery","lsp/server/server.go")],
  None,["JSON-RPC traffic"])

p("C18","Watch mode converges to what a clean generation would produce",
  "In watch mode, once file events stop, the output directory holds exactly what a clean generation of the current sources would produce: edits made at any moment (including while a generation is running or right after a failed compile) are picked up, outputs of deleted sources are removed and outputs of others untouched. A source that does not compile is reported and never stops watching. What could not be done because of a transient file-system error (reading a source or a directory, writing or removing an output) is made up for when the sources next change after the error is gone. A code-generation plugin that is configured has been told of the final state of every source that changed.",
  ["histories","schedules","fault_sequences"],
  "every sequence of create/modify/rename/delete events, any timing relative to running generations, transient compile failures, transient file-system errors and event bursts",
  "No test exercises the watcher; lost updates need an event while a generation is in progress.",
  ["generator/watcher.go","generator/generator.go","cmd/grpc-federation-generator/main.go"],
  [("event loop and rebuild","generator/watcher.go"),("per-file plugin request cache and output bookkeeping","generator/generator.go")],
  [("buildCacheMap","outputs generated per source","generator/generator.go")],["output directory"])

p("C19","Watch mode stops promptly and cleanly when cancelled",
  "When its context is cancelled, or its file-event source closes, the generator's watch mode returns within bounded time, whether idle or in the middle of a generation, releases the file-event source and leaves no goroutine (or running plugin) behind. While idle it consumes no processor time.",
  ["schedules","crash_points"],
  "every cancellation instant relative to events, generations and ticks",
  "No test runs watch mode.",
  ["generator/watcher.go","generator/generator.go"],
  [("watch loop select","generator/watcher.go")],
  None,["return of the watch call, goroutines left, steps taken while idle"])

p("C20","Code generation is a deterministic function of its inputs",
  "Generating from the same sources and options always produces byte-identical files, in every process and whatever the iteration order of hash maps, the scheduling of parallel compilation, or the order in which input files are listed. The same holds for the requests that code-generation plugins receive.",
  ["schedules","programs","inputs"],
  "every annotated schema in the generated family plus the repository's examples, every map-iteration seed and goroutine schedule",
  "Golden tests run each case once per process; a wrong order shows only for some hash seeds and often only with several entries.",
  ["generator/code_generator.go","generator/generator.go","resolver/resolver.go",GR,"compiler/compiler.go"],
  [("sorting before emission","generator/code_generator.go"),("ordered groups and deduplication",GR)],
  None,["generated file contents across seeds"])

p("C21","Validation verdicts and diagnostics are deterministic",
  "Validating the same sources always yields the same set of diagnostics, with the same locations and in the same order, in every process and whatever the hash-map iteration order or scheduling of parallel compilation. A valid schema is never rejected and an invalid one never accepted because of that order.",
  ["schedules","inputs","programs"],
  "every schema in a family of valid and invalid ones, every map-iteration seed and schedule",
  "Validator tests run each case once with one hash seed.",
  ["resolver/resolver.go","resolver/validator.go","validator/validator.go","compiler/compiler.go"],
  [("resolution passes over the schema","resolver/resolver.go")],
  None,["linter output across seeds"])

p("C22","Faults while fetching plugins or writing outputs are reported, never absorbed",
  "When generation fetches a code-generation plugin or writes its outputs, a failed, truncated or altered fetch and a failed write end in an error naming the problem; a plugin whose content does not match its configured digest is never executed, every configured plugin gets the complete request for every result, and no success is reported with output missing or incomplete. An interrupted or failed run does not prevent a later fault-free run from producing the full output.",
  ["fault_sequences","crash_points"],
  "every fault point of plugin download/read (status codes, short body, corruption, stall) and of output writes (open/write failure, full disk)",
  "Tests only use an intact local plugin file and a writable directory.",
  ["generator/generator.go","generator/wasm.go","cmd/grpc-federation-generator/main.go","cmd/protoc-gen-grpc-federation/main.go"],
  [("plugin fetch and digest check","generator/generator.go"),("output writing","generator/generator.go")],
  None,["return value of generation, files on disk"])

# --- not applicable for this technique (pure functions of their input)
p("C50","CEL standard-library functions return their documented values",
  "Every function of the bundled expression library (time, strings, lists, math, url, uuid, enum, metadata) returns the documented value for every argument, and an error rather than a wrong value outside its domain.",
  ["inputs"],"every argument value","Tests sample a few arguments per function.",
  ["grpc/federation/cel/time.go","grpc/federation/cel/strings.go","grpc/federation/cel/list.go","grpc/federation/cel/url.go"],
  [("function bindings","grpc/federation/cel/lib.go")])
p("C51","Value conversions between message types never lose or alter data silently",
  "Casting between numeric, enum, message, list and map types generated for aliases and bound fields either preserves the value or reports an overflow or mismatch error.",
  ["inputs","programs"],"every pair of convertible types and every value","Tests cast a few in-range values.",
  ["grpc/federation/cast.go","generator/templates/cast.go.tmpl"],[("cast helpers","grpc/federation/cast.go")])
p("C52","The linter accepts exactly the schemas that generate working code",
  "Every schema accepted by the resolver generates code that compiles, and every schema that references unknown messages, methods, fields, or has type mismatches or dependency cycles is rejected with a located error.",
  ["programs"],"every annotated schema","Tests check a fixed list of valid and invalid schemas.",
  ["resolver/resolver.go","validator/validator.go"],[("resolution and type checking","resolver/resolver.go")])
p("C53","Reported source locations point at the offending annotation",
  "Each diagnostic and go-to-definition answer carries the file, line and column of the annotation it talks about.",
  ["inputs","programs"],"every schema and formatting of it","Tests check chosen positions in fixed files.",
  ["source/file.go","source/location.go","lsp/server/definition.go"],[("position lookup","source/file.go")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
