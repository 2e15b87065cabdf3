package main

// propSpec says how a property is checked.
type propSpec struct {
	engine   string
	programs int
	quick    float64 // search seconds of the quick tier
	thorough float64 // search seconds per round of the thorough tier
	rounds   int     // rounds of the thorough tier
	rule     string
	real     []string
	stub     []string
	assume   []string
}

func (s *propSpec) budget(tier string) float64 {
	if tier == "thorough" {
		if s.thorough > 0 {
			return s.thorough
		}
		return 100
	}
	if s.quick > 0 {
		return s.quick
	}
	return 30
}

func (s *propSpec) thoroughRounds() int {
	if s.rounds > 0 {
		return s.rounds
	}
	return 6
}

var (
	fedReal = []string{
		"code generated from the annotations by the repository's resolver and generator, for randomly generated federation services",
		"grpc/federation runtime (expression evaluation and cache, error groups, timeouts, retries, error handling, validation, logging)",
		"golang.org/x/sync errgroup and singleflight, cenkalti/backoff, cel-go, context, sync, time and the Go scheduler's run queue (goroutines, channels, mutexes, timers)",
	}
	fedStub = []string{
		"downstream services and their connections (simulated grpc.ClientConnInterface with planned latency, errors, hangs, panics, late returns)",
		"clients (call the generated server methods directly with deadlines and cancellations)",
		"clock (synctest bubble), goroutine scheduling, map order and math/rand (seeded in the patched runtime)",
	}
	fedAssume = []string{
		"goroutine interleavings are explored at the granularity of statements of the repository's code, the generated code, errgroup, singleflight and backoff; cel-go runs between scheduling points",
		"CPU work takes no simulated time unless a stall is injected",
	}
)

func fedSpec(programs int, rule string) *propSpec {
	return &propSpec{engine: "fed", programs: programs, rule: rule, real: fedReal, stub: fedStub, assume: fedAssume}
}

var props = map[string]*propSpec{
	"C01": fedSpec(16, "random federation programs with shared definitions serving several concurrent requests; every downstream call, custom resolver and message resolution is counted against a sequential reference interpreter."),
	"C02": fedSpec(16, "random dependency graphs (including nested groups, validations, conditions); the start of every call is compared with the end of everything it depends on."),
	"C03": fedSpec(16, "random programs; the response is compared with that of the sequential reference interpreter of the annotations."),
	"C04": fedSpec(16, "random programs with random downstream latencies; start times of every call and the duration of the request are compared with the critical path."),
	"C05": fedSpec(16, "random programs with method and call timeouts, client deadlines and cancellations against slow, hanging and late downstreams."),
	"C06": fedSpec(16, "random programs with retry policies against failing downstreams; every attempt's instant, count and arguments are compared with the policy."),
	"C07": fedSpec(16, "random programs with error rules, with simultaneous failures of several calls; status, details and error handler calls are compared with the reference."),
	"C08": fedSpec(16, "random programs with failures at random points; error reported, instant, cancellation of siblings, later starts and remaining goroutines are checked."),
	"C09": fedSpec(16, "random programs with panics in downstream clients and custom resolvers, alone and together with failures."),
	"C10": fedSpec(16, "several concurrent requests on one service instance with a cold expression cache, some failing or cancelled midway, compared with the reference for each alone."),
	"C11": fedSpec(16, "random programs that add log attributes in nested and sibling scopes; every log line's attributes are compared with the scopes that own them."),
}

var (
	plugReal = []string{
		"grpc/federation/cel plugin host (request and response exchange, garbage collection requests, close) and the grpc/federation service runtime",
		"the plugin program generated by the repository (its request loop, decoding and encoding), running on the other side of the pipes",
		"a federation service generated from psvc.proto that uses the plugin, environment variables and service variables",
		"io.Pipe, bufio, protojson, cel-go, context, sync and the Go scheduler's run queue (goroutines, channels, mutexes, timers)",
	}
	plugStub = []string{
		"the WebAssembly engine wazero: modules are guests running as goroutines connected to the host's pipes; compiling, exported names, instantiation and exit are simulated",
		"plugin function bodies (planned results, errors, delays, sizes, deaths) and the chunking of the plugin's output",
		"downstream services, clients, clock, goroutine scheduling, map order and math/rand",
	}
	plugAssume = []string{
		"a guest that loops forever without reading or writing is not simulated (the engine gives no means to interrupt it)",
		"goroutine interleavings are explored at the granularity of statements of the repository's code, the generated code, errgroup and singleflight; pipes, protojson and cel-go run between scheduling points",
	}
)

func plugSpec(rule string) *propSpec {
	return &propSpec{engine: "plug", rule: rule, real: plugReal, stub: plugStub, assume: plugAssume}
}

func init() {
	props["C12"] = plugSpec("random sequences of concurrent calls and garbage-collection requests on one plugin instance, and concurrent requests of a service using it, with results of any size, output chunked anywhere, plugin errors and metadata; every answer is compared with what the plugin's function returns for those arguments and metadata.")
	props["C13"] = plugSpec("the plugin exits, traps, closes its output or produces garbage at any point of an exchange (also during start-up and garbage collection); every call in progress and every later one has to fail within bounded simulated time and closing has to complete.")
	props["C14"] = plugSpec("content and digest mismatches, protocol versions, missing functions and failing starts of plugins; Close once or several times, concurrently with calls, garbage collection and requests; remaining goroutines are counted.")
	props["C15"] = plugSpec("service creation with present, missing and malformed environment variables, failing or conditional service variables and validations, failing client factories, repeated and concurrent; evaluation counts and the values later requests see are compared with the declaration.")
}

var (
	lspReal = []string{
		"the language server: handlers, document store, background validation, definition, completion and token requests",
		"its JSON-RPC connection (go.lsp.dev/jsonrpc2), protocol dispatch and stream framing",
		"validator, compiler (bufbuild/protocompile), resolver and source packages below it",
	}
	lspStub = []string{
		"the editor: sends planned edits, requests, cancellations and malformed documents, in chunks of any size",
		"standard input and output and the file system (simulated, in memory)",
		"clock, goroutine scheduling, map order and math/rand",
	}
	watchReal = []string{
		"the generator's watch mode: watcher, event handling, build cache, compilation and the go, go-grpc and grpc-federation generators, output writing; in some runs the whole grpc-federation-generator program",
		"compiler (bufbuild/protocompile), resolver, validator and source packages below it",
	}
	watchStub = []string{
		"fsnotify: a model of its inotify backend (kernel queue with merging and overflow, one reader, watches that follow inodes and end with them)",
		"the file system (simulated, in memory) and the process environment (arguments, signals, exit)",
		"the user editing the sources, clock, goroutine scheduling and map order",
	}
	genReal = []string{
		"the programs grpc-federation-generator, protoc-gen-grpc-federation and grpc-federation-linter from their main functions on: configuration, options, compilation, resolution, validation, the go, go-grpc and grpc-federation generators, plugin download, digest check and execution, output writing",
		"bufbuild/protocompile below them",
	}
	genStub = []string{
		"code-generation plugins: programs that record their request, behind the WebAssembly engine's interface",
		"protoc: its request is built from what the compiler makes of the sources",
		"HTTP transport below net/http's client, file system, standard streams, process environment (all simulated, in memory)",
		"clock, goroutine scheduling, map order, number of processors, math/rand",
	}
	toolAssume = []string{
		"goroutine interleavings are explored at the granularity of statements of the repository's code, of the language server's JSON-RPC connection and of protocompile's compiler and reporter; the rest of protocompile runs between scheduling points",
		"CPU work takes no simulated time unless a stall is injected",
	}
)

func toolSpec(real, stub []string, rule string) *propSpec {
	return &propSpec{engine: "tool", rule: rule, real: real, stub: stub, assume: toolAssume}
}

func init() {
	props["C16"] = toolSpec(lspReal, lspStub, "random bursts of opens, edits, saves and closes of several documents, valid and broken, with the background validations interleaved anywhere; the last diagnostics of every document are compared with those of a fresh validation of its text.")
	props["C17"] = toolSpec(lspReal, lspStub, "random sequences of definition, completion, token and unknown requests with valid and absurd positions, mixed with edits, cancellations, malformed documents and disconnects; responses are counted and compared with those of a fresh server holding the same texts.")
	props["C18"] = toolSpec(watchReal, watchStub, "random histories of writes in chunks, replacements, deletions, renames and directory removals of a project's sources, with compile errors, event bursts, queue overflows and transient errors of file-system operations, at any moment of a running generation; once they stop, the output directory is compared with that of a clean generation.")
	props["C20"] = toolSpec(genReal, genStub, "the generator and the protoc plugin run several times on the same sources (examples, test data, generated federations, federations full of equal names), each time with another map order, number of processors, schedule and order in which directories and requests list files; files and plugin requests have to be identical.")
	props["C21"] = toolSpec(genReal, genStub, "linter, generator and protoc plugin run several times on the same sources, most of them broken by random edits, missing files, import cycles, duplicate definitions or inconsistent rules, each time with another map order, number of processors, schedule and listing order; exit codes and messages have to be identical.")
	props["C22"] = toolSpec(genReal, genStub, "a generation under random file-system errors, torn writes, crashes, failing or altered downloads, failing plugins and failing standard streams, followed by one without; results and plugin executions are compared with those of a generation that met no fault, errors with the faults that took effect.")
	props["C19"] = toolSpec(watchReal, watchStub, "watch mode ended by cancellation or by closing its event source at any file-system operation of any generation, or failing to start; time to return, open event sources, goroutines left and scheduling points while idle are checked.")
}
