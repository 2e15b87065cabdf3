package main

import (
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verif.local/sim/overlay"
	"verif.local/sim/prog"
)

// dirs every engine uses
type env struct {
	repo  string // /repo
	sim   string // /verif/sim
	work  string // scratch
	h     string // harness copy
	quiet bool
}

func (e *env) logf(f string, a ...any) {
	if !e.quiet {
		fmt.Fprintf(os.Stderr, "[simctl] "+f+"\n", a...)
	}
}

// instr is one instrumented directory.
type instr struct {
	dir   string // absolute, or module path with "mod:" prefix
	level overlay.Level
	keep  func(string) bool
	subst bool // replace operating-system packages by simulated ones
}

// simPackages replaces packages through which a program meets the operating
// system.
var simPackages = map[string]string{
	"os":                           "verif.local/sim/simos",
	"path/filepath":                "verif.local/sim/simpath",
	"log":                          "verif.local/sim/simlog",
	"os/exec":                      "verif.local/sim/simexec",
	"github.com/fsnotify/fsnotify": "verif.local/sim/simnotify",
}

type engine struct {
	name   string
	main   string // package below the harness module
	gen    bool   // needs generated programs
	extra  []string
	instrs func(e *env, pkgs []string) []instr
	prep   func(e *env) error // after the programs are generated
}

func notPB(n string) bool { return !strings.HasSuffix(n, ".pb.go") }
func fedPB(n string) bool { return strings.HasSuffix(n, "_grpc_federation.pb.go") }

func only(names ...string) func(string) bool {
	return func(n string) bool {
		for _, x := range names {
			if x == n {
				return true
			}
		}
		return false
	}
}

func fedInstrs(e *env, pkgs []string) []instr {
	out := []instr{
		{e.repo + "/grpc/federation", overlay.Statements, notPB, false},
		{e.repo + "/grpc/federation/cel", overlay.Statements, only("log.go", "metadata.go", "context.go", "plugin.go"), false},
		{e.repo + "/grpc/federation/cel", overlay.Functions, func(n string) bool {
			return notPB(n) && !only("log.go", "metadata.go", "context.go", "plugin.go")(n)
		}, false},
		{e.repo + "/grpc/federation/log", overlay.Statements, notPB, false},
		{"mod:golang.org/x/sync#singleflight", overlay.Statements, nil, false},
		{"mod:golang.org/x/sync#errgroup", overlay.Statements, nil, false},
		{"mod:github.com/cenkalti/backoff/v4#", overlay.Statements, nil, false},
	}
	if pkgs != nil {
		pkgs = append(pkgs[:len(pkgs):len(pkgs)], "zoo")
	}
	for _, p := range pkgs {
		out = append(out, instr{filepath.Join(e.h, "gen", p), overlay.Statements, fedPB, false})
	}
	return out
}

func plugInstrs(e *env, pkgs []string) []instr {
	return append(fedInstrs(e, nil), instr{filepath.Join(e.h, "gen", "psvc"), overlay.Statements, fedPB, false})
}

// edit replaces a text in a file.
func edit(file, old, new string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	if !strings.Contains(string(b), old) {
		return fmt.Errorf("%s: %q not found", file, old)
	}
	os.Chmod(file, 0o644)
	return os.WriteFile(file, []byte(strings.ReplaceAll(string(b), old, new)), 0o644)
}

// fakeWazero puts the simulated engine below wazero's API.
func fakeWazero(e *env) error {
	root, err := e.vendorMod("github.com/tetratelabs/wazero")
	if err != nil {
		return err
	}
	b, err := os.ReadFile(filepath.Join(e.h, "wasm", "zz_sim.go.txt"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(root, "zz_sim.go"), b, 0o644); err != nil {
		return err
	}
	fn := "func NewRuntimeWithConfig(ctx context.Context, rConfig RuntimeConfig) Runtime {\n"
	if err := edit(filepath.Join(root, "runtime.go"), fn, fn+"\tif SimGuest != nil {\n\t\treturn &simRuntime{ensure: rConfig.(*runtimeConfig).ensureTermination}\n\t}\n"); err != nil {
		return err
	}
	fn = "func Instantiate(ctx context.Context, r wazero.Runtime) (api.Closer, error) {\n"
	if err := edit(filepath.Join(root, "imports/wasi_snapshot_preview1/wasi.go"), fn, fn+"\tif wazero.SimGuest != nil {\n\t\treturn r, nil\n\t}\n"); err != nil {
		return err
	}
	fn = "func NewCompilationCacheWithDir(dirname string) (CompilationCache, error) {\n"
	return edit(filepath.Join(root, "cache.go"), fn, fn+"\tif SimGuest != nil {\n\t\treturn NewCompilationCache(), nil\n\t}\n")
}

// prepPlug replaces the WebAssembly engine below the plugin runtime and the
// standard streams of the generated plugin program.
func prepPlug(e *env) error {
	if err := fakeWazero(e); err != nil {
		return err
	}
	guest := filepath.Join(e.h, "gen/simp/simp_grpc_federation.pb.go")
	for _, r := range [][2]string{{"os.Stdin", "guestio.In()"}, {"os.Stdout", "guestio.Out()"}, {"os.Stderr", "guestio.Err()"}, {"os.Exit(", "guestio.Exit("}, {"\truntime.GC()", "\tguestio.GC()"}, {"\t\"os\"\n", "\t\"verif.local/harness/guestio\"\n"}, {"\t\"runtime\"\n", ""}} {
		if b, err := os.ReadFile(guest); err == nil && !strings.Contains(string(b), r[0]) {
			continue
		}
		if err := edit(guest, r[0], r[1]); err != nil {
			return err
		}
	}
	return nil
}

// mains are the repository's programs and the packages their copies become.
var mains = map[string]string{
	"grpc-federation-generator":       "generator",
	"grpc-federation-linter":          "linter",
	"grpc-federation-language-server": "langserver",
	"protoc-gen-grpc-federation":      "protoc",
}

func toolInstrs(e *env, pkgs []string) []instr {
	dense := only("generator.go", "watcher.go", "wasm.go", "config.go")
	out := []instr{
		{e.repo + "/lsp/server", overlay.Statements, only("handler.go", "server.go", "general.go", "text_document_sync.go", "validator.go", "util.go"), true},
		{e.repo + "/lsp/server", overlay.Functions, func(n string) bool {
			return !only("handler.go", "server.go", "general.go", "text_document_sync.go", "validator.go", "util.go")(n)
		}, true},
		{e.repo + "/validator", overlay.Statements, nil, true},
		{e.repo + "/compiler", overlay.Statements, nil, true},
		{e.repo + "/generator", overlay.Statements, dense, true},
		{e.repo + "/generator", overlay.None, func(n string) bool { return !dense(n) }, true},
		{e.repo + "/resolver", overlay.None, nil, true},
		{e.repo + "/source", overlay.None, nil, true},
		{"mod:github.com/bufbuild/protocompile#", overlay.Statements, only("compiler.go"), false},
		{"mod:github.com/bufbuild/protocompile#reporter", overlay.Statements, only("reporter.go"), false},
		{"mod:go.lsp.dev/jsonrpc2#", overlay.Statements, only("conn.go", "stream.go"), false},
		{"mod:golang.org/x/sync#errgroup", overlay.Statements, nil, false},
	}
	for _, m := range mains {
		out = append(out, instr{filepath.Join(e.h, "mains", m), overlay.Statements, nil, true})
	}
	return out
}

// prepTool turns the programs into packages and copies the sources they are
// run on.
func prepTool(e *env) error {
	for cmd, pkg := range mains {
		dir := filepath.Join(e.h, "mains", pkg)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return err
		}
		found := false
		names, err := filepath.Glob(filepath.Join(e.repo, "cmd", cmd, "*.go"))
		if err != nil {
			return err
		}
		for _, name := range names {
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			b, err := os.ReadFile(name)
			if err != nil {
				return err
			}
			s := strings.Replace(string(b), "package main\n", "package "+pkg+"\n", 1)
			if strings.Contains(s, "func main()") {
				found = true
				s = strings.Replace(s, "func main()", "func Main()", 1)
			}
			// standard output is the simulated one
			if strings.Contains(s, "\"os\"\n") {
				for _, f := range []string{"Print", "Printf", "Println"} {
					s = strings.ReplaceAll(s, "fmt."+f+"(", "fmt.F"+strings.ToLower(f[:1])+f[1:]+"(os.Stdout, ")
				}
			}
			if err := os.WriteFile(filepath.Join(dir, filepath.Base(name)), []byte(s), 0o644); err != nil {
				return err
			}
		}
		if !found {
			return fmt.Errorf("cmd/%s: no function main", cmd)
		}
	}
	// the seam through which protocompile decides how much it does at once
	root, err := e.vendorMod("github.com/bufbuild/protocompile")
	if err != nil {
		return err
	}
	file := filepath.Join(root, "compiler.go")
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	s := string(b)
	for _, r := range [][2]string{{"runtime.GOMAXPROCS(-1)\n", "simrt.Procs\n"}, {"runtime.NumCPU()\n", "64\n"}, {"\t\"runtime\"\n", "\t\"verif.local/sim/simrt\"\n"}} {
		if !strings.Contains(s, r[0]) {
			return fmt.Errorf("%s: %q not found", file, r[0])
		}
		s = strings.ReplaceAll(s, r[0], r[1])
	}
	os.Chmod(file, 0o644)
	if err := os.WriteFile(file, []byte(s), 0o644); err != nil {
		return err
	}
	if err := fakeWazero(e); err != nil {
		return err
	}
	dst := filepath.Join(e.h, "tool", "corpus")
	protos := func(name, dir string) error {
		return filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			if d.IsDir() || filepath.Ext(p) != ".proto" {
				return nil
			}
			rel, _ := filepath.Rel(dir, p)
			t := filepath.Join(dst, name, rel)
			if err := os.MkdirAll(filepath.Dir(t), 0o755); err != nil {
				return err
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			return os.WriteFile(t, b, 0o644)
		})
	}
	corpora := map[string]string{"testdata": "testdata", "validator": "validator/testdata", "lsp": "lsp/server/testdata"}
	exs, _ := filepath.Glob(filepath.Join(e.repo, "_examples", "*", "proto"))
	for _, ex := range exs {
		dir, _ := filepath.Rel(e.repo, ex)
		corpora["ex-"+filepath.Base(filepath.Dir(ex))] = dir
	}
	for name, dir := range corpora {
		if err := protos(name, filepath.Join(e.repo, dir)); err != nil {
			return err
		}
	}
	return nil
}

var engines = map[string]*engine{
	"plug": {name: "plug", main: "./cmd/plugw", gen: true, extra: []string{"plug/proto"}, instrs: plugInstrs, prep: prepPlug},
	"tool": {name: "tool", main: "./cmd/toolw", instrs: toolInstrs, prep: prepTool},
	"fed":  {name: "fed", main: "./cmd/fedw", gen: true, extra: []string{"fed/proto"}, instrs: fedInstrs},
}

func copyTree(dst, src string) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		t := filepath.Join(dst, rel)
		if d.IsDir() && d.Name() == "testdata" {
			return fs.SkipDir
		}
		if strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if d.IsDir() {
			return os.MkdirAll(t, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(t, b, 0o644)
	})
}

func (e *env) goCmd(dir string, args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = goEnv()
	return c
}

func goEnv() []string {
	var out []string
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOROOT", "GO111MODULE", "CGO_ENABLED", "GOEXPERIMENT", "GODEBUG", "GOOS", "GOARCH":
			continue
		}
		out = append(out, kv)
	}
	return append(out, "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GONOSUMDB=*", "GOFLAGS=-mod=mod", "GONOSUMCHECK=1")
}

func run(c *exec.Cmd) error {
	var b strings.Builder
	c.Stdout, c.Stderr = &b, &b
	if err := c.Run(); err != nil {
		s := b.String()
		if len(s) > 6000 {
			s = s[:6000] + "..."
		}
		return fmt.Errorf("%s: %w\n%s", strings.Join(c.Args, " "), err, s)
	}
	return nil
}

// prepare copies the harness next to a go.mod derived from the repository's.
func (e *env) prepare() error {
	e.h = filepath.Join(e.work, "h")
	if err := copyTree(e.h, filepath.Join(e.sim, "harness")); err != nil {
		return err
	}
	b, err := os.ReadFile(filepath.Join(e.repo, "go.mod"))
	if err != nil {
		return err
	}
	mod := strings.Replace(string(b), "module github.com/mercari/grpc-federation", "module verif.local/harness", 1)
	mod += fmt.Sprintf("\nrequire github.com/mercari/grpc-federation v0.0.0\nrequire verif.local/sim v0.0.0\nrequire github.com/go-logr/logr v1.4.1 // indirect\nrequire github.com/go-logr/stdr v1.2.2 // indirect\nrequire go.opentelemetry.io/otel/metric v1.24.0 // indirect\nreplace github.com/mercari/grpc-federation => %s\nreplace verif.local/sim => %s\n", e.repo, e.sim)
	if err := os.WriteFile(filepath.Join(e.h, "go.mod"), []byte(mod), 0o644); err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(e.repo, "go.sum"))
	if err != nil {
		return err
	}
	extra, err := os.ReadFile(filepath.Join(e.h, "extra.sum"))
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(e.h, "go.sum"), append(sum, extra...), 0o644)
}

// generate writes and generates the programs.
func (e *env) generate(seeds []uint64, extra []string) ([]string, error) {
	gen := filepath.Join(e.work, "gen")
	t := time.Now()
	if err := run(e.goCmd(e.h, "build", "-trimpath", "-o", gen, "./cmd/gen")); err != nil {
		return nil, fmt.Errorf("building the generator: %w", err)
	}
	e.logf("generator built in %v", time.Since(t).Round(time.Millisecond))
	var ss, pkgs []string
	for _, s := range seeds {
		ss = append(ss, strconv.FormatUint(s, 10))
		pkgs = append(pkgs, prog.Generate(s).Name)
	}
	args := []string{e.repo, e.h, filepath.Join(e.work, "protos"), strings.Join(ss, ",")}
	for _, x := range extra {
		args = append(args, filepath.Join(e.h, x))
	}
	c := exec.Command(gen, args...)
	c.Env = goEnv()
	if err := run(c); err != nil {
		return nil, fmt.Errorf("generating programs: %w", err)
	}
	return pkgs, nil
}

// vendorMod copies a module out of the module cache (whose files cannot be
// overlaid) and makes the harness use the copy.
func (e *env) vendorMod(mod string) (string, error) {
	root := filepath.Join(e.work, "mods", strings.ReplaceAll(mod, "/", "_"))
	if _, err := os.Stat(root); err == nil {
		return root, nil
	}
	out, err := e.goCmd(e.h, "list", "-m", "-f", "{{.Dir}}", mod).Output()
	if err != nil {
		return "", fmt.Errorf("go list -m %s: %w", mod, err)
	}
	if err := copyTree(root, strings.TrimSpace(string(out))); err != nil {
		return "", err
	}
	return root, run(e.goCmd(e.h, "mod", "edit", "-replace="+mod+"="+root))
}

// build builds an engine's worker. It returns the binary and the number of
// scheduling points instrumented.
func (e *env) build(en *engine, seeds []uint64, race bool) (string, int, error) {
	if err := e.prepare(); err != nil {
		return "", 0, err
	}
	var pkgs []string
	var err error
	if en.gen {
		if pkgs, err = e.generate(seeds, en.extra); err != nil {
			return "", 0, err
		}
		var imp strings.Builder
		imp.WriteString("package main\n\nimport (\n")
		for _, p := range pkgs {
			fmt.Fprintf(&imp, "\t_ \"verif.local/harness/gen/%s\"\n", p)
		}
		imp.WriteString(")\n")
		if err := os.WriteFile(filepath.Join(e.h, en.main, "imports.go"), []byte(imp.String()), 0o644); err != nil {
			return "", 0, err
		}
	}
	if en.prep != nil {
		if err := en.prep(e); err != nil {
			return "", 0, err
		}
	}
	goroot, err := e.goCmd(e.h, "env", "GOROOT").Output()
	if err != nil {
		return "", 0, err
	}
	set, err := overlay.NewSet(filepath.Join(e.work, "ov"))
	if err != nil {
		return "", 0, err
	}
	if err := set.AddRuntime(strings.TrimSpace(string(goroot))); err != nil {
		return "", 0, err
	}
	in := &overlay.Instrumenter{Set: set}
	for _, x := range en.instrs(e, pkgs) {
		dir := x.dir
		if p, ok := strings.CutPrefix(dir, "mod:"); ok {
			mod, sub, _ := strings.Cut(p, "#")
			root, err := e.vendorMod(mod)
			if err != nil {
				return "", 0, err
			}
			dir = filepath.Join(root, sub)
		}
		if strings.HasPrefix(x.dir, "mod:github.com/cenkalti/backoff/") {
			// the seam for the jitter of exponential back-off
			f := filepath.Join(dir, "exponential.go")
			for _, r := range [][2]string{{"\t\"math/rand\"\n", ""}, {"rand.Float64()", "SimRand"}, {"// SystemClock implements", "// SimRand is the random number drawn.\nvar SimRand = 0.5\n\n// SystemClock implements"}} {
				if err := edit(f, r[0], r[1]); err != nil {
					return "", 0, err
				}
			}
		}
		show := strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(dir, e.repo+"/"), e.h+"/"), e.work+"/")
		in.Imports = nil
		if x.subst {
			in.Imports = simPackages
		}
		if err := in.Dir(dir, show, x.level, x.keep); err != nil {
			return "", 0, err
		}
	}
	js, _ := json.Marshal(map[string]any{"Replace": set.Replace})
	ov := filepath.Join(e.work, "overlay.json")
	if err := os.WriteFile(ov, js, 0o644); err != nil {
		return "", 0, err
	}
	sites, _ := json.Marshal(in.Sites)
	if err := os.WriteFile(filepath.Join(e.work, "sites.json"), sites, 0o644); err != nil {
		return "", 0, err
	}
	bin := filepath.Join(e.work, en.name+"w")
	args := []string{"build", "-trimpath", "-overlay", ov, "-tags", "simruntime", "-ldflags=-checklinkname=0"}
	if race {
		args = append(args, "-race")
		bin += ".race"
	}
	t := time.Now()
	args = append(args, "-o", bin, en.main)
	err = run(e.goCmd(e.h, args...))
	// Some schemas generate code that does not compile (a defect outside these
	// properties); most programs have to.
	for dropped := 0; err != nil && en.gen && dropped < len(pkgs)/3; dropped++ {
		name := ""
		for _, p := range pkgs {
			if strings.Contains(err.Error(), "# verif.local/harness/gen/"+p) {
				name = p
			}
		}
		if name == "" {
			break
		}
		e.logf("program %s does not compile and is left out", name)
		imports := filepath.Join(e.h, en.main, "imports.go")
		b, rerr := os.ReadFile(imports)
		if rerr != nil {
			return "", 0, rerr
		}
		if werr := os.WriteFile(imports, []byte(strings.Replace(string(b), fmt.Sprintf("\t_ \"verif.local/harness/gen/%s\"\n", name), "", 1)), 0o644); werr != nil {
			return "", 0, werr
		}
		err = run(e.goCmd(e.h, args...))
	}
	if err != nil {
		return "", 0, fmt.Errorf("building the simulation: %w", err)
	}
	e.logf("simulation built in %v, %d scheduling points", time.Since(t).Round(time.Millisecond), len(in.Sites))
	return bin, len(in.Sites), nil
}

var _ = io.Discard
