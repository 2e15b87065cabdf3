//go:build simruntime

package tool

import (
	"context"
	"errors"
	"fmt"
	"io"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/mercari/grpc-federation/generator"
	"github.com/mercari/grpc-federation/grpc/federation/generator/plugin"
	"github.com/tetratelabs/wazero"

	"verif.local/harness/wk"
	"verif.local/sim/prog"
	"verif.local/sim/simexec"
	"verif.local/sim/simlog"
	"verif.local/sim/simnotify"
	"verif.local/sim/simos"
	"verif.local/sim/simrt"
)

// WatchOp is one thing that happens to the sources.
type WatchOp struct {
	Kind string        `json:"k"` // write, atomic, delete, rename, rmdir, mvdir, touch, sleep
	File int           `json:"f"`
	To   int           `json:"to,omitempty"`
	V    int           `json:"v,omitempty"` // variant of the text
	Gap  time.Duration `json:"gap,omitempty"`
}

// WatchPlan is a session of watch mode.
type WatchPlan struct {
	Layout string    `json:"layout"` // how sources and outputs are configured
	Init   []int     `json:"init"`   // variant of each file, -1 if absent
	Ops    []WatchOp `json:"ops"`
	Chunk  int       `json:"chunk"` // bytes per write call
	Stalls bool      `json:"stalls,omitempty"`
	Queue  int       `json:"queue,omitempty"` // length of the event queue
	Main   bool      `json:"main,omitempty"`  // run the real program instead of the package
	// how it ends
	End     string          `json:"end"` // cancel, close, error:N
	EndOp   int             `json:"endop"`
	EndStep int             `json:"endstep,omitempty"` // file system operations after it
	Idle    time.Duration   `json:"idle,omitempty"`
	Fault   string          `json:"fault,omitempty"` // at the start: new, add, source
	Early   time.Duration   `json:"early,omitempty"` // the changes begin this long after the start
	Disk    []FSFault       `json:"disk,omitempty"`  // errors of file-system operations of watch mode during the changes
	Ext     int             `json:"ext,omitempty"`   // installed protoc plugin
	Slow    []time.Duration `json:"slow,omitempty"`  // how long its executions take in turn
	Wasm    bool            `json:"wasm,omitempty"`  // with a code-generation plugin
	Hang    int             `json:"hang,omitempty"`  // its execution during the changes (from 1) that does not end by itself
}

// The files of the project.
var watchFiles = []string{
	"common/common.proto", "backend/backend.proto", "fed/fed.proto", "fed/types.proto",
	"rule/rule.proto", "extra/extra.proto", "extra/more.proto", "late/deep/late.proto",
}

const (
	vFields = 3      // number of additional fields
	vMoved  = 1 << 2 // another Go package
	vBare   = 1 << 3 // without what makes extra outputs
	vSyntax = 1 << 4 // does not parse
	vType   = 1 << 5 // refers to an unknown type
	vEmpty  = 1 << 6 // empty
	vAlt    = 1 << 7 // other names of the same length
	vBroken = vSyntax | vType | vEmpty
)

// watchText is the text of a file.
func watchText(file, v int) string {
	if v&vEmpty != 0 {
		return ""
	}
	name := watchFiles[file]
	base := strings.TrimSuffix(path.Base(name), ".proto")
	field := "extra"
	if v&vAlt != 0 {
		field = "other"
	}
	var b strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&b, f, a...) }
	w("syntax = \"proto3\";\n\npackage ex.%s;\n\n", map[string]string{"types": "fed"}[base]+map[bool]string{true: base}[base != "types"])
	imports := map[string][]string{
		"backend": {"common/common.proto"},
		"fed":     {"grpc/federation/federation.proto", "backend/backend.proto", "common/common.proto", "fed/types.proto"},
		"types":   {"grpc/federation/federation.proto", "common/common.proto"},
		"rule":    {"grpc/federation/federation.proto"},
		"more":    {"extra/extra.proto"},
	}[base]
	if base == "fed" && v&vBare != 0 {
		imports = nil
	}
	for _, i := range imports {
		w("import %q;\n", i)
	}
	dir := path.Dir(name)
	if v&vMoved != 0 {
		dir += "moved"
	}
	w("\noption go_package = \"example/%s;%spb\";\n\n", dir, path.Base(path.Dir(name)))
	if v&vType != 0 {
		w("message Broken {\n  NoSuchType x = 1;\n}\n\n")
	}
	extra := func(n int) {
		for i := 0; i < v&vFields; i++ {
			w("  string %s%d = %d;\n", field, i, n+i)
		}
	}
	switch base {
	case "common":
		w("message Common {\n  string name = 1;\n")
		extra(2)
		w("}\n")
	case "backend":
		w("message GetRequest {\n  string id = 1;\n}\n\nmessage GetResponse {\n  Item item = 1;\n}\n\nmessage Item {\n  string id = 1;\n  ex.common.Common common = 2;\n")
		extra(3)
		w("}\n\nservice BackendService {\n  rpc Get(GetRequest) returns (GetResponse);\n}\n")
	case "fed":
		w("message GetRequest {\n  string id = 1;\n}\n\n")
		if v&vBare != 0 {
			w("message GetResponse {\n  string id = 1;\n")
			extra(2)
			w("}\n")
			break
		}
		w("service FedService {\n  option (grpc.federation.service) = {};\n  rpc Get(GetRequest) returns (GetResponse);\n}\n\n")
		w("message GetResponse {\n  option (grpc.federation.message) = {\n    def { name: \"res\" call { method: \"ex.backend.BackendService/Get\" request { field: \"id\" by: \"$.id\" } } }\n    def { name: \"t\" message { name: \"Typed\" args { name: \"id\" by: \"$.id\" } } }\n  };\n")
		w("  ex.common.Common common = 1 [(grpc.federation.field).by = \"res.item.common\"];\n  Typed typed = 2 [(grpc.federation.field).by = \"t\"];\n")
		for i := 0; i < v&vFields; i++ {
			w("  string %s%d = %d [(grpc.federation.field).by = \"'x%d'\"];\n", field, i, 3+i, i)
		}
		w("}\n")
	case "types":
		w("message Typed {\n  option (grpc.federation.message) = {\n    def { name: \"c\" by: \"ex.common.Common{name: $.id}\" }\n  };\n  ex.common.Common c = 1 [(grpc.federation.field).by = \"c\"];\n")
		for i := 0; i < v&vFields; i++ {
			w("  string %s%d = %d [(grpc.federation.field).by = \"'t%d'\"];\n", field, i, 3+i, i)
		}
		w("}\n")
	case "rule":
		w("option (grpc.federation.file) = {\n  import: [\"backend/backend.proto\"]\n};\n\nmessage GetRequest {\n  string id = 1;\n}\n\nservice RuleService {\n  option (grpc.federation.service) = {};\n  rpc Get(GetRequest) returns (GetResponse);\n}\n\n")
		w("message GetResponse {\n  option (grpc.federation.message) = {\n    def { name: \"res\" call { method: \"ex.backend.BackendService/Get\" request { field: \"id\" by: \"$.id\" } } }\n  };\n  string id = 1 [(grpc.federation.field).by = \"res.item.id\"];\n")
		for i := 0; i < v&vFields; i++ {
			w("  string %s%d = %d [(grpc.federation.field).by = \"'r%d'\"];\n", field, i, 3+i, i)
		}
		w("}\n")
	case "more":
		w("message More {\n  ex.extra.Extra e = 1;\n")
		extra(2)
		w("}\n")
	default:
		n := strings.ToUpper(base[:1]) + base[1:]
		w("message %s {\n  string id = 1;\n", n)
		extra(2)
		w("}\n")
		if v&vBare == 0 {
			w("\nservice %sService {\n  rpc Do(%s) returns (%s);\n}\n", n, n, n)
		}
	}
	if v&vSyntax != 0 {
		w("message {\n")
	}
	return b.String()
}

var watchNeeds = map[int][]int{1: {0}, 2: {0, 1, 3}, 3: {0}, 4: {0, 1}, 6: {5}}

// repair says what must still happen so that everything compiles.
func repair(state []int) []WatchOp {
	var ops []WatchOp
	set := func(f, v int) {
		state[f] = v
		ops = append(ops, WatchOp{Kind: "write", File: f, V: v})
	}
	for f, v := range state {
		if v >= 0 && v&vBroken != 0 {
			set(f, v&^vBroken)
		}
	}
	for changed := true; changed; {
		changed = false
		for f := range state {
			if state[f] < 0 || f == 2 && state[f]&vBare != 0 {
				continue
			}
			for _, n := range watchNeeds[f] {
				if state[n] < 0 {
					set(n, 0)
					changed = true
				}
			}
		}
	}
	return ops
}

var layouts = []string{"proto", "./proto", "/proj/proto", "proto import", "split", "."}

// watchConfig is the configuration of a layout and where the sources are.
func watchConfig(layout string, ext int, wasm bool) (yaml, root string, src []string) {
	opt := "paths=source_relative"
	src = []string{"proto"}
	imports := []string{"proto"}
	switch layout {
	case "./proto":
		src, imports = []string{"./proto"}, []string{"./proto"}
	case "/proj/proto":
		src, imports = []string{"/proj/proto"}, []string{"/proj/proto"}
	case "proto import":
		opt = "paths=import"
	case "split":
		src = []string{"proto/common", "proto/backend", "proto/fed", "proto/rule", "proto/extra", "proto/late"}
	case ".":
		src, imports = []string{"."}, []string{"proto"}
	}
	var b strings.Builder
	b.WriteString("imports:\n")
	for _, s := range imports {
		fmt.Fprintf(&b, "  - %s\n", s)
	}
	b.WriteString("src:\n")
	for _, s := range src {
		fmt.Fprintf(&b, "  - %s\n", s)
	}
	b.WriteString("out: out\nplugins:\n")
	names := []string{"go", "go-grpc", "grpc-federation"}
	if ext == 1 {
		names = append(names, "ext")
	}
	for _, pl := range names {
		fmt.Fprintf(&b, "  - plugin: %s\n    opt: %s", pl, opt)
		if wasm && pl == "grpc-federation" {
			fmt.Fprintf(&b, ",plugins=file:///proj/plug.wasm:%s", digest(wasmOf(0)))
		}
		b.WriteString("\n")
	}
	if ext > 0 {
		fmt.Fprintf(&b, "# with %s\n", extNames[ext])
	}
	return b.String(), "/proj/proto", src
}

func planWatch(prop string, g *simrt.PRNG) *WatchPlan {
	p := &WatchPlan{Layout: layouts[g.Intn(len(layouts))], End: "cancel", EndOp: -1}
	for range watchFiles {
		v := g.Intn(vFields + 1)
		if g.P(3, 5) {
			v = -1
		}
		p.Init = append(p.Init, v)
	}
	repair(p.Init) // the start compiles
	n := 1 + g.Intn(8)
	if prop == "C19" {
		n = g.Intn(5)
	}
	// a few files get most of the changes
	hot := g.Intn(len(watchFiles))
	for i := 0; i < n; i++ {
		f := g.Intn(len(watchFiles))
		if g.P(1, 2) {
			f = hot
		}
		o := WatchOp{Kind: []string{"write", "write", "write", "atomic", "atomic", "delete", "rename", "touch", "rmdir", "mvdir"}[g.Intn(10)], File: f}
		o.V = g.Intn(vFields + 1)
		if g.P(1, 4) {
			o.V |= vMoved
		}
		if g.P(1, 5) {
			o.V |= vBare
		}
		if g.P(1, 3) {
			o.V |= vAlt
		}
		if g.P(1, 4) {
			o.V |= []int{vSyntax, vType, vEmpty}[g.Intn(3)]
		}
		switch g.Intn(4) {
		case 0:
			o.Gap = time.Duration(1 + g.Intn(int(time.Second)))
		case 1:
			o.Gap = time.Duration(1 + g.Intn(2000))
		}
		p.Ops = append(p.Ops, o)
	}
	if prop == "C18" && g.P(1, 4) {
		// changes while watch mode starts: what compiles keeps compiling under the same names
		p.Early = time.Duration(1 + g.Intn([]int{100, 100000, 20000000}[g.Intn(3)]))
		var present []int
		for f, v := range p.Init {
			if v >= 0 {
				present = append(present, f)
			}
		}
		for i := range p.Ops {
			o := &p.Ops[i]
			o.Kind, o.V = "atomic", o.V&(vFields|vAlt)
			if p.Init[o.File] < 0 {
				if len(present) == 0 {
					p.Ops, p.Early = nil, 0
					break
				}
				o.File = present[g.Intn(len(present))]
			}
		}
	}
	if prop == "C18" && p.Early == 0 && g.P(1, 3) {
		for n := 1 + g.Intn(3); n > 0; n-- {
			f := FSFault{Where: "src", Op: []string{"stat", "open", "read", "readdir"}[g.Intn(4)], Nth: g.Intn(30), Partial: g.Intn(1 << 12), Sticky: g.P(1, 3)}
			f.Err = []string{"EIO", "EACCES", "EMFILE"}[g.Intn(3)]
			if g.P(1, 3) {
				f.Where, f.Op = "out", []string{"open", "write", "mkdir", "stat", "remove"}[g.Intn(5)]
				f.Err = []string{"ENOSPC", "EIO", "EROFS"}[g.Intn(3)]
			}
			p.Disk = append(p.Disk, f)
		}
	}
	if g.P(1, 4) {
		p.Ext = 1 + g.Intn(2)
		if g.P(2, 3) {
			for n := 1 + g.Intn(4); n > 0; n-- {
				p.Slow = append(p.Slow, time.Duration(g.Intn([]int{1000, int(time.Second), int(20 * time.Second)}[g.Intn(3)])))
			}
		}
		if prop == "C19" && g.P(1, 2) {
			p.Hang = 1 + g.Intn(4)
		}
	} else if g.P(1, 4) {
		p.Wasm = true
		if g.P(2, 3) {
			for n := 1 + g.Intn(4); n > 0; n-- {
				p.Slow = append(p.Slow, time.Duration(g.Intn([]int{1000, int(time.Second), int(20 * time.Second)}[g.Intn(3)])))
			}
		}
		if prop == "C19" && g.P(1, 2) {
			p.Hang = 1 + g.Intn(6)
		}
		if prop == "C18" && p.Early == 0 && g.P(1, 3) {
			p.Disk = append(p.Disk, FSFault{Where: "exec", Op: "guest", Nth: g.Intn(6), Err: []string{"early", "exit", "trap"}[g.Intn(3)], Sticky: g.P(1, 4)})
		}
	}
	if prop == "C18" && p.Ext > 0 && p.Early == 0 && g.P(1, 2) {
		for n := 1 + g.Intn(2); n > 0; n-- {
			p.Disk = append(p.Disk, FSFault{Where: "exec", Op: "exec", Nth: g.Intn(6), Err: []string{"early", "exit", "exit late", "killed", "garbage", "error", "start"}[g.Intn(7)], Sticky: g.P(1, 4)})
		}
	}
	p.Chunk = []int{1 << 20, 1 << 20, 300, 100}[g.Intn(4)]
	p.Stalls = g.P(1, 3)
	p.Main = g.P(1, 4)
	if g.P(1, 6) {
		p.Queue = 1 + g.Intn(4)
	}
	if g.P(1, 3) || p.Main {
		p.End = "close"
	}
	if prop == "C19" {
		if g.P(2, 3) {
			p.EndOp = g.Intn(n + 1)
			p.EndStep = g.Intn(400)
		}
		if g.P(1, 3) {
			p.Idle = time.Duration(1+g.Intn(10)) * time.Hour
		}
		if p.End != "cancel" || p.Main {
			p.Hang = 0
		}
		if g.P(1, 6) {
			p.Fault = []string{"new", "add", "source"}[g.Intn(3)]
		}
	}
	return p
}

func shrinkWatch(p *WatchPlan) []*WatchPlan {
	var out []*WatchPlan
	add := func(f func(q *WatchPlan)) {
		q := clone(p)
		f(q)
		out = append(out, q)
	}
	for size := len(p.Ops) / 2; size >= 1; size /= 2 {
		for i := 0; i < len(p.Ops); i += size {
			add(func(q *WatchPlan) { q.Ops = append(q.Ops[:i:i], q.Ops[min(len(q.Ops), i+size):]...) })
		}
	}
	for i, f := range p.Disk {
		add(func(q *WatchPlan) { q.Disk = append(q.Disk[:i], q.Disk[i+1:]...) })
		if f.Sticky {
			add(func(q *WatchPlan) { q.Disk[i].Sticky = false })
		}
		if f.Nth > 0 {
			add(func(q *WatchPlan) { q.Disk[i].Nth /= 2 })
		}
	}
	for i := range p.Init {
		if p.Init[i] > 0 {
			add(func(q *WatchPlan) { q.Init[i] = 0 })
		}
		if p.Init[i] >= 0 {
			add(func(q *WatchPlan) { q.Init[i] = -1; repair(q.Init) })
		}
	}
	if p.Layout != "proto" {
		add(func(q *WatchPlan) { q.Layout = "proto" })
	}
	if p.Chunk < 1<<20 {
		add(func(q *WatchPlan) { q.Chunk = 1 << 20 })
	}
	if p.Stalls {
		add(func(q *WatchPlan) { q.Stalls = false })
	}
	if p.Queue > 0 {
		add(func(q *WatchPlan) { q.Queue = 0 })
	}
	if p.Main {
		add(func(q *WatchPlan) { q.Main = false })
	}
	if p.Ext > 0 {
		add(func(q *WatchPlan) { q.Ext, q.Slow, q.Hang = 0, nil, 0 })
		if len(p.Slow) > 0 {
			add(func(q *WatchPlan) { q.Slow = nil })
		}
	}
	if p.Wasm {
		add(func(q *WatchPlan) { q.Wasm, q.Slow, q.Hang = false, nil, 0 })
		if len(p.Slow) > 0 {
			add(func(q *WatchPlan) { q.Slow = nil })
		}
	}
	if p.EndStep > 0 {
		add(func(q *WatchPlan) { q.EndStep /= 2 })
	}
	if p.Early > 0 {
		add(func(q *WatchPlan) { q.Early = 0 })
		if p.Early > 1 {
			add(func(q *WatchPlan) { q.Early /= 2 })
		}
	}
	if p.Idle > time.Hour {
		add(func(q *WatchPlan) { q.Idle = time.Hour })
	}
	for i, o := range p.Ops {
		if o.Gap > 0 {
			add(func(q *WatchPlan) { q.Ops[i].Gap = 0 })
		}
		if o.V != 0 {
			add(func(q *WatchPlan) { q.Ops[i].V = 0 })
		}
	}
	return out
}

var cleanMemo = map[uint64]map[string]string{}

// cleanOutputs is what a clean generation of the sources writes.
func cleanOutputs(yaml, root string, files map[string]string) (map[string]string, error) {
	var key []string
	for n, t := range files {
		key = append(key, n+"\x00"+t)
	}
	sort.Strings(key)
	k := prog.Hash(append(key, yaml, root)...)
	if m, ok := cleanMemo[k]; ok {
		return m, nil
	}
	keep, cwd := simos.Fork(), simos.Cwd
	defer func() { simos.Restore(keep); simos.Cwd = cwd }()
	out := map[string]string{}
	var err error
	simos.Calm(func() {
		simos.RemoveAll(root)
		simos.MkdirAll(root, 0o755)
		simos.Cwd = "/proj"
		install(root, files)
		for _, f := range watchFiles {
			simos.MkdirAll(path.Join(root, strings.SplitN(f, "/", 2)[0]), 0o755)
		}
		var cfg generator.Config
		cfg, err = generator.LoadConfigFromReader(strings.NewReader(yaml))
		if err != nil {
			return
		}
		var m generator.BuildCacheMap
		m, err = generator.New(cfg).GenerateAll(context.Background())
		if err != nil {
			return
		}
		for _, c := range m {
			for _, r := range c.Responses {
				for _, f := range r.GetFile() {
					if old, ok := out[f.GetName()]; ok && old != f.GetContent() {
						err = fmt.Errorf("two contents for %s", f.GetName())
					}
					out[f.GetName()] = f.GetContent()
				}
			}
		}
	})
	if err != nil {
		return nil, err
	}
	if len(cleanMemo) > 300 {
		cleanMemo = map[uint64]map[string]string{}
	}
	cleanMemo[k] = out
	return out, nil
}

func runWatch(prop string, p *WatchPlan, opt simrt.Options) *wk.Outcome {
	o := &wk.Outcome{Faults: map[string]int{}, Reach: map[string]int{}}
	simos.Reset()
	simnotify.Reset()
	simlog.Reset()
	yaml, root, srcs := watchConfig(p.Layout, p.Ext, p.Wasm)
	simexec.Reset()
	installExt(extNames[p.Ext], nil, nil)
	simos.Cwd = "/proj"
	state := append([]int{}, p.Init...)
	var initial map[string]string
	simos.Calm(func() {
		files := map[string]string{}
		for f, v := range state {
			simos.MkdirAll(path.Join(root, path.Dir(watchFiles[f])), 0o755)
			if v >= 0 {
				files[watchFiles[f]] = watchText(f, v)
			}
		}
		install(root, files)
		install("/proj", map[string]string{"grpc-federation.yaml": yaml, "plug.wasm": string(wasmOf(0))})
		outs, err := cleanOutputs(yaml, root, files)
		initial = outs
		if err != nil {
			o.Err = "the initial sources do not compile: " + err.Error()
			return
		}
		install("/proj/out", outs)
		if p.Fault == "source" {
			install(root, map[string]string{"extra/bad.proto": "syntax"})
		}
	})
	if o.Err != "" {
		return o
	}
	if p.Queue > 0 {
		simnotify.MaxQueue, simnotify.MaxOverflows = p.Queue, 2
	}
	switch p.Fault {
	case "new":
		simnotify.FailNew = syscall.EMFILE
	case "add":
		left := 1 + len(p.Ops)
		simnotify.FailAdd = func(string) error {
			if left--; left == 0 {
				return syscall.ENOSPC
			}
			return nil
		}
	}
	opt.Stalls = p.Stalls
	opt.Horizon = 1000 * time.Hour
	opt.Grace = 10 * time.Minute
	var (
		proc      *Proc
		retErr    error
		returned  bool
		early     bool
		stopped   bool
		endedAt   time.Duration
		backAt    time.Duration
		idleSteps uint32
		after     int
		afterOp   string
		settled   map[string]string
		sources   map[string]string
		actions   = map[string]int{}
	)
	execs, changing := 0, 0
	extHit := map[int]bool{}
	simexec.FailStart = func(string) error {
		for i, f := range p.Disk {
			if f.Err != "start" || o.Faults["ended"] > 0 || o.Faults["changes"] == 0 {
				continue
			}
			if changing == f.Nth || f.Sticky && extHit[i] {
				extHit[i] = true
				changing++
				o.Faults["installed plugin cannot be started"]++
				return syscall.EAGAIN
			}
		}
		return nil
	}
	installExt(extNames[p.Ext], func() (string, time.Duration) {
		kind, d := "", time.Duration(0)
		if len(p.Slow) > 0 {
			d = p.Slow[execs%len(p.Slow)]
		}
		execs++
		if len(p.Ops) > 0 && o.Faults["changes"] > 0 {
			for i, f := range p.Disk {
				if f.Op != "exec" || o.Faults["ended"] > 0 || f.Err == "start" {
					continue
				}
				if changing == f.Nth || f.Sticky && extHit[i] {
					extHit[i] = true
					kind = f.Err
					o.Faults["installed plugin fails: "+kind]++
				}
			}
			changing++
			if changing == p.Hang {
				o.Faults["installed plugin hangs"]++
				d = 500 * time.Hour
			}
		}
		return kind, d
	}, nil)
	last := map[string]*plugin.CodeGeneratorRequest{} // of each source
	guestFailed := false
	wazero.SimGuest = func(b []byte) (wazero.SimProgram, error) {
		if digest(b) != digest(wasmOf(0)) {
			return nil, errors.New("invalid magic number")
		}
		return func(ctx context.Context, stdin io.Reader, stdout io.Writer) (uint32, error) {
			kind, d := "", time.Duration(0)
			if len(p.Slow) > 0 {
				d = p.Slow[execs%len(p.Slow)]
			}
			execs++
			if o.Faults["changes"] > 0 && o.Faults["ended"] == 0 {
				for i, f := range p.Disk {
					if f.Op == "guest" && (changing == f.Nth || f.Sticky && extHit[i]) {
						extHit[i] = true
						kind = f.Err
						guestFailed = true
						o.Faults["code-generation plugin fails: "+kind]++
					}
				}
				changing++
				if changing == p.Hang {
					o.Faults["code-generation plugin hangs"]++
					d = 500 * time.Hour
				}
			}
			if kind == "early" {
				return 2, nil
			}
			x := receive(stdin)
			if x.bad != "" {
				o.Add("bad-request", "the code-generation plugin got a malformed request: "+x.bad, "C18")
			}
			simrt.Event("the code-generation plugin is executed for %s: %v", x.req.GetProtoPath(), x.req.GetType())
			t := time.NewTimer(d)
			defer t.Stop()
			select {
			case <-t.C:
			case <-ctx.Done():
				return 0, ctx.Err()
			}
			switch kind {
			case "exit":
				return 1, nil
			case "trap":
				return 0, errors.New("wasm error: unreachable")
			}
			last[x.req.GetProtoPath()] = x.req
			return 0, nil
		}, nil
	}
	errStr := &buffer{}
	o.Res = simrt.Run(opt, func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		done := make(chan struct{})
		if p.Main {
			proc = start("generator", nil, nil, "-w")
			go func() {
				<-proc.Done
				close(done)
			}()
		} else {
			simos.Stderr = simos.NewStream("/dev/stderr", nil, errStr)
			go func() {
				defer close(done)
				cfg, err := generator.LoadConfig("grpc-federation.yaml")
				if err != nil {
					retErr = err
					return
				}
				g := generator.New(cfg)
				g.SetPostProcessHandler(func(ctx context.Context, path string, result generator.Result) error {
					for _, r := range result {
						actions[string(r.Type)]++
						if err := r.WriteFiles(ctx); err != nil {
							return err
						}
					}
					simrt.Event("generator: wrote %d results for %s", len(result), path)
					return nil
				})
				retErr = g.Generate(ctx, "", generator.WatchMode())
				simos.Hook = func(op simos.Op) *simos.Fault {
					// the driver does neither of these
					if op.Name == "read" || strings.HasPrefix(op.Path, "/proj/out") {
						// a compilation that was cancelled may still be reading its imports
						if afterOp == "" {
							afterOp = op.Name + " " + op.Path
						}
						if op.Name == "read" {
							after++
						} else {
							after += len(watchFiles) * 2
						}
					}
					return nil
				}
			}()
		}
		// let it start
		wait := 10 * time.Minute
		if p.Early > 0 {
			wait = p.Early
			o.Faults["source changed during the start"]++
		}
		select {
		case <-done:
			early = true
		case <-time.After(wait):
		}
		end := func() {
			if stopped || early {
				return
			}
			stopped = true
			endedAt = simrt.Now()
			simrt.Event("watch mode is told to end (%s)", p.End)
			if p.End == "close" {
				o.Faults["event source closes"]++
				for _, w := range simnotify.All {
					w.CloseSource()
				}
			} else {
				o.Faults["cancellation"]++
				cancel()
			}
		}
		ender := make(chan struct{}, 1)
		go func() {
			select {
			case <-ender:
				end()
			case <-done:
			}
		}()
		arm := func() {
			select {
			case <-done:
				return
			default:
			}
			left := p.EndStep
			simos.Hook = func(simos.Op) *simos.Fault {
				if left--; left == 0 {
					select {
					case ender <- struct{}{}:
					default:
					}
				}
				return nil
			}
		}
		at := func(f int) string { return path.Join(root, watchFiles[f]) }
		do := func(op WatchOp) {
			if op.Gap > 0 {
				time.Sleep(op.Gap)
			}
			dir := path.Join(root, strings.SplitN(watchFiles[op.File], "/", 2)[0])
			simrt.Event("%s %s %d", op.Kind, watchFiles[op.File], op.V)
			switch op.Kind {
			case "write", "atomic":
				simos.MkdirAll(path.Dir(at(op.File)), 0o755)
				to := at(op.File)
				if op.Kind == "atomic" {
					to += ".tmp"
				}
				f, err := simos.OpenFile(to, simos.O_WRONLY|simos.O_CREATE|simos.O_TRUNC, 0o644)
				if err != nil {
					panic(err)
				}
				t := []byte(watchText(op.File, op.V))
				for len(t) > 0 {
					n := min(len(t), p.Chunk)
					f.Write(t[:n])
					t = t[n:]
				}
				f.Close()
				if op.Kind == "atomic" {
					simos.Rename(to, at(op.File))
				}
				state[op.File] = op.V
			case "delete":
				simos.Remove(at(op.File))
				state[op.File] = -1
			case "rename": // moved out of the way and back
				if state[op.File] < 0 {
					return
				}
				simos.Rename(at(op.File), at(op.File)+"~")
				time.Sleep(op.Gap)
				simos.Rename(at(op.File)+"~", at(op.File))
			case "touch":
				if state[op.File] >= 0 {
					simos.WriteFile(at(op.File), []byte(watchText(op.File, state[op.File])), 0o644)
				}
			case "rmdir":
				if p.Layout == "split" {
					return // the roots stay
				}
				simos.RemoveAll(dir)
				for f := range watchFiles {
					if strings.HasPrefix(at(f), dir+"/") {
						state[f] = -1
					}
				}
			case "mvdir": // a directory is moved out of the tree and back
				if p.Layout == "split" {
					return
				}
				if simos.Rename(dir, "/proj/aside") != nil {
					return
				}
				time.Sleep(op.Gap)
				simos.RemoveAll(dir)
				simos.Rename("/proj/aside", dir)
			}
		}
		driving := false
		if len(p.Disk) > 0 {
			counts, hit := map[int]int{}, map[int]bool{}
			simos.Hook = func(op simos.Op) *simos.Fault {
				if driving {
					return nil
				}
				for i, f := range p.Disk {
					if f.Op != op.Name || strings.HasPrefix(op.Path, "/proj/out") != (f.Where == "out") || op.Path == "/dev/stderr" {
						continue
					}
					n := counts[i]
					counts[i]++
					if n == f.Nth || f.Sticky && hit[i] {
						hit[i] = true
						o.Faults[f.Op+" "+f.Err+" in "+f.Where]++
						simrt.Event("fault: %s %s %s", op.Name, op.Path, f.Err)
						return &simos.Fault{Err: errnos[f.Err], Partial: f.Partial % (op.N + 1)}
					}
				}
				return nil
			}
		}
		for i, op := range p.Ops {
			o.Faults["changes"]++
			if i == p.EndOp {
				if p.EndStep == 0 {
					end()
				} else {
					arm()
				}
			}
			driving = true
			do(op)
			driving = false
		}
		if len(p.Disk) > 0 {
			time.Sleep(10 * time.Minute)
			simos.Hook = nil
			o.Faults["ended"]++
			simrt.Event("faults end")
		}
		if p.EndOp >= len(p.Ops) {
			arm()
		}
		for _, op := range repair(state) {
			do(op)
		}
		if len(p.Disk) > 0 {
			// what failed is made up for with the next change
			time.Sleep(10 * time.Minute)
			f := 7
			for i, v := range state {
				if v >= 0 {
					f = i
				}
			}
			if !simnotify.Watched(path.Dir(at(f))) {
				// it could not be watched: only a change above it is seen
				for _, src := range srcs {
					simos.MkdirAll(path.Join(src, "zz"), 0o755)
				}
				simrt.Event("mkdir zz")
				o.Reach["directory could not be watched"]++
				time.Sleep(10 * time.Minute)
			}
			do(WatchOp{Kind: "atomic", File: f, V: max(state[f], 0) ^ 1})
		}
		if p.Early > 0 {
			// what was generated at the start is written with the first change
			time.Sleep(10 * time.Minute)
			do(p.Ops[0])
			do(WatchOp{Kind: "atomic", File: p.Ops[0].File, V: 0})
		}
		// nothing happens any more
		time.Sleep(10 * time.Minute)
		if !stopped {
			select {
			case <-done:
				early = true
			default:
			}
		}
		if !stopped {
			simos.Calm(func() {
				settled = simos.Snapshot("/proj/out")
				sources = map[string]string{}
				for n, t := range simos.Snapshot(root) {
					if strings.HasSuffix(n, ".proto") {
						sources[strings.TrimPrefix(n, root+"/")] = t
					}
				}
			})
			if p.Idle > 0 && !early {
				s := simrt.Steps()
				time.Sleep(p.Idle)
				idleSteps = simrt.Steps() - s
				o.Reach["idle periods"]++
			}
		}
		end()
		select {
		case <-done:
			returned = true
			backAt = simrt.Now()
		case <-time.After(30 * time.Minute):
			simrt.Event("watch mode has not ended")
		}
	})
	simos.Hook = nil
	if p.Wasm {
		o.Reach["code-generation plugin executions"] += execs
	}
	if p.Ext > 0 {
		o.Reach["installed plugin executions"] += execs
		installExt(extNames[p.Ext], nil, nil)
	}
	simexec.FailStart = nil
	delete(o.Faults, "changes")
	delete(o.Faults, "ended")
	if proc != nil {
		errStr = &proc.Err
	}
	o.Key = fmt.Sprint(p.Layout, p.Init, len(p.Ops))
	o.Faults["goroutine stall"] += o.Res.Stalls
	o.Faults["event queue overflow"] += simnotify.Overflows
	for _, op := range p.Ops {
		o.Faults["source "+op.Kind]++
		if op.V&vBroken != 0 && (op.Kind == "write" || op.Kind == "atomic") {
			o.Faults["source does not compile"]++
		}
	}
	if p.Fault != "" {
		o.Faults["start: "+p.Fault]++
	}
	for a, n := range actions {
		o.Reach["result "+a] += n
	}
	if o.Res.StepCap {
		o.Add("stepcap", "the run does not come to an end: watch mode keeps the processor busy", "C18", "C19")
		return o
	}
	if o.Res.Hang {
		o.Add("hang", "the run hangs:\n"+o.Res.HangDump, "C18", "C19")
		return o
	}
	if proc != nil && proc.Died != "" {
		o.Add("died", "watch mode died: "+proc.Died, "C18", "C19")
		return o
	}
	o.Checks++
	if simexec.Running != 0 {
		o.Add("leak", fmt.Sprintf("%d processes of plugins still run after watch mode has ended", simexec.Running), "C19")
	}
	if simnotify.Open != 0 {
		o.Add("not-released", fmt.Sprintf("%d file-event sources are still open after watch mode has ended", simnotify.Open), "C19")
	}
	if after >= len(watchFiles)*2 {
		o.Add("works-on", fmt.Sprintf("generating goes on after watch mode has returned, beginning with %s", afterOp), "C19")
	}
	if o.Res.Leaked > 0 {
		o.Add("leak", fmt.Sprintf("%d goroutines remain after watch mode has ended:\n%s", o.Res.Leaked, o.Res.LeakDump), "C19")
	}
	if p.Fault != "" {
		o.Checks++
		if early && proc == nil && retErr == nil || early && proc != nil && proc.Code == 0 {
			o.Add("fault-hidden", "watch mode ends without an error although it could not start", "C19")
		}
		if !early && p.Fault != "add" {
			o.Add("fault-ignored", "watch mode runs although it could not start: "+p.Fault, "C19")
		}
		return o
	}
	if early {
		o.Add("ended-early", fmt.Sprintf("watch mode ended by itself: %v\n%s", retErr, clip(errStr.String())), "C18", "C19")
		return o
	}
	if !returned {
		o.Add("not-ended", "watch mode still runs 30 minutes after it was told to end", "C19")
		return o
	}
	if d := backAt - endedAt; d > time.Minute+time.Duration(o.Res.Stalls)*time.Minute && p.EndOp < 0 {
		o.Add("slow-end", fmt.Sprintf("watch mode ended %v after it was told to", d), "C19")
	}
	if retErr != nil && !errors.Is(retErr, context.Canceled) {
		o.Reach["returned another error"]++
	}
	if idleSteps > 2000 {
		o.Add("busy", fmt.Sprintf("watch mode passes %d scheduling points in %v without any file event", idleSteps, p.Idle), "C19")
	}
	if settled == nil || o.Faults["installed plugin hangs"]+o.Faults["code-generation plugin hangs"] > 0 {
		return o
	}
	want, err := cleanOutputs(yaml, root, sources)
	if err != nil {
		o.Err = "the final sources do not compile: " + err.Error()
		return o
	}
	o.Checks++
	o.Reach["settled"]++
	var diffs []string
	for n, t := range want {
		got, ok := settled["/proj/out/"+n]
		switch {
		case !ok:
			diffs = append(diffs, "missing "+n)
		case got != t:
			diffs = append(diffs, "outdated "+n)
		}
		delete(settled, "/proj/out/"+n)
	}
	if p.Wasm {
		o.Checks++
		if msg := told(root, last, initial, want, sources, guestFailed); msg != "" {
			o.Add("plugin-outdated", "the code-generation plugin does not know the current sources: "+msg+"\nlog:\n"+tail(errStr.String()), "C18")
		}
	}
	for n := range settled {
		diffs = append(diffs, "left over "+strings.TrimPrefix(n, "/proj/out/"))
	}
	if len(diffs) > 0 {
		sort.Strings(diffs)
		o.Add("diverged", fmt.Sprintf("the output is not what a clean generation of the sources makes:\n%s\nlog:\n%s", strings.Join(diffs, "\n"), tail(errStr.String())), "C18")
	}
	return o
}

// told compares what the code-generation plugin knows with what is generated.
func told(root string, last map[string]*plugin.CodeGeneratorRequest, initial, want, sources map[string]string, failed bool) string {
	known := map[string]string{}
	for _, n := range keys(last) {
		x := last[n]
		_, exists := sources[strings.TrimPrefix(n, root+"/")]
		if !exists {
			if x.GetType() != plugin.ActionType_DELETE_ACTION && !failed {
				return fmt.Sprintf("%s is deleted, but its last request is %v", n, x.GetType())
			}
			continue
		}
		if x.GetType() == plugin.ActionType_DELETE_ACTION {
			return fmt.Sprintf("%s exists, but its last request is %v", n, x.GetType())
		}
		for _, f := range x.GetFiles() {
			if known[f.GetName()] = f.GetContent(); want[f.GetName()] != f.GetContent() {
				return fmt.Sprintf("the last request for %s has an outdated %s", n, f.GetName())
			}
		}
	}
	for _, n := range keys(want) {
		if _, ok := known[n]; !ok && initial[n] != want[n] {
			return "no last request of a source has " + n
		}
	}
	return ""
}

func tail(s string) string {
	if len(s) > 2500 {
		return "..." + s[len(s)-2500:]
	}
	return s
}
