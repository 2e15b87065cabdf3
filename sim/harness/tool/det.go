//go:build simruntime

package tool

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"path"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/tetratelabs/wazero"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	"github.com/mercari/grpc-federation/compiler"
	"github.com/mercari/grpc-federation/source"

	"verif.local/harness/wk"
	"verif.local/sim/prog"
	"verif.local/sim/simexec"
	"verif.local/sim/simnotify"
	"verif.local/sim/simos"
	"verif.local/sim/simrt"
)

// DetPlan is one program run several times on the same sources.
type DetPlan struct {
	Ext     int      `json:"ext,omitempty"` // installed protoc plugin
	Prog    string   `json:"prog"`          // generator, protoc, linter
	Project string   `json:"project"`
	Muts    []DetMut `json:"muts,omitempty"`
	Entries []string `json:"entries"`
	Dirs    []string `json:"dirs,omitempty"` // generator: sources
	Opt     string   `json:"opt,omitempty"`
	Auto    bool     `json:"auto,omitempty"` // generator: plugins are not listed
	Execs   []Exec   `json:"execs"`
	Plugin  bool     `json:"plugin,omitempty"` // a code-generation plugin is configured
	Stalls  bool     `json:"stalls,omitempty"`
}

// DetMut changes the text of a file.
type DetMut struct {
	File string `json:"f"`
	Kind string `json:"k,omitempty"` // edit (default), remove, import
	Seed uint64 `json:"s"`
}

// Exec is one execution.
type Exec struct {
	Map   uint64 `json:"map"`   // seed of hash maps
	Procs int    `json:"procs"` // processors
	Perm  uint64 `json:"perm"`  // order of what is listed
}

// project returns the sources of a project. Projects are named sets,
// "prog:SEED,SEED", "watch:V,V,..." and "twins:SEED".
func project(name string) map[string]string {
	if p, ok := strings.CutPrefix(name, "prog:"); ok {
		files := map[string]string{"bk.proto": prog.BackendProto}
		for _, s := range strings.Split(p, ",") {
			seed, _ := strconv.ParseUint(s, 10, 64)
			q := prog.Generate(seed)
			files[q.Name+"/"+q.Name+".proto"] = q.Proto()
		}
		return files
	}
	if p, ok := strings.CutPrefix(name, "watch:"); ok {
		files := map[string]string{}
		for i, s := range strings.Split(p, ",") {
			if v, _ := strconv.Atoi(s); v >= 0 {
				files[watchFiles[i]] = watchText(i, v)
			}
		}
		return files
	}
	if s, ok := strings.CutPrefix(name, "twins:"); ok {
		seed, _ := strconv.ParseUint(s, 10, 64)
		return twins(seed)
	}
	return set(name).Files
}

func planDet(prop string, g *simrt.PRNG) *DetPlan {
	p := &DetPlan{}
	x := g.Intn(14)
	if os.Getenv("SIM_TWINS") != "" {
		x = 5
	}
	switch x {
	case 0, 1, 2:
		var ss []string
		for n := 1 + g.Intn(3); n > 0; n-- {
			ss = append(ss, strconv.Itoa(1+g.Intn(1000)))
		}
		p.Project = "prog:" + strings.Join(ss, ",")
	case 3, 4:
		var vs []string
		for range watchFiles {
			v := g.Intn(vFields + 1)
			if g.P(1, 8) {
				v |= vMoved
			}
			vs = append(vs, strconv.Itoa(v))
		}
		p.Project = "watch:" + strings.Join(vs, ",")
	case 5, 6:
		seed := 1 + g.Intn(1000)
		if prop == "C21" && g.P(3, 4) {
			seed += 1000
		}
		p.Project = "twins:" + strconv.Itoa(seed)
	case 7:
		p.Project = "testdata"
	case 8:
		p.Project = "validator"
		if prop == "C20" {
			p.Project = "testdata"
		}
	default:
		ex := examples()
		p.Project = ex[g.Intn(len(ex))]
	}
	files := project(p.Project)
	names := keys(files)
	var entries []string // files with something to generate
	for _, n := range names {
		if strings.Contains(files[n], "grpc/federation/") || g.P(1, 4) {
			entries = append(entries, n)
		}
	}
	if len(entries) == 0 {
		entries = names
	}
	shuffle(g, entries)
	if max := 1 + g.Intn(3); len(entries) > max {
		entries = entries[:max]
	}
	p.Entries = entries
	p.Prog = []string{"generator", "protoc", "linter"}[g.Intn(3)]
	if prop == "C20" && p.Prog == "linter" {
		p.Prog = []string{"generator", "protoc"}[g.Intn(2)]
	}
	p.Opt = []string{"paths=source_relative", "paths=import", "module=example"}[g.Intn(3)]
	if p.Prog == "generator" {
		p.Auto = g.P(1, 4)
		dirs := map[string]bool{}
		for _, e := range entries {
			dirs[path.Dir(e)] = true
		}
		p.Dirs = keys(dirs)
		if len(p.Dirs) == 1 && p.Dirs[0] == "." && len(names) > 12 {
			// everything below takes too long
			p.Dirs = entries
		}
	}
	if prop == "C21" {
		n := g.Intn(4)
		if strings.HasPrefix(p.Project, "twins") && g.P(2, 3) {
			n = 0
		}
		for ; n > 0; n-- {
			m := DetMut{File: names[g.Intn(len(names))], Seed: g.U64() >> 12}
			if g.P(1, 2) {
				m.File = entries[g.Intn(len(entries))]
			}
			if g.P(1, 4) {
				m.Kind = []string{"remove", "import", "twice", "cycle"}[g.Intn(4)]
			}
			p.Muts = append(p.Muts, m)
		}
	} else if g.P(1, 4) {
		p.Muts = append(p.Muts, DetMut{File: entries[g.Intn(len(entries))], Kind: "rewrite", Seed: g.U64() >> 12})
	}
	for n := 3 + g.Intn(2); n > 0; n-- {
		p.Execs = append(p.Execs, Exec{Map: 1 + g.U64()>>12, Procs: []int{1, 2, 3, 8}[g.Intn(4)], Perm: g.U64() >> 12})
	}
	p.Stalls = g.P(1, 3)
	if p.Prog == "generator" && prop == "C20" && g.P(1, 3) {
		p.Ext = 1 + g.Intn(2)
	}
	if prop == "C20" && g.P(1, 3) {
		p.Plugin = true
		p.Opt += ",plugins=file://plug0.wasm:" + digest(wasmOf(0))
		for i := range p.Execs {
			if p.Prog == "protoc" {
				// its request covers all files in the order of the request
				p.Execs[i].Perm = 0
			}
		}
	}
	return p
}

func examples() []string {
	if len(exampleNames) == 0 {
		ents, _ := corpus.ReadDir("corpus")
		for _, e := range ents {
			if strings.HasPrefix(e.Name(), "ex-") {
				exampleNames = append(exampleNames, e.Name())
			}
		}
	}
	return exampleNames
}

var exampleNames []string

func keys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func shuffle[T any](g *simrt.PRNG, s []T) {
	for i := len(s) - 1; i > 0; i-- {
		j := g.Intn(i + 1)
		s[i], s[j] = s[j], s[i]
	}
}

// sources of a plan after its mutations.
func (p *DetPlan) sources() map[string]string {
	files := map[string]string{}
	for n, t := range project(p.Project) {
		files[n] = t
	}
	for _, m := range p.Muts {
		g := simrt.NewPRNG(m.Seed)
		t, ok := files[m.File]
		if !ok {
			continue
		}
		switch m.Kind {
		case "remove":
			entry := false
			for _, e := range p.Entries {
				entry = entry || e == m.File
			}
			if !entry {
				delete(files, m.File)
			}
		case "import": // of something that is not there
			files[m.File] = strings.Replace(t, "\nimport ", fmt.Sprintf("\nimport \"no/such%d.proto\";\nimport ", g.Intn(3)), 1)
		case "twice": // the same names in another file
			n := path.Dir(m.File) + "/zz_" + path.Base(m.File)
			files[n] = t
			files[m.File] = strings.Replace(t, "\nimport ", fmt.Sprintf("\nimport %q;\nimport ", n), 1)
		case "cycle":
			names := keys(files)
			n := names[g.Intn(len(names))]
			files[n] = strings.Replace(files[n], "\nimport ", fmt.Sprintf("\nimport %q;\nimport ", m.File), 1)
		case "rewrite":
			files[m.File] = rewrite(g, t)
		default:
			files[m.File] = mutate(g, t)
		}
	}
	return files
}

func shrinkDet(p *DetPlan) []*DetPlan {
	var out []*DetPlan
	add := func(f func(*DetPlan)) {
		q := clone(p)
		f(q)
		out = append(out, q)
	}
	for i := 1; i < len(p.Execs) && len(p.Execs) > 2; i++ {
		add(func(q *DetPlan) { q.Execs = append(q.Execs[:i], q.Execs[i+1:]...) })
	}
	if p.Plugin {
		add(func(q *DetPlan) {
			q.Plugin = false
			q.Opt, _, _ = strings.Cut(q.Opt, ",plugins=")
		})
	}
	for i := range p.Muts {
		add(func(q *DetPlan) { q.Muts = append(q.Muts[:i], q.Muts[i+1:]...) })
	}
	for i := range p.Entries {
		if len(p.Entries) > 1 {
			add(func(q *DetPlan) { q.Entries = append(q.Entries[:i], q.Entries[i+1:]...) })
		}
	}
	for i := range p.Dirs {
		if len(p.Dirs) > 1 {
			add(func(q *DetPlan) { q.Dirs = append(q.Dirs[:i], q.Dirs[i+1:]...) })
		}
	}
	if p.Stalls {
		add(func(q *DetPlan) { q.Stalls = false })
	}
	if p.Ext > 0 {
		add(func(q *DetPlan) { q.Ext = 0 })
	}
	for i, e := range p.Execs {
		if e.Procs != 1 {
			add(func(q *DetPlan) { q.Execs[i].Procs = 1 })
		}
		if e.Perm != 0 {
			add(func(q *DetPlan) { q.Execs[i].Perm = 0 })
		}
		if i > 0 && e.Map != p.Execs[0].Map {
			add(func(q *DetPlan) { q.Execs[i].Map = q.Execs[0].Map })
		}
	}
	return out
}

// seen is what an execution leaves behind.
type seen struct {
	code  int
	said  string // what it prints
	order string // the same before sorting
	files map[string]string
	dup   string
	died  string
}

const detDir = "/w"

// request is what protoc sends to its plugin, the files in one of the orders
// protoc could choose.
func request(p *DetPlan, protos []*descriptorpb.FileDescriptorProto, perm uint64) []byte {
	req := &pluginpb.CodeGeneratorRequest{Parameter: proto.String(p.Opt + ",import_paths=" + detDir + "/src")}
	req.FileToGenerate = append(req.FileToGenerate, p.Entries...)
	if perm != 0 {
		g := simrt.NewPRNG(perm)
		shuffle(g, req.FileToGenerate)
		protos = append([]*descriptorpb.FileDescriptorProto{}, protos...)
		shuffle(g, protos)
	}
	by := map[string]*descriptorpb.FileDescriptorProto{}
	for _, f := range protos {
		by[f.GetName()] = f
	}
	done := map[string]bool{}
	var add func(f *descriptorpb.FileDescriptorProto)
	add = func(f *descriptorpb.FileDescriptorProto) {
		if f == nil || done[f.GetName()] {
			return
		}
		done[f.GetName()] = true
		for _, d := range f.GetDependency() {
			add(by[d])
		}
		req.ProtoFile = append(req.ProtoFile, f)
	}
	for _, f := range protos {
		add(f)
	}
	b, err := proto.Marshal(req)
	if err != nil {
		panic(err)
	}
	return b
}

func runDet(prop string, p *DetPlan, opt simrt.Options) *wk.Outcome {
	o := &wk.Outcome{Faults: map[string]int{}, Reach: map[string]int{}}
	simos.Reset()
	simnotify.Reset()
	simexec.Reset()
	installExt(extNames[p.Ext], nil, nil)
	simos.Cwd = detDir
	files := p.sources()
	install(detDir+"/src", files)
	install(detDir, map[string]string{"plug0.wasm": string(wasmOf(0))})
	keep := simos.Fork()
	opt.Horizon = 1000 * time.Hour
	opt.Stalls = p.Stalls
	opt.Grace = 10 * time.Minute
	var all []*seen
	bad := ""
	o.Res = simrt.Run(opt, func() {
		var protos []*descriptorpb.FileDescriptorProto
		if p.Prog == "protoc" {
			if protos, bad = compileAll(p.Entries, files); bad != "" {
				return
			}
		}
		for i, e := range p.Execs {
			simos.Restore(keep)
			keep = simos.Fork()
			simos.Cwd = detDir
			simrt.Event("execution %d: %d processors, order %d", i, e.Procs, e.Perm)
			runtime.SimMapSeed(e.Map)
			simrt.Procs = e.Procs
			all = append(all, execute(p, e, protos))
		}
	})
	simrt.Procs = 1
	o.Reach["program "+p.Prog]++
	if p.Plugin {
		o.Reach["with a plugin"]++
	}
	if p.Ext > 0 {
		o.Reach["with an installed protoc plugin"]++
	}
	kind, _, _ := strings.Cut(p.Project, ":")
	o.Reach["project "+kind]++
	o.Key = fmt.Sprint(prog.Hash(p.Prog, fmt.Sprint(files), fmt.Sprint(p.Entries), p.Opt))
	if o.Res.Hang || o.Res.StepCap {
		what := "hung"
		if o.Res.StepCap {
			what = "did not end within the step limit"
		}
		o.Add("hang", "an execution "+what+"\n"+clip(o.Res.HangDump), "C20", "C21")
		return o
	}
	if bad != "" {
		o.Reach[bad]++
		return o
	}
	for i := range p.Execs {
		o.Faults["map order"]++
		if p.Execs[i].Perm != 0 {
			o.Faults["listing order"]++
		}
	}
	for i, s := range all {
		if s.died != "" {
			o.Reach["died"]++
			if os.Getenv("SIM_DIED") != "" {
				fmt.Fprintf(os.Stderr, "DIED %s\nPLAN %s %v %v\n", s.died, p.Project, p.Entries, p.Muts)
			}
			s.said, s.order = strings.SplitN(s.died, "\n", 2)[0], ""
		}
		if s.dup != "" {
			o.Add("duplicate-output", fmt.Sprintf("execution %d returns %s twice with different contents", i, s.dup), "C20")
		}
		if i == 0 {
			if s.code == 0 {
				o.Reach["succeeded"]++
				o.Reach["succeeded "+kind]++
			} else {
				o.Reach["rejected"]++
				if os.Getenv("SIM_DIED") == "2" && kind == "twins" {
					fmt.Fprintf(os.Stderr, "REJECTED %s %s %v: %s\n", p.Project, p.Prog, p.Entries, clip(s.said))
				}
			}
			o.Reach["output files"] += len(s.files)
			continue
		}
		f := all[0]
		o.Checks++
		if s.code != f.code {
			o.Add("verdict", fmt.Sprintf("%s with the same sources: execution 0 ended with %d, execution %d with %d\n%s\n---\n%s", p.Prog, f.code, i, s.code, f.said, s.said), "C20", "C21")
			continue
		}
		if d := diffFiles(f.files, s.files); d != "" {
			o.Add("output", fmt.Sprintf("%s with the same sources: executions 0 and %d differ: %s", p.Prog, i, d), "C20")
		}
		if s.said != f.said {
			o.Add("diagnostics", fmt.Sprintf("%s with the same sources: execution 0 says\n%s\n--- execution %d says\n%s", p.Prog, f.said, i, s.said), "C21")
		} else if s.order != f.order && s.order != "" && f.order != "" {
			o.Add("diagnostics-order", fmt.Sprintf("%s with the same sources: execution 0 says\n%s\n--- execution %d says\n%s", p.Prog, f.order, i, s.order), "C21")
		}
	}
	return o
}

// config is the generator's configuration.
func (p *DetPlan) config(perm uint64) string {
	dirs := append([]string{}, p.Dirs...)
	if perm != 0 {
		shuffle(simrt.NewPRNG(perm), dirs)
	}
	var b strings.Builder
	b.WriteString("imports:\n  - src\nsrc:\n")
	for _, d := range dirs {
		fmt.Fprintf(&b, "  - src/%s\n", d)
	}
	b.WriteString("out: out\n")
	if !p.Auto || p.Plugin || p.Ext == 1 {
		b.WriteString("plugins:\n")
		names := []string{"go", "go-grpc", "grpc-federation"}
		if p.Ext == 1 {
			names = append(names, "ext")
		}
		for _, pl := range names {
			opt := p.Opt
			if pl != "grpc-federation" {
				opt, _, _ = strings.Cut(opt, ",")
			}
			fmt.Fprintf(&b, "  - plugin: %s\n    opt: %q\n", pl, opt)
		}
	}
	return b.String()
}

// compileAll makes what protoc sends for some files.
func compileAll(entries []string, files map[string]string) (protos []*descriptorpb.FileDescriptorProto, bad string) {
	got := map[string]bool{}
	for _, e := range entries {
		f, err := source.NewFile(detDir+"/src/"+e, []byte(files[e]))
		if err != nil {
			return nil, "not compiled"
		}
		fs, err := compiler.New().Compile(context.Background(), f, compiler.ImportPathOption(detDir+"/src"))
		if err != nil {
			return nil, "not compiled"
		}
		for _, f := range fs {
			if !got[f.GetName()] {
				got[f.GetName()] = true
				protos = append(protos, f)
			}
		}
	}
	if _, err := protodesc.NewFiles(&descriptorpb.FileDescriptorSet{File: protos}); err != nil {
		// not what protoc sends
		return nil, "not compiled"
	}
	return protos, ""
}

// execute runs the program once.
func execute(p *DetPlan, e Exec, protos []*descriptorpb.FileDescriptorProto) *seen {
	s := &seen{files: map[string]string{}}
	var proc *Proc
	var calls []exchange
	wazero.SimGuest = func([]byte) (wazero.SimProgram, error) {
		return func(_ context.Context, stdin io.Reader, _ io.Writer) (uint32, error) {
			calls = append(calls, receive(stdin))
			return 0, nil
		}, nil
	}
	defer func() {
		seen := map[string]int{}
		for _, x := range calls {
			n := "request of the plugin for " + x.req.GetProtoPath()
			seen[n]++
			s.files[fmt.Sprintf("%s (%d)", n, seen[n])] = x.bad + prototext.Format(x.req)
		}
	}()
	switch p.Prog {
	case "generator":
		install(detDir, map[string]string{"grpc-federation.yaml": p.config(e.Perm)})
		proc = start("generator", nil, nil, "src/"+p.Entries[0])
	case "linter":
		args := []string{"-I", "src"}
		for _, e := range p.Entries {
			args = append(args, "src/"+e)
		}
		proc = start("linter", nil, nil, args...)
	case "protoc":
		in := simos.NewStream("/dev/stdin", bytes.NewReader(request(p, protos, e.Perm)), nil)
		proc = start("protoc", in, nil)
	}
	<-proc.Done
	// abandoned work of this execution
	time.Sleep(time.Minute)
	s.code, s.died = proc.Code, proc.Died
	var lines []string
	for _, l := range strings.Split(proc.Err.String(), "\n") {
		if strings.HasPrefix(l, "compile ") || strings.HasPrefix(l, "write ") {
			continue
		}
		lines = append(lines, l)
	}
	if p.Prog == "protoc" {
		if s.code == 0 {
			var resp pluginpb.CodeGeneratorResponse
			if err := proto.Unmarshal([]byte(proc.Out.String()), &resp); err != nil {
				lines = append(lines, "malformed response: "+err.Error())
			}
			for _, f := range resp.GetFile() {
				if old, ok := s.files[f.GetName()]; ok && old != f.GetContent() {
					s.dup = f.GetName()
				}
				s.files[f.GetName()] = f.GetContent()
			}
			lines = append(lines, "error: "+resp.GetError())
		}
		if e.Perm == 0 {
			s.order = strings.Join(lines, "\n")
		}
		// files can be listed in any order
		sort.Strings(lines)
		s.said = strings.Join(lines, "\n")
		return s
	}
	lines = append(lines, "--- standard output", proc.Out.String())
	s.said = strings.Join(lines, "\n")
	s.files = simos.Snapshot(detDir + "/out")
	return s
}

func diffFiles(a, b map[string]string) string {
	names := map[string]bool{}
	for n := range a {
		names[n] = true
	}
	for n := range b {
		names[n] = true
	}
	for _, n := range keys(names) {
		x, inA := a[n]
		y, inB := b[n]
		if inA != inB {
			return fmt.Sprintf("%s exists: %v / %v", n, inA, inB)
		}
		if x != y {
			xs, ys := strings.Split(x, "\n"), strings.Split(y, "\n")
			for i := range xs {
				if i >= len(ys) || xs[i] != ys[i] {
					other := "(end)"
					if i < len(ys) {
						other = ys[i]
					}
					return fmt.Sprintf("%s line %d:\n  %s\n  %s", n, i+1, xs[i], other)
				}
			}
			return n + " is longer"
		}
	}
	return ""
}
