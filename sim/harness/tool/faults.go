//go:build simruntime

package tool

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net/http"
	"path"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/tetratelabs/wazero"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	"github.com/mercari/grpc-federation/grpc/federation/generator/plugin"

	"verif.local/harness/wk"
	"verif.local/sim/prog"
	"verif.local/sim/simexec"
	"verif.local/sim/simnotify"
	"verif.local/sim/simos"
	"verif.local/sim/simrt"
)

// FaultPlan is one generation under faults, followed by one without.
type FaultPlan struct {
	Prog    string     `json:"prog"` // generator, protoc
	Project string     `json:"project"`
	Entries []string   `json:"entries"`
	Dirs    []string   `json:"dirs,omitempty"`
	Opt     string     `json:"opt"`
	Plugins []FPlug    `json:"plugins,omitempty"`
	FS      []FSFault  `json:"fs,omitempty"`
	Net     []NetFault `json:"net,omitempty"`
	Guest   []NetFault `json:"guest,omitempty"` // Fetch is the execution
	Ext     int        `json:"ext,omitempty"`   // installed protoc plugin
	Exec    []NetFault `json:"exec,omitempty"`  // Fetch is its execution
	Crash   int        `json:"crash,omitempty"` // file-system operation (modulo those of a clean run) at which the process is killed, from 1
	Torn    int        `json:"torn,omitempty"`
	Out     int        `json:"stdout,omitempty"` // bytes of standard output that get out (modulo), from 1
	In      int        `json:"stdin,omitempty"`  // bytes of standard input that arrive (modulo), from 1
	Errno   string     `json:"errno,omitempty"`  // of Out and In
	Stale   int        `json:"stale,omitempty"`  // what is in the output directory before: 1 nothing, 2 garbage, 3 results of a former run
}

// FPlug is a code-generation plugin.
type FPlug struct {
	Scheme string `json:"scheme"`
	V      int    `json:"v"`                // contents
	Digest string `json:"digest,omitempty"` // wrong, upper, empty
}

// FSFault makes the Nth (modulo those of a clean run) operation fail.
type FSFault struct {
	Op      string `json:"op"`
	Where   string `json:"where"`
	Nth     int    `json:"nth"`
	Err     string `json:"err"`
	Partial int    `json:"partial,omitempty"`
	Sticky  bool   `json:"sticky,omitempty"`
}

// NetFault concerns the Fetch-th request.
type NetFault struct {
	Fetch int    `json:"i"`
	Kind  string `json:"k"`
	N     int    `json:"n,omitempty"`
}

var errnos = map[string]syscall.Errno{"ENOSPC": syscall.ENOSPC, "EIO": syscall.EIO, "EACCES": syscall.EACCES, "EROFS": syscall.EROFS, "EMFILE": syscall.EMFILE, "EDQUOT": syscall.EDQUOT, "EPIPE": syscall.EPIPE, "EINTR": syscall.EINTR, "ENOMEM": syscall.ENOMEM}

func planFaults(g *simrt.PRNG) *FaultPlan {
	d := planDet("C20", g)
	d.Opt, _, _ = strings.Cut(d.Opt, ",plugins=")
	p := &FaultPlan{Project: d.Project, Entries: d.Entries, Dirs: d.Dirs, Opt: d.Opt, Prog: d.Prog, Stale: 1 + g.Intn(3)}
	if p.Prog == "generator" && g.P(1, 2) {
		// more to write
		vs := []string{}
		for range watchFiles {
			vs = append(vs, strconv.Itoa(g.Intn(vFields+1)))
		}
		p.Project = "watch:" + strings.Join(vs, ",")
		p.Entries = []string{"fed/fed.proto"}
		p.Dirs = []string{"fed", "backend", "common", "rule"}
	}
	if g.P(2, 3) {
		for n := 1 + g.Intn(3); n > 0; n-- {
			x := FPlug{Scheme: []string{"file", "http", "https"}[g.Intn(3)], V: g.Intn(3)}
			if g.P(1, 8) {
				x.Digest = []string{"wrong", "wrong", "upper", "empty"}[g.Intn(4)]
			}
			p.Plugins = append(p.Plugins, x)
		}
	}
	if p.Prog == "protoc" && len(p.Plugins) == 0 || g.P(1, 12) {
		n := 1 + g.Intn(1<<16)
		p.Errno = []string{"ENOSPC", "EIO", "EPIPE"}[g.Intn(3)]
		if p.Prog == "protoc" && g.P(1, 4) {
			p.In = n
		} else if p.Prog == "protoc" {
			p.Out = n
		}
	}
	errs := func(op string) string {
		switch op {
		case "write":
			return []string{"ENOSPC", "EIO", "EDQUOT"}[g.Intn(3)]
		case "mkdir":
			return []string{"ENOSPC", "EACCES", "EROFS"}[g.Intn(3)]
		case "open":
			return []string{"EMFILE", "EACCES", "EROFS", "EIO"}[g.Intn(4)]
		}
		return []string{"EIO", "EACCES", "ENOMEM"}[g.Intn(3)]
	}
	fetched := false
	for _, x := range p.Plugins {
		fetched = fetched || x.Scheme != "file"
	}
	for n := g.Intn(3); n > 0; n-- {
		f := FSFault{Op: []string{"write", "write", "open", "mkdir", "close", "stat", "read", "readdir"}[g.Intn(8)], Nth: g.Intn(1 << 16), Partial: g.Intn(1 << 14), Sticky: g.P(1, 4)}
		f.Where = []string{"out", "out", "out", "src", "any"}[g.Intn(5)]
		if len(p.Plugins) > 0 && g.P(1, 2) {
			f.Where = []string{"tmp", "plugin", "wasm"}[g.Intn(3)]
		}
		f.Err = errs(f.Op)
		p.FS = append(p.FS, f)
	}
	if fetched && g.P(2, 3) {
		for n := 1 + g.Intn(2); n > 0; n-- {
			p.Net = append(p.Net, NetFault{Fetch: g.Intn(4), N: g.Intn(1 << 12), Kind: []string{
				"404", "500", "503", "500+body", "truncated", "truncated", "cut", "flip", "reset", "refused", "slow", "redirect", "loop", "empty", "extra", "swap", "204"}[g.Intn(17)]})
		}
	}
	if len(p.Plugins) > 0 && g.P(1, 4) {
		p.Guest = append(p.Guest, NetFault{Fetch: g.Intn(6), Kind: []string{"exit", "trap", "lazy", "slow"}[g.Intn(4)]})
	}
	if p.Prog == "generator" && g.P(1, 3) {
		p.Ext = 1 + g.Intn(2)
		if g.P(2, 3) {
			for n := 1 + g.Intn(2); n > 0; n-- {
				p.Exec = append(p.Exec, NetFault{Fetch: g.Intn(5), Kind: []string{"early", "exit", "exit late", "killed", "garbage", "error", "slow", "start"}[g.Intn(8)], N: g.Intn(4)})
			}
		}
	}
	if p.Prog == "generator" && g.P(1, 4) {
		p.Crash, p.Torn = 1+g.Intn(1<<16), g.Intn(1<<14)
	}
	return p
}

func shrinkFaults(p *FaultPlan) []*FaultPlan {
	var out []*FaultPlan
	add := func(f func(*FaultPlan)) {
		q := clone(p)
		f(q)
		out = append(out, q)
	}
	for i := range p.FS {
		add(func(q *FaultPlan) { q.FS = append(q.FS[:i], q.FS[i+1:]...) })
	}
	for i := range p.Net {
		add(func(q *FaultPlan) { q.Net = append(q.Net[:i], q.Net[i+1:]...) })
	}
	for i := range p.Guest {
		add(func(q *FaultPlan) { q.Guest = append(q.Guest[:i], q.Guest[i+1:]...) })
	}
	for i := range p.Exec {
		add(func(q *FaultPlan) { q.Exec = append(q.Exec[:i], q.Exec[i+1:]...) })
	}
	if p.Ext > 0 && len(p.Exec) == 0 {
		add(func(q *FaultPlan) { q.Ext = 0 })
	}
	for i, x := range p.Plugins {
		add(func(q *FaultPlan) { q.Plugins = append(q.Plugins[:i], q.Plugins[i+1:]...) })
		if x.Digest != "" {
			add(func(q *FaultPlan) { q.Plugins[i].Digest = "" })
		}
	}
	for i := range p.Dirs {
		if len(p.Dirs) > 1 {
			add(func(q *FaultPlan) { q.Dirs = append(q.Dirs[:i], q.Dirs[i+1:]...) })
		}
	}
	for i := range p.Entries {
		if len(p.Entries) > 1 {
			add(func(q *FaultPlan) { q.Entries = append(q.Entries[:i], q.Entries[i+1:]...) })
		}
	}
	if p.Crash != 0 {
		add(func(q *FaultPlan) { q.Crash = 0 })
		if p.Torn != 0 {
			add(func(q *FaultPlan) { q.Torn = 0 })
		}
	}
	if p.Out != 0 {
		add(func(q *FaultPlan) { q.Out = 0 })
	}
	if p.In != 0 {
		add(func(q *FaultPlan) { q.In = 0 })
	}
	if p.Stale != 1 {
		add(func(q *FaultPlan) { q.Stale = 1 })
	}
	for i, f := range p.FS {
		if f.Sticky {
			add(func(q *FaultPlan) { q.FS[i].Sticky = false })
		}
		if f.Partial != 0 {
			add(func(q *FaultPlan) { q.FS[i].Partial = 0 })
		}
	}
	return out
}

// wasmOf is a plugin's contents.
func wasmOf(v int) []byte {
	return []byte("\x00asm\x01\x00\x00\x00" + strings.Repeat(fmt.Sprintf("plugin %d ", v), 40+v*500))
}

func digest(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])
}

// exchange is one execution of a plugin.
type exchange struct {
	hash string
	req  *plugin.CodeGeneratorRequest
	size int
	bad  string
}

// receive reads a request.
func receive(r io.Reader) exchange {
	b, err := io.ReadAll(r)
	x := exchange{size: len(b), req: &plugin.CodeGeneratorRequest{}}
	if err == nil {
		err = proto.Unmarshal(b, x.req)
	}
	if err != nil {
		x.bad = err.Error()
	}
	return x
}

// world is what surrounds the program.
type world struct {
	p      *FaultPlan
	faulty bool
	calls  []exchange
	exts   []extCall
	execs  int
	fetch  int
	effect map[string]int // faults that took effect
	named  []string       // every effective fault and what its error has to mention one of
	any    [][]string
	counts map[int]int // operations matching FS[i] so far
	totals map[int]int // of the clean run
	ops    int
	allOps int
	hit    map[int]bool
	dead   chan struct{}
	crash  bool
}

func where(p string) string {
	switch {
	case strings.HasPrefix(p, detDir+"/out"):
		return "out"
	case strings.HasPrefix(p, detDir+"/src"):
		return "src"
	case strings.HasPrefix(p, detDir+"/plug"):
		return "plugin"
	case strings.HasPrefix(p, "/tmp/grpc-federation-code"):
		return "tmp"
	case strings.HasPrefix(p, "/tmp"):
		return "wasm"
	}
	return "other"
}

func (w *world) took(kind string, mention ...string) {
	w.effect[kind]++
	w.any = append(w.any, append([]string{kind}, mention...))
	simrt.Event("fault: %s %v", kind, mention)
}

func (w *world) hook(op simos.Op) *simos.Fault {
	at := where(op.Path)
	w.ops++
	if w.faulty && w.p.Crash > 0 && w.allOps > 0 && w.ops == 1+w.p.Crash%w.allOps && !w.crash {
		w.crash = true
		w.effect["crash"]++
		simrt.Event("the process is killed at %s %s", op.Name, op.Path)
		close(w.dead)
		if op.Name == "write" {
			return &simos.Fault{Err: errKilled, Partial: w.p.Torn % (op.N + 1)}
		}
		select {}
	}
	if w.crash {
		select {}
	}
	for i, f := range w.p.FS {
		if f.Op != op.Name || f.Where != "any" && f.Where != at {
			continue
		}
		n := w.counts[i]
		w.counts[i]++
		if !w.faulty || w.totals[i] == 0 {
			continue
		}
		if n == f.Nth%w.totals[i] || f.Sticky && w.hit[i] {
			w.hit[i] = true
			e := errnos[f.Err]
			w.took(op.Name+" "+f.Err+" in "+at, path.Base(op.Path), e.Error())
			return &simos.Fault{Err: e, Partial: f.Partial % (op.N + 1)}
		}
	}
	return nil
}

var errKilled = errors.New("killed")

type roundTripper struct{ w *world }

func (r roundTripper) RoundTrip(req *http.Request) (*http.Response, error) {
	w := r.w
	n := w.fetch
	w.fetch++
	simrt.Event("fetch %d: %s", n, req.URL)
	simrt.Yield()
	time.Sleep(20 * time.Millisecond)
	name := path.Base(req.URL.Path)
	var v int
	if _, err := fmt.Sscanf(name, "p%d.wasm", &v); err != nil || req.URL.Host != "plugins.example" {
		return nil, fmt.Errorf("no such host %s", req.URL.Host)
	}
	body := wasmOf(v)
	resp := &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req, ContentLength: int64(len(body))}
	var end error = io.EOF
	kind, arg := "", 0
	if w.faulty {
		for _, f := range w.p.Net {
			if f.Fetch == n {
				kind, arg = f.Kind, f.N
			}
		}
	}
	url := req.URL.String()
	switch kind {
	case "404", "500", "503", "204":
		resp.StatusCode, _ = strconv.Atoi(kind)
		body = []byte("<html>" + http.StatusText(resp.StatusCode) + "</html>")
		if kind == "204" {
			body = nil
		}
		resp.ContentLength = int64(len(body))
		w.took("status "+kind, url, kind)
	case "500+body":
		resp.StatusCode = 500
		w.took("status 500 with the right body", url, "500")
	case "truncated":
		body = body[:arg%len(body)]
		end = io.ErrUnexpectedEOF
		w.took("truncated body")
	case "cut":
		body = body[:arg%len(body)]
		resp.ContentLength = -1
		w.took("body cut without notice")
	case "flip":
		body[arg%len(body)] ^= 1 << (arg % 8)
		w.took("altered body")
	case "swap":
		body = wasmOf(v + 3)
		resp.ContentLength = int64(len(body))
		w.took("another body")
	case "extra":
		body = append(body, "\n"...)
		resp.ContentLength = int64(len(body))
		w.took("longer body")
	case "empty":
		body = nil
		resp.ContentLength = 0
		w.took("empty body")
	case "reset":
		body = body[:arg%len(body)]
		end = syscall.ECONNRESET
		w.took("connection reset")
	case "refused":
		w.took("connection refused", "refused")
		return nil, syscall.ECONNREFUSED
	case "redirect":
		w.effect["redirect"]++
		resp.StatusCode = 302
		resp.Header.Set("Location", "/other/"+name)
		body = nil
	case "loop":
		resp.StatusCode = 302
		resp.Header.Set("Location", req.URL.String())
		body = nil
		w.fetch-- // the next request is the same
		if w.effect["redirect loop"] == 0 {
			w.took("redirect loop")
		}
	case "slow":
		w.effect["slow network"]++
		time.Sleep(time.Hour)
	}
	resp.Status = fmt.Sprintf("%d %s", resp.StatusCode, http.StatusText(resp.StatusCode))
	resp.Body = &netBody{b: body, end: end}
	return resp, nil
}

type netBody struct {
	b   []byte
	end error
	n   int
}

func (b *netBody) Read(p []byte) (int, error) {
	simrt.Yield()
	if len(b.b) == 0 {
		return 0, b.end
	}
	b.n++
	n := min(len(p), len(b.b), 1+(b.n*977)%3000)
	copy(p, b.b[:n])
	b.b = b.b[n:]
	return n, nil
}

func (b *netBody) Close() error { return nil }

// guest runs a plugin.
func (w *world) guest(binary []byte) (wazero.SimProgram, error) {
	if !bytes.HasPrefix(binary, []byte("\x00asm\x01\x00\x00\x00")) {
		return nil, errors.New("invalid magic number")
	}
	return func(ctx context.Context, stdin io.Reader, stdout io.Writer) (uint32, error) {
		n := len(w.calls)
		x := exchange{}
		kind := ""
		if w.faulty {
			for _, f := range w.p.Guest {
				if f.Fetch == n {
					kind = f.Kind
				}
			}
		}
		if kind == "lazy" {
			// it does not need to know
			w.effect["plugin that reads nothing"]++
			x.bad = "lazy"
		} else {
			x = receive(stdin)
		}
		x.hash = digest(binary)
		simrt.Event("plugin %s is executed, request of %d bytes", x.hash[:8], x.size)
		w.calls = append(w.calls, x)
		fmt.Fprintf(stdout, "plugin %s\n", x.hash[:8])
		switch kind {
		case "exit":
			w.took("plugin exits with an error", "exit_code")
			return 1, nil
		case "trap":
			w.took("plugin traps", "unreachable")
			return 0, errors.New("wasm error: unreachable")
		case "slow":
			w.effect["slow plugin"]++
			time.Sleep(time.Hour)
		}
		return 0, nil
	}, nil
}

// install installs the protoc plugin.
func (w *world) install() {
	fault := func(start bool) string {
		for _, f := range w.p.Exec {
			if w.faulty && f.Fetch == w.execs && (f.Kind == "start") == start {
				return f.Kind
			}
		}
		return ""
	}
	simexec.Reset()
	simexec.FailStart = func(name string) error {
		if fault(true) == "" {
			return nil
		}
		w.execs++
		w.took("plugin cannot be started", syscall.EACCES.Error(), name)
		return syscall.EACCES
	}
	installExt(extNames[w.p.Ext], func() (string, time.Duration) {
		k := fault(false)
		w.execs++
		switch k {
		case "slow":
			w.effect["slow installed plugin"]++
			return "", time.Hour
		case "early", "exit", "exit late":
			w.took("installed plugin fails: "+k, extFailure, "exit status")
		case "killed":
			w.took("installed plugin is killed", "killed")
		case "garbage":
			w.took("installed plugin answers garbage", "proto", extNames[w.p.Ext])
		case "error":
			w.took("installed plugin answers with an error", extFailure)
		}
		return k, 0
	}, func(x extCall) { w.exts = append(w.exts, x) })
}

// outcome of an execution.
type outcome struct {
	code  int
	err   string
	files map[string]string
	died  string
	hung  bool
	calls []exchange
	exts  []extCall
}

type limited struct {
	w    io.Writer
	left int
	err  error
	hit  func()
}

func (l *limited) Write(b []byte) (int, error) {
	if len(b) > l.left {
		n, _ := l.w.Write(b[:l.left])
		l.left = 0
		l.hit()
		return n, l.err
	}
	l.left -= len(b)
	return l.w.Write(b)
}

func (p *FaultPlan) opt() string {
	parts := []string{p.Opt, "import_paths=" + detDir + "/src"}
	for i, x := range p.Plugins {
		d := digest(wasmOf(x.V))
		switch x.Digest {
		case "wrong":
			d = digest(wasmOf(x.V + 1))
		case "upper":
			d = strings.ToUpper(d)
		case "empty":
			d = ""
		}
		u := fmt.Sprintf("plugins.example/%d/p%d.wasm", i, x.V)
		if x.Scheme == "file" {
			u = fmt.Sprintf("plug%d.wasm", x.V)
		}
		parts = append(parts, "plugins="+x.Scheme+"://"+u+":"+d)
	}
	return strings.Join(parts, ",")
}

// once runs the program one time.
func (w *world) once(protos []*descriptorpb.FileDescriptorProto, clean *outcome) *outcome {
	p := w.p
	r := &outcome{}
	w.calls, w.fetch, w.ops, w.crash, w.dead = nil, 0, 0, false, make(chan struct{})
	w.counts, w.hit = map[int]int{}, map[int]bool{}
	http.DefaultTransport = roundTripper{w}
	wazero.SimGuest = w.guest
	simos.Hook = w.hook
	simos.Cwd = detDir
	w.exts, w.execs = nil, 0
	w.install()
	var proc *Proc
	var out bytes.Buffer
	switch p.Prog {
	case "generator":
		proc = start("generator", nil, nil, "src/"+p.Entries[0])
	case "protoc":
		d := &DetPlan{Entries: p.Entries, Opt: p.opt()}
		in := request(d, protos, 0)
		var rd io.Reader = bytes.NewReader(in)
		var wr io.Writer = &out
		if w.faulty && p.In > 0 && len(in) > 0 {
			e := errnos[p.Errno]
			rd = io.MultiReader(bytes.NewReader(in[:p.In%len(in)]), failing{e, func() { w.took("reading the request fails", e.Error()) }})
		}
		if w.faulty && p.Out > 0 && clean != nil && len(clean.files[""]) > 0 {
			e := errnos[p.Errno]
			wr = &limited{w: &out, left: p.Out % len(clean.files[""]), err: &simos.PathError{Op: "write", Path: "/dev/stdout", Err: e}, hit: func() { w.took("writing the response fails", e.Error(), "stdout") }}
		}
		proc = start("protoc", simos.NewStream("/dev/stdin", rd, nil), simos.NewStream("/dev/stdout", nil, wr))
	}
	exit := simos.ExitFn
	simos.ExitFn = func(code int) {
		if w.crash {
			select {}
		}
		exit(code)
	}
	t := time.NewTimer(200 * time.Hour)
	select {
	case <-proc.Done:
	case <-w.dead:
		time.Sleep(time.Minute) // what is left of the process stops at its next operation
	case <-t.C:
		r.hung = true
	}
	t.Stop()
	simos.Hook = nil
	r.code, r.died, r.err, r.calls = proc.Code, proc.Died, proc.Err.String(), w.calls
	r.exts = w.exts
	if p.Prog == "protoc" {
		r.files = map[string]string{"": out.String()}
	} else {
		r.files = simos.Snapshot(detDir + "/out")
	}
	return r
}

type failing struct {
	err error
	hit func()
}

func (f failing) Read([]byte) (int, error) {
	f.hit()
	return 0, f.err
}

func runFaults(p *FaultPlan, opt simrt.Options) *wk.Outcome {
	o := &wk.Outcome{Faults: map[string]int{}, Reach: map[string]int{}}
	simos.Reset()
	simnotify.Reset()
	simexec.Reset()
	simos.Cwd = detDir
	opt.Horizon = 1000 * time.Hour
	opt.Grace = time.Minute
	d := &DetPlan{Prog: p.Prog, Project: p.Project, Entries: p.Entries, Dirs: p.Dirs, Opt: p.opt(), Ext: p.Ext}
	files := d.sources()
	install(detDir+"/src", files)
	install(detDir, map[string]string{"grpc-federation.yaml": d.config(0)})
	for v := 0; v < 4; v++ {
		install(detDir, map[string]string{fmt.Sprintf("plug%d.wasm", v): string(wasmOf(v))})
	}
	fresh := simos.Fork()
	w := &world{p: p, effect: map[string]int{}}
	var clean, first, second *outcome
	bad := ""
	o.Res = simrt.Run(opt, func() {
		var protos []*descriptorpb.FileDescriptorProto
		if p.Prog == "protoc" {
			if protos, bad = compileAll(p.Entries, files); bad != "" {
				return
			}
		}
		simrt.Event("--- without faults")
		clean = w.once(protos, nil)
		w.totals, w.allOps = w.counts, w.ops
		generated := clean.files
		simos.Restore(fresh)
		if p.Prog == "generator" {
			switch p.Stale {
			case 2:
				m := map[string]string{}
				for n, t := range generated {
					m[strings.TrimPrefix(n, detDir+"/")] = "// garbage\n" + t
				}
				install(detDir, m)
			case 3:
				m := map[string]string{}
				for n, t := range generated {
					m[strings.TrimPrefix(n, detDir+"/")] = t
				}
				install(detDir, m)
			}
		}
		simrt.Event("--- with faults")
		w.faulty = true
		first = w.once(protos, clean)
		w.faulty = false
		if p.Prog == "generator" && p.Stale == 3 && w.effect["crash"] == 0 {
			o.Reach["over former results"]++
		}
		simrt.Event("--- afterwards")
		second = w.once(protos, clean)
	})
	o.Reach["program "+p.Prog]++
	o.Key = fmt.Sprint(prog.Hash(p.Prog, fmt.Sprint(files), fmt.Sprint(p)))
	if bad != "" {
		o.Reach[bad]++
		return o
	}
	for k, n := range w.effect {
		o.Faults[k] += n
	}
	if o.Res.Hang || o.Res.StepCap || clean == nil || first == nil || second == nil {
		o.Add("hang", "an execution did not end\n"+clip(o.Res.HangDump), "C22")
		return o
	}
	sum := func(r *outcome) string {
		return fmt.Sprintf("exit code %d, %d outputs, %d plugin executions, said:\n%s", r.code, len(r.files), len(r.calls), clip(r.err))
	}
	wrong := false
	for _, x := range p.Plugins {
		wrong = wrong || x.Digest != ""
	}
	for i, r := range []*outcome{clean, first, second} {
		what := []string{"without faults", "under faults", "after the faults"}[i]
		o.Checks++
		if r.died != "" {
			o.Add("panic", "the program panics "+what+": "+clip(r.died), "C22")
			return o
		}
		if r.hung {
			o.Add("hang", "the program does not end "+what, "C22")
			return o
		}
		for _, x := range r.calls {
			ok := false
			for _, pl := range p.Plugins {
				ok = ok || pl.Digest == "" && x.hash == digest(wasmOf(pl.V))
			}
			if !ok {
				o.Add("wrong-plugin", fmt.Sprintf("%s a plugin with digest %s is executed, which is not configured", what, x.hash), "C22")
			}
		}
		if r.code == 0 && wrong {
			if p.Prog == "protoc" || len(clean.calls) > 0 {
				o.Add("digest-ignored", what+" generation succeeds although the digest of a plugin does not match", "C22")
			}
		}
		if i == 0 || r.code == 0 {
			for _, x := range r.exts {
				if x.bad != "" {
					o.Add("plugin-requests", what+" an installed plugin gets a bad request: "+x.bad, "C22")
				}
			}
		}
		if r.code == 0 {
			o.Checks++
			if msg := plugged(p, r); msg != "" && (i == 0 || w.effect["plugin that reads nothing"] == 0) {
				o.Add("plugin-requests", what+" generation succeeds but "+msg+"\n"+sum(r), "C22")
			}
		}
	}
	if clean.code != 0 {
		o.Reach["rejected"]++
		return o
	}
	o.Reach["generated"]++
	o.Reach["plugin executions"] += len(clean.calls)
	o.Reach["installed plugin executions"] += len(clean.exts)
	o.Checks += 3
	if w.effect["crash"] == 0 {
		if first.code == 0 {
			if msg := lacks(p, clean, first); msg != "" {
				o.Add("silent", fmt.Sprintf("generation reports success although %s\nfaults: %v\n%s", msg, w.any, sum(first)), "C22")
			}
			if len(w.any) > 0 {
				o.Reach["absorbed"]++
			}
		} else {
			o.Reach["reported"]++
			if len(w.any) == 0 {
				o.Add("spurious", "generation fails although nothing went wrong\n"+sum(first), "C22")
			} else if !names(first.err, w.any) {
				o.Add("unnamed", fmt.Sprintf("the error does not name what went wrong\nfaults: %v\n%s", w.any, sum(first)), "C22")
			}
		}
	}
	if second.code != 0 {
		o.Add("fails-afterwards", "a fault-free generation after a failed one fails\n"+sum(second), "C22")
	} else if msg := lacks(p, clean, second); msg != "" {
		o.Add("incomplete-rerun", "after a fault-free generation following a failed one "+msg+"\n"+sum(second), "C22")
	}
	return o
}

// lacks tells how r's outputs and plugin executions differ from those of a
// clean run.
func lacks(p *FaultPlan, clean, r *outcome) string {
	if p.Prog == "protoc" {
		var a, b pluginpb.CodeGeneratorResponse
		if err := proto.Unmarshal([]byte(r.files[""]), &b); err != nil {
			return "the response is malformed: " + err.Error()
		}
		if err := proto.Unmarshal([]byte(clean.files[""]), &a); err != nil || !proto.Equal(&a, &b) {
			return fmt.Sprintf("the response has %d files instead of %d", len(b.File), len(a.File))
		}
	} else {
		for _, n := range keys(clean.files) {
			t, ok := r.files[n]
			if !ok {
				return n + " is missing"
			}
			if t != clean.files[n] {
				return fmt.Sprintf("%s is wrong (%d bytes instead of %d)", n, len(t), len(clean.files[n]))
			}
		}
	}
	if len(r.exts) != len(clean.exts) {
		return fmt.Sprintf("installed plugins were executed %d instead of %d times", len(r.exts), len(clean.exts))
	}
	for i, x := range r.exts {
		if x.bad != "" {
			return "an installed plugin got a bad request: " + x.bad
		}
		if y := clean.exts[i]; !proto.Equal(x.req, y.req) {
			return fmt.Sprintf("execution %d of an installed plugin got a different request", i)
		}
	}
	if len(r.calls) != len(clean.calls) {
		return fmt.Sprintf("plugins were executed %d instead of %d times", len(r.calls), len(clean.calls))
	}
	for i, x := range r.calls {
		y := clean.calls[i]
		if x.hash != y.hash {
			return fmt.Sprintf("execution %d was of plugin %s instead of %s", i, x.hash[:8], y.hash[:8])
		}
		if x.bad != "lazy" && !proto.Equal(x.req, y.req) {
			return fmt.Sprintf("plugin execution %d got a different request (%d bytes instead of %d): %s", i, x.size, y.size, diffText(prototext.Format(y.req), prototext.Format(x.req)))
		}
	}
	return ""
}

// diffText is the first difference.
func diffText(a, b string) string {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range as {
		if i >= len(bs) || as[i] != bs[i] {
			from := max(0, i-6)
			return fmt.Sprintf("from line %d:\n%s\ninstead of\n%s", i+1, strings.Join(bs[from:min(i+6, len(bs))], "\n"), strings.Join(as[from:min(i+6, len(as))], "\n"))
		}
	}
	return "no difference in text"
}

// plugged checks that every plugin got every request.
func plugged(p *FaultPlan, r *outcome) string {
	n := len(p.Plugins)
	if n == 0 || len(r.calls) == 0 {
		return ""
	}
	if len(r.calls)%n != 0 {
		return fmt.Sprintf("%d plugins were executed %d times", n, len(r.calls))
	}
	for i, x := range r.calls {
		pl := p.Plugins[i%n]
		if x.bad != "" {
			return fmt.Sprintf("plugin execution %d got a malformed request: %s", i, x.bad)
		}
		if x.hash != digest(wasmOf(pl.V)) {
			return fmt.Sprintf("plugin execution %d was not of plugin %d", i, i%n)
		}
		if y := r.calls[i-i%n]; !proto.Equal(x.req, y.req) {
			return fmt.Sprintf("the plugins got different requests for the same result (%d and %d bytes)", y.size, x.size)
		}
		if p.Prog == "generator" && (x.req.GetOutDir() == "" || x.req.GetProtoPath() == "") {
			return fmt.Sprintf("plugin execution %d got a request without paths", i)
		}
		if p.Prog == "generator" && x.req.GetType() == plugin.ActionType_GENERATE_ACTION {
			return fmt.Sprintf("plugin execution %d got a request without the action", i)
		}
		if len(x.req.GetGrpcFederationFileIds()) > 0 && len(x.req.GetReference().GetFileMap()) == 0 {
			return fmt.Sprintf("plugin execution %d got a request without what it refers to", i)
		}
	}
	if p.Prog == "generator" {
		// what is generated is known to the plugins
		known := map[string]string{}
		for _, x := range r.calls {
			for _, f := range x.req.GetFiles() {
				known[path.Join(x.req.GetOutDir(), f.GetName())] = f.GetContent()
			}
		}
		for _, n := range keys(r.files) {
			if t, ok := known[n]; !ok {
				return "no plugin got " + n
			} else if t != r.files[n] {
				return "the plugins got another " + n
			}
		}
	}
	return ""
}

// names is whether a message mentions at least one of the faults.
func names(msg string, faults [][]string) bool {
	if strings.TrimSpace(msg) == "" {
		return false
	}
	for _, f := range faults {
		if len(f) == 1 {
			return true // any message does
		}
		for _, m := range f[1:] {
			if strings.Contains(msg, m) {
				return true
			}
		}
	}
	return false
}
