//go:build simruntime

package plug

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"google.golang.org/grpc/metadata"

	grpcfedcel "github.com/mercari/grpc-federation/grpc/federation/cel"

	simp "verif.local/harness/gen/simp"
	"verif.local/harness/wk"
	"verif.local/sim/simrt"
)

// world of one run.
type world struct {
	plan    *Plan
	o       *wk.Outcome
	guests  []*guest
	dead    bool
	corrupt bool
	badAt   uint32 // step of the first death or corruption
	closeAt uint32 // step at which the first Close was started
	closed  uint32 // step at which the first Close had returned
	closing bool
	shut    bool
	boots   int
	faults  map[string]int
	reached map[string]int
}

// cur is the world of the current run.
var cur *world

func (w *world) fault(k string) {
	w.faults[k]++
	if w.badAt == 0 && (strings.HasPrefix(k, "guest_") || strings.HasPrefix(k, "reply_")) {
		w.badAt = simrt.Steps() + 1
	}
}
func (w *world) reach(k string) { w.reached[k]++ }

var objType = cel.ObjectType("simp.Obj")

// functions as the generated service declares them.
var functions = []*grpcfedcel.CELFunction{
	{Name: "simp.echo", ID: ids["echo"], Args: []*cel.Type{cel.StringType}, Return: cel.StringType},
	{Name: "simp.tick", ID: ids["tick"], Args: []*cel.Type{cel.StringType}, Return: cel.IntType},
	{Name: "simp.sum", ID: ids["sum"], Args: []*cel.Type{cel.ListType(cel.IntType)}, Return: cel.IntType},
	{Name: "simp.parts", ID: ids["parts"], Args: []*cel.Type{cel.StringType}, Return: cel.ListType(cel.StringType)},
	{Name: "simp.half", ID: ids["half"], Args: []*cel.Type{cel.DoubleType}, Return: cel.DoubleType},
	{Name: "simp.not", ID: ids["not"], Args: []*cel.Type{cel.BoolType, cel.StringType}, Return: cel.BoolType},
	{Name: "simp.make", ID: ids["make"], Args: []*cel.Type{cel.StringType}, Return: objType},
	{Name: "simp.merge", ID: ids["merge"], Args: []*cel.Type{cel.ListType(objType)}, Return: cel.ListType(objType)},
	{Name: "describe", ID: ids["describe"], Args: []*cel.Type{objType, cel.StringType}, Return: cel.StringType, IsMethod: true},
}

func function(name string) *grpcfedcel.CELFunction {
	for _, f := range functions {
		if f.ID == ids[name] {
			return f
		}
	}
	panic(name)
}

// source is the reader of the plugin's binary.
type source struct {
	data []byte
	max  int
	err  error
}

func (s *source) Read(p []byte) (int, error) {
	simrt.Yield()
	if len(s.data) == 0 {
		if s.err != nil {
			return 0, s.err
		}
		return 0, io.EOF
	}
	if s.max > 0 && len(p) > s.max {
		p = p[:s.max]
	}
	n := copy(p, s.data)
	s.data = s.data[n:]
	return n, nil
}

var errDisk = errors.New("input/output error")

// wasm is the configured binary and digest, and what start-up must do:
// "" succeed, otherwise a word the error must contain.
func (w *world) wasm() (grpcfedcel.WasmConfig, string) {
	p := w.plan
	content := []byte("\x00sim plugin " + strings.Repeat("0123456789", 20))
	if p.Wasm == "bad" {
		content = []byte("#!/bin/sh\necho not a module\n")
	}
	sum := sha256.Sum256(content)
	cfg := grpcfedcel.WasmConfig{Sha256: hex.EncodeToString(sum[:])}
	src := &source{data: append([]byte{}, content...), max: p.ReadMax}
	want := ""
	switch p.Wasm {
	case "bad":
		want = "compile"
		w.fault("wasm_not_a_module")
	case "short":
		src.data = src.data[:len(src.data)/2]
		want = "mismatch"
		w.fault("wasm_truncated")
	case "flip":
		src.data[len(src.data)/2] ^= 1
		want = "mismatch"
		w.fault("wasm_altered")
	case "more":
		src.data = append(src.data, 0)
		want = "mismatch"
		w.fault("wasm_longer")
	case "readerr":
		src.data, src.err = src.data[:len(src.data)/3], errDisk
		want = errDisk.Error()
		w.fault("wasm_read_error")
	case "readerr_end":
		src.err = errDisk
		want = errDisk.Error()
		w.fault("wasm_read_error")
	}
	switch p.Sha {
	case "wrong":
		other := sha256.Sum256([]byte("other"))
		cfg.Sha256 = hex.EncodeToString(other[:])
	case "empty":
		cfg.Sha256 = ""
	case "prefix":
		cfg.Sha256 = cfg.Sha256[:8]
	case "head":
		cfg.Sha256 = cfg.Sha256[:63] + "!"
	}
	if p.Sha != "" {
		w.fault("digest_" + p.Sha)
		if want == "" || want == "compile" {
			want = "mismatch"
		}
	}
	if p.Wasm == "none" {
		w.fault("wasm_none")
		return cfg, "Reader"
	}
	cfg.Reader = src
	return cfg, want
}

func cacheDir() string {
	d := os.Getenv("SIM_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	return filepath.Join(d, fmt.Sprintf("plug%d", os.Getpid()))
}

// checkStart compares how start-up ended with what it had to do.
func (w *world) checkStart(err error, want string) bool {
	p, o := w.plan, w.o
	o.Checks++
	if want == "" && p.Guest.Version != 0 && w.badAt == 0 {
		want = fmt.Sprint(p.Guest.Version)
		w.fault("plugin_version")
	}
	if want != "" {
		if err == nil {
			o.Add("start-accepted", fmt.Sprintf("the plugin was accepted though it must be refused (%s)", want), "C14")
			return false
		}
		bad := !strings.Contains(err.Error(), want)
		if want == "mismatch" {
			bad = !errors.Is(err, grpcfedcel.ErrWasmContentMismatch)
		}
		if bad {
			o.Add("start-error", fmt.Sprintf("start-up error %q does not say what is wrong (%s)", err, want), "C14")
		}
		return false
	}
	if len(p.Guest.Drop) > 0 && w.badAt == 0 {
		w.fault("plugin_missing_function")
		if err == nil {
			o.Add("start-accepted", fmt.Sprintf("the plugin was accepted though it lacks %q", p.Guest.Drop), "C14")
			return false
		}
		for _, d := range p.Guest.Drop {
			if !strings.Contains(err.Error(), d) {
				o.Add("start-error", fmt.Sprintf("start-up error %q does not name the missing function %q", err, d), "C14")
			}
		}
		return false
	}
	if p.Guest.Corrupt[0] != "" && w.corrupt {
		if err == nil {
			o.Add("start-accepted", "the plugin was accepted though its version reply was not readable", "C13", "C14")
		}
		return false
	}
	if w.badAt != 0 {
		if err == nil && len(w.guests) > 0 && w.guests[0].replies == 0 {
			o.Add("start-accepted", "the plugin was accepted though it died before it answered", "C13", "C14")
		}
		return err == nil
	}
	if err != nil {
		o.Add("start-refused", fmt.Sprintf("start-up failed for no reason: %v", err), "C14", "C12")
	}
	return err == nil
}

func (w *world) panicked(where string, r any) {
	w.o.Add("panic", fmt.Sprintf("%s panicked: %v", where, r), "C12", "C13", "C14")
}

// guard runs f and reports a panic of it.
func (w *world) guard(where string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			w.panicked(where, r)
		}
	}()
	f()
	return true
}

// callRec is one finished or running direct call.
type callRec struct {
	c          Call
	begin, end uint32
	at, to     time.Duration
	done       bool
	val        string
	err        string
	bad        bool
	gone       bool
}

// late tells whether something that ended at step was free of interference.
func (w *world) disturbed(end uint32) bool {
	return w.badAt != 0 && end >= w.badAt || w.closeAt != 0 && end >= w.closeAt
}

func mdOf(m map[string][]string) metadata.MD {
	md := metadata.MD{}
	for k, v := range m {
		md[k] = append([]string{}, v...)
	}
	return md
}

func newObj(name string, nums ...int64) *simp.Obj { return &simp.Obj{Name: name, Nums: nums} }

// expect is the result and the arguments of a call by the reference functions.
func (w *world) expect(c Call) (val, args string) {
	md := mdText(mdOf(c.MD))
	pad := 0
	if d := w.plan.Dirs[c.Key]; d != nil {
		pad = d.Pad
	}
	switch c.Fn {
	case "echo":
		return fnEcho(c.Key, md, pad), c.Key
	case "sum":
		return fmt.Sprint(fnSum(c.Nums)), fmt.Sprint(c.Nums)
	case "parts":
		return fmt.Sprintf("%q", fnParts(c.Key, md, pad)), c.Key
	case "half":
		return fmt.Sprint(fnHalf(c.F)), fmt.Sprint(c.F)
	case "not":
		return fmt.Sprint(fnNot(c.B)), fmt.Sprint(c.B, c.Key)
	case "make":
		return objText(fnMake(c.Key, md, pad)), c.Key
	case "merge":
		l := mergeArgs(c.Nums)
		return objText(fnMerge(l)...), objText(l...)
	case "describe":
		o := newObj(fmt.Sprintf("o%d", c.Nums[0]), c.Nums...)
		return fnDescribe(o, c.Key, pad), objText(o) + c.Key
	case "tick":
		return "", c.Key
	}
	panic(c.Fn)
}

func (w *world) values(reg *types.Registry, c Call) []ref.Val {
	v := func(x any) ref.Val { return reg.NativeToValue(x) }
	switch c.Fn {
	case "sum":
		return []ref.Val{v(c.Nums)}
	case "half":
		return []ref.Val{v(c.F)}
	case "not":
		return []ref.Val{v(c.B), v(c.Key)}
	case "merge":
		return []ref.Val{v(mergeArgs(c.Nums))}
	case "describe":
		return []ref.Val{v(newObj(fmt.Sprintf("o%d", c.Nums[0]), c.Nums...)), v(c.Key)}
	}
	return []ref.Val{v(c.Key)}
}

func render(fn string, v ref.Val) (string, error) {
	switch fn {
	case "parts":
		x, err := v.ConvertToNative(reflect.TypeOf([]string{}))
		if err != nil {
			return "", err
		}
		return fmt.Sprintf("%q", x), nil
	case "make":
		x, err := v.ConvertToNative(reflect.TypeOf(&simp.Obj{}))
		if err != nil {
			return "", err
		}
		return objText(x.(*simp.Obj)), nil
	case "merge":
		x, err := v.ConvertToNative(reflect.TypeOf([]*simp.Obj{}))
		if err != nil {
			return "", err
		}
		return objText(x.([]*simp.Obj)...), nil
	}
	return fmt.Sprint(v.Value()), nil
}

func (w *world) doCall(inst *grpcfedcel.CELPluginInstance, reg *types.Registry, r *callRec) {
	simrt.Yield()
	r.begin, r.at = simrt.Steps(), simrt.Now()
	defer func() {
		r.end, r.to, r.done = simrt.Steps(), simrt.Now(), true
		if x := recover(); x != nil {
			r.bad = true
			w.panicked("a call of "+r.c.Fn, x)
		}
	}()
	md := mdOf(r.c.MD)
	ctx := metadata.NewIncomingContext(context.Background(), md)
	if r.c.Gone > 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, r.c.Gone)
		defer cancel()
	}
	v := inst.Call(ctx, function(r.c.Fn), md, w.values(reg, r.c)...)
	r.gone = ctx.Err() != nil
	if r.gone {
		w.fault("caller_gone")
	}
	switch {
	case v == nil:
		r.bad = true
		w.o.Add("nil-value", "a call of "+r.c.Fn+" returned nothing", "C12", "C13")
	case types.IsError(v):
		r.err = v.(*types.Err).Error()
		if r.err == "" {
			r.bad = true
			w.o.Add("empty-error", "a call of "+r.c.Fn+" returned an error without text", "C12", "C13")
		}
	case types.IsUnknown(v):
		r.err = "unknown"
	default:
		s, err := render(r.c.Fn, v)
		if err != nil {
			r.bad = true
			w.o.Add("bad-value", fmt.Sprintf("a call of %s returned %v: %v", r.c.Fn, v, err), "C12", "C13")
		}
		r.val = s
	}
}

func (w *world) doClose(name string, f func() error) {
	if w.closeAt == 0 {
		w.closeAt = simrt.Steps() + 1
	}
	w.guard(name, func() {
		err := f()
		if err != nil && w.badAt == 0 {
			w.o.Add("close-error", fmt.Sprintf("%s: %v", name, err), "C14")
		}
	})
	if w.closed == 0 {
		w.closed = simrt.Steps() + 1
	}
	w.reach("close")
}

func sortedCalls(g *guest) map[string][]Seen {
	m := map[string][]Seen{}
	for _, s := range g.seen {
		k := s.Method + "\x00" + s.Key
		m[k] = append(m[k], s)
	}
	return m
}

func runPlan(p *Plan, opt simrt.Options) *wk.Outcome {
	o := &wk.Outcome{Faults: map[string]int{}, Reach: map[string]int{}}
	w := &world{plan: p, o: o, faults: o.Faults, reached: o.Reach}
	cur = w
	opt.Stalls = p.Stalls
	defer os.RemoveAll(cacheDir())
	after := w.inst
	if p.Mode == "svc" {
		after = w.svc
	}
	var check func()
	o.Res = simrt.Run(opt, func() { check = after() })
	o.Key = p.Mode
	if o.Res.StepCap {
		return o
	}
	if o.Res.Stalls > 0 {
		o.Faults["goroutine stall"] += o.Res.Stalls
	}
	for _, g := range w.guests {
		if g.eofs > 0 {
			o.Reach["guest_eof"]++
		}
	}
	if o.Res.Hang {
		o.Add("hang", "the calls, the creation or the closing did not end:\n"+o.Res.HangDump, "C12", "C13", "C14", "C15")
		return o
	}
	if check != nil {
		check()
	}
	return o
}

// inst drives a plugin instance directly.
func (w *world) inst() func() {
	p, o := w.plan, w.o
	ctx := context.Background()
	wc, want := w.wasm()
	cfg := grpcfedcel.CELPluginConfig{Name: "simp", Wasm: wc, Functions: functions, CacheDir: cacheDir()}
	var pl *grpcfedcel.CELPlugin
	var err error
	if !w.guard("NewCELPlugin", func() { pl, err = grpcfedcel.NewCELPlugin(ctx, cfg) }) {
		return nil
	}
	if err != nil || want != "" {
		if err == nil || want == "" {
			w.checkStart(err, want)
			return nil
		}
		w.checkStart(err, want)
		return nil
	}
	reg, err := types.NewRegistry(&simp.Obj{})
	if err != nil {
		o.Err = err.Error()
		return nil
	}
	inst := pl.CreateInstance(ctx, reg)
	if !w.guard("ValidatePlugin", func() { err = inst.ValidatePlugin(ctx) }) {
		return nil
	}
	started := w.checkStart(err, "")
	var recs []*callRec
	if started {
		n := 0
		done := make(chan bool)
		run := func(f func()) {
			n++
			go func() {
				f()
				done <- true
			}()
		}
		for i := range p.Calls {
			c := p.Calls[i]
			var mine []*callRec
			for _, x := range append([]Call{c}, c.Next...) {
				r := &callRec{c: x}
				mine = append(mine, r)
				recs = append(recs, r)
			}
			run(func() {
				time.Sleep(c.At)
				for _, r := range mine {
					w.doCall(inst, reg, r)
				}
			})
		}
		for _, at := range p.GCs {
			run(func() {
				time.Sleep(at)
				w.guard("GC", inst.GC)
			})
		}
		for _, at := range p.Closes {
			run(func() {
				time.Sleep(at)
				w.doClose("Close", func() error { return inst.Close(ctx) })
			})
		}
		for ; n > 0; n-- {
			<-done
		}
	}
	// The service is closed: also when start-up failed, and more than once.
	w.doClose("Close", func() error { return inst.Close(ctx) })
	w.doClose("second Close", func() error { return inst.Close(ctx) })
	w.guard("GC after Close", inst.GC)
	late := &callRec{c: Call{Fn: "echo", Key: "late"}}
	w.doCall(inst, reg, late)
	return func() {
		if late.err == "" && !late.bad {
			o.Add("fabricated", fmt.Sprintf("a call after Close returned %q", short(late.val)), "C13", "C14")
		}
		w.checkCalls(recs)
		w.checkLeak()
	}
}

func (w *world) checkLeak() {
	w.o.Checks++
	if w.o.Res.Leaked > 0 {
		w.o.Add("leak", fmt.Sprintf("%d goroutines are left after Close:\n%s", w.o.Res.Leaked, w.o.Res.LeakDump), "C14")
	}
	for _, g := range w.guests {
		if !g.ended {
			w.o.Add("guest-left", "the plugin is still running after Close", "C14")
		}
	}
}

func (w *world) checkCalls(recs []*callRec) {
	o := w.o
	var g *guest
	if len(w.guests) > 0 {
		g = w.guests[0]
	}
	if len(w.guests) > 1 {
		o.Add("instances", fmt.Sprintf("%d plugin programs were started", len(w.guests)), "C12")
	}
	seen := sortedCalls(g)
	count := map[string]int{}
	for _, r := range recs {
		count[r.c.Fn+"\x00"+r.c.Key]++
	}
	for _, r := range recs {
		if !r.done || r.bad {
			continue
		}
		o.Checks++
		want, args := w.expect(r.c)
		key := r.c.Fn + "\x00" + r.c.Key
		ss := seen[key]
		what := fmt.Sprintf("%s(%q)", r.c.Fn, short(r.c.Key))
		if len(ss) > count[key] {
			o.Add("call-repeated", fmt.Sprintf("the plugin received %s %d times", what, len(ss)), "C12")
		}
		for _, s := range ss {
			if s.Args != args {
				o.Add("args", fmt.Sprintf("the plugin received %s with arguments %q, want %q", what, short(s.Args), short(args)), "C12")
			}
			if s.MD != mdText(mdOf(r.c.MD)) {
				o.Add("metadata", fmt.Sprintf("the plugin received %s with metadata %q, want %q", what, s.MD, mdText(mdOf(r.c.MD))), "C12")
			}
		}
		wantErr := ""
		if d := w.plan.Dirs[r.c.Key]; d != nil {
			wantErr = d.Err
		}
		if r.c.Fn == "tick" {
			want = r.val
			if len(ss) > 0 {
				want = fmt.Sprint(tickOf(g, r.c.Key))
			}
		}
		disturbed := w.disturbed(r.end)
		props := []string{"C12"}
		if disturbed {
			props = []string{"C12", "C13"}
		}
		if r.err == "" {
			switch {
			case wantErr != "":
				o.Add("error-lost", fmt.Sprintf("%s returned %q though the plugin returned the error %q", what, short(r.val), wantErr), props...)
			case len(ss) == 0:
				o.Add("fabricated", fmt.Sprintf("%s returned %q though the plugin never received the call", what, short(r.val)), props...)
			case r.val != want:
				o.Add("value", fmt.Sprintf("%s returned %q, want %q", what, diff(r.val, want), diff(want, r.val)), props...)
			}
			if r.begin > w.closed && w.closed != 0 {
				o.Add("after-close", fmt.Sprintf("%s begun after Close returned %q", what, short(r.val)), "C14")
			}
			continue
		}
		if disturbed || r.gone {
			o.Reach["disturbed_call"]++
			continue
		}
		if wantErr == "" {
			o.Add("call-failed", fmt.Sprintf("%s failed: %q", what, short(r.err)), "C12")
			if w.plan.BinMD && strings.Contains(r.err, binMDErr) {
				o.Violations[len(o.Violations)-1].Sig = "binary-metadata"
			}
		} else if r.err != wantErr {
			o.Add("error-text", fmt.Sprintf("%s returned the error %q, the plugin's is %q", what, r.err, wantErr), "C12")
			if w.plan.BinMD && strings.Contains(r.err, binMDErr) {
				o.Violations[len(o.Violations)-1].Sig = "binary-metadata"
			}
		}
	}
}

func tickOf(g *guest, key string) int {
	for i, k := range g.ticks {
		if k == key {
			return i + 1
		}
	}
	return -1
}

// diff is s shortened around its first difference from t.
func diff(s, t string) string {
	if len(s) < 200 {
		return s
	}
	i := 0
	for i < len(s) && i < len(t) && s[i] == t[i] {
		i++
	}
	from := max(0, i-40)
	to := min(len(s), i+40)
	return fmt.Sprintf("...(%d bytes)%s...", len(s), s[from:to])
}

// binMDErr is part of the error of a call whose metadata cannot be encoded.
const binMDErr = "CELPluginGRPCMetadata.values contains invalid UTF-8"
