//go:build simruntime

// Package plug runs the CEL plugin runtime and services that use it against a
// simulated WebAssembly guest.
package plug

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/tetratelabs/wazero"
	"google.golang.org/grpc/metadata"

	simp "verif.local/harness/gen/simp"
	"verif.local/harness/guestio"
	"verif.local/sim/simrt"
)

// Directive says how the guest treats one call (found by its key).
type Directive struct {
	Err   string        `json:"err,omitempty"`   // the function returns this error
	Pad   int           `json:"pad,omitempty"`   // extra bytes of result
	Sleep time.Duration `json:"sleep,omitempty"` // before answering
}

// Death ends the guest at a point of an exchange.
type Death struct {
	Cmd  int    `json:"cmd"`  // command (line) number, 0 is the first
	At   string `json:"at"`   // idle, mid, read, partial, after
	Exit string `json:"exit"` // zero, code, trap
}

// Guest configures the plugin program.
type Guest struct {
	Death     *Death         `json:"death,omitempty"`
	Corrupt   map[int]string `json:"corrupt,omitempty"` // by reply number: garbage, empty, cut, utf8, array
	ReadChunk int            `json:"read_chunk,omitempty"`
	Chunk     int            `json:"chunk,omitempty"`     // bytes per write
	ChunkGap  time.Duration  `json:"chunk_gap,omitempty"` // pause between writes
	GCPause   time.Duration  `json:"gc_pause,omitempty"`
	Version   int            `json:"version,omitempty"` // protocol version answered, if not 0
	Drop      []string       `json:"drop,omitempty"`    // functions the guest does not implement
	Extra     bool           `json:"extra,omitempty"`   // it implements more than is declared
}

// Seen is one call as the guest saw it.
type Seen struct {
	Key, Method, Args, MD string
	Step                  uint32
}

// guest is a running plugin program.
type guest struct {
	w       *world
	cfg     Guest
	in      io.Reader
	out     io.Writer
	lines   int // commands read completely
	mid     bool
	replies int
	seen    []Seen
	ticks   []string
	ended   bool
	endedAt time.Duration
	exited  bool // told to
	eofs    int
	gcs     int
}

type exitSignal struct {
	code int
	trap error
}

func init() {
	wazero.SimGuest = func(b []byte) (wazero.SimProgram, error) {
		if !bytes.HasPrefix(b, []byte("\x00sim")) {
			return nil, errors.New("invalid magic number")
		}
		return func(ctx context.Context, in io.Reader, out io.Writer) (uint32, error) {
			return cur.runGuest(in, out)
		}, nil
	}
}

func (w *world) runGuest(in io.Reader, out io.Writer) (code uint32, trap error) {
	g := &guest{w: w, cfg: w.plan.Guest, in: in, out: out}
	w.guests = append(w.guests, g)
	unbind := guestio.Bind(g)
	defer func() {
		unbind()
		g.ended, g.endedAt = true, simrt.Now()
		if r := recover(); r != nil {
			s, ok := r.(exitSignal)
			if !ok {
				s = exitSignal{trap: fmt.Errorf("wasm error: unreachable: %v", r)}
			}
			simrt.Event("guest ends: code %d %v", s.code, s.trap)
			code, trap = uint32(s.code), s.trap
		} else {
			g.exited = true
			simrt.Event("guest exits")
		}
	}()
	simrt.Yield()
	simp.RegisterSimpPlugin(g)
	return 0, nil
}

func (g *guest) die() {
	d := g.cfg.Death
	g.w.fault("guest_" + d.At + "_" + d.Exit)
	g.w.dead = true
	switch d.Exit {
	case "zero":
		panic(exitSignal{})
	case "code":
		panic(exitSignal{code: 3})
	}
	panic(exitSignal{trap: errors.New("wasm error: out of bounds memory access")})
}

func (g *guest) Exit(code int) { panic(exitSignal{code: code}) }
func (g *guest) GC() {
	g.gcs++
	simrt.Event("guest gc")
	g.w.reach("gc")
	simrt.Yield()
	if g.cfg.GCPause > 0 {
		time.Sleep(g.cfg.GCPause)
	}
}

// Read is the guest's stdin.
func (g *guest) Read(p []byte) (int, error) {
	simrt.Yield()
	if d := g.cfg.Death; d != nil {
		if d.At == "idle" && d.Cmd == g.lines && !g.mid {
			g.die()
		}
		if d.At == "mid" && d.Cmd == g.lines {
			if g.mid {
				g.die()
			}
			if len(p) > 3 {
				p = p[:3]
			}
		}
	}
	if c := g.cfg.ReadChunk; c > 0 && len(p) > c {
		p = p[:c]
	}
	n, err := g.in.Read(p)
	simrt.Yield()
	if err != nil {
		g.eofs++
		if g.eofs > 50 { // a real guest would spin here
			panic(exitSignal{code: 9})
		}
		time.Sleep(time.Millisecond)
		return n, err
	}
	g.mid = true
	for _, b := range p[:n] {
		if b == '\n' {
			g.mid = false
			if d := g.cfg.Death; d != nil && d.Cmd == g.lines && d.At == "read" {
				g.die()
			}
			g.lines++
		}
	}
	return n, nil
}

// Write is the guest's stdout: one reply per call.
func (g *guest) Write(p []byte) (int, error) {
	simrt.Yield()
	b := append([]byte{}, p...)
	r := g.replies
	g.replies++
	if r == 0 {
		b = g.version(b)
	}
	if how := g.cfg.Corrupt[r]; how != "" {
		g.w.fault("reply_" + how)
		g.w.corrupt = true
		switch how {
		case "garbage":
			b = []byte("panic: runtime error\n")
		case "empty":
			b = []byte("\n")
		case "cut":
			b = append(append([]byte{}, b[:len(b)/2]...), '\n')
			if len(b) < 3 {
				b = []byte("{\n")
			}
		case "utf8":
			b = []byte("{\"value\":{\"string\":\"\xff\xfe\"}}\n")
		case "array":
			b = []byte("[1]\n")
		}
	}
	d := g.cfg.Death
	dying := d != nil && d.Cmd == g.lines-1 && (d.At == "partial" || d.At == "after")
	end := len(b)
	if dying && d.At == "partial" {
		end = len(b) / 2
	}
	c := g.cfg.Chunk
	if c <= 0 {
		c = end
	}
	for o := 0; o < end; o += c {
		n := min(c, end-o)
		if _, err := g.out.Write(b[o : o+n]); err != nil {
			return o, err
		}
		simrt.Yield()
		if g.cfg.ChunkGap > 0 && o+n < end {
			g.w.reach("chunked")
			time.Sleep(g.cfg.ChunkGap)
		}
	}
	if dying {
		g.die()
	}
	return len(p), nil
}

func (g *guest) version(b []byte) []byte {
	var v struct {
		ProtocolVersion       int      `json:"protocolVersion"`
		GRPCFederationVersion string   `json:"grpcFederationVersion"`
		Functions             []string `json:"functions"`
	}
	if json.Unmarshal(b, &v) != nil {
		return b
	}
	if g.cfg.Version != 0 {
		v.ProtocolVersion = g.cfg.Version
	}
	if g.cfg.Extra {
		v.Functions = append([]string{"simp_unused"}, v.Functions...)
	}
	var fs []string
	for _, f := range v.Functions {
		drop := false
		for _, d := range g.cfg.Drop {
			drop = drop || d == f
		}
		if !drop {
			fs = append(fs, f)
		}
	}
	v.Functions = fs
	b, _ = json.Marshal(v)
	return append(b, '\n')
}

func mdText(md metadata.MD) string {
	var ks []string
	for k := range md {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%q;", k, md[k])
	}
	return b.String()
}

func (g *guest) call(ctx context.Context, method, key, args string) (*Directive, error) {
	md, _ := metadata.FromIncomingContext(ctx)
	g.seen = append(g.seen, Seen{Key: key, Method: method, Args: args, MD: mdText(md), Step: simrt.Steps()})
	simrt.Event("guest %s %s", method, short(key))
	d := g.w.plan.Dirs[key]
	if d == nil {
		d = &Directive{}
	}
	simrt.Yield()
	if d.Sleep > 0 {
		time.Sleep(d.Sleep)
	}
	if d.Err != "" {
		g.w.fault("plugin_error")
		return d, errors.New(d.Err)
	}
	return d, nil
}

func short(s string) string {
	if len(s) > 40 {
		return s[:40] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

// The functions. What they return is defined by the fn* below, which the
// oracle uses too.

func pad(n int) string {
	const t = "0123456789 \"\\\n%s<&>\u2028\u00e9\U0001F600\t"
	var b strings.Builder
	for b.Len() < n {
		b.WriteString(t)
	}
	return b.String()
}

func fnEcho(s, md string, p int) string { return s + "|" + md + "|" + pad(p) }
func fnSum(l []int64) int64 {
	t := int64(len(l))
	for _, x := range l {
		t += x
	}
	return t
}
func fnParts(s, md string, p int) []string {
	out := append(strings.Split(s, "/"), md)
	if p > 0 {
		out = append(out, pad(p))
	}
	return out
}
func fnHalf(d float64) float64 { return d / 2 }
func fnNot(b bool) bool        { return !b }
func fnMake(s, md string, p int) *simp.Obj {
	return &simp.Obj{Name: s + "|" + md + pad(p), Nums: []int64{int64(len(s)), int64(p)}}
}
func fnMerge(l []*simp.Obj) []*simp.Obj {
	var out []*simp.Obj
	for i := len(l) - 1; i >= 0; i-- {
		out = append(out, &simp.Obj{Name: l[i].GetName() + "'", Nums: append([]int64{int64(i)}, l[i].GetNums()...)})
	}
	return out
}
func fnDescribe(o *simp.Obj, s string, p int) string {
	return fmt.Sprintf("%s:%v:%s|%s", o.GetName(), o.GetNums(), s, pad(p))
}

func objText(l ...*simp.Obj) string {
	var b strings.Builder
	for _, o := range l {
		fmt.Fprintf(&b, "{%s %v}", o.GetName(), o.GetNums())
	}
	return b.String()
}

func ctxMD(ctx context.Context) string {
	md, _ := metadata.FromIncomingContext(ctx)
	return mdText(md)
}

func (g *guest) Simp_Echo(ctx context.Context, s string) (string, error) {
	d, err := g.call(ctx, "echo", s, s)
	return fnEcho(s, ctxMD(ctx), d.Pad), err
}

func (g *guest) Simp_Tick(ctx context.Context, s string) (int64, error) {
	_, err := g.call(ctx, "tick", s, s)
	g.ticks = append(g.ticks, s)
	return int64(len(g.ticks)), err
}

func (g *guest) Simp_Sum(ctx context.Context, l []int64) (int64, error) {
	_, err := g.call(ctx, "sum", fmt.Sprint(l), fmt.Sprint(l))
	return fnSum(l), err
}

func (g *guest) Simp_Parts(ctx context.Context, s string) ([]string, error) {
	d, err := g.call(ctx, "parts", s, s)
	return fnParts(s, ctxMD(ctx), d.Pad), err
}

func (g *guest) Simp_Half(ctx context.Context, x float64) (float64, error) {
	_, err := g.call(ctx, "half", fmt.Sprint(x), fmt.Sprint(x))
	return fnHalf(x), err
}

func (g *guest) Simp_Not(ctx context.Context, b bool, s string) (bool, error) {
	_, err := g.call(ctx, "not", s, fmt.Sprint(b, s))
	return fnNot(b), err
}

func (g *guest) Simp_Make(ctx context.Context, s string) (*simp.Obj, error) {
	d, err := g.call(ctx, "make", s, s)
	return fnMake(s, ctxMD(ctx), d.Pad), err
}

func (g *guest) Simp_Merge(ctx context.Context, l []*simp.Obj) ([]*simp.Obj, error) {
	_, err := g.call(ctx, "merge", objText(l...), objText(l...))
	return fnMerge(l), err
}

func (g *guest) Simp_Obj_Describe(ctx context.Context, o *simp.Obj, s string) (string, error) {
	d, err := g.call(ctx, "describe", s, objText(o)+s)
	return fnDescribe(o, s, d.Pad), err
}
