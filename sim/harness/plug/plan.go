//go:build simruntime

package plug

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"time"

	simp "verif.local/harness/gen/simp"
	"verif.local/harness/wk"
	"verif.local/sim/prog"
	"verif.local/sim/simrt"
)

// Call of a plugin function made directly on the instance.
type Call struct {
	At   time.Duration       `json:"at"`
	Fn   string              `json:"fn"`
	Key  string              `json:"key"`
	S    string              `json:"s,omitempty"` // second string argument
	Nums []int64             `json:"nums,omitempty"`
	F    float64             `json:"f,omitempty"`
	B    bool                `json:"b,omitempty"`
	MD   map[string][]string `json:"md,omitempty"`
	Gone time.Duration       `json:"gone,omitempty"` // its context ends
	Next []Call              `json:"next,omitempty"` // made by the same client one after another
}

// Req is a request to the service.
type Req struct {
	At   time.Duration       `json:"at"`
	ID   string              `json:"id"`
	Vars bool                `json:"vars,omitempty"`
	Nums []int64             `json:"nums,omitempty"`
	MD   map[string][]string `json:"md,omitempty"`
	Gone time.Duration       `json:"gone,omitempty"` // its client gives up
}

// Plan of one run.
type Plan struct {
	Mode   string                `json:"mode"` // inst, svc
	Guest  Guest                 `json:"guest"`
	Dirs   map[string]*Directive `json:"dirs,omitempty"`
	Calls  []Call                `json:"calls,omitempty"`
	Reqs   []Req                 `json:"reqs,omitempty"`
	GCs    []time.Duration       `json:"gcs,omitempty"`
	Closes []time.Duration       `json:"closes,omitempty"`
	// start-up
	Sha     string            `json:"sha,omitempty"`  // "": right, wrong, empty, upper
	Wasm    string            `json:"wasm,omitempty"` // "": right, bad, none, readerr, short
	ReadMax int               `json:"read_max,omitempty"`
	Env     map[string]string `json:"env,omitempty"`
	Env2    map[string]string `json:"env2,omitempty"`   // environment after creation
	Client  string            `json:"client,omitempty"` // "": right, err, nil
	Boot    string            `json:"boot,omitempty"`   // downstream result while creating: value, or "err"
	NoCfg   bool              `json:"no_cfg,omitempty"`
	Stalls  bool              `json:"stalls,omitempty"`
	BinMD   bool              `json:"bin_md,omitempty"`
}

// Engine implements wk.Engine.
type Engine struct{}

func (Engine) Decode(b []byte) (any, error) {
	p := &Plan{}
	return p, json.Unmarshal(b, p)
}

func (Engine) Run(plan any, opt simrt.Options) *wk.Outcome { return runPlan(plan.(*Plan), opt) }

var fns = []string{"echo", "sum", "parts", "half", "not", "make", "merge", "describe", "tick"}

var texts = []string{"", "a", "x/y/z", "100%", "%s %d %!v(MISSING)", "line\nbreak", "q\"uote'", "<&>", "\u00e9\u4e16\U0001F600", "tab\t\\n", "{\"value\":1}", "exit\n", "gc\n", "version\n", "\u2028"}

var errs = []string{"boom", "100% wrong", "%s%d%v %w", "line\nbreak", "not found: \"x\"", "grpc-federation: plugin has already been closed?", "\u4e16\u754c", "a: b: c"}

func (Engine) Plan(prop string, seed uint64) any {
	g := prog.NewPRNG(seed)
	p := &Plan{Mode: "inst", Dirs: map[string]*Directive{}}
	switch prop {
	case "C12", "C13":
		if g.P(2, 5) {
			p.Mode = "svc"
		}
	case "C14":
		if g.P(1, 2) {
			p.Mode = "svc"
		}
	case "C15":
		p.Mode = "svc"
	}
	p.Stalls = g.P(1, 8)
	p.Guest.ReadChunk = []int{0, 0, 0, 100, 64, 500, 1 + g.Intn(9)}[g.Intn(7)]
	p.Guest.Chunk = []int{0, 0, 0, 1 + g.Intn(20), 64, 500, 4096, 4095, 5000}[g.Intn(9)]
	if g.P(1, 4) {
		p.Guest.ChunkGap = time.Duration(1 + g.Intn(3_000_000))
	}
	if g.P(1, 3) {
		p.Guest.GCPause = time.Duration(g.Intn(20_000_000))
	}
	p.Guest.Extra = g.P(1, 4)
	dir := func(key string) {
		d := &Directive{}
		switch g.Intn(8) {
		case 0:
			d.Err = errs[g.Intn(len(errs))]
		case 1:
			d.Pad = []int{10, 4000, 4096, 9000, 70000}[g.Intn(5)]
		case 2, 3:
			d.Sleep = time.Duration(g.Intn(30_000_000))
		default:
			return
		}
		if d.Pad > 5000 && p.Guest.Chunk > 0 && p.Guest.Chunk < 100 {
			p.Guest.Chunk = 1000 // keep the number of steps reasonable
		}
		p.Dirs[key] = d
	}
	md := func(id string) map[string][]string {
		m := map[string][]string{"x-id": {id}}
		if g.P(1, 3) {
			m["x-multi"] = []string{texts[g.Intn(len(texts))], id}
		}
		if p.BinMD {
			m["trace-bin"] = []string{"\xff\xfe\x01" + id}
		}
		return m
	}
	p.BinMD = prop == "C12" && g.P(1, 50)
	n := 0
	text := func() string {
		n++
		t := fmt.Sprintf("%d:%s", n, texts[g.Intn(len(texts))])
		if g.P(1, 12) {
			t += strings.Repeat("x/", []int{100, 2100, 5000}[g.Intn(3)])
		}
		return t
	}
	at := func() time.Duration {
		switch g.Intn(3) {
		case 0:
			return 0
		case 1:
			return time.Duration(g.Intn(5_000_000))
		}
		return time.Duration(g.Intn(100_000_000))
	}
	call := func() Call {
		c := Call{At: at(), Fn: fns[g.Intn(len(fns))], Key: text(), MD: md(fmt.Sprint(n))}
		switch c.Fn {
		case "sum":
			c.Nums = []int64{int64(n), int64(g.Intn(100)) - 50, math.MaxInt32 * int64(g.Intn(1000))}[:1+g.Intn(3)]
			c.Key = fmt.Sprint(c.Nums)
		case "half":
			c.F = float64(n) + float64(g.Intn(1000))/1000
			c.Key = fmt.Sprint(c.F)
		case "not":
			c.B = g.P(1, 2)
		case "merge":
			for i := g.Intn(4); i >= 0; i-- {
				c.Nums = append(c.Nums, int64(n*100+i))
			}
			c.Key = objText(mergeArgs(c.Nums)...)
		case "describe":
			c.Nums = []int64{int64(n)}
		}
		dir(c.Key)
		if prop != "C15" && g.P(1, 8) {
			c.Gone = time.Duration(1 + g.Intn(20_000_000))
		}
		return c
	}
	if p.Mode == "inst" {
		clients := 1 + g.Intn(5)
		for i := 0; i < clients; i++ {
			c := call()
			for k := g.Intn(4); k > 0; k-- {
				c.Next = append(c.Next, call())
				if last := c.Next[len(c.Next)-1]; last.Fn != "tick" && g.P(1, 4) {
					last.At, last.Gone = at(), 0 // once more
					c.Next = append(c.Next, last)
				}
			}
			p.Calls = append(p.Calls, c)
		}
		for k := g.Intn(5); k > 0; k-- {
			p.GCs = append(p.GCs, at())
		}
	} else {
		for i, k := 0, 1+g.Intn(5); i < k; i++ {
			r := Req{At: at(), ID: fmt.Sprintf("r%d", i), Vars: g.P(1, 3)}
			if prop == "C15" {
				r.Vars = g.P(3, 4)
			}
			r.MD = md(r.ID)
			for j := g.Intn(4); j > 0; j-- {
				r.Nums = append(r.Nums, int64(1000*i+j))
			}
			if prop != "C15" && g.P(1, 6) {
				r.Gone = time.Duration(1 + g.Intn(40_000_000))
			}
			p.Reqs = append(p.Reqs, r)
			for _, s := range []string{"a", "b", "o", "e", "f"} {
				if g.P(1, 3) {
					dir(r.ID + "/" + s)
				}
			}
		}
	}
	p.Env = map[string]string{"SV_NUM": fmt.Sprint(g.Intn(90))}
	if p.Mode == "svc" {
		p.env(g, prop == "C15")
	}
	p.Boot = fmt.Sprintf("boot%d", g.Intn(9))
	switch prop {
	case "C13":
		if g.P(1, 5) { // misbehaves without dying
			p.Guest.Corrupt = map[int]string{}
			for k := 1 + g.Intn(2); k > 0; k-- {
				p.Guest.Corrupt[1+g.Intn(8)] = []string{"garbage", "empty", "cut", "utf8", "array"}[g.Intn(5)]
			}
		} else {
			p.Guest.Death = &Death{Cmd: 1 + g.Intn(10), At: []string{"idle", "mid", "read", "partial", "after"}[g.Intn(5)], Exit: []string{"zero", "code", "trap"}[g.Intn(3)]}
			if g.P(1, 12) {
				p.Guest.Death.Cmd = 0
			}
		}
		if g.P(1, 4) {
			p.Closes = append(p.Closes, at())
		}
	case "C14":
		for k := g.Intn(3); k > 0; k-- {
			p.Closes = append(p.Closes, at())
		}
		if g.P(1, 8) {
			p.Guest.Death = &Death{Cmd: g.Intn(8), At: []string{"idle", "mid", "read", "partial", "after"}[g.Intn(5)], Exit: []string{"zero", "code", "trap"}[g.Intn(3)]}
		}
		switch g.Intn(10) {
		case 0:
			p.Sha = []string{"wrong", "empty", "prefix", "head"}[g.Intn(4)]
		case 1:
			p.Wasm = []string{"bad", "none", "readerr", "readerr_end", "short", "flip", "more"}[g.Intn(7)]
		case 2:
			p.Guest.Version = []int{2, 0x7fff, -1, 100}[g.Intn(4)]
		case 3:
			p.Guest.Drop = []string{ids[fns[g.Intn(len(fns))]]}
			if g.P(1, 3) {
				p.Guest.Drop = append(p.Guest.Drop, ids[fns[g.Intn(len(fns))]])
			}
		case 4:
			p.Guest.Corrupt = map[int]string{0: []string{"garbage", "empty", "cut", "array"}[g.Intn(4)]}
		}
		if g.P(1, 3) {
			p.ReadMax = 1 + g.Intn(9)
		}
		if p.Mode == "svc" && g.P(1, 12) {
			p.NoCfg = true
		}
	case "C15":
		switch g.Intn(8) {
		case 0:
			p.Client = []string{"err", "nil"}[g.Intn(2)]
		case 1:
			p.Boot = []string{"err", "bad", "zero", "zeroif", "zeroby", "panic"}[g.Intn(6)]
		case 2:
			p.Env["SV_NUM"] = fmt.Sprint(101 + g.Intn(50))
		case 3:
			p.Dirs[[]string{"v1:" + envName(p.Env), "v2", "v3", "v4", "b"}[g.Intn(5)]] = &Directive{Err: errs[g.Intn(len(errs))]}
		}
	}
	return p
}

func mergeArgs(nums []int64) []*simp.Obj {
	var out []*simp.Obj
	for _, n := range nums {
		out = append(out, newObj(fmt.Sprintf("o%d", n), n, n+1))
	}
	return out
}

func envName(env map[string]string) string {
	if v, ok := env["SV_NAME"]; ok {
		return v
	}
	return "dflt"
}

func (p *Plan) env(g *prog.PRNG, hard bool) {
	e := p.Env
	pick := func(k string, vs ...string) {
		if v := vs[g.Intn(len(vs))]; v != "-" {
			e[k] = v
		} else {
			delete(e, k)
		}
	}
	pick("SV_NAME", "-", "nm", "two words", "100%")
	pick("SV_ALT", "-", "1", "3,1,2", "7,-7,0,9223372036854775")
	pick("SV_LIST", "-", "9,9")
	pick("SVMAP", "-", "k:5", "j:1,k:6", "j:2")
	pick("SV_FLAG", "-", "true", "false", "1", "0")
	pick("SV_IGN", "-", "must not be seen")
	if hard && g.P(1, 4) {
		switch g.Intn(5) {
		case 0:
			pick("SV_NUM", "-", "abc", "1.5", "99999999999999999999")
		case 1:
			pick("SV_ALT", "1,x", "a")
		case 2:
			pick("SVMAP", "k", "k:v", "k:1,j")
		case 3:
			pick("SV_FLAG", "maybe", "yes")
		case 4:
			delete(e, "SV_NUM")
		}
	}
	if g.P(1, 2) {
		p.Env2 = map[string]string{"SV_NUM": "77", "SV_NAME": "changed", "SV_ALT": "5", "SVMAP": "k:99", "SV_FLAG": "true"}
	}
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	json.Unmarshal(b, q)
	return q
}

// Shrink proposes smaller plans.
func (Engine) Shrink(plan any) []any {
	p := plan.(*Plan)
	var out []any
	add := func(f func(*Plan)) {
		q := p.clone()
		f(q)
		out = append(out, q)
	}
	for i := range p.Calls {
		if len(p.Calls) > 1 {
			add(func(q *Plan) { q.Calls = append(q.Calls[:i], q.Calls[i+1:]...) })
		}
		if len(p.Calls[i].Next) > 0 {
			add(func(q *Plan) { q.Calls[i].Next = q.Calls[i].Next[:len(q.Calls[i].Next)-1] })
		}
		if len(p.Calls[i].MD) > 1 {
			add(func(q *Plan) { q.Calls[i].MD = nil })
		}
	}
	for i := range p.Reqs {
		if len(p.Reqs) > 1 {
			add(func(q *Plan) { q.Reqs = append(q.Reqs[:i], q.Reqs[i+1:]...) })
		}
		if len(p.Reqs[i].Nums) > 0 {
			add(func(q *Plan) { q.Reqs[i].Nums = nil })
		}
	}
	for i := range p.GCs {
		add(func(q *Plan) { q.GCs = append(q.GCs[:i], q.GCs[i+1:]...) })
	}
	for i := range p.Closes {
		add(func(q *Plan) { q.Closes = append(q.Closes[:i], q.Closes[i+1:]...) })
	}
	for k := range p.Dirs {
		add(func(q *Plan) { delete(q.Dirs, k) })
	}
	if p.Guest.Death != nil {
		add(func(q *Plan) { q.Guest.Death = nil })
		if p.Guest.Death.Cmd > 0 {
			add(func(q *Plan) { q.Guest.Death.Cmd-- })
		}
	}
	for k := range p.Guest.Corrupt {
		add(func(q *Plan) { delete(q.Guest.Corrupt, k) })
	}
	if p.Guest.Chunk != 0 || p.Guest.ReadChunk != 0 || p.Guest.ChunkGap != 0 || p.Guest.GCPause != 0 || p.Guest.Extra {
		add(func(q *Plan) {
			q.Guest.Chunk, q.Guest.ReadChunk, q.Guest.ChunkGap, q.Guest.GCPause, q.Guest.Extra = 0, 0, 0, 0, false
		})
	}
	if p.Env2 != nil {
		add(func(q *Plan) { q.Env2 = nil })
	}
	for k := range p.Env {
		if k != "SV_NUM" {
			add(func(q *Plan) { delete(q.Env, k) })
		}
	}
	if p.Stalls {
		add(func(q *Plan) { q.Stalls = false })
	}
	return out
}
