//go:build simruntime

package fed

import (
	"encoding/json"
	"fmt"
	"time"

	"verif.local/harness/wk"
	"verif.local/sim/prog"
	"verif.local/sim/simrt"
)

// Engine implements wk.Engine.
type Engine struct{}

func (Engine) Decode(b []byte) (any, error) {
	p := &Plan{}
	return p, json.Unmarshal(b, p)
}

func (Engine) Run(plan any, opt simrt.Options) *wk.Outcome { return Run(plan.(*Plan), opt) }

// Plan draws the workload and the fault rates of one run.
func (Engine) Plan(prop string, seed uint64) any {
	g := prog.NewPRNG(seed)
	if n := map[string]int{"C03": 5, "C10": 6, "C01": 12}[prop]; n > 0 && g.P(1, n) {
		return zooPlan(prop, g)
	}
	es := suited(prop)
	e := es[g.Intn(len(es))]
	p := e.Program()
	pl := &Plan{Prog: e.Seed, Seed: g.U64() >> 1}
	n := 1 + g.Intn(3)
	switch prop {
	case "C10":
		n = 2 + g.Intn(5)
	case "C04":
		n = 1 + g.Intn(2)
	case "C09":
		n = 2 + g.Intn(3)
	}
	faults := g.Intn(4) // 0: none
	pl.Rates.Burst = []int{0, 300, 1000}[g.Intn(3)]
	if faults > 0 {
		pl.Rates.Fail = []int{30, 120, 350}[g.Intn(3)]
		pl.Rates.Slow = []int{0, 100, 300}[g.Intn(3)]
		if g.P(1, 2) {
			pl.Rates.Hang = 60
		}
		if g.P(1, 3) {
			pl.Rates.Lag = 300
		}
		if g.P(1, 3) {
			pl.Rates.Custom = 150
		}
		if g.P(1, 4) {
			pl.Rates.Panic = 80
		}
	}
	late := false
	switch prop {
	case "C04":
		pl.Rates = Rates{Burst: pl.Rates.Burst, Slow: pl.Rates.Slow}
		if g.P(1, 4) {
			pl.Rates.Fail = 60
		}
	case "C05":
		pl.Rates.Hang = 120
		pl.Rates.Slow = 250
		if g.P(1, 5) {
			// goroutines that notice a timeout late
			late = true
			pl.Rates.Hang = 300
		}
	case "C06", "C07":
		pl.Rates.Fail = 200 + g.Intn(400)
		pl.Rates.Panic = 0
		if g.P(1, 4) {
			// attempts that their timeout abandons
			pl.Rates.Fail, pl.Rates.Hang, pl.Rates.Lag = 100, 300, 500
		}
	case "C08":
		pl.Rates.Fail = 100 + g.Intn(200)
	case "C09":
		pl.Rates.Panic = 60 + g.Intn(200)
		if g.P(1, 3) {
			pl.Rates.Lag = 300
		}
	}
	limits := 0
	switch prop {
	case "C05":
		limits = 50
		if late {
			limits = 0
		}
	case "C08", "C09", "C10":
		limits = 20
	case "C03", "C06":
		limits = 8
	}
	at := time.Duration(0)
	phases := 1 + g.Intn(6)
	for ph, id := 0, 0; ph < phases; ph++ {
		first := id
		for i := 0; i < n; i++ {
			r := Req{ID: id, Method: g.Intn(len(p.Methods)), A: fmt.Sprintf("%x", g.Intn(4096)), B: fmt.Sprintf("%x", g.Intn(4096))}
			if g.P(2, 3) {
				r.Meta = fmt.Sprintf("%x", g.Intn(256))
			}
			if g.P(1, 3) && i > 0 {
				r.A, r.B = pl.Reqs[first].A, pl.Reqs[first].B
			}
			id++
			r.Start = at
			switch g.Intn(4) {
			case 0:
				at += time.Duration(g.Intn(30_000_000))
			case 1:
				at += time.Duration(g.Intn(200_000_000))
			}
			if g.Intn(100) < limits {
				d := time.Duration(1 + g.Intn(150_000_000))
				if g.P(1, 3) {
					d = time.Duration(1 + g.Intn(2_000_000_000))
				}
				if g.P(1, 2) {
					r.Cancel = d
				} else {
					r.Deadline = d
				}
			}
			pl.Reqs = append(pl.Reqs, r)
		}
		// the next group finds the instance idle and its expression cache warm
		at += 3 * time.Minute
		n = 1 + g.Intn(n+1)
	}
	pl.Jitter = []int{0, 250, 500, 999}[g.Intn(4)]
	pl.Stalls = g.P(1, 6) && prop != "C04" && prop != "C05" && prop != "C06" || late
	pl.Late = late
	return pl
}

var suitCache = map[string][]*Entry{}

// suited programs for a property: those with the features it talks about.
func suited(prop string) []*Entry {
	if s, ok := suitCache[prop]; ok {
		return s
	}
	var out []*Entry
	for _, e := range Entries() {
		if prog.Suits(e.Program(), prop) {
			out = append(out, e)
		}
	}
	if len(out) == 0 {
		out = Entries()
	}
	suitCache[prop] = out
	return out
}

// Shrink proposes simpler plans.
func (Engine) Shrink(plan any) []any {
	p := plan.(*Plan)
	var out []any
	add := func(f func(q *Plan)) {
		b, _ := json.Marshal(p)
		q := &Plan{}
		json.Unmarshal(b, q)
		f(q)
		out = append(out, q)
	}
	for size := len(p.Reqs) / 2; size > 1; size /= 2 {
		for i := 0; i < len(p.Reqs); i += size {
			add(func(q *Plan) { q.Reqs = append(q.Reqs[:i:i], q.Reqs[min(len(q.Reqs), i+size):]...) })
		}
	}
	for i := range p.Zoo {
		if len(p.Zoo) > 1 {
			add(func(q *Plan) { q.Zoo = append(q.Zoo[:i:i], q.Zoo[i+1:]...) })
		}
		if p.Zoo[i].Start > 0 {
			add(func(q *Plan) { q.Zoo[i].Start = 0 })
		}
	}
	for i := range p.Reqs {
		if len(p.Reqs) > 1 {
			add(func(q *Plan) { q.Reqs = append(q.Reqs[:i:i], q.Reqs[i+1:]...) })
		}
	}
	if p.Stalls {
		add(func(q *Plan) { q.Stalls, q.Late = false, false })
	}
	if !p.ZeroLat {
		add(func(q *Plan) { q.ZeroLat = true })
	}
	for _, f := range []func(r *Rates) *int{func(r *Rates) *int { return &r.Panic }, func(r *Rates) *int { return &r.Hang },
		func(r *Rates) *int { return &r.Lag }, func(r *Rates) *int { return &r.Custom }, func(r *Rates) *int { return &r.Slow }, func(r *Rates) *int { return &r.Fail }} {
		if *f(&p.Rates) > 0 {
			add(func(q *Plan) { *f(&q.Rates) = 0 })
		}
	}
	for i, r := range p.Reqs {
		if r.Cancel > 0 || r.Deadline > 0 {
			add(func(q *Plan) { q.Reqs[i].Cancel, q.Reqs[i].Deadline = 0, 0 })
		}
		if r.Start > 0 {
			add(func(q *Plan) { q.Reqs[i].Start = 0 })
		}
	}
	for _, k := range p.faultKeys() {
		add(func(q *Plan) { q.Suppress = append(q.Suppress, k) })
	}
	return out
}

// faultKeys lists the faults the reference predicts for the plan.
func (p *Plan) faultKeys() []string {
	e := bySeed[p.Prog]
	if e == nil {
		return nil
	}
	var out []string
	for _, r := range p.Reqs {
		pr := Interpret(e.Program(), p, r)
		for _, k := range sortedKeys(pr.Calls) {
			if p.Attempt(k, 0, true, true).Kind != "ok" {
				out = append(out, k)
			}
		}
		for _, k := range sortedKeys(pr.Customs) {
			if p.Custom(k).Kind != "ok" {
				out = append(out, k)
			}
		}
	}
	return out
}
