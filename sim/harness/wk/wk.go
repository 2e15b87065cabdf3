//go:build simruntime

// Package wk is the worker side shared by the engines: runs plans, reports
// outcomes, minimises failures.
package wk

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif.local/sim/prog"
	"verif.local/sim/simrt"
)

// Violation of one or more properties.
type Violation struct {
	Props []string `json:"props"`
	Kind  string   `json:"kind"` // stable class name, used for minimisation
	Sig   string   `json:"sig,omitempty"`
	Msg   string   `json:"msg"`
}

func (v Violation) has(prop string) bool {
	for _, p := range v.Props {
		if p == prop {
			return true
		}
	}
	return false
}

// Outcome of one run.
type Outcome struct {
	Err        string // the run itself could not be done
	Res        *simrt.Result
	Violations []Violation
	Faults     map[string]int // fault kinds that took effect
	Checks     int            // oracle evaluations
	Reach      map[string]int
	Key        string // what makes this run distinct besides its schedule
}

func (o *Outcome) Add(kind, msg string, props ...string) {
	o.Violations = append(o.Violations, Violation{Props: props, Kind: kind, Msg: msg})
}

// Engine is one simulated part of the repository.
type Engine interface {
	Plan(prop string, seed uint64) any
	Decode(b []byte) (any, error)
	Run(plan any, opt simrt.Options) *Outcome
	Shrink(plan any) []any
}

// Config of a worker process.
type Config struct {
	Prop    string   `json:"prop"`
	Seed    uint64   `json:"seed"`
	Worker  int      `json:"worker"`
	Workers int      `json:"workers"`
	Runs    int      `json:"runs"`   // per worker; 0: until the budget is spent
	Budget  float64  `json:"budget"` // seconds
	Known   []string `json:"known,omitempty"`
	Digest  bool     `json:"digest,omitempty"` // report a digest per run
	NoMin   bool     `json:"nomin,omitempty"`
}

// Replay is the replay file.
type Replay struct {
	Property string          `json:"property"`
	Engine   string          `json:"engine"`
	Kind     string          `json:"kind"`
	Msg      string          `json:"msg"`
	Seed     uint64          `json:"seed"`
	RunSeed  uint64          `json:"run_seed"`
	Seeds    []uint64        `json:"programs,omitempty"`
	Plan     json.RawMessage `json:"plan"`
	Schedule *simrt.Schedule `json:"schedule"`
	Prefix   *Config         `json:"prefix,omitempty"` // replay by repeating a worker's runs up to Index
	Index    int             `json:"index,omitempty"`
	Digest   string          `json:"digest"`
	Faults   map[string]int  `json:"faults,omitempty"`
	Trace    []string        `json:"trace,omitempty"`
}

// Stats of a worker.
type Stats struct {
	Runs       int            `json:"runs"`
	Checks     int            `json:"checks"`
	Yields     int64          `json:"yields"`
	Picks      int64          `json:"picks"`
	SimNs      int64          `json:"sim_ns"`
	Faults     map[string]int `json:"faults"`
	Reach      map[string]int `json:"reach"`
	Traces     []uint64       `json:"traces"`
	Nontrivial int            `json:"nontrivial"` // runs whose schedule had at least one choice among several goroutines
	Sites      int            `json:"sites"`
	MaxParked  int            `json:"max_parked"`
	Wall       float64        `json:"wall"`
	Known      map[string]int `json:"known,omitempty"`
	Errs       map[string]int `json:"errs,omitempty"`
	Samples    []string       `json:"samples"`
	Modes      map[string]int `json:"modes"`
}

// Line of worker output.
type Line struct {
	Type   string  `json:"type"` // begin, stat, viol, digest
	Index  int     `json:"index"`
	Stats  *Stats  `json:"stats,omitempty"`
	Replay *Replay `json:"replay,omitempty"`
	Digest string  `json:"digest,omitempty"`
	Sig    string  `json:"sig,omitempty"`
}

func RunSeed(seed uint64, prop string, idx int) uint64 {
	return prog.Hash("run", prop, fmt.Sprint(seed), fmt.Sprint(idx))
}

var out = bufio.NewWriter(os.Stdout)

func emit(l Line) {
	b, _ := json.Marshal(l)
	out.Write(b)
	out.WriteByte('\n')
	out.Flush()
}

// Main is the worker program.
func Main(e Engine) {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: worker search|replay FILE")
		os.Exit(2)
	}
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "search":
		var c Config
		check(json.Unmarshal(b, &c))
		search(e, c)
	case "replay":
		var r Replay
		check(json.Unmarshal(b, &r))
		replay(e, &r)
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func relevant(o *Outcome, prop string, known map[string]bool) (*Violation, []string) {
	var ks []string
	for i := range o.Violations {
		v := &o.Violations[i]
		if !v.has(prop) {
			continue
		}
		if v.Sig != "" && known[v.Sig] {
			ks = append(ks, v.Sig)
			continue
		}
		return v, ks
	}
	return nil, ks
}

func search(e Engine, c Config) {
	st := &Stats{Faults: map[string]int{}, Reach: map[string]int{}, Known: map[string]int{}, Errs: map[string]int{}, Modes: map[string]int{}}
	begin := time.Now()
	if f := os.Getenv("SIM_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	known := map[string]bool{}
	for _, k := range c.Known {
		known[k] = true
	}
	triage := os.Getenv("SIM_TRIAGE") != ""
	triageMax, _ := strconv.Atoi(os.Getenv("SIM_TRIAGE"))
	seen := map[uint64]bool{}
	for k := 0; c.Runs == 0 || k < c.Runs; k++ {
		if c.Budget > 0 && time.Since(begin).Seconds() > c.Budget {
			break
		}
		idx := c.Worker + k*c.Workers
		rs := RunSeed(c.Seed, c.Prop, idx)
		emit(Line{Type: "begin", Index: idx})
		plan := e.Plan(c.Prop, rs)
		o := e.Run(plan, simrt.Options{Seed: rs, MapSeed: rs | 1})
		if o.Err != "" {
			st.Errs[o.Err]++
			continue
		}
		st.Runs++
		st.Checks += o.Checks
		if r := o.Res; r != nil {
			st.Yields += int64(r.Yields)
			st.Picks += int64(r.Picks)
			st.SimNs += int64(r.SimTime)
			st.Sites = r.Sites
			st.MaxParked = max(st.MaxParked, r.MaxParked)
			st.Modes[r.Sched.Mode]++
			if r.MaxParked > 1 {
				st.Nontrivial++
			}
			h := r.Trace ^ prog.Hash(o.Key)
			if !seen[h] {
				seen[h] = true
				st.Traces = append(st.Traces, h)
			}
			if c.Digest {
				emit(Line{Type: "digest", Index: idx, Digest: fmt.Sprintf("%016x-%016x-%d", r.Digest, r.Trace, r.Yields)})
			}
			if len(st.Samples) < 3 && k%37 == 3 {
				st.Samples = append(st.Samples, fmt.Sprintf("run %d seed %d schedule %s: %d scheduling points, %d decisions, simulated %v, %d events, faults %v", idx, rs, r.Sched.Mode, r.Yields, r.Picks, r.SimTime, len(r.Events), o.Faults))
			}
		}
		for f, n := range o.Faults {
			st.Faults[f] += n
		}
		for f, n := range o.Reach {
			st.Reach[f] += n
		}
		v, ks := relevant(o, c.Prop, known)
		for _, s := range ks {
			if st.Known[s] == 0 {
				emit(Line{Type: "known", Index: idx, Sig: s})
			}
			st.Known[s]++
		}
		if v == nil {
			continue
		}
		if triage {
			for _, v := range o.Violations {
				if v.has(c.Prop) && !(v.Sig != "" && known[v.Sig]) {
					st.Reach["!"+v.Kind]++
					if n := st.Reach["!"+v.Kind]; n == 1 || n <= triageMax {
						fmt.Fprintf(os.Stderr, "TRIAGE %s idx %d %s: %s\n", c.Prop, idx, v.Kind, v.Msg)
					}
				}
			}
			continue
		}
		rep := &Replay{Property: c.Prop, Seed: c.Seed, RunSeed: rs}
		fill(rep, plan, o, v)
		cc := c
		cc.Digest = false
		raw := *rep
		raw.Prefix, raw.Index = &cc, idx
		emit(Line{Type: "viol", Index: idx, Replay: &raw})
		if !c.NoMin {
			p2, o2, v2 := minimise(e, plan, o, v, rs, c.Prop, known)
			fill(rep, p2, o2, v2)
			emit(Line{Type: "min", Index: idx, Replay: rep})
		}
		break
	}
	if f := os.Getenv("SIM_SITES"); f != "" {
		b, _ := json.Marshal(simrt.SiteHits())
		os.WriteFile(f, b, 0o644)
	}
	st.Wall = time.Since(begin).Seconds()
	emit(Line{Type: "stat", Stats: st})
}

func fill(r *Replay, plan any, o *Outcome, v *Violation) {
	r.Plan, _ = json.Marshal(plan)
	r.Schedule = o.Res.Sched
	r.Kind, r.Msg = v.Kind, v.Msg
	r.Digest = fmt.Sprintf("%016x", o.Res.Digest)
	r.Faults = o.Faults
	r.Trace = o.Res.Events
	if len(r.Trace) > 400 {
		r.Trace = append(append([]string{}, r.Trace[:400]...), fmt.Sprintf("... %d more", len(r.Trace)-400))
	}
}

func sameKind(o *Outcome, kind, prop string, known map[string]bool) *Violation {
	for i := range o.Violations {
		v := &o.Violations[i]
		if v.Kind == kind && v.has(prop) && !(v.Sig != "" && known[v.Sig]) {
			return v
		}
	}
	return nil
}

// minimise reduces the plan, then the schedule, keeping the kind of violation.
func minimise(e Engine, plan any, o *Outcome, v *Violation, rs uint64, prop string, known map[string]bool) (any, *Outcome, *Violation) {
	end := time.Now().Add(25 * time.Second)
	clone := func(p any) any {
		b, _ := json.Marshal(p)
		q, err := e.Decode(b)
		check(err)
		return q
	}
	try := func(p any, opt simrt.Options) bool {
		opt.Seed, opt.MapSeed = rs, rs|1
		o2 := e.Run(clone(p), opt)
		if o2.Err != "" || o2.Res == nil {
			return false
		}
		if v2 := sameKind(o2, v.Kind, prop, known); v2 != nil {
			plan, o, v = p, o2, v2
			return true
		}
		return false
	}
	schedules := func(p any) bool {
		if try(p, simrt.Options{Plain: true}) || try(p, simrt.Options{Replay: o.Res.Sched}) {
			return true
		}
		for k := 0; k < 12 && time.Now().Before(end); k++ {
			s := prog.Hash("min", fmt.Sprint(rs), fmt.Sprint(k))
			o2 := e.Run(clone(p), simrt.Options{Seed: s, MapSeed: rs | 1})
			if o2.Err == "" && sameKind(o2, v.Kind, prop, known) != nil {
				// confirm as a replayed schedule under the file's seed
				if try(p, simrt.Options{Replay: o2.Res.Sched}) {
					return true
				}
			}
		}
		return false
	}
	for progress := true; progress && time.Now().Before(end); {
		progress = false
		for _, c := range e.Shrink(clone(plan)) {
			if time.Now().After(end) {
				break
			}
			if schedules(c) {
				progress = true
				break
			}
		}
	}
	// schedule: fewer parks, then fewer non-default picks
	if !try(plan, simrt.Options{Replay: &simrt.Schedule{Mode: "minimised"}}) {
		s := o.Res.Sched
		for n := 2; len(s.Parks) > 0 && time.Now().Before(end); {
			size := (len(s.Parks) + n - 1) / n
			done := false
			for i := 0; i < len(s.Parks) && time.Now().Before(end); i += size {
				c := &simrt.Schedule{Mode: "minimised", Picks: s.Picks, Stalls: s.Stalls}
				c.Parks = append(append(c.Parks, s.Parks[:i]...), s.Parks[min(len(s.Parks), i+size):]...)
				if try(plan, simrt.Options{Replay: c}) {
					// keep what was asked for, not what was executed
					s = &simrt.Schedule{Mode: "minimised", Parks: o.Res.Sched.Parks, Picks: o.Res.Sched.Picks, Stalls: o.Res.Sched.Stalls}
					n = max(n-1, 2)
					done = true
					break
				}
			}
			if !done {
				if size == 1 {
					break
				}
				n = min(n*2, len(s.Parks))
			}
		}
		for i := 0; i < len(s.Picks) && time.Now().Before(end); i++ {
			if s.Picks[i] == 0 {
				continue
			}
			c := &simrt.Schedule{Mode: "minimised", Parks: s.Parks, Stalls: s.Stalls, Picks: append([]uint16{}, s.Picks...)}
			c.Picks[i] = 0
			if try(plan, simrt.Options{Replay: c}) {
				s = o.Res.Sched
			}
		}
	}
	return plan, o, v
}

func replay(e Engine, r *Replay) {
	var o *Outcome
	if r.Prefix != nil {
		c := *r.Prefix
		for idx := c.Worker; idx <= r.Index; idx += c.Workers {
			rs := RunSeed(c.Seed, c.Prop, idx)
			emit(Line{Type: "begin", Index: idx})
			o = e.Run(e.Plan(c.Prop, rs), simrt.Options{Seed: rs, MapSeed: rs | 1})
		}
	} else {
		plan, err := e.Decode(r.Plan)
		check(err)
		emit(Line{Type: "begin"})
		o = e.Run(plan, simrt.Options{Seed: r.RunSeed, MapSeed: r.RunSeed | 1, Replay: r.Schedule})
	}
	if o.Err != "" {
		fmt.Fprintln(os.Stderr, o.Err)
		os.Exit(2)
	}
	got := &Replay{}
	for i := range o.Violations {
		v := &o.Violations[i]
		if v.has(r.Property) && v.Kind == r.Kind {
			fill(got, nil, o, v)
			break
		}
	}
	if got.Kind == "" {
		got.Digest = fmt.Sprintf("%016x", o.Res.Digest)
		got.Trace = o.Res.Events
		var ks []string
		for _, v := range o.Violations {
			ks = append(ks, v.Kind+":"+strings.Join(v.Props, ",")+" "+v.Msg)
		}
		sort.Strings(ks)
		got.Msg = strings.Join(ks, "\n")
	}
	emit(Line{Type: "replay", Replay: got})
}
