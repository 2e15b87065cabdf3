package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/sim/prog"
)

// The worker's protocol (see harness/wk).
type (
	config struct {
		Prop    string   `json:"prop"`
		Seed    uint64   `json:"seed"`
		Worker  int      `json:"worker"`
		Workers int      `json:"workers"`
		Runs    int      `json:"runs"`
		Budget  float64  `json:"budget"`
		Known   []string `json:"known,omitempty"`
		Digest  bool     `json:"digest,omitempty"`
		NoMin   bool     `json:"nomin,omitempty"`
		First   int      `json:"first,omitempty"`
	}
	replayFile struct {
		Property string          `json:"property"`
		Engine   string          `json:"engine"`
		Kind     string          `json:"kind"`
		Msg      string          `json:"msg"`
		Seed     uint64          `json:"seed"`
		RunSeed  uint64          `json:"run_seed"`
		Seeds    []uint64        `json:"programs,omitempty"`
		Plan     json.RawMessage `json:"plan,omitempty"`
		Schedule json.RawMessage `json:"schedule,omitempty"`
		Prefix   *config         `json:"prefix,omitempty"`
		Index    int             `json:"index,omitempty"`
		Race     bool            `json:"race,omitempty"`
		Digest   string          `json:"digest"`
		Faults   map[string]int  `json:"faults,omitempty"`
		Trace    []string        `json:"trace,omitempty"`
	}
	stats struct {
		Runs       int            `json:"runs"`
		Checks     int            `json:"checks"`
		Yields     int64          `json:"yields"`
		Picks      int64          `json:"picks"`
		SimNs      int64          `json:"sim_ns"`
		Faults     map[string]int `json:"faults"`
		Reach      map[string]int `json:"reach"`
		Traces     []uint64       `json:"traces"`
		Nontrivial int            `json:"nontrivial"`
		Sites      int            `json:"sites"`
		MaxParked  int            `json:"max_parked"`
		Wall       float64        `json:"wall"`
		Known      map[string]int `json:"known,omitempty"`
		Errs       map[string]int `json:"errs,omitempty"`
		Samples    []string       `json:"samples"`
		Modes      map[string]int `json:"modes"`
	}
	line struct {
		Type   string      `json:"type"`
		Index  int         `json:"index"`
		Stats  *stats      `json:"stats,omitempty"`
		Replay *replayFile `json:"replay,omitempty"`
		Digest string      `json:"digest,omitempty"`
		Sig    string      `json:"sig,omitempty"`
	}
)

// found is a violation reported by a worker.
type found struct {
	raw, min *replayFile
	crash    string // the worker died or hung instead
	worker   int
	index    int
}

type round struct {
	bin   string
	race  bool
	seeds []uint64
	sites int
}

type checkRun struct {
	e       *env
	prop    string
	spec    *propSpec
	seed    uint64
	known   []string
	workers int

	mu      sync.Mutex
	total   stats
	traces  map[uint64]bool
	runs    int // begun
	founds  []*found
	trouble []string
	knownAt map[string]int
	digests int
}

func envInt(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "", "quick or thorough (default $VERIF_TIER or quick)")
	budget := fs.Float64("budget", 0, "search seconds (per round)")
	rounds := fs.Int("rounds", 0, "rounds with fresh programs")
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	spec := props[*prop]
	if spec == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := uint64(envInt("VERIF_SEED", 1))
	begin := time.Now()
	work, err := os.MkdirTemp("", "sim-"+*prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := func() int {
		defer os.RemoveAll(work)
		return check(*prop, spec, *tier, seed, *budget, *rounds, *verif, *repo, work, begin)
	}()
	os.Exit(code)
}

func check(prop string, spec *propSpec, tier string, seed uint64, budget float64, rounds int, verif, repo, work string, begin time.Time) int {
	c := &checkRun{prop: prop, spec: spec, seed: seed, workers: 8, traces: map[uint64]bool{}, knownAt: map[string]int{}}
	c.total = stats{Faults: map[string]int{}, Reach: map[string]int{}, Known: map[string]int{}, Errs: map[string]int{}, Modes: map[string]int{}}
	listed := loadKnown(filepath.Join(verif, "known-findings.txt"), prop)
	for _, k := range listed {
		c.known = append(c.known, k.Sig)
	}
	if rounds == 0 {
		rounds = 1
		if tier == "thorough" {
			rounds = spec.thoroughRounds()
		}
	}
	if budget == 0 {
		budget = spec.budget(tier)
	}
	// the whole check has to end within 900 s
	var confirmed *replayFile
	var seedsAll []uint64
	var builds []string
	for r := 0; r < rounds && confirmed == nil; r++ {
		rw := filepath.Join(work, fmt.Sprintf("r%d", r))
		if err := os.MkdirAll(rw, 0o755); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		c.e = &env{repo: repo, sim: filepath.Join(verif, "sim"), work: rw}
		rseed := seed
		if r > 0 {
			rseed = prog.Hash("round", fmt.Sprint(seed), fmt.Sprint(r)) >> 1
		}
		en := engines[spec.engine]
		var seeds []uint64
		if en.gen {
			seeds = pickPrograms(prop, rseed, spec.programs)
		}
		seedsAll = append(seedsAll, seeds...)
		bin, sites, err := c.e.build(en, seeds, false)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			fmt.Fprintln(os.Stderr, "check error: the simulation could not be built")
			return 2
		}
		builds = append(builds, fmt.Sprintf("%d scheduling points instrumented", sites))
		c.total.Sites = max(c.total.Sites, sites)
		rd := &round{bin: bin, seeds: seeds, sites: sites}
		c.search(rd, rseed, budget)
		if confirmed = c.confirm(rd, rseed); confirmed == nil && r == 0 {
			c.determinism(rd, rseed)
		}
		if rounds > 1 {
			os.RemoveAll(rw)
		}
	}
	viol := 0
	if confirmed != nil {
		viol = 1
	}
	c.evidence(verif, tier, begin, viol, seedsAll, rounds)
	for _, k := range listed {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
	}
	for e, n := range c.total.Errs {
		c.trouble = append(c.trouble, fmt.Sprintf("%d runs could not be made: %s", n, e))
	}
	if confirmed != nil {
		path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%d-%016x.json", prop, seed, prog.Hash(confirmed.Kind, confirmed.Msg, confirmed.Digest)))
		os.MkdirAll(filepath.Dir(path), 0o755)
		b, _ := json.MarshalIndent(confirmed, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("%s: %s\n", confirmed.Kind, confirmed.Msg)
		for _, t := range confirmed.Trace {
			fmt.Println("   ", t)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	if c.total.Runs == 0 || len(c.trouble) > 0 {
		for _, t := range c.trouble {
			fmt.Fprintln(os.Stderr, "check error:", t)
		}
		if c.total.Runs == 0 {
			fmt.Fprintln(os.Stderr, "check error: no run was completed")
		}
		return 3
	}
	fmt.Printf("%s held: %d runs, %d distinct schedules, %v simulated, %d oracle checks\n", prop, c.total.Runs, len(c.traces), time.Duration(c.total.SimNs).Round(time.Second), c.total.Checks)
	return 0
}

// pickPrograms chooses program seeds that have the features the property
// talks about.
func pickPrograms(prop string, seed uint64, n int) []uint64 {
	var out []uint64
	names := map[string]bool{}
	for k := 0; len(out) < n && k < 50*n; k++ {
		s := prog.Hash("program", prop, fmt.Sprint(seed), fmt.Sprint(k)) >> 12
		p := prog.Generate(s)
		if names[p.Name] || !prog.Suits(p, prop) {
			continue
		}
		names[p.Name] = true
		out = append(out, s)
	}
	return out
}

// worker runs one worker process and feeds its lines to fn.
func (c *checkRun) worker(bin, mode, cfg string, quiet time.Duration, stop <-chan struct{}, fn func(line)) (stderr string, hung bool, err error) {
	cmd := exec.Command(bin, mode, cfg)
	cmd.Env = append(os.Environ(), "GODEBUG=", "GOTRACEBACK=all", "GOGC=200", "TZ=UTC", "SIM_SCRATCH="+filepath.Join(c.e.work, "scratch"), "SIM_WORK="+c.e.work)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var eb tailBuffer
	cmd.Stderr = &eb
	out, err := cmd.StdoutPipe()
	if err != nil {
		return "", false, err
	}
	if err := cmd.Start(); err != nil {
		return "", false, err
	}
	alive := make(chan struct{}, 1)
	done := make(chan struct{})
	var hungFlag bool
	go func() {
		t := time.NewTimer(quiet)
		defer t.Stop()
		for {
			select {
			case <-alive:
				t.Reset(quiet)
			case <-stop:
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				return
			case <-done:
				return
			case <-t.C:
				hungFlag = true
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(3 * time.Second)
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				return
			}
		}
	}()
	rd := bufio.NewReaderSize(out, 1<<20)
	for {
		b, rerr := rd.ReadBytes('\n')
		if len(b) > 0 && b[0] == '{' {
			var l line
			if json.Unmarshal(b, &l) == nil {
				select {
				case alive <- struct{}{}:
				default:
				}
				fn(l)
			}
		}
		if rerr != nil {
			break
		}
	}
	err = cmd.Wait()
	close(done)
	return eb.String(), hungFlag, err
}

// tailBuffer keeps the head and the tail of what is written.
type tailBuffer struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	q := p
	if n := 64<<10 - len(t.head); n > 0 {
		n = min(n, len(q))
		t.head = append(t.head, q[:n]...)
		q = q[n:]
	}
	t.tail = append(t.tail, q...)
	if len(t.tail) > 128<<10 {
		t.tail = t.tail[len(t.tail)-64<<10:]
	}
	return len(p), nil
}

func (t *tailBuffer) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.tail)
}

func (c *checkRun) writeJSON(name string, v any) string {
	p := filepath.Join(c.e.work, name)
	b, _ := json.Marshal(v)
	os.WriteFile(p, b, 0o644)
	return p
}

const quietLimit = 90 * time.Second

// search runs the workers for the budget.
func (c *checkRun) search(rd *round, seed uint64, budget float64) {
	stop := make(chan struct{})
	var once sync.Once
	finish := func(after time.Duration) {
		once.Do(func() {
			go func() {
				time.Sleep(after)
				close(stop)
			}()
		})
	}
	var wg sync.WaitGroup
	for w := 0; w < c.workers; w++ {
		cfg := config{Prop: c.prop, Seed: seed, Worker: w, Workers: c.workers, Budget: budget, Known: c.known}
		path := c.writeJSON(fmt.Sprintf("cfg%d.json", w), cfg)
		wg.Add(1)
		go func() {
			defer wg.Done()
			f := &found{worker: w, index: -1}
			last, gotStat, reported := -1, false, false
			errText, hung, err := c.worker(rd.bin, "search", path, quietLimit, stop, func(l line) {
				c.mu.Lock()
				defer c.mu.Unlock()
				switch l.Type {
				case "begin":
					last = l.Index
					c.runs++
				case "viol":
					f.raw, f.index = l.Replay, l.Index
					c.founds = append(c.founds, f)
					reported = true
					finish(35 * time.Second)
				case "min":
					f.min = l.Replay
					finish(0)
				case "known":
					c.knownAt[l.Sig] = l.Index
				case "stat":
					gotStat = true
					c.add(l.Stats)
					if reported {
						finish(0)
					}
				}
			})
			c.mu.Lock()
			defer c.mu.Unlock()
			select {
			case <-stop:
				return
			default:
			}
			if gotStat || reported {
				return
			}
			// the worker died
			cfg.Budget = 0
			f.raw = &replayFile{Property: c.prop, Seed: seed, Prefix: &cfg, Index: last}
			f.index = last
			f.crash = errText
			switch {
			case hung:
				f.raw.Kind = "stuck"
				f.raw.Msg = fmt.Sprintf("run %d did not end within %v of real time\n%s", last, quietLimit, clip(errText, 4000))
			case last >= 0:
				f.raw.Kind = "crash"
				f.raw.Msg = "the simulated process died:\n" + clip(crashText(errText), 5000)
			default:
				c.trouble = append(c.trouble, fmt.Sprintf("worker %d failed: %v\n%s", w, err, clip(errText, 3000)))
				return
			}
			c.founds = append(c.founds, f)
			finish(0)
		}()
	}
	wg.Wait()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var crashRE = regexp.MustCompile(`(?m)^(panic: |fatal error: |runtime: |unexpected fault|SIG)`)

func crashText(s string) string {
	if loc := crashRE.FindStringIndex(s); loc != nil {
		return s[loc[0]:]
	}
	return s
}

// repoCrash tells whether the first goroutine of a crash runs repository code.
func repoCrash(s string) bool {
	t := crashText(s)
	head, _, _ := strings.Cut(t, "\n\ngoroutine ")
	_, rest, ok := strings.Cut(t, "\n\ngoroutine ")
	if ok {
		first, _, _ := strings.Cut(rest, "\n\ngoroutine ")
		head += first
	}
	return strings.Contains(head, "github.com/mercari/grpc-federation/") || strings.Contains(head, "verif.local/harness/gen/") || strings.Contains(head, "go.lsp.dev/") || strings.Contains(head, "wazero")
}

func (c *checkRun) add(s *stats) {
	t := &c.total
	t.Runs += s.Runs
	t.Checks += s.Checks
	t.Yields += s.Yields
	t.Picks += s.Picks
	t.SimNs += s.SimNs
	t.Nontrivial += s.Nontrivial
	t.MaxParked = max(t.MaxParked, s.MaxParked)
	t.Wall += s.Wall
	for _, x := range []struct{ d, s map[string]int }{{t.Faults, s.Faults}, {t.Reach, s.Reach}, {t.Known, s.Known}, {t.Errs, s.Errs}, {t.Modes, s.Modes}} {
		for k, n := range x.s {
			x.d[k] += n
		}
	}
	for _, h := range s.Traces {
		c.traces[h] = true
	}
	if len(t.Samples) < 6 {
		t.Samples = append(t.Samples, s.Samples...)
	}
}

// replayOnce runs a replay file in a fresh process.
func (c *checkRun) replayOnce(bin string, r *replayFile, name string) (*replayFile, string, bool) {
	path := c.writeJSON(name, r)
	var got *replayFile
	errText, hung, _ := c.worker(bin, "replay", path, quietLimit, nil, func(l line) {
		if l.Type == "replay" {
			got = l.Replay
		}
	})
	return got, errText, hung
}

// confirm replays what the workers found until something reproduces.
func (c *checkRun) confirm(rd *round, seed uint64) *replayFile {
	sort.Slice(c.founds, func(i, j int) bool {
		a, b := c.founds[i], c.founds[j]
		if (a.min != nil) != (b.min != nil) {
			return a.min != nil
		}
		return a.worker < b.worker
	})
	finish := func(r *replayFile) *replayFile {
		r.Engine, r.Seeds, r.Property = c.spec.engine, rd.seeds, c.prop
		return r
	}
	kinds := map[string]int{}
	for n, f := range c.founds {
		kinds[f.raw.Kind]++
		if n >= 4 {
			continue
		}
		switch f.raw.Kind {
		case "crash", "stuck":
			got, errText, hung := c.replayOnce(rd.bin, f.raw, fmt.Sprintf("rep%d.json", n))
			if got == nil && (hung && f.raw.Kind == "stuck" || f.raw.Kind == "crash" && repoCrash(errText)) {
				if f.raw.Kind == "stuck" {
					f.raw.Msg = clip(f.raw.Msg, 200) + "\n" + clip(errText, 5000)
				}
				return finish(f.raw)
			}
			c.trouble = append(c.trouble, fmt.Sprintf("%s of worker %d at run %d could not be attributed to the repository or did not recur:\n%s", f.raw.Kind, f.worker, f.index, clip(f.raw.Msg, 3000)))
			continue
		}
		for _, r := range []*replayFile{f.min, f.raw} {
			if r == nil {
				continue
			}
			got, errText, _ := c.replayOnce(rd.bin, r, fmt.Sprintf("rep%d.json", n))
			if got != nil && got.Kind == r.Kind {
				if r.Digest != got.Digest {
					c.e.logf("note: the replay shows the same violation with digest %s, not %s", got.Digest, r.Digest)
				}
				return finish(r)
			}
			if got != nil {
				c.e.logf("replay did not reproduce %s (%s), got %q", r.Kind, r.Msg, clip(got.Msg, 300))
			} else {
				c.e.logf("replay failed: %s", clip(errText, 2000))
			}
		}
	}
	for _, f := range c.founds {
		if f.crash == "" && kinds[f.raw.Kind] > 1 {
			// seen by several independent workers, though not in a fresh process
			return finish(f.raw)
		}
	}
	for _, f := range c.founds {
		if f.crash == "" {
			c.trouble = append(c.trouble, fmt.Sprintf("%s could not be reproduced: %s", f.raw.Kind, clip(f.raw.Msg, 2000)))
		}
	}
	return nil
}

// determinism repeats the first runs of a worker in two fresh processes and
// compares the digests of their complete event and schedule history.
func (c *checkRun) determinism(rd *round, seed uint64) {
	var got [2][]string
	var wg sync.WaitGroup
	for i := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cfg := config{Prop: c.prop, Seed: seed, Worker: i * 0, Workers: c.workers, Runs: 6, Known: c.known, Digest: true, NoMin: true}
			path := c.writeJSON(fmt.Sprintf("det%d.json", i), cfg)
			c.worker(rd.bin, "search", path, quietLimit, nil, func(l line) {
				if l.Type == "digest" {
					got[i] = append(got[i], l.Digest)
				}
			})
		}()
	}
	wg.Wait()
	c.digests = len(got[0])
	if strings.Join(got[0], " ") != strings.Join(got[1], " ") {
		c.trouble = append(c.trouble, fmt.Sprintf("the simulation is not deterministic: repeated runs gave digests %v and %v", got[0], got[1]))
	}
}

type knownFinding struct{ Sig, What string }

var knownRE = regexp.MustCompile(`^known: property=(\S+) sig=(\S+) (.*)$`)

// loadKnown reads the committed list of genuine, unrepaired defects.
func loadKnown(path, prop string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if m := knownRE.FindStringSubmatch(l); m != nil && m[1] == prop {
			out = append(out, knownFinding{m[2], m[3]})
		}
	}
	return out
}

func (c *checkRun) evidence(verif, tier string, begin time.Time, viol int, seeds []uint64, rounds int) {
	t := &c.total
	wall := time.Since(begin).Seconds()
	perHour := 0.0
	if t.Wall > 0 {
		perHour = float64(t.Runs) / t.Wall * 3600 * float64(c.workers)
	}
	runs := t.Runs
	if runs == 0 {
		runs = c.runs
	}
	samples := []any{}
	for _, s := range t.Samples {
		samples = append(samples, s)
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if len(samples) == 0 {
		samples = append(samples, fmt.Sprintf("stopped after %d runs by a violation", runs))
	}
	distinct := len(c.traces)
	if distinct == 0 {
		distinct = min(runs, 1)
	}
	ev := map[string]any{
		"property": c.prop, "tier": tier, "seed": c.seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         runs,
			"distinct_nontrivial": min(distinct, max(t.Nontrivial, min(distinct, 1))),
			"rule": "one evaluation is one simulated run of the system: " + c.spec.rule +
				" Distinct: runs whose hash over the whole schedule (which goroutine ran at which scheduling point, in order) and fault sequence differs; non-trivial: at least two goroutines were runnable at a decision of the seeded scheduler.",
			"samples":                    samples,
			"oracle_checks":              t.Checks,
			"runs_with_choice":           t.Nontrivial,
			"simulated_runs_per_hour":    int(perHour),
			"seeds_per_hour":             int(perHour),
			"simulated_time":             time.Duration(t.SimNs).Round(time.Millisecond).String(),
			"scheduling_points_passed":   t.Yields,
			"scheduling_decisions":       t.Picks,
			"scheduling_points_in_code":  t.Sites,
			"most_goroutines_waiting":    t.MaxParked,
			"schedule_strategies":        len(t.Modes),
			"faults_injected":            t.Faults,
			"situations_reached":         t.Reach,
			"program_seeds":              seeds,
			"rounds":                     rounds,
			"runs_repeated_for_equality": c.digests,
			"known_findings_seen":        t.Known,
			"components_real":            c.spec.real,
			"components_simulated":       c.spec.stub,
		},
		"assumptions": c.spec.assume,
		"wall_s":      wall,
		"violations":  viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	if fs.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: simctl replay FILE")
		os.Exit(2)
	}
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	work, err := os.MkdirTemp("", "sim-replay-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := func() int {
		defer os.RemoveAll(work)
		c := &checkRun{e: &env{repo: *repo, sim: filepath.Join(*verif, "sim"), work: work}, prop: r.Property}
		bin, _, err := c.e.build(engines[r.Engine], r.Seeds, r.Race)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		got, errText, hung := c.replayOnce(bin, &r, "replay.json")
		if got == nil {
			if r.Kind == "stuck" && hung || r.Kind == "crash" && repoCrash(errText) {
				fmt.Println(clip(crashText(errText), 6000))
				fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
				return 1
			}
			fmt.Fprintln(os.Stderr, clip(errText, 4000))
			return 2
		}
		for _, t := range got.Trace {
			fmt.Println("   ", t)
		}
		if got.Kind == r.Kind {
			fmt.Printf("%s: %s\n", got.Kind, got.Msg)
			if got.Digest == r.Digest {
				fmt.Println("digest equal:", got.Digest)
			} else {
				fmt.Printf("digest %s, recorded %s\n", got.Digest, r.Digest)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
			return 1
		}
		fmt.Printf("the recorded violation (%s) does not occur\n%s\n", r.Kind, got.Msg)
		return 0
	}()
	os.Exit(code)
}

var _ = bytes.MinRead
