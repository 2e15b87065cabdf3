//go:build simruntime

// Package simrt is the deterministic scheduler. A run executes inside one
// synctest bubble on one P of the patched runtime; every instrumented
// statement is a scheduling point at which the running goroutine may be
// parked, and a controller goroutine picks which parked goroutine continues.
// All choices come from one PRNG (or from a recorded schedule).
package simrt

import (
	"fmt"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"testing/synctest"
	"time"
	"unsafe"
)

// PRNG is splitmix64.
type PRNG struct{ s uint64 }

func NewPRNG(seed uint64) *PRNG { return &PRNG{seed*0x9e3779b97f4a7c15 + 0x1234567} }

//go:norace
func mix(x uint64) uint64 {
	p := PRNG{x}
	return p.U64()
}

//go:norace
func (p *PRNG) U64() uint64 {
	p.s += 0x9e3779b97f4a7c15
	z := p.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (p *PRNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(p.U64() % uint64(n))
}

// P is true with probability num/den.
//
//go:norace
func (p *PRNG) P(num, den int) bool { return p.Intn(den) < num }

// Schedule is everything the controller decided in a run.
type Schedule struct {
	Mode   string   `json:"mode"`             // how it was produced (information)
	Parks  []uint32 `json:"parks"`            // indexes of scheduling points at which the running goroutine was parked
	Stalls []Stall  `json:"stalls,omitempty"` // parks that last for simulated time
	Picks  []uint16 `json:"picks"`            // which of the parked goroutines (by park order) continued, per decision
}

type Stall struct {
	Yield uint32 `json:"yield"`
	Ns    int64  `json:"ns"`
}

// Options of one run.
type Options struct {
	Seed     uint64
	Replay   *Schedule     // nil: decide from Seed
	Horizon  time.Duration // simulated time after which an unfinished run is hung
	MaxYield uint32        // step cap
	Stalls   bool          // allow goroutine stalls in simulated time
	Late     bool          // stall at synchronisation points
	Grace    time.Duration // simulated time after the workload before counting leaks
	MapSeed  uint64
	Plain    bool // never park (used for warm-up)
}

// Result of one run.
type Result struct {
	Hang      bool
	HangDump  string
	StepCap   bool
	Leaked    int
	LeakDump  string
	SimTime   time.Duration
	Yields    uint32
	Picks     int
	Stalls    int
	MaxParked int
	Trace     uint64 // hash of the sequence of (goroutine, scheduling point) decisions
	Sched     *Schedule
	Events    []string
	Digest    uint64
	Notes     map[string]int
	Sites     int
}

type task struct {
	id     int
	g      unsafe.Pointer
	parked bool
	site   uint32
	until  int64 // ns since start; 0 = not stalled
	prio   uint64
}

const (
	maxTasks  = 1 << 13
	maxYields = 1 << 22
)

type run struct {
	id       uintptr
	opt      Options
	rng      PRNG
	parkDen  int
	mode     int
	stallDen int
	stallKey uint64 // chooses the synchronisation points that stall, 0: any point
	pctPts   [4]uint32
	tasks    []*task // fixed capacity
	ntask    int
	parked   []*task // fixed capacity, in park order
	nparked  int
	yields   uint32
	free     bool
	done     bool
	stepcap  bool
	ctrlIdle bool
	ctrl     unsafe.Pointer
	start    time.Time
	parks    []uint32
	nparks   int
	picks    []uint16
	npicks   int
	stalls   []Stall
	stallSum int64
	rparks   []uint32
	rparkIdx int
	rpickIdx int
	rstall   map[uint32]int64
	trace    uint64
	events   []string
	digest   uint64
	notes    map[string]int
	maxPark  int
	lastTask int
	timerAt  int64
}

var (
	cur      *run
	runSeq   uintptr
	siteHits = make([]uint32, 1<<17)
	nSites   int
)

func init() { runtime.SimYieldFn = yield }

const ctrlMark = ^uintptr(0)

//go:norace
func yield(site uint32) {
	sync := site>>31 != 0
	site &= 1<<31 - 1
	r := cur
	if r == nil || r.free {
		return
	}
	slot := runtime.SimTask()
	if slot == ctrlMark {
		return
	}
	var t *task
	if slot>>16 == r.id {
		t = r.tasks[slot&0xffff]
	} else {
		if slot != 0 || r.ntask >= maxTasks {
			return // goroutine of an earlier run
		}
		t = r.tasks[r.ntask]
		*t = task{id: r.ntask, g: runtime.SimG(), prio: r.rng.U64() | 1<<63}
		runtime.SetSimTask(r.id<<16 | uintptr(r.ntask))
		r.ntask++
	}
	if siteHits[site] == 0 {
		nSites++
	}
	siteHits[site]++
	idx := r.yields
	r.yields++
	if r.yields >= r.opt.MaxYield {
		r.stepcap = true
		r.free = false
		r.park(t, site, 0)
		return
	}
	park := false
	var stall int64
	if r.opt.Replay != nil {
		for r.rparkIdx < len(r.rparks) && r.rparks[r.rparkIdx] < idx {
			r.rparkIdx++
		}
		if r.rparkIdx < len(r.rparks) && r.rparks[r.rparkIdx] == idx {
			park = true
			for i := range r.opt.Replay.Stalls {
				if r.opt.Replay.Stalls[i].Yield == idx {
					stall = r.opt.Replay.Stalls[i].Ns
				}
			}
		}
	} else if !r.opt.Plain && r.parkDen > 0 {
		if r.parkDen == 1 || r.rng.Intn(r.parkDen) == 0 {
			park = true
		}
		if r.stallKey != 0 {
			if sync && mix(uint64(site)^r.stallKey)%12 == 0 && r.stallSum < int64(2*time.Minute) && r.rng.Intn(2) == 0 {
				park = true
				stall = 1 + int64(r.rng.Intn(int([]time.Duration{5 * time.Millisecond, 250 * time.Millisecond, 3 * time.Second}[r.rng.Intn(3)])))
			}
		} else if r.stallDen > 0 && r.stallSum < int64(2*time.Minute) && r.rng.Intn(r.stallDen) == 0 {
			park = true
			switch r.rng.Intn(4) {
			case 0:
				stall = 1 + int64(r.rng.Intn(1000))
			case 1:
				stall = int64(r.rng.Intn(int(5 * time.Millisecond)))
			case 2:
				stall = int64(r.rng.Intn(int(200 * time.Millisecond)))
			case 3:
				stall = int64(r.rng.Intn(int(3 * time.Second)))
			}
			stall++
		}
	}
	if !park {
		return
	}
	if r.nparks < len(r.parks) {
		r.parks[r.nparks] = idx
		r.nparks++
	}
	if stall > 0 {
		r.stallSum += stall // bounded: progress is promised once faults stop
		r.stalls = append(r.stalls, Stall{idx, stall})
		stall += int64(time.Since(r.start))
	}
	r.park(t, site, stall)
}

//go:norace
func (r *run) park(t *task, site uint32, until int64) {
	t.parked = true
	t.site = site
	t.until = until
	r.parked[r.nparked] = t
	r.nparked++
	if r.nparked > r.maxPark {
		r.maxPark = r.nparked
	}
	r.wakeCtrl()
	runtime.SimPark()
}

//go:norace
func (r *run) wakeCtrl() {
	if r.ctrlIdle {
		r.ctrlIdle = false
		runtime.SimReady(r.ctrl)
	}
}

//go:norace
func (r *run) idle() {
	r.ctrlIdle = true
	runtime.SimPark()
}

//go:norace
func (r *run) controller() {
	runtime.SetSimTask(ctrlMark)
	r.ctrl = runtime.SimG()
	for {
		runtime.SimWait()
		if r.done {
			return
		}
		if r.stepcap || r.nparked == 0 {
			r.idle()
			continue
		}
		now := int64(time.Since(r.start))
		// candidates in park order, skipping stalled ones
		n := 0
		next := int64(0)
		for i := 0; i < r.nparked; i++ {
			if u := r.parked[i].until; u > now {
				if next == 0 || u < next {
					next = u
				}
				continue
			}
			n++
		}
		if n == 0 {
			if r.timerAt == 0 || r.timerAt > next || r.timerAt <= now {
				r.timerAt = next
				time.AfterFunc(time.Duration(next-now), r.timer)
			}
			r.idle()
			continue
		}
		k := 0
		if r.opt.Replay != nil {
			if r.rpickIdx < len(r.opt.Replay.Picks) {
				k = int(r.opt.Replay.Picks[r.rpickIdx]) % n
			}
			r.rpickIdx++
		} else {
			switch r.mode {
			case 0: // uniform
				k = r.rng.Intn(n)
			case 1: // priorities with change points
				best := uint64(0)
				j := 0
				for i := 0; i < r.nparked; i++ {
					if r.parked[i].until > now {
						continue
					}
					if r.parked[i].prio > best {
						best = r.parked[i].prio
						k = j
					}
					j++
				}
			case 2: // stay on the same goroutine most of the time
				k = -1
				j := 0
				for i := 0; i < r.nparked; i++ {
					if r.parked[i].until > now {
						continue
					}
					if r.parked[i].id == r.lastTask {
						k = j
					}
					j++
				}
				if k < 0 || r.rng.Intn(8) == 0 {
					k = r.rng.Intn(n)
				}
			case 3: // newest first
				k = n - 1
				if r.rng.Intn(6) == 0 {
					k = r.rng.Intn(n)
				}
			case 4: // oldest first
				k = 0
				if r.rng.Intn(12) == 0 {
					k = r.rng.Intn(n)
				}
			}
		}
		if r.npicks < len(r.picks) {
			r.picks[r.npicks] = uint16(k)
			r.npicks++
		}
		// k-th candidate
		var t *task
		j := 0
		for i := 0; i < r.nparked; i++ {
			if r.parked[i].until > now {
				continue
			}
			if j == k {
				t = r.parked[i]
				for ; i < r.nparked-1; i++ {
					r.parked[i] = r.parked[i+1]
				}
				r.nparked--
				break
			}
			j++
		}
		if r.mode == 1 {
			for i := range r.pctPts {
				if r.yields >= r.pctPts[i] && r.pctPts[i] != 0 {
					r.pctPts[i] = 0
					t.prio = uint64(i + 1)
				}
			}
		}
		r.trace = (r.trace ^ (uint64(t.id)<<32 | uint64(t.site))) * 0x100000001b3
		r.lastTask = t.id
		t.parked = false
		t.until = 0
		runtime.SimReady(t.g)
	}
}

//go:norace
func (r *run) timer() {
	runtime.SetSimTask(ctrlMark)
	r.wakeCtrl()
}

// Event appends a line to the run's event log. It draws nothing and blocks
// nothing.
//
//go:norace
func Event(format string, args ...any) {
	r := cur
	if r == nil {
		return
	}
	s := fmt.Sprintf(format, args...)
	s = fmt.Sprintf("%12d #%d %s", int64(time.Since(r.start)), r.yields, s)
	for i := 0; i < len(s); i++ {
		r.digest = (r.digest ^ uint64(s[i])) * 0x100000001b3
	}
	if len(r.events) < cap(r.events) {
		r.events = append(r.events, s)
	}
}

// Note counts a "this happened" probe.
//
//go:norace
func Note(name string) {
	if r := cur; r != nil {
		r.notes[name]++
	}
}

// Now is the simulated time since the start of the run.
//
//go:norace
func Now() time.Duration {
	if cur == nil {
		return 0
	}
	return time.Since(cur.start)
}

// Steps is the number of scheduling points passed so far: a total order for
// recorded events.
//
//go:norace
func Steps() uint32 {
	if cur == nil {
		return 0
	}
	return cur.yields
}

// NoYield runs f without scheduling points on this goroutine (oracle code that
// calls into instrumented packages).
//
//go:norace
func NoYield(f func()) {
	old := runtime.SimTask()
	runtime.SetSimTask(ctrlMark)
	defer runtime.SetSimTask(old)
	f()
}

// Yield is a scheduling point for harness code.
func Yield() { runtime.SimYield(0) }

// Stall of the current run's strategy etc. is chosen here.
func (r *run) strategy() string {
	g := &r.rng
	dens := []int{1, 1, 2, 3, 5, 10, 30, 100}
	r.parkDen = dens[g.Intn(len(dens))]
	r.mode = g.Intn(5)
	if r.mode == 1 {
		r.parkDen = 1
		for i := range r.pctPts {
			r.pctPts[i] = uint32(1 + g.Intn(600))
		}
	}
	if r.opt.Stalls && (r.opt.Late || g.P(1, 2)) {
		r.stallDen = []int{15, 60, 200}[g.Intn(3)]
		if r.opt.Late || g.P(2, 3) {
			r.stallKey = g.U64() | 1
			return fmt.Sprintf("mode%d/park1in%d/stallsync", r.mode, r.parkDen)
		}
	}
	return fmt.Sprintf("mode%d/park1in%d/stall1in%d", r.mode, r.parkDen, r.stallDen)
}

var inited bool

// Init prepares the process: one P, no wall-clock preemption, no background GC.
// Procs is the number of processors the code under test sees where it asks.
var Procs = 1

func Init() {
	if inited {
		return
	}
	inited = true
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	runtime.SimNoRetake(true)
	// a last resort for runs that allocate without end
	debug.SetMemoryLimit(3 << 30)
}

// allocated is the number of bytes allocated so far.
func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

var (
	pool     *run
	lastGC   uint64
	runCount int
)

// Run executes body as the driver goroutine of one simulated run. body returns
// when the workload is finished.
func Run(opt Options, body func()) *Result {
	Init()
	if opt.Horizon == 0 {
		opt.Horizon = 10 * time.Minute
	}
	if opt.Grace == 0 {
		opt.Grace = time.Hour
	}
	if opt.MaxYield == 0 || opt.MaxYield > maxYields {
		opt.MaxYield = 3_000_000
	}
	if pool == nil {
		pool = &run{}
		pool.tasks = make([]*task, maxTasks)
		for i := range pool.tasks {
			pool.tasks[i] = &task{}
		}
		pool.parked = make([]*task, maxTasks)
		pool.parks = make([]uint32, 1<<18)
		pool.picks = make([]uint16, 1<<18)
	}
	runSeq++
	r := pool
	*r = run{id: runSeq, opt: opt, tasks: pool.tasks, parked: pool.parked, parks: pool.parks, picks: pool.picks,
		rng: *NewPRNG(opt.Seed ^ 0x5ced), lastTask: -1, digest: 0xcbf29ce484222325, trace: 0xcbf29ce484222325,
		notes: map[string]int{}, events: make([]string, 0, 4096)}
	mode := "replay"
	if opt.Replay == nil {
		mode = r.strategy()
		if opt.Plain {
			mode = "plain"
		}
	} else {
		r.rparks = opt.Replay.Parks
		mode = opt.Replay.Mode
	}
	runCount++
	if runCount%16 == 1 || allocated()-lastGC > 128<<20 {
		debug.SetGCPercent(100)
		runtime.GC()
		debug.SetGCPercent(-1)
		lastGC = allocated()
	}
	res := &Result{}
	if opt.MapSeed != 0 {
		runtime.SimMapSeed(opt.MapSeed)
	}
	runtime.SimSeed(opt.Seed*0x2545f4914f6cdd1d + 99)
	leaked := synctest.SimRun(func() {
		runtime.SetSimTask(ctrlMark)
		r.start = time.Now()
		cur = r
		go r.controller()
		fin := make(chan struct{})
		go func() {
			defer close(fin)
			body()
		}()
		tm := time.NewTimer(opt.Horizon)
		select {
		case <-fin:
			tm.Stop()
		case <-tm.C:
			res.Hang = true
			if r.stepcap {
				res.Hang = false
			}
			res.HangDump = bubbleDump()
		}
		res.SimTime = time.Since(r.start)
		if !res.Hang && !r.stepcap {
			// Let abandoned work finish: simulated time passes, scheduling goes on.
			time.Sleep(opt.Grace)
		}
		r.free = true
		r.done = true
		r.wakeCtrl()
	})
	cur = nil
	res.StepCap = r.stepcap
	res.Leaked = leaked
	if leaked > 0 && !res.Hang {
		res.LeakDump = bubbleDump()
	}
	res.Yields = r.yields
	res.Picks = r.npicks
	res.Stalls = len(r.stalls)
	res.MaxParked = r.maxPark
	res.Trace = r.trace
	res.Events = r.events
	res.Digest = r.digest
	res.Notes = r.notes
	res.Sites = nSites
	res.Sched = &Schedule{Mode: mode, Parks: append([]uint32{}, r.parks[:r.nparks]...), Picks: append([]uint16{}, r.picks[:r.npicks]...), Stalls: r.stalls}
	return res
}

var hexAddr = regexp.MustCompile(`0x[0-9a-f]+|goroutine \d+|bubble \d+`)

// bubbleDump returns the stacks of the other goroutines of the bubble.
func bubbleDump() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var keep []string
	last := 0
	for i, g := range strings.Split(string(buf), "\n\n") {
		head, rest, _ := strings.Cut(g, "\n")
		_, b, ok := strings.Cut(head, "synctest bubble ")
		if i == 0 || !ok || strings.Contains(g, "simrt.(*run).controller") || strings.Contains(head, "synctest.Run") {
			continue
		}
		n := 0
		for _, c := range b {
			if c < '0' || c > '9' {
				break
			}
			n = n*10 + int(c-'0')
		}
		if n < last {
			continue
		}
		if n > last {
			last, keep = n, nil
		}
		// goroutine numbers and addresses differ between processes
		_, why, _ := strings.Cut(head, "[")
		keep = append(keep, "goroutine ["+hexAddr.ReplaceAllString(why+"\n"+rest, "0x?"))
	}
	sort.Strings(keep)
	return strings.Join(keep, "\n\n")
}

// SiteHits returns how often each scheduling point was passed in this process.
func SiteHits() []uint32 { return siteHits }
