// Package overlay builds the `go build -overlay` file set that turns an
// ordinary Go build of /repo into a deterministic-simulation build: a patched
// runtime (seeded randomness, no wall-clock preemption, mutex waits that count
// as blocked in a synctest bubble) and repository code instrumented with
// scheduling points. Nothing on disk outside the work directory is changed.
package overlay

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

type patch struct {
	file     string // relative to GOROOT/src
	old, new string
	count    int
}

var runtimePatches = []patch{
	// One seeded stream for everything user code can observe: map seeds and
	// iteration offsets, math/rand, maphash.
	{"runtime/rand.go", "\tmp := getg().m\n\tc := &mp.chacha8\n\tfor {", "\tif simAlways {\n\t\treturn simRand()\n\t}\n\tmp := getg().m\n\tc := &mp.chacha8\n\tfor {", 1},
	// hash seeds of heap maps: one value per run (a lazily built global table
	// must not depend on which run built it).
	{"internal/runtime/maps/map.go", "uintptr(rand())", "uintptr(SimMapSeed)", 4},
	{"internal/runtime/maps/runtime.go", "func rand() uint64\n", "func rand() uint64\n\n// SimMapSeed is the hash seed of every map created on the heap.\nvar SimMapSeed uint64 = 0x5851f42d4c957f2d\n", 1},
	// per-goroutine slot for the simulator's task record.
	{"runtime/runtime2.go", "\ttrackingSeq     uint8 // used", "\tsimTask         uintptr\n\ttrackingSeq     uint8 // used", 1},
	{"runtime/proc.go", "\tnewg.trackingSeq = uint8(cheaprand())\n", "\tnewg.simTask = 0\n\tnewg.trackingSeq = uint8(cheaprand())\n", 1},
	{"runtime/rand.go", "\tmp.cheaprand = rand()\n", "\tmp.cheaprand = 0x9e3779b97f4a7c15\n", 1},
	{"runtime/rand.go", "\tglobalRand.state.Init(*seed)\n", "\tif simAlways {\n\t\tfor i := range seed {\n\t\t\tseed[i] = byte(i * 7)\n\t\t}\n\t}\n\tglobalRand.state.Init(*seed)\n", 1},
	// select: order of ready cases.
	{"runtime/select.go", "\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := simRandn(uint32(norder + 1))\n", 1},
	// order of fake timers that expire together.
	{"runtime/time.go", "\t\t\tt.rand = cheaprand()\n", "\t\t\tt.rand = uint32(simRand())\n", 1},
	// no time-slice preemption and no P retaking while simulating.
	{"runtime/proc.go", "func retake(now int64) uint32 {\n\tn := 0\n", "func retake(now int64) uint32 {\n\tif simNoRetake {\n\t\treturn 0\n\t}\n\tn := 0\n", 1},
	{"runtime/proc.go", "const randomizeScheduler = raceenabled\n", "const randomizeScheduler = false\n", 1},
	// mutex starvation mode depends on elapsed wall time.
	{"runtime/sema.go", "func internal_sync_nanotime() int64 {\n\treturn nanotime()\n", "func internal_sync_nanotime() int64 {\n\tif simAlways {\n\t\treturn 1\n\t}\n\treturn nanotime()\n", 1},
	{"runtime/synctest.go", "\tif total != 1 {\n", "\tsimLastTotal = total\n\tif total != 1 {\n", 1},
	// waiting for a mutex is a durable block: the holder is in the bubble too.
	{"runtime/runtime2.go", "\twaitReasonSynctestSelect:        true,\n", "\twaitReasonSynctestSelect:        true,\n\twaitReasonSyncMutexLock:         true,\n\twaitReasonSyncRWMutexRLock:      true,\n\twaitReasonSyncRWMutexLock:       true,\n", 1},
}

const runtimeAdded = `package runtime

import (
	"internal/runtime/maps"
	"unsafe"
)

const simAlways = true

var (
	simNoRetake bool
	simPos      uint64 = 0x1234567
	simCtr      uint64
)

// simRand depends only on the position in the instrumented execution (simPos
// changes at every scheduling point) and on how many values were drawn since.
// The simulation runs with one P and without preemption, so updates never race.
//
//go:nosplit
//go:norace
func simRand() uint64 {
	simCtr++
	z := simPos + simCtr*0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRandn(n uint32) uint32 {
	return uint32((uint64(uint32(simRand())) * uint64(n)) >> 32)
}

// SimSeed restarts the stream behind every random choice of the runtime.
func SimSeed(s uint64) { simPos = s; simCtr = 0 }

// SimMapSeed sets the hash seed of maps created from now on.
func SimMapSeed(s uint64) { maps.SimMapSeed = s }

// SimNoRetake turns wall-clock preemption off.
func SimNoRetake(v bool) { simNoRetake = v }

// SimGoid returns the current goroutine's id.
func SimGoid() uint64 { return getg().goid }

// SimInBubble reports whether the caller runs in a synctest bubble.
func SimInBubble() bool { return getg().bubble != nil }

// SimTask and SetSimTask access a slot of the current goroutine.
func SimTask() uintptr { return getg().simTask }

func SetSimTask(v uintptr) { getg().simTask = v }

// SimG is the handle SimReady takes.
func SimG() unsafe.Pointer { return unsafe.Pointer(getg()) }

// SimPark blocks the goroutine (durably, for synctest) until SimReady. Neither
// creates a happens-before edge, so the race detector sees only the
// synchronisation of the code under test.
func SimPark() {
	gopark(nil, nil, waitReasonSynctestChanReceive, traceBlockGeneric, 1)
}

func SimReady(gp unsafe.Pointer) { goready((*g)(gp), 1) }

// SimBubbleTotal is the number of goroutines that were left in the bubble that
// ended last.
func SimBubbleTotal() int { return simLastTotal }

var simLastTotal int

// SimYieldFn is called at every instrumented scheduling point.
var SimYieldFn func(site uint32)

// SimYield is the call the instrumenter inserts.
func SimYield(site uint32) {
	if getg().bubble == nil {
		return
	}
	simPos += 0xda942042e4dd58b5
	simCtr = 0
	if SimYieldFn != nil {
		SimYieldFn(site)
	}
}

// SimWait is synctest.Wait.
func SimWait() { synctestWait() }
`

const synctestAdded = `package synctest

import (
	"internal/synctest"
	"runtime"
)

// SimRun runs f in a bubble and returns how many goroutines were still blocked
// in the bubble when f had returned and nothing could run any more; -1 means
// that f itself never returned (everything is blocked).
func SimRun(f func()) (leaked int) {
	done := false
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(error)
			if !ok || len(e.Error()) < 8 || e.Error()[:8] != "deadlock" {
				panic(r)
			}
			leaked = runtime.SimBubbleTotal() - 1
			if !done {
				leaked = -1
			}
		}
	}()
	synctest.Run(func() {
		f()
		done = true
	})
	return 0
}
`

// Set is an overlay under construction.
type Set struct {
	Dir     string            // where replacement files are written
	Replace map[string]string // original path -> replacement path
	n       int
}

func NewSet(dir string) (*Set, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	return &Set{Dir: dir, Replace: map[string]string{}}, nil
}

// Put registers content as the replacement of path.
func (s *Set) Put(path string, content []byte) error {
	s.n++
	f := filepath.Join(s.Dir, fmt.Sprintf("%04d_%s", s.n, filepath.Base(path)))
	if err := os.WriteFile(f, content, 0o644); err != nil {
		return err
	}
	s.Replace[path] = f
	return nil
}

// Current returns the current content of path, overlay included.
func (s *Set) Current(path string) ([]byte, error) {
	if r, ok := s.Replace[path]; ok {
		return os.ReadFile(r)
	}
	return os.ReadFile(path)
}

// AddRuntime adds the runtime patches.
func (s *Set) AddRuntime(goroot string) error {
	content := map[string]string{}
	for _, p := range runtimePatches {
		path := filepath.Join(goroot, "src", p.file)
		c, ok := content[path]
		if !ok {
			b, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			c = string(b)
		}
		if n := strings.Count(c, p.old); n != p.count {
			return fmt.Errorf("runtime patch anchor found %d times (want %d) in %s: %q", n, p.count, p.file, p.old)
		}
		content[path] = strings.ReplaceAll(c, p.old, p.new)
	}
	for path, c := range content {
		if err := s.Put(path, []byte(c)); err != nil {
			return err
		}
	}
	if err := s.Put(filepath.Join(goroot, "src/runtime/zz_sim_verif.go"), []byte(runtimeAdded)); err != nil {
		return err
	}
	return s.Put(filepath.Join(goroot, "src/testing/synctest/zz_sim_verif.go"), []byte(synctestAdded))
}
