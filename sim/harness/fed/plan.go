//go:build simruntime

// Package fed simulates federation services: real generated code, real
// grpc/federation runtime, simulated downstream services, clients and time.
package fed

import (
	"context"
	"fmt"
	"sort"
	"strconv"
	"time"

	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/protoadapt"
	"google.golang.org/protobuf/types/known/durationpb"

	bk "verif.local/harness/gen/bk"
	"verif.local/sim/prog"
)

// Entry is one generated program linked into the binary.
type Entry struct {
	Seed uint64
	Desc *grpc.ServiceDesc
	New  func(*Hooks) (any, func(context.Context), error)
	p    *prog.Program
}

var (
	registry []*Entry
	bySeed   = map[uint64]*Entry{}
)

func Register(e *Entry) {
	registry = append(registry, e)
	bySeed[e.Seed] = e
}

// Entries in a fixed order.
func Entries() []*Entry {
	sort.Slice(registry, func(i, j int) bool { return registry[i].Seed < registry[j].Seed })
	return registry
}

func (e *Entry) Program() *prog.Program {
	if e.p == nil {
		e.p = prog.Generate(e.Seed)
	}
	return e.p
}

// Plan is everything about a run except the schedule.
type Plan struct {
	Prog     uint64   `json:"prog"`
	Seed     uint64   `json:"seed"`
	Reqs     []Req    `json:"reqs"`
	Rates    Rates    `json:"rates"`
	Suppress []string `json:"suppress,omitempty"` // faults switched off (minimisation)
	ZeroLat  bool     `json:"zero_lat,omitempty"`
	Stalls   bool     `json:"stalls,omitempty"`
	Late     bool     `json:"late,omitempty"`   // the stalls are at synchronisation points
	Jitter   int      `json:"jitter,omitempty"` // of exponential back-off: drawn number, per mille
	Zoo      []ZooReq `json:"zoo,omitempty"`    // requests to the handwritten service instead
	sup      map[string]bool
}

// Rates are per mille.
type Rates struct {
	Fail   int `json:"fail"`
	Hang   int `json:"hang"`
	Panic  int `json:"panic"`
	Slow   int `json:"slow"`
	Lag    int `json:"lag"`    // call returns late after its context ended
	Custom int `json:"custom"` // custom resolver error
	Burst  int `json:"burst"`  // equal latencies
}

// Req is one client request.
type Req struct {
	ID       int           `json:"id"`
	Method   int           `json:"method"`
	A        string        `json:"a"`
	B        string        `json:"b"`
	Start    time.Duration `json:"start"`
	Cancel   time.Duration `json:"cancel,omitempty"`   // client cancels this long after start
	Deadline time.Duration `json:"deadline,omitempty"` // client deadline after start
	Meta     string        `json:"meta,omitempty"`     // value of its metadata
}

func (p *Plan) jitter() float64 { return float64(p.Jitter) / 1000 }

func (r Req) Rid() string { return "r" + strconv.Itoa(r.ID) }

// Attempt is what the downstream does with one attempt of one call.
type Attempt struct {
	Lat  time.Duration
	Kind string // ok, fail, hang, panic
	Code int
	Msg  string
	Lag  time.Duration
	Late string // the error it returns late, "": that of its context
	Det  int    // error details: a bit for each kind, see details
}

func (a Attempt) status() *Status {
	return newStatus(a.Code, a.Msg, a.details()...)
}

// details of the error, by the bits of Det.
func (a Attempt) details() (d []protoadapt.MessageV1) {
	m := a.Msg
	for i, x := range []protoadapt.MessageV1{
		&errdetails.ErrorInfo{Reason: "R-" + m, Metadata: map[string]string{"k": m}},
		&errdetails.LocalizedMessage{Locale: "de", Message: m},
		&errdetails.BadRequest{FieldViolations: []*errdetails.BadRequest_FieldViolation{{Field: "f1", Description: "d1"}, {Field: "f2", Description: "d2" + m}}},
		&errdetails.ErrorInfo{Reason: "S-" + m},
		&errdetails.RetryInfo{RetryDelay: durationpb.New(time.Second)},
		&bk.Res{V: m, List: []string{"x", m}},
		&errdetails.PreconditionFailure{Violations: []*errdetails.PreconditionFailure_Violation{{Type: "t", Subject: "s" + m, Description: "d"}}},
		&errdetails.QuotaFailure{Violations: []*errdetails.QuotaFailure_Violation{{Subject: "q" + m, Description: "d"}}},
		&errdetails.Help{Links: []*errdetails.Help_Link{{Description: "d", Url: "u" + m}}},
		&errdetails.ResourceInfo{ResourceType: "t", ResourceName: "n", Owner: "o" + m},
		&errdetails.RequestInfo{RequestId: "i" + m},
		&errdetails.DebugInfo{StackEntries: []string{"a", "b"}, Detail: "g" + m},
	} {
		if a.Det&(1<<i) != 0 {
			d = append(d, x)
		}
	}
	if len(d) > 1 && a.Det&(1<<20) != 0 {
		d[0], d[len(d)-1] = d[len(d)-1], d[0]
	}
	return d
}

// Err is the error a downstream answers with.
func (a Attempt) Err() error {
	st := status.New(codes.Code(a.Code), a.Msg)
	if d := a.details(); len(d) > 0 {
		var err error
		if st, err = st.WithDetails(d...); err != nil {
			panic(err)
		}
	}
	return st.Err()
}

func (p *Plan) suppressed(key string) bool {
	if p.sup == nil {
		p.sup = map[string]bool{}
		for _, s := range p.Suppress {
			p.sup[s] = true
		}
	}
	return p.sup[key]
}

var failCodes = []int{14, 14, 14, 5, 3, 13, 10, 8, 7, 9, 4, 2, 1, 1}

func (p *Plan) prng(parts ...string) *prog.PRNG {
	return prog.NewPRNG(prog.Hash(append(parts, strconv.FormatUint(p.Seed, 10))...))
}

func latency(g *prog.PRNG, rt Rates) time.Duration {
	x := g.Intn(1000)
	switch {
	case x < rt.Burst:
		return time.Duration(5*(1+g.Intn(3))) * time.Millisecond
	case x < rt.Burst+100:
		return 0
	case x < rt.Burst+400:
		return time.Duration(1 + g.Intn(5_000_000))
	}
	return time.Duration(1 + g.Intn(60_000_000))
}

// Attempt plans the n-th attempt (from 0) of call key.
func (p *Plan) Attempt(key string, n int, canHang, canPanic bool) Attempt {
	g := p.prng("call", key)
	a := Attempt{Kind: "ok"}
	a.Lat = latency(g, p.Rates)
	if g.Intn(1000) < p.Rates.Slow {
		a.Lat = time.Duration(100+g.Intn(900))*time.Millisecond + time.Duration(g.Intn(1_000_000))
	}
	if g.Intn(1000) < p.Rates.Lag {
		a.Lag = time.Duration(1 + g.Intn(2_000_000))
		if a.Lag%2 == 0 {
			a.Late = "late " + strconv.FormatUint(prog.Hash("l", key)%16, 16)
		}
	}
	x := g.Intn(1000)
	nfail := 0
	code := failCodes[g.Intn(len(failCodes))]
	switch {
	case x < p.Rates.Fail:
		nfail = 1 + g.Intn(4)
		if g.Intn(3) == 0 {
			nfail = 1000 // never succeeds
		}
	case x < p.Rates.Fail+p.Rates.Hang && canHang:
		nfail = -1
	case x < p.Rates.Fail+p.Rates.Hang+p.Rates.Panic && canPanic:
		nfail = -2
	}
	hsh := strconv.FormatUint(prog.Hash("h", key)%16, 16)
	if p.ZeroLat {
		a.Lat = 0
	}
	if nfail == 0 || p.suppressed(key) {
		return a
	}
	switch {
	case nfail == -1:
		a.Kind = "hang"
	case nfail == -2:
		a.Kind = "panic"
		a.Msg = "boom:" + key
	case n < nfail:
		a.Kind = "fail"
		a.Code = code
		if n > 0 && g.Intn(4) == 0 {
			a.Code = failCodes[(g.Intn(len(failCodes))+n)%len(failCodes)]
		}
		switch g.Intn(6) {
		case 0, 1:
			a.Det = 1 + g.Intn(3)
		case 2:
			a.Det = int(g.U64() & g.U64() & 0xfff)
		case 3:
			a.Det = int(g.U64()&0xfff) | g.Intn(2)<<20
		}
		a.Msg = hsh + "fail:" + key + "#" + strconv.Itoa(n)
	}
	if n > 0 && !p.ZeroLat {
		a.Lat = latency(p.prng("retry", key, strconv.Itoa(n)), p.Rates)
	}
	return a
}

// Custom plans a custom resolver invocation.
func (p *Plan) Custom(key string) Attempt {
	g := p.prng("custom", key)
	a := Attempt{Kind: "ok", Lat: latency(g, p.Rates)}
	if p.ZeroLat {
		a.Lat = 0
	}
	x := g.Intn(1000)
	if p.suppressed(key) {
		return a
	}
	switch {
	case x < p.Rates.Custom:
		a.Kind = "fail"
		a.Code = failCodes[g.Intn(len(failCodes))]
		a.Msg = "cerr:" + key
	case x < p.Rates.Custom+p.Rates.Panic:
		a.Kind = "panic"
		a.Msg = "boom:" + key
	}
	return a
}

// Reply is what the downstream answers.
type Reply struct {
	V, W string
	List []string
}

func reply(method, key, a, b string) Reply {
	h := prog.Hash(method, key, a, b)
	r := Reply{V: fmt.Sprintf("%05x", h&0xfffff), W: fmt.Sprintf("%04x", (h>>20)&0xffff)}
	for i := 0; i < int((h>>40)%4); i++ {
		r.List = append(r.List, fmt.Sprintf("i%dx%02x", i, (h>>44)&0xff))
	}
	return r
}

func customText(name, key string, a, b string) string {
	return fmt.Sprintf("%s:%05x@%s", name, prog.Hash("custom", name, key, a, b)&0xfffff, key)
}
