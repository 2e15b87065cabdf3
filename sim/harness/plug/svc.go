//go:build simruntime

package plug

import (
	"context"
	"errors"
	"fmt"
	"log/slog"
	"os"
	"strconv"
	"strings"
	"time"

	grpcfed "github.com/mercari/grpc-federation/grpc/federation"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"

	bk "verif.local/harness/gen/bk"
	psvc "verif.local/harness/gen/psvc"
	"verif.local/sim/simrt"
)

// client is the downstream and its factory.
type client struct{ w *world }

func (c *client) Bk_BackendClient(cfg psvc.SvcClientConfig) (bk.BackendClient, error) {
	if c.w.plan.Client == "err" {
		c.w.fault("client_factory_error")
		return nil, errors.New("no route to backend")
	}
	return bk.NewBackendClient(c), nil
}

func (c *client) NewStream(context.Context, *grpc.StreamDesc, string, ...grpc.CallOption) (grpc.ClientStream, error) {
	return nil, errors.New("streams are not used")
}

func (c *client) Invoke(ctx context.Context, method string, args, rep any, _ ...grpc.CallOption) error {
	simrt.Yield()
	req, res := args.(*bk.Req), rep.(*bk.Res)
	if req.GetKey() == "boot" {
		c.w.boots++
		switch c.w.plan.Boot {
		case "err":
			c.w.fault("boot_call_error")
			return status.Error(codes.Unavailable, "boot backend is down")
		case "panic":
			c.w.fault("boot_call_panic")
			panic("boot client panics")
		}
		res.V = c.w.plan.Boot
		return nil
	}
	time.Sleep(3 * time.Millisecond)
	res.V = "v:" + req.GetA()
	return ctx.Err()
}

// envModel is what the environment of the plan means.
type envModel struct {
	name string
	num  int64
	list []int64
	m    map[string]int64
	flag bool
}

func (p *Plan) envModel() (e envModel, bad string) {
	get := func(k string) (string, bool) { v, ok := p.Env[k]; return v, ok }
	e.name = "dflt"
	if v, ok := get("SV_NAME"); ok {
		e.name = v
	}
	v, ok := get("SV_NUM")
	if !ok {
		return e, "SV_NUM"
	}
	var err error
	if e.num, err = strconv.ParseInt(v, 0, 64); err != nil {
		return e, "SV_NUM"
	}
	if v, ok := get("SV_ALT"); ok {
		for _, x := range strings.Split(v, ",") {
			n, err := strconv.ParseInt(x, 0, 64)
			if err != nil {
				return e, "SV_ALT"
			}
			e.list = append(e.list, n)
		}
	}
	e.m = map[string]int64{}
	if v, ok := get("SVMAP"); ok {
		for _, x := range strings.Split(v, ",") {
			k, s, ok := strings.Cut(x, ":")
			n, err := strconv.ParseInt(s, 0, 64)
			if !ok || err != nil {
				return e, "SVMAP"
			}
			e.m[k] = n
		}
	}
	if v, ok := get("SV_FLAG"); ok {
		if e.flag, err = strconv.ParseBool(v); err != nil {
			return e, "SV_FLAG"
		}
	}
	return e, ""
}

// boot is what creating the service does by the sequential reading of its
// annotations.
type bootModel struct {
	env                           envModel
	ticks                         []string // in order
	maybe                         string   // a tick that may or may not have happened last
	fail                          string   // why creation fails, "" if it does not
	first, second, cond, bt, last int64
}

func (p *Plan) bootModel() (b bootModel) {
	var bad string
	if b.env, bad = p.envModel(); bad != "" {
		b.fail = bad
		return b
	}
	tick := func(key string) (int64, bool) {
		b.ticks = append(b.ticks, key)
		if d := p.Dirs[key]; d != nil && d.Err != "" {
			b.fail = d.Err
			return 0, false
		}
		return int64(len(b.ticks)), true
	}
	var ok bool
	if b.first, ok = tick("v1:" + b.env.name); !ok {
		return b
	}
	n, ok := tick("v2")
	if !ok {
		return b
	}
	b.second = b.first*10 + n
	if b.env.flag {
		if b.cond, ok = tick("v3"); !ok {
			return b
		}
	}
	if p.Boot == "err" || p.Boot == "panic" {
		b.maybe = "b"
		b.fail = map[string]string{"err": "boot backend is down", "panic": "boot client panics"}[p.Boot]
		if d := p.Dirs["b"]; d != nil && d.Err != "" {
			b.fail = "*" // either of two failures
		}
		return b
	}
	if b.bt, ok = tick("b"); !ok {
		return b
	}
	if b.env.num > 100 || p.Boot == "bad" {
		b.fail = fmt.Sprintf("refused: %d%s", b.env.num, p.Boot)
		return b
	}
	if strings.HasPrefix(p.Boot, "zero") {
		b.fail = "division by zero"
		return b
	}
	b.last, _ = tick("v4")
	return b
}

// reqRec is a finished or running request.
type reqRec struct {
	r          Req
	begin, end uint32
	done       bool
	get        *psvc.GetResponse
	vars       *psvc.VarsResponse
	err        error
	gone       bool
	bad        bool
}

func (w *world) setEnv(env map[string]string) {
	for _, k := range []string{"SV_NAME", "SV_NUM", "SV_LIST", "SV_ALT", "SVMAP", "SV_FLAG", "SV_IGN"} {
		os.Unsetenv(k)
	}
	for k, v := range env {
		os.Setenv(k, v)
	}
}

// svc drives a generated service whose expressions use the plugin.
func (w *world) svc() func() {
	p, o := w.plan, w.o
	w.setEnv(p.Env)
	defer w.setEnv(nil)
	wc, want := w.wasm()
	cfg := psvc.SvcConfig{
		Client:    &client{w},
		CELPlugin: &psvc.SvcCELPluginConfig{Simp: wc, CacheDir: cacheDir()},
		Logger:    slog.New(&logs{w: w}),
	}
	if p.Client == "nil" {
		cfg.Client = nil
		w.fault("client_factory_nil")
	}
	if p.NoCfg {
		cfg.CELPlugin = nil
	}
	var srv *psvc.Svc
	var err error
	if !w.guard("NewSvc", func() { srv, err = psvc.NewSvc(cfg) }) {
		return nil
	}
	o.Checks++
	if err != nil && srv != nil {
		o.Add("service-returned", fmt.Sprintf("creation failed (%v) and returned a service", err), "C15", "C14")
	}
	refuse := func(why string, prop string) {
		if err == nil {
			o.Add("created", "the service was created though "+why, prop)
		}
	}
	switch {
	case p.Client == "nil":
		refuse("it has no client factory", "C15")
		if err != nil && !errors.Is(err, grpcfed.ErrClientConfig) {
			o.Add("create-error", fmt.Sprintf("wrong error without a client factory: %v", err), "C15")
		}
		return nil
	case p.NoCfg:
		refuse("it has no plugin configuration", "C14")
		if err != nil && !errors.Is(err, grpcfed.ErrCELPluginConfig) {
			o.Add("create-error", fmt.Sprintf("wrong error without plugin configuration: %v", err), "C14")
		}
		return nil
	case p.Client == "err":
		refuse("its client could not be made", "C15")
		if err != nil && !strings.Contains(err.Error(), "no route to backend") {
			o.Add("create-error", fmt.Sprintf("wrong error for a failing client factory: %v", err), "C15")
		}
		return nil
	}
	m := p.bootModel()
	b := int(0)
	if len(w.guests) > 0 {
		b = len(w.guests[0].ticks)
	}
	starts := want == "" && p.Guest.Version == 0 && len(p.Guest.Drop) == 0 && p.Guest.Corrupt[0] == "" && w.badAt == 0
	switch {
	case !starts && w.badAt == 0:
		w.checkStart(err, want)
		if err == nil {
			break
		}
		return nil
	case !starts:
		// the plugin failed while the service was created
		o.Reach["boot_disturbed"]++
		if err == nil && m.fail != "" {
			refuse(m.fail, "C15")
		}
		if err != nil {
			return nil
		}
	case m.fail != "":
		o.Reach["boot_refused"]++
		w.checkTicks(m)
		if err == nil {
			refuse("it must fail: "+m.fail, "C15")
		} else if m.fail != "*" && !strings.Contains(err.Error(), m.fail) {
			o.Add("create-error", fmt.Sprintf("creation failed with %q, want %q", err, m.fail), "C15", "C12")
		}
		if err != nil {
			return nil
		}
	case err != nil:
		o.Add("create-failed", fmt.Sprintf("the service could not be created: %v", err), "C15", "C14", "C12")
		return nil
	default:
		w.checkTicks(m)
		if w.boots != 1 {
			o.Add("boot-calls", fmt.Sprintf("%d requests were made for the service variable, want 1", w.boots), "C15")
		}
	}
	if p.Env2 != nil {
		w.setEnv(p.Env2)
		o.Reach["env_changed"]++
	}
	recs := make([]*reqRec, len(p.Reqs))
	n := 0
	done := make(chan bool)
	run := func(f func()) {
		n++
		go func() {
			f()
			done <- true
		}()
	}
	for i := range p.Reqs {
		r := &reqRec{r: p.Reqs[i]}
		recs[i] = r
		run(func() {
			time.Sleep(r.r.At)
			w.request(srv, r)
		})
	}
	cleanup := func() error {
		psvc.CleanupSvc(context.Background(), srv)
		return nil
	}
	for _, at := range p.Closes {
		run(func() {
			time.Sleep(at)
			w.doClose("CleanupSvc", cleanup)
		})
	}
	for ; n > 0; n-- {
		<-done
	}
	w.doClose("CleanupSvc", cleanup)
	w.doClose("second CleanupSvc", cleanup)
	late := &reqRec{r: Req{ID: "late"}}
	w.request(srv, late)
	return func() {
		if late.done && !late.bad && late.err == nil {
			o.Add("fabricated", fmt.Sprintf("a request after CleanupSvc returned %v", late.get), "C13", "C14")
		}
		w.checkRecovered("a request after CleanupSvc", late.err)
		for _, r := range recs {
			w.checkReq(r, m)
		}
		g := w.guests[0]
		if len(w.guests) > 1 {
			o.Add("instances", fmt.Sprintf("%d plugin programs were started", len(w.guests)), "C12", "C15")
		}
		if len(g.ticks) != b {
			o.Add("boot-again", fmt.Sprintf("service variables were evaluated while serving requests: %q", g.ticks[b:]), "C15")
		}
		if w.boots > 1 {
			o.Add("boot-again", "a service variable's request was made again", "C15")
		}
		w.checkLeak()
	}
}

func (w *world) checkTicks(m bootModel) {
	var got []string
	if len(w.guests) > 0 {
		got = w.guests[0].ticks
	}
	w.o.Checks++
	a, b := fmt.Sprintf("%q", got), fmt.Sprintf("%q", m.ticks)
	if a == b {
		return
	}
	if m.maybe != "" && a == fmt.Sprintf("%q", append(append([]string{}, m.ticks...), m.maybe)) {
		return
	}
	w.o.Add("boot-order", fmt.Sprintf("service variables were evaluated as %s, want %s", a, b), "C15")
}

func (w *world) request(srv *psvc.Svc, r *reqRec) {
	simrt.Yield()
	r.begin = simrt.Steps()
	defer func() {
		r.end, r.done = simrt.Steps(), true
		if x := recover(); x != nil {
			r.bad = true
			w.panicked("a request", x)
		}
	}()
	ctx := metadata.NewIncomingContext(context.Background(), mdOf(r.r.MD))
	if r.r.Gone > 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, r.r.Gone)
		defer cancel()
	}
	if r.r.Vars {
		r.vars, r.err = srv.Vars(ctx, &psvc.VarsRequest{Id: r.r.ID})
	} else {
		r.get, r.err = srv.Get(ctx, &psvc.GetRequest{Id: r.r.ID, Nums: append([]int64{}, r.r.Nums...)})
	}
	if r.gone = ctx.Err() != nil; r.gone {
		w.fault("client_gone")
	}
}

func (w *world) checkRecovered(what string, err error) {
	var rec *grpcfed.RecoveredError
	if errors.As(err, &rec) {
		w.panicked(what, rec.Message+"\n"+strings.Join(rec.Stack, "\n"))
	}
}

func (w *world) checkReq(r *reqRec, m bootModel) {
	o := w.o
	if !r.done || r.bad {
		return
	}
	o.Checks++
	what := "Get(" + r.r.ID + ")"
	if r.r.Vars {
		what = "Vars(" + r.r.ID + ")"
	}
	w.checkRecovered(what, r.err)
	disturbed := w.disturbed(r.end)
	if r.r.Vars {
		if r.err != nil {
			if !r.gone {
				o.Add("vars-failed", fmt.Sprintf("%s failed: %v", what, r.err), "C15")
			}
			return
		}
		got := r.vars
		mapv := int64(-1)
		if v, ok := m.env.m["k"]; ok {
			mapv = v
		}
		var sq []int64
		for _, x := range m.env.list {
			sq = append(sq, x*m.second)
		}
		want := fmt.Sprint(m.env.name, m.env.num, m.env.list, mapv, m.env.flag, "", m.first, m.second, m.cond, sq, w.plan.Boot, m.bt, m.last)
		have := fmt.Sprint(got.GetName(), got.GetNum(), got.GetList(), got.GetMapv(), got.GetFlag(), got.GetIgn(), got.GetFirst(), got.GetSecond(), got.GetCond(),
			got.GetSub().GetSquares(), got.GetSub().GetBoot(), got.GetSub().GetBt(), got.GetSub().GetLast())
		if have != want {
			o.Add("vars-value", fmt.Sprintf("%s sees %s, want %s", what, have, want), "C15")
		}
		return
	}
	md := mdText(mdOf(r.r.MD))
	id := r.r.ID
	pad := func(s string) int {
		if d := w.plan.Dirs[id+"/"+s]; d != nil {
			return d.Pad
		}
		return 0
	}
	var fails []string
	for _, s := range []string{"a", "b", "o", "e", "f"} {
		if d := w.plan.Dirs[id+"/"+s]; d != nil && d.Err != "" {
			fails = append(fails, d.Err)
		}
	}
	props := []string{"C12"}
	if disturbed {
		props = append(props, "C13", "C14")
	}
	if r.err != nil {
		if disturbed || r.gone {
			o.Reach["disturbed_request"]++
			return
		}
		for _, f := range fails {
			if strings.Contains(r.err.Error(), f) {
				return
			}
		}
		o.Add("request-failed", fmt.Sprintf("%s failed: %v (the plugin failed with %q)", what, r.err, fails), "C12")
		if w.plan.BinMD && strings.Contains(r.err.Error(), binMDErr) {
			o.Violations[len(o.Violations)-1].Sig = "binary-metadata"
		}
		return
	}
	if len(fails) > 0 {
		o.Add("error-lost", fmt.Sprintf("%s succeeded though the plugin failed with %q", what, fails), props...)
		return
	}
	a := fnEcho(id+"/a", md, pad("a"))
	want := fmt.Sprintf("%q %q %d %q %q %q %q %q %d", a, fnParts(id+"/b", md, pad("b")), fnSum(r.r.Nums),
		fnDescribe(fnMake(id+"/o", md, pad("o")), a, 0), fnEcho(id+"/e", md, pad("e")), fnEcho(id+"/f", md, pad("f")), fnParts(a, md, 0), "v:"+id, m.last)
	g := r.get
	have := fmt.Sprintf("%q %q %d %q %q %q %q %q %d", g.GetA(), g.GetB(), g.GetC(), g.GetD(), g.GetM().GetE(), g.GetM().GetF(), g.GetM().GetG(), g.GetK(), g.GetLast())
	if have != want {
		o.Add("response", fmt.Sprintf("%s returned %s, want %s", what, diff(have, want), diff(want, have)), props...)
	}
	if len(w.guests) == 0 {
		return
	}
	n := map[string]int{}
	for _, s := range w.guests[0].seen {
		if strings.HasPrefix(s.Key, id+"/") && !strings.Contains(s.Key, "|") {
			n[s.Key]++
		}
	}
	for _, s := range []string{"a", "b", "o", "e", "f"} {
		if n[id+"/"+s] != 1 {
			o.Add("call-repeated", fmt.Sprintf("%s: the plugin received the call with %q %d times", what, id+"/"+s, n[id+"/"+s]), props...)
		}
	}
}

type logs struct{ w *world }

func (l *logs) Enabled(context.Context, slog.Level) bool  { return true }
func (l *logs) Handle(context.Context, slog.Record) error { return nil }
func (l *logs) WithAttrs([]slog.Attr) slog.Handler        { return l }
func (l *logs) WithGroup(string) slog.Handler             { return l }
