//go:build simruntime

package fed

import (
	"context"
	"fmt"
	"log/slog"
	"reflect"
	"strings"
	"time"

	grpcfed "github.com/mercari/grpc-federation/grpc/federation"
	fedlog "github.com/mercari/grpc-federation/grpc/federation/log"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	bk "verif.local/harness/gen/bk"
	"verif.local/sim/prog"
	"verif.local/sim/simrt"
)

// CallRec is one attempt seen by the downstream.
type CallRec struct {
	Key, Method, A, B string
	N                 int // attempt number for this key
	Start, End        time.Duration
	StartStep         uint32
	EndStep           uint32
	CtxDone           time.Duration // when its context ended, -1 if it did not while running
	Outcome           string
	Rid               string
}

// CustomRec is one custom resolver invocation.
type CustomRec struct {
	Key        string
	Start, End time.Duration
	StartStep  uint32
	EndStep    uint32
	Outcome    string
	Args       map[string]string
}

// LogRec is one log line.
type LogRec struct {
	ID      string
	Rid     string // request of the context
	Msg     string
	Attrs   []string // attribute keys in order, duplicates dropped
	Level   slog.Level
	Failure bool              // reports the failure of the request
	Vals    map[string]string // attribute values, first of a key
	Line    string            // level and attributes of a line the program writes
	At      time.Duration
	Stack   int // entries of the stack trace of a panic
}

// ErrRec is one error handler invocation.
type ErrRec struct {
	Rid, Method string
	Nil         bool
	Status      Status
	At          time.Duration
}

// Hooks is the world of one service instance.
type Hooks struct {
	plan *Plan
	prog *prog.Program
	race bool

	calls   []*CallRec
	customs []*CustomRec
	logs    []*LogRec
	errs    []*ErrRec
	counts  map[string]int
	fired   map[string]int
	open    int
	factory error
}

type ridKey struct{}

func newHooks(plan *Plan, p *prog.Program) *Hooks {
	return &Hooks{plan: plan, prog: p, counts: map[string]int{}, fired: map[string]int{}, race: raceEnabled}
}

func (h *Hooks) hit(kind string) {
	if !h.race {
		h.fired[kind]++
	}
}

// NewStream implements grpc.ClientConnInterface.
func (h *Hooks) NewStream(context.Context, *grpc.StreamDesc, string, ...grpc.CallOption) (grpc.ClientStream, error) {
	return nil, status.Error(codes.Unimplemented, "no streams")
}

// Invoke is the simulated downstream service and the network to it.
func (h *Hooks) Invoke(ctx context.Context, method string, args, rep any, _ ...grpc.CallOption) error {
	if err := ctx.Err(); err != nil {
		return status.FromContextError(err).Err()
	}
	req := args.(*bk.Req)
	method = method[strings.LastIndexByte(method, '/')+1:]
	key := req.Key
	d := h.def(key)
	rid, _ := ctx.Value(ridKey{}).(string)
	n := 0
	var rec *CallRec
	if !h.race {
		n = h.counts[key]
		h.counts[key]++
		rec = &CallRec{Key: key, Method: method, A: req.A, B: req.B, N: n, Start: simrt.Now(), StartStep: simrt.Steps(), CtxDone: -1, Rid: rid}
		h.calls = append(h.calls, rec)
		simrt.Event("call %s #%d %s a=%s b=%s", key, n, method, req.A, req.B)
	}
	canHang := d != nil && d.def.Timeout > 0 || h.hasLimit(rid)
	at := h.plan.Attempt(key, n, canHang, d != nil && len(d.def.Rules) == 0 && !d.def.InRule)
	h.open++
	defer func() { h.open-- }()
	if callAdds(key) {
		fedlog.AddAttrs(ctx, []slog.Attr{slog.String(key, "i")})
	}
	err := h.serve(ctx, at, rec)
	if rec != nil {
		rec.End = simrt.Now()
		rec.EndStep = simrt.Steps()
		if ctx.Err() != nil && rec.CtxDone < 0 {
			rec.CtxDone = rec.End
		}
		simrt.Event("ret  %s #%d %s", key, n, rec.Outcome)
	}
	if err != nil {
		return err
	}
	r := reply(method, key, req.A, req.B)
	proto.Merge(rep.(proto.Message), &bk.Res{V: r.V, W: r.W, List: r.List})
	return nil
}

func (h *Hooks) serve(ctx context.Context, at Attempt, rec *CallRec) error {
	outcome := func(s string) {
		if rec != nil {
			rec.Outcome = s
		}
	}
	outcome("running")
	if at.Kind == "hang" || at.Lat > 0 {
		var tm *time.Timer
		var c <-chan time.Time
		if at.Kind != "hang" {
			tm = time.NewTimer(at.Lat)
			c = tm.C
		}
		select {
		case <-c:
		case <-ctx.Done():
			if tm != nil {
				tm.Stop()
			}
			if rec != nil {
				rec.CtxDone = simrt.Now()
			}
			if at.Kind == "hang" {
				h.hit("downstream hang")
			} else {
				h.hit("call cut by context")
			}
			if at.Lag > 0 {
				h.hit("late return after cancel")
				time.Sleep(at.Lag)
			}
			outcome("cancelled")
			if at.Late != "" {
				h.hit("late failure after cancel")
				return status.Error(codes.DataLoss, at.Late)
			}
			return status.FromContextError(ctx.Err()).Err()
		}
	} else {
		simrt.Yield()
	}
	if at.Lat > 90*time.Millisecond {
		h.hit("slow downstream")
	}
	switch at.Kind {
	case "fail":
		h.hit("downstream error")
		outcome("fail")
		return at.Err()
	case "panic":
		h.hit("panic in downstream client")
		outcome("panic")
		panic(at.Msg)
	}
	outcome("ok")
	return nil
}

type defAt struct {
	msg *prog.Msg
	def *prog.Def
}

// def finds the definition behind a call key: the last path element is the
// definition name, the message follows from the path.
func (h *Hooks) def(key string) *defAt {
	parts := strings.Split(key, "/")
	if len(parts) < 2 {
		return nil
	}
	rid := parts[0]
	m := h.root(rid)
	for i := 1; i < len(parts); i++ {
		d := findDef(m, parts[i])
		if d == nil {
			return nil
		}
		if i == len(parts)-1 {
			return &defAt{m, d}
		}
		switch d.Kind {
		case prog.DMsg:
			m = h.prog.Msgs[d.Msg]
		case prog.DMapMsg:
			m = h.prog.Msgs[d.Msg]
			i++
		default:
			return nil
		}
	}
	return nil
}

func findDef(m *prog.Msg, name string) *prog.Def {
	if m == nil {
		return nil
	}
	for _, d := range m.Defs {
		if x := findIn(d, name); x != nil {
			return x
		}
	}
	if m.Oneof != nil {
		for _, c := range m.Oneof.Cases {
			for _, d := range c.Defs {
				if x := findIn(d, name); x != nil {
					return x
				}
			}
		}
	}
	return nil
}

// findIn finds the definition among d and those of its error rules.
func findIn(d *prog.Def, name string) *prog.Def {
	if d.Name == name {
		return d
	}
	for _, r := range d.Rules {
		for _, dd := range r.Defs {
			if dd.Name == name {
				return dd
			}
		}
	}
	return nil
}

func (h *Hooks) req(rid string) *Req {
	for i := range h.plan.Reqs {
		if h.plan.Reqs[i].Rid() == rid {
			return &h.plan.Reqs[i]
		}
	}
	return nil
}

func (h *Hooks) root(rid string) *prog.Msg {
	if r := h.req(rid); r != nil {
		return h.prog.Msgs[h.prog.Methods[r.Method].Root]
	}
	return nil
}

func (h *Hooks) hasLimit(rid string) bool {
	r := h.req(rid)
	if r == nil {
		return false
	}
	return r.Cancel > 0 || r.Deadline > 0 || h.prog.Methods[r.Method].Timeout > 0
}

// argAliases: see prog.argNames.
var argAliases = map[string][]string{"A": {"Aa", "Xa"}, "B": {"Bb"}}

func argOf(args any, name string) string {
	for _, n := range append([]string{name}, argAliases[name]...) {
		v := reflect.ValueOf(args).Elem().FieldByName(n)
		if v.IsValid() && v.Kind() == reflect.String {
			return v.String()
		}
	}
	return ""
}

func (h *Hooks) runCustom(ctx context.Context, key string, a, b, p string) error {
	if ctx.Err() != nil {
		// started although the request is over; not counted
		return status.FromContextError(ctx.Err()).Err()
	}
	at := h.plan.Custom(key)
	var rec *CustomRec
	if !h.race {
		rec = &CustomRec{Key: key, Start: simrt.Now(), StartStep: simrt.Steps(), Args: map[string]string{"p": p, "a": a, "b": b}, Outcome: "running"}
		h.customs = append(h.customs, rec)
		simrt.Event("custom %s", key)
	}
	h.open++
	defer func() { h.open-- }()
	g := h.plan.prng("customlog", key)
	grpcfed.Logger(ctx).InfoContext(ctx, "custom:"+key)
	if at.Lat > 0 {
		time.Sleep(at.Lat)
	} else {
		simrt.Yield()
	}
	_ = g
	if rec != nil {
		rec.End = simrt.Now()
		rec.EndStep = simrt.Steps()
		rec.Outcome = at.Kind
	}
	switch at.Kind {
	case "fail":
		h.hit("custom resolver error")
		return status.Error(codes.Code(at.Code), at.Msg)
	case "panic":
		h.hit("panic in custom resolver")
		panic(at.Msg)
	}
	switch customAdds(key) {
	case 1:
		fedlog.AddAttrs(ctx, []slog.Attr{slog.String(key, "c")})
	case 2:
		grpcfed.SetLogger(ctx, grpcfed.Logger(ctx).With(slog.String(key, "s")))
	}
	return nil
}

// CustomMessage is a message custom resolver.
func (h *Hooks) CustomMessage(ctx context.Context, name string, args any, ret proto.Message) error {
	p, a, b := argOf(args, "P"), argOf(args, "A"), argOf(args, "B")
	if err := h.runCustom(ctx, p+"/"+name, a, b, p); err != nil {
		return err
	}
	m := ret.ProtoReflect()
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		m.Set(fs.Get(i), protoString(customText(string(fs.Get(i).Name()), p, a, b)))
	}
	return nil
}

// CustomField is a field custom resolver.
func (h *Hooks) CustomField(ctx context.Context, name, field string, args any) (string, error) {
	p, a, b := argOf(args, "P"), argOf(args, "A"), argOf(args, "B")
	if err := h.runCustom(ctx, p+"/"+name+"."+field, a, b, p); err != nil {
		return "", err
	}
	return customText(field, p, a, b), nil
}

// ErrorHandler is the service's global error handler.
func (h *Hooks) ErrorHandler() grpcfed.ErrorHandler {
	return func(ctx context.Context, method string, err error) error {
		if !h.race {
			rid, _ := ctx.Value(ridKey{}).(string)
			rec := &ErrRec{Rid: rid, Method: method, Nil: err == nil, At: simrt.Now()}
			if err != nil {
				rec.Status = statusOf(err)
			}
			h.errs = append(h.errs, rec)
			simrt.Event("handler %s %s %v", rid, method, rec.Status)
		}
		return err
	}
}

// Logger records log lines.
func (h *Hooks) Logger() *slog.Logger { return slog.New(&logHandler{h: h}) }

type logHandler struct {
	h     *Hooks
	attrs []slog.Attr
}

func (l *logHandler) Enabled(context.Context, slog.Level) bool { return true }
func (l *logHandler) WithGroup(string) slog.Handler            { return l }
func (l *logHandler) WithAttrs(as []slog.Attr) slog.Handler {
	return &logHandler{l.h, append(l.attrs[:len(l.attrs):len(l.attrs)], as...)}
}

func (l *logHandler) Handle(ctx context.Context, r slog.Record) error {
	if l.h.race {
		r.Attrs(func(a slog.Attr) bool { _ = a.Value.Resolve(); return true })
		return nil
	}
	rid, _ := ctx.Value(ridKey{}).(string)
	rec := &LogRec{Rid: rid, Msg: r.Message, Level: r.Level, At: simrt.Now()}
	seen := map[string]bool{}
	as := l.attrs
	r.Attrs(func(a slog.Attr) bool {
		if a.Key == "grpc_status" {
			rec.Failure = true
		}
		if a.Key == "stack_trace" && a.Value.Kind() == slog.KindGroup {
			rec.Stack = len(a.Value.Group())
		}
		return true
	})
	if rec.Failure {
		// The attributes of the scope which failed come with the line.
		r.Attrs(func(a slog.Attr) bool {
			as = append(as[:len(as):len(as)], a)
			return true
		})
	}
	for _, a := range as {
		if a.Key == "grpc_status" {
			continue
		}
		if !seen[a.Key] {
			seen[a.Key] = true
			rec.Attrs = append(rec.Attrs, a.Key)
			if strings.Contains(a.Key, "/") {
				if rec.Vals == nil {
					rec.Vals = map[string]string{}
				}
				rec.Vals[a.Key] = fmt.Sprint(a.Value.Resolve().Any())
			}
		}
	}
	switch {
	case strings.HasPrefix(r.Message, "L:"), strings.HasPrefix(r.Message, "custom:"):
		rec.ID = r.Message
		rec.Line = r.Level.String()
		r.Attrs(func(a slog.Attr) bool {
			rec.Line += " " + a.Key + "=" + fmt.Sprint(a.Value.Resolve().Any())
			return true
		})
	case strings.HasPrefix(r.Message, "resolve "):
		r.Attrs(func(a slog.Attr) bool {
			if a.Key == "message_args" {
				rec.ID = "resolve:" + groupField(a, "p")
			}
			return true
		})
	case strings.HasPrefix(r.Message, "resolved "):
		// A line about a message with custom resolvers tells its scope.
		r.Attrs(func(a slog.Attr) bool {
			name := "cf"
			if m := l.h.message(r.Message[strings.LastIndexByte(r.Message, '.')+1:]); m != nil && m.CustomResolver {
				name = m.Fields[0].Name
			}
			if v := groupField(a, name); strings.HasPrefix(v, name+":") {
				rec.ID = "resolved:" + v[strings.IndexByte(v, '@')+1:]
			}
			return true
		})
	case strings.HasPrefix(r.Message, "call "):
		r.Attrs(func(a slog.Attr) bool {
			if f := groupField(a, "key"); f != "" {
				rec.ID = "call:" + f
			}
			return true
		})
	}
	l.h.logs = append(l.h.logs, rec)
	simrt.Event("log %s %s %v", rec.Rid, rec.ID, rec.Attrs)
	return nil
}

func (h *Hooks) message(name string) *prog.Msg {
	for _, m := range h.prog.Msgs {
		if m.Name == name {
			return m
		}
	}
	return nil
}

func groupField(a slog.Attr, name string) string {
	v := a.Value.Resolve()
	if v.Kind() != slog.KindGroup {
		return ""
	}
	for _, x := range v.Group() {
		if x.Key == name {
			return x.Value.String()
		}
	}
	return ""
}
