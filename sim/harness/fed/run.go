//go:build simruntime

package fed

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/cenkalti/backoff/v4"
	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/protoadapt"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verif.local/harness/wk"
	"verif.local/sim/simrt"
)

func protoString(s string) protoreflect.Value { return protoreflect.ValueOfString(s) }

// Result of one request.
type Result struct {
	Req    Req
	Begin  time.Duration
	End    time.Duration
	Done   bool
	OK     bool
	Resp   string
	Status Status
}

func statusOf(err error) Status {
	st, ok := status.FromError(err)
	if !ok {
		if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
			st = status.FromContextError(err)
		}
	}
	return *newStatus(int(st.Code()), st.Message(), protos(st.Details())...)
}

func protos(in []any) (out []protoadapt.MessageV1) {
	for _, d := range in {
		if m, ok := d.(protoadapt.MessageV1); ok {
			out = append(out, m)
		} else {
			out = append(out, &errdetails.DebugInfo{Detail: fmt.Sprint(d)})
		}
	}
	return out
}

func newStatus(code int, msg string, ds ...protoadapt.MessageV1) *Status {
	st := &Status{Code: code, Msg: msg, Protos: ds}
	for _, d := range ds {
		if x, ok := d.(*errdetails.ErrorInfo); ok {
			st.Details = append(st.Details, fmt.Sprintf("ErrorInfo{%s %v}", x.GetReason(), x.GetMetadata()))
			continue
		}
		st.Details = append(st.Details, render(protoadapt.MessageV2Of(d).ProtoReflect()))
	}
	return st
}

// render writes a response canonically: fields in number order, unset message
// fields as nil, empty strings and lists as such.
func render(m protoreflect.Message) string {
	var b strings.Builder
	b.WriteString(string(m.Descriptor().Name()) + "{")
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if f.ContainingOneof() != nil && !m.Has(f) {
			continue
		}
		fmt.Fprintf(&b, "%s:", f.Name())
		v := m.Get(f)
		switch {
		case f.IsList():
			b.WriteString("[")
			l := v.List()
			for j := 0; j < l.Len(); j++ {
				if f.Message() != nil {
					b.WriteString(render(l.Get(j).Message()))
				} else if f.Enum() != nil {
					fmt.Fprint(&b, l.Get(j).Enum())
				} else {
					fmt.Fprintf(&b, "%q", l.Get(j).String())
				}
				b.WriteString(",")
			}
			b.WriteString("]")
		case f.Message() != nil:
			if !m.Has(f) {
				b.WriteString("nil")
			} else {
				b.WriteString(render(v.Message()))
			}
		case f.Kind() == protoreflect.StringKind:
			fmt.Fprintf(&b, "%q", v.String())
		default:
			fmt.Fprint(&b, v.Interface())
		}
		b.WriteString(" ")
	}
	b.WriteString("}")
	return b.String()
}

func renderObj(o *Obj) string {
	if o == nil {
		return "nil"
	}
	var b strings.Builder
	b.WriteString(o.Name + "{")
	for _, n := range o.Names {
		fmt.Fprintf(&b, "%s:", n)
		switch v := o.F[n].(type) {
		case string:
			fmt.Fprintf(&b, "%q", v)
		case bool:
			fmt.Fprint(&b, v)
		case Kind:
			fmt.Fprint(&b, int32(v))
		case []Kind:
			b.WriteString("[")
			for _, x := range v {
				fmt.Fprintf(&b, "%d,", int32(x))
			}
			b.WriteString("]")
		case []string:
			b.WriteString("[")
			for _, x := range v {
				fmt.Fprintf(&b, "%q,", x)
			}
			b.WriteString("]")
		case *Obj:
			b.WriteString(renderObj(v))
		case []*Obj:
			b.WriteString("[")
			for _, x := range v {
				b.WriteString(renderObj(x) + ",")
			}
			b.WriteString("]")
		}
		b.WriteString(" ")
	}
	b.WriteString("}")
	return b.String()
}

// Run executes plan under a schedule.
func Run(plan *Plan, opt simrt.Options) *wk.Outcome {
	if len(plan.Zoo) > 0 {
		return runZoo(plan, opt)
	}
	e := bySeed[plan.Prog]
	if e == nil {
		return &wk.Outcome{Err: fmt.Sprintf("program %d is not linked", plan.Prog)}
	}
	plan.sup = nil
	p := e.Program()
	h := newHooks(plan, p)
	results := make([]*Result, len(plan.Reqs))
	var newErr error
	backoff.SimRand = plan.jitter()
	opt.Stalls, opt.Late = plan.Stalls, plan.Late
	opt.Horizon = 10 * time.Minute
	for _, r := range plan.Reqs {
		opt.Horizon = max(opt.Horizon, r.Start+10*time.Minute)
	}
	res := simrt.Run(opt, func() {
		var srv any
		var closeSvc func(context.Context)
		var err error
		simrt.NoYield(func() { srv, closeSvc, err = e.New(h) })
		if err != nil {
			newErr = err
			return
		}
		done := make(chan int, len(plan.Reqs))
		for i := range plan.Reqs {
			r := plan.Reqs[i]
			out := &Result{Req: r}
			results[i] = out
			go func() {
				time.Sleep(r.Start)
				h.request(e, srv, r, out)
				done <- i
			}()
		}
		for range plan.Reqs {
			<-done
		}
		closeSvc(context.Background())
	})
	o := &wk.Outcome{Res: res, Faults: h.fired}
	if newErr != nil {
		o.Err = "service creation failed: " + newErr.Error()
		return o
	}
	if res.Stalls > 0 {
		h.fired["goroutine stall"] += res.Stalls
	}
	if raceEnabled {
		return o
	}
	c := &checker{e: e, p: p, plan: plan, h: h, res: res, o: o}
	c.check(results)
	return o
}

func (h *Hooks) request(e *Entry, srv any, r Req, out *Result) {
	ctx := context.WithValue(context.Background(), ridKey{}, r.Rid())
	if r.Meta != "" {
		ctx = metadata.NewIncomingContext(ctx, metadata.Pairs("k", r.Meta, "other", "x"))
	}
	var cancel context.CancelFunc = func() {}
	switch {
	case r.Deadline > 0:
		ctx, cancel = context.WithTimeout(ctx, r.Deadline)
	case r.Cancel > 0:
		ctx, cancel = context.WithCancel(ctx)
		time.AfterFunc(r.Cancel, cancel)
	}
	out.Begin = simrt.Now()
	if !h.race {
		simrt.Event("request %s begins", r.Rid())
	}
	md := e.Desc.Methods[r.Method]
	resp, err := md.Handler(srv, ctx, func(in any) error {
		m := in.(proto.Message).ProtoReflect()
		fs := m.Descriptor().Fields()
		m.Set(fs.ByName("p"), protoString(r.Rid()))
		m.Set(fs.ByName("a"), protoString(r.A))
		m.Set(fs.ByName("b"), protoString(r.B))
		return nil
	}, nil)
	out.End = simrt.Now()
	out.Done = true
	if h.race {
		cancel()
		return
	}
	if err != nil {
		out.Status = statusOf(err)
		simrt.Event("request %s fails %v", r.Rid(), out.Status)
	} else {
		out.OK = true
		out.Resp = render(resp.(proto.Message).ProtoReflect())
		simrt.Event("request %s ok %s", r.Rid(), out.Resp)
	}
	if ctx.Err() != nil {
		if r.Cancel > 0 {
			h.hit("client cancels")
		} else {
			h.hit("client deadline expires")
		}
	}
	cancel()
}

var _ = sort.Strings
