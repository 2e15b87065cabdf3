//go:build simruntime

package fed

import (
	"fmt"
	"slices"
	"strconv"
	"strings"
	"time"

	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/protobuf/protoadapt"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"

	bk "verif.local/harness/gen/bk"
	"verif.local/sim/prog"
)

// The reference interpreter: evaluates one request definition by definition,
// following the documented meaning of the annotations, with the same planned
// downstream behaviour the simulated downstream has.

type (
	// Kind is a value of the enum every program has.
	Kind int32
	// Val is string, bool, Kind, []string, []Kind, *Reply (nil allowed), *Obj (nil allowed), []*Obj.
	Val any
	Obj struct {
		Name  string
		Names []string
		F     map[string]Val
	}
)

func (o *Obj) set(k string, v Val) {
	o.Names = append(o.Names, k)
	o.F[k] = v
}

// Status is an error as a client sees it.
type Status struct {
	Code    int
	Msg     string
	Details []string
	Protos  []protoadapt.MessageV1
}

func (s Status) String() string {
	return fmt.Sprintf("%s %q %v", prog.CodeNames[s.Code], s.Msg, s.Details)
}

// Field evaluates one of prog.ErrFields.
func (s *Status) Field(name string) string {
	n := 0
	first := ""
	add := func(text string) {
		if n++; n == 1 {
			first = text
		}
	}
	for _, d := range s.Protos {
		switch d := d.(type) {
		case *errdetails.ErrorInfo:
			if name == "info" || name == "infos" {
				add(d.GetReason())
			}
		case *errdetails.LocalizedMessage:
			if name == "loc" {
				add(d.GetLocale() + d.GetMessage())
			}
		case *errdetails.BadRequest:
			if name == "bad" {
				add(d.GetFieldViolations()[1].GetDescription())
			}
		case *errdetails.PreconditionFailure:
			if name == "pre" {
				add(d.GetViolations()[0].GetSubject())
			}
		case *errdetails.QuotaFailure:
			if name == "quota" {
				add(d.GetViolations()[0].GetSubject())
			}
		case *errdetails.RequestInfo:
			if name == "request" {
				add(d.GetRequestId())
			}
		case *errdetails.ResourceInfo:
			if name == "res" {
				add(d.GetOwner())
			}
		case *errdetails.Help:
			if name == "help" {
				add(d.GetLinks()[0].GetUrl())
			}
		case *errdetails.DebugInfo:
			if name == "debug" {
				add(d.GetDetail())
			}
		case *errdetails.RetryInfo:
			if name == "retry" {
				add("")
			}
		default:
			if name == "custom" || name == "details" {
				add("")
			}
		}
	}
	switch name {
	case "code":
		return strconv.Itoa(s.Code)
	case "details":
		return fmt.Sprintf("%d/%s/%s", len(s.Protos), strconv.Itoa(n), s.Field("infos"))
	case "custom":
		return strconv.Itoa(n + 100*len(s.Protos))
	case "retry", "infos":
		return strconv.Itoa(n)
	}
	if n == 0 {
		return "none"
	}
	return first
}

// Site is a failure the interpreter predicts.
type Site struct {
	Key     string
	Path    string // message instance it happened in
	At      time.Duration
	Status  Status
	AnyMsg  bool // message and details not predicted
	Timeout bool
	Panic   bool
	Eval    bool     // the evaluation of an expression
	Level   string   // of the log line reporting it
	Must    []string // log attributes of its scope, which the line carries
}

// CallPred is a predicted downstream call.
type CallPred struct {
	Key, Method, A, B string
	Attempts          int
	Starts            []time.Duration // of each attempt
	Start, End        time.Duration
	Deps              []string // keys of calls that must have finished before
	TimedOut          bool
	Failed            bool // final outcome is a failure seen by the error handler
}

// CustomPred is a predicted custom resolver invocation.
type CustomPred struct {
	Key        string
	Start, End time.Duration
}

// LinePred is a predicted log line with the attributes it must carry.
type LinePred struct {
	ID   string
	Must []string
	Line string // level and attributes of the line itself
}

// Pred is the prediction for a request.
type Pred struct {
	Resp     *Obj
	End      time.Duration // success time, or time of the first failure
	Sites    []Site
	Calls    map[string]*CallPred
	Customs  map[string]*CustomPred
	Resolves map[string]string // path -> message name
	Lines    map[string]*LinePred
	Vals     map[string]string   // values of log attributes
	Adds     map[string][]string // attribute key -> attributes certainly added before it
	// OnLogger: the attribute is one of the logger which a resolver set, on what is logged with
	// that logger. The line reporting a failure is logged with the logger of the request.
	OnLogger map[string]bool
	Timeouts bool // some timeout is configured on the way
	MethodTO bool // the method's timeout ends the request
	Handler  int  // error handler invocations if the request succeeds
	Hangs    bool
}

type interp struct {
	p    *prog.Program
	plan *Plan
	req  Req
	out  *Pred
	lim  time.Duration // outermost deadline known (method timeout), for hangs
}

type cell struct {
	val   Val
	end   time.Duration
	fail  bool
	deps  []string // call keys this value depends on (finished before it)
	must  []string // log attributes certainly added before it, in order
	start time.Duration
}

type scope struct {
	args  map[string]string
	cells map[string]*cell
	err   *Status
	loc   map[string]Val
}

const never = time.Duration(1) << 60

// Interpret predicts request r.
func Interpret(p *prog.Program, plan *Plan, r Req) *Pred {
	in := &interp{p: p, plan: plan, req: r, out: &Pred{
		Calls: map[string]*CallPred{}, Customs: map[string]*CustomPred{}, Resolves: map[string]string{},
		Lines: map[string]*LinePred{}, Vals: map[string]string{}, Adds: map[string][]string{}, OnLogger: map[string]bool{}}}
	m := p.Methods[r.Method]
	rid := r.Rid()
	in.lim = never
	if m.Timeout > 0 {
		in.lim = m.Timeout
		in.out.Timeouts = true
	}
	if r.Deadline > 0 && r.Deadline < in.lim {
		in.lim = r.Deadline
	}
	if r.Cancel > 0 && r.Cancel < in.lim {
		in.lim = r.Cancel
	}
	o, end, failed, _ := in.msg(p.Msgs[m.Root], map[string]string{"p": rid, "a": r.A, "b": r.B}, 0, nil, nil)
	in.out.End = end
	if !failed {
		in.out.Resp = o
	}
	if failed {
		in.out.End = never
		for _, s := range in.out.Sites {
			if s.At < in.out.End {
				in.out.End = s.At
			}
		}
	}
	if m.Timeout > 0 && in.out.End >= m.Timeout {
		in.out.MethodTO = true
	}
	return in.out
}

func (in *interp) msg(m *prog.Msg, args map[string]string, start time.Duration, deps, must []string) (*Obj, time.Duration, bool, []string) {
	path := args["p"]
	in.out.Resolves[path] = m.Name
	in.out.Lines["resolve:"+path] = &LinePred{ID: "resolve:" + path, Must: must}
	sc := &scope{args: args, cells: map[string]*cell{}}
	end := start
	failed := false
	alldeps := append([]string{}, deps...)
	allmust := append([]string{}, must...)
	// a validation without a name gates nothing but the message itself
	for _, d := range m.Defs {
		c := in.def(m, d, sc, path, start, deps, must)
		name := d.Name
		if d.Kind == prog.DValidation {
			name = "?" + d.Name
		}
		sc.cells[name] = c
		if c.fail {
			failed = true
			continue
		}
		end = max(end, c.end)
		alldeps = union(alldeps, c.deps)
		allmust = union(allmust, c.must)
	}
	if failed {
		return nil, end, true, alldeps
	}
	o := &Obj{Name: m.Name, F: map[string]Val{}}
	if m.CustomResolver {
		a := in.custom(path, path+"/"+m.Name, end, allmust)
		end += a.Lat
		if a.Kind != "ok" {
			in.site(path, path+"/"+m.Name, end, a)
			return nil, end, true, alldeps
		}
		in.addBy(path+"/"+m.Name, &allmust)
		for _, f := range m.Fields {
			o.set(f.Name, customText(f.Name, path, args["a"], args["b"]))
		}
		in.out.Lines["resolved:"+path] = &LinePred{ID: "resolved:" + path, Must: allmust}
		return o, end, false, alldeps
	}
	for _, f := range m.Fields {
		switch {
		case f.Custom:
			key := path + "/" + m.Name + "." + f.Name
			a := in.custom(path, key, end, allmust)
			end += a.Lat
			if a.Kind != "ok" {
				in.site(path, key, end, a)
				return nil, end, true, alldeps
			}
			in.addBy(key, &allmust)
			o.set(f.Name, customText(f.Name, path, args["a"], args["b"]))
		case f.Auto:
			r, _ := sc.cells[m.Defs[m.Autobind].Name].val.(*Reply)
			v := ""
			if r != nil {
				v = map[string]string{"v": r.V, "w": r.W}[f.Name]
			}
			o.set(f.Name, v)
		default:
			o.set(f.Name, in.eval(f.By, sc))
		}
	}
	if m.Oneof != nil {
		for _, c := range m.Oneof.Cases {
			if c.If != nil && !in.eval(c.If, sc).(bool) {
				continue
			}
			for _, d := range c.Defs {
				cl := in.def(m, d, sc, path, end, alldeps, allmust)
				sc.cells[d.Name] = cl
				if cl.fail {
					return nil, end, true, alldeps
				}
				end = max(end, cl.end)
				alldeps = union(alldeps, cl.deps)
			}
			o.set(c.Name, in.eval(c.By, sc))
			break
		}
	}
	in.out.Lines["resolved:"+path] = &LinePred{ID: "resolved:" + path, Must: allmust}
	return o, end, false, alldeps
}

func (in *interp) custom(path, key string, start time.Duration, must []string) Attempt {
	a := in.plan.Custom(key)
	in.out.Customs[key] = &CustomPred{key, start, start + a.Lat}
	in.out.Lines["custom:"+key] = &LinePred{ID: "custom:" + key, Must: must}
	return a
}

// addBy is the attribute a custom resolver adds for its message's scope.
func (in *interp) addBy(key string, must *[]string) {
	if customAdds(key) != 0 {
		in.out.Adds[key] = *must
		*must = union(*must, []string{key})
		in.out.OnLogger[key] = customAdds(key) == 2
	}
}

// customAdds: 0 nothing, 1 adds a log attribute, 2 sets a logger with one.
func customAdds(key string) int { return int(prog.Hash("adds", key) % 3) }

// callAdds: the client of the call (an interceptor, say) adds a log attribute
// before it sends the request.
func callAdds(key string) bool { return prog.Hash("cadds", key)%3 == 0 }

func (in *interp) site(path, key string, at time.Duration, a Attempt) {
	switch a.Kind {
	case "fail":
		in.out.Sites = append(in.out.Sites, Site{Key: key, Path: path, At: at, Status: Status{Code: a.Code, Msg: a.Msg}})
	case "panic":
		in.out.Sites = append(in.out.Sites, Site{Key: key, Path: path, At: at, Status: Status{Code: 2, Msg: "recovered error: " + a.Msg}, Panic: true})
	}
}

func union(a []string, bs ...[]string) []string {
	out := a[:len(a):len(a)]
	for _, b := range bs {
	next:
		for _, x := range b {
			for _, y := range out {
				if x == y {
					continue next
				}
			}
			out = append(out, x)
		}
	}
	return out
}

func (in *interp) def(m *prog.Msg, d *prog.Def, sc *scope, path string, start time.Duration, deps, must []string) *cell {
	refs := map[string]bool{}
	for _, e := range d.Exprs() {
		e.Refs(refs)
	}
	c := &cell{deps: append([]string{}, deps...), must: append([]string{}, must...), start: start, val: zero(d.Type)}
	blocked := false
	for _, o := range m.Defs { // declaration order: keeps attribute order stable
		name := o.Name
		if o == d {
			break
		}
		if o.Kind == prog.DValidation {
			name = "?" + name // everything declared after a validation waits for it
		} else if !refs[name] {
			continue
		}
		dc := sc.cells[name]
		if dc == nil {
			continue
		}
		if dc.fail {
			blocked = true
			continue
		}
		c.start = max(c.start, dc.end)
		c.deps = union(c.deps, dc.deps)
		c.must = union(c.must, dc.must)
	}
	for r := range refs {
		if dc := sc.cells[r]; dc != nil && dc.fail {
			blocked = true
		} else if dc != nil {
			c.start = max(c.start, dc.end)
			c.deps = union(c.deps, dc.deps)
		}
	}
	if blocked {
		c.fail = true
		return c
	}
	c.end = c.start
	if d.If != nil && !in.eval(d.If, sc).(bool) {
		return c
	}
	full := path + "/" + d.Name
	switch d.Kind {
	case prog.DBy, prog.DEnum:
		v, ok := in.try(d.By, sc)
		if !ok {
			in.out.Sites = append(in.out.Sites, Site{Key: full, Path: path, At: c.start, Status: Status{Code: 2, Msg: evalFailure}, Eval: true})
			c.fail = true
			return c
		}
		c.val = v
	case prog.DLogAdd:
		a := d.By.(prog.LogAdd)
		in.out.Adds[full] = c.must
		added := []string{full}
		in.out.Vals[full] = in.eval(a.Val, sc).(string)
		if a.List != nil {
			in.out.Adds[full+"l"] = c.must
			added = append(added, full+"l")
			in.out.Vals[full+"l"] = fmt.Sprint([]any{in.eval(a.List, sc), "y"})
		}
		if a.Map != nil {
			in.out.Adds[full+"m"] = c.must
			added = append(added, full+"m")
			in.out.Vals[full+"m"] = fmt.Sprint(map[string]any{"x": in.eval(a.Map, sc), "y": []any{"z"}})
		}
		c.must = union(c.must, added)
		c.val = true
	case prog.DLog:
		l := d.By.(prog.LogLine)
		line := strings.ToUpper(l.Level)
		if l.Val != nil {
			line += " v=" + in.eval(l.Val, sc).(string)
		}
		in.out.Lines["L:"+full] = &LinePred{ID: "L:" + full, Must: c.must, Line: line}
		c.val = true
	case prog.DValidation:
		s2 := sc.locals()
		for _, dd := range d.VDefs {
			s2.loc[dd.Name] = in.eval(dd.By, s2)
		}
		if in.eval(d.VIf, s2).(bool) {
			msg := d.VMsg
			if d.VMsgE != nil {
				msg += in.eval(d.VMsgE, s2).(string)
			}
			st := newStatus(d.VCode, msg, in.details(d.VDets, s2)...)
			in.out.Sites = append(in.out.Sites, Site{Key: path + "/" + d.VMsg, Path: path, At: c.start, Status: *st, Level: level(d.VLevel), Must: c.must})
			c.fail = true
		}
	case prog.DMsg:
		args := map[string]string{"p": full, "a": in.eval(d.ArgA, sc).(string), "b": in.eval(d.ArgB, sc).(string)}
		o, end, failed, dd := in.msg(in.p.Msgs[d.Msg], args, c.start, c.deps, c.must)
		c.end, c.fail = end, failed
		c.deps = union(c.deps, dd)
		if !failed {
			c.val = o
		}
	case prog.DMapEnum:
		src, _ := in.eval(d.Src, sc).([]string)
		out := []Kind{}
		for _, it := range src {
			out = append(out, in.eval(d.By, sc.with(d.Iter, it)).(Kind))
		}
		c.val = out
	case prog.DMapBy:
		src, _ := in.eval(d.Src, sc).([]string)
		out := []string{}
		for _, it := range src {
			out = append(out, in.eval(d.By, sc.with(d.Iter, it)).(string))
		}
		c.val = out
	case prog.DMapMsg:
		src, _ := in.eval(d.Src, sc).([]string)
		out := []*Obj{}
		t := c.start
		for _, it := range src {
			s2 := sc.with(d.Iter, it)
			args := map[string]string{"p": full + "/" + it, "a": in.eval(d.ArgA, s2).(string), "b": in.eval(d.ArgB, s2).(string)}
			o, end, failed, dd := in.msg(in.p.Msgs[d.Msg], args, t, c.deps, c.must)
			c.deps = union(c.deps, dd)
			if failed {
				c.fail = true
				break
			}
			t = end
			out = append(out, o)
		}
		c.end = t
		c.val = out
	case prog.DCall:
		in.call(d, sc, c, full)
	}
	return c
}

// locals is a scope whose additions do not reach sc.
func (sc *scope) locals() *scope {
	s := *sc
	s.loc = map[string]Val{}
	for k, v := range sc.loc {
		s.loc[k] = v
	}
	return &s
}

// details are the messages the blocks attach, in the documented order.
func (in *interp) details(bs []*prog.Detail, sc *scope) []protoadapt.MessageV1 {
	var out []protoadapt.MessageV1
	for _, b := range bs {
		str := func(e prog.Expr) string { return in.eval(e, sc).(string) }
		for _, dd := range b.Defs {
			sc.loc[dd.Name] = in.eval(dd.By, sc)
		}
		if b.If != nil && !in.eval(b.If, sc).(bool) {
			continue
		}
		if b.Msg != nil {
			out = append(out, detMessage(in.p, str(b.Msg)))
		}
		if b.By != nil {
			out = append(out, &bk.Res{W: str(b.By)})
		}
		// a violation or message whose expression fails is left out
		if b.Precond != nil {
			if v, ok := in.try(b.Precond, sc); ok {
				out = append(out, &errdetails.PreconditionFailure{Violations: []*errdetails.PreconditionFailure_Violation{
					{Type: "t", Subject: "s", Description: v.(string)}, {Type: "u", Subject: v.(string), Description: "d"}}})
			}
		}
		if b.Bad != nil {
			if v, ok := in.try(b.Bad, sc); ok {
				out = append(out, &errdetails.BadRequest{FieldViolations: []*errdetails.BadRequest_FieldViolation{
					{Field: "f", Description: v.(string)}, {Field: v.(string), Description: "d"}}})
			}
		}
		if b.Localized != nil {
			if v, ok := in.try(b.Localized, sc); ok {
				out = append(out, &errdetails.LocalizedMessage{Locale: "en-US", Message: v.(string)})
			}
		}
	}
	return out
}

// detMessage is the program's message for error details.
func detMessage(p *prog.Program, text string) protoadapt.MessageV1 {
	t, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(p.Name + ".Det"))
	if err != nil {
		panic(err)
	}
	m := t.New()
	m.Set(m.Descriptor().Fields().ByName("text"), protoString(text))
	return protoadapt.MessageV1Of(m.Interface())
}

func (sc *scope) with(name, v string) *scope {
	s := *sc
	s.loc = map[string]Val{name: v}
	return &s
}

func (in *interp) call(d *prog.Def, sc *scope, c *cell, key string) {
	a, b := in.eval(d.ReqA, sc).(string), in.eval(d.ReqB, sc).(string)
	if d.ReqIf != nil && !in.eval(d.ReqIf, sc).(bool) {
		b = ""
	}
	cp := &CallPred{Key: key, Method: d.Method, A: a, B: b, Start: c.start, Deps: c.deps}
	in.out.Calls[key] = cp
	in.out.Lines["call:"+key] = &LinePred{ID: "call:" + key, Must: c.must}
	if callAdds(key) {
		in.out.Adds[key] = c.must
		c.must = union(c.must, []string{key})
	}
	t := c.start
	limit := never
	if d.Timeout > 0 {
		limit = t + d.Timeout
		in.out.Timeouts = true
	}
	var st *Status
	panicked := false
	for n := 0; ; n++ {
		at := in.plan.Attempt(key, n, d.Timeout > 0 || in.lim != never, len(d.Rules) == 0 && !d.InRule)
		cp.Attempts++
		cp.Starts = append(cp.Starts, t)
		if at.Kind == "hang" {
			t = never
		} else {
			t += at.Lat
		}
		if t >= limit {
			break
		}
		if at.Kind == "ok" {
			break
		}
		if at.Kind == "hang" {
			break
		}
		if at.Kind == "panic" {
			panicked = true
			st = &Status{Code: 2, Msg: "recovered error: " + at.Msg}
			break
		}
		st = at.status()
		if d.Retry == nil {
			break
		}
		if d.Retry.IfCode != 0 && d.Retry.IfCode != at.Code {
			break
		}
		if d.Retry.If != nil && !in.eval(d.Retry.If, sc).(bool) {
			break
		}
		if n >= d.Retry.MaxRetries() && d.Retry.MaxRetries() > 0 {
			break
		}
		wait := d.Retry.Wait(n, in.plan.jitter())
		if d.Retry.Exponential && d.Timeout > 0 && t-c.start+wait > d.Timeout {
			break // the next attempt would start too late
		}
		t += wait
		if t >= limit {
			break
		}
		st = nil
	}
	if t >= limit {
		t = limit
		cp.TimedOut = true
		st = timeoutStatus("bk.Backend/"+d.Method, d.Timeout)
	}
	if t == never {
		// ends only with the request's own deadline
		in.out.Hangs = true
		cp.End = never
		c.end = never
		c.fail = true
		return
	}
	cp.End = t
	c.end = t
	c.deps = union(c.deps, []string{key})
	if st == nil {
		r := reply(d.Method, key, a, b)
		c.val = &r
		return
	}
	cp.Failed = true
	if panicked {
		in.out.Sites = append(in.out.Sites, Site{Key: key, Path: key[:strings.LastIndexByte(key, '/')], At: t, Status: *st, Panic: true})
		if d.Timeout == 0 {
			cp.Failed = false // unwinds past the error handler
		}
		c.fail = true
		c.val = zero(d.Type)
		return
	}
	if cp.Failed {
		in.out.Handler++
	}
	final, lv, ignored, val := in.rules(d, *st, sc, c, key[:strings.LastIndexByte(key, '/')])
	if c.end == never {
		c.fail = true
		return
	}
	if ignored {
		if val != nil {
			c.val = val
		}
		return
	}
	in.out.Sites = append(in.out.Sites, Site{Key: key, Path: key[:strings.LastIndexByte(key, '/')], At: c.end, Status: final, Timeout: cp.TimedOut, Level: level(lv), Must: c.must})
	c.fail = true
}

// rules applies the error rules of d, which may make calls themselves.
func (in *interp) rules(d *prog.Def, st Status, sc *scope, c *cell, path string) (Status, string, bool, *Reply) {
	s2 := sc.locals()
	s2.err = &st
	for _, r := range d.Rules {
		for _, dd := range r.Defs {
			if dd.Kind != prog.DCall {
				s2.loc[dd.Name] = in.eval(dd.By, s2)
				continue
			}
			c2 := &cell{deps: c.deps, must: c.must, start: c.end, val: zero(dd.Type)}
			n := len(in.out.Sites)
			in.call(dd, s2, c2, path+"/"+dd.Name)
			in.out.Sites = in.out.Sites[:n]
			c.end, c.deps, c.must = c2.end, c2.deps, c2.must
			if c2.fail {
				return st, "", false, nil // the original error
			}
			s2.loc[dd.Name] = c2.val
		}
		if r.IfCode != 0 && st.Code != r.IfCode {
			continue
		}
		if r.IfHas != "" && !strings.HasPrefix(st.Msg, r.IfHas) {
			continue
		}
		if r.If != nil && !in.eval(r.If, s2).(bool) {
			continue
		}
		if r.Ignore {
			return Status{}, "", true, nil
		}
		if r.IgnoreResp != nil {
			return Status{}, "", true, &Reply{V: in.eval(r.IgnoreResp, s2).(string)}
		}
		code, msg, details := r.Code, st.Msg, st.Protos
		if code == 0 {
			code = st.Code
		}
		if msg == "" {
			msg = "error"
		}
		if r.Message != nil {
			msg = in.eval(r.Message, s2).(string)
		}
		if len(r.Details) > 0 {
			details = in.details(r.Details, s2)
		}
		return *newStatus(code, msg, details...), r.Level, false, nil
	}
	return st, "", false, nil
}

// level of a log line (the default is ERROR).
func level(s string) string {
	if s == "" {
		return "ERROR"
	}
	return s
}

func timeoutStatus(method string, d time.Duration) *Status {
	return newStatus(4, "context deadline exceeded", &errdetails.ErrorInfo{Metadata: map[string]string{"method": method, "timeout": d.String()}})
}

func zero(t prog.Type) Val {
	switch t.Kind {
	case prog.TString:
		return ""
	case prog.TBool:
		return false
	case prog.TList:
		return []string{}
	case prog.TRes:
		return (*Reply)(nil)
	case prog.TMsg:
		return (*Obj)(nil)
	case prog.TEnum:
		return Kind(0)
	case prog.TEnumList:
		return []Kind{}
	}
	return []*Obj{}
}

// evalFailure is what an expression that fails (prog.Fails) says.
const evalFailure = "index out of bounds: 1"

type evalFailed struct{}

// try evaluates an expression that may fail.
func (in *interp) try(e prog.Expr, sc *scope) (v Val, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(evalFailed); !is {
				panic(r)
			}
			v, ok = nil, false
		}
	}()
	return in.eval(e, sc), true
}

func (in *interp) eval(e prog.Expr, sc *scope) Val {
	s := func(e prog.Expr) string { return in.eval(e, sc).(string) }
	switch e := e.(type) {
	case prog.Lit:
		return string(e)
	case prog.Arg:
		return sc.args[string(e)]
	case prog.Ref:
		return in.lookup(string(e), sc)
	case prog.Sel:
		switch v := in.lookup(e.Var, sc).(type) {
		case *Reply:
			if v == nil {
				return "nil"
			}
			if e.Field == "v" {
				return v.V
			}
			return v.W
		case *Obj:
			if v == nil {
				return "nil"
			}
			return v.F[e.Field]
		}
	case prog.SelList:
		v := in.lookup(e.Var, sc).(*Reply)
		if v == nil {
			return []string{"nil"}
		}
		return v.List
	case prog.Concat:
		return s(e.L) + s(e.R)
	case prog.Cond:
		if in.eval(e.C, sc).(bool) {
			return in.eval(e.T, sc)
		}
		return in.eval(e.F, sc)
	case prog.BoolLit:
		return bool(e)
	case prog.Eq:
		return s(e.L) == s(e.R)
	case prog.Fails:
		v := s(e.E)
		if strings.HasSuffix(v, e.S) {
			panic(evalFailed{})
		}
		return v
	case prog.Starts:
		return strings.HasPrefix(s(e.E), e.S)
	case prog.Not:
		return !in.eval(e.E, sc).(bool)
	case prog.And:
		return in.eval(e.L, sc).(bool) && in.eval(e.R, sc).(bool)
	case prog.NotNull:
		switch v := in.lookup(string(e), sc).(type) {
		case *Reply:
			return v != nil
		case *Obj:
			return v != nil
		}
	case prog.SizeGt:
		return in.size(e.E, sc) > e.N
	case prog.SizeStr:
		return strconv.Itoa(in.size(e.E, sc))
	case prog.ListLit:
		out := []string{}
		for _, x := range e {
			out = append(out, s(x))
		}
		return out
	case prog.EnumVal:
		return Kind(s(e.E)[1] - '0')
	case prog.EnumName:
		return fmt.Sprintf("K%d", in.eval(e.E, sc).(Kind))
	case prog.ErrInfo:
		return sc.err.Field("info")
	case prog.ErrField:
		return sc.err.Field(string(e))
	case prog.Matches:
		return strings.HasSuffix(s(e.E), e.S)
	case prog.HasArg:
		return sc.args[string(e)] != ""
	case prog.HasSel:
		v := in.lookup(e.Var, sc).(*Reply)
		return v != nil && map[string]string{"v": v.V, "w": v.W}[e.Field] != ""
	case prog.Meta:
		if in.req.Meta == "" {
			return "nomd"
		}
		return in.req.Meta
	case prog.Exists:
		return slices.Contains(in.eval(e.List, sc).([]string), e.S)
	case prog.First:
		if l := in.eval(e.List, sc).([]string); len(l) > 0 {
			return l[0]
		}
		return "none"
	case prog.Filter:
		out := []string{}
		for _, x := range in.eval(e.List, sc).([]string) {
			if !strings.HasPrefix(x, e.S) {
				out = append(out, x)
			}
		}
		return out
	case prog.ErrMsg:
		return sc.err.Msg
	}
	panic(fmt.Sprintf("interp: %T %s", e, e.CEL()))
}

func (in *interp) size(e prog.Expr, sc *scope) int {
	switch v := in.eval(e, sc).(type) {
	case []string:
		return len(v)
	case []*Obj:
		return len(v)
	case []Kind:
		return len(v)
	}
	panic("interp: size")
}

func (in *interp) lookup(name string, sc *scope) Val {
	if v, ok := sc.loc[name]; ok {
		return v
	}
	return sc.cells[name].val
}
