//go:build simruntime

package fed

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"time"

	"verif.local/harness/wk"
	"verif.local/sim/prog"
	"verif.local/sim/simrt"
)

type checker struct {
	e    *Entry
	p    *prog.Program
	plan *Plan
	h    *Hooks
	res  *simrt.Result
	o    *wk.Outcome

	vague map[string]bool // requests whose evaluation depends on the timing of stalls
}

func (c *checker) fail(kind string, props []string, f string, a ...any) {
	c.o.Add(kind, fmt.Sprintf(f, a...), props...)
}

func (c *checker) check(results []*Result) {
	if c.res.StepCap {
		c.fail("livelock", []string{"C04"}, "step limit reached after %d scheduling points, %v simulated", c.res.Yields, c.res.SimTime)
		return
	}
	if c.res.Hang {
		props := []string{"C04"}
		for _, k := range []string{"C05", "C06", "C08", "C09"} {
			if c.relevant(k) {
				props = append(props, k)
			}
		}
		c.fail("hang", props, "the run did not finish within simulated time %v\n%s", c.res.SimTime, c.res.HangDump)
		return
	}
	if c.res.Leaked != 0 {
		c.fail("leak", []string{"C08", "C05"}, "%d goroutines remain after every request and downstream call returned\n%s", c.res.Leaked, c.res.LeakDump)
	}
	preds := make([]*Pred, len(results))
	byRid := map[string]*Pred{}
	c.vague = map[string]bool{}
	for i, r := range results {
		preds[i] = Interpret(c.p, c.plan, r.Req)
		byRid[r.Req.Rid()] = preds[i]
	}
	for i, r := range results {
		c.request(r, preds[i])
	}
	c.logs(results, byRid)
}

func (c *checker) relevant(prop string) bool {
	f := c.h.fired
	switch prop {
	case "C05":
		return f["downstream hang"]+f["client deadline expires"]+f["client cancels"]+f["call cut by context"] > 0
	case "C06", "C08":
		return f["downstream error"] > 0
	case "C09":
		return f["panic in downstream client"]+f["panic in custom resolver"] > 0
	}
	return false
}

func ridOf(key string) string {
	r, _, _ := strings.Cut(key, "/")
	return r
}

func (c *checker) request(r *Result, pr *Pred) {
	o := c.o
	o.Checks++
	rid := r.Req.Rid()
	m := c.p.Methods[r.Req.Method]
	dur := r.End - r.Begin
	limit := never
	limitBy := ""
	if m.Timeout > 0 {
		limit, limitBy = m.Timeout, "method"
	}
	if r.Req.Deadline > 0 && r.Req.Deadline <= limit {
		limit, limitBy = r.Req.Deadline, "deadline"
	}
	if r.Req.Cancel > 0 && r.Req.Cancel <= limit {
		limit, limitBy = r.Req.Cancel, "cancel"
	}
	exact := c.res.Stalls == 0
	ambiguous := !exact && (pr.Timeouts || limit != never) || exact && pr.End == limit
	if ambiguous {
		c.vague[rid] = true
	}
	// history of this request
	calls := map[string][]*CallRec{}
	var list []*CallRec
	for _, k := range c.h.calls {
		if k.Rid != rid && ridOf(k.Key) == rid {
			c.fail("foreign-context", []string{"C10"}, "call %s was made with the context of request %q", k.Key, k.Rid)
		}
		if ridOf(k.Key) == rid {
			calls[k.Key] = append(calls[k.Key], k)
			list = append(list, k)
		} else if k.Rid == rid && c.h.req(ridOf(k.Key)) == nil {
			c.fail("unknown-call", []string{"C01", "C02", "C03"}, "request %s made an unexpected downstream call with key %q", rid, k.Key)
		}
	}
	customs := map[string][]*CustomRec{}
	for _, k := range c.h.customs {
		if ridOf(k.Key) == rid {
			customs[k.Key] = append(customs[k.Key], k)
		}
	}
	resolves := map[string]int{}
	for _, l := range c.h.logs {
		if p, ok := strings.CutPrefix(l.ID, "resolve:"); ok && ridOf(p) == rid {
			resolves[p]++
		}
	}
	// --- counts and order: true in every run ---
	for _, key := range sortedKeys(calls) {
		recs := calls[key]
		cp := pr.Calls[key]
		if cp == nil {
			if ambiguous {
				continue // a timeout may have changed what is evaluated
			}
			c.fail("unexpected-call", []string{"C02", "C03", "C01"}, "downstream call %s (%s) was made although its definition must not be evaluated", key, recs[0].Method)
			continue
		}
		d := c.h.def(key)
		if len(recs) > cp.Attempts && !(ambiguous && d != nil && d.def.Retry != nil) {
			props := []string{"C01"}
			if d != nil && d.def.Retry != nil {
				props = append(props, "C06")
			}
			if c.panicked(recs) {
				props = append(props, "C09")
			}
			if c.plan.hasFailure(recs) {
				props = append(props, "C06")
			}
			c.fail("call-repeated", props, "downstream call %s was issued %d times, expected %d", key, len(recs), cp.Attempts)
		}
		for _, k := range recs {
			if k.Method != cp.Method {
				c.fail("wrong-method", []string{"C03"}, "call %s went to %s, expected %s", key, k.Method, cp.Method)
			}
			if (k.A != cp.A || k.B != cp.B) && !ambiguous {
				props := []string{"C02", "C03"}
				if len(c.plan.Reqs) > 1 {
					props = append(props, "C10")
				}
				if k.N > 0 {
					props = append(props, "C06")
				}
				c.fail("wrong-args", props, "call %s attempt %d was sent a=%q b=%q, expected a=%q b=%q", key, k.N, k.A, k.B, cp.A, cp.B)
			}
			for _, dep := range cp.Deps {
				for _, dr := range calls[dep] {
					if dr.Outcome == "running" || dr.StartStep > k.StartStep || dr.EndStep > k.StartStep {
						if dr.CtxDone >= 0 {
							continue // abandoned by a timeout, still returning
						}
						c.fail("early-start", []string{"C02"}, "call %s started (step %d) before call %s it depends on had finished (step %d)", key, k.StartStep, dep, dr.EndStep)
					}
				}
				if len(calls[dep]) == 0 && !ambiguous {
					c.fail("early-start", []string{"C02"}, "call %s was made although call %s it depends on never was", key, dep)
				}
			}
			o.Checks++
		}
	}
	for _, key := range sortedKeys(customs) {
		if pr.Customs[key] == nil {
			if !ambiguous {
				c.fail("unexpected-custom", []string{"C02", "C03", "C01"}, "custom resolver %s ran although it must not", key)
			}
			continue
		}
		if n := len(customs[key]); n > 1 {
			props := []string{"C01"}
			if customs[key][0].Outcome == "panic" {
				props = append(props, "C09")
			}
			c.fail("custom-repeated", props, "custom resolver %s ran %d times", key, n)
		}
	}
	for _, path := range sortedKeys(resolves) {
		if n := resolves[path]; n > 1 {
			c.fail("message-repeated", []string{"C01"}, "message %s at %s was resolved %d times", pr.Resolves[path], path, n)
		}
	}
	c.claims(r, list, exact)
	if ambiguous {
		c.soft(r, pr, dur)
		return
	}
	cut := pr.End > limit
	if !cut && pr.Resp == nil && limit <= pr.End+c.drain(pr, pr.End) {
		// the limit passes while the failed request waits for calls that return late
		return
	}
	switch {
	case cut:
		c.cut(r, pr, list, dur, limit, limitBy)
	case pr.Resp != nil:
		c.success(r, pr, calls, customs, resolves, dur, exact)
	default:
		c.failure(r, pr, list, dur, exact)
	}
}

// soft: timeouts and stalls together leave only the set of possible outcomes.
func (c *checker) soft(r *Result, pr *Pred, dur time.Duration) {
	if r.OK {
		return
	}
	if r.Status.Code == 4 || r.Status.Code == 1 && (r.Req.Cancel > 0) {
		return
	}
}

func (p *Plan) hasFailure(recs []*CallRec) bool {
	for _, r := range recs {
		if r.Outcome == "fail" {
			return true
		}
	}
	return false
}

func (c *checker) panicked(recs []*CallRec) bool {
	for _, r := range recs {
		if r.Outcome == "panic" {
			return true
		}
	}
	return false
}

func (c *checker) anyFailed(pr *Pred) bool {
	for _, cp := range pr.Calls {
		if cp.Failed {
			return true
		}
	}
	return false
}

func (c *checker) success(r *Result, pr *Pred, calls map[string][]*CallRec, customs map[string][]*CustomRec, resolves map[string]int, dur time.Duration, exact bool) {
	rid := r.Req.Rid()
	multi := len(c.plan.Reqs) > 1
	want := renderObj(pr.Resp)
	if !r.OK || r.Resp != want {
		props := []string{"C03"}
		if multi {
			props = append(props, "C10")
		}
		if c.anyFailed(pr) {
			props = append(props, "C07")
		}
		if !r.OK {
			if r.Status.Code == 4 {
				props = append(props, "C05")
			}
			if r.Status.Code == 1 {
				props = append(props, "C08")
			}
			if strings.HasPrefix(r.Status.Msg, "recovered error") {
				props = append(props, "C09")
			}
			c.fail("spurious-error", props, "request %s failed with %v, expected response\n  %s", rid, r.Status, want)
		} else {
			c.fail("wrong-response", props, "request %s got\n  %s\nexpected\n  %s", rid, r.Resp, want)
		}
		return
	}
	for _, key := range sortedKeys(pr.Calls) {
		cp := pr.Calls[key]
		recs := calls[key]
		d := c.h.def(key)
		if len(recs) < cp.Attempts {
			props := []string{"C03"}
			if d != nil && d.def.Retry != nil {
				props = append(props, "C06")
			}
			c.fail("call-missing", props, "downstream call %s was issued %d times, expected %d", key, len(recs), cp.Attempts)
			continue
		}
		if exact && len(recs) == cp.Attempts {
			c.times(r, pr, cp, recs, d)
		}
	}
	for _, key := range sortedKeys(pr.Customs) {
		if len(customs[key]) == 0 {
			c.fail("custom-missing", []string{"C03"}, "custom resolver %s did not run", key)
		} else if k := customs[key][0]; exact && k.Start-r.Begin != pr.Customs[key].Start {
			c.early("custom resolver "+key, k.Start-r.Begin, pr.Customs[key].Start)
		}
	}
	for _, p := range sortedKeys(pr.Resolves) {
		if resolves[p] == 0 {
			c.fail("message-missing", []string{"C01", "C03"}, "message %s at %s was never resolved", pr.Resolves[p], p)
		}
	}
	if exact && dur != pr.End {
		props := []string{"C04"}
		if dur < pr.End {
			props = []string{"C02"}
		}
		if pr.Timeouts && c.h.fired["downstream hang"] > 0 {
			props = append(props, "C05")
		}
		c.fail("wrong-duration", props, "request %s took %v, its critical path is %v", rid, dur, pr.End)
	}
	written := map[string]int{}
	for _, l := range c.h.logs {
		if l.Rid == rid {
			written[l.ID]++
		}
	}
	for _, id := range sortedKeys(pr.Lines) {
		if n := written[id]; n != 1 && strings.HasPrefix(id, "L:") {
			c.fail("line-count", []string{"C11", "C01"}, "log line %s was written %d times", id, n)
		}
	}
	n := 0
	for _, e := range c.h.errs {
		if e.Rid == rid {
			n++
		}
	}
	if n != pr.Handler {
		c.fail("error-handler-count", []string{"C07"}, "the error handler ran %d times for request %s, expected %d", n, rid, pr.Handler)
	}
}

func (c *checker) early(what string, got, want time.Duration) {
	if got < want {
		c.fail("early-start", []string{"C02"}, "%s started at %v, before what it depends on finished at %v", what, got, want)
	} else {
		c.fail("late-start", []string{"C04"}, "%s started at %v although everything it depends on had finished at %v", what, got, want)
	}
}

func (c *checker) times(r *Result, pr *Pred, cp *CallPred, recs []*CallRec, d *defAt) {
	for i, k := range recs {
		got, want := k.Start-r.Begin, cp.Starts[i]
		if got == want {
			continue
		}
		if i == 0 {
			c.early("call "+cp.Key, got, want)
			return
		}
		c.fail("retry-interval", []string{"C06"}, "call %s: attempt %d started at %v, the retry policy says %v", cp.Key, i, got, want)
		return
	}
	last := recs[len(recs)-1]
	if cp.TimedOut {
		if last.CtxDone >= 0 && last.CtxDone-r.Begin != cp.End {
			c.fail("timeout-instant", []string{"C05"}, "call %s: its context ended at %v, its timeout is due at %v", cp.Key, last.CtxDone-r.Begin, cp.End)
		}
		if last.CtxDone < 0 && last.End-r.Begin > cp.End {
			c.fail("timeout-not-propagated", []string{"C05"}, "call %s: its timeout passed at %v but its context never ended", cp.Key, cp.End)
		}
	} else if last.CtxDone >= 0 {
		c.fail("premature-cancel", []string{"C05", "C08"}, "call %s: its context ended at %v although nothing failed", cp.Key, last.CtxDone-r.Begin)
	}
}

func stripInfo(d []string) []string {
	var out []string
	for _, x := range d {
		if !strings.HasPrefix(x, "ErrorInfo{") {
			out = append(out, x)
		}
	}
	return out
}

func (s Site) matches(st Status) bool {
	if st.Code != s.Status.Code || st.Msg != s.Status.Msg {
		return false
	}
	return strings.Join(st.Details, ";") == strings.Join(s.Status.Details, ";")
}

// drain bounds how long what runs at t may take to notice its context ended:
// calls that return late and custom resolvers, which are not interrupted.
func (c *checker) drain(pr *Pred, t time.Duration) time.Duration {
	d := time.Duration(0)
	if c.plan.Rates.Lag > 0 {
		d += 12 * time.Millisecond
	}
	for _, cu := range pr.Customs {
		if cu.Start <= t && cu.End > t {
			d += cu.End - t
		}
	}
	return d
}

func (c *checker) failure(r *Result, pr *Pred, list []*CallRec, dur time.Duration, exact bool) {
	rid := r.Req.Rid()
	strict := exact && c.plan.Rates.Lag == 0
	slack := c.drain(pr, pr.End)
	for _, cu := range pr.Customs {
		if cu.Start <= pr.End && cu.End > pr.End {
			strict = false
		}
	}
	first := false
	var match, possible *Site
	props := []string{"C08", "C07"}
	for i := range pr.Sites {
		s := &pr.Sites[i]
		if s.At == pr.End {
			first = true
			if s.Timeout {
				props = append(props, "C05")
			}
			if s.Panic {
				props = append(props, "C09")
			}
		}
		if s.matches(r.Status) {
			if match == nil || s.At < match.At {
				match = s
			}
		}
		possible = s
	}
	_, _ = first, possible
	if r.OK {
		c.fail("error-lost", props, "request %s succeeded with %s although it must fail with %s", rid, r.Resp, describe(pr.Sites))
		return
	}
	if match == nil {
		if r.Status.Code == 1 {
			c.fail("cancellation-reported", []string{"C08"}, "request %s failed with the cancellation its own failure caused (%v) instead of %s", rid, r.Status, describe(pr.Sites))
		} else {
			c.fail("wrong-error", props, "request %s failed with %v, expected %s", rid, r.Status, describe(pr.Sites))
		}
		return
	}
	if strict && match.At != pr.End {
		c.fail("late-error", []string{"C08"}, "request %s failed with the error of %s due at %v although %s failed at %v", rid, match.Key, match.At, describe(pr.Sites), pr.End)
	}
	if exact && (dur < pr.End || dur > pr.End+slack) {
		c.fail("failure-delayed", []string{"C08"}, "request %s failed at %v, its failure happened at %v (slack %v)", rid, dur, pr.End, slack)
	}
	if match.Panic {
		found := false
		for _, l := range c.h.logs {
			if l.Rid == rid && strings.Contains(l.Msg, "boom:") && (l.Failure || l.Stack > 2) {
				found = true
			}
		}
		if !found {
			c.fail("panic-not-logged", []string{"C09"}, "the panic of %s was reported to the client but never logged (with its stack)", match.Key)
		}
	}
	if match.Eval {
		c.h.hit("expression failure")
		found := false
		for _, l := range c.h.logs {
			if l.Rid == rid && l.Level.String() == "ERROR" && l.Msg == r.Status.Msg {
				found = true
			}
		}
		if !found {
			c.fail("error-not-logged", []string{"C11"}, "request %s failed with %v, and no log line says so", rid, r.Status)
		}
	} else if !match.Panic {
		c.errorLine(r, pr)
	}
	if exact {
		for _, k := range list {
			if k.Start-r.Begin > pr.End+slack {
				c.fail("work-after-failure", []string{"C08"}, "call %s started at %v, after the request failed at %v", k.Key, k.Start-r.Begin, pr.End)
			}
		}
	}
	if exact {
		for _, k := range list {
			if cp := pr.Calls[k.Key]; cp != nil && cp.TimedOut && k.CtxDone >= 0 && k.CtxDone-r.Begin == cp.End {
				continue // abandoned by its own timeout, still returning
			}
			if k.Start-r.Begin < pr.End && k.End-r.Begin > pr.End && (k.CtxDone < 0 || k.CtxDone-r.Begin != pr.End) {
				c.fail("not-cancelled", []string{"C08"}, "call %s kept running until %v; its sibling failed at %v (its context ended at %v)", k.Key, k.End-r.Begin, pr.End, k.CtxDone)
			}
		}
	}
}

func describe(sites []Site) string {
	var out []string
	for _, s := range sites {
		out = append(out, fmt.Sprintf("%s at %v: %v", s.Key, s.At, s.Status))
	}
	sort.Strings(out)
	return strings.Join(out, " | ")
}

// cut: a timeout, deadline or cancellation ends the request.
func (c *checker) cut(r *Result, pr *Pred, list []*CallRec, dur, limit time.Duration, by string) {
	rid := r.Req.Rid()
	m := c.p.Methods[r.Req.Method]
	slack := c.drain(pr, limit)
	if m.Timeout > 0 {
		slack = 0
	}
	lagging := false
	for _, k := range list {
		if k.Start-r.Begin <= limit && k.End-r.Begin > limit {
			lagging = true
		}
	}
	after := false // some call is needed at or after the limit
	for _, cp := range pr.Calls {
		if cp.End > limit || cp.Start >= limit {
			after = true
		}
	}
	if r.OK && dur >= limit && (by != "method" || !lagging && dur == limit) && (c.mapped(r, pr) || !after) {
		return // the annotations say to ignore what happened to the calls, or none was needed
	}
	for _, s := range pr.Sites {
		if by != "method" && !r.OK && s.matches(r.Status) && dur <= limit+slack {
			return // what was running at the limit failed by itself
		}
	}
	if r.OK {
		c.fail("limit-ignored", []string{"C05"}, "request %s succeeded at %v although its %s limit was %v and it needs %v", rid, dur, by, limit, pr.End)
		return
	}
	if dur < limit || dur > limit+slack {
		c.fail("limit-instant", []string{"C05"}, "request %s ended at %v with %v; its %s limit is %v", rid, dur, r.Status, by, limit)
	}
	for _, k := range list {
		if k.Start-r.Begin > limit {
			c.fail("work-after-limit", []string{"C05", "C08"}, "call %s started at %v, after the request's %s limit %v", k.Key, k.Start-r.Begin, by, limit)
		}
		if k.Start-r.Begin <= limit && k.End-r.Begin > limit {
			if k.CtxDone < 0 || k.CtxDone-r.Begin != limit {
				c.fail("limit-not-propagated", []string{"C05"}, "call %s was running at the request's %s limit %v but its context ended at %v", k.Key, by, limit, k.CtxDone-r.Begin)
			}
		}
	}
	if by == "method" {
		want := *timeoutStatus(c.p.Name+".Fed/"+m.Name, m.Timeout)
		ok := r.Status.Code == 4
		if lagging || !c.mapped(r, pr) {
			ok = r.Status.String() == want.String()
		}
		if !ok {
			// with nothing lagging the resolver's own error may win the race
			c.fail("limit-status", []string{"C05"}, "request %s ended at its method timeout with %v, expected %v", rid, r.Status, want)
		}
	}
	if by != "method" && c.plan.Rates.Lag > 0 && strings.HasPrefix(r.Status.Msg, "late ") {
		return // what was running failed by itself before it noticed
	}
	if by == "deadline" && r.Status.Code != 4 && !c.mapped(r, pr) {
		c.fail("limit-status", []string{"C05"}, "request %s ended at the client's deadline with %v", rid, r.Status)
	}
	if by == "cancel" && r.Status.Code != 1 && !c.mapped(r, pr) {
		c.fail("limit-status", []string{"C05", "C08"}, "request %s was cancelled by its client at %v but ended with %v", rid, limit, r.Status)
	}
}

var claimRE = regexp.MustCompile(`ErrorInfo\{ map\[method:(\S+) timeout:(\S+)\]\}`)

// claims: an error that blames a timeout may appear only once that timeout
// has passed.
func (c *checker) claims(r *Result, list []*CallRec, exact bool) {
	m := c.p.Methods[r.Req.Method]
	check := func(who string, st Status, at time.Duration) {
		for _, d := range st.Details {
			g := claimRE.FindStringSubmatch(d)
			if g == nil {
				continue
			}
			c.o.Checks++
			if g[1] == c.p.Name+".Fed/"+m.Name {
				if m.Timeout == 0 || g[2] != m.Timeout.String() || at-r.Begin < m.Timeout {
					c.fail("timeout-claim", []string{"C05"}, "request %s: %s at %v got %v, but the method's timeout is %v", r.Req.Rid(), who, at-r.Begin, st, m.Timeout)
				}
				continue
			}
			if !exact {
				continue
			}
			ok := false
			for _, k := range list {
				def := c.h.def(k.Key)
				if def == nil || "bk.Backend/"+k.Method != g[1] || def.def.Timeout.String() != g[2] {
					continue
				}
				if k.N == 0 && at >= k.Start+def.def.Timeout {
					ok = true
				}
			}
			if !ok {
				c.fail("timeout-claim", []string{"C05"}, "request %s: %s at %v got %v, but no such call had been running that long", r.Req.Rid(), who, at-r.Begin, st)
			}
		}
	}
	if !r.OK {
		check("its caller", r.Status, r.End)
	}
	for _, e := range c.h.errs {
		if e.Rid != r.Req.Rid() {
			continue
		}
		check("the error handler", e.Status, e.At)
		// With neither a deadline nor a method timeout only the timeout of a call can be exceeded.
		if r.Req.Deadline == 0 && m.Timeout == 0 && e.Status.Code == 4 && e.Status.Msg == "context deadline exceeded" && len(e.Status.Details) == 0 {
			c.fail("timeout-unnamed", []string{"C05"}, "request %s: the error handler got %v, which names neither the call that timed out nor its timeout", r.Req.Rid(), e.Status)
		}
	}
}

// mapped: an error rule may translate the deadline error of a call.
func (c *checker) mapped(r *Result, pr *Pred) bool {
	for _, cp := range pr.Calls {
		if d := c.h.def(cp.Key); d != nil && len(d.def.Rules) > 0 {
			return true
		}
	}
	return false
}

// logs checks attribute scoping.
func (c *checker) logs(results []*Result, preds map[string]*Pred) {
	for _, l := range c.h.logs {
		c.o.Checks++
		_, path, ok := strings.Cut(l.ID, ":")
		if !ok || path == "" {
			for _, a := range l.Attrs {
				if strings.Contains(a, "/") && ridOf(a) != l.Rid {
					c.fail("attr-leak", []string{"C11"}, "a log line of request %s (%q) carries attribute %s of another request", l.Rid, l.Msg, a)
				}
			}
			continue
		}
		if ridOf(path) != l.Rid {
			c.fail("foreign-context", []string{"C10", "C11"}, "log line %s was written with the context of request %q", l.ID, l.Rid)
			continue
		}
		scope := path
		if !strings.HasPrefix(l.ID, "resolve:") && !strings.HasPrefix(l.ID, "resolved:") {
			scope = path[:strings.LastIndexByte(path, '/')]
		}
		pr := preds[ridOf(path)]
		if pr == nil {
			continue
		}
		for _, a := range l.Attrs {
			i := strings.LastIndexByte(a, '/')
			if i < 0 {
				continue
			}
			owner := a[:i]
			if scope != owner && !strings.HasPrefix(scope, owner+"/") {
				c.fail("attr-leak", []string{"C11"}, "log line %s carries attribute %s added in scope %s", l.ID, a, owner)
			}
		}
		lp := pr.Lines[l.ID]
		if lp == nil || c.vague[l.Rid] {
			continue
		}
		if lp.Line != "" && l.Line != lp.Line {
			c.fail("wrong-line", []string{"C11"}, "log line %s is %q, expected %q", l.ID, l.Line, lp.Line)
		}
		at := map[string]int{}
		for i, a := range l.Attrs {
			at[a] = i + 1
			if want, ok := pr.Vals[a]; ok && l.Vals[a] != want {
				c.fail("attr-value", []string{"C11"}, "log line %s carries %s=%s, expected %s", l.ID, a, l.Vals[a], want)
			}
		}
		for _, must := range lp.Must {
			if at[must] == 0 {
				c.fail("attr-lost", []string{"C11"}, "log line %s lacks attribute %s added before it (has %v)", l.ID, must, l.Attrs)
				break
			}
		}
		for _, a := range l.Attrs {
			for _, before := range pr.Adds[a] {
				if at[before] > at[a] {
					c.fail("attr-order", []string{"C11"}, "log line %s carries %s before %s, which was added first", l.ID, a, before)
				}
			}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// errorLine checks the log line which reports the failure of a request: its
// level is the one of the rule applied, its attributes those of the scope.
func (c *checker) errorLine(r *Result, pr *Pred) {
	rid := r.Req.Rid()
	var why []string
	lines := 0
	for _, l := range c.h.logs {
		if l.Rid != rid || !l.Failure || l.Msg != r.Status.Msg {
			continue
		}
		lines++
		for i := range pr.Sites {
			s := &pr.Sites[i]
			if !s.matches(r.Status) {
				continue
			}
			if s.Level == "" {
				return // another kind of failure
			}
			reason := ""
			if l.Level.String() != s.Level {
				reason = fmt.Sprintf("its level is %s, not %s", l.Level, s.Level)
			}
			at := map[string]int{}
			for i, a := range l.Attrs {
				at[a] = i + 1
				j := strings.LastIndexByte(a, '/')
				if j < 0 {
					continue
				}
				if owner := a[:j]; s.Path != owner && !strings.HasPrefix(s.Path, owner+"/") {
					reason = fmt.Sprintf("it carries attribute %s added in scope %s", a, owner)
				}
				if want, ok := pr.Vals[a]; ok && l.Vals[a] != want {
					reason = fmt.Sprintf("it carries %s=%s, expected %s", a, l.Vals[a], want)
				}
			}
			for _, must := range s.Must {
				if at[must] == 0 && !pr.OnLogger[must] {
					reason = fmt.Sprintf("it lacks attribute %s (has %v)", must, l.Attrs)
				}
			}
			for _, a := range l.Attrs {
				for _, before := range pr.Adds[a] {
					if at[before] > at[a] {
						reason = fmt.Sprintf("it carries %s before %s, which was added first", a, before)
					}
				}
			}
			if reason == "" {
				return
			}
			why = append(why, s.Key+": "+reason)
		}
	}
	if lines == 0 {
		c.fail("error-not-logged", []string{"C11"}, "request %s failed with %v, and no log line says so", rid, r.Status)
		return
	}
	c.fail("error-line", []string{"C11"}, "the log line reporting the failure of request %s (%v) is wrong: %s", rid, r.Status, strings.Join(why, "; "))
}
