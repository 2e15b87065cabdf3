//go:build simruntime

package tool

import (
	"encoding/json"
	"fmt"

	"verif.local/harness/wk"
	"verif.local/sim/simrt"
)

// Plan of one run: exactly one part is set.
type Plan struct {
	Prop  string     `json:"prop"`
	LSP   *LSPPlan   `json:"lsp,omitempty"`
	Watch *WatchPlan `json:"watch,omitempty"`
	Det   *DetPlan   `json:"det,omitempty"`
	Fault *FaultPlan `json:"fault,omitempty"`
}

type Engine struct{}

func (Engine) Decode(b []byte) (any, error) {
	p := &Plan{}
	return p, json.Unmarshal(b, p)
}

func (Engine) Plan(prop string, seed uint64) any {
	g := simrt.NewPRNG(seed ^ 0x700150)
	p := &Plan{Prop: prop}
	switch prop {
	case "C16", "C17":
		p.LSP = planLSP(prop, g)
	case "C18", "C19":
		p.Watch = planWatch(prop, g)
	case "C20", "C21":
		p.Det = planDet(prop, g)
	case "C22":
		p.Fault = planFaults(g)
	default:
		panic("no plan for " + prop)
	}
	return p
}

func (Engine) Run(plan any, opt simrt.Options) *wk.Outcome {
	p := plan.(*Plan)
	switch {
	case p.LSP != nil:
		return runLSP(p.LSP, opt)
	case p.Watch != nil:
		return runWatch(p.Prop, p.Watch, opt)
	case p.Det != nil:
		return runDet(p.Prop, p.Det, opt)
	case p.Fault != nil:
		return runFaults(p.Fault, opt)
	}
	return &wk.Outcome{Err: "empty plan"}
}

func (Engine) Shrink(plan any) []any {
	p := plan.(*Plan)
	var out []any
	if p.LSP != nil {
		for _, q := range shrinkLSP(p.LSP) {
			out = append(out, &Plan{Prop: p.Prop, LSP: q})
		}
	}
	if p.Watch != nil {
		for _, q := range shrinkWatch(p.Watch) {
			out = append(out, &Plan{Prop: p.Prop, Watch: q})
		}
	}
	if p.Det != nil {
		for _, q := range shrinkDet(p.Det) {
			out = append(out, &Plan{Prop: p.Prop, Det: q})
		}
	}
	if p.Fault != nil {
		for _, q := range shrinkFaults(p.Fault) {
			out = append(out, &Plan{Prop: p.Prop, Fault: q})
		}
	}
	return out
}

func clone[T any](p *T) *T {
	b, _ := json.Marshal(p)
	q := new(T)
	if err := json.Unmarshal(b, q); err != nil {
		panic(fmt.Sprint("clone: ", err))
	}
	return q
}
