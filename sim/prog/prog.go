// Package prog generates random federation programs (annotated proto files)
// together with the specification a reference interpreter needs to predict
// what a correct federation service does with them.
package prog

import (
	"fmt"
	"strings"
	"time"
)

// PRNG is splitmix64.
type PRNG struct{ s uint64 }

func NewPRNG(seed uint64) *PRNG { return &PRNG{seed*0x9e3779b97f4a7c15 + 0x77} }

func (p *PRNG) U64() uint64 {
	p.s += 0x9e3779b97f4a7c15
	z := p.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (p *PRNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(p.U64() % uint64(n))
}
func (p *PRNG) P(num, den int) bool { return p.Intn(den) < num }

// Hash of strings, used for everything a downstream computes.
func Hash(parts ...string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for _, s := range parts {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 0x100000001b3
		}
		h = (h ^ 0xff) * 0x100000001b3
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	return h
}

// TypeKind of values in programs.
type TypeKind int

const (
	TString TypeKind = iota
	TBool
	TList    // list of string
	TRes     // downstream reply
	TMsg     // message of the program
	TMsgList // list of messages
	TEnum
	TEnumList
)

type Type struct {
	Kind TypeKind
	Msg  int // for TMsg, TMsgList
}

type Program struct {
	Name    string
	Seed    uint64
	Msgs    []*Msg
	Methods []*Method
}

type Method struct {
	Name    string
	Root    int
	Timeout time.Duration
}

type Msg struct {
	Idx            int
	Name           string
	Defs           []*Def
	Fields         []*Field
	CustomResolver bool
	Autobind       int // index of the autobound definition, -1 none
	Oneof          *Oneof
}

type Field struct {
	Name   string
	Type   Type
	By     Expr
	Custom bool // field custom resolver (string)
	Auto   bool // autobound from a reply ("v" or "w")
}

type Oneof struct {
	Cases []*OneofCase
}

type OneofCase struct {
	Name string
	If   Expr // nil: default
	Defs []*Def
	By   Expr
	Type Type
}

type DefKind int

const (
	DCall DefKind = iota
	DBy
	DMsg
	DMapBy
	DMapMsg
	DValidation
	DLogAdd
	DLog
	DEnum
	DMapEnum
)

type Def struct {
	Kind     DefKind
	Name     string
	If       Expr
	Type     Type
	Nullable bool
	Autobind bool
	InRule   bool // a call made by an error rule

	By Expr // DBy, DMapBy element, DLogAdd/DLog value

	Method  string // DCall
	ReqA    Expr
	ReqB    Expr
	ReqIf   Expr // condition of field b
	Timeout time.Duration
	Retry   *Retry
	Rules   []*Rule

	Msg  int // DMsg, DMapMsg
	ArgA Expr
	ArgB Expr

	Iter string
	Src  Expr

	VCode  int // DValidation
	VIf    Expr
	VMsg   string
	VMsgE  Expr   // appended to the message
	VLevel string // log level of the error line
	VDefs  []*Def
	VDets  []*Detail

	Level string // DLog: info if empty
}

type Retry struct {
	Exponential bool
	Interval    time.Duration
	Multiplier  float64
	MaxInterval time.Duration
	Factor      float64
	Default     bool // of everything
	Max         int  // -1: default (5)
	IfCode      int  // 0: no condition
	If          Expr
}

func (r *Retry) MaxRetries() int {
	if r.Max < 0 {
		return 5
	}
	return r.Max
}

type Rule struct {
	Defs       []*Def
	IfCode     int    // condition error.code == IfCode; 0: none
	IfHas      string // condition error.message.startsWith
	If         Expr
	Code       int  // 0: keep
	Message    Expr // nil: keep
	Ignore     bool
	IgnoreResp Expr // reply value
	Details    []*Detail
	Level      string // log level of the error line
}

// Detail is one details block of an error rule or a validation.
type Detail struct {
	If        Expr
	Defs      []*Def
	Localized Expr
	Precond   Expr
	Bad       Expr
	By        Expr // value of a reply used as a detail
	Msg       Expr // argument of a message used as a detail
}

// Exprs of the block.
func (d *Detail) Exprs() []Expr {
	var out []Expr
	for _, e := range []Expr{d.If, d.Localized, d.Precond, d.Bad, d.By, d.Msg} {
		if e != nil {
			out = append(out, e)
		}
	}
	for _, x := range d.Defs {
		out = append(out, x.Exprs()...)
	}
	return out
}

var CodeNames = map[int]string{
	1: "CANCELLED", 2: "UNKNOWN", 3: "INVALID_ARGUMENT", 4: "DEADLINE_EXCEEDED", 5: "NOT_FOUND", 6: "ALREADY_EXISTS",
	7: "PERMISSION_DENIED", 8: "RESOURCE_EXHAUSTED", 9: "FAILED_PRECONDITION", 10: "ABORTED", 11: "OUT_OF_RANGE",
	12: "UNIMPLEMENTED", 13: "INTERNAL", 14: "UNAVAILABLE", 15: "DATA_LOSS", 16: "UNAUTHENTICATED",
}

// Expr is an expression of the program.
type Expr interface {
	CEL() string
	Refs(map[string]bool)
}

type (
	Lit string
	Arg string // p, a, b
	Ref string // variable
	Sel struct {
		Var   string
		Field string
		Null  bool // guard against null
	}
	Concat struct{ L, R Expr }
	Cond   struct{ C, T, F Expr }
	Fails  struct { // E, whose evaluation fails if it ends with S
		E Expr
		S string
	}
	BoolLit bool
	Eq      struct{ L, R Expr }
	Starts  struct {
		E Expr
		S string
	}
	Not     struct{ E Expr }
	And     struct{ L, R Expr }
	NotNull string
	SizeGt  struct {
		E Expr
		N int
	}
	ListLit []Expr
	SelList struct {
		Var, Field string
		Null       bool
	}
	ErrMsg  struct{}
	ErrInfo struct{} // reason of the error's first ErrorInfo
	EnumVal struct { // enum value by its name
		Pkg string
		E   Expr
	}
	EnumName struct {
		Pkg string
		E   Expr
	}
	ErrField string   // a field of the error variable, see ErrFields
	LogAdd   struct { // Val is an expression or a list
		Key, Val Expr
		List     Expr // added as a list under Key + "l"
		Map      Expr // added in a map under Key + "m"
	}
	LogLine struct {
		Level string
		Msg   Expr
		Val   Expr // attribute "v"
	}
	Matches struct { // E ends with S
		E Expr
		S string
	}
	HasArg string   // has($.a)
	HasSel struct { // has(var.field)
		Var, Field string
		Null       bool
	}
	Meta   struct{} // value of the request's metadata key
	Exists struct { // list macro
		List Expr
		S    string
	}
	First  struct{ List Expr } // first element or 'none'
	Filter struct {            // elements that do not start with S
		List Expr
		S    string
	}
	SizeStr struct{ E Expr } // string(size(list))
)

func q(s string) string { return "'" + strings.ReplaceAll(s, "'", "\\'") + "'" }

func (e Lit) CEL() string { return q(string(e)) }
func (e Arg) CEL() string { return "$." + string(e) }
func (e Ref) CEL() string { return string(e) }
func (e Sel) CEL() string {
	if e.Null {
		return fmt.Sprintf("(%s != null ? %s.%s : 'nil')", e.Var, e.Var, e.Field)
	}
	return e.Var + "." + e.Field
}
func (e Concat) CEL() string  { return e.L.CEL() + " + " + e.R.CEL() }
func (e Cond) CEL() string    { return fmt.Sprintf("(%s ? %s : %s)", e.C.CEL(), e.T.CEL(), e.F.CEL()) }
func (e BoolLit) CEL() string { return fmt.Sprint(bool(e)) }
func (e Eq) CEL() string      { return fmt.Sprintf("(%s == %s)", e.L.CEL(), e.R.CEL()) }
func (e Fails) CEL() string {
	return fmt.Sprintf("[%s][%s.endsWith(%s) ? 1 : 0]", e.E.CEL(), e.E.CEL(), q(e.S))
}
func (e Starts) CEL() string  { return fmt.Sprintf("(%s).startsWith(%s)", e.E.CEL(), q(e.S)) }
func (e Not) CEL() string     { return "!(" + e.E.CEL() + ")" }
func (e And) CEL() string     { return "(" + e.L.CEL() + " && " + e.R.CEL() + ")" }
func (e NotNull) CEL() string { return string(e) + " != null" }
func (e SizeGt) CEL() string  { return fmt.Sprintf("(%s.size() > %d)", e.E.CEL(), e.N) }
func (e ListLit) CEL() string {
	var p []string
	for _, x := range e {
		p = append(p, x.CEL())
	}
	return "[" + strings.Join(p, ", ") + "]"
}
func (e SelList) CEL() string {
	if e.Null {
		return fmt.Sprintf("(%s != null ? %s.%s : ['nil'])", e.Var, e.Var, e.Field)
	}
	return e.Var + "." + e.Field
}
func (e ErrMsg) CEL() string { return "error.message" }
func (e ErrInfo) CEL() string {
	return "(error.error_info.size() > 0 ? error.error_info[0].reason : 'none')"
}
func (e EnumVal) CEL() string  { return e.Pkg + ".Kind.value(" + e.E.CEL() + ")" }
func (e EnumName) CEL() string { return e.Pkg + ".Kind.name(" + e.E.CEL() + ")" }
func (e LogAdd) CEL() string {
	x := ""
	if e.List != nil {
		x += fmt.Sprintf(", %s + 'l': [%s, 'y']", e.Key.CEL(), e.List.CEL())
	}
	if e.Map != nil {
		x += fmt.Sprintf(", %s + 'm': {'x': %s, 'y': ['z']}", e.Key.CEL(), e.Map.CEL())
	}
	return fmt.Sprintf("grpc.federation.log.add({%s: %s%s})", e.Key.CEL(), e.Val.CEL(), x)
}
func (e LogLine) CEL() string {
	if e.Val != nil {
		return fmt.Sprintf("grpc.federation.log.%s(%s, {'v': %s})", e.Level, e.Msg.CEL(), e.Val.CEL())
	}
	return fmt.Sprintf("grpc.federation.log.%s(%s)", e.Level, e.Msg.CEL())
}
func (e ErrField) CEL() string { return ErrFields[string(e)] }
func (e Matches) CEL() string  { return fmt.Sprintf("(%s).matches(%s)", e.E.CEL(), q(e.S+"$")) }
func (e HasArg) CEL() string   { return "has($." + string(e) + ")" }
func (e HasSel) CEL() string {
	if e.Null {
		return fmt.Sprintf("(%s != null && has(%s.%s))", e.Var, e.Var, e.Field)
	}
	return "has(" + e.Var + "." + e.Field + ")"
}
func (Meta) CEL() string {
	return "('k' in grpc.federation.metadata.incoming() ? grpc.federation.metadata.incoming()['k'][0] : 'nomd')"
}
func (e Exists) CEL() string { return fmt.Sprintf("%s.exists(x, x == %s)", e.List.CEL(), q(e.S)) }
func (e First) CEL() string {
	return fmt.Sprintf("(%s.size() > 0 ? %s[0] : 'none')", e.List.CEL(), e.List.CEL())
}
func (e Filter) CEL() string {
	return fmt.Sprintf("%s.filter(x, !x.startsWith(%s))", e.List.CEL(), q(e.S))
}

// ErrFields are expressions over the error of an error rule.
var ErrFields = map[string]string{
	"code":    "string(error.code)",
	"details": "string(error.details.size()) + '/' + string(error.custom_messages.size()) + '/' + string(error.error_info.size())",
	"bad":     "(error.bad_requests.size() > 0 ? error.bad_requests[0].field_violations[1].description : 'none')",
	"loc":     "(error.localized_messages.size() > 0 ? error.localized_messages[0].locale + error.localized_messages[0].message : 'none')",
	"pre":     "(error.precondition_failures.size() > 0 ? error.precondition_failures[0].violations[0].subject : 'none')",
	"custom":  "string(error.custom_messages.size() + 100 * error.details.size())",
	"retry":   "string(error.retry_info.size())",
	"debug":   "(error.debug_info.size() > 0 ? error.debug_info[0].detail : 'none')",
	"quota":   "(error.quota_failures.size() > 0 ? error.quota_failures[0].violations[0].subject : 'none')",
	"request": "(error.request_info.size() > 0 ? error.request_info[0].request_id : 'none')",
	"res":     "(error.resource_info.size() > 0 ? error.resource_info[0].owner : 'none')",
	"help":    "(error.helps.size() > 0 ? error.helps[0].links[0].url : 'none')",
	"infos":   "string(error.error_info.size())",
}

// ErrFieldNames in a fixed order.
var ErrFieldNames = []string{"code", "details", "details", "bad", "loc", "pre", "custom", "retry", "debug", "quota", "request", "res", "help", "infos"}

func (e SizeStr) CEL() string { return fmt.Sprintf("string(%s.size())", e.E.CEL()) }

func (e Lit) Refs(map[string]bool)       {}
func (e Arg) Refs(map[string]bool)       {}
func (e Ref) Refs(m map[string]bool)     { m[string(e)] = true }
func (e Sel) Refs(m map[string]bool)     { m[e.Var] = true }
func (e Concat) Refs(m map[string]bool)  { e.L.Refs(m); e.R.Refs(m) }
func (e Cond) Refs(m map[string]bool)    { e.C.Refs(m); e.T.Refs(m); e.F.Refs(m) }
func (e BoolLit) Refs(map[string]bool)   {}
func (e Eq) Refs(m map[string]bool)      { e.L.Refs(m); e.R.Refs(m) }
func (e Fails) Refs(m map[string]bool)   { e.E.Refs(m) }
func (e Starts) Refs(m map[string]bool)  { e.E.Refs(m) }
func (e Not) Refs(m map[string]bool)     { e.E.Refs(m) }
func (e And) Refs(m map[string]bool)     { e.L.Refs(m); e.R.Refs(m) }
func (e NotNull) Refs(m map[string]bool) { m[string(e)] = true }
func (e SizeGt) Refs(m map[string]bool)  { e.E.Refs(m) }
func (e ListLit) Refs(m map[string]bool) {
	for _, x := range e {
		x.Refs(m)
	}
}
func (e SelList) Refs(m map[string]bool)  { m[e.Var] = true }
func (e ErrMsg) Refs(map[string]bool)     {}
func (e ErrInfo) Refs(map[string]bool)    {}
func (e EnumVal) Refs(m map[string]bool)  { e.E.Refs(m) }
func (e EnumName) Refs(m map[string]bool) { e.E.Refs(m) }
func (e LogAdd) Refs(m map[string]bool) {
	for _, x := range []Expr{e.Key, e.Val, e.List, e.Map} {
		if x != nil {
			x.Refs(m)
		}
	}
}
func (e LogLine) Refs(m map[string]bool) {
	e.Msg.Refs(m)
	if e.Val != nil {
		e.Val.Refs(m)
	}
}
func (ErrField) Refs(map[string]bool)    {}
func (e Matches) Refs(m map[string]bool) { e.E.Refs(m) }
func (HasArg) Refs(map[string]bool)      {}
func (e HasSel) Refs(m map[string]bool)  { m[e.Var] = true }
func (Meta) Refs(map[string]bool)        {}
func (e Exists) Refs(m map[string]bool)  { e.List.Refs(m) }
func (e First) Refs(m map[string]bool)   { e.List.Refs(m) }
func (e Filter) Refs(m map[string]bool)  { e.List.Refs(m) }
func (e SizeStr) Refs(m map[string]bool) { e.E.Refs(m) }

// ---- generation ----

type variable struct {
	name string
	typ  Type
	null bool
}

type gen struct {
	r    *PRNG
	p    *Program
	meta int // how rarely expressions read the request's metadata, 0 never
}

// Features that shape programs; the seed picks them.
func Generate(seed uint64) *Program {
	for k := uint64(0); ; k++ {
		p := generate(seed, seed+k*7919)
		if k > 20 || Suits(p, "") {
			return p
		}
	}
}

func generate(seed, from uint64) *Program {
	g := &gen{r: NewPRNG(from), p: &Program{Name: fmt.Sprintf("p%06d", seed%1000000), Seed: seed}}
	style := int(seed % 7)
	g.meta = []int{0, 2, 5}[g.r.Intn(3)]
	nleaf := 1 + g.r.Intn(3)
	nmid := g.r.Intn(3)
	nroot := 1 + g.r.Intn(2)
	total := nleaf + nmid + nroot
	for i := 0; i < total; i++ {
		level := 0
		if i >= nleaf {
			level = 1
		}
		if i >= nleaf+nmid {
			level = 2
		}
		g.msg(i, level, style)
	}
	for i := 0; i < nroot; i++ {
		m := &Method{Name: fmt.Sprintf("Get%d", i), Root: nleaf + nmid + i}
		if g.r.P(1, 4) {
			m.Timeout = time.Duration(1+g.r.Intn(3)) * time.Second
		}
		g.p.Methods = append(g.p.Methods, m)
	}
	g.prune()
	return g.p
}

// prune drops messages no method reaches.
func (g *gen) prune() {
	p := g.p
	used := map[int]bool{}
	var visit func(i int)
	visit = func(i int) {
		if used[i] {
			return
		}
		used[i] = true
		for _, d := range p.Msgs[i].Defs {
			if d.Kind == DMsg || d.Kind == DMapMsg {
				visit(d.Msg)
			}
		}
	}
	for _, m := range p.Methods {
		visit(m.Root)
	}
	idx := map[int]int{}
	var keep []*Msg
	for i, m := range p.Msgs {
		if used[i] {
			idx[i] = len(keep)
			keep = append(keep, m)
		}
	}
	for _, m := range keep {
		m.Idx = idx[m.Idx]
		for _, d := range m.Defs {
			if d.Kind == DMsg || d.Kind == DMapMsg {
				d.Msg = idx[d.Msg]
				d.Type.Msg = d.Msg
			}
		}
		for _, f := range m.Fields {
			f.Type.Msg = idx[f.Type.Msg]
		}
	}
	for _, m := range p.Methods {
		m.Root = idx[m.Root]
	}
	p.Msgs = keep
}

func (g *gen) msg(i, level, style int) {
	r := g.r
	m := &Msg{Idx: i, Name: fmt.Sprintf("M%d", i), Autobind: -1}
	g.p.Msgs = append(g.p.Msgs, m)
	var vars []variable
	nd := 1 + r.Intn(4)
	if level > 0 {
		nd = 2 + r.Intn(5)
	}
	if style == 1 && level == 2 {
		nd = 5 + r.Intn(4) // wide and dense dependency graphs
	}
	if style == 5 {
		// log attributes added one by one before nested messages that add more
		m.Defs, vars = g.logAdds(level)
	}
	if style == 1 && level == 2 && r.P(1, 2) {
		vars = g.wide(m)
		nd = 2
	}
	pre := len(m.Defs)
	gate := style == 6 && level > 0 || r.P(1, 8)
	if gate {
		nd += 3
	}
	for k := pre; k < nd+pre; k++ {
		d := &Def{Name: fmt.Sprintf("d%d", k)}
		w := r.Intn(100)
		if style == 5 && w < 45 && k > pre {
			w = []int{60, 60, 93, 98, 93}[r.Intn(5)]
		}
		lists := pick(vars, TList)
		if gate && k > pre && r.P(1, 4) {
			w = 88 + r.Intn(3)
		}
		switch {
		case w < 38 || (k == 0 && level == 0):
			g.call(d, vars, style)
		case w < 50:
			g.by(d, vars)
		case w < 74 && i > 0 && level > 0:
			d.Kind = DMsg
			d.Msg = r.Intn(min(i, g.firstRoot()))
			d.Type = Type{TMsg, d.Msg}
			d.ArgA = g.str(vars, 2)
			d.ArgB = g.str(vars, 1)
			if style == 5 && pre > 0 {
				d.ArgB = Cond{Ref(m.Defs[pre-1].Name), g.strVar(vars), Lit("never")}
			}
		case w < 80 && len(lists) > 0 || w < 84 && w >= 80 && i > 0 && level > 0 && len(lists) == 0:
			d.Kind = DMapBy
			d.Type = Type{Kind: TList}
			d.Iter = "it" + d.Name
			d.Src = g.listVar(m, &vars, d.Name)
			d.By = Concat{Ref(d.Iter), Concat{Lit("+"), g.str(vars, 1)}}
			if r.P(1, 4) {
				d.Kind = DMapEnum
				d.Type = Type{Kind: TEnumList}
				d.By = EnumVal{"bk", Cond{Not{Starts{Ref(d.Iter), []string{"i1", "x1", "i2"}[r.Intn(3)]}}, Lit("K1"), Cond{g.boolean(vars, 1), Lit("K2"), Lit("K3")}}}
			}
		case w < 88 && i > 0 && level > 0:
			d.Kind = DMapMsg
			d.Msg = r.Intn(min(i, g.firstRoot()))
			d.Type = Type{TMsgList, d.Msg}
			d.Iter = "it" + d.Name
			d.Src = g.listVar(m, &vars, d.Name)
			d.ArgA = Concat{Ref(d.Iter), g.str(vars, 1)}
			d.ArgB = g.str(vars, 1)
		case w < 91:
			d.Kind = DValidation
			d.Type = Type{Kind: TBool}
			d.VCode = 3 + r.Intn(7)
			d.VIf = Starts{g.strVar(vars), string("0123456789abcdef"[r.Intn(16)])}
			d.VMsg = "invalid-" + m.Name + "-" + d.Name
			if r.P(1, 3) {
				d.VMsgE = g.strVar(vars)
			}
			d.VLevel = g.level()
			if r.P(1, 3) {
				if r.P(1, 4) {
					d.VDefs = append(d.VDefs, &Def{Kind: DBy, Name: "v" + d.Name, Type: Type{Kind: TString}, By: Concat{g.strVar(vars), Lit("!")}})
					d.VMsgE = Ref("v" + d.Name)
				}
				d.VDets = g.details(vars, "v"+d.Name, func() Expr { return g.strVar(vars) })
			}
			switch {
			case gate && r.P(1, 2):
				d.VIf = Not{g.boolean(vars, 0)}
			case r.P(1, 2):
				d.VIf = Eq{g.strVar(vars), Lit("never")}
			}
		case w < 96:
			d.Kind = DLogAdd
			d.Type = Type{Kind: TBool}
			d.By = LogAdd{Key: Concat{Arg("p"), Lit("/" + d.Name)}, Val: g.str(vars, 0), List: g.maybe(g.str(vars, 0)), Map: g.maybe(g.str(vars, 0))}
		default:
			d.Kind = DLog
			d.Type = Type{Kind: TBool}
			d.By = LogLine{Level: []string{"info", "debug", "warn", "error"}[r.Intn(4)], Msg: Concat{Concat{Lit("L:"), Arg("p")}, Lit("/" + d.Name)}, Val: g.maybe(g.str(vars, 1))}
		}
		if d.Kind != DValidation && len(vars) > 0 && r.P(1, 5) {
			d.If = g.boolean(vars, 1)
			if d.Type.Kind == TRes || d.Type.Kind == TMsg {
				d.Nullable = true
			}
		}
		if d.Kind == DValidation {
			m.Defs = append(m.Defs, d)
			continue
		}
		vars = append(vars, variable{d.Name, d.Type, d.Nullable})
		m.Defs = append(m.Defs, d)
	}
	if level < 2 && r.P(1, 12) {
		// the whole message is produced by a custom resolver
		m.CustomResolver = true
		m.Fields = []*Field{{Name: "s0", Type: Type{Kind: TString}}, {Name: "s1", Type: Type{Kind: TString}}}
		return
	}
	// fields
	nf := 1 + r.Intn(3)
	m.Fields = append(m.Fields, &Field{Name: "s0", Type: Type{Kind: TString}, By: g.strVar(vars)})
	for k := 0; k < nf; k++ {
		m.Fields = append(m.Fields, &Field{Name: fmt.Sprintf("s%d", k+1), Type: Type{Kind: TString}, By: g.str(vars, 2)})
	}
	if r.P(1, 6) {
		m.Fields = append(m.Fields, &Field{Name: "cf", Type: Type{Kind: TString}, Custom: true})
		if r.P(1, 2) {
			m.Fields = append(m.Fields, &Field{Name: "cg", Type: Type{Kind: TString}, Custom: true})
		}
	}
	for _, v := range vars {
		switch v.typ.Kind {
		case TMsg, TMsgList:
			if r.P(5, 6) {
				m.Fields = append(m.Fields, &Field{Name: "f" + v.name, Type: v.typ, By: Ref(v.name)})
			}
		case TList:
			if r.P(1, 2) {
				m.Fields = append(m.Fields, &Field{Name: "f" + v.name, Type: v.typ, By: Ref(v.name)})
			}
		case TBool, TEnum, TEnumList:
			if r.P(1, 2) {
				m.Fields = append(m.Fields, &Field{Name: "f" + v.name, Type: v.typ, By: Ref(v.name)})
			}
		}
	}
	for i, d := range m.Defs {
		if d.Kind == DCall && r.P(1, 5) {
			d.Autobind = true
			m.Autobind = i
			m.Fields = append(m.Fields, &Field{Name: "v", Type: Type{Kind: TString}, Auto: true})
			m.Fields = append(m.Fields, &Field{Name: "w", Type: Type{Kind: TString}, Auto: true})
			break
		}
	}
	if r.P(1, 5) {
		o := &Oneof{}
		n := 1 + r.Intn(2)
		for k := 0; k <= n; k++ {
			c := &OneofCase{Name: fmt.Sprintf("o%d", k), Type: Type{Kind: TString}}
			if k < n {
				c.If = g.boolean(vars, 1)
			}
			cv := vars
			if r.P(1, 2) {
				d := &Def{Name: fmt.Sprintf("od%d", k)}
				if r.P(1, 2) {
					g.call(d, vars, style)
					// variables defined in an error rule below a oneof do not
					// compile in generated code (noted in DESIGN.md)
					for _, ru := range d.Rules {
						if len(ru.Defs) > 0 {
							ru.Defs = nil
							ru.Message = Concat{Lit("oneof:"), ErrMsg{}}
						}
						for _, b := range ru.Details {
							b.Msg = nil // defines a variable as well
							if len(b.Defs) > 0 {
								b.Defs = nil
								b.Localized = ErrMsg{}
							}
						}
					}
				} else {
					g.by(d, vars)
				}
				c.Defs = append(c.Defs, d)
				cv = append(append([]variable{}, vars...), variable{d.Name, d.Type, d.Nullable})
			}
			c.By = g.str(cv[max(0, len(cv)-2):], 1)
			o.Cases = append(o.Cases, c)
		}
		m.Oneof = o
	}
}

func (g *gen) logAdds(level int) (defs []*Def, vars []variable) {
	n := g.r.Intn(4)
	if level > 0 {
		n = 1 + g.r.Intn(6)
	}
	for k := 0; k < n; k++ {
		d := &Def{Name: fmt.Sprintf("d%d", k), Kind: DLogAdd, Type: Type{Kind: TBool}}
		var val Expr = Arg("a")
		if k > 0 && g.r.P(9, 10) { // one after the other
			val = Cond{Ref(defs[k-1].Name), Arg("b"), Lit("x")}
		}
		d.By = LogAdd{Key: Concat{Arg("p"), Lit("/" + d.Name)}, Val: val, List: g.maybe(val)}
		defs = append(defs, d)
		vars = append(vars, variable{d.Name, d.Type, false})
	}
	return defs, vars
}

// wide adds many independent calls and definitions which need all of them.
func (g *gen) wide(m *Msg) []variable {
	r := g.r
	var vars []variable
	n := 10 + r.Intn(16)
	for k := 0; k < n; k++ {
		d := &Def{Kind: DCall, Name: fmt.Sprintf("w%d", k), Type: Type{Kind: TRes}, Method: fmt.Sprintf("Call%d", r.Intn(4))}
		d.ReqA = g.str(nil, 1)
		d.ReqB = Lit(d.Name)
		m.Defs = append(m.Defs, d)
		vars = append(vars, variable{d.Name, d.Type, false})
	}
	join := func(name string, from, to int) {
		var e Expr = Lit(name)
		for k := from; k < to; k++ {
			e = Concat{e, Sel{vars[k].name, "v", false}}
		}
		m.Defs = append(m.Defs, &Def{Kind: DBy, Name: name, Type: Type{Kind: TString}, By: e})
		vars = append(vars, variable{name, Type{Kind: TString}, false})
	}
	h := 1 + r.Intn(n-1)
	join("wlow", 0, h)
	join("whigh", h, n)
	if r.P(1, 2) {
		join("wall", 0, n)
	}
	return append([]variable{vars[r.Intn(n)], vars[r.Intn(n)]}, vars[n:]...)
}

func (g *gen) firstRoot() int { return len(g.p.Msgs) - 1 }

func pick(vars []variable, k TypeKind) []variable {
	var out []variable
	for _, v := range vars {
		if v.typ.Kind == k || (k == TList && v.typ.Kind == TRes) {
			out = append(out, v)
		}
	}
	return out
}

func (g *gen) by(d *Def, vars []variable) {
	d.Kind = DBy
	switch g.r.Intn(6) {
	case 5:
		d.Kind = DEnum
		d.Type = Type{Kind: TEnum}
		d.By = EnumVal{"bk", Cond{g.boolean(vars, 1), Lit("K1"), Cond{g.boolean(vars, 1), Lit("K2"), Lit("K3")}}}
	case 0:
		d.Type = Type{Kind: TBool}
		d.By = g.boolean(vars, 1)
	case 1:
		d.Type = Type{Kind: TList}
		d.By = g.list(vars)
	default:
		d.Type = Type{Kind: TString}
		d.By = g.str(vars, 2)
		if g.r.P(1, 5) {
			d.By = Fails{g.strVar(vars), string("0123456789abcdefTF"[g.r.Intn(18)])}
		}
	}
}

func (g *gen) call(d *Def, vars []variable, style int) {
	r := g.r
	d.Kind = DCall
	d.Type = Type{Kind: TRes}
	d.Method = fmt.Sprintf("Call%d", r.Intn(4))
	d.ReqA = g.str(vars, 1)
	d.ReqB = g.str(vars, 1)
	if r.P(1, 6) {
		d.ReqIf = g.boolean(vars, 1)
	}
	if r.P(1, 5) || style == 2 && r.P(1, 2) {
		d.Timeout = []time.Duration{200 * time.Millisecond, 700 * time.Millisecond, 2 * time.Second}[r.Intn(3)]
	}
	if r.P(1, 5) || style == 3 && r.P(1, 2) {
		rt := &Retry{Max: r.Intn(5) - 1, Interval: time.Duration(50+r.Intn(300)) * time.Millisecond}
		if rt.Max == 0 {
			rt.Max = 2
		}
		if r.P(1, 2) {
			rt.IfCode = []int{14, 14, 10, 8}[r.Intn(4)]
		}
		if r.P(1, 4) {
			rt.If = g.boolean(vars, 0)
		}
		if r.P(1, 3) {
			rt.Exponential = true
			rt.Interval += time.Duration(1+r.Intn(999)) * time.Microsecond // does not add up to a timeout
			rt.Multiplier = []float64{2, 2, 1.5, 3}[r.Intn(4)]
			rt.MaxInterval = rt.Interval * time.Duration(2+r.Intn(3))
			rt.Factor = []float64{0, 0, 0.25, 0.5, 1}[r.Intn(5)]
		}
		if r.P(1, 6) {
			rt.Default = true
			rt.Max = -1
			rt.Interval = time.Second
			if rt.Exponential {
				rt.Interval, rt.Factor, rt.Multiplier, rt.MaxInterval = 500*time.Millisecond, 0.5, 1.5, time.Minute
			}
		}
		d.Retry = rt
	}
	if d.Retry != nil && d.Timeout > 0 && r.P(1, 3) {
		// a call while the failure is handled, by when an abandoned attempt may return
		name := "e" + d.Name + "0"
		e := &Def{Kind: DCall, Name: name, Type: Type{Kind: TRes}, Method: d.Method, ReqA: g.ruleStr(vars), ReqB: g.strVar(vars), InRule: true}
		d.Rules = append(d.Rules, &Rule{Defs: []*Def{e}, Code: 9, Message: Concat{Sel{name, "v", false}, Concat{Lit("/"), ErrMsg{}}}})
	} else if r.P(1, 4) || style == 4 && r.P(2, 3) {
		n := 1 + r.Intn(3)
		for k := 0; k < n; k++ {
			ru := &Rule{}
			if r.P(3, 4) || k < n-1 {
				if r.P(2, 3) {
					ru.IfCode = []int{14, 5, 3, 13, 4, 10, 1}[r.Intn(7)]
				} else {
					ru.IfHas = []string{"0", "1", "2", "3", "a", "b", "context"}[r.Intn(7)]
				}
				if r.P(1, 5) {
					ru.If = g.boolean(vars, 0)
				}
			}
			switch r.Intn(8) {
			case 0:
				ru.Ignore = true
				d.Nullable = true
			case 1:
				ru.IgnoreResp = Lit("dflt-" + d.Name)
				if r.P(1, 3) {
					ru.IgnoreResp = Concat{ru.IgnoreResp, g.ruleStr(vars)}
				}
			default:
				ru.Level = g.level()
				ru.Code = 3 + r.Intn(13)
				if ru.Code == 4 {
					ru.Code = 16
				}
				if r.P(1, 6) {
					ru.Code = 0
				}
				switch r.Intn(3) {
				case 0:
					ru.Message = Concat{Lit(fmt.Sprintf("rule%d:", k)), g.ruleStr(vars)}
				case 1:
					name := fmt.Sprintf("e%s%d", d.Name, k)
					if r.P(1, 3) {
						// another call while the error is handled
						e := &Def{Kind: DCall, Name: name, Type: Type{Kind: TRes}, Method: d.Method, ReqA: g.ruleStr(vars), ReqB: g.strVar(vars), InRule: true}
						if r.P(1, 3) {
							e.Nullable = true
							e.Rules = []*Rule{{Ignore: true}}
						}
						ru.Defs = append(ru.Defs, e)
						ru.Message = Concat{Sel{name, "v", e.Nullable}, Concat{Lit("/"), ErrMsg{}}}
						break
					}
					ru.Defs = append(ru.Defs, &Def{Kind: DBy, Name: name, Type: Type{Kind: TString}, By: Concat{g.ruleStr(vars), Lit("!")}})
					ru.Message = Concat{Lit("via:"), Ref(name)}
				}
				if r.P(1, 3) {
					ru.Details = g.details(vars, fmt.Sprintf("e%s%d", d.Name, k), func() Expr { return g.ruleStr(vars) })
				}
			}
			d.Rules = append(d.Rules, ru)
		}
	}
}

// details are the blocks of an error.
func (g *gen) details(vars []variable, name string, str func() Expr) []*Detail {
	r := g.r
	var out []*Detail
	for n := 1 + r.Intn(2); n > 0; n-- {
		b := &Detail{}
		if r.P(1, 4) {
			b.If = g.boolean(vars, 0)
		}
		if r.P(1, 5) {
			d := &Def{Kind: DBy, Name: fmt.Sprintf("%sx%d", name, n), Type: Type{Kind: TString}, By: Concat{str(), Lit("?")}}
			b.Defs = append(b.Defs, d)
			b.Localized = Concat{Lit("dv:"), Ref(d.Name)}
		}
		if r.P(1, 3) && b.Localized == nil {
			b.Localized = Concat{Lit("loc:"), str()}
			if r.P(1, 6) {
				b.Localized = Fails{g.strVar(vars), []string{"", "", "0", "7", "c", "T"}[r.Intn(6)]}
			}
		}
		if r.P(1, 4) {
			b.Precond = Concat{Lit("pre:"), str()}
			if r.P(1, 4) {
				b.Precond = Fails{g.strVar(vars), []string{"", "", "0", "7", "c", "T"}[r.Intn(6)]}
			}
		}
		if r.P(1, 4) {
			b.Bad = Concat{Lit("bad:"), str()}
			if r.P(1, 4) {
				b.Bad = Fails{g.strVar(vars), []string{"", "", "0", "7", "c", "T"}[r.Intn(6)]}
			}
		}
		if r.P(1, 5) {
			b.By = str()
		}
		if r.P(1, 5) {
			b.Msg = Concat{Lit("det:"), str()}
		}
		if len(b.Exprs()) == 0 || len(b.Exprs()) == 1 && b.If != nil {
			b.Localized = str()
		}
		out = append(out, b)
	}
	return out
}

func (g *gen) maybe(e Expr) Expr {
	if g.r.P(1, 3) {
		return e
	}
	return nil
}

// ruleStr is a text an error rule makes.
func (g *gen) ruleStr(vars []variable) Expr {
	switch g.r.Intn(9) {
	case 6, 7, 8:
		e := Concat{ErrField(ErrFieldNames[g.r.Intn(len(ErrFieldNames))]), Concat{Lit("/"), ErrMsg{}}}
		return e
	case 0:
		return g.strVar(vars)
	case 1:
		return Concat{ErrInfo{}, Concat{Lit("/"), g.strVar(vars)}}
	case 2:
		return Concat{ErrMsg{}, Concat{Lit("/"), ErrInfo{}}}
	}
	return ErrMsg{}
}

func (g *gen) strVar(vars []variable) Expr {
	for try := 0; try < 4 && len(vars) > 0; try++ {
		v := vars[g.r.Intn(len(vars))]
		switch v.typ.Kind {
		case TString:
			return Ref(v.name)
		case TRes:
			return Sel{v.name, []string{"v", "w"}[g.r.Intn(2)], v.null}
		case TMsg:
			return Sel{v.name, "s0", v.null}
		case TBool:
			return Cond{Ref(v.name), Lit("T"), Lit("F")}
		case TEnum:
			return EnumName{g.p.Name, Ref(v.name)}
		case TList, TMsgList, TEnumList:
			if v.typ.Kind == TList && g.r.P(1, 2) {
				return First{Ref(v.name)}
			}
			return SizeStr{Ref(v.name)}
		}
	}
	if g.meta > 0 && g.r.P(1, g.meta) {
		return Meta{}
	}
	return Arg([]string{"a", "b"}[g.r.Intn(2)])
}

func (g *gen) str(vars []variable, depth int) Expr {
	if depth <= 0 {
		if g.r.P(1, 5) {
			return Lit(fmt.Sprintf([]string{"c%d", "c%d", "$%d", "'%d"}[g.r.Intn(4)], g.r.Intn(10)))
		}
		return g.strVar(vars)
	}
	switch g.r.Intn(6) {
	case 0, 1:
		return Concat{g.str(vars, depth-1), Concat{Lit("."), g.str(vars, depth-1)}}
	case 2:
		return Cond{g.boolean(vars, depth-1), g.str(vars, depth-1), g.str(vars, depth-1)}
	}
	return g.strVar(vars)
}

func (g *gen) boolean(vars []variable, depth int) Expr {
	r := g.r
	switch r.Intn(8) {
	case 0:
		for _, v := range vars {
			if v.null && r.P(1, 2) {
				return NotNull(v.name)
			}
		}
	case 1:
		for _, v := range vars {
			if v.typ.Kind == TList && r.P(1, 2) {
				return SizeGt{Ref(v.name), r.Intn(2)}
			}
		}
	case 2:
		if depth > 0 {
			return And{g.boolean(vars, 0), g.boolean(vars, 0)}
		}
	case 3:
		return Not{Starts{g.strVar(vars), string("0123456789abcdef"[r.Intn(16)])}}
	case 5:
		if r.P(1, 2) {
			return Not{Matches{g.strVar(vars), string("0123456789abcdef"[r.Intn(16)])}}
		}
	case 4:
		for _, v := range vars {
			switch {
			case v.typ.Kind == TList && r.P(1, 2):
				return Not{Exists{Ref(v.name), []string{"i0", "x0", "x1"}[r.Intn(3)]}}
			case v.typ.Kind == TRes && r.P(1, 3):
				return HasSel{v.name, "v", v.null}
			}
		}
		if r.P(1, 2) {
			return HasArg([]string{"a", "b"}[r.Intn(2)])
		}
	}
	// a mostly true pseudo-random test
	return Not{Starts{g.strVar(vars), []string{"0", "1", "2", "a", "c"}[r.Intn(5)]}}
}

// listVar returns a list variable (map sources are variable names), adding a
// definition for it when needed.
func (g *gen) listVar(m *Msg, vars *[]variable, name string) Expr {
	e := g.list(*vars)
	if _, ok := e.(Ref); ok {
		return e
	}
	d := &Def{Kind: DBy, Name: "l" + name, Type: Type{Kind: TList}, By: e}
	m.Defs = append(m.Defs, d)
	*vars = append(*vars, variable{d.Name, d.Type, false})
	return Ref(d.Name)
}

func (g *gen) list(vars []variable) Expr {
	var c []Expr
	for _, v := range vars {
		switch v.typ.Kind {
		case TList:
			c = append(c, Ref(v.name))
		case TRes:
			c = append(c, SelList{v.name, "list", v.null})
		}
	}
	if len(c) > 0 && g.r.P(4, 5) {
		e := c[g.r.Intn(len(c))]
		if g.r.P(1, 6) {
			return Filter{e, []string{"i0", "x0", "i2"}[g.r.Intn(3)]}
		}
		return e
	}
	n := 1 + g.r.Intn(3)
	var l ListLit
	for i := 0; i < n; i++ {
		l = append(l, Lit(fmt.Sprintf("x%d", i)))
	}
	return l
}

// Wait is the pause after failed attempt n (from 0).
// Wait is how long the client waits after failed attempt n, for a jitter of u.
func (r *Retry) Wait(n int, u float64) time.Duration {
	if !r.Exponential {
		return r.Interval
	}
	cur := r.Interval
	for i := 0; i < n; i++ {
		if float64(cur) >= float64(r.MaxInterval)/r.Multiplier {
			cur = r.MaxInterval
		} else {
			cur = time.Duration(float64(cur) * r.Multiplier)
		}
	}
	if r.Factor == 0 {
		return cur
	}
	delta := r.Factor * float64(cur)
	low, high := float64(cur)-delta, float64(cur)+delta
	return time.Duration(low + u*(high-low+1))
}

// Suits reports whether the program has the features a property talks about.
func Suits(p *Program, prop string) bool {
	var calls, deps, timeouts, retries, rules, logs, customs, dense int
	for _, m := range p.Methods {
		if m.Timeout > 0 {
			timeouts++
		}
	}
	def := func(d *Def) {
		if d.Kind == DCall {
			calls++
			if d.Timeout > 0 {
				timeouts++
			}
			if d.Retry != nil {
				retries++
			}
			if len(d.Rules) > 0 {
				rules++
			}
		}
		if d.Kind == DLogAdd || d.Kind == DLog {
			logs++
		}
	}
	for _, m := range p.Msgs {
		if m.CustomResolver {
			customs++
		}
		for _, f := range m.Fields {
			if f.Custom {
				customs++
			}
		}
		if len(m.Defs) >= 4 {
			dense++
		}
		for _, d := range m.Defs {
			def(d)
			if d.Kind == DMsg || d.Kind == DMapMsg {
				deps++
			}
		}
		if m.Oneof != nil {
			for _, c := range m.Oneof.Cases {
				for _, d := range c.Defs {
					def(d)
				}
			}
		}
	}
	switch prop {
	case "C04":
		return calls > 2
	case "C05":
		return timeouts > 0 && calls > 1
	case "C06":
		return retries > 0
	case "C07":
		return rules > 0 && calls > 1
	case "C09":
		return customs > 0 || calls > 2
	case "C11":
		return logs > 3 && deps > 0
	}
	return calls > 1
}

// Exprs are the expressions of a definition that may refer to other
// definitions of its message.
func (d *Def) Exprs() []Expr {
	var out []Expr
	all := []Expr{d.If, d.By, d.ReqA, d.ReqB, d.ReqIf, d.ArgA, d.ArgB, d.Src, d.VIf, d.VMsgE}
	if d.Retry != nil {
		all = append(all, d.Retry.If)
	}
	for _, e := range all {
		if e != nil {
			out = append(out, e)
		}
	}
	for _, r := range d.Rules {
		for _, e := range []Expr{r.If, r.IgnoreResp, r.Message} {
			if e != nil {
				out = append(out, e)
			}
		}
		for _, dd := range r.Defs {
			out = append(out, dd.Exprs()...)
		}
		for _, b := range r.Details {
			out = append(out, b.Exprs()...)
		}
	}
	for _, dd := range d.VDefs {
		out = append(out, dd.Exprs()...)
	}
	for _, b := range d.VDets {
		out = append(out, b.Exprs()...)
	}
	return out
}

// level is the log level an error is reported with ("": the default).
func (g *gen) level() string {
	return []string{"", "", "DEBUG", "INFO", "WARN", "ERROR"}[g.r.Intn(6)]
}
