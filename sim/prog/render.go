package prog

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// BackendProto is the downstream service all programs call.
const BackendProto = `syntax = "proto3";
package bk;
option go_package = "verif.local/harness/gen/bk;bk";

service Backend {
  rpc Call0(Req) returns (Res) {}
  rpc Call1(Req) returns (Res) {}
  rpc Call2(Req) returns (Res) {}
  rpc Call3(Req) returns (Res) {}
}

enum Kind { K0 = 0; K1 = 1; K2 = 2; K3 = 3; }

message Req {
  string key = 1;
  string a = 2;
  string b = 3;
}

message Res {
  string v = 1;
  string w = 2;
  repeated string list = 3;
}
`

func dur(d time.Duration) string { return strconv.Quote(d.String()) }

// Proto renders the federation file.
func (p *Program) Proto() string {
	var b strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	w(`syntax = "proto3";`)
	w(`package %s;`, p.Name)
	w(`import "grpc/federation/federation.proto";`)
	w(`option go_package = "verif.local/harness/gen/%s;%s";`, p.Name, p.Name)
	w(`option (grpc.federation.file) = { import: ["bk.proto"] };`)
	w("service Fed {\n  option (grpc.federation.service) = {};")
	for _, m := range p.Methods {
		if m.Timeout > 0 {
			w("  rpc %s(Req%s) returns (%s) { option (grpc.federation.method).timeout = %s; }", m.Name, m.Name, p.Msgs[m.Root].Name, dur(m.Timeout))
		} else {
			w("  rpc %s(Req%s) returns (%s) {}", m.Name, m.Name, p.Msgs[m.Root].Name)
		}
	}
	w("}")
	for _, m := range p.Methods {
		w("message Req%s { string p = 1; string a = 2; string b = 3; }", m.Name)
	}
	w(`enum Kind { option (grpc.federation.enum) = { alias: "bk.Kind" }; K0 = 0; K1 = 1; K2 = 2; K3 = 3; }`)
	needDet := false
	for _, m := range p.Msgs {
		from := b.Len()
		w("message %s {", m.Name)
		w("  option (grpc.federation.message) = {")
		for _, d := range m.Defs {
			p.def(&b, d, "    ")
			needDet = needDet || d.hasDet()
		}
		if m.CustomResolver {
			w("    custom_resolver: true")
		}
		w("  };")
		n := 0
		for _, f := range m.Fields {
			n++
			t := map[TypeKind]string{TString: "string", TBool: "bool", TList: "repeated string", TEnum: "Kind", TEnumList: "repeated Kind"}[f.Type.Kind]
			switch f.Type.Kind {
			case TMsg:
				t = p.Msgs[f.Type.Msg].Name
			case TMsgList:
				t = "repeated " + p.Msgs[f.Type.Msg].Name
			}
			opt := ""
			switch {
			case f.Custom:
				opt = " [(grpc.federation.field).custom_resolver = true]"
			case f.Auto || m.CustomResolver:
			default:
				opt = fmt.Sprintf(" [(grpc.federation.field).by = %s]", strconv.Quote(f.By.CEL()))
			}
			w("  %s %s = %d%s;", t, f.Name, n, opt)
		}
		if m.Oneof != nil {
			w("  oneof one {")
			for _, c := range m.Oneof.Cases {
				n++
				w("    string %s = %d [(grpc.federation.field).oneof = {", c.Name, n)
				if c.If != nil {
					w("      if: %s", strconv.Quote(c.If.CEL()))
				} else {
					w("      default: true")
				}
				for _, d := range c.Defs {
					p.def(&b, d, "      ")
					needDet = needDet || d.hasDet()
				}
				w("      by: %s", strconv.Quote(c.By.CEL()))
				w("    }];")
			}
			w("  }")
		}
		w("}")
		text := b.String()
		argA, argB := p.argNames(m.Idx)
		b.Reset()
		b.WriteString(text[:from])
		b.WriteString(argBRe.ReplaceAllString(argARe.ReplaceAllString(text[from:], "$$."+argA), "$$."+argB))
	}
	if needDet {
		w(`message Det { string text = 1 [(grpc.federation.field).by = "$.t"]; }`)
	}
	return b.String()
}

func (p *Program) def(b *strings.Builder, d *Def, in string) {
	w := func(f string, a ...any) { fmt.Fprintf(b, in+f+"\n", a...) }
	qs := func(e Expr) string { return strconv.Quote(e.CEL()) }
	w("def {")
	if d.Kind == DValidation {
		var msg Expr = Lit(d.VMsg)
		if d.VMsgE != nil {
			msg = Concat{msg, d.VMsgE}
		}
		w("  validation { error { code: %s if: %s message: %s", CodeNames[d.VCode], qs(d.VIf), qs(msg))
		for _, dd := range d.VDefs {
			p.def(b, dd, in+"    ")
		}
		p.details(b, d.VDets, in+"  ")
		if d.VLevel != "" {
			w("    log_level: %s", d.VLevel)
		}
		w("  } }")
		w("}")
		return
	}
	w("  name: %q", d.Name)
	if d.If != nil {
		w("  if: %s", qs(d.If))
	}
	if d.Autobind {
		w("  autobind: true")
	}
	switch d.Kind {
	case DBy, DLog, DLogAdd:
		w("  by: %s", qs(d.By))
	case DMsg:
		argA, argB := p.argNames(d.Msg)
		w("  message {")
		w("    name: %q", p.Msgs[d.Msg].Name)
		w("    args [{ name: \"p\" by: %s }, { name: %q by: %s }, { name: %q by: %s }]", qs(Concat{Arg("p"), Lit("/" + d.Name)}), argA, qs(d.ArgA), argB, qs(d.ArgB))
		w("  }")
	case DEnum:
		w("  enum { name: \"%s.Kind\" by: %s }", p.Name, qs(d.By))
	case DMapEnum:
		w("  map { iterator { name: %q src: %s } enum { name: \"%s.Kind\" by: %s } }", d.Iter, p.src(d), p.Name, qs(d.By))
	case DMapBy:
		w("  map { iterator { name: %q src: %s } by: %s }", d.Iter, p.src(d), qs(d.By))
	case DMapMsg:
		argA, argB := p.argNames(d.Msg)
		w("  map {")
		w("    iterator { name: %q src: %s }", d.Iter, p.src(d))
		w("    message {")
		w("      name: %q", p.Msgs[d.Msg].Name)
		w("      args [{ name: \"p\" by: %s }, { name: %q by: %s }, { name: %q by: %s }]",
			qs(Concat{Arg("p"), Concat{Lit("/" + d.Name + "/"), Ref(d.Iter)}}), argA, qs(d.ArgA), argB, qs(d.ArgB))
		w("    }")
		w("  }")
	case DCall:
		w("  call {")
		w("    method: \"bk.Backend/%s\"", d.Method)
		cond := ""
		if d.ReqIf != nil {
			cond = " if: " + qs(d.ReqIf)
		}
		w("    request [{ field: \"key\" by: %s }, { field: \"a\" by: %s }, { field: \"b\" by: %s%s }]",
			qs(Concat{Arg("p"), Lit("/" + d.Name)}), qs(d.ReqA), qs(d.ReqB), cond)
		if d.Timeout > 0 {
			w("    timeout: %s", dur(d.Timeout))
		}
		if r := d.Retry; r != nil {
			w("    retry {")
			w("%s", ruleIf(r.IfCode, "", r.If))
			max := ""
			if r.Max >= 0 {
				max = fmt.Sprintf(" max_retries: %d", r.Max)
			}
			switch {
			case r.Default && r.Exponential:
				w("      exponential {}")
			case r.Default:
				w("      constant {}")
			case r.Exponential:
				w("      exponential { initial_interval: %s randomization_factor: %v multiplier: %v max_interval: %s%s }", dur(r.Interval), r.Factor, r.Multiplier, dur(r.MaxInterval), max)
			default:
				w("      constant { interval: %s%s }", dur(r.Interval), max)
			}
			w("    }")
		}
		for _, r := range d.Rules {
			w("    error {")
			for _, dd := range r.Defs {
				p.def(b, dd, in+"      ")
			}
			w("%s", ruleIf(r.IfCode, r.IfHas, r.If))
			switch {
			case r.Ignore:
				w("      ignore: true")
			case r.IgnoreResp != nil:
				w("      ignore_and_response: %s", strconv.Quote("bk.Res{v: "+r.IgnoreResp.CEL()+"}"))
			default:
				if r.Code != 0 {
					w("      code: %s", CodeNames[r.Code])
				}
				if r.Message != nil {
					w("      message: %s", qs(r.Message))
				}
				p.details(b, r.Details, in+"      ")
				if r.Level != "" {
					w("      log_level: %s", r.Level)
				}
			}
			w("    }")
		}
		w("  }")
	}
	w("}")
}

func (d *Def) hasDet() bool {
	bs := append([]*Detail{}, d.VDets...)
	for _, r := range d.Rules {
		bs = append(bs, r.Details...)
	}
	for _, b := range bs {
		if b.Msg != nil {
			return true
		}
	}
	return false
}

func (p *Program) details(b *strings.Builder, bs []*Detail, in string) {
	w := func(f string, a ...any) { fmt.Fprintf(b, in+f+"\n", a...) }
	qs := func(e Expr) string { return strconv.Quote(e.CEL()) }
	for _, d := range bs {
		w("details {")
		if d.If != nil {
			w("  if: %s", qs(d.If))
		}
		for _, dd := range d.Defs {
			p.def(b, dd, in+"  ")
		}
		// not in the order they are attached in
		if d.Localized != nil {
			w("  localized_message { locale: \"en-US\" message: %s }", qs(d.Localized))
		}
		if d.Bad != nil {
			w("  bad_request { field_violations [{ field: \"'f'\" description: %s }, { field: %s description: \"'d'\" }] }", qs(d.Bad), qs(d.Bad))
		}
		if d.Precond != nil {
			w("  precondition_failure { violations { type: \"'t'\" subject: \"'s'\" description: %s } violations { type: \"'u'\" subject: %s description: \"'d'\" } }", qs(d.Precond), qs(d.Precond))
		}
		if d.By != nil {
			w("  by: %s", strconv.Quote("bk.Res{w: "+d.By.CEL()+"}"))
		}
		if d.Msg != nil {
			w("  message { name: \"Det\" args { name: \"t\" by: %s } }", qs(d.Msg))
		}
		w("}")
	}
}

var argARe, argBRe = regexp.MustCompile(`\$\.a\b`), regexp.MustCompile(`\$\.b\b`)

// argNames are the names of the arguments a and b of message i: messages do
// not all have the same argument type.
func (p *Program) argNames(i int) (string, string) {
	for _, m := range p.Methods {
		if m.Root == i {
			return "a", "b"
		}
	}
	switch i % 3 {
	case 1:
		return "aa", "bb"
	case 2:
		return "xa", "b"
	}
	return "a", "b"
}

// src renders a map source: the iterator source must be a variable name.
func (p *Program) src(d *Def) string { return strconv.Quote(d.Src.CEL()) }

// ruleIf renders the condition of a retry policy or an error rule.
func ruleIf(code int, has string, e Expr) string {
	var c []string
	if code != 0 {
		c = append(c, "error.code == google.rpc.Code."+CodeNames[code])
	}
	if has != "" {
		c = append(c, "error.message.startsWith('"+has+"')")
	}
	if e != nil {
		c = append(c, "("+e.CEL()+")")
	}
	if len(c) == 0 {
		return ""
	}
	return "      if: " + strconv.Quote(strings.Join(c, " && "))
}
