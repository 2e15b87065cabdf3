//go:build simruntime

package tool

import (
	"fmt"
	"strings"

	"verif.local/sim/simrt"
)

// twins returns a federation in which many things share names: packages of
// the same Go name, services, messages and enums with the same name in
// several packages, nested messages with the same name, files of the same Go
// package, methods that share a response, services that share messages but
// differ in their environments and variables. Whatever is sorted by its name
// has ties here.
//
// Seeds over 1000 are of ones with mistakes.
func twins(seed uint64) map[string]string {
	g := simrt.NewPRNG(seed)
	files := map[string]string{}
	pkgs := []string{"x", "y", "z"}[:1+g.Intn(3)]
	split := g.P(1, 2) // two files of a package
	attrs := g.P(1, 2)
	wrong := 0
	if seed > 1000 {
		// with mistakes
		wrong = 1 << g.Intn(12)
		if g.P(1, 2) {
			wrong |= 1 << g.Intn(12)
		}
	}
	bad := func(bit int) bool { return wrong&(1<<bit) != 0 }
	for _, p := range pkgs {
		var b strings.Builder
		fmt.Fprintf(&b, "syntax = \"proto3\";\n\npackage %s.v1;\n\nimport \"grpc/federation/federation.proto\";\n\noption go_package = \"example/%s/v1;v1\";\n", p, p)
		b.WriteString("\nservice Backend {\n  rpc GetItem(GetItemRequest) returns (GetItemResponse) {};\n  rpc GetPart(GetItemRequest) returns (Part) {};\n}\n")
		b.WriteString("\nmessage GetItemRequest {\n  string id = 1;\n  Kind kind = 2;\n}\n\nmessage GetItemResponse {\n  Item item = 1;\n  repeated Item items = 2;\n}\n")
		b.WriteString("\nenum Kind {\n")
		for i, v := range []string{"NONE", "SOME", "MANY"} {
			fmt.Fprintf(&b, "  %s_%s = %d", strings.ToUpper(p), v, i)
			if attrs {
				var as []string
				for k, a := range []string{"color", "shape", "size"} {
					if bad(0) && i == 1 && k > 0 {
						continue
					}
					as = append(as, fmt.Sprintf("{ name: %q value: \"%s%d\" }", a, a, i))
				}
				fmt.Fprintf(&b, " [(grpc.federation.enum_value) = { attr: [%s] }]", strings.Join(as, ", "))
			}
			b.WriteString(";\n")
		}
		b.WriteString("}\n\nmessage Item {\n  string id = 1;\n  string name = 2;\n  Kind kind = 3;\n  Part part = 4;\n  Inner inner = 5;\n  message Inner {\n    int64 n = 1;\n  }\n}\n")
		part := "\nmessage Part {\n  string id = 1;\n  int64 n = 2;\n}\n"
		if split {
			files[p+"/part.proto"] = fmt.Sprintf("syntax = \"proto3\";\n\npackage %s.v1;\n\noption go_package = \"example/%s/v1;v1\";\n%s", p, p, part)
			files[p+"/"+p+".proto"] = strings.Replace(b.String(), "\noption go", fmt.Sprintf("\nimport \"%s/part.proto\";\n\noption go", p), 1)
		} else {
			files[p+"/"+p+".proto"] = b.String() + part
		}
	}
	// shared definitions with rules, in packages of their own
	shared := []string{"m", "n"}[:g.Intn(3)]
	if wrong>>8 != 0 {
		// mistakes at the same place of several files
		shared = []string{"m", "n", "l", "o"}[:2+g.Intn(3)]
	}
	for _, s := range shared {
		p := pkgs[g.Intn(len(pkgs))]
		files[s+"/"+s+".proto"] = fmt.Sprintf(`syntax = "proto3";

package %[1]s.v1;

import "grpc/federation/federation.proto";
import "%[2]s/%[2]s.proto";

option go_package = "example/%[1]s/v1;v1";

message Detail {
  option (grpc.federation.message) = {
    def {
      name: "res"
      call { method: "%[2]s.v1.Backend/GetItem" request { field: "id" by: "$.id" } }
    }
    def { name: "item" by: "res.item" }
  };
  string id = 1 [(grpc.federation.field).by = "item.id"];
  Kind kind = 2;
  message Foo {
    option (grpc.federation.message) = {
      def { name: "n" by: "1" }
    };
    int64 n = 1 [(grpc.federation.field).by = "n"];
  }
  Foo foo = 3 [(grpc.federation.field).by = "%[1]s.v1.Detail.Foo{n: 2}"];
}

enum Kind {
  option (grpc.federation.enum).alias = "%[2]s.v1.Kind";
  %[3]s_NONE = 0 [(grpc.federation.enum_value) = { default: true, alias: ["%[4]s_NONE"] }];
  %[3]s_REST = 1 [(grpc.federation.enum_value) = { alias: ["%[4]s_SOME", "%[4]s_MANY"] }];
}
`, s, p, strings.ToUpper(s), strings.ToUpper(p))
		files[s+"/"+s+".proto"] = strings.Replace(files[s+"/"+s+".proto"], "Kind kind = 2;", `Kind kind = 2 [(grpc.federation.field).by = "`+s+".v1.Kind.value('"+strings.ToUpper(s)+`_NONE')"];`, 1)
		for i, m := range [][2]string{
			{`"item.id"`, `"item.part.n"`},
			{"int64 n = 1 [(grpc.federation.field).by = \"n\"];", "int64 n = 1;"},
			{`by: "res.item" }`, `by: "res.items" }`},
			{`alias: ["`, `alias: ["N`},
		} {
			if bad(8 + i) {
				files[s+"/"+s+".proto"] = strings.ReplaceAll(files[s+"/"+s+".proto"], m[0], m[1])
			}
		}
	}
	for f := 1 + g.Intn(2); f > 0; f-- {
		pkg := fmt.Sprintf("fed%d", f)
		var b strings.Builder
		fmt.Fprintf(&b, "syntax = \"proto3\";\n\npackage %s.v1;\n\nimport \"grpc/federation/federation.proto\";\n", pkg)
		viaRule := g.P(1, 3)
		for _, p := range pkgs {
			if !viaRule {
				fmt.Fprintf(&b, "import \"%s/%s.proto\";\n", p, p)
			}
			if split && !viaRule {
				fmt.Fprintf(&b, "import \"%s/part.proto\";\n", p)
			}
		}
		for _, s := range shared {
			fmt.Fprintf(&b, "import \"%s/%s.proto\";\n", s, s)
		}
		fmt.Fprintf(&b, "\noption go_package = \"example/%s/v1;v1\";\n", pkg)
		if viaRule {
			var l []string
			for _, p := range pkgs {
				l = append(l, fmt.Sprintf("%q", p+"/"+p+".proto"))
			}
			fmt.Fprintf(&b, "\noption (grpc.federation.file) = { import: [%s] };\n", strings.Join(l, ", "))
		}
		svcs := 1 + g.Intn(3)
		msgs := 2 + g.Intn(3)
		same := g.P(1, 3) // methods that share a response
		for s := 0; s < svcs; s++ {
			fmt.Fprintf(&b, "\nservice Fed%d {\n  option (grpc.federation.service) = {\n    env {\n", s)
			typ := []string{"STRING", "INT64", "BOOL"}
			for e := 0; e < 3; e++ {
				t := typ[e]
				if bad(1) && s == 1 {
					t = typ[(e+1)%3]
				}
				fmt.Fprintf(&b, "      var { name: \"e%d\" type { kind: %s } option { alternate: \"E%d\" } }\n", e, t, s)
			}
			b.WriteString("    }\n")
			vars := []string{"'s'", "7", "['a', 'b']"}
			for v := range vars {
				x := vars[v]
				if bad(2) && s == 1 {
					x = vars[(v+1)%3]
				}
				fmt.Fprintf(&b, "    var { name: \"v%d\" by: %q }\n", v, x)
			}
			b.WriteString("  };\n")
			for m := 0; m < msgs; m++ {
				if s > 0 && g.P(1, 3) && m > 0 {
					continue
				}
				r := m
				if same && m > 0 && g.P(1, 2) {
					r = 0
				}
				fmt.Fprintf(&b, "  rpc Get%d(Get%dRequest) returns (Get%dResponse) {};\n", m, m, r)
			}
			b.WriteString("}\n")
		}
		kinds := []string{"string id = 1;\n  int64 n = 2;", "int64 n = 1;\n  string id = 2;\n  string more = 3;", "string id = 1;\n  int64 n = 2;\n  bool on = 3;"}
		for m := 0; m < msgs; m++ {
			k := m
			if g.P(1, 2) {
				k = 0
			}
			fmt.Fprintf(&b, "\nmessage Get%dRequest {\n  %s\n}\n", m, kinds[k%3])
			fmt.Fprintf(&b, "\nmessage Get%dResponse {\n  option (grpc.federation.message) = {\n", m)
			field := []string{}
			for _, p := range pkgs {
				if g.P(1, 4) {
					continue
				}
				fmt.Fprintf(&b, "    def { name: \"r%s\" call { method: \"%s.v1.Backend/GetItem\" request [{ field: \"id\" by: \"$.id\" }] } }\n    def { name: \"%s\" by: \"r%s.item\" }\n", p, p, p+"i", p)
				field = append(field, fmt.Sprintf("string %s_id = %%d [(grpc.federation.field).by = \"%si.id\"];", p, p))
				if !viaRule {
					field = append(field, fmt.Sprintf("%s.v1.Item %s_item = %%d [(grpc.federation.field).by = \"%si\"];", p, p, p))
					if g.P(1, 2) {
						field = append(field, fmt.Sprintf("repeated %s.v1.Item %s_items = %%d [(grpc.federation.field).by = \"r%s.items\"];", p, p, p))
					}
					if g.P(1, 2) {
						field = append(field, fmt.Sprintf("map<string, %s.v1.Part> %s_parts = %%d [(grpc.federation.field).by = \"{'a': %si.part}\"];", p, p, p))
					}
				}
			}
			fmt.Fprintf(&b, "    def { name: \"foo\" message { name: \"Get%dResponse.Foo\" args { name: \"n\" by: \"$.n\" } } }\n", m)
			field = append(field, "Foo foo = %d [(grpc.federation.field).by = \"foo\"];")
			for _, s := range shared {
				fmt.Fprintf(&b, "    def { name: \"d%s\" message { name: \"%s.v1.Detail\" args { name: \"id\" by: \"$.id\" } } }\n", s, s)
				field = append(field, fmt.Sprintf("%s.v1.Detail detail_%s = %%d [(grpc.federation.field).by = \"d%s\"];", s, s, s))
			}
			args := "args { name: \"id\" by: \"$.id\" } args { name: \"n\" by: \"$.n\" }"
			if m == 1 && bad(3) {
				args = ""
			}
			if m == 1 && bad(4) {
				args = "args { name: \"id\" by: \"$.n\" } args { name: \"n\" by: \"$.id\" }"
			}
			fmt.Fprintf(&b, "    def { name: \"common\" message { name: \"Common\" %s } }\n", args)
			field = append(field, "Common common = %d [(grpc.federation.field).by = \"common\"];")
			b.WriteString("  };\n")
			for i, f := range field {
				fmt.Fprintf(&b, "  "+f+"\n", i+1)
			}
			fmt.Fprintf(&b, "  message Foo {\n    option (grpc.federation.message) = {\n      def { name: \"v\" by: \"$.n\" }\n")
			if bad(5) && m < 2 {
				b.WriteString("      def { name: \"w\" by: \"undefined_thing\" }\n")
			}
			b.WriteString("    };\n    int64 n = 1 [(grpc.federation.field).by = \"v\"];\n  }\n}\n")
		}
		custom := ""
		if g.P(1, 3) {
			custom = "    custom_resolver: true\n"
		}
		env := ""
		if g.P(1, 2) {
			env = "    def { name: \"e\" by: \"grpc.federation.env.e0\" }\n    def { name: \"v\" by: \"grpc.federation.var.v1\" }\n"
		}
		fmt.Fprintf(&b, "\nmessage Common {\n  option (grpc.federation.message) = {\n%s%s    def { name: \"a\" by: \"$.id\" }\n  };\n  string a = 1", custom, env)
		if custom == "" {
			b.WriteString(" [(grpc.federation.field).by = \"a\"]")
		}
		b.WriteString(";\n}\n")
		if bad(6) {
			for _, n := range []string{"A", "B"} {
				o := map[string]string{"A": "B", "B": "A"}[n]
				fmt.Fprintf(&b, "\nmessage Loop%s {\n  option (grpc.federation.message) = {\n    def { name: \"x\" message { name: \"Loop%s\" } }\n  };\n  Loop%s x = 1 [(grpc.federation.field).by = \"x\"];\n}\n", n, o, o)
			}
		}
		if bad(7) {
			for _, n := range []string{"Foo", "Bar"} {
				fmt.Fprintf(&b, "\nmessage Old%s {\n  option (grpc.federation.message).alias = \"no.such.%s\";\n  string s = 1;\n}\n", n, n)
			}
		}
		// the CEL plugins of several files
		if g.P(1, 3) {
			fmt.Fprintf(&b, "\noption (grpc.federation.file).plugin = { export: { name: \"plug%d\" functions: [{ name: \"f\" args { type { kind: STRING } } return { kind: STRING } }] } };\n", f)
			if viaRule {
				t := b.String()
				i := strings.LastIndex(t, "\noption (grpc.federation.file).plugin")
				files[pkg+"/"+pkg+".proto"] = t[:i]
				continue
			}
		}
		files[pkg+"/"+pkg+".proto"] = b.String()
	}
	return files
}
