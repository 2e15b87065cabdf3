package prog

import (
	"fmt"
	"strings"
)

func camel(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

// Glue renders the Go file that connects the generated service to the engine.
func (p *Program) Glue() string {
	var b strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	P := camel(p.Name)
	w("package %s", p.Name)
	w("import (\n\t\"context\"\n\n\tgrpcfed \"github.com/mercari/grpc-federation/grpc/federation\"\n\t\"google.golang.org/grpc\"\n\t\"verif.local/harness/fed\"\n\tbk \"verif.local/harness/gen/bk\"\n)")
	w("var _ context.Context\nvar _ grpcfed.ErrorHandler")
	w("func init() {\n\tfed.Register(&fed.Entry{Seed: %d, Desc: &Fed_ServiceDesc, New: newSvc})\n}", p.Seed)
	w("type factory struct{ h *fed.Hooks }")
	w("func (f factory) Bk_BackendClient(FedClientConfig) (bk.BackendClient, error) { return bk.NewBackendClient(grpc.ClientConnInterface(f.h)), nil }")
	custom := false
	for _, m := range p.Msgs {
		if m.CustomResolver {
			custom = true
			w("func (r resolver) Resolve_%s_%s(ctx context.Context, args *Fed_%s_%sArgument) (*%s, error) {", P, m.Name, P, m.Name, m.Name)
			w("\tret := &%s{}\n\tif err := r.h.CustomMessage(ctx, %q, args, ret); err != nil {\n\t\treturn nil, err\n\t}\n\treturn ret, nil\n}", m.Name, m.Name)
		}
		for _, f := range m.Fields {
			if f.Custom {
				custom = true
				w("func (r resolver) Resolve_%s_%s_%s(ctx context.Context, args *Fed_%s_%s_%sArgument) (string, error) {", P, m.Name, camel(f.Name), P, m.Name, camel(f.Name))
				w("\treturn r.h.CustomField(ctx, %q, %q, args)\n}", m.Name, f.Name)
			}
		}
	}
	if custom {
		w("type resolver struct{ h *fed.Hooks }")
	}
	w("func newSvc(h *fed.Hooks) (any, func(context.Context), error) {")
	if custom {
		w("\tsvc, err := NewFed(FedConfig{Client: factory{h}, Resolver: resolver{h}, Logger: h.Logger(), ErrorHandler: h.ErrorHandler()})")
	} else {
		w("\tsvc, err := NewFed(FedConfig{Client: factory{h}, Logger: h.Logger(), ErrorHandler: h.ErrorHandler()})")
	}
	w("\tif err != nil {\n\t\treturn nil, nil, err\n\t}")
	w("\treturn svc, func(ctx context.Context) { CleanupFed(ctx, svc) }, nil\n}")
	return b.String()
}
