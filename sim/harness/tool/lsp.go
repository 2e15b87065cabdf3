//go:build simruntime

package tool

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"path"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/mercari/grpc-federation/lsp/server"
	"github.com/mercari/grpc-federation/source"
	"github.com/mercari/grpc-federation/validator"
	"go.lsp.dev/protocol"

	"verif.local/harness/wk"
	"verif.local/sim/prog"
	"verif.local/sim/simos"
	"verif.local/sim/simrt"
)

// LSPOp is one thing the client does.
type LSPOp struct {
	Kind string        `json:"k"`
	Doc  int           `json:"d"`
	Text int           `json:"t,omitempty"`
	Line uint32        `json:"l,omitempty"`
	Col  uint32        `json:"c,omitempty"`
	Gap  time.Duration `json:"gap,omitempty"` // before it
}

// LSPPlan is an editing session.
type LSPPlan struct {
	Set    string   `json:"set"`
	Docs   []string `json:"docs"`
	Texts  []string `json:"texts"`
	Ops    []LSPOp  `json:"ops"`
	Link   bool     `json:"link"`           // the client supports definition links
	Chunk  int      `json:"chunk"`          // largest piece of a client's write
	Slow   bool     `json:"slow,omitempty"` // the client reads slowly
	Stalls bool     `json:"stalls,omitempty"`
	Cut    bool     `json:"cut,omitempty"`    // the client disappears in the middle of a message
	NoSave bool     `json:"nosave,omitempty"` // documents do not exist on disk
}

var lspSets = []string{"validator", "testdata", "lsp"}

// leaves of a set: files no other file imports.
func leaves(s *Set) []string {
	var out []string
	for _, n := range s.Names {
		used := false
		for _, m := range s.Names {
			if m != n && strings.Contains(s.Files[m], `"`+n+`"`) {
				used = true
			}
		}
		if !used && strings.Contains(s.Files[n], "grpc/federation") {
			out = append(out, n)
		}
	}
	if len(out) == 0 {
		out = s.Names
	}
	return out
}

// mutate a text the way editing does.
func mutate(g *simrt.PRNG, t string) string {
	lines := strings.Split(t, "\n")
	at := g.Intn(len(lines))
	switch g.Intn(12) {
	case 0: // a line is missing
		lines = append(lines[:at:at], lines[at+1:]...)
	case 1: // a line is there twice
		lines = append(lines[:at+1:at+1], lines[at:]...)
	case 2: // everything below moves
		n := 1 + g.Intn(3)
		pre := append([]string{}, lines[:at]...)
		for i := 0; i < n; i++ {
			pre = append(pre, "")
		}
		lines = append(pre, lines[at:]...)
	case 3: // typing in progress
		l := lines[at]
		lines[at] = l[:g.Intn(len(l)+1)]
	case 4: // the rest is missing
		return t[:g.Intn(len(t)+1)]
	case 5: // indentation
		lines[at] = "  " + lines[at]
	case 6: // a name changes
		words := strings.Fields(lines[at])
		if len(words) > 0 {
			w := words[g.Intn(len(words))]
			lines[at] = strings.Replace(lines[at], w, w+"x", 1)
		}
	case 7:
		lines[at] += []string{";", "}", "{", "\"", "/*", "// note", " = ", "]", "'"}[g.Intn(9)]
	case 8: // a number changes
		lines[at] = strings.NewReplacer("1", "2", "2", "1").Replace(lines[at])
	case 9: // CEL typo
		lines[at] = strings.Replace(lines[at], "$.", []string{"$.x.", "$", "$..", "res.", "$.ユ."}[g.Intn(5)], 1)
	case 10: // block comment or two lines joined
		if at+1 < len(lines) {
			lines[at] += " " + lines[at+1]
			lines = append(lines[:at+1:at+1], lines[at+2:]...)
		}
	case 11:
		lines[at] = "/* あ */" + lines[at]
	}
	return strings.Join(lines, "\n")
}

// rewrite a text without changing its length.
func rewrite(g *simrt.PRNG, t string) string {
	lines := strings.Split(t, "\n")
	at, to := g.Intn(len(lines)), g.Intn(len(lines))
	switch g.Intn(4) {
	case 0:
		lines[at], lines[to] = lines[to], lines[at]
	case 1:
		lines[at] = strings.NewReplacer("1", "2", "2", "1").Replace(lines[at])
	case 2: // a line moves
		l := lines[at]
		lines = append(lines[:at:at], lines[at+1:]...)
		to = g.Intn(len(lines) + 1)
		lines = append(lines[:to:to], append([]string{l}, lines[to:]...)...)
	case 3: // one letter
		for try := 0; try < 20; try++ {
			i := g.Intn(len(t))
			if t[i] >= 'a' && t[i] < 'z' {
				return t[:i] + string(rune(t[i]+1)) + t[i+1:]
			}
		}
	}
	return strings.Join(lines, "\n")
}

var declared = regexp.MustCompile(`(?m)^(?:message|enum|  rpc) (\w+)`)

func planLSP(prop string, g *simrt.PRNG) *LSPPlan {
	p := &LSPPlan{Link: g.P(1, 2)}
	p.Set = lspSets[g.Intn(len(lspSets))]
	s := set(p.Set)
	lv := leaves(s)
	nd := 1 + g.Intn(3)
	for i := 0; i < nd; i++ {
		d := lv[g.Intn(len(lv))]
		dup := false
		for _, x := range p.Docs {
			dup = dup || x == d
		}
		if !dup {
			p.Docs = append(p.Docs, d)
		}
	}
	// a document the first one imports
	imported := -1
	if g.P(1, 3) {
		var in []string
		for _, n := range s.Names {
			if n != p.Docs[0] && strings.Contains(s.Files[p.Docs[0]], `"`+n+`"`) && !strings.HasPrefix(n, "google/") && !strings.HasPrefix(n, "grpc/") {
				in = append(in, n)
			}
		}
		if len(in) > 0 {
			d := in[g.Intn(len(in))]
			if imported = slices.Index(p.Docs, d); imported < 0 {
				p.Docs, imported = append(p.Docs, d), len(p.Docs)
			}
		}
	}
	nt := 2 + g.Intn(4)
	for i := 0; i < nt; i++ {
		t := s.Files[lv[g.Intn(len(lv))]]
		if g.P(2, 3) {
			t = s.Files[p.Docs[g.Intn(len(p.Docs))]]
		}
		for n := g.Intn(4); n > 0; n-- {
			t = mutate(g, t)
		}
		if g.P(1, 30) {
			t = ""
		}
		if i > 0 && g.P(1, 3) && p.Texts[i-1] != "" {
			t = p.Texts[i-1]
			for n := 1 + g.Intn(3); n > 0; n-- {
				t = rewrite(g, t)
			}
		}
		p.Texts = append(p.Texts, t)
	}
	kinds := []string{"change", "change", "change", "change", "def", "comp", "tok", "save", "open", "close"}
	if prop == "C17" {
		kinds = []string{"change", "change", "def", "def", "def", "comp", "comp", "tok", "hover", "unknown", "notice", "badreq", "badchange", "nonfile", "reqnonfile", "missing", "cancel", "save", "open", "close"}
	}
	n := 2 + g.Intn(9)
	cur := make([]int, len(p.Docs))
	for i := range cur {
		cur[i] = -1
	}
	if imported >= 0 {
		// everything in it moves
		t := s.Files[p.Docs[imported]]
		for n := 1 + g.Intn(3); n > 0; n-- {
			at := g.Intn(2)
			if i := strings.Index(t, "\nmessage "); i >= 0 && at == 0 {
				t = t[:i] + "\n// note" + t[i:]
			} else {
				t = "// note\n" + t
			}
		}
		p.Texts = append(p.Texts, t)
		cur[imported] = len(p.Texts) - 1
		p.Ops = append(p.Ops, LSPOp{Kind: []string{"open", "change"}[g.Intn(2)], Doc: imported, Text: cur[imported]})
	}
	for i := 0; i < n; i++ {
		o := LSPOp{Kind: kinds[g.Intn(len(kinds))], Doc: g.Intn(len(p.Docs)), Text: g.Intn(len(p.Texts))}
		if i == 0 && g.P(3, 4) {
			o.Kind = "change"
		}
		switch g.Intn(6) {
		case 0:
			o.Gap = time.Duration(g.Intn(int(time.Second)))
		case 1:
			o.Gap = time.Duration(g.Intn(2000))
		}
		switch o.Kind {
		case "change", "open":
			cur[o.Doc] = o.Text
		case "close":
			cur[o.Doc] = -1
		case "def", "comp", "tok":
			if imported >= 0 && g.P(1, 2) {
				o.Kind, o.Doc = "def", 0
			}
			t := s.Files[p.Docs[o.Doc]]
			if cur[o.Doc] >= 0 {
				t = p.Texts[cur[o.Doc]]
			}
			o.Line, o.Col = pos(g, t)
			if imported >= 0 && o.Doc == 0 && g.P(2, 3) {
				// something the imported document declares
				var at [][]int
				for _, m := range declared.FindAllStringSubmatch(s.Files[p.Docs[imported]], -1) {
					at = append(at, regexp.MustCompile(`\b`+m[1]+`\b`).FindAllStringIndex(t, -1)...)
				}
				if len(at) > 0 {
					i := at[g.Intn(len(at))][0]
					o.Line = uint32(strings.Count(t[:i], "\n"))
					o.Col = uint32(i - 1 - strings.LastIndex(t[:i], "\n"))
				}
			}
		}
		if n := len(p.Ops); n > 0 && g.P(1, 3) && strings.Contains("def comp tok", p.Ops[n-1].Kind) {
			// the same question again after an edit
			p.Ops = append(p.Ops, LSPOp{Kind: "change", Doc: p.Ops[n-1].Doc, Text: g.Intn(len(p.Texts))}, p.Ops[n-1])
			cur[p.Ops[n-1].Doc] = p.Ops[n].Text
		}
		p.Ops = append(p.Ops, o)
	}
	p.Chunk = []int{1 << 20, 1 << 20, 4096, 100, 7, 1}[g.Intn(6)]
	p.Slow = g.P(1, 8)
	p.Stalls = g.P(1, 4)
	p.Cut = g.P(1, 10)
	p.NoSave = g.P(1, 6)
	return p
}

// pos picks a position, mostly one that means something.
func pos(g *simrt.PRNG, t string) (uint32, uint32) {
	lines := strings.Split(t, "\n")
	if g.P(1, 15) {
		return uint32(g.Intn(100000)), uint32(g.Intn(1000))
	}
	line := g.Intn(len(lines))
	if g.P(4, 5) {
		var good []int
		for i, l := range lines {
			for _, w := range []string{"name:", "method:", "import", "by:", "alias", "message ", "= ", "service"} {
				if strings.Contains(l, w) {
					good = append(good, i)
					break
				}
			}
		}
		if len(good) > 0 {
			line = good[g.Intn(len(good))]
		}
	}
	l := lines[line]
	col := g.Intn(len(l) + 2)
	if i := strings.IndexAny(l, `"`); i >= 0 && g.P(2, 3) {
		col = i + 1 + g.Intn(max(1, len(l)-i-2))
	}
	return uint32(line), uint32(col)
}

func shrinkLSP(p *LSPPlan) []*LSPPlan {
	var out []*LSPPlan
	add := func(f func(q *LSPPlan)) {
		q := clone(p)
		f(q)
		out = append(out, q)
	}
	for size := len(p.Ops) / 2; size >= 1; size /= 2 {
		for i := 0; i < len(p.Ops); i += size {
			add(func(q *LSPPlan) { q.Ops = append(q.Ops[:i:i], q.Ops[min(len(q.Ops), i+size):]...) })
		}
	}
	if p.Slow {
		add(func(q *LSPPlan) { q.Slow = false })
	}
	if p.Stalls {
		add(func(q *LSPPlan) { q.Stalls = false })
	}
	if p.Cut {
		add(func(q *LSPPlan) { q.Cut = false })
	}
	if p.NoSave {
		add(func(q *LSPPlan) { q.NoSave = false })
	}
	if p.Chunk < 1<<20 {
		add(func(q *LSPPlan) { q.Chunk = 1 << 20 })
	}
	for i, o := range p.Ops {
		if o.Gap > 0 {
			add(func(q *LSPPlan) { q.Ops[i].Gap = 0 })
		}
	}
	return out
}

const wsDir = "/ws"

// alone runs f on a file system holding only the workspace with the document
// saved.
func alone(p *LSPPlan, doc, text string, has bool, f func()) {
	keep := simos.Fork()
	defer simos.Restore(keep)
	simos.Calm(func() {
		install(wsDir, set(p.Set).Files)
		if p.NoSave {
			for _, d := range p.Docs {
				simos.Remove(path.Join(wsDir, d))
			}
		}
		if has {
			install(wsDir, map[string]string{doc: text})
		}
		f()
	})
}

var lspMemo = map[uint64]string{}

func memo(f func() string, key ...string) string {
	k := prog.Hash(key...)
	if s, ok := lspMemo[k]; ok {
		return s
	}
	if len(lspMemo) > 20000 {
		lspMemo = map[uint64]string{}
	}
	s := f()
	lspMemo[k] = s
	return s
}

type diag struct {
	Range    *protocol.Range `json:"range,omitempty"`
	Severity int             `json:"severity"`
	Message  string          `json:"message"`
}

func diagKeys(ds []diag) string {
	var out []string
	for _, d := range ds {
		b, _ := json.Marshal(d)
		out = append(out, string(b))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// wantDiags is what validating the saved text reports.
func wantDiags(p *LSPPlan, doc, text string) string {
	return memo(func() (res string) {
		alone(p, doc, text, !p.NoSave, func() {
			defer func() {
				if e := recover(); e != nil {
					res = fmt.Sprint("panic: ", e)
				}
			}()
			file, err := source.NewFile(path.Join(wsDir, doc), []byte(text))
			if err != nil {
				res = "unparsable: " + err.Error()
				return
			}
			var ds []diag
			for _, o := range validator.New().Validate(context.Background(), file, validator.ImportPathOption(wsDir)) {
				d := diag{Severity: 1, Message: o.Message}
				if o.IsWarning {
					d.Severity = 2
				}
				if o.Start.Line > 0 && o.Start.Col > 0 && o.End.Line > 0 && o.End.Col > 0 {
					d.Range = &protocol.Range{
						Start: protocol.Position{Line: uint32(o.Start.Line - 1), Character: uint32(o.Start.Col - 1)},
						End:   protocol.Position{Line: uint32(o.End.Line - 1), Character: uint32(o.End.Col - 1)},
					}
				}
				ds = append(ds, d)
			}
			res = diagKeys(ds)
		})
		return
	}, "diag", p.Set, fmt.Sprint(p.NoSave, p.Docs), doc, text)
}

// sameDiags compares what was published with wantDiags; positions the
// validation does not know are not compared.
func sameDiags(got []diag, want string) bool {
	if diagKeys(got) == want {
		return true
	}
	unpos := map[string]int{}
	var ws []diag
	for _, l := range strings.Split(want, "\n") {
		if l == "" {
			continue
		}
		var d diag
		if json.Unmarshal([]byte(l), &d) != nil {
			return false
		}
		if d.Range == nil {
			unpos[fmt.Sprint(d.Severity, d.Message)]++
		}
		ws = append(ws, d)
	}
	var gs []diag
	for _, d := range got {
		k := fmt.Sprint(d.Severity, d.Message)
		if unpos[k] > 0 && (d.Range == nil || !hasPos(ws, d)) {
			unpos[k]--
			d.Range = nil
		}
		gs = append(gs, d)
	}
	return diagKeys(gs) == diagKeys(ws)
}

func hasPos(ws []diag, d diag) bool {
	for _, w := range ws {
		if w.Range != nil && *w.Range == *d.Range && w.Message == d.Message && w.Severity == d.Severity {
			return true
		}
	}
	return false
}

func initParams(p *LSPPlan) map[string]any {
	return map[string]any{
		"processId": 1,
		"capabilities": map[string]any{"textDocument": map[string]any{
			"definition":     map[string]any{"linkSupport": p.Link},
			"semanticTokens": map[string]any{"requests": map[string]any{"full": true}, "formats": []string{"relative"}, "tokenTypes": []string{"type", "class", "property", "method", "keyword", "string", "number", "operator", "variable", "parameter", "enumMember", "namespace"}, "tokenModifiers": []string{"declaration", "definition", "readonly", "defaultLibrary", "static"}},
		}},
	}
}

func normalize(kind string, v json.RawMessage) string {
	if len(v) == 0 || string(v) == "null" {
		return "null"
	}
	if kind == "comp" {
		var l struct {
			Items []struct {
				Label    string          `json:"label"`
				TextEdit json.RawMessage `json:"textEdit"`
			} `json:"items"`
		}
		if err := json.Unmarshal(v, &l); err != nil {
			return string(v)
		}
		var out []string
		for _, i := range l.Items {
			out = append(out, i.Label+" "+string(i.TextEdit))
		}
		sort.Strings(out)
		return strings.Join(out, "\n")
	}
	var x any
	if err := json.Unmarshal(v, &x); err != nil {
		return string(v)
	}
	b, _ := json.Marshal(x)
	return string(b)
}

// wantAnswer is what a server started for this request alone answers.
func wantAnswer(p *LSPPlan, o LSPOp, doc, text string, has bool, others map[string]string) string {
	return memo(func() (res string) {
		alone(p, doc, text, has, func() {
			install(wsDir, others)
			defer func() {
				if e := recover(); e != nil {
					res = "error"
				}
			}()
			h := server.NewHandler(nil, io.Discard, []string{wsDir})
			b, _ := json.Marshal(initParams(p))
			var ip protocol.InitializeParams
			if err := json.Unmarshal(b, &ip); err != nil {
				panic(err)
			}
			ctx := context.Background()
			if _, err := h.Initialize(ctx, &ip); err != nil {
				panic(err)
			}
			id := protocol.TextDocumentIdentifier{URI: protocol.DocumentURI(uriOf(doc))}
			at := protocol.TextDocumentPositionParams{TextDocument: id, Position: protocol.Position{Line: o.Line, Character: o.Col}}
			var v any
			var err error
			switch {
			case o.Kind == "def" && p.Link:
				v, err = h.DefinitionWithLink(ctx, &protocol.DefinitionParams{TextDocumentPositionParams: at})
			case o.Kind == "def":
				v, err = h.Definition(ctx, &protocol.DefinitionParams{TextDocumentPositionParams: at})
			case o.Kind == "comp":
				v, err = h.Completion(ctx, &protocol.CompletionParams{TextDocumentPositionParams: at})
			case o.Kind == "tok":
				v, err = h.SemanticTokensFull(ctx, &protocol.SemanticTokensParams{TextDocument: id})
			}
			if err != nil {
				res = "error"
				return
			}
			b, err = json.Marshal(v)
			if err != nil {
				res = "error"
				return
			}
			res = normalize(o.Kind, b)
		})
		return
	}, "ans", p.Set, fmt.Sprint(p.NoSave, p.Docs, p.Link, has, others), o.Kind, doc, text, fmt.Sprint(o.Line, ":", o.Col))
}

// targets lists the documents a definition is in.
func targets(answer string) string {
	var locs []map[string]any
	if json.Unmarshal([]byte(answer), &locs) != nil {
		return ""
	}
	var out []string
	for _, l := range locs {
		for _, k := range []string{"uri", "targetUri"} {
			if u, ok := l[k].(string); ok {
				out = append(out, u)
			}
		}
	}
	return strings.Join(out, " ")
}

func uriOf(doc string) string { return "file://" + wsDir + "/" + doc }

type lspMsg struct {
	ID     *json.RawMessage `json:"id"`
	Method string           `json:"method"`
	Params json.RawMessage  `json:"params"`
	Result json.RawMessage  `json:"result"`
	Error  *struct {
		Code    int    `json:"code"`
		Message string `json:"message"`
	} `json:"error"`
}

type asked struct {
	op   LSPOp
	want string // "" if anything will do
	got  []string
}

func runLSP(p *LSPPlan, opt simrt.Options) *wk.Outcome {
	o := &wk.Outcome{Faults: map[string]int{}, Reach: map[string]int{}}
	s := set(p.Set)
	simos.Reset()
	// what a correct server answers, before the simulation starts
	exps := make([]string, len(p.Ops))
	final := map[int]string{}
	claim := map[int]bool{}
	for i, op := range p.Ops {
		switch op.Kind {
		case "change":
			final[op.Doc] = p.Texts[op.Text]
			claim[op.Doc] = true
		case "open":
			final[op.Doc] = p.Texts[op.Text]
			claim[op.Doc] = false
		case "close":
			delete(final, op.Doc)
			claim[op.Doc] = false
		case "def", "comp", "tok":
			t, has := final[op.Doc]
			if p.NoSave && strings.Contains(t, `"`+p.Docs[op.Doc]+`"`) {
				continue // what importing itself means depends on the disk
			}
			exps[i] = wantAnswer(p, op, p.Docs[op.Doc], t, has, nil)
			others := map[string]string{}
			for d, t := range final {
				if d != op.Doc {
					others[p.Docs[d]] = t
				}
			}
			if len(others) > 0 && op.Kind != "tok" {
				// Whether what it imports is taken from the disk or from the
				// other open documents is left open, but places are places
				// in the open documents.
				saved := wantAnswer(p, op, p.Docs[op.Doc], t, has, others)
				switch {
				case saved == exps[i]:
				case op.Kind == "def" && targets(saved) != "" && targets(saved) == targets(exps[i]):
					exps[i] = saved
					o.Reach["definition in another open document"]++
				default:
					o.Reach["answer depends on unsaved imports"]++
					exps[i] = ""
					continue
				}
			}
			o.Reach["request."+op.Kind]++
			if exps[i] != "null" && exps[i] != "error" {
				o.Reach["answer."+op.Kind]++
			}
		}
	}
	wants := map[int]string{}
	for d, t := range final {
		if claim[d] {
			wants[d] = wantDiags(p, p.Docs[d], t)
		}
	}
	install(wsDir, s.Files)
	if p.NoSave {
		simos.Calm(func() {
			for _, d := range p.Docs {
				simos.Remove(path.Join(wsDir, d))
			}
		})
		o.Faults["document missing on disk"]++
	}
	opt.Stalls = p.Stalls
	opt.Horizon = 2 * time.Hour
	opt.Grace = 10 * time.Minute
	var proc *Proc
	asks := map[string]*asked{}
	last := map[string][]diag{}
	published := map[string]int{}
	exited := false
	var stray []string
	g := simrt.NewPRNG(opt.Seed ^ 0x15b)
	chunks := 0
	o.Res = simrt.Run(opt, func() {
		inR, inW := io.Pipe()
		outR, outW := io.Pipe()
		proc = start("langserver", simos.NewStream("/dev/stdin", inR, nil), simos.NewStream("/dev/stdout", nil, outW), "-I", wsDir)
		readDone := make(chan struct{})
		go func() {
			defer close(readDone)
			br := bufio.NewReaderSize(outR, 4096)
			for {
				m, err := readFrame(br)
				if err != nil {
					simrt.Event("client: stream from the server ends: %v", err)
					outR.Close()
					return
				}
				if p.Slow {
					time.Sleep(time.Duration(g.Intn(int(300 * time.Millisecond))))
				}
				switch {
				case m.Method == "textDocument/publishDiagnostics":
					var d struct {
						URI         string `json:"uri"`
						Diagnostics []diag `json:"diagnostics"`
					}
					if err := json.Unmarshal(m.Params, &d); err != nil {
						stray = append(stray, "bad diagnostics: "+err.Error())
						continue
					}
					last[d.URI] = d.Diagnostics
					published[d.URI]++
					simrt.Event("client: %d diagnostics for %s", len(d.Diagnostics), d.URI)
				case m.ID != nil && m.Method == "":
					id := string(*m.ID)
					a := asks[id]
					if a == nil {
						stray = append(stray, "answer to unknown request "+id)
						continue
					}
					r := "error"
					if m.Error == nil {
						r = normalize(a.op.Kind, m.Result)
					} else {
						simrt.Event("client: error %d %s", m.Error.Code, m.Error.Message)
					}
					a.got = append(a.got, r)
					simrt.Event("client: answer to %s (%s)", id, a.op.Kind)
				default:
					o.Reach["server."+m.Method]++
				}
			}
		}()
		write := func(b []byte) bool {
			for len(b) > 0 {
				n := len(b)
				if n > p.Chunk {
					n = 1 + g.Intn(p.Chunk)
				}
				if _, err := inW.Write(b[:n]); err != nil {
					return false
				}
				chunks++
				b = b[n:]
			}
			return true
		}
		next := 0
		var cutAt []byte
		send := func(id int, method string, params any) bool {
			m := map[string]any{"jsonrpc": "2.0", "method": method}
			if id > 0 {
				m["id"] = id
			}
			if params != nil {
				m["params"] = params
			}
			b, _ := json.Marshal(m)
			b = append([]byte(fmt.Sprintf("Content-Length: %d\r\n\r\n", len(b))), b...)
			cutAt = b
			simrt.Event("client: sends %s %d", method, id)
			return write(b)
		}
		ask := func(op LSPOp, method string, params any, want string) bool {
			next++
			asks[strconv.Itoa(next)] = &asked{op: op, want: want}
			return send(next, method, params)
		}
		ok := ask(LSPOp{Kind: "init"}, "initialize", initParams(p), "") && send(0, "initialized", map[string]any{})
		for i, op := range p.Ops {
			if !ok {
				break
			}
			if op.Gap > 0 {
				time.Sleep(op.Gap)
			}
			doc := map[string]any{"uri": uriOf(p.Docs[op.Doc])}
			at := map[string]any{"textDocument": doc, "position": map[string]any{"line": op.Line, "character": op.Col}}
			switch op.Kind {
			case "change":
				doc["version"] = i + 1
				ok = send(0, "textDocument/didChange", map[string]any{"textDocument": doc, "contentChanges": []any{map[string]any{"text": p.Texts[op.Text]}}})
			case "open":
				doc["version"], doc["languageId"], doc["text"] = i+1, "proto", p.Texts[op.Text]
				ok = send(0, "textDocument/didOpen", map[string]any{"textDocument": doc})
			case "close":
				ok = send(0, "textDocument/didClose", map[string]any{"textDocument": doc})
			case "save":
				ok = send(0, "textDocument/didSave", map[string]any{"textDocument": doc})
			case "def":
				ok = ask(op, "textDocument/definition", at, exps[i])
			case "comp":
				ok = ask(op, "textDocument/completion", at, exps[i])
			case "tok":
				ok = ask(op, "textDocument/semanticTokens/full", map[string]any{"textDocument": doc}, exps[i])
			case "hover":
				ok = ask(op, "textDocument/hover", at, "null")
			case "unknown":
				ok = ask(op, "workspace/noSuchThing", map[string]any{"x": op.Text}, "")
			case "notice":
				ok = send(0, "$/noSuchNotice", map[string]any{"x": op.Text})
			case "badreq":
				var bad any = "nonsense"
				switch op.Text % 4 {
				case 1:
					bad = map[string]any{"textDocument": 7}
				case 2:
					bad = []any{1, 2}
				case 3:
					bad = nil
				}
				ok = ask(op, []string{"textDocument/definition", "textDocument/completion", "textDocument/semanticTokens/full", "textDocument/references"}[op.Doc%4], bad, "")
			case "badchange":
				var bad any = "nonsense"
				if op.Text%2 == 1 {
					bad = map[string]any{"textDocument": map[string]any{"uri": "%zz"}, "contentChanges": []any{map[string]any{"text": "x"}}}
				}
				ok = send(0, "textDocument/didChange", bad)
			case "nonfile":
				ok = send(0, "textDocument/didChange", map[string]any{"textDocument": map[string]any{"uri": "untitled:Untitled-1", "version": 1}, "contentChanges": []any{map[string]any{"text": p.Texts[op.Text]}}})
			case "reqnonfile":
				ok = ask(op, "textDocument/definition", map[string]any{"textDocument": map[string]any{"uri": "untitled:Untitled-1"}, "position": map[string]any{"line": 1, "character": 1}}, "")
			case "missing":
				ok = ask(op, "textDocument/completion", map[string]any{"textDocument": map[string]any{"uri": "file:///nowhere/x.proto"}, "position": map[string]any{"line": 1, "character": 1}}, "")
			case "cancel":
				ok = send(0, "$/cancelRequest", map[string]any{"id": 1 + op.Text})
			}
		}
		if !ok {
			simrt.Event("client: the server does not take input")
		}
		time.Sleep(5 * time.Minute)
		if !p.Cut {
			if ok {
				ask(LSPOp{Kind: "shutdown"}, "shutdown", nil, "")
				time.Sleep(3 * time.Minute)
				send(0, "exit", nil)
			}
		} else {
			inW.Write(cutAt[:len(cutAt)*2/3])
			o.Faults["client disappears in the middle of a message"]++
		}
		inW.Close()
		select {
		case <-proc.Done:
			exited = true
		case <-time.After(10 * time.Minute):
			simrt.Event("the server does not exit")
		}
		outW.Close()
		<-readDone
	})
	o.Key = fmt.Sprint(p.Set, p.Docs, len(p.Ops))
	if p.Chunk < 1<<20 {
		o.Faults["input arrives in pieces"] += chunks
	}
	if p.Slow {
		o.Faults["client reads slowly"]++
	}
	o.Faults["goroutine stall"] += o.Res.Stalls
	if o.Res.StepCap {
		o.Add("stepcap", "the run does not come to an end", "C16", "C17")
		return o
	}
	if o.Res.Hang {
		o.Add("hang", "the run hangs:\n"+o.Res.HangDump, "C16", "C17")
		return o
	}
	if proc.Died != "" {
		o.Add("died", "the server died: "+proc.Died, "C16", "C17")
		return o
	}
	if !exited {
		o.Add("no-exit", "the server still runs ten minutes after its client has gone", "C17")
	}
	if o.Res.Leaked > 0 {
		o.Add("leak", fmt.Sprintf("%d goroutines remain after the server has exited:\n%s", o.Res.Leaked, o.Res.LeakDump), "C17")
	}
	for _, x := range stray {
		o.Add("stray", x, "C17")
	}
	ids := make([]string, 0, len(asks))
	for id := range asks {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return len(ids[i]) < len(ids[j]) || len(ids[i]) == len(ids[j]) && ids[i] < ids[j] })
	for _, id := range ids {
		a := asks[id]
		o.Checks++
		switch {
		case len(a.got) == 0:
			o.Add("unanswered", fmt.Sprintf("request %s (%s) gets no answer", id, a.op.Kind), "C17")
		case len(a.got) > 1:
			o.Add("answered-twice", fmt.Sprintf("request %s (%s) gets %d answers", id, a.op.Kind, len(a.got)), "C17")
		case a.want != "" && a.got[0] != a.want:
			o.Add("wrong-answer", fmt.Sprintf("request %s (%s at %d:%d of %s) is answered\n%s\na server that has only seen that text answers\n%s", id, a.op.Kind, a.op.Line, a.op.Col, p.Docs[a.op.Doc], clip(a.got[0]), clip(a.want)), "C17")
		}
	}
	docs := make([]int, 0, len(final))
	for d := range wants {
		docs = append(docs, d)
	}
	sort.Ints(docs)
	for _, d := range docs {
		o.Checks++
		doc := p.Docs[d]
		u := uriOf(doc)
		want := wants[d]
		o.Reach["documents"]++
		if want != "" {
			o.Reach["documents with diagnostics"]++
		}
		if published[u] > 1 {
			o.Reach["documents published more than once"]++
		}
		switch {
		case published[u] == 0:
			o.Add("no-diagnostics", fmt.Sprintf("no diagnostics are published for %s, whose text was changed", doc), "C16")
		case strings.HasPrefix(want, "panic: "):
			// validating it is broken; the server has survived
		case strings.HasPrefix(want, "unparsable: "):
			o.Reach["unparsable documents"]++
			if len(last[u]) == 0 {
				o.Add("no-parse-error", fmt.Sprintf("the last text of %s cannot be parsed (%s) but its last diagnostics are empty", doc, want), "C16")
			}
		case !sameDiags(last[u], want):
			o.Add("stale-diagnostics", fmt.Sprintf("the last diagnostics of %s are\n%s\nvalidating its latest text gives\n%s", doc, clip(diagKeys(last[u])), clip(want)), "C16")
		}
	}
	return o
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

func readFrame(r *bufio.Reader) (*lspMsg, error) {
	n := 0
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		l = strings.TrimSpace(l)
		if l == "" {
			break
		}
		if v, ok := strings.CutPrefix(l, "Content-Length:"); ok {
			if n, err = strconv.Atoi(strings.TrimSpace(v)); err != nil {
				return nil, err
			}
		} else {
			return nil, fmt.Errorf("bad header %q", l)
		}
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	m := &lspMsg{}
	return m, json.Unmarshal(b, m)
}
