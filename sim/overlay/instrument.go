package overlay

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	path2 "path"
)

// Site is one scheduling point.
type Site struct {
	ID   uint32
	File string
	Line int
	Func string
}

// Level says how densely a file is instrumented.
type Level int

const (
	Statements Level = iota // before every statement
	Functions               // at function entry only
	None                    // only imports are replaced
)

// Instrumenter inserts runtime.SimYield calls. It works on the text (positions
// from the parser), so line numbers stay those of the original file.
type Instrumenter struct {
	Set   *Set
	Sites []Site
	// Imports replaces import paths (old to new) in the files of a directory
	// whose instrumentation asks for it.
	Imports map[string]string
}

type edit struct {
	off  int
	text string
}

// File instruments one file (its current overlay content).
func (in *Instrumenter) File(path, show string, lv Level) error {
	src, err := in.Set.Current(path)
	if err != nil {
		return err
	}
	out, err := in.Source(path, show, src, lv)
	if err != nil {
		return err
	}
	if out == nil {
		return nil
	}
	return in.Set.Put(path, out)
}

func (in *Instrumenter) Source(path, show string, src []byte, lv Level) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.SkipObjectResolution|parser.ParseComments)
	if err != nil {
		return nil, fmt.Errorf("instrument %s: %w", path, err)
	}
	for _, c := range f.Comments {
		if strings.HasPrefix(c.List[0].Text, "//go:build ignore") {
			return nil, nil
		}
	}
	var edits []edit
	cut := map[int]int{} // bytes an edit replaces
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var fn string
	add := func(p token.Pos, sync bool) {
		in.Sites = append(in.Sites, Site{ID: uint32(len(in.Sites) + 1), File: show, Line: fset.Position(p).Line, Func: fn})
		id := strconv.Itoa(len(in.Sites))
		if sync {
			id += "|1<<31"
		}
		edits = append(edits, edit{off(p), "simrt__.SimYield(" + id + ");"})
	}
	list := func(l []ast.Stmt) {
		sync := false
		for _, s := range l {
			before := sync
			sync = synchronises(s)
			switch s := s.(type) {
			case *ast.EmptyStmt:
				continue
			case *ast.BranchStmt:
				continue
			case *ast.DeclStmt:
				if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
					continue
				}
			}
			add(s.Pos(), sync || before)
		}
	}
	body := func(b *ast.BlockStmt) {
		if b == nil {
			return
		}
		if lv == None {
			return
		}
		if lv == Functions {
			if len(b.List) > 1 {
				add(b.List[0].Pos(), false)
			}
			return
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok {
			fn = fd.Name.Name
			if fn == "init" && fd.Recv == nil {
				continue
			}
			if fd.Doc != nil && strings.Contains(fd.Doc.Text()+commentText(fd.Doc), "go:nosplit") {
				continue
			}
		} else {
			fn = ""
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				body(n.Body)
			case *ast.FuncLit:
				body(n.Body)
			case *ast.BlockStmt:
				if lv == Statements {
					list(n.List)
				}
			case *ast.CaseClause:
				if lv == Statements {
					list(n.Body)
				}
			case *ast.CommClause:
				if lv == Statements {
					list(n.Body)
				}
			}
			return true
		})
	}
	nyield := len(edits)
	for _, sp := range f.Imports {
		old, _ := strconv.Unquote(sp.Path.Value)
		to, ok := in.Imports[old]
		if !ok {
			continue
		}
		text := strconv.Quote(to)
		if sp.Name == nil {
			text = path2.Base(old) + " " + text
		}
		edits = append(edits, edit{off(sp.Path.Pos()), text})
		cut[off(sp.Path.Pos())] = len(sp.Path.Value)
	}
	if len(edits) == 0 {
		return nil, nil
	}
	// clauses are statements of their switch's block: drop those edits
	bad := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CaseClause:
			bad[off(n.Pos())] = true
		case *ast.CommClause:
			bad[off(n.Pos())] = true
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var buf bytes.Buffer
	buf.Write(src[:off(f.Name.End())])
	if nyield > 0 {
		buf.WriteString("; import simrt__ \"runtime\"")
	}
	last := off(f.Name.End())
	for i, e := range edits {
		if bad[e.off] || (i > 0 && edits[i-1].off == e.off) {
			continue
		}
		buf.Write(src[last:e.off])
		buf.WriteString(e.text)
		last = e.off + cut[e.off]
	}
	buf.Write(src[last:])
	return buf.Bytes(), nil
}

func commentText(c *ast.CommentGroup) string {
	var b strings.Builder
	for _, x := range c.List {
		b.WriteString(x.Text)
	}
	return b.String()
}

// Dir instruments every non-test .go file of dir accepted by keep.
func (in *Instrumenter) Dir(dir, show string, lv Level, keep func(name string) bool) error {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if keep != nil && !keep(n) {
			continue
		}
		if err := in.File(filepath.Join(dir, n), show+"/"+n, lv); err != nil {
			return err
		}
	}
	return nil
}

// synchronises tells whether a statement itself (not what is nested in it) may
// synchronise with other goroutines: where a delay is most telling.
func synchronises(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
			found = true
		case *ast.UnaryExpr:
			found = found || n.Op == token.ARROW
		case *ast.CallExpr:
			name := ""
			switch f := n.Fun.(type) {
			case *ast.Ident:
				name = f.Name
			case *ast.SelectorExpr:
				name = f.Sel.Name
			}
			switch name {
			case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "Do", "Go", "Wait", "Done", "Add", "Load", "Store", "Swap", "CompareAndSwap", "LoadOrStore", "cancel", "close", "Close", "Err", "Broadcast", "Signal", "Acquire", "Release":
				found = true
			}
		}
		return !found
	})
	return found
}
