package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath, Name, Dir, Export string
	GoFiles                       []string
	Standard                      bool
}

// instrument rewrites every package of the module copy in place:
//   - simrt.Y() before every statement,
//   - simrt.F() before every statement which may wake another goroutine,
//   - read-modify-write statements on memory other goroutines may see become
//     simrt.Set(&x, x op y), which yields between load and store,
//   - package sync becomes simsync,
//   - package main becomes importable.
//
// The rewriting is purely local and textual, so line numbers are unchanged.
func instrument(dir string) error {
	out, err := run(dir, buildEnv, "go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,Standard", "./...")
	if err != nil {
		return err
	}
	exports := map[string]string{}
	var pkgs []listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/") {
			pkgs = append(pkgs, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	for _, p := range pkgs {
		if err := instrumentPkg(fset, imp, p); err != nil {
			return fmt.Errorf("instrumenting %s: %v", p.ImportPath, err)
		}
	}
	return nil
}

type edit struct {
	off, end int // replace [off,end)
	text     string
	seq      int
}

func instrumentPkg(fset *token.FileSet, imp types.Importer, p listPkg) error {
	var files []*ast.File
	src := map[*ast.File][]byte{}
	names := map[*ast.File]string{}
	for _, f := range p.GoFiles {
		fn := filepath.Join(p.Dir, f)
		b, err := os.ReadFile(fn)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(fset, fn, b, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, af)
		src[af] = b
		names[af] = fn
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp, GoVersion: "go1.21", Error: func(error) {}}
	conf.Check(p.ImportPath, fset, files, info)

	for _, af := range files {
		in := &instr{fset: fset, info: info, src: src[af]}
		in.shared = sharedObjects(af, info)
		for _, d := range af.Decls {
			ast.Inspect(d, in.visit)
		}
		imports := "; import simrt \"verifnode/simrt\""
		in.add(in.off(af.Name.End()), in.off(af.Name.End()), imports)
		for _, im := range af.Imports {
			v, _ := strconv.Unquote(im.Path.Value)
			if v == "sync" {
				name := ""
				if im.Name == nil {
					name = "sync "
				}
				in.add(in.off(im.Path.Pos()), in.off(im.Path.End()), name+"\"verifnode/simsync\"")
			}
		}
		if af.Name.Name == "main" {
			in.add(in.off(af.Name.Pos()), in.off(af.Name.Pos()), "gt")
		}
		out := append(in.apply(), "\nvar _ = simrt.Y\n"...)
		if err := os.WriteFile(names[af], out, 0666); err != nil {
			return err
		}
	}
	if p.Name == "main" {
		shim := "package gtmain\n\n// SimMain runs the command.\nfunc SimMain() { main() }\n"
		if err := os.WriteFile(filepath.Join(p.Dir, "zz_sim_shim.go"), []byte(shim), 0666); err != nil {
			return err
		}
	}
	return nil
}

// sharedObjects returns the variables which are package level or captured by
// a function literal.
func sharedObjects(af *ast.File, info *types.Info) map[types.Object]bool {
	shared := map[types.Object]bool{}
	var stack []ast.Node
	ast.Inspect(af, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := info.Uses[id].(*types.Var)
		if !ok || v.IsField() {
			return true
		}
		if v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			shared[v] = true
			return true
		}
		for _, s := range stack {
			if fl, ok := s.(*ast.FuncLit); ok && (v.Pos() < fl.Pos() || v.Pos() > fl.End()) {
				shared[v] = true
			}
		}
		return true
	})
	return shared
}

type instr struct {
	fset   *token.FileSet
	info   *types.Info
	src    []byte
	shared map[types.Object]bool
	edits  []edit
}

func (in *instr) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *instr) text(n ast.Node) string { return string(in.src[in.off(n.Pos()):in.off(n.End())]) }

func (in *instr) add(off, end int, s string) {
	in.edits = append(in.edits, edit{off, end, s, len(in.edits)})
}

func (in *instr) visit(n ast.Node) bool {
	switch s := n.(type) {
	case *ast.ForStmt:
		if len(s.Body.List) == 0 {
			in.add(in.off(s.Body.Lbrace)+1, in.off(s.Body.Lbrace)+1, "simrt.Y();")
		}
	case *ast.RangeStmt:
		if len(s.Body.List) == 0 {
			in.add(in.off(s.Body.Lbrace)+1, in.off(s.Body.Lbrace)+1, "simrt.Y();")
		}
	case *ast.BlockStmt:
		in.stmts(s.List)
	case *ast.CaseClause:
		in.stmts(s.Body)
	case *ast.CommClause:
		in.stmts(s.Body)
	case *ast.SwitchStmt:
		// A switch body's block holds clauses only.
		if s.Init != nil {
			ast.Inspect(s.Init, in.visit)
		}
		if s.Tag != nil {
			ast.Inspect(s.Tag, in.visit)
		}
		for _, c := range s.Body.List {
			ast.Inspect(c, in.visit)
		}
		return false
	case *ast.TypeSwitchStmt:
		for _, c := range s.Body.List {
			ast.Inspect(c, in.visit)
		}
		return false
	case *ast.SelectStmt:
		for _, c := range s.Body.List {
			ast.Inspect(c, in.visit)
		}
		return false
	}
	return true
}

func (in *instr) stmts(list []ast.Stmt) {
	for _, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		pre := "simrt.Y();"
		if in.wakes(s) {
			pre += "simrt.F();"
		}
		in.add(in.off(s.Pos()), in.off(s.Pos()), pre)
		if t := in.rmw(s); t != "" {
			in.add(in.off(s.Pos()), in.off(s.End()), t)
		}
	}
}

// wakes reports whether executing the statement's own expressions (not nested
// blocks or function literals) may involve a channel operation.
func (in *instr) wakes(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.SendStmt, *ast.SelectStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.RangeStmt:
			if tv, ok := in.info.Types[x.X]; ok && tv.Type != nil {
				if _, ok := tv.Type.Underlying().(*types.Chan); ok {
					found = true
				}
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" {
				found = true
			}
		}
		return !found
	})
	return found
}

// pure reports whether evaluating e twice, or at a slightly different time,
// has no effect of its own.
func (in *instr) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit, *ast.CompositeLit, *ast.TypeAssertExpr:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		case *ast.CallExpr:
			tv := in.info.Types[x.Fun]
			if tv.IsType() {
				break
			}
			if id, isId := x.Fun.(*ast.Ident); isId && tv.IsBuiltin() && (id.Name == "len" || id.Name == "cap") {
				break
			}
			ok = false
		}
		return ok
	})
	return ok
}

func (in *instr) sharedLHS(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return in.sharedLHS(x.X)
	case *ast.Ident:
		o := in.info.Uses[x]
		return o != nil && in.shared[o]
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		tv := in.info.Types[x]
		return tv.Addressable()
	case *ast.IndexExpr:
		tv := in.info.Types[x.X]
		if tv.Type == nil {
			return false
		}
		if _, isMap := tv.Type.Underlying().(*types.Map); isMap {
			return false
		}
		return in.info.Types[x].Addressable()
	}
	return false
}

var opAssign = map[token.Token]string{
	token.ADD_ASSIGN: "+", token.SUB_ASSIGN: "-", token.MUL_ASSIGN: "*",
	token.QUO_ASSIGN: "/", token.REM_ASSIGN: "%", token.AND_ASSIGN: "&",
	token.OR_ASSIGN: "|", token.XOR_ASSIGN: "^", token.SHL_ASSIGN: "<<",
	token.SHR_ASSIGN: ">>", token.AND_NOT_ASSIGN: "&^",
}

func (in *instr) rmw(s ast.Stmt) string {
	oneLine := func(n ast.Node) bool {
		return in.fset.Position(n.Pos()).Line == in.fset.Position(n.End()).Line
	}
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if !in.sharedLHS(x.X) || !in.pure(x.X) || !oneLine(x) {
			return ""
		}
		l, op := in.text(x.X), "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		return fmt.Sprintf("simrt.Set(&(%s), (%s) %s 1)", l, l, op)
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !oneLine(x) {
			return ""
		}
		lh, rh := x.Lhs[0], x.Rhs[0]
		if !in.sharedLHS(lh) || !in.pure(lh) || !in.pure(rh) {
			return ""
		}
		l, r := in.text(lh), in.text(rh)
		if op, ok := opAssign[x.Tok]; ok {
			return fmt.Sprintf("simrt.Set(&(%s), (%s) %s (%s))", l, l, op, r)
		}
		if x.Tok == token.ASSIGN && l != r && strings.Contains(r, l) {
			tl, tr := in.info.Types[lh].Type, in.info.Types[rh].Type
			if tl != nil && tr != nil && types.Identical(tl, tr) {
				return fmt.Sprintf("simrt.Set(&(%s), %s)", l, r)
			}
		}
	}
	return ""
}

func (in *instr) apply() []byte {
	// Replacements are never nested in each other (their operands hold no
	// blocks), so edits only need ordering by offset; at equal offsets the
	// insertions come first, in the order they were added.
	es := in.edits
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		ii, jj := es[i].end == es[i].off, es[j].end == es[j].off
		if ii != jj {
			return ii
		}
		return es[i].seq < es[j].seq
	})
	var out bytes.Buffer
	at := 0
	for _, e := range es {
		out.Write(in.src[at:e.off])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(in.src[at:])
	return out.Bytes()
}
