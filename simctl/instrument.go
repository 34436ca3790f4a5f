package main

// Source instrumentation. The checked tree (/repo) is copied into the build
// directory and every function body of its library packages gets explicit
// scheduling points, so that the seeded scheduler of the simulated runtime can
// switch goroutines between (and, for map accesses and append updates, inside)
// statements. Nothing is written to /repo. Only the syntax tree is looked at:
// the only name of the code under test that the instrumenter knows is that of the
// constant that switches the obfuscation of the results on, which becomes a
// variable of the process.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

type instrumenter struct {
	fset  *token.FileSet
	used  bool
	sites int
	first int      // the number of the first scheduling point
	where []string // file:line of every scheduling point
}

// simple reports whether e can be evaluated twice with no effect: a chain of
// identifiers, selectors, dereferences and parentheses.
func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name != "_"
	case *ast.SelectorExpr:
		return simple(x.X)
	case *ast.StarExpr:
		return simple(x.X)
	case *ast.ParenExpr:
		return simple(x.X)
	}
	return false
}

func (in *instrumenter) text(n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, in.fset, n)
	return b.String()
}

func (in *instrumenter) call(name string, args ...ast.Expr) *ast.CallExpr {
	in.used = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt__"), Sel: ast.NewIdent(name)}, Args: args}
}

func (in *instrumenter) yield(s ast.Stmt) ast.Stmt {
	n := &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(in.first + in.sites)}
	in.sites++
	in.where = append(in.where, fmt.Sprint(in.fset.Position(s.Pos()).Line))
	return &ast.ExprStmt{X: in.call("Yield", n)}
}

// mapReads collects simple map-like operands X of X[k] inside e (not inside
// function literals).
func mapReads(e ast.Node, out *[]ast.Expr) {
	if e == nil {
		return
	}
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BinaryExpr:
			// the right operand of && and || may not be evaluated
			if x.Op == token.LAND || x.Op == token.LOR {
				mapReads(x.X, out)
				return false
			}
		case *ast.IndexExpr:
			// only operands rooted in a selector or dereference can be shared
			switch x.X.(type) {
			case *ast.SelectorExpr, *ast.StarExpr, *ast.ParenExpr:
				if simple(x.X) {
					*out = append(*out, x.X)
				}
			}
		}
		return true
	})
}

func (in *instrumenter) reads(e ast.Expr) []ast.Stmt {
	var xs []ast.Expr
	mapReads(e, &xs)
	var out []ast.Stmt
	for _, x := range xs {
		out = append(out, &ast.ExprStmt{X: in.call("MapRead", x)})
	}
	return out
}

func (in *instrumenter) stmt(s ast.Stmt) []ast.Stmt {
	var pre []ast.Stmt
	switch x := s.(type) {
	case *ast.AssignStmt:
		for _, r := range x.Rhs {
			pre = append(pre, in.reads(r)...)
		}
		for i, l := range x.Lhs {
			ix, ok := l.(*ast.IndexExpr)
			if ok && simple(ix.X) {
				switch ix.X.(type) {
				case *ast.SelectorExpr, *ast.StarExpr, *ast.ParenExpr:
					pre = append(pre, &ast.ExprStmt{X: in.call("MapWrite", ix.X)})
				}
			}
			// shared update X = append(X, ...): split the read from the write
			if len(x.Lhs) == len(x.Rhs) && x.Tok == token.ASSIGN {
				_, isIdent := l.(*ast.Ident)
				if c, ok := x.Rhs[i].(*ast.CallExpr); ok && !isIdent {
					if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "append" && len(c.Args) > 1 && in.text(c.Args[0]) == in.text(l) {
						x.Rhs[i] = in.call("Split", c)
					}
				}
			}
		}
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "delete" && len(c.Args) == 2 && simple(c.Args[0]) {
				pre = append(pre, &ast.ExprStmt{X: in.call("MapWrite", c.Args[0])})
			}
		}
	case *ast.IfStmt:
		if a, ok := x.Init.(*ast.AssignStmt); ok {
			for _, r := range a.Rhs {
				pre = append(pre, in.reads(r)...)
			}
		} else if x.Init == nil {
			pre = append(pre, in.reads(x.Cond)...)
		}
	case *ast.ReturnStmt:
		for _, r := range x.Results {
			pre = append(pre, in.reads(r)...)
		}
	case *ast.RangeStmt:
		switch x.X.(type) {
		case *ast.SelectorExpr, *ast.StarExpr, *ast.ParenExpr:
			if simple(x.X) {
				pre = append(pre, &ast.ExprStmt{X: in.call("MapRead", x.X)})
			}
		}
	}
	switch s.(type) {
	case *ast.DeclStmt, *ast.EmptyStmt, *ast.LabeledStmt, *ast.BranchStmt:
		return append(pre, s)
	}
	return append([]ast.Stmt{in.yield(s)}, append(pre, s)...)
}

func (in *instrumenter) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, in.stmt(s)...)
	}
	return out
}

// File instruments src. It returns the new source.
// Its scheduling points are numbered from first on; their lines are returned.
func instrumentFile(name string, src []byte, fs bool, first int) ([]byte, []string, error) {
	in := &instrumenter{fset: token.NewFileSet(), first: first}
	f, err := parser.ParseFile(in.fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	// keep only the comments before the package clause (build constraints) and
	// the go: directives; the others would drift
	var keep []*ast.CommentGroup
	for _, g := range f.Comments {
		if g.End() < f.Package {
			keep = append(keep, g)
			continue
		}
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:") {
				return src, nil, nil // leave files with directives as they are
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Name.Name == "init" {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				// the body of a switch or select holds clauses only
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				x.List = in.list(x.List)
			case *ast.CaseClause:
				x.Body = in.list(x.Body)
			case *ast.CommClause:
				x.Body = in.list(x.Body)
			}
			return true
		})
	}
	f.Comments = keep
	variable(f, obfuscationSwitch)
	if fs {
		in.fileSeam(f)
	}
	if in.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("simrt__"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simrtPath)}}
		gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{gd}, f.Decls...)
	}
	var b bytes.Buffer
	if err := format.Node(&b, in.fset, f); err != nil {
		return nil, nil, err
	}
	return b.Bytes(), in.where, nil
}

const obfuscationSwitch = "DIFFPRI"

// variable makes a variable of the named constant of the file, if it has one.
func variable(f *ast.File, name string) {
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.CONST {
			continue
		}
		for i, sp := range g.Specs {
			v, ok := sp.(*ast.ValueSpec)
			if !ok || len(v.Names) != 1 || len(v.Values) != 1 || v.Names[0].Name != name {
				continue
			}
			if len(g.Specs) == 1 {
				g.Tok = token.VAR
				return
			}
			g.Specs = append(g.Specs[:i:i], g.Specs[i+1:]...)
			f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{v}})
			return
		}
	}
}

// switchFile gives the worker a way to set the variable.
func switchFile(found bool) []byte {
	body := "return false"
	if found {
		body = obfuscationSwitch + " = true\n\treturn true"
	}
	return []byte("package libunlynx\n\n// SimObfuscate switches the obfuscation of the results on.\nfunc SimObfuscate() bool {\n\t" + body + "\n}\n")
}

var declaresSwitch = regexp.MustCompile(`(?m)^(?:(?:const|var)\s+|\s+)` + obfuscationSwitch + `\b[^=\n]*=`)

const simrtPath = "github.com/ldsec/unlynx/zzsimrt"

const simrtSrc = `// Package zzsimrt holds the scheduling points the simulator puts in the code.
package zzsimrt

import (
	"reflect"
	"time"
	_ "unsafe"
)

//go:linkname runtimeYield runtime.simYield
func runtimeYield(kind int) int64

// OnViolation is called when two goroutines are inside conflicting accesses of
// one map, which the Go runtime answers with an unrecoverable fatal error.
var OnViolation = func(msg string) { panic(msg) }

func yield(kind int) {
	if d := runtimeYield(kind); d > 0 {
		time.Sleep(time.Duration(d))
	}
}

// Reached tells which scheduling points were reached.
var Reached [1 << 14]bool

// Yield is a scheduling point.
func Yield(n int) {
	if n < len(Reached) {
		Reached[n] = true
	}
	yield(0)
}

// Args returns the arguments of the command that calls.
var Args = func() []string { return nil }

// Split is a scheduling point between the read and the write of an update.
func Split[T any](v T) T {
	yield(1)
	return v
}

var writing = map[uintptr]int{}
var reading = map[uintptr]int{}

func mapPtr(m interface{}) uintptr {
	v := reflect.ValueOf(m)
	if v.Kind() != reflect.Map || v.IsNil() {
		return 0
	}
	return v.Pointer()
}

// MapWrite opens the window in which a map write happens.
func MapWrite(m interface{}) {
	p := mapPtr(m)
	if p == 0 {
		return
	}
	if writing[p] != 0 || reading[p] != 0 {
		OnViolation("fatal error: concurrent map writes")
	}
	writing[p]++
	yield(2)
	writing[p]--
	if writing[p] == 0 {
		delete(writing, p)
	}
}

// MapRead opens the window in which a map read happens.
func MapRead(m interface{}) {
	p := mapPtr(m)
	if p == 0 {
		return
	}
	if writing[p] != 0 {
		OnViolation("fatal error: concurrent map read and map write")
	}
	reading[p]++
	yield(2)
	reading[p]--
	if reading[p] == 0 {
		delete(reading, p)
	}
}
`

// copyTree copies the Go library code of repo to dst, instrumented.
var mainPackage = regexp.MustCompile(`(?m)^package main\b`)
var mainFunc = regexp.MustCompile(`(?m)^func main\(\)`)
var osArgs = regexp.MustCompile(`\bos\.Args\b`)

// command makes a package of a command, so that its clients run inside the
// simulation: every one has arguments of its own.
func command(src []byte) []byte {
	if !mainPackage.Match(src) {
		return src
	}
	s := mainPackage.ReplaceAll(src, []byte("package zzcmd"))
	if osArgs.Match(s) {
		s = append(osArgs.ReplaceAll(s, []byte("zzArgs()")), "\nvar _ = os.ErrNotExist\n"...)
	}
	return s
}

const commandMain = `package zzcmd

import simrt__ "github.com/ldsec/unlynx/zzsimrt"

func zzArgs() []string { return simrt__.Args() }

// ZZMain is what the command runs.
func ZZMain() { main() }
`

func copyTree(repo, dst string, fs bool) (files int, sites []string, err error) {
	if err = os.MkdirAll(dst, 0755); err != nil {
		return
	}
	want := map[string]bool{}
	found := false
	put := func(rel string, data []byte) error {
		want[rel] = true
		p := filepath.Join(dst, rel)
		if old, e := os.ReadFile(p); e == nil && bytes.Equal(old, data) {
			return nil
		}
		if e := os.MkdirAll(filepath.Dir(p), 0755); e != nil {
			return e
		}
		return os.WriteFile(p, data, 0644)
	}
	err = filepath.Walk(repo, func(p string, fi os.FileInfo, e error) error {
		if e != nil {
			return e
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			b := filepath.Base(p)
			if rel != "." && (strings.HasPrefix(b, ".") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if rel == "go.sum" {
			d, e := os.ReadFile(p)
			if e != nil {
				return e
			}
			return put(rel, d)
		}
		if rel == "go.mod" {
			d, e := os.ReadFile(p)
			if e != nil {
				return e
			}
			// generics are needed by Split; every other language rule of the
			// module's own version (per-loop variables) also holds at 1.18
			lines := strings.Split(string(d), "\n")
			for i, l := range lines {
				var maj, min int
				if n, _ := fmt.Sscanf(l, "go %d.%d", &maj, &min); n == 2 && min < 18 {
					lines[i] = "go 1.18"
				}
			}
			return put(rel, []byte(strings.Join(lines, "\n")))
		}
		if !strings.HasSuffix(rel, ".go") || strings.HasSuffix(rel, "_test.go") {
			return nil
		}
		d, e := os.ReadFile(p)
		if e != nil {
			return e
		}
		if strings.HasPrefix(rel, "cmd"+string(filepath.Separator)) {
			d = command(d)
			if mainFunc.Match(d) {
				if e := put(filepath.Join(filepath.Dir(rel), "zz_sim_main.go"), []byte(commandMain)); e != nil {
					return e
				}
			}
		}
		out, lines, e := instrumentFile(p, d, fs, len(sites))
		if e != nil {
			return e
		}
		if filepath.Dir(rel) == "lib" && declaresSwitch.Match(out) {
			found = true
		}
		files++
		for _, l := range lines {
			sites = append(sites, rel+":"+l)
		}
		return put(rel, out)
	})
	if err != nil {
		return
	}
	if err = put("lib/zz_sim.go", switchFile(found)); err != nil {
		return
	}
	if err = put("zzsimrt/rt.go", []byte(simrtSrc)); err != nil {
		return
	}
	if err = put("zzsimrt/fs.go", []byte(simfsSrc)); err != nil {
		return
	}
	// linkname declarations without a body need an assembly file in the package
	if err = put("zzsimrt/empty.s", []byte("// bodies are in the simulated runtime\n")); err != nil {
		return
	}
	// drop what an earlier tree left
	filepath.Walk(dst, func(p string, fi os.FileInfo, e error) error {
		if e == nil && !fi.IsDir() {
			rel, _ := filepath.Rel(dst, p)
			if !want[rel] {
				os.Remove(p)
			}
		}
		return nil
	})
	return
}
