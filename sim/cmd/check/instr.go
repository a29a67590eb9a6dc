package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// The instrumenter rewrites every non-test source file of the library into a
// scratch directory and hands the copies to the compiler with -overlay; /repo
// itself is only read.  It inserts text only (never reprints), so positions in
// stack traces stay those of the original file.
//
//   - a call of vsched.Y before every statement (yield point, step counter)
//   - sync is replaced by vsync (real locks, waiting is a scheduling decision)
//   - time.Now/Sleep/Since/Until go to the simulated clock
//   - os.OpenFile & co go to the simulated disk, os.Getpid to the simulation
//   - the built-in println and print are silent during a simulation
//   - go statements start simulated tasks

type edit struct {
	off  int
	del  int
	text string
}

var osNames = map[string]bool{"OpenFile": true, "Open": true, "Create": true, "File": true, "Getpid": true, "WriteFile": true,
	"ReadFile": true, "Stat": true, "Lstat": true, "Truncate": true, "Remove": true, "RemoveAll": true, "Rename": true}
var timeNames = map[string]bool{"Now": true, "Sleep": true, "Since": true, "Until": true,
	"After": true, "NewTimer": true, "Timer": true}

type siteInfo struct {
	File string
	Line int
}

var sites []siteInfo

// instrumentTree writes instrumented copies of the library under out and
// returns the overlay map.  Files that do not parse are left alone, so that
// the compiler reports them.
func instrumentTree(repo, out string) (map[string]string, error) {
	overlay := map[string]string{}
	var files []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); p != repo && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	sites = nil
	for _, p := range files {
		src, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		if ok, err := build.Default.MatchFile(filepath.Dir(p), filepath.Base(p)); err != nil || !ok {
			continue
		}
		rel, _ := filepath.Rel(repo, p)
		dst, ok := instrumentFile(rel, src)
		if !ok {
			continue
		}
		q := filepath.Join(out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		if err := os.WriteFile(q, dst, 0o644); err != nil {
			return nil, err
		}
		overlay[p] = q
	}
	return overlay, nil
}

// pureExpr tells whether evaluating e again changes nothing.
func pureExpr(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr:
			ok = false
		}
		return ok
	})
	return ok
}

func instrumentFile(rel string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil || f.Name.Name == "main" {
		return nil, false
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			return nil, false
		}
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	imports := "import _vs \"verifsim/vsched\""
	useY := false
	y := func(p token.Pos) {
		useY = true
		pos := fset.Position(p)
		id := len(sites)
		sites = append(sites, siteInfo{rel, pos.Line})
		edits = append(edits, edit{off: pos.Offset, text: fmt.Sprintf("_vs.Y(%d);", id)})
	}

	// imports
	local := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		name := path[strings.LastIndex(path, "/")+1:]
		if im.Name != nil {
			name = im.Name.Name
		}
		if name == "." || name == "_" {
			continue
		}
		local[name] = path
		if path == "sync" {
			if im.Name == nil {
				edits = append(edits, edit{off(im.Path.Pos()), len(im.Path.Value), `sync "verifsim/vsync"`})
			} else {
				edits = append(edits, edit{off(im.Path.Pos()), len(im.Path.Value), `"verifsim/vsync"`})
			}
		}
	}
	useVT, useVO, usePrint := false, false, false
	tail := ""

	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			y(s.Pos())
			// a channel used as a lock: waiting for it is a decision of the scheduler's
			wait := func() {
				edits = append(edits, edit{off(s.Pos()), 0, "_vs.Try(func() bool {select {case "})
				edits = append(edits, edit{off(s.End()), 0, ": return true; default: return false}})"})
			}
			switch x := s.(type) {
			case *ast.SendStmt:
				if pureExpr(x.Chan) && pureExpr(x.Value) {
					wait()
				}
			case *ast.ExprStmt:
				if u, ok := x.X.(*ast.UnaryExpr); ok && u.Op == token.ARROW && pureExpr(u.X) {
					wait()
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body != nil && len(x.Body.List) == 0 {
				useY = true
				sites = append(sites, siteInfo{rel, fset.Position(x.Body.Lbrace).Line})
				edits = append(edits, edit{off: off(x.Body.Lbrace) + 1, text: fmt.Sprintf("_vs.Y(%d);", len(sites)-1)})
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				useY = true
				sites = append(sites, siteInfo{rel, fset.Position(x.Body.Lbrace).Line})
				edits = append(edits, edit{off: off(x.Body.Lbrace) + 1, text: fmt.Sprintf("_vs.Y(%d);", len(sites)-1)})
			}
		case *ast.GoStmt:
			if len(x.Call.Args) == 0 {
				useY = true
				edits = append(edits, edit{off(x.Pos()), 2, "_vs.Go(func(){"})
				edits = append(edits, edit{off(x.Call.End()), 0, "})"})
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Obj == nil && (id.Name == "println" || id.Name == "print") {
				usePrint = true
				edits = append(edits, edit{off(id.Pos()), len(id.Name), "_vo." + strings.Title(id.Name)})
			}
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			switch local[id.Name] {
			case "time":
				if timeNames[x.Sel.Name] {
					if !useVT {
						useVT = true
						tail += "\nvar _ " + id.Name + ".Duration\n"
					}
					edits = append(edits, edit{off(id.Pos()), len(id.Name), "_vt"})
				}
			case "os":
				if osNames[x.Sel.Name] {
					if !useVO {
						useVO = true
						tail += "\nvar _ " + id.Name + ".FileMode\n"
					}
					edits = append(edits, edit{off(id.Pos()), len(id.Name), "_vo"})
				}
			}
		}
		return true
	})
	imp := ""
	if useY {
		imp += ";" + imports
	}
	if useVT {
		imp += ";import _vt \"verifsim/vtime\""
	}
	if useVO || usePrint {
		imp += ";import _vo \"verifsim/vos\""
	}
	edits = append(edits, edit{off: off(f.Name.End()), text: imp})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b strings.Builder
	last := 0
	for _, e := range edits {
		if e.off < last {
			return nil, false
		}
		b.Write(src[last:e.off])
		b.WriteString(e.text)
		last = e.off + e.del
	}
	b.Write(src[last:])
	b.WriteString(tail)
	return []byte(b.String()), true
}
