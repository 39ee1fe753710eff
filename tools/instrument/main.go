// Command instrument writes copies of the library sources of a tree of
// gostdlib/concurrency with a call to the delay hook zzv.P before every
// statement, and the overlay file that makes "go build -overlay" use them.
//
// The copies keep every line number. Nothing is written in the tree itself.
//
//	instrument -repo /repo -extra /verif/harness/overlay -out DIR
//
// DIR/overlay.json  instrumented copies + virtual packages
// DIR/plain.json    the virtual packages only (fallback if a copy does not build)
// DIR/points.txt    point number, file:line
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hookImport = "github.com/gostdlib/concurrency/zzv"

var skipDirs = map[string]bool{"examples": true, "testing": true, "benchmarks": true, "etoe": true, "tools": true, "zzv": true, "testdata": true}

type ins struct {
	off int
	txt string
}

type instr struct {
	fset   *token.FileSet
	file   *ast.File
	src    []byte
	ins    []ins
	n      *int
	points *[]string
	rel    string
}

func (x *instr) point(pos token.Pos) string {
	id := *x.n
	*x.n++
	p := x.fset.Position(pos)
	*x.points = append(*x.points, fmt.Sprintf("%d %s:%d", id, x.rel, p.Line))
	return fmt.Sprintf("zzv.P(%d); ", id)
}

func (x *instr) at(pos token.Pos, txt string) {
	x.ins = append(x.ins, ins{x.fset.Position(pos).Offset, txt})
}

func (x *instr) list(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.DeferStmt:
			// A deferred hook after the defer runs before the deferred call.
			x.at(s.Pos(), x.point(s.Pos()))
			x.at(s.End(), "; defer "+strings.TrimSuffix(x.point(s.Pos()), "; "))
			continue
		}
		x.at(s.Pos(), x.point(s.Pos()))
	}
}

// end adds a point before the closing brace of a block when that cannot change
// the meaning of the block.
func (x *instr) end(b *ast.BlockStmt) {
	if b == nil || len(b.List) == 0 {
		return
	}
	switch b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt, *ast.BranchStmt, *ast.LabeledStmt:
		return
	}
	x.at(b.Rbrace, "; "+x.point(b.Rbrace))
}

func (x *instr) walk() {
	ast.Inspect(x.file, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.FuncDecl:
			if t.Doc != nil {
				for _, c := range t.Doc.List {
					if strings.HasPrefix(c.Text, "//go:") {
						return false
					}
				}
			}
			if t.Body != nil && (t.Type.Results == nil || len(t.Type.Results.List) == 0) {
				x.end(t.Body)
			}
		case *ast.FuncLit:
			if t.Type.Results == nil || len(t.Type.Results.List) == 0 {
				x.end(t.Body)
			}
		case *ast.ForStmt:
			x.end(t.Body)
		case *ast.RangeStmt:
			x.end(t.Body)
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			var b *ast.BlockStmt
			switch u := n.(type) {
			case *ast.SwitchStmt:
				b = u.Body
			case *ast.TypeSwitchStmt:
				b = u.Body
			case *ast.SelectStmt:
				b = u.Body
			}
			for _, c := range b.List {
				switch c := c.(type) {
				case *ast.CaseClause:
					x.list(c.Body)
				case *ast.CommClause:
					x.list(c.Body)
				}
			}
		case *ast.BlockStmt:
			// The blocks of switches hold clauses only; those were done above.
			if len(t.List) > 0 {
				switch t.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			x.list(t.List)
		}
		return true
	})
}

func main() {
	repo := flag.String("repo", "/repo", "")
	extra := flag.String("extra", "", "directory with virtual files, laid out as in the repository, suffix .txt")
	out := flag.String("out", "", "")
	flag.Parse()
	if err := run(*repo, *extra, *out); err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(1)
	}
}

func run(repo, extra, out string) error {
	overlay := map[string]string{}
	plain := map[string]string{}
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	err := filepath.Walk(extra, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(extra, p)
		dst := filepath.Join(repo, strings.TrimSuffix(rel, ".txt"))
		overlay[dst] = p
		plain[dst] = p
		return nil
	})
	if err != nil {
		return err
	}

	var files []string
	err = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if p != repo && (skipDirs[fi.Name()] || strings.HasPrefix(fi.Name(), ".")) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		return err
	}
	sort.Strings(files)
	n := 1
	var points []string
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			continue // The build will report it.
		}
		rel, _ := filepath.Rel(repo, f)
		x := &instr{fset: fset, file: file, src: src, n: &n, points: &points, rel: rel}
		x.walk()
		if len(x.ins) == 0 {
			continue
		}
		x.at(file.Name.End(), "; import zzv \""+hookImport+"\"")
		sort.SliceStable(x.ins, func(i, j int) bool { return x.ins[i].off < x.ins[j].off })
		var b bytes.Buffer
		last := 0
		for _, in := range x.ins {
			b.Write(src[last:in.off])
			b.WriteString(in.txt)
			last = in.off
		}
		b.Write(src[last:])
		dst := filepath.Join(out, strings.ReplaceAll(rel, "/", "__")+".txt")
		if err := os.WriteFile(dst, b.Bytes(), 0o644); err != nil {
			return err
		}
		overlay[f] = dst
	}
	if err := os.WriteFile(filepath.Join(out, "points.txt"), []byte(strings.Join(points, "\n")+"\n"), 0o644); err != nil {
		return err
	}
	for name, m := range map[string]map[string]string{"overlay.json": overlay, "plain.json": plain} {
		j, _ := json.MarshalIndent(map[string]any{"Replace": m}, "", " ")
		if err := os.WriteFile(filepath.Join(out, name), j, 0o644); err != nil {
			return err
		}
	}
	return nil
}
