// Command instr writes a go build overlay in which the given package
// directories carry scheduling points: verifPoint(id) before every statement.
//
// usage: instr OUTDIR PKGDIR...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: instr OUTDIR PKGDIR...")
		os.Exit(2)
	}
	out := os.Args[1]
	overlay := map[string]string{}
	for k, dir := range os.Args[2:] {
		if err := pkg(overlay, 100000*k, filepath.Join(out, fmt.Sprint(k)), dir); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	}
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
}

func pkg(overlay map[string]string, first int, out, dir string) error {
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	name := ""
	id := first
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(dir, filepath.Base(f)); err != nil || !ok {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			return err
		}
		name = af.Name.Name
		tf := fset.File(af.Pos())
		var at []int
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				at = append(at, tf.Offset(s.Pos()))
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				list(b.List)
			case *ast.CaseClause:
				list(b.Body)
			case *ast.CommClause:
				list(b.Body)
			}
			return true
		})
		sort.Ints(at)
		var w strings.Builder
		last := 0
		for _, o := range at {
			w.Write(src[last:o])
			id++
			fmt.Fprintf(&w, "verifPoint(%d);", id)
			last = o
		}
		w.Write(src[last:])
		g := filepath.Join(out, filepath.Base(f))
		if err := os.WriteFile(g, []byte(w.String()), 0o644); err != nil {
			return err
		}
		overlay[f] = g
	}
	if name == "" {
		return fmt.Errorf("no go files in %s", dir)
	}
	g := filepath.Join(out, "verif_point.go")
	src := "package " + name + "\n\n// VerifPoint, if set, is called before every statement.\nvar VerifPoint func(id int)\n\nfunc verifPoint(id int) {\n\tif VerifPoint != nil {\n\t\tVerifPoint(id)\n\t}\n}\n"
	if err := os.WriteFile(g, []byte(src), 0o644); err != nil {
		return err
	}
	overlay[filepath.Join(dir, "verif_point.go")] = g
	return nil
}
