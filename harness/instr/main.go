// Command instr inserts scheduling points before the statements of Go packages
// and writes an overlay file for go build. Line numbers are preserved.
//
// usage: instr OUTDIR OVERLAY.json DIR...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off  int
	text string
}

func main() {
	out, overlayPath, dirs := os.Args[1], os.Args[2], os.Args[3:]
	repl := map[string]string{}
	points := []string{}
	id := 0
	for _, dir := range dirs {
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		check(err)
		sort.Strings(files)
		for _, file := range files {
			base := filepath.Base(file)
			if strings.HasSuffix(base, "_test.go") || strings.HasSuffix(base, ".pb.go") || strings.HasSuffix(base, "_js.go") {
				continue
			}
			src, err := os.ReadFile(file)
			check(err)
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, file, src, parser.ParseComments|parser.SkipObjectResolution)
			check(err)
			var list []ins
			add := func(stmts []ast.Stmt) {
				for _, s := range stmts {
					switch s.(type) {
					case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
						continue
					}
					p := fset.Position(s.Pos())
					if id >= 1<<14-1 {
						continue
					}
					list = append(list, ins{p.Offset, fmt.Sprintf("vhook.P(%d); ", id)})
					points = append(points, fmt.Sprintf("%s:%d", filepath.Join(filepath.Base(dir), base), p.Line))
					id++
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch b := n.(type) {
				case *ast.BlockStmt:
					add(b.List)
				case *ast.CaseClause:
					add(b.Body)
				case *ast.CommClause:
					add(b.Body)
				}
				return true
			})
			if len(list) == 0 {
				continue
			}
			// keeps the import on the line of the package clause
			list = append(list, ins{fset.Position(f.Name.End()).Offset, `; import vhook "verifharness/vhook"`})
			sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
			var sb strings.Builder
			pos := 0
			for _, in := range list {
				sb.Write(src[pos:in.off])
				sb.WriteString(in.text)
				pos = in.off
			}
			sb.Write(src[pos:])
			dst := filepath.Join(out, filepath.Base(dir)+"_"+base)
			check(os.WriteFile(dst, []byte(sb.String()), 0o644))
			repl[file] = dst
		}
	}
	data, err := json.Marshal(map[string]any{"Replace": repl})
	check(err)
	check(os.WriteFile(overlayPath, data, 0o644))
	data, err = json.Marshal(points)
	check(err)
	check(os.WriteFile(filepath.Join(out, "points.json"), data, 0o644))
	fmt.Println(len(points))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}
