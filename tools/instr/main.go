// instr inserts a scheduling point before every statement of the given Go
// files and writes the results to an output directory. Line numbers are kept.
package main

import (
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off  int
	text string
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	os.MkdirAll(out, 0o755)
	res := map[string]string{}
	for _, dir := range os.Args[3:] {
		ents, err := os.ReadDir(filepath.Join(repo, dir))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.HasSuffix(n, ".pb.go") {
				continue
			}
			p := filepath.Join(repo, dir, n)
			src, err := os.ReadFile(p)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			text, err := instrument(p, src)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			h := sha1.Sum([]byte(p))
			dst := filepath.Join(out, fmt.Sprintf("%x_%s", h[:4], n))
			if old, err := os.ReadFile(dst); err != nil || string(old) != text {
				if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(1)
				}
			}
			res[p] = dst
		}
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

func instrument(name string, src []byte) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return "", err
	}
	var list []ins
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	stmts := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			list = append(list, ins{off(s.Pos()), "verifvrt.Y(); "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			// the clauses of switch and select are no statements of their own
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		}
		return true
	})
	if len(list) == 0 {
		return string(src), nil
	}
	list = append(list, ins{off(f.Name.End()), "; import verifvrt \"github.com/smart-core-os/sc-golang/internal/verif/vrt\""})
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var b strings.Builder
	last := 0
	for _, x := range list {
		b.Write(src[last:x.off])
		b.WriteString(x.text)
		last = x.off
	}
	b.Write(src[last:])
	return b.String(), nil
}
