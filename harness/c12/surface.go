package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/ts"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
)

// exported lists what a generated file declares, one line per exported name,
// with its type. What the functions do is for the other scenarios to judge.
func exported(file string) (map[string]string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, 0)
	if err != nil {
		return nil, err
	}
	imports := map[string]string{}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		n := filepath.Base(p)
		if i.Name != nil {
			n = i.Name.Name
		}
		imports[n] = p
	}
	show := func(n ast.Node) string {
		// packages by path, whatever they are called here
		ast.Inspect(n, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && imports[id.Name] != "" {
					id.Name = strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(imports[id.Name])
				}
			}
			return true
		})
		var b strings.Builder
		printer.Fprint(&b, token.NewFileSet(), n)
		return strings.Join(strings.Fields(b.String()), " ")
	}
	types := func(fl *ast.FieldList) string {
		if fl == nil {
			return ""
		}
		var s []string
		for _, p := range fl.List {
			n := len(p.Names)
			if n == 0 {
				n = 1
			}
			t := show(p.Type)
			for ; n > 0; n-- {
				s = append(s, t)
			}
		}
		return strings.Join(s, ", ")
	}
	out := map[string]string{"package": f.Name.Name}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if !d.Name.IsExported() {
				continue
			}
			n := d.Name.Name
			if d.Recv != nil {
				n = "(" + types(d.Recv) + ")." + n
			}
			out[n] = "func(" + types(d.Type.Params) + ") (" + types(d.Type.Results) + ")"
		case *ast.GenDecl:
			for _, s := range d.Specs {
				t, ok := s.(*ast.TypeSpec)
				if !ok || !t.Name.IsExported() {
					continue
				}
				st, ok := t.Type.(*ast.StructType)
				if !ok {
					out[t.Name.Name] = show(t.Type)
					continue
				}
				var fields []string
				for _, f := range st.Fields.List {
					if len(f.Names) == 0 {
						fields = append(fields, show(f.Type))
					}
					for _, n := range f.Names {
						if n.IsExported() {
							fields = append(fields, n.Name+" "+show(f.Type))
						}
					}
				}
				sort.Strings(fields)
				out[t.Name.Name] = "struct{" + strings.Join(fields, "; ") + "}"
			}
		}
	}
	return out, nil
}

func generated(dir string) (out []string) {
	for _, p := range []string{"*_router.pb.go", "*_wrap.pb.go"} {
		fs, _ := filepath.Glob(filepath.Join(dir, "pkg/trait/*", p))
		for _, f := range fs {
			r, _ := filepath.Rel(dir, f)
			out = append(out, r)
		}
	}
	sort.Strings(out)
	return
}

// surface compares the checked-in files with what the generators produce now.
func surface(e *hl.E) {
	repo, gen := os.Getenv("VERIF_REPO"), os.Getenv("VERIF_REGEN")
	if repo == "" {
		repo = "/repo"
	}
	if gen == "" {
		return
	}
	if !e.Case(func() string { return "generators" }, func() (string, string) {
		if b, err := os.ReadFile(filepath.Join(gen, "error")); err == nil {
			return "", "generator: " + string(b)
		}
		return "ok", ""
	}) {
		return
	}
	have, want := generated(repo), generated(gen)
	all := map[string]int{}
	for _, f := range have {
		all[f] |= 1
	}
	for _, f := range want {
		all[f] |= 2
	}
	var names []string
	for f := range all {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		if !e.Case(func() string { return f }, func() (string, string) {
			hl.Step(1)
			switch all[f] {
			case 1:
				return "", fmt.Sprintf("files: %s is checked in but not generated", f)
			case 2:
				return "", fmt.Sprintf("files: %s is generated but not checked in", f)
			}
			a, err := exported(filepath.Join(repo, f))
			if err != nil {
				return "", "parse: " + err.Error()
			}
			b, err := exported(filepath.Join(gen, f))
			if err != nil {
				return "", "parse: " + err.Error()
			}
			var keys []string
			for k := range b {
				keys = append(keys, k)
			}
			for k := range a {
				if b[k] == "" {
					keys = append(keys, k)
				}
			}
			sort.Strings(keys)
			for _, k := range keys {
				if a[k] != b[k] {
					return "", fmt.Sprintf("stale: %s in %s is %q, the generator produces %q", k, f, a[k], b[k])
				}
			}
			return fmt.Sprint(len(keys)), ""
		}) {
			return
		}
	}
	// every service of the API has a router
	routed := map[string]bool{}
	for _, s := range ts.Services() {
		routed[s.Desc.ServiceName] = true
	}
	dir := filepath.Dir(traits.File_traits_light_proto.Path())
	var svcs []string
	protoregistry.GlobalFiles.RangeFiles(func(f protoreflect.FileDescriptor) bool {
		for i := 0; i < f.Services().Len() && filepath.Dir(f.Path()) == dir; i++ {
			svcs = append(svcs, string(f.Services().Get(i).FullName()))
		}
		return true
	})
	sort.Strings(svcs)
	for _, s := range svcs {
		if !e.Case(func() string { return s }, func() (string, string) {
			if !routed[s] {
				return "", "services: " + s + " has no router"
			}
			return "ok", ""
		}) {
			return
		}
	}
}
