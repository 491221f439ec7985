// schedgen REPO OUT os,sync writes an overlay in which the packages of the module in REPO use
// instrumented versions of the named standard packages.
package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

//go:embed sched.go.tmpl
var schedSrc string

//go:embed sync.go.tmpl
var syncSrc string

//go:embed os.go.tmpl
var osSrc string

const base = "github.com/gkampitakis/go-snaps/internal/zvsched"

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "schedgen:", err)
		os.Exit(1)
	}
}

func main() {
	repo, out, which := os.Args[1], os.Args[2], strings.Split(os.Args[3], ",")
	check(os.MkdirAll(out, 0o777))
	replace := map[string]string{}
	put := func(target, text string) {
		f := filepath.Join(out, fmt.Sprintf("f%d_%s", len(replace), filepath.Base(target)))
		check(os.WriteFile(f, []byte(text), 0o666))
		replace[target] = f
	}
	sched := filepath.Join(repo, "internal", "zvsched")
	put(filepath.Join(sched, "sched.go"), schedSrc)
	put(filepath.Join(sched, "sync", "sync.go"), syncSrc)
	put(filepath.Join(sched, "os", "os.go"), osSrc)
	put(filepath.Join(sched, "os", "re.go"), reexport("os", declared(osSrc)))
	n := 0
	check(filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			name := d.Name()
			if p != repo && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "examples" || name == "images") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, b, parser.ImportsOnly)
		if err != nil {
			return nil // the build will say so
		}
		text := string(b)
		for i := len(f.Imports) - 1; i >= 0; i-- {
			path, _ := strconv.Unquote(f.Imports[i].Path.Value)
			for _, w := range which {
				if path == w {
					at := fset.Position(f.Imports[i].Path.Pos()).Offset
					end := fset.Position(f.Imports[i].Path.End()).Offset
					text = text[:at] + strconv.Quote(base+"/"+w) + text[end:]
				}
			}
		}
		if text != string(b) {
			n++
			put(p, text)
		}
		return nil
	}))
	if n == 0 {
		check(fmt.Errorf("no file of %s imports %v", repo, which))
	}
	j, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o666))
}

func declared(src string) map[string]bool {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
	check(err)
	m := map[string]bool{}
	each(f, func(kind, name string) { m[name] = true })
	return m
}

func each(f *ast.File, do func(kind, name string)) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Type.TypeParams == nil {
				do("func", d.Name.Name)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					if s.TypeParams == nil {
						do("type", s.Name.Name)
					}
				case *ast.ValueSpec:
					for _, n := range s.Names {
						do(d.Tok.String(), n.Name)
					}
				}
			}
		}
	}
}

// reexport is a file with everything package path exports that is not in have.
func reexport(path string, have map[string]bool) string {
	p, err := build.Import(path, "", 0)
	check(err)
	lines := map[string]string{}
	for _, name := range p.GoFiles {
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(p.Dir, name), nil, 0)
		check(err)
		each(f, func(kind, name string) {
			if !ast.IsExported(name) || have[name] {
				return
			}
			if kind == "func" {
				kind = "var"
			}
			lines[name] = fmt.Sprintf("%s %s = real.%s", kind, name, name)
		})
	}
	var l []string
	for _, s := range lines {
		l = append(l, s)
	}
	sort.Strings(l)
	return fmt.Sprintf("// Package %s is %s with switch points.\npackage %s\n\nimport real %q\n\n%s\n", path, path, path, path, strings.Join(l, "\n"))
}
