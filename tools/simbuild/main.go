// simbuild writes the build overlay of the simulation: patched copies of a few
// standard library files (seams), statement-instrumented copies of the
// program's own packages, and the simulator itself as extra files of the
// program's main package. Nothing is written into the repository.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simbuild: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	sim := flag.String("sim", "/verif/sim", "")
	out := flag.String("out", "", "")
	flag.Parse()
	goroot := runtime.GOROOT()
	if v := os.Getenv("SIM_GOROOT"); v != "" {
		goroot = v
	}
	over := map[string]string{}
	must(os.MkdirAll(*out, 0o755))
	put := func(dst string, data []byte) {
		p := filepath.Join(*out, "f", strings.ReplaceAll(strings.TrimPrefix(dst, "/"), "/", "__"))
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		old, err := os.ReadFile(p)
		if err != nil || !bytes.Equal(old, data) {
			must(os.WriteFile(p, data, 0o644))
		}
		over[dst] = p
	}
	for _, p := range patches {
		path := filepath.Join(goroot, "src", p.file)
		b, err := os.ReadFile(path)
		must(err)
		s := string(b)
		for _, e := range p.edits {
			n := e.n
			if n == 0 {
				n = 1
			}
			if c := strings.Count(s, e.find); c != n {
				die("patch of %s: %d occurrences (want %d) of %q", p.file, c, n, e.find)
			}
			s = strings.ReplaceAll(s, e.find, e.repl)
		}
		put(path, []byte(s))
	}
	put(filepath.Join(goroot, "src/runtime/zsim.go"), []byte(runtimeSim))
	put(filepath.Join(goroot, "src/net/http/zsim.go"), []byte(httpSim))

	// The program under test.
	nst := 0
	must(filepath.Walk(filepath.Join(*repo, "pkg"), func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		o, n, err := instrument(path, b)
		if err != nil {
			die("%v", err)
		}
		nst += n
		if n > 0 {
			put(path, o)
		}
		return nil
	}))
	// main(): renamed, so that the simulator can start it once per machine.
	mainDir := filepath.Join(*repo, "cmd/kache")
	ents, err := os.ReadDir(mainDir)
	must(err)
	found := false
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		path := filepath.Join(mainDir, e.Name())
		b, err := os.ReadFile(path)
		must(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, b, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				p := fset.Position(fd.Name.Pos()).Offset
				nb := append([]byte{}, b[:p]...)
				nb = append(nb, "kacheMain"...)
				nb = append(nb, b[p+4:]...)
				put(path, nb)
				found = true
			}
		}
	}
	if !found {
		die("no func main in %s", mainDir)
	}
	sims, err := filepath.Glob(filepath.Join(*sim, "*.go"))
	must(err)
	sort.Strings(sims)
	for _, s := range sims {
		over[filepath.Join(mainDir, "zz_sim_"+filepath.Base(s))] = s
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": over}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644))
	fmt.Printf("%d files replaced or added, %d statements instrumented\n", len(over), nst)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

// instrument inserts a scheduling point before every statement. Text is only
// inserted, on the same line, so positions in panics stay those of the source.
func instrument(path string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Name.Name == "init" && x.Recv == nil {
				return false
			}
		case *ast.SwitchStmt:
			for _, c := range x.Body.List {
				list(c.(*ast.CaseClause).Body)
			}
		case *ast.TypeSwitchStmt:
			for _, c := range x.Body.List {
				list(c.(*ast.CaseClause).Body)
			}
		case *ast.SelectStmt:
			for _, c := range x.Body.List {
				list(c.(*ast.CommClause).Body)
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(x.List)
		}
		return true
	})
	if len(at) == 0 {
		return src, 0, nil
	}
	sort.Ints(at)
	var o bytes.Buffer
	// import, right after the package clause, on the same line
	pk := fset.Position(f.Name.End()).Offset
	o.Write(src[:pk])
	o.WriteString("; import zzsim \"runtime\"")
	last := pk
	for _, a := range at {
		o.Write(src[last:a])
		o.WriteString("zzsim.SimYield(); ")
		last = a
	}
	o.Write(src[last:])
	return o.Bytes(), len(at), nil
}
