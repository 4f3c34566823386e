// Command instrument prepares the sources of the library for the scheduler. It
// writes instrumented copies of the files of every package of the library that
// the checker links, and an overlay that puts them in the place of the
// originals. The originals stay as they are.
//
// The copies differ in this: packages sync and sync/atomic are replaced, and
// the initial values of package variables can be restored.
//
// usage: instrument DIR PACKAGE...
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkg struct {
	Dir, ImportPath, Export, Name string
	GoFiles                       []string
	CgoFiles                      []string
	Module                        *struct{ Path string }
}

func fatal(args ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"instrument:"}, args...)...)
	os.Exit(1)
}

var shims = map[string]string{
	"sync":        "verif/shim/xsync",
	"sync/atomic": "verif/shim/xatomic",
}

func main() {
	if len(os.Args) < 3 {
		fatal("usage: instrument DIR PACKAGE...")
	}
	out := os.Args[1]
	cmd := exec.Command("go", append([]string{"list", "-deps", "-export", "-json=Dir,ImportPath,Export,Name,GoFiles,CgoFiles,Module"}, os.Args[2:]...)...)
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	exports := map[string]string{}
	var pkgs []pkg
	var module string
	for dec := json.NewDecoder(bytes.NewReader(data)); ; {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		exports[p.ImportPath] = p.Export
		pkgs = append(pkgs, p)
		if p.ImportPath == os.Args[2] && p.Module != nil {
			module = p.Module.Path
		}
	}
	if module == "" {
		fatal("no module for", os.Args[2])
	}
	overlay := struct{ Replace map[string]string }{map[string]string{}}
	for _, p := range pkgs {
		if p.Module == nil || p.Module.Path != module {
			continue
		}
		if len(p.CgoFiles) > 0 {
			fatal(p.ImportPath, "uses cgo")
		}
		instrument(p, out, exports, overlay.Replace)
	}
	data, _ = json.MarshalIndent(overlay, "", "  ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), data, 0o600); err != nil {
		fatal(err)
	}
}

type edit struct {
	at, end int
	text    string
}

func instrument(p pkg, out string, exports map[string]string, replace map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	src := map[string][]byte{}
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		b, err := os.ReadFile(path)
		if err != nil {
			fatal(err)
		}
		f, err := parser.ParseFile(fset, path, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatal(err)
		}
		src[path] = b
		files = append(files, f)
	}
	info := &types.Info{
		Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{},
	}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
		Error: func(err error) {},
	}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatal(p.ImportPath, err)
	}
	edits := map[string][]edit{}
	add := func(pos, end token.Pos, text string) {
		f := fset.Position(pos)
		edits[f.Filename] = append(edits[f.Filename], edit{f.Offset, fset.Position(end).Offset, text})
	}
	text := func(n ast.Node) string {
		a, b := fset.Position(n.Pos()), fset.Position(n.End())
		return string(src[a.Filename][a.Offset:b.Offset])
	}
	tail := map[string]string{}
	var unmodelled []string
	var inits []string
	id := strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(p.ImportPath)
	var zeroOrder []string
	nreset := 0

	for _, f := range files {
		path := fset.Position(f.Pos()).Filename
		for _, im := range f.Imports {
			ip := strings.Trim(im.Path.Value, "`\"")
			if shim, ok := shims[ip]; ok {
				if im.Name == nil {
					add(im.Pos(), im.Pos(), filepath.Base(ip)+" ")
				}
				add(im.Path.Pos(), im.Path.End(), fmt.Sprintf("%q", shim))
			}
			if ip == "context" || ip == "os/signal" || ip == "net" || strings.HasPrefix(ip, "golang.org/x/sync") {
				unmodelled = append(unmodelled, fmt.Sprintf("%s imports %s", filepath.Base(path), ip))
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			what := ""
			switch n := n.(type) {
			case *ast.GoStmt:
				what = "go statement"
			case *ast.SelectStmt:
				what = "select statement"
			case *ast.SendStmt:
				what = "send statement"
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					what = "receive operation"
				}
			}
			if what != "" {
				unmodelled = append(unmodelled, fmt.Sprintf("%s at %s", what, fset.Position(n.Pos())))
			}
			return true
		})
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
					name := fmt.Sprintf("verifInit_%d", len(inits))
					inits = append(inits, name)
					add(d.Name.Pos(), d.Name.End(), name)
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					s := s.(*ast.ValueSpec)
					if len(s.Values) > 0 || s.Type == nil {
						continue
					}
					for _, n := range s.Names {
						if n.Name == "_" {
							continue
						}
						fn := fmt.Sprintf("verifReset_%d", nreset)
						nreset++
						tail[path] += fmt.Sprintf("\nfunc %s() { var verifZ %s; %s = verifZ }\n", fn, text(s.Type), n.Name)
						zeroOrder = append(zeroOrder, fn)
					}
				}
			}
		}
	}
	var order []string
	order = append(order, zeroOrder...)
	for _, in := range info.InitOrder {
		path := fset.Position(in.Rhs.Pos()).Filename
		var names []string
		all := true
		for _, v := range in.Lhs {
			names = append(names, v.Name())
			if v.Name() != "_" {
				all = false
			}
		}
		if all {
			continue
		}
		fn := fmt.Sprintf("verifReset_%d", nreset)
		nreset++
		tail[path] += fmt.Sprintf("\nfunc %s() { %s = %s }\n", fn, strings.Join(names, ", "), text(in.Rhs))
		order = append(order, fn)
	}
	order = append(order, inits...)

	// The scheduler cannot follow goroutines and channels of the library: then
	// the library keeps its own synchronisation.
	if len(unmodelled) > 0 {
		for path, es := range edits {
			var keep []edit
			for _, e := range es {
				if !strings.Contains(e.text, "verif/shim") && e.text != "sync " && e.text != "atomic " {
					keep = append(keep, e)
				}
			}
			edits[path] = keep
		}
	}

	for path, b := range src {
		es := edits[path]
		if len(es) == 0 && tail[path] == "" {
			continue
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].at < es[j].at })
		var o bytes.Buffer
		fmt.Fprintf(&o, "//line %s:1\n", path)
		last := 0
		for _, e := range es {
			o.Write(b[last:e.at])
			o.WriteString(e.text)
			last = e.end
		}
		o.Write(b[last:])
		o.WriteString(tail[path])
		dst := filepath.Join(out, id+"_"+filepath.Base(path))
		if err := os.WriteFile(dst, o.Bytes(), 0o600); err != nil {
			fatal(err)
		}
		replace[path] = dst
	}
	var o bytes.Buffer
	fmt.Fprintf(&o, "package %s\n\nimport verifsched \"verif/shim/sched\"\n\nfunc init() {\n", tp.Name())
	for _, n := range inits {
		fmt.Fprintf(&o, "\t%s()\n", n)
	}
	fmt.Fprintf(&o, "\tverifsched.Instrumented = true\n")
	for _, u := range unmodelled {
		fmt.Fprintf(&o, "\tverifsched.Unmodelled = append(verifsched.Unmodelled, %q)\n", u)
	}
	fmt.Fprintf(&o, "\tverifsched.OnReset(func() {\n")
	for _, n := range order {
		fmt.Fprintf(&o, "\t\t%s()\n", n)
	}
	fmt.Fprintf(&o, "\t})\n}\n")
	dst := filepath.Join(out, id+"_zz_verif_reset.go")
	if err := os.WriteFile(dst, o.Bytes(), 0o600); err != nil {
		fatal(err)
	}
	replace[filepath.Join(p.Dir, "zz_verif_reset.go")] = dst
}
