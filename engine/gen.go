package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Harnesses of package main run main() itself. What lies outside of it gets hooks: the
// command line parser is a stand-in, reading and writing feeds and parsing GeoJSON can be
// taken over by the harness, and so can the Run methods of the processors; os.Exit
// becomes a panic. Without a hook set, everything does what it did.

type edit struct {
	pos, end int
	text     string
}

func applyEdits(src []byte, es []edit) []byte {
	sort.SliceStable(es, func(i, j int) bool { return es[i].pos > es[j].pos })
	s := string(src)
	for _, e := range es {
		s = s[:e.pos] + e.text + s[e.end:]
	}
	return []byte(s)
}

// hookFuncs inserts hooks at the start of functions: a variable VV<name> with the type
// of the function (the receiver first) is called instead, if set.
func hookFuncs(path string, names map[string]bool, extra string) ([]byte, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, 0)
	if err != nil {
		return nil, err
	}
	var es []edit
	var decl string
	at := func(p token.Pos) int { return fs.Position(p).Offset }
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || !names[fd.Name.Name] || fd.Body == nil {
			continue
		}
		var args, tys []string
		fields := fd.Type.Params.List
		if fd.Recv != nil {
			fields = append(append([]*ast.Field{}, fd.Recv.List...), fields...)
		}
		for _, p := range fields {
			for _, n := range p.Names {
				args = append(args, n.Name)
				tys = append(tys, string(src[at(p.Type.Pos()):at(p.Type.End())]))
			}
		}
		res := ""
		if r := fd.Type.Results; r != nil {
			res = string(src[at(r.Pos()):at(r.End())])
		}
		decl += fmt.Sprintf("\n// VV%s is called instead of %s, if set\nvar VV%s func(%s) %s\n", fd.Name.Name, fd.Name.Name, fd.Name.Name, strings.Join(tys, ", "), res)
		es = append(es, edit{at(fd.Body.Lbrace) + 1, at(fd.Body.Lbrace) + 1, fmt.Sprintf(" if VV%s != nil { return VV%s(%s) }; ", fd.Name.Name, fd.Name.Name, strings.Join(args, ", "))})
	}
	out := applyEdits(src, es)
	return append(out, []byte(decl+extra)...), nil
}

// genMain writes hooked copies of the dependencies and sources into dir and returns the
// overlay entries and the path of the go.mod to use.
func genMain(verif, repo, dir string) (map[string]string, string, error) {
	ov := map[string]string{}
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, "", err
	}
	sum, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	ms := string(mod)
	hooks := []struct {
		path  string
		names map[string]bool
		extra string
	}{
		{"github.com/patrickbr/gtfsparser", map[string]bool{"Parse": true, "PrefixParse": true}, "\n// VVOpts returns the options\nfunc (feed *Feed) VVOpts() ParseOptions { return feed.opts }\n"},
		{"github.com/patrickbr/gtfswriter", map[string]bool{"Write": true}, ""},
		{"github.com/paulmach/go.geojson", map[string]bool{"UnmarshalFeatureCollection": true}, ""},
	}
	for _, h := range hooks {
		cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", h.path)
		cmd.Dir = repo
		b, err := cmd.Output()
		if err != nil {
			return nil, "", fmt.Errorf("go list -m %s: %v", h.path, err)
		}
		src := strings.TrimSpace(string(b))
		dst := filepath.Join(dir, filepath.Base(h.path))
		done := map[string]bool{}
		err = filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(src, p)
			if fi.IsDir() {
				if b := filepath.Base(p); b == "testdata" || b == "testfeeds" || strings.HasPrefix(b, ".git") {
					return filepath.SkipDir
				}
				return os.MkdirAll(filepath.Join(dst, rel), 0o755)
			}
			if b := filepath.Base(p); b != "go.mod" && b != "go.sum" && (!strings.HasSuffix(b, ".go") || strings.HasSuffix(b, "_test.go")) {
				return nil
			}
			var out []byte
			if filepath.Dir(rel) == "." && strings.HasSuffix(rel, ".go") {
				s, _ := os.ReadFile(p)
				any := false
				for n := range h.names {
					any = any || strings.Contains(string(s), " "+n+"(")
				}
				if any {
					x := ""
					if strings.Contains(string(s), "type Feed struct") {
						x = h.extra
					}
					if out, err = hookFuncs(p, h.names, x); err != nil {
						return err
					}
					for n := range h.names {
						if strings.Contains(string(out), "\nvar VV"+n+" ") {
							done[n] = true
						}
					}
				} else {
					out = s
				}
			} else if out, err = os.ReadFile(p); err != nil {
				return err
			}
			return os.WriteFile(filepath.Join(dst, rel), out, 0o644)
		})
		if err != nil {
			return nil, "", err
		}
		if len(done) != len(h.names) {
			return nil, "", fmt.Errorf("functions to hook not found in %s", h.path)
		}
		if _, err := os.Stat(filepath.Join(dst, "go.mod")); err != nil {
			os.WriteFile(filepath.Join(dst, "go.mod"), []byte("module "+h.path+"\n\ngo 1.18\n"), 0o644)
		}
		ms += "\nreplace " + h.path + " => " + dst + "\n"
	}
	ms += "\nreplace github.com/spf13/pflag => " + filepath.Join(verif, "harness/stubs/pflag") + "\n"
	mf := filepath.Join(dir, "vv.mod")
	if err := os.WriteFile(mf, []byte(ms), 0o644); err != nil {
		return nil, "", err
	}
	os.WriteFile(filepath.Join(dir, "vv.sum"), sum, 0o644)

	// Run methods of the processors
	fs, _ := filepath.Glob(filepath.Join(repo, "processors/*.go"))
	for _, p := range fs {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		out, n, err := hookRuns(p)
		if err != nil {
			return nil, "", err
		}
		if n == 0 {
			continue
		}
		g := filepath.Join(dir, "proc_"+filepath.Base(p))
		if err := os.WriteFile(g, out, 0o644); err != nil {
			return nil, "", err
		}
		ov[p] = g
	}
	g := filepath.Join(dir, "proc_zz_hook.go")
	os.WriteFile(g, []byte("package processors\n\nimport \"github.com/patrickbr/gtfsparser\"\n\n// VVRun is called first by all processors; if it returns true, they do nothing else.\nvar VVRun func(p interface{}, feed *gtfsparser.Feed) bool\n"), 0o644)
	ov[filepath.Join(repo, "processors/zz_verif_hook.go")] = g

	// effects on the outside
	outside := map[string]string{"os.Exit": "zzExit", "os.Stat": "zzStat", "os.Lstat": "zzStat", "os.IsNotExist": "zzIsNotExist", "os.Create": "zzCreate",
		"os.Mkdir": "zzMkdir", "os.MkdirAll": "zzMkdir", "os.ReadFile": "zzReadFile", "ioutil.ReadFile": "zzReadFile"}
	fs, _ = filepath.Glob(filepath.Join(repo, "*.go"))
	for _, p := range fs {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil, "", err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			return nil, "", err
		}
		var es []edit
		keep := map[string]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok && outside[x.Name+"."+s.Sel.Name] != "" {
					es = append(es, edit{fset.Position(s.Pos()).Offset, fset.Position(s.End()).Offset, outside[x.Name+"."+s.Sel.Name]})
					keep[x.Name] = true
				}
			}
			return true
		})
		if len(es) == 0 {
			continue
		}
		out := applyEdits(src, es)
		if keep["os"] {
			out = append(out, []byte("\nvar _ = os.Exit\n")...)
		}
		if keep["ioutil"] {
			out = append(out, []byte("\nvar _ = ioutil.ReadFile\n")...)
		}
		g := filepath.Join(dir, "main_"+filepath.Base(p))
		if err := os.WriteFile(g, out, 0o644); err != nil {
			return nil, "", err
		}
		ov[p] = g
	}
	return ov, mf, nil
}

func hookRuns(path string) ([]byte, int, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, 0, err
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, 0)
	if err != nil {
		return nil, 0, err
	}
	at := func(p token.Pos) int { return fs.Position(p).Offset }
	var es []edit
	n := 0
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Name.Name != "Run" || fd.Recv == nil || fd.Body == nil || fd.Type.Params.NumFields() != 1 || fd.Type.Results.NumFields() != 0 {
			continue
		}
		if s, ok := fd.Type.Params.List[0].Type.(*ast.StarExpr); !ok {
			continue
		} else if x, ok := s.X.(*ast.SelectorExpr); !ok || x.Sel.Name != "Feed" {
			continue
		}
		name := func(fl *ast.Field, def string) string {
			if len(fl.Names) == 0 {
				es = append(es, edit{at(fl.Type.Pos()), at(fl.Type.Pos()), def + " "})
				return def
			}
			if fl.Names[0].Name == "_" {
				es = append(es, edit{at(fl.Names[0].Pos()), at(fl.Names[0].End()), def})
				return def
			}
			return fl.Names[0].Name
		}
		r := name(fd.Recv.List[0], "zzr")
		p := name(fd.Type.Params.List[0], "zzf")
		es = append(es, edit{at(fd.Body.Lbrace) + 1, at(fd.Body.Lbrace) + 1, fmt.Sprintf(" if VVRun != nil && VVRun(%s, %s) { return }; ", r, p)})
		n++
	}
	return applyEdits(src, es), n, nil
}
