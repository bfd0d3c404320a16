package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/patrickbr/gtfstidy"

type Harness struct {
	Name     string
	Fn       *ssa.Function
	Quick    int
	Thorough int
	Timeout  int // seconds per case, quick
	TTimeout int // thorough
	Main     bool
	MaxIter  int
	SliceU   int
	NoMerge  bool
	Doc      string
}

type Loaded struct {
	P       *Prog
	H       []*Harness
	Overlay map[string]string // virtual path -> real path
	Pkgs    []*packages.Package
	Root    *ssa.Package
	VV      *ssa.Package
	MainPkg *ssa.Package
	GenDir  string // generated files, removed at the end
	ModFile string
}

// overlayFor collects the harness files of one property.
func overlayFor(verif, repo, prop string) (map[string]string, bool, error) {
	ov := map[string]string{}
	vvs, _ := filepath.Glob(filepath.Join(verif, "harness/vv/*.go"))
	for _, f := range vvs {
		ov[filepath.Join(repo, "zz_verif/vv", filepath.Base(f))] = f
	}
	n := 0
	fs, _ := filepath.Glob(filepath.Join(verif, "harness/pkg/*.go"))
	for _, f := range fs {
		b := filepath.Base(f)
		if strings.HasPrefix(b, "common") || strings.HasPrefix(strings.ToUpper(b), prop) {
			ov[filepath.Join(repo, "zz_verif", b)] = f
			if !strings.HasPrefix(b, "common") {
				n++
			}
		}
	}
	main := false
	fs, _ = filepath.Glob(filepath.Join(verif, "harness/main/*.go"))
	for _, f := range fs {
		b := filepath.Base(f)
		if strings.HasPrefix(strings.ToUpper(b), prop) || (strings.HasPrefix(b, "common") && hasMain(verif, prop)) {
			ov[filepath.Join(repo, "zz_verif_"+b)] = f
			if !strings.HasPrefix(b, "common") {
				main = true
				n++
			}
		}
	}
	if n == 0 {
		return nil, false, fmt.Errorf("no harness file for property %s", prop)
	}
	return ov, main, nil
}

func hasMain(verif, prop string) bool {
	fs, _ := filepath.Glob(filepath.Join(verif, "harness/main/*.go"))
	for _, f := range fs {
		if strings.HasPrefix(strings.ToUpper(filepath.Base(f)), prop) {
			return true
		}
	}
	return false
}

func loadAll(verif, repo, prop string) (*Loaded, error) {
	ov, isMain, err := overlayFor(verif, repo, prop)
	if err != nil {
		return nil, err
	}
	gen, mf := "", ""
	if isMain {
		if gen, err = os.MkdirTemp("", "symgogen"); err != nil {
			return nil, err
		}
		var gov map[string]string
		if gov, mf, err = genMain(verif, repo, gen); err != nil {
			os.RemoveAll(gen)
			return nil, err
		}
		for v, r := range gov {
			ov[v] = r
		}
	}
	data := map[string][]byte{}
	for v, r := range ov {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		data[v] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: data}
	if mf != "" {
		cfg.BuildFlags = []string{"-modfile=" + mf}
	}
	pats := []string{modPath + "/zz_verif/vv"}
	if isMain {
		pats = append(pats, modPath)
	} else {
		pats = append(pats, modPath+"/zz_verif")
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree with the harnesses does not compile: %s", strings.Join(errs[:min(len(errs), 6)], "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	l := &Loaded{Overlay: ov, GenDir: gen, ModFile: mf, Pkgs: ps, P: &Prog{prog: prog, infos: map[*ssa.Function]*FnInfo{}}}
	for _, p := range prog.AllPackages() {
		switch p.Pkg.Path() {
		case "errors":
			if o := p.Pkg.Scope().Lookup("errorString"); o != nil {
				l.P.errString = o.Type()
			}
		case modPath + "/zz_verif/vv":
			l.VV = p
		case modPath + "/zz_verif":
			l.Root = p
		case modPath:
			l.MainPkg = p
		}
	}
	hp := l.Root
	if isMain {
		hp = l.MainPkg
	}
	if hp == nil || l.VV == nil {
		return nil, fmt.Errorf("harness package not found")
	}
	for _, p := range ps {
		if p.Types != hp.Pkg {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || fd.Doc == nil {
					continue
				}
				nm := strings.TrimPrefix(fd.Name.Name, "zzVerif")
				if !strings.HasPrefix(nm, prop+"_") {
					continue
				}
				h := &Harness{Name: fd.Name.Name, Main: isMain, Quick: 1, Timeout: 60}
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					if !strings.HasPrefix(t, "vv:cases") {
						h.Doc += strings.TrimSpace(t) + " "
						continue
					}
					for _, kv := range strings.Fields(t)[1:] {
						p := strings.SplitN(kv, "=", 2)
						if len(p) != 2 {
							continue
						}
						n, _ := strconv.Atoi(p[1])
						switch p[0] {
						case "quick":
							h.Quick = n
						case "thorough":
							h.Thorough = n
						case "timeout":
							h.Timeout = n
						case "ttimeout":
							h.TTimeout = n
						case "nomerge":
							h.NoMerge = n != 0
						case "sliceu":
							h.SliceU = n
						case "maxiter":
							h.MaxIter = n
						}
					}
				}
				if h.Thorough < h.Quick {
					h.Thorough = h.Quick
				}
				if h.TTimeout == 0 {
					h.TTimeout = h.Timeout * 6
				}
				h.Fn = hp.Func(fd.Name.Name)
				if h.Fn == nil {
					return nil, fmt.Errorf("harness %s not found", fd.Name.Name)
				}
				l.H = append(l.H, h)
			}
		}
	}
	if len(l.H) == 0 {
		return nil, fmt.Errorf("no harness functions for %s", prop)
	}
	sort.Slice(l.H, func(i, j int) bool { return l.H[i].Name < l.H[j].Name })
	return l, nil
}

func initPkg(p string) bool {
	switch p {
	case "strconv", "math", "math/bits", "unicode/utf8", "strings", "sort", "hash/fnv", "encoding/binary", "container/heap", "errors", "time", "io", "internal/stringslite", "internal/strconv":
		return true
	}
	return strings.HasPrefix(p, "github.com/patrickbr/") || strings.HasPrefix(p, "golang.org/x/exp") || strings.HasPrefix(p, "github.com/paulmach") || p == "github.com/spf13/pflag"
}

func NewEngine(l *Loaded, cfg Config) *Engine {
	f := NewTF()
	e := &Engine{P: l.P, f: f, cfg: cfg, base: newHeap(), globals: map[*ssa.Global]ObjID{}, allocs: map[[2]uint64]ObjID{}, objKeys: map[ObjID][2]uint64{}, inputs: map[string]*InputInfo{}, violLabel: map[string]int{}, asserts: map[string]int{}, covers: map[string]int{}, notes: map[string]int{}, incomplete: map[string]int{}, funcsRun: map[*ssa.Function]int{}, mergeBack: map[[2]int]int{}, unsatMemo: map[string]bool{}, modelsTab: map[string]*ssa.Function{}, consts: map[*ssa.Const]Value{}, decisions: map[string]bool{}}
	e.sol = NewSolver(f, cfg.SolverMs)
	e.debug = os.Getenv("SYMGO_DEBUG") != ""
	if m := l.VV.Func("ModelSortSlice"); m != nil {
		e.modelsTab["sort.Slice"] = m
		e.modelsTab["sort.SliceStable"] = m
	}
	for n, model := range map[string]string{"fmt.Fprint": "ModelFprint", "fmt.Fprintf": "ModelFprintf", "fmt.Fprintln": "ModelFprintln", "errors.Is": "ModelIs"} {
		if m := l.VV.Func(model); m != nil {
			e.modelsTab[n] = m
		}
	}
	e.initBase(l)
	return e
}

// initBase runs the package initializers concretely.
func (e *Engine) initBase(l *Loaded) {
	e.deadline = time.Now().Add(10 * time.Minute)
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if sp := l.P.prog.Package(p); sp != nil {
			order = append(order, sp)
		}
	}
	visit(l.VV.Pkg)
	if l.Root != nil {
		visit(l.Root.Pkg)
	}
	if l.MainPkg != nil {
		visit(l.MainPkg.Pkg)
	}
	st := &State{heap: e.base, owner: new(int)}
	for _, p := range order {
		ok := initPkg(p.Pkg.Path())
		for _, m := range p.Members {
			g, isG := m.(*ssa.Global)
			if !isG {
				continue
			}
			if !ok {
				switch g.String() {
				case "os.Stdout", "os.Stderr", "os.Stdin", "os.Args":
				default:
					continue
				}
			}
			t := g.Type().Underlying().(*types.Pointer).Elem()
			e.nextObj++
			e.globals[g] = e.nextObj
			st.heap.put(&Obj{owner: st.heap.owner, id: e.nextObj, val: e.zero(t), typ: t})
		}
	}
	for _, p := range order {
		if !initPkg(p.Pkg.Path()) {
			continue
		}
		fn := p.Func("init")
		if fn == nil || fn.Blocks == nil {
			continue
		}
		e.runInit(st, p, fn)
	}
	e.base = st.heap
	baseObjMax = e.nextObj
	if os.Getenv("SYMGO_INITLOG") != "" {
		for k, n := range e.notes {
			fmt.Fprintln(os.Stderr, n, k)
		}
	}
	e.baseMax = e.nextObj
	e.instrs, e.trans = 0, 0
	e.funcsRun = map[*ssa.Function]int{}
	e.incomplete = map[string]int{}
}

type poison struct{}

func (e *Engine) runInit(st *State, p *ssa.Package, fn *ssa.Function) {
	g := &Gor{id: 0, owner: st.owner}
	st.gors = []*Gor{g}
	st.cur = 0
	nf := e.newFrame(st, fn, nil, nil)
	g.frames = []*Frame{nf}
	depth := 1
	for steps := 0; steps < 5000000; steps++ {
		g = st.gor()
		if len(g.frames) == 0 || g.status == GDone {
			break
		}
		fr := st.top()
		if len(g.frames) == depth && fr.pc >= len(fr.block.Instrs) {
			break
		}
		// calls of other packages' initializers are done separately
		if len(g.frames) == depth && fr.pc < len(fr.block.Instrs) {
			in := fr.block.Instrs[fr.pc]
			if c, ok := in.(*ssa.Call); ok {
				if f, ok := c.Call.Value.(*ssa.Function); ok && f.Name() == "init" && f.Pkg != p {
					fr.pc++
					continue
				}
			}
			if _, ok := in.(*ssa.Return); ok {
				break
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					st.dead = false
					gg := st.gor()
					gg.panics = nil
					gg.status = GRun
					gg.frames = gg.frames[:depth]
					st.cur = 0
					f := st.top()
					if f.pc < len(f.block.Instrs) {
						if s, ok := f.block.Instrs[f.pc].(*ssa.Store); ok {
							if gl, ok := s.Addr.(*ssa.Global); ok {
								st.heap.mut(e.globals[gl]).val = &NatV{"uninitialized", gl.String()}
							}
						}
						if v, ok := f.block.Instrs[f.pc].(ssa.Value); ok {
							if _, isT := v.Type().(*types.Tuple); !isT {
								f.regs[f.fi.reg[v]] = nil
							}
						}
						f.pc++
					}
					if e.debug {
						e.notes[fmt.Sprintf("init of %s: %v", p.Pkg.Path(), r)]++
					}
				}
			}()
			e.step(st)
			if st.dead {
				panic(engineErr{"init died"})
			}
		}()
	}
	st.dead = false
}
