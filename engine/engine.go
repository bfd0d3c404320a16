package main

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type InputInfo struct {
	name string
	kind string // bool int str f32 f64 pick
	t    *Term  // selector / value variable
	lo   int64
	n    int
	menu []Value
}

type Violation struct {
	Label  string
	Msg    string
	Pos    string
	Inputs map[string]int64
	Kind   string // assert, panic, deadlock
}

type Engine struct {
	P   *Prog
	f   *TermFactory
	sol *Solver
	cfg Config

	base    *Heap
	globals map[*ssa.Global]ObjID
	nextObj ObjID
	allocs  map[[2]uint64]ObjID
	objKeys map[ObjID][2]uint64

	inputs   map[string]*InputInfo
	inputSeq []string

	pq      stateQ
	models  []*Model
	stateID int

	violations []*Violation
	violLabel  map[string]int
	asserts    map[string]int
	covers     map[string]int
	observes   []ObsRecord
	notes      map[string]int
	incomplete map[string]int

	funcsRun map[*ssa.Function]int
	instrs   int64
	paths    int
	deadP    int
	forks    int
	merges   int
	mergeF   int
	trans    int64
	maxPQ    int
	hashes   []hashReg
	hashSeq  uint64

	deadline   time.Time
	ticks      int
	mergeBack  map[[2]int]int
	unsatMemo  map[string]bool
	harnessPkg *ssa.Package
	modelsTab  map[string]*ssa.Function
	consts     map[*ssa.Const]Value
	debug      bool
	assertStop bool
	baseMax    ObjID
	decisions  map[string]bool
}

type Config struct {
	Tier     int
	Seed     int
	SolverMs int
	Deadline time.Duration
	MaxIter  int
	MapOrder int
	NumCPU   int
	Race     bool
	NoMerge  bool
	NObs     int
	SliceU   int
	Stop     *atomic.Bool     // set when a violation has been confirmed natively
	OnViol   func(*Violation) // called as soon as a violation is found
}

type ObsRecord struct {
	inputs map[string]int64
	obs    []ObsVal
	job    string
}
type ObsVal struct {
	Name string
	Val  string
}

type PC struct {
	parent *PC
	t      *Term
	n      int
	list   []*Term
}

func (p *PC) terms() []*Term {
	if p == nil {
		return nil
	}
	if p.list == nil {
		var l []*Term
		if p.parent != nil {
			pl := p.parent.terms()
			l = append(make([]*Term, 0, len(pl)+1), pl...)
		}
		p.list = append(l, p.t)
	}
	return p.list
}

type deferred struct {
	fn   Value
	args []Value
	inv  *ssa.CallCommon
}

type Frame struct {
	owner     *int
	fi        *FnInfo
	block     *ssa.BasicBlock
	pc        int
	regs      []Value
	iters     []int32
	defers    []deferred
	hash      [2]uint64 // hash of the position of the outer frames
	isDefer   bool      // this frame runs a deferred call
	unwind    bool      // frame is unwinding (panic in progress below)
	recovered bool
	onRet     string    // special continuation
	call      ssa.Value // destination in caller
	adv       bool      // the caller resumes after its call instruction
}

type PanicInfo struct {
	val       Value
	msg       string
	isExit    bool
	code      *Term
	recovered bool
	pos       string
}

const (
	GRun = iota
	GBlocked
	GDone
)

type Gor struct {
	id         int
	frames     []*Frame
	status     int
	panics     []*PanicInfo
	owner      *int
	vc         []int
	deferDepth int
}

type State struct {
	id       int
	owner    *int
	heap     *Heap
	pc       *PC
	model    *Model
	gors     []*Gor
	cur      int
	sw       int
	dead     bool
	hold     bool // has to take one step before it may merge
	obs      []obsTerm
	race     *raceState
	mapOrder int
	sched    int
	numCPU   *Term
	steps    int64
	trace    []string
	locks    map[Ptr]int
	split    string // states with different splits never merge
}

type obsTerm struct {
	name string
	v    Value
}

func (st *State) gor() *Gor {
	g := st.gors[st.cur]
	if g.owner != st.owner {
		n := *g
		n.owner = st.owner
		n.frames = append([]*Frame(nil), g.frames...)
		n.vc = append([]int(nil), g.vc...)
		n.panics = append([]*PanicInfo(nil), g.panics...)
		st.gors[st.cur] = &n
		return &n
	}
	return g
}

func (st *State) top() *Frame {
	g := st.gor()
	k := len(g.frames) - 1
	fr := g.frames[k]
	if fr.owner != st.owner {
		n := *fr
		n.owner = st.owner
		n.regs = append([]Value(nil), fr.regs...)
		n.defers = append([]deferred(nil), fr.defers...)
		g.frames[k] = &n
		return &n
	}
	return fr
}

func (st *State) fork(e *Engine) *State {
	n := *st
	e.stateID++
	e.forks++
	n.id = e.stateID
	n.owner = new(int)
	st.owner = new(int)
	n.heap = st.heap.fork()
	n.gors = append([]*Gor(nil), st.gors...)
	n.obs = append([]obsTerm(nil), st.obs...)
	n.trace = append([]string(nil), st.trace...)
	if st.race != nil {
		n.race = st.race.clone()
	}
	return &n
}

func (st *State) assume(t *Term) {
	if t.op == OConst && t.c != 0 {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			st.assume1(a)
		}
		return
	}
	st.assume1(t)
}
func (st *State) assume1(t *Term) {
	if st.model != nil && st.model.Eval(t) == 0 {
		st.model = nil
	}
	for p := st.pc; p != nil; p = p.parent {
		if p.t == t {
			return
		}
	}
	n := 1
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &PC{parent: st.pc, t: t, n: n}
}

// ---- position keys

func (fr *Frame) path() []int32 { return fr.fi.paths[fr.block.Index] }

func cmpFrame(a, b *Frame) int {
	if a == b {
		return 0
	}
	if a.fi != b.fi {
		if a.fi.id < b.fi.id {
			return -1
		}
		return 1
	}
	pa, pb := a.path(), b.path()
	for l := 0; ; l++ {
		if l >= len(pa) || l >= len(pb) {
			break
		}
		if pa[l] != pb[l] {
			if pa[l] < pb[l] {
				return -1
			}
			return 1
		}
		if l < len(a.iters) && l < len(b.iters) {
			if a.iters[l] != b.iters[l] {
				if a.iters[l] < b.iters[l] {
					return -1
				}
				return 1
			}
		}
	}
	if a.pc != b.pc {
		if a.pc < b.pc {
			return -1
		}
		return 1
	}
	return 0
}

func cmpState(a, b *State) int {
	if a.split != b.split {
		if a.split < b.split {
			return -1
		}
		return 1
	}
	if a.sw != b.sw {
		if a.sw < b.sw {
			return -1
		}
		return 1
	}
	if a.cur != b.cur {
		if a.cur < b.cur {
			return -1
		}
		return 1
	}
	fa, fb := a.gors[a.cur].frames, b.gors[b.cur].frames
	for i := 0; i < len(fa) && i < len(fb); i++ {
		if c := cmpFrame(fa[i], fb[i]); c != 0 {
			return c
		}
	}
	if len(fa) != len(fb) {
		// deeper first
		if len(fa) > len(fb) {
			return -1
		}
		return 1
	}
	return 0
}

type stateQ []*State

func (q stateQ) Len() int { return len(q) }
func (q stateQ) Less(i, j int) bool {
	c := cmpState(q[i], q[j])
	if c != 0 {
		return c < 0
	}
	return q[i].id < q[j].id
}
func (q stateQ) Swap(i, j int)       { q[i], q[j] = q[j], q[i] }
func (q *stateQ) Push(x interface{}) { *q = append(*q, x.(*State)) }
func (q *stateQ) Pop() interface{} {
	o := *q
	n := len(o)
	x := o[n-1]
	*q = o[:n-1]
	return x
}

func (e *Engine) push(st *State) {
	heap.Push(&e.pq, st)
	if len(e.pq) > e.maxPQ {
		e.maxPQ = len(e.pq)
	}
}

func mix(h [2]uint64, v uint64) [2]uint64 {
	h[0] ^= v + 0x9e3779b97f4a7c15 + (h[0] << 6) + (h[0] >> 2)
	h[0] *= 0xff51afd7ed558ccd
	h[0] ^= h[0] >> 32
	h[1] = (h[1] ^ v) * 0x100000001b3
	h[1] ^= h[1] >> 29
	h[1] *= 0xc4ceb9fe1a85ec53
	return h
}

func (fr *Frame) posHash() [2]uint64 {
	h := fr.hash
	h = mix(h, uint64(fr.fi.id))
	h = mix(h, uint64(fr.block.Index)<<20|uint64(fr.pc))
	for _, i := range fr.iters {
		h = mix(h, uint64(i))
	}
	return h
}

// alloc creates an object whose identity is a function of the current position
func (e *Engine) alloc(st *State, sub int, val Value, typ types.Type) ObjID {
	fr := st.gors[st.cur].frames[len(st.gors[st.cur].frames)-1]
	h := mix(fr.posHash(), uint64(sub)+7)
	id, ok := e.allocs[h]
	if !ok {
		e.nextObj++
		id = e.nextObj
		e.allocs[h] = id
	}
	st.heap.put(&Obj{owner: st.heap.owner, id: id, val: val, typ: typ})
	return id
}

func (e *Engine) note(format string, args ...interface{}) {
	e.notes[fmt.Sprintf(format, args...)]++
}

// ---- feasibility

func (e *Engine) modelSat(m *Model, pc []*Term, extra *Term) bool {
	if m == nil {
		return false
	}
	if m.Eval(extra) == 0 {
		return false
	}
	for i := len(pc) - 1; i >= 0; i-- {
		if m.Eval(pc[i]) == 0 {
			return false
		}
	}
	return true
}

// feasible: is pc & c satisfiable? Returns a model when sat.
func (e *Engine) feasible(st *State, c *Term) (SatResult, *Model) {
	if c == e.f.tt {
		if st.model == nil {
			st.model = st.modelOr(e)
		}
		return Sat, st.model
	}
	if c == e.f.ff {
		return Unsat, nil
	}
	if st.model != nil && st.model.Eval(c) != 0 {
		return Sat, st.model
	}
	nc := e.f.Not(c)
	for p := st.pc; p != nil; p = p.parent {
		if p.t == nc {
			return Unsat, nil
		}
		if excl(p.t, c) {
			return Unsat, nil
		}
	}
	pc := st.pc.terms()
	for i := len(e.models) - 1; i >= 0; i-- {
		if e.modelSat(e.models[i], pc, c) {
			return Sat, e.models[i]
		}
	}
	t0 := time.Now()
	r, m := e.sol.Check(pc, c)
	if qprof != nil {
		w := e.where(st)
		if i := strings.Index(w, " < "); i > 0 {
			w = w[:i]
		}
		q := qprof[w]
		if q == nil {
			q = &[3]float64{}
			qprof[w] = q
		}
		q[0] += time.Since(t0).Seconds()
		q[1]++
	}
	if r == Sat {
		e.addModel(m)
	}
	if r == Unknown {
		e.incomplete["solver unknown"]++
	}
	return r, m
}

func (e *Engine) addModel(m *Model) {
	e.models = append(e.models, m)
	if len(e.models) > 48 {
		e.models = append([]*Model(nil), e.models[16:]...)
	}
}

// ---- constants, zero values

func (e *Engine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.String || u.Kind() == types.UntypedString {
			return ""
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		s, ok := basicSort(u)
		if !ok {
			panic(engineErr{"zero of " + t.String()})
		}
		return e.f.Const(0, s)
	case *types.Pointer:
		return Ptr{}
	case *types.Struct:
		n := &StructV{f: make([]Value, u.NumFields())}
		for i := range n.f {
			n.f[i] = e.zero(u.Field(i).Type())
		}
		return n
	case *types.Array:
		if u.Len() > 1<<22 {
			panic(engineErr{"huge array"})
		}
		n := &ArrayV{e: make([]Value, u.Len())}
		for i := range n.e {
			n.e[i] = e.zero(u.Elem())
		}
		return n
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return &FuncV{nilf: true}
	case *types.Tuple:
		n := make(TupleV, u.Len())
		for i := range n {
			n[i] = e.zero(u.At(i).Type())
		}
		return n
	}
	panic(engineErr{"zero of " + t.String()})
}

func (e *Engine) constVal(c *ssa.Const) Value {
	if v, ok := e.consts[c]; ok {
		return v
	}
	v := e.constVal1(c)
	switch v.(type) {
	case *StructV, *ArrayV:
		return v
	}
	e.consts[c] = v
	return v
}

func (e *Engine) constVal1(c *ssa.Const) Value {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		panic(engineErr{"const of type " + c.Type().String()})
	}
	if b.Info()&types.IsString != 0 {
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
	}
	s, ok := basicSort(b)
	if !ok {
		panic(engineErr{"const of type " + c.Type().String()})
	}
	switch s.k {
	case KBool:
		return e.f.Bool(constant.BoolVal(c.Value))
	case KBV:
		if b.Info()&types.IsUnsigned != 0 {
			return e.f.BV(c.Uint64(), int(s.w))
		}
		return e.f.BV(uint64(c.Int64()), int(s.w))
	}
	if s.w == 32 {
		f32, _ := constant.Float32Val(c.Value)
		return e.f.F32(f32)
	}
	return e.f.F64(c.Float64())
}

func (e *Engine) get(fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		id, ok := e.globals[x]
		if !ok {
			panic(engineErr{"unknown global " + x.String()})
		}
		return Ptr{obj: id}
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{builtin: x.Name()}
	}
	r, ok := fr.fi.reg[v]
	if !ok {
		panic(engineErr{"no register for " + v.Name()})
	}
	val := fr.regs[r]
	if val == nil {
		panic(engineErr{fmt.Sprintf("undefined register %s in %s", v.Name(), fr.fi.fn)})
	}
	return val
}

func (e *Engine) set(fr *Frame, v ssa.Value, val Value) {
	fr.regs[fr.fi.reg[v]] = val
}

// ---- loads and stores

func (e *Engine) nav(v Value, path string) Value {
	for i := 0; i < len(path)/4; i++ {
		k := pathIdx(path, i)
		switch x := v.(type) {
		case *StructV:
			v = x.f[k]
		case *ArrayV:
			if k >= len(x.e) {
				panic(engineErr{"nav out of range"})
			}
			v = x.e[k]
		default:
			panic(engineErr{fmt.Sprintf("nav into %T", v)})
		}
	}
	return v
}

func (e *Engine) loadRaw(st *State, p Ptr) Value {
	o := st.heap.get(p.obj)
	if o == nil {
		panic(engineErr{fmt.Sprintf("load from unknown object %d", p.obj)})
	}
	if st.race != nil {
		e.raceAccess(st, p, false)
	}
	return e.nav(o.val, p.path)
}

func (e *Engine) storeRaw(st *State, p Ptr, v Value) {
	if st.race != nil {
		e.raceAccess(st, p, true)
	}
	o := st.heap.mut(p.obj)
	v = copyVal(v)
	if p.path == "" {
		o.val = v
		return
	}
	c := e.nav(o.val, pathParent(p.path))
	k := pathLast(p.path)
	switch x := c.(type) {
	case *StructV:
		x.f[k] = v
	case *ArrayV:
		x.e[k] = v
	default:
		panic(engineErr{fmt.Sprintf("store into %T", c)})
	}
}

// ---- exploration

type pathKill struct{ why string }

func (e *Engine) stopped() bool { return e.cfg.Stop != nil && e.cfg.Stop.Load() }

func (e *Engine) explore(init *State) {
	e.push(init)
	for len(e.pq) > 0 {
		if e.stopped() {
			e.incomplete["stopped: a violation was confirmed"] += len(e.pq)
			e.pq = nil
			return
		}
		if time.Now().After(e.deadline) {
			e.incomplete["time budget"] += len(e.pq)
			e.pq = nil
			return
		}
		st := heap.Pop(&e.pq).(*State)
		if st.dead {
			continue
		}
		if !e.cfg.NoMerge && st.race == nil {
			// merge with states at the same position
			var same []*State
			for len(e.pq) > 0 && cmpState(e.pq[0], st) == 0 {
				same = append(same, heap.Pop(&e.pq).(*State))
			}
			if len(same) > 0 {
				all := append([]*State{st}, same...)
				all = e.mergeAll(all)
				st = all[0]
				for _, s := range all[1:] {
					e.push(s)
				}
			}
		}
		e.run(st)
	}
}

func (e *Engine) mergeAll(all []*State) []*State {
	var out []*State
	for _, s := range all {
		merged := false
		for i, o := range out {
			if o.hold || s.hold {
				continue
			}
			k := [2]int{o.id, s.id}
			if c := e.mergeBack[k]; c > 0 {
				if c&0xffff > 0 {
					e.mergeBack[k] = c - 1
					continue
				}
			}
			if m := e.tryMerge(o, s); m != nil {
				out[i] = m
				e.merges++
				merged = true
				break
			}
			e.mergeF++
			n := e.mergeBack[k] >> 16
			if n == 0 {
				n = 1
			} else if n < 64 {
				n *= 2
			}
			e.mergeBack[k] = n<<16 | n
		}
		if !merged {
			out = append(out, s)
		}
	}
	return out
}

// run executes st until it ends, forks away or is no longer the earliest state.
func (e *Engine) run(st *State) {
	for {
		if st.dead {
			return
		}
		sched := e.stepSafe(st)
		if st.dead {
			return
		}
		if sched && len(e.pq) > 0 {
			if cmpState(st, e.pq[0]) >= 0 {
				e.push(st)
				return
			}
		}
		if e.ticks++; e.ticks&0x1fff == 0 && (e.stopped() || time.Now().After(e.deadline)) {
			e.push(st)
			return
		}
	}
}

func (e *Engine) kill(st *State, why string) {
	st.dead = true
	if why != "" {
		e.incomplete[why]++
	}
}

func (e *Engine) stepSafe(st *State) (sched bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case engineErr:
				e.unsupported(st, x.msg)
			case mergeFail:
				e.unsupported(st, "merge: "+x.why)
			case pathKill:
				e.kill(st, x.why)
			default:
				if e.debug {
					fmt.Fprintln(os.Stderr, "ENGINE PANIC at", e.where(st))
					panic(r)
				}
				e.unsupported(st, fmt.Sprintf("internal: %v", r))
			}
			sched = true
		}
	}()
	// tight inner loop
	for i := 0; i < 256; i++ {
		if e.step(st) {
			return true
		}
		if st.dead {
			return true
		}
	}
	return false
}

func (e *Engine) unsupported(st *State, msg string) {
	w := e.where(st)
	if e.debug {
		fmt.Fprintln(os.Stderr, "UNSUPPORTED:", msg, "at", w)
	}
	e.kill(st, "unsupported: "+msg+" at "+w)
}

func (e *Engine) where(st *State) string {
	g := st.gors[st.cur]
	var p []string
	for i := len(g.frames) - 1; i >= 0 && i >= len(g.frames)-6; i-- {
		fr := g.frames[i]
		s := fr.fi.fn.String()
		if fr.pc < len(fr.block.Instrs) {
			for k := fr.pc; k >= 0; k-- {
				if ps := fr.block.Instrs[k].Pos(); ps.IsValid() {
					pos := e.P.prog.Fset.Position(ps)
					f := pos.Filename
					if j := strings.LastIndex(f, "/"); j >= 0 {
						f = f[j+1:]
					}
					s += fmt.Sprintf(" (%s:%d)", f, pos.Line)
					break
				}
			}
		}
		p = append(p, s)
	}
	return strings.Join(p, " < ")
}

// ---- state merging

func (e *Engine) tryMerge(a, b *State) (res *State) {
	defer func() {
		if r := recover(); r != nil {
			if mf, ok := r.(mergeFail); ok {
				if e.debug && os.Getenv("SYMGO_MERGELOG") != "" {
					fmt.Fprintln(os.Stderr, "merge fail:", mf.why, e.where(a))
				}
				res = nil
				return
			}
			panic(r)
		}
	}()
	if len(a.gors) != len(b.gors) || a.cur != b.cur || a.mapOrder != b.mapOrder || a.sched != b.sched || a.numCPU != b.numCPU || len(a.obs) != len(b.obs) {
		return nil
	}
	// path conditions
	ta, tb := a.pc.terms(), b.pc.terms()
	k := 0
	for k < len(ta) && k < len(tb) && ta[k] == tb[k] {
		k++
	}
	ra, rb := ta[k:], tb[k:]
	if len(ra) == 0 || len(rb) == 0 {
		return nil
	}
	// drop conjuncts common to both
	inB := map[*Term]bool{}
	for _, t := range rb {
		inB[t] = true
	}
	var common, ua, ub []*Term
	inC := map[*Term]bool{}
	for _, t := range ra {
		if inB[t] {
			common = append(common, t)
			inC[t] = true
		} else {
			ua = append(ua, t)
		}
	}
	for _, t := range rb {
		if !inC[t] {
			ub = append(ub, t)
		}
	}
	if len(ua) == 0 || len(ub) == 0 {
		// one subsumes the other: no discriminating guard
		return nil
	}
	f := e.f
	ga, gb := f.And(ua...), f.And(ub...)
	g := ga
	// a single complementary pair makes the simplest guard
	for _, x := range ua {
		nx := f.Not(x)
		hit := false
		for _, y := range ub {
			if y == nx {
				g = x
				hit = true
				break
			}
		}
		if hit {
			break
		}
	}
	disj := f.Or(ga, gb)

	for i := range a.gors {
		ga, gb := a.gors[i], b.gors[i]
		if ga == gb {
			continue
		}
		if ga.status != gb.status || len(ga.frames) != len(gb.frames) || len(ga.panics) != len(gb.panics) {
			return nil
		}
		for j := range ga.panics {
			if ga.panics[j] != gb.panics[j] {
				return nil
			}
		}
		for j := range ga.frames {
			x, y := ga.frames[j], gb.frames[j]
			if x == y {
				continue
			}
			if cmpFrame(x, y) != 0 || x.isDefer != y.isDefer || x.unwind != y.unwind || len(x.defers) != len(y.defers) || x.onRet != y.onRet || x.adv != y.adv {
				return nil
			}
			for d := range x.defers {
				if !sameVal(x.defers[d].fn, y.defers[d].fn) || len(x.defers[d].args) != len(y.defers[d].args) {
					return nil
				}
				for q := range x.defers[d].args {
					if !sameVal(x.defers[d].args[q], y.defers[d].args[q]) {
						return nil
					}
				}
			}
		}
	}
	newGors := make([]*Gor, len(a.gors))
	owner := new(int)
	for i := range a.gors {
		ga, gb := a.gors[i], b.gors[i]
		if ga == gb {
			newGors[i] = ga
			continue
		}
		n := *ga
		n.owner = owner
		n.frames = make([]*Frame, len(ga.frames))
		for j := range ga.frames {
			x, y := ga.frames[j], gb.frames[j]
			if x == y {
				n.frames[j] = x
				continue
			}
			nf := *x
			nf.owner = owner
			nf.regs = make([]Value, len(x.regs))
			live := x.fi.liveRegs(x.block, x.pc, j < len(ga.frames)-1)
			for _, r := range live {
				if x.regs[r] == nil && y.regs[r] == nil {
					continue
				}
				nf.regs[r] = e.merge(g, x.regs[r], y.regs[r], true)
			}
			nf.defers = append([]deferred(nil), x.defers...)
			n.frames[j] = &nf
		}
		newGors[i] = &n
	}
	if len(a.locks) != len(b.locks) {
		return nil
	}
	for k, v := range a.locks {
		if b.locks[k] != v {
			return nil
		}
	}
	var obs []obsTerm
	for i := range a.obs {
		if a.obs[i].name != b.obs[i].name {
			return nil
		}
		obs = append(obs, obsTerm{a.obs[i].name, e.merge(g, a.obs[i].v, b.obs[i].v, true)})
	}
	// heap
	nh := *a.heap
	nh.owner = new(int)
	a.heap.owner = new(int)
	var reachA, reachB map[ObjID]bool
	type upd struct {
		id  ObjID
		val Value
		typ types.Type
	}
	var upds []upd
	var failed error
	heapDiff(a.heap, b.heap, func(id ObjID, x, y *Obj) {
		if failed != nil {
			return
		}
		if x == nil {
			upds = append(upds, upd{id, copyContent(y.val), y.typ})
			return
		}
		if y == nil {
			return
		}
		v, err := e.tryMergeContent(g, x, y)
		if err != "" {
			if reachA == nil {
				reachA = e.reach(a)
				reachB = e.reach(b)
			}
			if !reachA[id] && !reachB[id] {
				return
			}
			if !reachA[id] {
				upds = append(upds, upd{id, copyContent(y.val), y.typ})
				return
			}
			if !reachB[id] {
				return
			}
			failed = engineErr{err}
			return
		}
		upds = append(upds, upd{id, v, x.typ})
	})
	if failed != nil {
		if e.debug && os.Getenv("SYMGO_MERGELOG") != "" {
			fmt.Fprintln(os.Stderr, "merge fail heap:", failed, e.where(a))
		}
		return nil
	}
	for _, u := range upds {
		nh.put(&Obj{owner: nh.owner, id: u.id, val: u.val, typ: u.typ})
	}
	n := *a
	e.stateID++
	n.id = e.stateID
	n.owner = owner
	n.gors = newGors
	n.heap = &nh
	n.obs = obs
	n.pc = nil
	// rebuild the path condition on the shared prefix
	var base *PC
	for p := a.pc; p != nil; p = p.parent {
		if p.n == k {
			base = p
			break
		}
	}
	n.pc = base
	for _, t := range common {
		n.assume1(t)
	}
	n.assume(disj)
	n.model = a.model
	if n.model == nil {
		n.model = b.model
	}
	return &n
}

func (e *Engine) tryMergeContent(g *Term, x, y *Obj) (v Value, err string) {
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(mergeFail); ok {
				err = m.why
				return
			}
			panic(r)
		}
	}()
	return e.mergeContent(g, x.val, y.val), ""
}

// reach: objects reachable from live registers and globals
func (e *Engine) reach(st *State) map[ObjID]bool {
	seen := map[ObjID]bool{}
	var work []ObjID
	var visit func(v Value)
	add := func(id ObjID) {
		if id != 0 && !seen[id] {
			seen[id] = true
			work = append(work, id)
		}
	}
	visit = func(v Value) {
		switch x := v.(type) {
		case Ptr:
			add(x.obj)
		case *StructV:
			for _, f := range x.f {
				visit(f)
			}
		case *ArrayV:
			for _, f := range x.e {
				visit(f)
			}
		case SliceV:
			add(x.arr.obj)
		case MapV:
			add(x.obj)
		case ChanV:
			add(x.obj)
		case IfaceV:
			if x.typ != nil {
				visit(x.val)
			}
		case *FuncV:
			for _, b := range x.bindings {
				visit(b)
			}
		case TupleV:
			for _, f := range x {
				visit(f)
			}
		case *Union:
			for _, a := range x.alts {
				visit(a.v)
			}
		case *MapObj:
			for _, m := range x.es {
				visit(m.key)
				visit(m.val)
			}
		case *ChanObj:
			for _, b := range x.buf {
				visit(b)
			}
			for _, b := range x.sendq {
				visit(b.val)
			}
		case *IterObj:
			add(x.m)
			for _, k := range x.keys {
				visit(k)
			}
		case *HashObj:
			for _, b := range x.items {
				visit(b)
			}
		}
	}
	for _, g := range st.gors {
		for j, fr := range g.frames {
			for _, r := range fr.fi.liveRegs(fr.block, fr.pc, j < len(g.frames)-1) {
				visit(fr.regs[r])
			}
			for _, d := range fr.defers {
				visit(d.fn)
				for _, a := range d.args {
					visit(a)
				}
			}
		}
	}
	for _, o := range st.obs {
		visit(o.v)
	}
	// base objects changed since init can lead to new objects
	heapDiff(st.heap, e.base, func(id ObjID, x, y *Obj) {
		if id <= e.baseMax {
			add(id)
		}
	})
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		o := st.heap.get(id)
		if o == nil {
			continue
		}
		if id <= e.baseMax && o == e.base.get(id) {
			continue
		}
		visit(o.val)
	}
	return seen
}

var baseObjMax ObjID

// ---- reporting

func (e *Engine) inputsOf(m *Model) map[string]int64 {
	r := map[string]int64{}
	for n, in := range e.inputs {
		v := m.Eval(in.t)
		switch in.kind {
		case "int":
			r[n] = in.lo + int64(v)
		default:
			r[n] = int64(v)
		}
	}
	return r
}

func (e *Engine) report(st *State, kind, label, msg string, m *Model) {
	e.violLabel[label]++
	if e.violLabel[label] > 5 {
		return
	}
	if m == nil {
		m = NewModel()
	}
	v := &Violation{Label: label, Msg: msg, Pos: e.where(st), Kind: kind, Inputs: e.inputsOf(m)}
	e.violations = append(e.violations, v)
	if e.cfg.OnViol != nil {
		e.cfg.OnViol(v)
	}
	if e.debug {
		fmt.Fprintf(os.Stderr, "VIOL %s %s %s at %s\n", kind, label, msg, v.Pos)
		var ks []string
		for k, x := range v.Inputs {
			ks = append(ks, fmt.Sprintf("%s=%d", k, x))
		}
		sort.Strings(ks)
		fmt.Fprintln(os.Stderr, "   ", strings.Join(ks, " "))
	}
}

var qprof map[string]*[3]float64

func init() {
	if os.Getenv("SYMGO_QPROF") != "" {
		qprof = map[string]*[3]float64{}
	}
}

func dumpQprof() {
	var ks []string
	for k := range qprof {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return qprof[ks[i]][0] > qprof[ks[j]][0] })
	for i, k := range ks {
		if i < 15 {
			fmt.Fprintf(os.Stderr, "QPROF %8.2fs %5.0f %s\n", qprof[k][0], qprof[k][1], k)
		}
	}
}
