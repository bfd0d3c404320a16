package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// resolve forces a union value held in register v into a single alternative by
// forking; the instruction is re-executed in every fork. ok=false: st is dead or
// was replaced, return immediately.
func (e *Engine) resolve(st *State, fr *Frame, v ssa.Value) (Value, bool) {
	val := e.get(fr, v)
	u, isU := val.(*Union)
	if !isU {
		return val, true
	}
	e.forkAlts(st, u.alts, func(s *State, x Value) {
		f := s.top()
		e.set(f, v, x)
		s.hold = true
	})
	return nil, false
}

// forkAlts replaces st by one state per feasible alternative.
func (e *Engine) forkAlts(st *State, alts []Alt, apply func(s *State, v Value)) {
	first := true
	var rest *Term = e.f.tt
	type cand struct {
		g *Term
		v Value
		m *Model
	}
	var cs []cand
	for i, a := range alts {
		if i == len(alts)-1 && len(cs) == 0 {
			cs = append(cs, cand{a.g, a.v, st.model})
			break
		}
		r, m := e.feasible(st, a.g)
		if r == Unsat {
			continue
		}
		cs = append(cs, cand{a.g, a.v, m})
		rest = e.f.And(rest, e.f.Not(a.g))
	}
	if len(cs) == 1 {
		st.assume(cs[0].g)
		if st.model == nil || st.model.Eval(cs[0].g) == 0 {
			st.model = cs[0].m
		}
		apply(st, cs[0].v)
		return
	}
	var states []*State
	for range cs[1:] {
		states = append(states, st.fork(e))
	}
	states = append([]*State{st}, states...)
	for i, c := range cs {
		s := states[i]
		s.assume(c.g)
		s.model = c.m
		apply(s, c.v)
		if first {
			first = false
		} else {
			e.push(s)
		}
	}
}

// branchPanic: if bad can hold, a panicking path is forked off. Returns false if
// st itself ended up panicking.
func (e *Engine) branchPanic(st *State, bad *Term, msg string) bool {
	if bad == e.f.ff {
		return true
	}
	if bad == e.f.tt {
		e.doPanic(st, e.runtimeErr(msg), msg)
		return false
	}
	r, m := e.feasible(st, bad)
	if r == Unsat {
		st.assume(e.f.Not(bad))
		return true
	}
	ok := e.f.Not(bad)
	r2, m2 := e.feasible(st, ok)
	if r2 == Unsat {
		st.assume(bad)
		if m != nil {
			st.model = m
		}
		e.doPanic(st, e.runtimeErr(msg), msg)
		return false
	}
	if r == Sat {
		c := st.fork(e)
		c.assume(bad)
		c.model = m
		e.doPanic(c, e.runtimeErr(msg), msg)
		if !c.dead {
			e.push(c)
		}
	}
	st.assume(ok)
	st.model = m2
	return true
}

func (e *Engine) runtimeErr(msg string) Value {
	return IfaceV{types.Typ[types.String], msg}
}

func (e *Engine) doPanic(st *State, val Value, msg string) {
	g := st.gor()
	g.panics = append(g.panics, &PanicInfo{val: val, msg: msg, pos: e.where(st)})
	e.unwind(st)
}

func isHarnessFn(fn *ssa.Function) bool {
	for p := fn; p != nil; p = p.Parent() {
		if p.Pkg != nil && strings.Contains(p.Pkg.Pkg.Path(), "zz_verif") {
			return true
		}
		if strings.Contains(p.Name(), "zzVerif") {
			return true
		}
	}
	return false
}

// unwind continues the innermost panic of the current goroutine.
func (e *Engine) unwind(st *State) {
	g := st.gor()
	p := g.panics[len(g.panics)-1]
	for len(g.frames) > 0 {
		fr := st.top()
		fr.unwind = true
		if len(fr.defers) > 0 && !(p.isExit && !isHarnessFn(fr.fi.fn)) {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			if e.callDeferred(st, d) {
				return
			}
			continue
		}
		if len(g.frames) == 1 {
			break
		}
		g.frames = g.frames[:len(g.frames)-1]
	}
	if p.isExit {
		e.endPath(st)
		return
	}
	kind := "panic"
	e.report(st, kind, "panic", p.msg+" at "+p.pos, st.modelOr(e))
	e.kill(st, "")
}

func (st *State) modelOr(e *Engine) *Model {
	if st.model != nil {
		return st.model
	}
	r, m := e.sol.Check(st.pc.terms())
	if r == Sat {
		return m
	}
	return nil
}

// callDeferred pushes the deferred call. Returns false if it completed at once.
func (e *Engine) callDeferred(st *State, d deferred) bool {
	fv, ok := d.fn.(*FuncV)
	if !ok {
		panic(engineErr{"deferred call of non-function"})
	}
	n := len(st.gor().frames)
	e.callValue(st, fv, d.args, nil, true)
	if st.dead {
		return true
	}
	return len(st.gor().frames) > n
}

func (e *Engine) endPath(st *State) {
	e.paths++
	st.dead = true
	e.finishPath(st)
}

// ---- calls

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// callValue calls fv; results go to dest of the current top frame (nil: ignored).
// The caller's pc has to be advanced before for plain calls.
func (e *Engine) callValue(st *State, fv *FuncV, args []Value, dest ssa.Value, isDefer bool) {
	if fv.nilf {
		e.doPanic(st, e.runtimeErr("nil function call"), "call of nil function")
		return
	}
	if fv.builtin != "" {
		r := e.callBuiltin(st, fv.builtin, args, nil)
		if !st.dead && dest != nil && r != nil {
			e.set(st.top(), dest, r)
		}
		return
	}
	fn := fv.fn
	name := fnName(fn)
	if m, ok := e.modelsTab[name]; ok {
		fn = m
	} else if in, ok := intrinsics[name]; ok {
		e.funcsRun[fn]++
		depth := len(st.gor().frames)
		r, handled := in(e, st, fn, args)
		if st.dead {
			return
		}
		if handled {
			if len(st.gor().frames) != depth {
				return
			}
			if dest != nil && r != nil {
				e.set(st.top(), dest, r)
			}
			return
		}
	}
	if fn.Blocks == nil {
		panic(engineErr{"no body: " + name})
	}
	if pkg := fnPkg(fn); pkg != "" && (denyPkg(pkg) || pkg == "sync" && !strings.Contains(name, "sync.Once") && !strings.Contains(name, "sync.OnceFunc")) {
		panic(engineErr{"call into unmodelled package: " + name})
	}
	g := st.gor()
	if len(g.frames) > 400 {
		e.report(st, "hang", "does not finish", "recursion deeper than 400 calls in "+name, st.modelOr(e))
		panic(pathKill{"recursion bound (" + name + ")"})
	}
	caller := st.top()
	nf := e.newFrame(st, fn, args, fv.bindings)
	nf.hash = mix(caller.posHash(), uint64(len(g.frames))<<8|uint64(len(caller.defers)))
	nf.call = dest
	nf.isDefer = isDefer
	g.frames = append(g.frames, nf)
}

func fnPkg(fn *ssa.Function) string {
	for p := fn; p != nil; p = p.Parent() {
		if p.Pkg != nil {
			return p.Pkg.Pkg.Path()
		}
		if o := p.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func denyPkg(p string) bool {
	switch p {
	case "os", "runtime", "syscall", "net", "reflect", "fmt", "io/ioutil", "io/fs", "log", "internal/poll", "internal/reflectlite", "regexp", "encoding/json", "archive/zip", "math/rand":
		return true
	}
	return strings.HasPrefix(p, "runtime/") || strings.HasPrefix(p, "crypto/") || (strings.HasPrefix(p, "net/") && p != "net/url")
}

func (e *Engine) newFrame(st *State, fn *ssa.Function, args []Value, bindings []Value) *Frame {
	fi := e.P.info(fn)
	e.funcsRun[fn]++
	nf := &Frame{owner: st.owner, fi: fi, block: fn.Blocks[0], regs: make([]Value, fi.nreg)}
	if len(args) != len(fn.Params) {
		panic(engineErr{fmt.Sprintf("arg count for %s: %d vs %d", fn, len(args), len(fn.Params))})
	}
	for i, p := range fn.Params {
		nf.regs[fi.reg[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		nf.regs[fi.reg[p]] = bindings[i]
	}
	nf.iters = fi.updateIters(nil, 0, 0)
	if fi.heads[0] > 0 {
		for i := range nf.iters {
			nf.iters[i] = 0
		}
	}
	return nf
}

// doReturn pops the top frame.
func (e *Engine) doReturn(st *State, res Value) {
	g := st.gor()
	fr := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		g.status = GDone
		if g.id == 0 {
			e.endPath(st)
			return
		}
		e.raceEnd(st)
		e.unblockAll(st)
		e.schedule(st)
		return
	}
	caller := st.top()
	if caller.unwind {
		// a deferred call during panicking returned
		n := len(g.panics)
		if n > 0 && g.panics[n-1].recovered {
			g.panics = g.panics[:n-1]
			caller.unwind = false
			// remaining defers run, then return via Recover block
			if rb := caller.fi.fn.Recover; rb != nil {
				caller.block = rb
				caller.pc = 0
				caller.iters = caller.fi.updateIters(nil, 0, rb.Index)
				// Recover block does not contain rundefers in all versions
				caller.onRet = "recovered"
				return
			}
			for len(caller.defers) > 0 {
				panic(engineErr{"recover without recover block but pending defers"})
			}
			e.doReturn(st, e.zero(caller.fi.fn.Signature.Results()))
			return
		}
		e.unwind(st)
		return
	}
	if fr.call != nil && res != nil {
		e.set(caller, fr.call, res)
	}
	if fr.adv {
		caller.pc++
	}
}

// ---- scheduling of goroutines

func (e *Engine) unblockAll(st *State) {
	for i, g := range st.gors {
		if g.status == GBlocked {
			n := *g
			n.owner = st.owner
			n.frames = append([]*Frame(nil), g.frames...)
			n.vc = append([]int(nil), g.vc...)
			n.status = GRun
			st.gors[i] = &n
		}
	}
}

// block marks the current goroutine blocked (its instruction will be retried).
func (e *Engine) block(st *State) {
	st.gor().status = GBlocked
	e.schedule(st)
}

// schedule switches to a runnable goroutine.
func (e *Engine) schedule(st *State) {
	var run []int
	for i, g := range st.gors {
		if g.status == GRun {
			run = append(run, i)
		}
	}
	if len(run) == 0 {
		if st.gors[0].status == GDone {
			e.endPath(st)
			return
		}
		e.report(st, "deadlock", "deadlock", "all goroutines are blocked", st.modelOr(e))
		e.kill(st, "")
		return
	}
	st.sw++
	switch st.sched {
	case 0: // main runs as long as it can, workers in order of creation
		st.cur = run[0]
	case 1: // newest worker first
		st.cur = run[len(run)-1]
	case 2: // any
		if len(run) > 1 && len(run) <= 6 {
			for _, r := range run[1:] {
				c := st.fork(e)
				c.cur = r
				// a decision variable keeps the paths distinguishable
				v := e.decision(c, fmt.Sprintf("sched%d_%d", c.sw, r))
				c.assume(v)
				st.assume(e.f.Not(v))
				c.model = nil
				e.push(c)
			}
			st.model = nil
			r, m := e.sol.Check(st.pc.terms())
			if r == Sat {
				st.model = m
			}
			for _, c := range e.pq {
				if c.model == nil {
					if r, m := e.sol.Check(c.pc.terms()); r == Sat {
						c.model = m
					}
				}
			}
		}
		st.cur = run[0]
	}
}

func (e *Engine) decision(st *State, name string) *Term {
	return e.f.Var("dec:"+name+"@"+fmt.Sprintf("%x", e.posTag(st)), sortBool)
}

func (e *Engine) posTag(st *State) uint64 {
	g := st.gors[st.cur]
	if len(g.frames) == 0 {
		return uint64(st.cur)
	}
	h := g.frames[len(g.frames)-1].posHash()
	return h[0]
}

// ---- the instruction interpreter

func (e *Engine) gotoBlock(st *State, fr *Frame, to *ssa.BasicBlock) {
	from := fr.block
	e.trans++
	// phis
	pi := -1
	n := 0
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if pi < 0 {
			for i, p := range to.Preds {
				if p == from {
					pi = i
					break
				}
			}
		}
		_ = ph
		n++
	}
	if n > 0 {
		vals := make([]Value, n)
		for i := 0; i < n; i++ {
			vals[i] = e.getPhi(fr, to.Instrs[i].(*ssa.Phi).Edges[pi])
		}
		for i := 0; i < n; i++ {
			e.set(fr, to.Instrs[i].(*ssa.Phi), vals[i])
		}
	}
	fr.iters = fr.fi.updateIters(fr.iters, from.Index, to.Index)
	for _, it := range fr.iters {
		if int(it) > e.cfg.MaxIter {
			if e.debug {
				fmt.Fprintln(os.Stderr, "UNWIND", e.where(st), st.split, st.model)
			}
			e.report(st, "hang", "does not finish", "more than "+strconv.Itoa(e.cfg.MaxIter)+" iterations in "+fr.fi.fn.String(), st.modelOr(e))
			panic(pathKill{"unwind bound (" + fr.fi.fn.String() + ")"})
		}
	}
	fr.block = to
	fr.pc = n
}

func (e *Engine) getPhi(fr *Frame, v ssa.Value) Value {
	if r, ok := fr.fi.reg[v]; ok {
		return fr.regs[r] // may be nil (undefined)
	}
	return e.get(fr, v)
}

// step executes one instruction; true: scheduling point reached.
func (e *Engine) step(st *State) bool {
	fr := st.top()
	if fr.pc >= len(fr.block.Instrs) {
		panic(engineErr{"fell off block"})
	}
	in := fr.block.Instrs[fr.pc]
	st.hold = false
	e.instrs++
	st.steps++
	switch x := in.(type) {
	case *ssa.DebugRef:
		fr.pc++
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		id := e.alloc(st, 0, e.zero(t), t)
		e.raceAlloc(st, id)
		e.set(fr, x, Ptr{obj: id})
		fr.pc++
	case *ssa.BinOp:
		v, ok := e.binop(st, fr, x)
		if !ok {
			return true
		}
		e.set(fr, x, v)
		fr.pc++
	case *ssa.UnOp:
		return e.unop(st, fr, x)
	case *ssa.Phi:
		panic(engineErr{"phi"})
	case *ssa.Jump:
		e.gotoBlock(st, fr, fr.block.Succs[0])
		return true
	case *ssa.If:
		return e.doIf(st, fr, x)
	case *ssa.Return:
		var res Value
		switch len(x.Results) {
		case 0:
			res = TupleV{}
		case 1:
			res = e.get(fr, x.Results[0])
		default:
			t := make(TupleV, len(x.Results))
			for i, r := range x.Results {
				t[i] = e.get(fr, r)
			}
			res = t
		}
		if len(fr.defers) > 0 {
			// recovered path: run remaining defers first
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			e.callDeferred(st, d)
			return true
		}
		e.doReturn(st, res)
		return true
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			e.callDeferred(st, d)
			return false
		}
		fr.pc++
	case *ssa.Call:
		return e.doCall(st, fr, x)
	case *ssa.Defer:
		fv, args, ok := e.prepCall(st, fr, &x.Call)
		if !ok {
			return true
		}
		if fv.builtin == "recover" {
			panic(engineErr{"defer recover"})
		}
		fr = st.top()
		fr.defers = append(fr.defers, deferred{fn: fv, args: args})
		fr.pc++
	case *ssa.Go:
		fv, args, ok := e.prepCall(st, fr, &x.Call)
		if !ok {
			return true
		}
		fr = st.top()
		if fv.fn == nil || fv.fn.Blocks == nil {
			panic(engineErr{"go of builtin"})
		}
		ng := &Gor{id: len(st.gors), owner: st.owner}
		nf := e.newFrame(st, fv.fn, args, fv.bindings)
		nf.hash = mix(fr.posHash(), 0xabcdef)
		ng.frames = []*Frame{nf}
		st.gors = append(append([]*Gor(nil), st.gors...), ng)
		e.raceGo(st, ng)
		fr.pc++
		if st.sched == 1 {
			st.cur = ng.id
			st.sw++
			return true
		}
	case *ssa.Panic:
		v := e.get(fr, x.X)
		e.doPanic(st, v, "panic: "+e.panicText(st, v))
		return true
	case *ssa.MakeInterface:
		e.set(fr, x, IfaceV{x.X.Type(), copyVal(e.get(fr, x.X))})
		fr.pc++
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.bindings = append(f.bindings, e.get(fr, b))
		}
		e.set(fr, x, f)
		fr.pc++
	case *ssa.MakeMap:
		id := e.alloc(st, 0, &MapObj{}, x.Type())
		e.raceAlloc(st, id)
		e.set(fr, x, MapV{id})
		fr.pc++
	case *ssa.MakeChan:
		sz, ok := e.concreteInt(st, fr, x.Size)
		if !ok {
			return true
		}
		if sz < 0 {
			e.doPanic(st, e.runtimeErr("makechan: size out of range"), "makechan: size out of range")
			return true
		}
		id := e.alloc(st, 0, &ChanObj{cap: int(sz)}, x.Type())
		e.set(fr, x, ChanV{id})
		fr.pc++
	case *ssa.MakeSlice:
		l, ok := e.concreteInt(st, fr, x.Len)
		if !ok {
			return true
		}
		c, ok := e.concreteInt(st, fr, x.Cap)
		if !ok {
			return true
		}
		if l < 0 || c < l || c > 1<<26 {
			e.doPanic(st, e.runtimeErr("makeslice: len out of range"), "makeslice: len out of range")
			return true
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		e.set(fr, x, e.makeSlice(st, 0, et, int(l), int(c)))
		fr.pc++
	case *ssa.Slice:
		return e.doSlice(st, fr, x)
	case *ssa.FieldAddr:
		v := e.get(fr, x.X)
		r, ok := e.mapPtr(st, v, func(p Ptr) Value { return Ptr{p.obj, pathAppend(p.path, x.Field)} })
		if !ok {
			return true
		}
		e.set(st.top(), x, r)
		st.top().pc++
	case *ssa.Field:
		v := e.get(fr, x.X)
		s, ok := v.(*StructV)
		if !ok {
			panic(engineErr{fmt.Sprintf("field of %T", v)})
		}
		e.set(fr, x, copyVal(s.f[x.Field]))
		fr.pc++
	case *ssa.IndexAddr:
		return e.doIndexAddr(st, fr, x)
	case *ssa.Index:
		return e.doIndex(st, fr, x)
	case *ssa.Lookup:
		return e.doLookup(st, fr, x)
	case *ssa.MapUpdate:
		mv, ok := e.resolve(st, fr, x.Map)
		if !ok {
			return true
		}
		m := mv.(MapV)
		if m.obj == 0 {
			e.doPanic(st, e.runtimeErr("assignment to entry in nil map"), "assignment to entry in nil map")
			return true
		}
		e.raceAccess(st, Ptr{obj: m.obj}, true)
		e.mapUpdate(st, m, e.get(fr, x.Key), e.get(fr, x.Value))
		fr.pc++
	case *ssa.Range:
		return e.doRange(st, fr, x)
	case *ssa.Next:
		return e.doNext(st, fr, x)
	case *ssa.Extract:
		t, ok := e.get(fr, x.Tuple).(TupleV)
		if !ok {
			panic(engineErr{"extract from non-tuple"})
		}
		if x.Index < len(t) && t[x.Index] != nil {
			e.set(fr, x, t[x.Index])
		}
		fr.pc++
	case *ssa.ChangeType:
		e.set(fr, x, e.get(fr, x.X))
		fr.pc++
	case *ssa.ChangeInterface:
		e.set(fr, x, e.get(fr, x.X))
		fr.pc++
	case *ssa.Convert:
		v, ok := e.convert(st, fr, x)
		if !ok {
			return true
		}
		e.set(st.top(), x, v)
		st.top().pc++
	case *ssa.MultiConvert:
		v, ok := e.convertT(st, fr, x.X, x.X.Type(), x.Type())
		if !ok {
			return true
		}
		e.set(st.top(), x, v)
		st.top().pc++
	case *ssa.SliceToArrayPointer:
		v, ok := e.resolve(st, fr, x.X)
		if !ok {
			return true
		}
		s := v.(SliceV)
		if s.off != 0 {
			panic(engineErr{"slice to array pointer with offset"})
		}
		e.set(fr, x, s.arr)
		fr.pc++
	case *ssa.TypeAssert:
		return e.typeAssert(st, fr, x)
	case *ssa.Store:
		v := e.get(fr, x.Val)
		if !e.store(st, e.get(fr, x.Addr), v) {
			return true
		}
		st.top().pc++
	case *ssa.Send:
		return e.doSend(st, fr, x)
	case *ssa.Select:
		return e.doSelect(st, fr, x)
	default:
		panic(engineErr{fmt.Sprintf("instruction %T", in)})
	}
	return false
}

func (e *Engine) panicText(st *State, v Value) string {
	if i, ok := v.(IfaceV); ok {
		if s, ok := i.val.(string); ok {
			return s
		}
		if n, ok := i.val.(*NatV); ok {
			return fmt.Sprint(n.v)
		}
		if p, ok := i.val.(Ptr); ok && p.obj != 0 {
			if o := st.heap.get(p.obj); o != nil {
				return e.show(o.val)
			}
		}
		return e.show(i.val)
	}
	return e.show(v)
}

func (e *Engine) doIf(st *State, fr *Frame, x *ssa.If) bool {
	c, ok := e.get(fr, x.Cond).(*Term)
	if !ok {
		panic(engineErr{"if on non-term"})
	}
	b := fr.block
	if c.op == OConst {
		if c.c != 0 {
			e.gotoBlock(st, fr, b.Succs[0])
		} else {
			e.gotoBlock(st, fr, b.Succs[1])
		}
		return true
	}
	if e.ifConvert(st, fr, c) {
		return true
	}
	nc := e.f.Not(c)
	r1, m1 := e.feasible(st, c)
	var r2 SatResult
	var m2 *Model
	if r1 == Unsat {
		r2, m2 = Sat, st.model
	} else {
		r2, m2 = e.feasible(st, nc)
	}
	if e.debug && os.Getenv("SYMGO_FORKLOG") != "" {
		fmt.Fprintln(os.Stderr, "if", r1, r2, e.where(st))
	}
	switch {
	case r1 != Unsat && r2 == Unsat:
		st.assume(c)
		st.model = m1
		e.gotoBlock(st, fr, b.Succs[0])
	case r1 == Unsat:
		st.assume(nc)
		st.model = m2
		e.gotoBlock(st, fr, b.Succs[1])
	default:
		o := st.fork(e)
		st.assume(c)
		st.model = m1
		e.gotoBlock(st, st.top(), b.Succs[0])
		o.assume(nc)
		o.model = m2
		e.gotoBlock(o, o.top(), b.Succs[1])
		e.push(o)
	}
	return true
}

// ifConvert executes a side-effect free triangle or diamond without forking.
func (e *Engine) ifConvert(st *State, fr *Frame, c *Term) bool {
	b := fr.block
	s0, s1 := b.Succs[0], b.Succs[1]
	var join *ssa.BasicBlock
	arm := func(s *ssa.BasicBlock) (*ssa.BasicBlock, bool) {
		if len(s.Preds) != 1 || len(s.Succs) != 1 || len(s.Instrs) > 24 {
			return nil, false
		}
		return s.Succs[0], true
	}
	j0, ok0 := arm(s0)
	j1, ok1 := arm(s1)
	var a0, a1 *ssa.BasicBlock
	switch {
	case ok0 && j0 == s1 && len(s1.Preds) >= 2:
		join, a0 = s1, s0
	case ok1 && j1 == s0:
		join, a1 = s0, s1
	case ok0 && ok1 && j0 == j1:
		join, a0, a1 = j0, s0, s1
	default:
		return false
	}
	if len(fr.fi.comp[join.Index]) != len(fr.fi.comp[b.Index]) || fr.fi.heads[join.Index] > 0 {
		// joins outside or at a loop head: iteration counting stays with the slow path
		same := len(fr.fi.comp[join.Index]) == len(fr.fi.comp[b.Index])
		if !same || fr.fi.heads[join.Index] > 0 {
			return false
		}
	}
	regs := map[int]Value{}
	if a0 != nil && !e.specul(st, fr, a0, regs) {
		return false
	}
	if a1 != nil && !e.specul(st, fr, a1, regs) {
		return false
	}
	// phis of join
	p0, p1 := b, b
	if a0 != nil {
		p0 = a0
	}
	if a1 != nil {
		p1 = a1
	}
	i0, i1 := -1, -1
	for i, p := range join.Preds {
		if p == p0 {
			i0 = i
		}
		if p == p1 {
			i1 = i
		}
	}
	if i0 < 0 || i1 < 0 || i0 == i1 {
		return false
	}
	getv := func(v ssa.Value) Value {
		if r, ok := fr.fi.reg[v]; ok {
			if x, ok := regs[r]; ok {
				return x
			}
			return fr.regs[r]
		}
		return e.get(fr, v)
	}
	var vals []Value
	n := 0
	for _, in := range join.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		x, y := getv(ph.Edges[i0]), getv(ph.Edges[i1])
		if x == nil || y == nil {
			return false
		}
		v, ok := e.mergeOK(c, x, y)
		if !ok {
			return false
		}
		vals = append(vals, v)
	}
	for i := 0; i < n; i++ {
		e.set(fr, join.Instrs[i].(*ssa.Phi), vals[i])
	}
	e.trans += 2
	fr.iters = fr.fi.updateIters(fr.iters, b.Index, join.Index)
	fr.block = join
	fr.pc = n
	return true
}

func (e *Engine) mergeOK(c *Term, x, y Value) (v Value, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(mergeFail); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return e.merge(c, x, y, true), true
}

// specul evaluates the pure instructions of a block into regs.
func (e *Engine) specul(st *State, fr *Frame, b *ssa.BasicBlock, regs map[int]Value) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case engineErr, mergeFail:
				ok = false
				return
			}
			panic(r)
		}
	}()
	getv := func(v ssa.Value) Value {
		if r, ok := fr.fi.reg[v]; ok {
			if x, ok := regs[r]; ok {
				return x
			}
			if fr.regs[r] == nil {
				panic(engineErr{"undef"})
			}
			return fr.regs[r]
		}
		return e.get(fr, v)
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Jump, *ssa.DebugRef:
		case *ssa.BinOp:
			a, b := getv(x.X), getv(x.Y)
			switch x.Op {
			case token.QUO, token.REM, token.SHL, token.SHR:
				return false
			}
			ta, ok1 := a.(*Term)
			tb, ok2 := b.(*Term)
			if ok1 && ok2 {
				regs[fr.fi.reg[x]] = e.binTerm(x.Op, ta, tb, x.X.Type())
				continue
			}
			if x.Op == token.EQL || x.Op == token.NEQ {
				t := e.eqVal(a, b)
				if x.Op == token.NEQ {
					t = e.f.Not(t)
				}
				regs[fr.fi.reg[x]] = t
				continue
			}
			return false
		case *ssa.UnOp:
			v := getv(x.X)
			switch x.Op {
			case token.NOT:
				regs[fr.fi.reg[x]] = e.f.Not(v.(*Term))
			case token.SUB:
				t := v.(*Term)
				if t.sort.k != KBV {
					return false
				}
				regs[fr.fi.reg[x]] = e.f.Neg(t)
			case token.MUL:
				if st.race != nil {
					return false
				}
				p, ok := v.(Ptr)
				if !ok || p.obj == 0 {
					return false
				}
				regs[fr.fi.reg[x]] = copyVal(e.loadRaw(st, p))
			default:
				return false
			}
		case *ssa.FieldAddr:
			p, ok := getv(x.X).(Ptr)
			if !ok || p.obj == 0 {
				return false
			}
			regs[fr.fi.reg[x]] = Ptr{p.obj, pathAppend(p.path, x.Field)}
		case *ssa.Field:
			s, ok := getv(x.X).(*StructV)
			if !ok {
				return false
			}
			regs[fr.fi.reg[x]] = copyVal(s.f[x.Field])
		case *ssa.IndexAddr:
			idx, ok := getv(x.Index).(*Term)
			if !ok || !idx.isConst() {
				return false
			}
			s, ok := getv(x.X).(SliceV)
			if !ok {
				return false
			}
			i := int(int64(idx.c))
			if i < 0 || i >= s.len {
				return false
			}
			regs[fr.fi.reg[x]] = Ptr{s.arr.obj, pathAppend(s.arr.path, s.off+i)}
		case *ssa.ChangeType:
			regs[fr.fi.reg[x]] = getv(x.X)
		case *ssa.Convert:
			t, ok := getv(x.X).(*Term)
			if !ok {
				return false
			}
			r := e.convNum(t, x.X.Type(), x.Type())
			if r == nil {
				return false
			}
			regs[fr.fi.reg[x]] = r
		case *ssa.Call:
			// pure builtins only
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return false
			}
			switch v := getv(x.Call.Args[0]).(type) {
			case SliceV:
				regs[fr.fi.reg[x]] = e.f.BV(uint64(v.len), 64)
			case string:
				regs[fr.fi.reg[x]] = e.f.BV(uint64(len(v)), 64)
			default:
				return false
			}
		case *ssa.Extract:
			t, ok := getv(x.Tuple).(TupleV)
			if !ok || t[x.Index] == nil {
				return false
			}
			regs[fr.fi.reg[x]] = t[x.Index]
		default:
			return false
		}
	}
	e.instrs += int64(len(b.Instrs))
	return true
}

// mapPtr applies fn to all non-nil alternatives of a pointer; nil dereference
// is checked.
func (e *Engine) mapPtr(st *State, v Value, fn func(p Ptr) Value) (Value, bool) {
	switch x := v.(type) {
	case Ptr:
		if x.obj == 0 {
			e.doPanic(st, e.runtimeErr("nil pointer dereference"), "nil pointer dereference")
			return nil, false
		}
		return fn(x), true
	case *Union:
		bad := e.f.ff
		var alts []Alt
		for _, a := range x.alts {
			p, ok := a.v.(Ptr)
			if !ok {
				panic(engineErr{"pointer union of mixed kinds"})
			}
			if p.obj == 0 {
				bad = e.f.Or(bad, a.g)
			}
		}
		if !e.branchPanic(st, bad, "nil pointer dereference") {
			return nil, false
		}
		for _, a := range x.alts {
			if p := a.v.(Ptr); p.obj != 0 {
				alts = e.addAlt(alts, a.g, fn(p))
			}
		}
		return e.mkUnion(alts), true
	}
	panic(engineErr{fmt.Sprintf("pointer op on %T", v)})
}

func (e *Engine) load(st *State, v Value) (Value, bool) {
	switch x := v.(type) {
	case Ptr:
		if x.obj == 0 {
			e.doPanic(st, e.runtimeErr("nil pointer dereference"), "nil pointer dereference")
			return nil, false
		}
		return copyVal(e.loadRaw(st, x)), true
	case *Union:
		bad := e.f.ff
		for _, a := range x.alts {
			if p, ok := a.v.(Ptr); ok && p.obj == 0 {
				bad = e.f.Or(bad, a.g)
			}
		}
		if !e.branchPanic(st, bad, "nil pointer dereference") {
			return nil, false
		}
		var res Value
		for i := len(x.alts) - 1; i >= 0; i-- {
			a := x.alts[i]
			p := a.v.(Ptr)
			if p.obj == 0 {
				continue
			}
			lv := copyVal(e.loadRaw(st, p))
			if res == nil {
				res = lv
			} else {
				res = e.merge(a.g, lv, res, false)
			}
		}
		return res, true
	}
	panic(engineErr{fmt.Sprintf("load via %T", v)})
}

func (e *Engine) store(st *State, addr Value, v Value) bool {
	switch x := addr.(type) {
	case Ptr:
		if x.obj == 0 {
			e.doPanic(st, e.runtimeErr("nil pointer dereference"), "nil pointer dereference (store)")
			return false
		}
		e.storeRaw(st, x, v)
		return true
	case *Union:
		bad := e.f.ff
		for _, a := range x.alts {
			if p, ok := a.v.(Ptr); ok && p.obj == 0 {
				bad = e.f.Or(bad, a.g)
			}
		}
		if !e.branchPanic(st, bad, "nil pointer dereference (store)") {
			return false
		}
		for _, a := range x.alts {
			p := a.v.(Ptr)
			if p.obj == 0 {
				continue
			}
			old := copyVal(e.loadRaw(st, p))
			e.storeRaw(st, p, e.merge(a.g, copyVal(v), old, false))
		}
		return true
	}
	panic(engineErr{fmt.Sprintf("store via %T", addr)})
}

func (e *Engine) unop(st *State, fr *Frame, x *ssa.UnOp) bool {
	switch x.Op {
	case token.MUL:
		v, ok := e.load(st, e.get(fr, x.X))
		if !ok {
			return true
		}
		fr = st.top()
		e.set(fr, x, v)
		fr.pc++
		return false
	case token.ARROW:
		return e.doRecv(st, fr, x)
	}
	t, ok := e.get(fr, x.X).(*Term)
	if !ok {
		panic(engineErr{"unop on non-term"})
	}
	switch x.Op {
	case token.NOT:
		e.set(fr, x, e.f.Not(t))
	case token.SUB:
		if t.sort.k == KFP {
			e.set(fr, x, e.f.FUn("neg", t, func(a float64) float64 { return -a }))
		} else {
			e.set(fr, x, e.f.Neg(t))
		}
	case token.XOR:
		e.set(fr, x, e.f.BNot(t))
	default:
		panic(engineErr{"unop " + x.Op.String()})
	}
	fr.pc++
	return false
}

func (e *Engine) binTerm(op token.Token, a, b *Term, t types.Type) *Term {
	f := e.f
	if a.sort.k == KBool {
		switch op {
		case token.EQL:
			return f.Eq(a, b)
		case token.NEQ:
			return f.Not(f.Eq(a, b))
		case token.AND:
			return f.And(a, b)
		case token.OR:
			return f.Or(a, b)
		}
		panic(engineErr{"bool op " + op.String()})
	}
	if a.sort.k == KFP {
		switch op {
		case token.ADD:
			return f.FBin(OFAdd, a, b)
		case token.SUB:
			return f.FBin(OFSub, a, b)
		case token.MUL:
			return f.FBin(OFMul, a, b)
		case token.QUO:
			return f.FBin(OFDiv, a, b)
		case token.EQL:
			return f.FBin(OFEq, a, b)
		case token.NEQ:
			return f.Not(f.FBin(OFEq, a, b))
		case token.LSS:
			return f.FBin(OFLt, a, b)
		case token.LEQ:
			return f.FBin(OFLe, a, b)
		case token.GTR:
			return f.FBin(OFLt, b, a)
		case token.GEQ:
			return f.FBin(OFLe, b, a)
		}
		panic(engineErr{"float op " + op.String()})
	}
	sg := isSigned(t)
	pick := func(s, u Op) Op {
		if sg {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return f.Bin(OAdd, a, b)
	case token.SUB:
		return f.Bin(OSub, a, b)
	case token.MUL:
		return f.Bin(OMul, a, b)
	case token.QUO:
		return f.Bin(pick(OSDiv, OUDiv), a, b)
	case token.REM:
		return f.Bin(pick(OSRem, OURem), a, b)
	case token.AND:
		return f.Bin(OBAnd, a, b)
	case token.OR:
		return f.Bin(OBOr, a, b)
	case token.XOR:
		return f.Bin(OBXor, a, b)
	case token.AND_NOT:
		return f.Bin(OBAnd, a, f.BNot(b))
	case token.EQL:
		return f.Eq(a, b)
	case token.NEQ:
		return f.Not(f.Eq(a, b))
	case token.LSS:
		return f.Bin(pick(OSLt, OULt), a, b)
	case token.LEQ:
		return f.Bin(pick(OSLe, OULe), a, b)
	case token.GTR:
		return f.Bin(pick(OSLt, OULt), b, a)
	case token.GEQ:
		return f.Bin(pick(OSLe, OULe), b, a)
	}
	panic(engineErr{"op " + op.String()})
}

func (e *Engine) shift(op token.Token, a, b *Term, xt, yt types.Type) *Term {
	f := e.f
	w := int(a.sort.w)
	// bring the count to width w, saturating
	var cnt *Term
	bw := int(b.sort.w)
	if bw > w {
		big := f.Not(f.Bin(OULt, b, f.BV(uint64(w), bw)))
		cnt = f.Ite(big, f.BV(uint64(w), w), f.Extract(b, w-1, 0))
	} else {
		cnt = f.ZExt(b, w)
	}
	if op == token.SHL {
		return f.Bin(OShl, a, cnt)
	}
	if isSigned(xt) {
		return f.Bin(OAShr, a, cnt)
	}
	return f.Bin(OLShr, a, cnt)
}

func (e *Engine) binop(st *State, fr *Frame, x *ssa.BinOp) (Value, bool) {
	a, b := e.get(fr, x.X), e.get(fr, x.Y)
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if ok1 && ok2 {
		switch x.Op {
		case token.SHL, token.SHR:
			if isSigned(x.Y.Type()) {
				neg := e.f.Bin(OSLt, tb, e.f.BV(0, int(tb.sort.w)))
				if !e.branchPanic(st, neg, "negative shift amount") {
					return nil, false
				}
			}
			return e.shift(x.Op, ta, tb, x.X.Type(), x.Y.Type()), true
		case token.QUO, token.REM:
			if ta.sort.k == KBV {
				z := e.f.Eq(tb, e.f.BV(0, int(tb.sort.w)))
				if !e.branchPanic(st, z, "integer divide by zero") {
					return nil, false
				}
			}
		}
		return e.binTerm(x.Op, ta, tb, x.X.Type()), true
	}
	if x.Op == token.EQL {
		return e.eqVal(a, b), true
	}
	if x.Op == token.NEQ {
		return e.f.Not(e.eqVal(a, b)), true
	}
	if isStr(a) && isStr(b) {
		switch x.Op {
		case token.ADD:
			return e.strConcat(a, b), true
		case token.LSS:
			return e.strLess(a, b), true
		case token.GTR:
			return e.strLess(b, a), true
		case token.LEQ:
			return e.f.Not(e.strLess(b, a)), true
		case token.GEQ:
			return e.f.Not(e.strLess(a, b)), true
		}
	}
	panic(engineErr{fmt.Sprintf("binop %s on %T %T", x.Op, a, b)})
}

// eqVal builds the equality of two Go values (comparison semantics).
func (e *Engine) eqVal(a, b Value) *Term {
	f := e.f
	if ua, ok := a.(*Union); ok {
		r := f.ff
		for _, x := range ua.alts {
			r = f.Or(r, f.And(x.g, e.eqVal(x.v, b)))
		}
		return r
	}
	if ub, ok := b.(*Union); ok {
		r := f.ff
		for _, x := range ub.alts {
			r = f.Or(r, f.And(x.g, e.eqVal(a, x.v)))
		}
		return r
	}
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.sort.k == KFP {
			return f.FBin(OFEq, x, y)
		}
		return f.Eq(x, y)
	case string, *SymStr:
		return e.strEq(a, b)
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return f.Bool(x == y)
		}
	case *StructV:
		y := b.(*StructV)
		r := f.tt
		for i := range x.f {
			r = f.And(r, e.eqVal(x.f[i], y.f[i]))
			if r == f.ff {
				return r
			}
		}
		return r
	case *ArrayV:
		y := b.(*ArrayV)
		r := f.tt
		for i := range x.e {
			r = f.And(r, e.eqVal(x.e[i], y.e[i]))
			if r == f.ff {
				return r
			}
		}
		return r
	case IfaceV:
		switch y := b.(type) {
		case IfaceV:
			if x.typ == nil || y.typ == nil {
				return f.Bool(x.typ == nil && y.typ == nil)
			}
			if !types.Identical(x.typ, y.typ) {
				return f.ff
			}
			return e.eqVal(x.val, y.val)
		}
	case SliceV:
		// only comparison with nil
		y, ok := b.(SliceV)
		if ok {
			if y.arr.obj == 0 {
				return f.Bool(x.arr.obj == 0)
			}
			if x.arr.obj == 0 {
				return f.ff
			}
		}
	case MapV:
		if y, ok := b.(MapV); ok {
			return f.Bool(x.obj == y.obj)
		}
	case ChanV:
		if y, ok := b.(ChanV); ok {
			return f.Bool(x.obj == y.obj)
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			if x.nilf || y.nilf {
				return f.Bool(x.nilf && y.nilf)
			}
		}
	case *NatV:
		if y, ok := b.(*NatV); ok {
			return f.Bool(x == y)
		}
	}
	panic(engineErr{fmt.Sprintf("eq of %T and %T", a, b)})
}

// ---- concretization

// concreteTerm returns a constant for t, forking over feasible values if needed.
func (e *Engine) concreteTerm(st *State, fr *Frame, reg ssa.Value, t *Term) (*Term, bool) {
	if t.isConst() {
		return t, true
	}
	var alts []Alt
	if t.leaves > 0 && t.leaves < 512 {
		alts = e.termAlts(t)
	} else {
		// enumerate by solver
		rest := e.f.tt
		for i := 0; ; i++ {
			if i > 300 {
				panic(engineErr{"too many values to concretize"})
			}
			r, m := e.feasible(st, rest)
			if r != Sat {
				break
			}
			if m == nil {
				break
			}
			v := e.f.Const(m.Eval(t), t.sort)
			g := e.f.Eq(t, v)
			alts = append(alts, Alt{g, v})
			rest = e.f.And(rest, e.f.Not(g))
		}
		if len(alts) == 0 {
			panic(engineErr{"no feasible value"})
		}
	}
	e.forkAlts(st, alts, func(s *State, v Value) {
		e.set(s.top(), reg, v)
		s.hold = true
	})
	return nil, false
}

// termAlts lists (guard, constant) alternatives of an ite-tree.
func (e *Engine) termAlts(t *Term) []Alt {
	var alts []Alt
	var rec func(t *Term, g *Term)
	rec = func(t *Term, g *Term) {
		if g == e.f.ff {
			return
		}
		if t.op == OIte {
			rec(t.args[1], e.f.And(g, t.args[0]))
			rec(t.args[2], e.f.And(g, e.f.Not(t.args[0])))
			return
		}
		alts = e.addAlt(alts, g, t)
	}
	rec(t, e.f.tt)
	return alts
}

func (e *Engine) concreteInt(st *State, fr *Frame, v ssa.Value) (int64, bool) {
	t, ok := e.get(fr, v).(*Term)
	if !ok {
		panic(engineErr{"int expected"})
	}
	c, ok := e.concreteTerm(st, fr, v, t)
	if !ok {
		return 0, false
	}
	return sext(c.c, c.sort.w), true
}

func (e *Engine) makeSlice(st *State, sub int, et types.Type, l, c int) SliceV {
	arr := &ArrayV{e: make([]Value, c)}
	z := e.zero(et)
	for i := range arr.e {
		if i == 0 {
			arr.e[i] = z
		} else {
			arr.e[i] = copyVal(z)
		}
	}
	id := e.alloc(st, sub, arr, nil)
	e.raceAlloc(st, id)
	return SliceV{arr: Ptr{obj: id}, len: l, cap: c}
}

func (e *Engine) doSlice(st *State, fr *Frame, x *ssa.Slice) bool {
	v, ok := e.resolve(st, fr, x.X)
	if !ok {
		return true
	}
	get := func(s ssa.Value, def int) (int, bool) {
		if s == nil {
			return def, true
		}
		i, ok := e.concreteInt(st, fr, s)
		return int(i), ok
	}
	lo, ok := get(x.Low, 0)
	if !ok {
		return true
	}
	switch s := v.(type) {
	case string, *SymStr:
		n := e.strLenC(v)
		hi, ok := get(x.High, n)
		if !ok {
			return true
		}
		if lo < 0 || hi > n || lo > hi {
			e.doPanic(st, e.runtimeErr("slice bounds out of range"), "slice bounds out of range (string)")
			return true
		}
		e.set(fr, x, e.strSub(v, lo, hi))
		fr.pc++
		return false
	case SliceV:
		hi, ok := get(x.High, s.len)
		if !ok {
			return true
		}
		mx, ok := get(x.Max, s.cap)
		if !ok {
			return true
		}
		if lo < 0 || lo > hi || hi > mx || mx > s.cap {
			e.doPanic(st, e.runtimeErr("slice bounds out of range"), fmt.Sprintf("slice bounds out of range [%d:%d] cap %d", lo, hi, s.cap))
			return true
		}
		e.set(fr, x, SliceV{arr: s.arr, off: s.off + lo, len: hi - lo, cap: mx - lo})
		fr.pc++
		return false
	case Ptr:
		if s.obj == 0 {
			e.doPanic(st, e.runtimeErr("nil pointer dereference"), "nil array slice")
			return true
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := int(at.Len())
		hi, ok := get(x.High, n)
		if !ok {
			return true
		}
		mx, ok := get(x.Max, n)
		if !ok {
			return true
		}
		if lo < 0 || lo > hi || hi > mx || mx > n {
			e.doPanic(st, e.runtimeErr("slice bounds out of range"), "slice bounds out of range (array)")
			return true
		}
		e.set(fr, x, SliceV{arr: s, off: lo, len: hi - lo, cap: mx - lo})
		fr.pc++
		return false
	}
	panic(engineErr{fmt.Sprintf("slice of %T", v)})
}

func (e *Engine) toI64(t *Term, typ types.Type) *Term {
	if t.sort.w == 64 {
		return t
	}
	if isSigned(typ) {
		return e.f.SExt(t, 64)
	}
	return e.f.ZExt(t, 64)
}

func (e *Engine) doIndexAddr(st *State, fr *Frame, x *ssa.IndexAddr) bool {
	v := e.get(fr, x.X)
	idx, ok := e.get(fr, x.Index).(*Term)
	if !ok {
		panic(engineErr{"index"})
	}
	idx = e.toI64(idx, x.Index.Type())
	var arrLen int64 = -1
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		arrLen = p.Elem().Underlying().(*types.Array).Len()
	}
	// bounds
	type base struct {
		g   *Term
		p   Ptr
		off int
		n   int
	}
	var bases []base
	for _, a := range e.altsOf(v) {
		switch s := a.v.(type) {
		case SliceV:
			bases = append(bases, base{a.g, s.arr, s.off, s.len})
		case Ptr:
			if s.obj == 0 {
				if a.g != e.f.tt {
					_, ok := e.resolve(st, fr, x.X)
					if !ok {
						return true
					}
				}
				e.doPanic(st, e.runtimeErr("nil pointer dereference"), "nil array index")
				return true
			}
			bases = append(bases, base{a.g, s, 0, int(arrLen)})
		default:
			panic(engineErr{fmt.Sprintf("indexaddr of %T", a.v)})
		}
	}
	bad := e.f.ff
	for _, b := range bases {
		oob := e.f.Not(e.f.Bin(OULt, idx, e.f.BV(uint64(b.n), 64)))
		bad = e.f.Or(bad, e.f.And(b.g, oob))
	}
	if bad != e.f.ff {
		d := ""
		if idx.isConst() && len(bases) == 1 {
			d = fmt.Sprintf(" [%d] with length %d", int64(idx.c), bases[0].n)
		}
		if !e.branchPanic(st, bad, "index out of range"+d) {
			return true
		}
		fr = st.top()
	}
	var alts []Alt
	for _, b := range bases {
		if b.n == 0 {
			continue
		}
		if idx.isConst() {
			if idx.c < uint64(b.n) {
				alts = e.addAlt(alts, b.g, Ptr{b.p.obj, pathAppend(b.p.path, b.off+int(idx.c))})
			}
			continue
		}
		if b.n > 128 {
			if _, ok := e.concreteTerm(st, fr, x.Index, e.get(fr, x.Index).(*Term)); !ok {
				return true
			}
		}
		for k := 0; k < b.n; k++ {
			g := e.f.And(b.g, e.f.Eq(idx, e.f.BV(uint64(k), 64)))
			alts = e.addAlt(alts, g, Ptr{b.p.obj, pathAppend(b.p.path, b.off+k)})
		}
	}
	if len(alts) == 0 {
		e.kill(st, "")
		return true
	}
	e.set(fr, x, e.mkUnion(alts))
	fr.pc++
	return false
}

func (e *Engine) doIndex(st *State, fr *Frame, x *ssa.Index) bool {
	v := e.get(fr, x.X)
	idx := e.toI64(e.get(fr, x.Index).(*Term), x.Index.Type())
	if isStr(v) {
		return e.strIndex(st, fr, x, x.X, v, idx)
	}
	a, ok := v.(*ArrayV)
	if !ok {
		panic(engineErr{fmt.Sprintf("index of %T", v)})
	}
	bad := e.f.Not(e.f.Bin(OULt, idx, e.f.BV(uint64(len(a.e)), 64)))
	if !e.branchPanic(st, bad, "index out of range") {
		return true
	}
	fr = st.top()
	var r Value
	if idx.isConst() {
		r = copyVal(a.e[idx.c])
	} else {
		for k := len(a.e) - 1; k >= 0; k-- {
			if r == nil {
				r = a.e[k]
			} else {
				r = e.merge(e.f.Eq(idx, e.f.BV(uint64(k), 64)), a.e[k], r, false)
			}
		}
	}
	e.set(fr, x, r)
	fr.pc++
	return false
}

func (e *Engine) strIndex(st *State, fr *Frame, dst ssa.Value, src ssa.Value, v Value, idx *Term) bool {
	if _, isU := v.(*Union); isU && src != nil {
		if _, ok := e.resolve(st, fr, src); !ok {
			return true
		}
		v = e.get(fr, src)
	}
	n := e.strLenC(v)
	bad := e.f.Not(e.f.Bin(OULt, idx, e.f.BV(uint64(n), 64)))
	if !e.branchPanic(st, bad, "index out of range (string)") {
		return true
	}
	fr = st.top()
	bs := e.strBytes(v)
	var r *Term
	if idx.isConst() {
		r = bs[idx.c]
	} else {
		for k := n - 1; k >= 0; k-- {
			if r == nil {
				r = bs[k]
			} else {
				r = e.f.Ite(e.f.Eq(idx, e.f.BV(uint64(k), 64)), bs[k], r)
			}
		}
	}
	e.set(fr, dst, r)
	fr.pc++
	return false
}

// ---- maps

func (e *Engine) mapLookup(st *State, m MapV, key Value, zero Value) (Value, *Term) {
	if m.obj == 0 {
		return zero, e.f.ff
	}
	o := st.heap.get(m.obj)
	mo := o.val.(*MapObj)
	ok := e.f.ff
	res := zero
	for i := range mo.es {
		en := &mo.es[i]
		if en.present == e.f.ff {
			continue
		}
		c := e.eqVal(en.key, key)
		if c == e.f.ff {
			continue
		}
		c = e.f.And(c, en.present)
		if c == e.f.ff {
			continue
		}
		if c == e.f.tt {
			return copyVal(en.val), e.f.tt
		}
		res = e.merge(c, copyVal(en.val), res, false)
		ok = e.f.Or(ok, c)
	}
	return res, ok
}

func (e *Engine) mapUpdate(st *State, m MapV, key, val Value) {
	o := st.heap.mut(m.obj)
	mo := o.val.(*MapObj)
	covered := e.f.ff
	same := -1
	val = copyVal(val)
	for i := range mo.es {
		en := &mo.es[i]
		if sameVal(en.key, key) {
			if en.present == e.f.tt {
				en.val = val
				return
			}
			same = i
			continue
		}
		if en.present == e.f.ff {
			continue
		}
		c := e.eqVal(en.key, key)
		if c == e.f.ff {
			continue
		}
		c = e.f.And(c, en.present)
		if c == e.f.ff {
			continue
		}
		en.val = e.merge(c, copyVal(val), en.val, false)
		covered = e.f.Or(covered, c)
		if c == e.f.tt {
			return
		}
	}
	add := e.f.Not(covered)
	if add == e.f.ff {
		return
	}
	if same >= 0 {
		en := &mo.es[same]
		en.val = val
		en.present = e.f.Or(en.present, add)
		if en.present == e.f.tt || true {
			// re-inserted: keep position
		}
		return
	}
	mo.es = append(mo.es, MapEntry{key, val, add})
}

func (e *Engine) mapDelete(st *State, m MapV, key Value) {
	if m.obj == 0 {
		return
	}
	o := st.heap.mut(m.obj)
	mo := o.val.(*MapObj)
	w := 0
	for i := range mo.es {
		en := mo.es[i]
		if en.present != e.f.ff {
			c := e.eqVal(en.key, key)
			en.present = e.f.And(en.present, e.f.Not(c))
		}
		if en.present == e.f.ff {
			continue
		}
		mo.es[w] = en
		w++
	}
	mo.es = mo.es[:w]
}

func (e *Engine) mapLen(st *State, m MapV) *Term {
	if m.obj == 0 {
		return e.f.BV(0, 64)
	}
	mo := st.heap.get(m.obj).val.(*MapObj)
	r := e.f.BV(0, 64)
	for _, en := range mo.es {
		r = e.f.Bin(OAdd, r, e.f.Ite(en.present, e.f.BV(1, 64), e.f.BV(0, 64)))
	}
	return r
}

func (e *Engine) doLookup(st *State, fr *Frame, x *ssa.Lookup) bool {
	v := e.get(fr, x.X)
	if isStr(v) {
		idx := e.toI64(e.get(fr, x.Index).(*Term), x.Index.Type())
		return e.strIndex(st, fr, x, x.X, v, idx)
	}
	mv, ok := e.resolve(st, fr, x.X)
	if !ok {
		return true
	}
	m := mv.(MapV)
	if m.obj != 0 {
		e.raceAccess(st, Ptr{obj: m.obj}, false)
	}
	mt := x.X.Type().Underlying().(*types.Map)
	val, okT := e.mapLookup(st, m, e.get(fr, x.Index), e.zero(mt.Elem()))
	if x.CommaOk {
		e.set(fr, x, TupleV{val, okT})
	} else {
		e.set(fr, x, val)
	}
	fr.pc++
	return false
}

func (e *Engine) doRange(st *State, fr *Frame, x *ssa.Range) bool {
	v, ok := e.resolve(st, fr, x.X)
	if !ok {
		return true
	}
	if isStr(v) {
		id := e.alloc(st, 0, &IterObj{isStr: true, str: v}, nil)
		e.set(fr, x, Ptr{obj: id})
		fr.pc++
		return false
	}
	m := v.(MapV)
	it := &IterObj{m: m.obj}
	if m.obj != 0 {
		e.raceAccess(st, Ptr{obj: m.obj}, false)
		for _, en := range st.heap.get(m.obj).val.(*MapObj).es {
			if en.present != e.f.ff {
				it.keys = append(it.keys, en.key)
			}
		}
	}
	n := len(it.keys)
	set := func(s *State, keys []Value) {
		id := e.alloc(s, 0, &IterObj{m: m.obj, keys: keys}, nil)
		f := s.top()
		e.set(f, x, Ptr{obj: id})
		f.pc++
	}
	mode := st.mapOrder
	if isHarnessFn(fr.fi.fn) || n < 2 {
		mode = 0
	}
	switch mode {
	case 1:
		r := make([]Value, n)
		for i, k := range it.keys {
			r[n-1-i] = k
		}
		set(st, r)
		return false
	case 2, 3:
		var orders [][]Value
		if mode == 2 || n > 4 {
			r := make([]Value, n)
			for i, k := range it.keys {
				r[n-1-i] = k
			}
			orders = [][]Value{it.keys, r}
			if n >= 3 {
				// rotations expose order dependence of the middle elements
				for k := 1; k < n && k < 3; k++ {
					orders = append(orders, append(append([]Value{}, it.keys[k:]...), it.keys[:k]...))
				}
			}
		} else {
			orders = permute(it.keys)
		}
		// decision variables: order index
		alts := []Alt{}
		rest := e.f.tt
		for i := range orders {
			if i == len(orders)-1 {
				alts = append(alts, Alt{rest, orders[i]})
				break
			}
			d := e.decision(st, fmt.Sprintf("order%d.%d", st.sw, i))
			alts = append(alts, Alt{e.f.And(rest, d), orders[i]})
			rest = e.f.And(rest, e.f.Not(d))
		}
		e.forkAlts(st, alts, func(s *State, v Value) { set(s, v.([]Value)) })
		return true
	}
	set(st, it.keys)
	return false
}

func permute(xs []Value) [][]Value {
	if len(xs) <= 1 {
		return [][]Value{append([]Value{}, xs...)}
	}
	var out [][]Value
	for i := range xs {
		rest := append(append([]Value{}, xs[:i]...), xs[i+1:]...)
		for _, p := range permute(rest) {
			out = append(out, append([]Value{xs[i]}, p...))
		}
	}
	return out
}

func (e *Engine) doNext(st *State, fr *Frame, x *ssa.Next) bool {
	ip := e.get(fr, x.Iter).(Ptr)
	o := st.heap.mut(ip.obj)
	it := o.val.(*IterObj)
	tup := x.Type().(*types.Tuple)
	if it.isStr {
		return e.nextStr(st, fr, x, it)
	}
	zk, zv := Value(e.f.ff), Value(e.f.ff)
	if tup.At(1).Type() != types.Typ[types.Invalid] {
		zk = e.zero(tup.At(1).Type())
	}
	if tup.At(2).Type() != types.Typ[types.Invalid] {
		zv = e.zero(tup.At(2).Type())
	}
	for it.pos < len(it.keys) {
		k := it.keys[it.pos]
		var en *MapEntry
		mo := st.heap.get(it.m).val.(*MapObj)
		if it.pos < len(mo.es) && sameVal(mo.es[it.pos].key, k) {
			en = &mo.es[it.pos]
		} else {
			for i := range mo.es {
				if sameVal(mo.es[i].key, k) {
					en = &mo.es[i]
					break
				}
			}
		}
		if en == nil || en.present == e.f.ff {
			it.pos++
			continue
		}
		if en.present == e.f.tt {
			e.raceAccess(st, Ptr{obj: it.m}, false)
			it.pos++
			e.set(fr, x, TupleV{e.f.tt, k, copyVal(en.val)})
			fr.pc++
			return false
		}
		p := en.present
		r1, m1 := e.feasible(st, p)
		if r1 == Unsat {
			st.assume(e.f.Not(p))
			it.pos++
			continue
		}
		np := e.f.Not(p)
		r2, m2 := e.feasible(st, np)
		if r2 != Unsat {
			s2 := st.fork(e)
			s2.assume(np)
			s2.model = m2
			f2 := s2.top()
			s2.heap.mut(ip.obj).val.(*IterObj).pos++
			// an absent entry counts as an empty iteration so that both paths
			// meet again at the loop head
			if h := f2.fi.heads[f2.block.Index]; h > 0 {
				f2.iters = append([]int32(nil), f2.iters...)
				f2.iters[h-1]++
				n := 0
				for _, in := range f2.block.Instrs {
					if _, ok := in.(*ssa.Phi); !ok {
						break
					}
					n++
				}
				f2.pc = n
			}
			e.push(s2)
			fr = st.top()
			o = st.heap.mut(ip.obj)
			it = o.val.(*IterObj)
		}
		st.assume(p)
		st.model = m1
		it.pos++
		e.set(fr, x, TupleV{e.f.tt, k, copyVal(en.val)})
		fr.pc++
		return true
	}
	// entries added during the iteration may be visited, or not
	if st.mapOrder >= 2 && !it.late && it.m != 0 && !isHarnessFn(fr.fi.fn) {
		var more []Value
		for _, en := range st.heap.get(it.m).val.(*MapObj).es {
			old := en.present == e.f.ff
			for i := 0; i < len(it.keys) && !old; i++ {
				old = sameVal(it.keys[i], en.key)
			}
			if !old {
				more = append(more, en.key)
			}
		}
		if len(more) > 0 {
			d := e.decision(st, fmt.Sprintf("late%d.%d", st.sw, len(it.keys)))
			s2 := st.fork(e)
			s2.assume(d)
			s2.model = nil
			i2 := s2.heap.mut(ip.obj).val.(*IterObj)
			i2.keys = append(append([]Value{}, i2.keys...), more...)
			e.push(s2)
			st.assume(e.f.Not(d))
			st.model = nil
			fr = st.top()
			st.heap.mut(ip.obj).val.(*IterObj).late = true
			return true
		}
	}
	e.set(fr, x, TupleV{e.f.ff, zk, zv})
	fr.pc++
	return false
}

func (e *Engine) nextStr(st *State, fr *Frame, x *ssa.Next, it *IterObj) bool {
	switch s := it.str.(type) {
	case string:
		if it.pos >= len(s) {
			e.set(fr, x, TupleV{e.f.ff, e.f.BV(0, 64), e.f.BV(0, 32)})
		} else {
			for i, r := range s[it.pos:] {
				_ = i
				n := len(string(r))
				if r == 0xFFFD {
					n = 1
					if strings.HasPrefix(s[it.pos:], "\uFFFD") {
						n = 3
					}
				}
				e.set(fr, x, TupleV{e.f.tt, e.f.BV(uint64(it.pos), 64), e.f.BV(uint64(r), 32)})
				it.pos += n
				break
			}
		}
		fr.pc++
		return false
	case *SymStr:
		if it.pos >= len(s.b) {
			e.set(fr, x, TupleV{e.f.ff, e.f.BV(0, 64), e.f.BV(0, 32)})
			fr.pc++
			return false
		}
		b := s.b[it.pos]
		if b.isConst() && b.c < 0x80 {
			e.set(fr, x, TupleV{e.f.tt, e.f.BV(uint64(it.pos), 64), e.f.BV(b.c, 32)})
			it.pos++
			fr.pc++
			return false
		}
		// ASCII only
		ascii := e.f.Bin(OULt, b, e.f.BV(0x80, 8))
		if r, _ := e.feasible(st, e.f.Not(ascii)); r != Unsat {
			panic(engineErr{"range over non-ascii symbolic string"})
		}
		e.set(fr, x, TupleV{e.f.tt, e.f.BV(uint64(it.pos), 64), e.f.ZExt(b, 32)})
		it.pos++
		fr.pc++
		return false
	}
	panic(engineErr{"range over string union"})
}

// ---- type assertions

func (e *Engine) typeAssert(st *State, fr *Frame, x *ssa.TypeAssert) bool {
	v, ok := e.resolve(st, fr, x.X)
	if !ok {
		return true
	}
	i, isI := v.(IfaceV)
	if !isI {
		panic(engineErr{fmt.Sprintf("type assert on %T", v)})
	}
	good := false
	var res Value
	if i.typ != nil {
		if it, isIface := x.AssertedType.Underlying().(*types.Interface); isIface {
			if types.Implements(i.typ, it) {
				good = true
				res = i
			}
		} else if types.Identical(i.typ, x.AssertedType) {
			good = true
			res = copyVal(i.val)
		}
	}
	if x.CommaOk {
		if !good {
			res = e.zero(x.AssertedType)
		}
		e.set(fr, x, TupleV{res, e.f.Bool(good)})
		fr.pc++
		return false
	}
	if !good {
		e.doPanic(st, e.runtimeErr("interface conversion"), fmt.Sprintf("interface conversion: %v is not %v", i.typ, x.AssertedType))
		return true
	}
	e.set(fr, x, res)
	fr.pc++
	return false
}

// ---- calls

// prepCall evaluates callee and arguments. ok=false: st was forked or died.
func (e *Engine) prepCall(st *State, fr *Frame, c *ssa.CallCommon) (*FuncV, []Value, bool) {
	if c.IsInvoke() {
		v, ok := e.resolve(st, fr, c.Value)
		if !ok {
			return nil, nil, false
		}
		i, isI := v.(IfaceV)
		if !isI {
			panic(engineErr{fmt.Sprintf("invoke on %T", v)})
		}
		if i.typ == nil {
			e.doPanic(st, e.runtimeErr("nil pointer dereference"), "method call on nil interface")
			return nil, nil, false
		}
		fn := e.P.lookupMethod(i.typ, c.Method)
		if fn == nil {
			panic(engineErr{"no method " + c.Method.Name() + " on " + i.typ.String()})
		}
		args := []Value{copyVal(i.val)}
		for _, a := range c.Args {
			args = append(args, e.get(fr, a))
		}
		return &FuncV{fn: fn}, args, true
	}
	var fv *FuncV
	switch x := c.Value.(type) {
	case *ssa.Function:
		fv = &FuncV{fn: x}
	case *ssa.Builtin:
		fv = &FuncV{builtin: x.Name()}
	default:
		v, ok := e.resolve(st, fr, c.Value)
		if !ok {
			return nil, nil, false
		}
		f, ok := v.(*FuncV)
		if !ok {
			panic(engineErr{fmt.Sprintf("call of %T", v)})
		}
		fv = f
	}
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = e.get(fr, a)
	}
	return fv, args, true
}

func (p *Prog) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (e *Engine) doCall(st *State, fr *Frame, x *ssa.Call) bool {
	fv, args, ok := e.prepCall(st, fr, &x.Call)
	if !ok {
		return true
	}
	fr = st.top()
	if fv.builtin != "" {
		pc := fr.pc
		r := e.callBuiltin(st, fv.builtin, args, x)
		if st.dead {
			return true
		}
		if r == nil {
			return true // forked; retry
		}
		fr = st.top()
		if fr.pc == pc {
			e.set(fr, x, r)
			fr.pc++
		}
		return false
	}
	// intrinsics may need to fork and retry: pc is advanced by finishCall
	name := fnName(fv.fn)
	if !fv.nilf {
		if _, isModel := e.modelsTab[name]; !isModel {
			if in, ok := intrinsics[name]; ok {
				e.funcsRun[fv.fn]++
				depth := len(st.gor().frames)
				sid, pc := st.cur, fr.pc
				r, handled := in(e, st, fv.fn, args)
				if st.dead {
					return true
				}
				if handled {
					if st.cur != sid || len(st.gor().frames) != depth {
						return true
					}
					f := st.top()
					if f.pc != pc || f.block != fr.block {
						return true
					}
					if r == retryV {
						return true
					}
					if r != nil {
						e.set(f, x, r)
					} else {
						e.set(f, x, TupleV{})
					}
					f.pc++
					return false
				}
			}
		}
	}
	fr = st.top()
	// advance the caller only after the frame hash has been taken at the call site
	e.callValue(st, fv, args, x, false)
	if st.dead {
		return true
	}
	g := st.gor()
	if len(g.frames) >= 2 {
		k := len(g.frames) - 2
		c := g.frames[k]
		if c.fi == fr.fi && c.block == fr.block && c.pc == fr.pc && g.frames[k+1].call == ssa.Value(x) && g.frames[k+1].block == g.frames[k+1].fi.fn.Blocks[0] && g.frames[k+1].pc == 0 {
			g.frames[k+1].adv = true
		}
	}
	return true
}

type retryT struct{}

var retryV Value = &retryT{}
