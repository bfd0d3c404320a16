package main

import (
	"net/mail"
	"net/url"

	"errors"
	"fmt"
	"go/types"
	"hash/fnv"
	"math"
	"math/bits"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool)

var intrinsics map[string]intrinsic

// natives lifted over enumerable arguments; anything else runs the real code
// (or fails as unsupported when the real code cannot be encoded).
func lifted(fn func(e *Engine, cs []Value) Value) intrinsic {
	return func(e *Engine, st *State, f *ssa.Function, args []Value) (Value, bool) {
		return e.liftVals(args, 4096, func(cs []Value) Value { return fn(e, cs) })
	}
}

func cInt(v Value) int64             { t := v.(*Term); return sext(t.c, t.sort.w) }
func cF(v Value) float64             { t := v.(*Term); return fpval(t.c, t.sort.w) }
func (e *Engine) vInt(i int64) Value { return e.f.BV(uint64(i), 64) }

func strFn1(fn func(string) string) intrinsic {
	return lifted(func(e *Engine, cs []Value) Value { return fn(cs[0].(string)) })
}
func strFn2(fn func(a, b string) string) intrinsic {
	return lifted(func(e *Engine, cs []Value) Value { return fn(cs[0].(string), cs[1].(string)) })
}
func strPred2(fn func(a, b string) bool) intrinsic {
	return lifted(func(e *Engine, cs []Value) Value { return e.f.Bool(fn(cs[0].(string), cs[1].(string))) })
}
func strInt2(fn func(a, b string) int) intrinsic {
	return lifted(func(e *Engine, cs []Value) Value { return e.vInt(int64(fn(cs[0].(string), cs[1].(string)))) })
}
func mathFn1(tag string, fn func(float64) float64) intrinsic {
	return func(e *Engine, st *State, f *ssa.Function, args []Value) (Value, bool) {
		t := args[0].(*Term)
		r := e.f.FUn(tag, t, fn)
		if r == nil {
			panic(engineErr{"math." + tag + " of a symbolic float"})
		}
		return r, true
	}
}
func mathFn2(fn func(a, b float64) float64) intrinsic {
	return lifted(func(e *Engine, cs []Value) Value { return e.f.F64(fn(cF(cs[0]), cF(cs[1]))) })
}

func constFn(fn func(e *Engine) Value) intrinsic {
	return func(e *Engine, st *State, f *ssa.Function, args []Value) (Value, bool) { return fn(e), true }
}

// errValue makes an error with the given text, like errors.New.
func (e *Engine) errValue(st *State, sub int, text string) Value {
	t := e.P.errString
	if t == nil {
		panic(engineErr{"errors package not loaded"})
	}
	id := e.alloc(st, 900+sub, &StructV{f: []Value{text}}, t)
	return IfaceV{types.NewPointer(t), Ptr{obj: id}}
}

// fmtArg converts a concrete value for use with the native fmt package.
func (e *Engine) fmtArg(v Value, t types.Type) (interface{}, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case *Term:
		if !x.isConst() {
			return nil, false
		}
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return nil, false
		}
		switch b.Kind() {
		case types.Bool:
			return x.c != 0, true
		case types.Int, types.Int64, types.UntypedInt:
			return int(sext(x.c, x.sort.w)), true
		case types.Int8:
			return int8(x.c), true
		case types.Int16:
			return int16(x.c), true
		case types.Int32:
			return int32(x.c), true
		case types.Uint8:
			return uint8(x.c), true
		case types.Uint16:
			return uint16(x.c), true
		case types.Uint32:
			return uint32(x.c), true
		case types.Uint, types.Uint64, types.Uintptr:
			return x.c, true
		case types.Float64:
			return fpval(x.c, 64), true
		case types.Float32:
			return float32(fpval(x.c, 32)), true
		}
	}
	return nil, false
}

func (e *Engine) fmtArgs(st *State, v Value) ([]interface{}, bool) {
	s, ok := v.(SliceV)
	if !ok {
		return nil, false
	}
	var out []interface{}
	for _, x := range e.sliceVals(st, s) {
		i, ok := x.(IfaceV)
		if !ok {
			return nil, false
		}
		if i.typ == nil {
			out = append(out, nil)
			continue
		}
		if n, ok := i.typ.(*types.Named); ok && n.NumMethods() > 0 {
			return nil, false
		}
		a, ok := e.fmtArg(i.val, i.typ)
		if !ok {
			return nil, false
		}
		out = append(out, a)
	}
	return out, true
}

func sprintIntrinsic(kind int) intrinsic {
	return func(e *Engine, st *State, f *ssa.Function, args []Value) (Value, bool) {
		var format Value = ""
		va := args[len(args)-1]
		if kind == 1 {
			format = args[0]
		}
		s, ok := va.(SliceV)
		if !ok {
			panic(engineErr{"Sprint with symbolic argument list"})
		}
		vals := append([]Value{format}, e.sliceVals(st, s)...)
		r, ok := e.liftVals(vals, 2048, func(cs []Value) Value {
			var as []interface{}
			for _, c := range cs[1:] {
				i, ok := c.(IfaceV)
				if !ok {
					panic(engineErr{"Sprint argument"})
				}
				if i.typ == nil {
					as = append(as, nil)
					continue
				}
				a, ok := e.fmtArg(i.val, i.typ)
				if !ok {
					panic(engineErr{fmt.Sprintf("Sprint of %s", i.typ)})
				}
				as = append(as, a)
			}
			switch kind {
			case 0:
				return fmt.Sprint(as...)
			case 1:
				return fmt.Sprintf(cs[0].(string), as...)
			}
			return fmt.Sprintln(as...)
		})
		if !ok {
			panic(engineErr{"Sprint of non-enumerable values"})
		}
		return r, true
	}
}

// ---- hashing

type hashReg struct {
	alg   string
	items []Value
	val   *Term
}

func (e *Engine) hashSum(h *HashObj) *Term {
	f := e.f
	allC := true
	hh32, hh64 := fnv.New32a(), fnv.New64a()
	for _, it := range h.items {
		s, ok := it.(string)
		if !ok {
			allC = false
			break
		}
		if h.bits == 32 {
			hh32.Write([]byte(s))
		} else {
			hh64.Write([]byte(s))
		}
	}
	type hit struct {
		c *Term
		v *Term
	}
	var hits []hit
	for _, r := range e.hashes {
		if r.alg != h.alg {
			continue
		}
		c := e.eqItems(r.items, h.items)
		if c == f.tt {
			return r.val
		}
		if c != f.ff {
			hits = append(hits, hit{c, r.val})
		}
	}
	var val *Term
	if allC {
		if h.bits == 32 {
			val = f.BV(uint64(hh32.Sum32()), 32)
		} else {
			val = f.BV(hh64.Sum64(), 64)
		}
	} else {
		e.hashSeq++
		x := (e.hashSeq + 0x51ed27) * 0x9e3779b97f4a7c15
		x ^= x >> 29
		val = f.BV(x, h.bits)
	}
	for i := len(hits) - 1; i >= 0; i-- {
		val = f.Ite(hits[i].c, hits[i].v, val)
	}
	e.hashes = append(e.hashes, hashReg{h.alg, append([]Value(nil), h.items...), val})
	return val
}

func (e *Engine) emptyStr(v Value) bool {
	_, u := v.(*Union)
	return !u && isStr(v) && e.strLenC(v) == 0
}

// eqItems compares two hash inputs as byte streams.
func (e *Engine) eqItems(a, b []Value) *Term {
	return e.eqStream(a, b, "", "", map[[2]string]*Term{})
}

// eqStream compares a and b, where ka and kb name the first items if they are what
// is left of earlier ones.
func (e *Engine) eqStream(a, b []Value, ka, kb string, memo map[[2]string]*Term) *Term {
	f := e.f
	c := f.tt
	for {
		for len(a) > 0 && e.emptyStr(a[0]) {
			a, ka = a[1:], ""
		}
		for len(b) > 0 && e.emptyStr(b[0]) {
			b, kb = b[1:], ""
		}
		if len(a) == 0 && len(b) == 0 {
			return c
		}
		if len(b) == 0 {
			a, b, ka, kb = b, a, kb, ka
		}
		if len(a) == 0 {
			u, ok := b[0].(*Union)
			if !ok {
				return f.ff
			}
			r := f.ff
			for _, x := range u.alts {
				if e.strLenC(x.v) == 0 {
					r = f.Or(r, f.And(x.g, e.eqStream(nil, b[1:], "", "", memo)))
				}
			}
			return f.And(c, r)
		}
		ua, oka := a[0].(*Union)
		ub, okb := b[0].(*Union)
		if !oka && !okb {
			la, lb := e.strLenC(a[0]), e.strLenC(b[0])
			n := la
			if lb < n {
				n = lb
			}
			c = f.And(c, e.eqVal(e.strSub(a[0], 0, n), e.strSub(b[0], 0, n)))
			if c == f.ff {
				return c
			}
			if la == n {
				a, ka = a[1:], ""
			} else {
				a, ka = append([]Value{e.strSub(a[0], n, la)}, a[1:]...), resKey(e.strSub(a[0], n, la))
			}
			if lb == n {
				b, kb = b[1:], ""
			} else {
				b, kb = append([]Value{e.strSub(b[0], n, lb)}, b[1:]...), resKey(e.strSub(b[0], n, lb))
			}
			continue
		}
		if oka && okb && (ua == ub || e.sameLen(ua, ub)) {
			// equally long (or the same) first items: item by item
			if ua != ub {
				c = f.And(c, e.eqVal(ua, ub))
				if c == f.ff {
					return c
				}
			}
			a, b, ka, kb = a[1:], b[1:], "", ""
			continue
		}
		var key [2]string
		if ka != "?" && kb != "?" {
			key = [2]string{strconv.Itoa(len(a)) + ":" + ka, strconv.Itoa(len(b)) + ":" + kb}
			if t, ok := memo[key]; ok {
				return f.And(c, t)
			}
		}
		r := f.ff
		if !oka {
			for _, y := range ub.alts {
				r = f.Or(r, f.And(y.g, e.eqStream(a, append([]Value{y.v}, b[1:]...), ka, resKey(y.v), memo)))
			}
		} else {
			for _, x := range ua.alts {
				r = f.Or(r, f.And(x.g, e.eqStream(append([]Value{x.v}, a[1:]...), b, resKey(x.v), kb, memo)))
			}
		}
		if ka != "?" && kb != "?" {
			memo[key] = r
		}
		return f.And(c, r)
	}
}

// resKey names a part of a string, "?" if it is not known.
func resKey(v Value) string {
	if s, ok := v.(string); ok {
		return "=" + s
	}
	return "?"
}

func (e *Engine) sameLen(a, b *Union) bool {
	n := e.strLenC(a.alts[0].v)
	for _, u := range []*Union{a, b} {
		for _, x := range u.alts {
			if e.strLenC(x.v) != n {
				return false
			}
		}
	}
	return true
}

func (e *Engine) sliceStr(st *State, v Value) Value {
	var alts []Alt
	for _, a := range e.altsOf(v) {
		alts = e.addAlt(alts, a.g, e.mkStr(e.sliceTerms(st, a.v.(SliceV))))
	}
	return e.mkUnion(alts)
}

func newHashIntr(bits_ int) intrinsic {
	return func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		id := e.alloc(st, 0, &HashObj{bits: bits_, alg: fmt.Sprintf("fnv%d", bits_)}, nil)
		pkg := fn.Pkg.Pkg
		tn := pkg.Scope().Lookup(fmt.Sprintf("sum%da", bits_))
		if tn == nil {
			panic(engineErr{"fnv type"})
		}
		return IfaceV{types.NewPointer(tn.Type()), Ptr{obj: id}}, true
	}
}

func hashWrite(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
	p := args[0].(Ptr)
	s := e.sliceStr(st, args[1])
	e.raceAccess(st, p, true)
	h := st.heap.mut(p.obj).val.(*HashObj)
	// adjacent concrete items are joined: hashing is streaming
	if cs, ok := s.(string); ok {
		if n := len(h.items); n > 0 {
			if ls, ok := h.items[n-1].(string); ok {
				h.items[n-1] = ls + cs
				return TupleV{e.vInt(int64(len(cs))), IfaceV{}}, true
			}
		}
		h.items = append(h.items, cs)
		return TupleV{e.vInt(int64(len(cs))), IfaceV{}}, true
	}
	h.items = append(h.items, s)
	return TupleV{e.vInt(0), IfaceV{}}, true
}

func hashSumI(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
	p := args[0].(Ptr)
	return e.hashSum(st.heap.get(p.obj).val.(*HashObj)), true
}

// ---- locks

func (st *State) lockSet(p Ptr, v int) {
	n := make(map[Ptr]int, len(st.locks)+1)
	for k, x := range st.locks {
		n[k] = x
	}
	if v == 0 {
		delete(n, p)
	} else {
		n[p] = v
	}
	st.locks = n
}

func lockIntr(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
	p := args[0].(Ptr)
	if p.obj == 0 {
		e.doPanic(st, e.runtimeErr("nil mutex"), "nil mutex")
		return nil, true
	}
	if st.locks[p] != 0 {
		e.block(st)
		return retryV, true
	}
	st.lockSet(p, 1)
	e.raceLock(st, p)
	return TupleV{}, true
}
func unlockIntr(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
	p := args[0].(Ptr)
	if st.locks[p] == 0 {
		e.doPanic(st, e.runtimeErr("unlock of unlocked mutex"), "unlock of unlocked mutex")
		return nil, true
	}
	st.lockSet(p, 0)
	e.raceUnlock(st, p, false)
	e.unblockAll(st)
	return TupleV{}, true
}

// atomicOp makes an atomic operation on args[0]; all of them are ordered.
func atomicOp(op func(e *Engine, old Value, args []Value) (Value, Value)) intrinsic {
	return func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		p, ok := args[0].(Ptr)
		if !ok || p.obj == 0 {
			panic(engineErr{"atomic operation on an unknown address"})
		}
		e.raceLock(st, p)
		r := st.race
		st.race = nil
		n, res := op(e, copyVal(e.loadRaw(st, p)), args[1:])
		if n != nil {
			e.storeRaw(st, p, n)
		}
		st.race = r
		e.raceUnlock(st, p, true)
		return res, true
	}
}

func wgAdd(d func(args []Value) int64) intrinsic {
	return func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		p := args[0].(Ptr)
		n := st.locks[p] + int(d(args))
		if n < 0 {
			e.doPanic(st, e.runtimeErr("negative WaitGroup counter"), "negative WaitGroup counter")
			return nil, true
		}
		st.lockSet(p, n)
		e.raceUnlock(st, p, true)
		if n == 0 {
			e.unblockAll(st)
		}
		return TupleV{}, true
	}
}
func wgWait(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
	p := args[0].(Ptr)
	if st.locks[p] != 0 {
		e.block(st)
		return retryV, true
	}
	e.raceLock(st, p)
	return TupleV{}, true
}

// ---- harness API

func (e *Engine) input(st *State, name, kind string, mk func() *InputInfo) *InputInfo {
	if in, ok := e.inputs[name]; ok {
		if in.kind != kind {
			panic(engineErr{"input " + name + " redeclared"})
		}
		return in
	}
	in := mk()
	in.name, in.kind = name, kind
	e.inputs[name] = in
	e.inputSeq = append(e.inputSeq, name)
	if in.t != nil && in.t.op == OVar {
		e.f.dom[in.t.name] = in.n
	}
	return in
}

func (e *Engine) menuInput(st *State, name, kind string, menu []Value) Value {
	n := len(menu)
	if n == 1 {
		return menu[0]
	}
	in := e.input(st, name, kind, func() *InputInfo {
		w := bits.Len(uint(n - 1))
		return &InputInfo{t: e.f.Var("in:"+name, bvSort(w)), n: n, menu: menu}
	})
	if in.n != n {
		panic(engineErr{"input " + name + " redeclared with another menu"})
	}
	w := int(in.t.sort.w)
	if n < 1<<uint(w) {
		st.assume(e.f.Bin(OULe, in.t, e.f.BV(uint64(n-1), w)))
	}
	var alts []Alt
	for i := 0; i < n; i++ {
		g := e.f.Eq(e.f.BV(uint64(i), w), in.t)
		alts = e.addAlt(alts, g, menu[i])
	}
	if _, ok := menu[0].(*Term); ok {
		r := alts[len(alts)-1].v.(*Term)
		for i := len(alts) - 2; i >= 0; i-- {
			r = e.f.Ite(alts[i].g, alts[i].v.(*Term), r)
		}
		return r
	}
	return e.mkUnion(alts)
}

func mustStr(v Value, what string) string {
	s, ok := v.(string)
	if !ok {
		panic(engineErr{what + " must be a concrete string"})
	}
	return s
}
func mustInt(v Value, what string) int64 {
	t, ok := v.(*Term)
	if !ok || !t.isConst() {
		panic(engineErr{what + " must be a concrete integer"})
	}
	return sext(t.c, t.sort.w)
}

func vvIntrinsics(m map[string]intrinsic) {
	const P = "github.com/patrickbr/gtfstidy/zz_verif/vv."
	m[P+"Bool"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		name := mustStr(args[0], "name")
		in := e.input(st, name, "bool", func() *InputInfo { return &InputInfo{t: e.f.Var("in:"+name, sortBool), n: 2} })
		return in.t, true
	}
	m[P+"Int"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		name := mustStr(args[0], "name")
		lo, hi := mustInt(args[1], "lo"), mustInt(args[2], "hi")
		if hi < lo {
			panic(engineErr{"empty range for " + name})
		}
		if lo == hi {
			return e.vInt(lo), true
		}
		in := e.input(st, name, "int", func() *InputInfo {
			w := bits.Len64(uint64(hi - lo))
			return &InputInfo{t: e.f.Var("in:"+name, bvSort(w)), lo: lo, n: int(hi - lo + 1)}
		})
		w := in.t.sort.w
		if uint64(hi-lo) != mask(w) {
			st.assume(e.f.Bin(OULe, in.t, e.f.BV(uint64(hi-lo), int(w))))
		}
		return e.f.Bin(OAdd, e.f.ZExt(in.t, 64), e.f.BV(uint64(lo), 64)), true
	}
	m[P+"Str"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		return e.menuInput(st, mustStr(args[0], "name"), "str", e.sliceVals(st, args[1].(SliceV))), true
	}
	m[P+"IntOf"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		return e.menuInput(st, mustStr(args[0], "name"), "intof", e.sliceVals(st, args[1].(SliceV))), true
	}
	m[P+"F64"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		return e.menuInput(st, mustStr(args[0], "name"), "f64", e.sliceVals(st, args[1].(SliceV))), true
	}
	m[P+"F32"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		return e.menuInput(st, mustStr(args[0], "name"), "f32", e.sliceVals(st, args[1].(SliceV))), true
	}
	m[P+"Pick"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		name := mustStr(args[0], "name")
		n := int(mustInt(args[1], "n"))
		var menu []Value
		for i := 0; i < n; i++ {
			menu = append(menu, e.f.BV(uint64(i), 64))
		}
		v := e.menuInput(st, name, "pick", menu)
		return e.forkRet(st, v)
	}
	m[P+"Concrete"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		return e.forkRet(st, args[0])
	}
	m[P+"Split"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		return e.forkRetS(st, args[0], true)
	}
	m[P+"Bytes"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		name := mustStr(args[0], "name")
		n := int(mustInt(args[1], "n"))
		var ts []*Term
		for i := 0; i < n; i++ {
			nm := fmt.Sprintf("%s#%d", name, i)
			in := e.input(st, nm, "byte", func() *InputInfo { return &InputInfo{t: e.f.Var("in:"+nm, bvSort(8)), n: 256} })
			ts = append(ts, in.t)
		}
		return e.mkStr(ts), true
	}
	m[P+"Assume"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		c := args[0].(*Term)
		r, md := e.feasible(st, c)
		if r == Unsat {
			e.deadP++
			st.dead = true
			return nil, true
		}
		st.assume(c)
		st.model = md
		return TupleV{}, true
	}
	m[P+"Assert"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		c := args[0].(*Term)
		label := mustStr(args[1], "label")
		e.asserts[label]++
		nc := e.f.Not(c)
		r, md := e.feasible(st, nc)
		if r == Sat {
			e.report(st, "assert", label, "assertion fails", md)
			r2, m2 := e.feasible(st, c)
			if r2 == Unsat {
				st.dead = true
				return nil, true
			}
			st.assume(c)
			st.model = m2
		} else if r == Unknown {
			e.incomplete["assert undecided: "+label]++
			st.assume(c)
			st.model = nil
		}
		return TupleV{}, true
	}
	m[P+"Cover"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		label := mustStr(args[0], "label")
		c := args[1].(*Term)
		if e.covers[label] == 0 {
			if r, _ := e.feasible(st, c); r == Sat {
				e.covers[label]++
			} else if _, ok := e.covers[label]; !ok {
				e.covers[label] = 0
			}
		}
		return TupleV{}, true
	}
	obs := func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		st.obs = append(st.obs, obsTerm{mustStr(args[0], "name"), args[1]})
		return TupleV{}, true
	}
	m[P+"ObsInt"], m[P+"ObsStr"], m[P+"ObsBool"] = obs, obs, obs
	logic := func(and bool) intrinsic {
		return func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
			ts := e.sliceTerms(st, args[0].(SliceV))
			if and {
				return e.f.And(ts...), true
			}
			return e.f.Or(ts...), true
		}
	}
	m[P+"And"] = logic(true)
	m[P+"Or"] = logic(false)
	m[P+"Implies"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		return e.f.Implies(args[0].(*Term), args[1].(*Term)), true
	}
	m[P+"Iff"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		return e.f.Eq(args[0].(*Term), args[1].(*Term)), true
	}
	m[P+"IteInt"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		return e.f.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term)), true
	}
	m[P+"IteStr"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		return e.merge(args[0].(*Term), args[1], args[2], false), true
	}
	m[P+"MapOrder"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		st.mapOrder = int(mustInt(args[0], "mode"))
		return TupleV{}, true
	}
	m[P+"Sched"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		st.sched = int(mustInt(args[0], "mode"))
		return TupleV{}, true
	}
	m[P+"Race"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		st.race = (&raceState{}).clone()
		return TupleV{}, true
	}
	m[P+"SetCPU"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		st.numCPU = args[0].(*Term)
		return TupleV{}, true
	}
	m[P+"Tier"] = constFn(func(e *Engine) Value { return e.vInt(int64(e.cfg.Tier)) })
	m[P+"Symbolic"] = constFn(func(e *Engine) Value { return e.f.tt })
	m[P+"AnyLen"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		return e.lenTerm(st, args[0].(IfaceV).val), true
	}
	m[P+"AnySwap"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		s := args[0].(IfaceV).val
		i, j := int(mustInt(args[1], "i")), int(mustInt(args[2], "j"))
		x, ok := s.(SliceV)
		if !ok {
			panic(engineErr{"AnySwap on union"})
		}
		p := Ptr{x.arr.obj, pathAppend(x.arr.path, x.off+i)}
		q := Ptr{x.arr.obj, pathAppend(x.arr.path, x.off+j)}
		a, b := copyVal(e.loadRaw(st, p)), copyVal(e.loadRaw(st, q))
		e.storeRaw(st, p, b)
		e.storeRaw(st, q, a)
		return TupleV{}, true
	}
	m[P+"N"] = lifted(func(e *Engine, cs []Value) Value {
		return cs[0].(string) + strconv.FormatInt(cInt(cs[1]), 10)
	})
	m[P+"Itoa"] = lifted(func(e *Engine, cs []Value) Value { return strconv.FormatInt(cInt(cs[0]), 10) })
}

// forkRet forks the current call instruction over the alternatives of v.
func (e *Engine) forkRet(st *State, v Value) (Value, bool) { return e.forkRetS(st, v, false) }

func (e *Engine) forkRetS(st *State, v Value, split bool) (Value, bool) {
	var alts []Alt
	switch x := v.(type) {
	case *Union:
		alts = x.alts
	case *Term:
		if x.isConst() {
			return x, true
		}
		if x.leaves > 0 {
			alts = e.termAlts(x)
		} else {
			rest := e.f.tt
			for i := 0; i < 300; i++ {
				r, m := e.feasible(st, rest)
				if r != Sat || m == nil {
					break
				}
				c := e.f.Const(m.Eval(x), x.sort)
				g := e.f.Eq(x, c)
				alts = append(alts, Alt{g, c})
				rest = e.f.And(rest, e.f.Not(g))
			}
		}
	default:
		return v, true
	}
	e.forkAlts(st, alts, func(s *State, v Value) {
		f := s.top()
		call, ok := f.block.Instrs[f.pc].(*ssa.Call)
		if !ok {
			panic(engineErr{"fork in a non-call"})
		}
		e.set(f, call, v)
		f.pc++
		if split {
			if t, ok := v.(*Term); ok && t.isConst() {
				s.split += fmt.Sprintf("%03x", t.c&0xfff)
			}
		}
	})
	return retryV, true
}

func init() {
	m := map[string]intrinsic{}
	intrinsics = m
	vvIntrinsics(m)

	// output
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		m[n] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
			return TupleV{e.vInt(0), IfaceV{}}, true
		}
	}
	for _, n := range []string{"(*os.File).Write", "(*os.File).WriteString"} {
		m[n] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
			n := 0
			switch x := args[1].(type) {
			case SliceV:
				n = x.len
			case string:
				n = len(x)
			default:
				return nil, false
			}
			return TupleV{e.vInt(int64(n)), IfaceV{}}, true
		}
	}
	// the time of day is one of 2024
	m["time.runtimeNow"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		return TupleV{e.f.BV(1717236000, 64), e.f.BV(0, 32), e.f.BV(1000000000, 64)}, true
	}
	m["time.runtimeNano"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		return e.f.BV(1000000000, 64), true
	}
	m["time.runtimeIsBubbled"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		return e.f.Bool(false), true
	}
	m["slices.overlaps"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		a, ok1 := args[0].(SliceV)
		b, ok2 := args[1].(SliceV)
		if !ok1 || !ok2 {
			return nil, false
		}
		return e.f.Bool(a.arr == b.arr && a.len > 0 && b.len > 0 && a.off < b.off+b.len && b.off < a.off+a.len), true
	}
	m["fmt.Sprint"] = sprintIntrinsic(0)
	m["fmt.Sprintf"] = sprintIntrinsic(1)
	m["fmt.Sprintln"] = sprintIntrinsic(2)
	m["fmt.Errorf"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		text := "<error>"
		if s, ok := args[0].(string); ok {
			text = s
			if as, ok := e.fmtArgs(st, args[1]); ok {
				text = fmt.Errorf(s, as...).Error()
			}
		}
		return e.errValue(st, 0, text), true
	}
	m["os.Exit"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		g := st.gor()
		g.panics = append(g.panics, &PanicInfo{msg: "exit", isExit: true, code: args[0].(*Term), pos: e.where(st)})
		e.unwind(st)
		return nil, true
	}

	m["(*net/url.URL).String"] = natStruct(func(g func(string) Value) Value {
		u := &url.URL{Scheme: g("Scheme").(string), Opaque: g("Opaque").(string), Host: g("Host").(string), Path: g("Path").(string), RawQuery: g("RawQuery").(string), Fragment: g("Fragment").(string)}
		return u.String()
	})
	m["(*net/mail.Address).String"] = natStruct(func(g func(string) Value) Value {
		u := &mail.Address{Name: g("Name").(string), Address: g("Address").(string)}
		return u.String()
	})

	// numbers
	m["strconv.Itoa"] = lifted(func(e *Engine, cs []Value) Value { return strconv.FormatInt(cInt(cs[0]), 10) })
	m["strconv.FormatInt"] = lifted(func(e *Engine, cs []Value) Value { return strconv.FormatInt(cInt(cs[0]), int(cInt(cs[1]))) })
	m["strconv.Quote"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		if r, ok := strFn1(strconv.Quote)(e, st, fn, args); ok {
			return r, true
		}
		return "\"<text>\"", true // only ever part of a message
	}
	m["strconv.ParseFloat"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		u, isU := args[0].(*Union)
		if !isU {
			s, ok := args[0].(string)
			if !ok {
				return nil, false
			}
			v, err := strconv.ParseFloat(s, int(mustInt(args[1], "bits")))
			var ev Value = IfaceV{}
			if err != nil {
				ev = e.errValue(st, 0, err.Error())
			}
			return TupleV{e.f.F64(v), ev}, true
		}
		var r Value
		for i := len(u.alts) - 1; i >= 0; i-- {
			s, ok := u.alts[i].v.(string)
			if !ok {
				panic(engineErr{"ParseFloat of symbolic bytes"})
			}
			v, err := strconv.ParseFloat(s, int(mustInt(args[1], "bits")))
			var ev Value = IfaceV{}
			if err != nil {
				ev = e.errValue(st, i, err.Error())
			}
			t := TupleV{e.f.F64(v), ev}
			if r == nil {
				r = t
			} else {
				r = e.merge(u.alts[i].g, t, r, false)
			}
		}
		return r, true
	}

	// strings
	m["strings.ToUpper"] = strFn1(strings.ToUpper)
	m["strings.ToLower"] = strFn1(strings.ToLower)
	m["strings.TrimSpace"] = strFn1(strings.TrimSpace)
	m["strings.Trim"] = strFn2(strings.Trim)
	m["strings.TrimLeft"] = strFn2(strings.TrimLeft)
	m["strings.TrimRight"] = strFn2(strings.TrimRight)
	m["strings.TrimPrefix"] = strFn2(strings.TrimPrefix)
	m["strings.TrimSuffix"] = strFn2(strings.TrimSuffix)
	m["strings.Contains"] = strPred2(strings.Contains)
	m["strings.HasPrefix"] = strPred2(strings.HasPrefix)
	m["strings.HasSuffix"] = strPred2(strings.HasSuffix)
	m["strings.EqualFold"] = strPred2(strings.EqualFold)
	m["strings.Index"] = strInt2(strings.Index)
	m["strings.LastIndex"] = strInt2(strings.LastIndex)
	m["strings.Count"] = strInt2(strings.Count)
	m["strings.Compare"] = strInt2(strings.Compare)
	m["strings.ReplaceAll"] = lifted(func(e *Engine, cs []Value) Value {
		return strings.ReplaceAll(cs[0].(string), cs[1].(string), cs[2].(string))
	})
	m["strings.Replace"] = lifted(func(e *Engine, cs []Value) Value {
		return strings.Replace(cs[0].(string), cs[1].(string), cs[2].(string), int(cInt(cs[3])))
	})
	m["strings.Repeat"] = lifted(func(e *Engine, cs []Value) Value { return strings.Repeat(cs[0].(string), int(cInt(cs[1]))) })
	m["strings.Split"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		s, ok1 := args[0].(string)
		sep, ok2 := args[1].(string)
		if !ok1 || !ok2 {
			return nil, false
		}
		arr := &ArrayV{}
		for _, p := range strings.Split(s, sep) {
			arr.e = append(arr.e, p)
		}
		id := e.alloc(st, 0, arr, nil)
		return SliceV{arr: Ptr{obj: id}, len: len(arr.e), cap: len(arr.e)}, true
	}
	m["strings.Clone"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) { return args[0], true }
	m["internal/stringslite.Clone"] = m["strings.Clone"]
	m["strconv.cloneString"] = m["strings.Clone"]
	ident := func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) { return args[0], true }
	m["internal/abi.NoEscape"] = ident
	m["strings.noescape"] = ident
	nop := func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) { return TupleV{}, true }
	m["(*strings.Builder).copyCheck"] = nop
	m["internal/race.Enable"], m["internal/race.Disable"] = nop, nop

	// math
	for n, fn := range map[string]func(float64) float64{"Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Exp": math.Exp, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Tanh": math.Tanh, "Ceil": math.Ceil, "Floor": math.Floor, "Trunc": math.Trunc, "Round": math.Round, "Asin": math.Asin, "Acos": math.Acos, "Atan": math.Atan, "Cbrt": math.Cbrt} {
		m["math."+n] = mathFn1(n, fn)
	}
	m["math.Sqrt"] = mathFn1("sqrt", math.Sqrt)
	m["math.Abs"] = mathFn1("abs", math.Abs)
	for n, fn := range map[string]func(a, b float64) float64{"Max": math.Max, "Min": math.Min, "Mod": math.Mod, "Pow": math.Pow, "Atan2": math.Atan2, "Hypot": math.Hypot, "Dim": math.Dim} {
		m["math."+n] = mathFn2(fn)
	}
	m["math.Inf"] = lifted(func(e *Engine, cs []Value) Value { return e.f.F64(math.Inf(int(cInt(cs[0])))) })
	m["math.NaN"] = constFn(func(e *Engine) Value { return e.f.F64(math.NaN()) })
	m["math.IsNaN"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		t := args[0].(*Term)
		return e.f.Not(e.f.FBin(OFEq, t, t)), true
	}
	m["math.IsInf"] = lifted(func(e *Engine, cs []Value) Value { return e.f.Bool(math.IsInf(cF(cs[0]), int(cInt(cs[1])))) })
	m["math.Float64bits"] = lifted(func(e *Engine, cs []Value) Value { return e.f.BV(cs[0].(*Term).c, 64) })
	m["math.Float32bits"] = lifted(func(e *Engine, cs []Value) Value { return e.f.BV(cs[0].(*Term).c, 32) })
	m["math.Float64frombits"] = lifted(func(e *Engine, cs []Value) Value { return e.f.F64(math.Float64frombits(cs[0].(*Term).c)) })
	m["math.Float32frombits"] = lifted(func(e *Engine, cs []Value) Value {
		return e.f.F32(math.Float32frombits(uint32(cs[0].(*Term).c)))
	})
	for _, n := range []string{"Float64bits", "Float64frombits", "Float32bits", "Float32frombits"} {
		if g, ok := m["math."+n]; ok {
			m["internal/strconv.f"+n[1:]] = g
		}
	}
	m["math/bits.Len64"] = lifted(func(e *Engine, cs []Value) Value { return e.vInt(int64(bits.Len64(cs[0].(*Term).c))) })
	m["math/bits.Len"] = m["math/bits.Len64"]

	// hashing
	m["hash/fnv.New32a"] = newHashIntr(32)
	m["hash/fnv.New64a"] = newHashIntr(64)
	m["(*hash/fnv.sum32a).Write"] = hashWrite
	m["(*hash/fnv.sum64a).Write"] = hashWrite
	m["(*hash/fnv.sum32a).Sum32"] = hashSumI
	m["(*hash/fnv.sum64a).Sum64"] = hashSumI

	// runtime & sync
	cpu := func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		if st.numCPU == nil {
			return e.f.BV(uint64(e.cfg.NumCPU), 64), true
		}
		return st.numCPU, true
	}
	m["runtime.GOMAXPROCS"] = cpu
	m["runtime.NumCPU"] = cpu
	m["runtime.GC"] = nop
	m["runtime.Gosched"] = nop
	m["runtime/debug.FreeOSMemory"] = nop
	m["(*sync.Mutex).Lock"] = lockIntr
	m["(*sync.Mutex).Unlock"] = unlockIntr
	m["(*sync.RWMutex).Lock"] = lockIntr
	m["(*sync.RWMutex).Unlock"] = unlockIntr
	m["(*sync.RWMutex).RLock"] = lockIntr
	m["(*sync.RWMutex).RUnlock"] = unlockIntr
	m["(*sync.WaitGroup).Add"] = wgAdd(func(a []Value) int64 { return mustInt(a[1], "delta") })
	m["(*sync.WaitGroup).Done"] = wgAdd(func(a []Value) int64 { return -1 })
	m["(*sync.WaitGroup).Wait"] = wgWait
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		t := t
		m["sync/atomic.Load"+t] = atomicOp(func(e *Engine, old Value, a []Value) (Value, Value) { return nil, old })
		m["sync/atomic.Store"+t] = atomicOp(func(e *Engine, old Value, a []Value) (Value, Value) { return a[0], TupleV{} })
		m["sync/atomic.Add"+t] = atomicOp(func(e *Engine, old Value, a []Value) (Value, Value) {
			n := e.f.Bin(OAdd, old.(*Term), a[0].(*Term))
			return n, n
		})
		m["sync/atomic.Swap"+t] = atomicOp(func(e *Engine, old Value, a []Value) (Value, Value) { return a[0], old })
		m["sync/atomic.CompareAndSwap"+t] = atomicOp(func(e *Engine, old Value, a []Value) (Value, Value) {
			c := e.f.Eq(old.(*Term), a[0].(*Term))
			return e.f.Ite(c, a[1].(*Term), old.(*Term)), c
		})
	}
	m["maps.clone"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		i := args[0].(IfaceV)
		mv := i.val.(MapV)
		if mv.obj == 0 {
			return args[0], true
		}
		old := st.heap.get(mv.obj)
		mo := old.val.(*MapObj)
		id := e.alloc(st, 0, &MapObj{es: append([]MapEntry(nil), mo.es...)}, old.typ)
		return IfaceV{i.typ, MapV{obj: id}}, true
	}

	// regexp on concrete patterns
	m["regexp.MustCompile"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		re, err := regexp.Compile(mustStr(args[0], "regexp"))
		if err != nil {
			e.doPanic(st, e.runtimeErr("regexp"), "regexp: "+err.Error())
			return nil, true
		}
		id := e.alloc(st, 0, &NatV{"regexp", re}, nil)
		return Ptr{obj: id}, true
	}
	reFn := func(f func(re *regexp.Regexp, e *Engine, cs []Value) Value) intrinsic {
		return func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
			p, ok := args[0].(Ptr)
			if !ok {
				panic(engineErr{"regexp union"})
			}
			n, ok := st.heap.get(p.obj).val.(*NatV)
			if !ok {
				panic(engineErr{"regexp object"})
			}
			r, ok := e.liftVals(args[1:], 4096, func(cs []Value) Value { return f(n.v.(*regexp.Regexp), e, cs) })
			if !ok {
				panic(engineErr{"regexp on symbolic bytes"})
			}
			return r, true
		}
	}
	m["(*regexp.Regexp).ReplaceAllString"] = reFn(func(re *regexp.Regexp, e *Engine, cs []Value) Value {
		return re.ReplaceAllString(cs[0].(string), cs[1].(string))
	})
	m["(*regexp.Regexp).MatchString"] = reFn(func(re *regexp.Regexp, e *Engine, cs []Value) Value {
		return e.f.Bool(re.MatchString(cs[0].(string)))
	})
	m["(*regexp.Regexp).FindString"] = reFn(func(re *regexp.Regexp, e *Engine, cs []Value) Value {
		return re.FindString(cs[0].(string))
	})

	reList := func(f func(re *regexp.Regexp, s string, n int) []string) intrinsic {
		return func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
			p, ok := args[0].(Ptr)
			if !ok {
				panic(engineErr{"regexp union"})
			}
			n, ok := st.heap.get(p.obj).val.(*NatV)
			if !ok {
				panic(engineErr{"regexp object"})
			}
			arr := &ArrayV{}
			for _, x := range f(n.v.(*regexp.Regexp), mustStr(args[1], "text"), int(mustInt(args[2], "n"))) {
				arr.e = append(arr.e, x)
			}
			id := e.alloc(st, 0, arr, nil)
			return SliceV{arr: Ptr{obj: id}, len: len(arr.e), cap: len(arr.e)}, true
		}
	}
	m["(*regexp.Regexp).Split"] = reList((*regexp.Regexp).Split)
	m["(*regexp.Regexp).FindAllString"] = reList((*regexp.Regexp).FindAllString)

	// byte-level assembly
	m["internal/bytealg.IndexByteString"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		bs := e.strBytes(args[0])
		c := args[1].(*Term)
		r := e.vInt(-1).(*Term)
		for i := len(bs) - 1; i >= 0; i-- {
			r = e.f.Ite(e.f.Eq(bs[i], c), e.f.BV(uint64(i), 64), r)
		}
		return r, true
	}
	m["internal/bytealg.CountString"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		r := e.vInt(0).(*Term)
		c := args[1].(*Term)
		for _, b := range e.strBytes(args[0]) {
			r = e.f.Bin(OAdd, r, e.f.Ite(e.f.Eq(b, c), e.f.BV(1, 64), e.f.BV(0, 64)))
		}
		return r, true
	}
	m["strings.IndexByte"] = m["internal/bytealg.IndexByteString"]
	m["internal/bytealg.MakeNoZero"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		n := int(mustInt(args[0], "n"))
		return e.makeSlice(st, 0, types.Typ[types.Uint8], n, n), true
	}
	m["errors.New"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		s, ok := args[0].(string)
		if !ok {
			return nil, false
		}
		return e.errValue(st, 0, s), true
	}
}

// ---- end of a path

func (e *Engine) finishPath(st *State) {
	if len(e.observes) >= e.cfg.NObs || len(st.obs) == 0 {
		return
	}
	m := st.modelOr(e)
	if m == nil {
		return
	}
	rec := ObsRecord{inputs: e.inputsOf(m)}
	for _, o := range st.obs {
		s, ok := e.evalVal(m, o.v)
		if !ok {
			return
		}
		rec.obs = append(rec.obs, ObsVal{o.name, s})
	}
	e.observes = append(e.observes, rec)
}

func (e *Engine) evalVal(m *Model, v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		c := m.Eval(x)
		if x.sort.k == KBool {
			return strconv.FormatBool(c != 0), true
		}
		if x.sort.k == KFP {
			return strconv.FormatFloat(fpval(c, x.sort.w), 'g', -1, int(x.sort.w)), true
		}
		return strconv.FormatInt(sext(c, x.sort.w), 10), true
	case string:
		return x, true
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, t := range x.b {
			b[i] = byte(m.Eval(t))
		}
		return string(b), true
	case *Union:
		for _, a := range x.alts {
			if m.Eval(a.g) != 0 {
				return e.evalVal(m, a.v)
			}
		}
	}
	return "", false
}

var _ = errors.New
var _ = sort.Ints

// natStruct evaluates a method of a struct with concrete fields natively.
func natStruct(fn func(get func(string) Value) Value) intrinsic {
	return func(e *Engine, st *State, f *ssa.Function, args []Value) (Value, bool) {
		pt := f.Signature.Recv().Type().(*types.Pointer)
		sty := pt.Elem().Underlying().(*types.Struct)
		var res Value
		as := e.altsOf(args[0])
		bad := e.f.ff
		for _, a := range as {
			if p, ok := a.v.(Ptr); ok && p.obj == 0 {
				bad = e.f.Or(bad, a.g)
			}
		}
		if !e.branchPanic(st, bad, "nil pointer dereference in "+f.String()) {
			return nil, true
		}
		for i := len(as) - 1; i >= 0; i-- {
			p, ok := as[i].v.(Ptr)
			if !ok {
				panic(engineErr{"method of no pointer in " + f.String()})
			}
			if p.obj == 0 {
				continue
			}
			sv := e.loadRaw(st, p).(*StructV)
			v := fn(func(n string) Value {
				for k := 0; k < sty.NumFields(); k++ {
					if sty.Field(k).Name() == n {
						if _, ok := sv.f[k].(string); !ok {
							panic(engineErr{"symbolic field in " + f.String()})
						}
						return sv.f[k]
					}
				}
				panic(engineErr{"no field " + n})
			})
			if res == nil {
				res = v
			} else {
				res = e.merge(as[i].g, v, res, false)
			}
		}
		return res, true
	}
}
