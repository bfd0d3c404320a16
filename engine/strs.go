package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- strings

func isStr(v Value) bool {
	switch x := v.(type) {
	case string, *SymStr:
		return true
	case *Union:
		for _, a := range x.alts {
			if !isStr(a.v) {
				return false
			}
		}
		return true
	}
	return false
}

func (e *Engine) strLenC(v Value) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *SymStr:
		return len(x.b)
	}
	panic(engineErr{fmt.Sprintf("string length of %T", v)})
}

func (e *Engine) strBytes(v Value) []*Term {
	switch x := v.(type) {
	case string:
		r := make([]*Term, len(x))
		for i := 0; i < len(x); i++ {
			r[i] = e.f.BV(uint64(x[i]), 8)
		}
		return r
	case *SymStr:
		return x.b
	}
	panic(engineErr{fmt.Sprintf("bytes of %T", v)})
}

// mkStr normalizes a byte-term list to a concrete string when possible.
func (e *Engine) mkStr(b []*Term) Value {
	buf := make([]byte, len(b))
	for i, t := range b {
		if !t.isConst() {
			return &SymStr{b: append([]*Term(nil), b...)}
		}
		buf[i] = byte(t.c)
	}
	return string(buf)
}

func (e *Engine) strSub(v Value, lo, hi int) Value {
	switch x := v.(type) {
	case string:
		return x[lo:hi]
	case *SymStr:
		return e.mkStr(x.b[lo:hi])
	}
	panic(engineErr{fmt.Sprintf("substring of %T", v)})
}

func (e *Engine) strEq(a, b Value) *Term {
	sa, ok1 := a.(string)
	sb, ok2 := b.(string)
	if ok1 && ok2 {
		return e.f.Bool(sa == sb)
	}
	if _, ok := a.(*Union); ok {
		return e.eqVal(a, b)
	}
	if _, ok := b.(*Union); ok {
		return e.eqVal(a, b)
	}
	if !isStr(a) || !isStr(b) {
		panic(engineErr{fmt.Sprintf("string eq of %T and %T", a, b)})
	}
	if e.strLenC(a) != e.strLenC(b) {
		return e.f.ff
	}
	x, y := e.strBytes(a), e.strBytes(b)
	r := e.f.tt
	for i := range x {
		r = e.f.And(r, e.f.Eq(x[i], y[i]))
		if r == e.f.ff {
			return r
		}
	}
	return r
}

func (e *Engine) strLess(a, b Value) *Term {
	f := e.f
	if ua, ok := a.(*Union); ok {
		r := f.ff
		for _, x := range ua.alts {
			r = f.Or(r, f.And(x.g, e.strLess(x.v, b)))
		}
		return r
	}
	if ub, ok := b.(*Union); ok {
		r := f.ff
		for _, x := range ub.alts {
			r = f.Or(r, f.And(x.g, e.strLess(a, x.v)))
		}
		return r
	}
	sa, ok1 := a.(string)
	sb, ok2 := b.(string)
	if ok1 && ok2 {
		return f.Bool(sa < sb)
	}
	x, y := e.strBytes(a), e.strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := f.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = f.Or(f.Bin(OULt, x[i], y[i]), f.And(f.Eq(x[i], y[i]), r))
	}
	return r
}

func (e *Engine) strConcat(a, b Value) Value {
	if ua, ok := a.(*Union); ok {
		var alts []Alt
		for _, x := range ua.alts {
			for _, y := range e.altsOf(e.strConcat(x.v, b)) {
				alts = e.addAlt(alts, e.f.And(x.g, y.g), y.v)
			}
		}
		return e.mkUnion(alts)
	}
	if ub, ok := b.(*Union); ok {
		var alts []Alt
		for _, y := range ub.alts {
			alts = e.addAlt(alts, y.g, e.strConcat(a, y.v))
		}
		return e.mkUnion(alts)
	}
	sa, ok1 := a.(string)
	sb, ok2 := b.(string)
	if ok1 && ok2 {
		return sa + sb
	}
	return e.mkStr(append(append([]*Term(nil), e.strBytes(a)...), e.strBytes(b)...))
}

// liftVals enumerates the combinations of concrete alternatives of args (unions
// and ite-trees over constants); fn gets concrete values. ok=false when an
// argument is not enumerable or there are too many combinations.
func (e *Engine) liftVals(args []Value, lim int, fn func(cs []Value) Value) (Value, bool) {
	lists := make([][]Alt, len(args))
	n := 1
	for i, a := range args {
		switch x := a.(type) {
		case *Term:
			if x.isConst() {
				lists[i] = []Alt{{e.f.tt, x}}
			} else if x.leaves > 0 && x.leaves <= 256 {
				lists[i] = e.termAlts(x)
			} else if x.sort.k == KBool {
				lists[i] = []Alt{{x, e.f.tt}, {e.f.Not(x), e.f.ff}}
			} else {
				return nil, false
			}
		case *Union:
			for _, al := range x.alts {
				switch y := al.v.(type) {
				case *Union, *SymStr:
					return nil, false
				case *Term:
					if !y.isConst() {
						return nil, false
					}
				case IfaceV:
					if y.typ != nil {
						switch z := y.val.(type) {
						case *Union, *SymStr:
							return nil, false
						case *Term:
							if !z.isConst() {
								return nil, false
							}
						}
					}
				}
			}
			lists[i] = x.alts
		case *SymStr:
			return nil, false
		case IfaceV:
			if x.typ == nil {
				lists[i] = []Alt{{e.f.tt, x}}
				break
			}
			v, ok := e.liftVals([]Value{x.val}, 256, func(cs []Value) Value { return IfaceV{x.typ, cs[0]} })
			if !ok {
				return nil, false
			}
			lists[i] = e.altsOf(v)
		default:
			lists[i] = []Alt{{e.f.tt, a}}
		}
		n *= len(lists[i])
		if n > lim {
			return nil, false
		}
	}
	var alts []Alt
	cs := make([]Value, len(args))
	var rec func(i int, g *Term)
	rec = func(i int, g *Term) {
		if g == e.f.ff {
			return
		}
		if i == len(args) {
			r := fn(append([]Value(nil), cs...))
			alts = e.addAlt(alts, g, r)
			return
		}
		for _, a := range lists[i] {
			cs[i] = a.v
			rec(i+1, e.f.And(g, a.g))
		}
	}
	rec(0, e.f.tt)
	if len(alts) == 0 {
		return nil, false
	}
	// terms become ite-trees
	if _, isT := alts[0].v.(*Term); isT {
		r := alts[len(alts)-1].v.(*Term)
		for i := len(alts) - 2; i >= 0; i-- {
			t, ok := alts[i].v.(*Term)
			if !ok {
				return nil, false
			}
			r = e.f.Ite(alts[i].g, t, r)
		}
		return r, true
	}
	if _, isT := alts[0].v.(TupleV); isT {
		var r Value = alts[len(alts)-1].v
		for i := len(alts) - 2; i >= 0; i-- {
			r = e.merge(alts[i].g, alts[i].v, r, false)
		}
		return r, true
	}
	return e.mkUnion(alts), true
}

// ---- conversions

func (e *Engine) convNum(t *Term, from, to types.Type) *Term {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return nil
	}
	ts, ok := basicSort(tb)
	if !ok || tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer {
		return nil
	}
	f := e.f
	switch {
	case t.sort.k == KBV && ts.k == KBV:
		if ts.w <= t.sort.w {
			return f.Extract(t, int(ts.w)-1, 0)
		}
		if fb.Info()&types.IsUnsigned != 0 {
			return f.ZExt(t, int(ts.w))
		}
		return f.SExt(t, int(ts.w))
	case t.sort.k == KBV && ts.k == KFP:
		return f.ItoF(t, fb.Info()&types.IsUnsigned == 0, int(ts.w))
	case t.sort.k == KFP && ts.k == KFP:
		return f.FtoF(t, int(ts.w))
	case t.sort.k == KFP && ts.k == KBV:
		sg := tb.Info()&types.IsUnsigned == 0
		if sg && ts.w < 64 {
			// Go truncates to the target via a wider integer
			if t.leaves > 0 {
				return f.Extract(f.FtoI(t, true, 64), int(ts.w)-1, 0)
			}
		}
		return f.FtoI(t, sg, int(ts.w))
	case t.sort.k == KBool && ts.k == KBool:
		return t
	}
	return nil
}

func (e *Engine) convert(st *State, fr *Frame, x *ssa.Convert) (Value, bool) {
	return e.convertT(st, fr, x.X, x.X.Type(), x.Type())
}

func isByteSlice(t types.Type) (string, bool) {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return "", false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	if !ok {
		return "", false
	}
	switch b.Kind() {
	case types.Uint8:
		return "byte", true
	case types.Int32:
		return "rune", true
	}
	return "", false
}

func (e *Engine) addrOf(p Ptr) uint64 {
	if p.obj == 0 {
		return 0
	}
	a := uint64(0xc000000000) + uint64(p.obj)*4096
	for i := 0; i < len(p.path)/4; i++ {
		a += uint64(pathIdx(p.path, i)+1) * 8
	}
	return a
}

func (e *Engine) convertT(st *State, fr *Frame, src ssa.Value, from, to types.Type) (Value, bool) {
	v := e.get(fr, src)
	if t, ok := v.(*Term); ok {
		if r := e.convNum(t, from, to); r != nil {
			return r, true
		}
		tb, _ := to.Underlying().(*types.Basic)
		if tb != nil && tb.Info()&types.IsString != 0 {
			// integer -> string
			c, ok := e.concreteTerm(st, fr, src, t)
			if !ok {
				return nil, false
			}
			return string(rune(sext(c.c, c.sort.w))), true
		}
		if tb != nil && tb.Kind() == types.UnsafePointer {
			panic(engineErr{"integer to unsafe.Pointer"})
		}
	}
	// pointers
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	_, fp := from.Underlying().(*types.Pointer)
	_, tp := to.Underlying().(*types.Pointer)
	fu := fb != nil && fb.Kind() == types.UnsafePointer
	tu := tb != nil && tb.Kind() == types.UnsafePointer
	if (fp || fu) && (tp || tu) {
		return v, true
	}
	if fu && tb != nil { // unsafe.Pointer -> uintptr
		var r *Term
		as := e.altsOf(v)
		for i := len(as) - 1; i >= 0; i-- {
			c := e.f.BV(e.addrOf(as[i].v.(Ptr)), 64)
			if r == nil {
				r = c
			} else {
				r = e.f.Ite(as[i].g, c, r)
			}
		}
		return r, true
	}
	if isStr(v) {
		if k, ok := isByteSlice(to); ok {
			mk := func(s Value, sub int) Value {
				arr := &ArrayV{}
				if k == "byte" {
					for _, b := range e.strBytes(s) {
						arr.e = append(arr.e, b)
					}
				} else {
					cs, isC := s.(string)
					if !isC {
						for _, b := range e.strBytes(s) {
							ascii := e.f.Bin(OULt, b, e.f.BV(0x80, 8))
							if r, _ := e.feasible(st, e.f.Not(ascii)); r != Unsat {
								panic(engineErr{"[]rune of non-ascii symbolic string"})
							}
							arr.e = append(arr.e, e.f.ZExt(b, 32))
						}
					} else {
						for _, r := range cs {
							arr.e = append(arr.e, e.f.BV(uint64(r), 32))
						}
					}
				}
				n := len(arr.e)
				id := e.alloc(st, sub, arr, nil)
				e.raceAlloc(st, id)
				return SliceV{arr: Ptr{obj: id}, len: n, cap: n}
			}
			if u, isU := v.(*Union); isU {
				var alts []Alt
				for i, a := range u.alts {
					alts = e.addAlt(alts, a.g, mk(a.v, 100+i))
				}
				return e.mkUnion(alts), true
			}
			return mk(v, 0), true
		}
		if tb != nil && tb.Info()&types.IsString != 0 {
			return v, true
		}
	}
	if k, ok := isByteSlice(from); ok && tb != nil && tb.Info()&types.IsString != 0 {
		var alts []Alt
		for _, a := range e.altsOf(v) {
			s := a.v.(SliceV)
			ts := e.sliceTerms(st, s)
			if k == "byte" {
				alts = e.addAlt(alts, a.g, e.mkStr(ts))
			} else {
				var sb strings.Builder
				var bs []*Term
				conc := true
				for _, t := range ts {
					if !t.isConst() {
						conc = false
						bs = append(bs, e.f.Extract(t, 7, 0))
						continue
					}
					sb.WriteRune(rune(t.c))
					for _, c := range []byte(string(rune(t.c))) {
						bs = append(bs, e.f.BV(uint64(c), 8))
					}
				}
				if conc {
					alts = e.addAlt(alts, a.g, sb.String())
				} else {
					alts = e.addAlt(alts, a.g, e.mkStr(bs))
				}
			}
		}
		return e.mkUnion(alts), true
	}
	panic(engineErr{fmt.Sprintf("convert %s to %s (%T)", from, to, v)})
}

// sliceTerms returns the elements of a slice of basic type.
func (e *Engine) sliceTerms(st *State, s SliceV) []*Term {
	var out []*Term
	for i := 0; i < s.len; i++ {
		t, ok := e.loadRaw(st, Ptr{s.arr.obj, pathAppend(s.arr.path, s.off+i)}).(*Term)
		if !ok {
			panic(engineErr{"slice of terms expected"})
		}
		out = append(out, t)
	}
	return out
}

func (e *Engine) sliceVals(st *State, s SliceV) []Value {
	var out []Value
	for i := 0; i < s.len; i++ {
		out = append(out, copyVal(e.loadRaw(st, Ptr{s.arr.obj, pathAppend(s.arr.path, s.off+i)})))
	}
	return out
}

// ---- builtins

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var stdSizes = types.SizesFor("gc", "amd64")

func growCap(old, need int, et types.Type) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	sz := stdSizes.Sizeof(et)
	if sz == 0 {
		return need
	}
	mem := int64(nc) * sz
	if mem <= 32768 {
		for _, c := range sizeClasses {
			if c >= mem {
				mem = c
				break
			}
		}
	} else {
		mem = (mem + 8191) / 8192 * 8192
	}
	return int(mem / sz)
}

func (e *Engine) argResolve(st *State, x *ssa.Call, args []Value, i int) (Value, bool) {
	u, ok := args[i].(*Union)
	if !ok {
		return args[i], true
	}
	if x == nil {
		panic(engineErr{"builtin on union in deferred call"})
	}
	e.forkAlts(st, u.alts, func(s *State, v Value) {
		e.set(s.top(), x.Call.Args[i], v)
		s.hold = true
	})
	return nil, false
}

func (e *Engine) lenTerm(st *State, v Value) *Term {
	switch s := v.(type) {
	case string:
		return e.f.BV(uint64(len(s)), 64)
	case *SymStr:
		return e.f.BV(uint64(len(s.b)), 64)
	case SliceV:
		return e.f.BV(uint64(s.len), 64)
	case MapV:
		if s.obj != 0 {
			e.raceAccess(st, Ptr{obj: s.obj}, false)
		}
		return e.mapLen(st, s)
	case ChanV:
		if s.obj == 0 {
			return e.f.BV(0, 64)
		}
		return e.f.BV(uint64(len(st.heap.get(s.obj).val.(*ChanObj).buf)), 64)
	case *ArrayV:
		return e.f.BV(uint64(len(s.e)), 64)
	case Ptr:
		a := e.loadRaw(st, s).(*ArrayV)
		return e.f.BV(uint64(len(a.e)), 64)
	case *Union:
		var r *Term
		for i := len(s.alts) - 1; i >= 0; i-- {
			t := e.lenTerm(st, s.alts[i].v)
			if r == nil {
				r = t
			} else {
				r = e.f.Ite(s.alts[i].g, t, r)
			}
		}
		return r
	}
	panic(engineErr{fmt.Sprintf("len of %T", v)})
}

func (e *Engine) callBuiltin(st *State, name string, args []Value, x *ssa.Call) Value {
	switch name {
	case "len":
		return e.lenTerm(st, args[0])
	case "cap":
		v, ok := e.argResolve(st, x, args, 0)
		if !ok {
			return nil
		}
		switch s := v.(type) {
		case SliceV:
			return e.f.BV(uint64(s.cap), 64)
		case ChanV:
			if s.obj == 0 {
				return e.f.BV(0, 64)
			}
			return e.f.BV(uint64(st.heap.get(s.obj).val.(*ChanObj).cap), 64)
		}
		return e.lenTerm(st, v)
	case "append":
		v, ok := e.argResolve(st, x, args, 0)
		if !ok {
			return nil
		}
		if x == nil {
			panic(engineErr{"append outside call"})
		}
		w, ok := e.argResolve(st, x, args, 1)
		if !ok {
			return nil
		}
		return e.appendTo(st, v.(SliceV), w, x.Type())
	case "copy":
		v, ok := e.argResolve(st, x, args, 0)
		if !ok {
			return nil
		}
		w, ok := e.argResolve(st, x, args, 1)
		if !ok {
			return nil
		}
		d := v.(SliceV)
		vals := e.seqVals(st, w)
		n := len(vals)
		if d.len < n {
			n = d.len
		}
		for i := 0; i < n; i++ {
			e.storeRaw(st, Ptr{d.arr.obj, pathAppend(d.arr.path, d.off+i)}, vals[i])
		}
		return e.f.BV(uint64(n), 64)
	case "delete":
		v, ok := e.argResolve(st, x, args, 0)
		if !ok {
			return nil
		}
		m := v.(MapV)
		if m.obj != 0 {
			e.raceAccess(st, Ptr{obj: m.obj}, true)
		}
		e.mapDelete(st, m, args[1])
		return TupleV{}
	case "clear":
		v, ok := e.argResolve(st, x, args, 0)
		if !ok {
			return nil
		}
		switch m := v.(type) {
		case MapV:
			if m.obj != 0 {
				e.raceAccess(st, Ptr{obj: m.obj}, true)
				st.heap.mut(m.obj).val = &MapObj{}
			}
		case SliceV:
			t := x.Call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := 0; i < m.len; i++ {
				e.storeRaw(st, Ptr{m.arr.obj, pathAppend(m.arr.path, m.off+i)}, e.zero(t))
			}
		default:
			panic(engineErr{"clear of non-map"})
		}
		return TupleV{}
	case "close":
		v, ok := e.argResolve(st, x, args, 0)
		if !ok {
			return nil
		}
		c := v.(ChanV)
		if c.obj == 0 {
			e.doPanic(st, e.runtimeErr("close of nil channel"), "close of nil channel")
			return nil
		}
		co := st.heap.mut(c.obj).val.(*ChanObj)
		if co.closed {
			e.doPanic(st, e.runtimeErr("close of closed channel"), "close of closed channel")
			return nil
		}
		co.closed = true
		e.raceClose(st, c.obj)
		e.unblockAll(st)
		return TupleV{}
	case "recover":
		g := st.gor()
		fr := st.top()
		if n := len(g.panics); n > 0 && fr.isDefer && !g.panics[n-1].recovered && !g.panics[n-1].isExit {
			p := *g.panics[n-1]
			p.recovered = true
			g.panics[n-1] = &p
			if i, ok := p.val.(IfaceV); ok {
				return i
			}
			return IfaceV{types.Typ[types.String], p.msg}
		}
		return IfaceV{}
	case "print", "println":
		return TupleV{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x1, ok1 := r.(*Term)
			x2, ok2 := a.(*Term)
			if !ok1 || !ok2 {
				panic(engineErr{"min/max of strings"})
			}
			var lt *Term
			if x1.sort.k == KFP {
				lt = e.f.FBin(OFLt, x1, x2)
			} else if isSigned(x.Type()) {
				lt = e.f.Bin(OSLt, x1, x2)
			} else {
				lt = e.f.Bin(OULt, x1, x2)
			}
			if name == "min" {
				r = e.f.Ite(lt, x1, x2)
			} else {
				r = e.f.Ite(lt, x2, x1)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			e.doPanic(st, e.runtimeErr("nil pointer dereference"), "value method called using nil pointer")
			return nil
		}
		return args[0]
	case "String":
		n := int(args[1].(*Term).c)
		if n == 0 {
			return ""
		}
		p := args[0].(Ptr)
		k := pathLast(p.path)
		return e.mkStr(e.sliceTerms(st, SliceV{arr: Ptr{p.obj, pathParent(p.path)}, off: k, len: n, cap: n}))
	case "SliceData":
		v, ok := e.argResolve(st, x, args, 0)
		if !ok {
			return nil
		}
		s := v.(SliceV)
		if s.cap == 0 {
			return Ptr{}
		}
		return Ptr{s.arr.obj, pathAppend(s.arr.path, s.off)}
	case "Slice":
		n := int(args[1].(*Term).c)
		p := args[0].(Ptr)
		if p.obj == 0 || n == 0 {
			return SliceV{}
		}
		k := pathLast(p.path)
		return SliceV{arr: Ptr{p.obj, pathParent(p.path)}, off: k, len: n, cap: n}
	case "StringData":
		v, ok := e.argResolve(st, x, args, 0)
		if !ok {
			return nil
		}
		arr := &ArrayV{}
		for _, b := range e.strBytes(v) {
			arr.e = append(arr.e, b)
		}
		if len(arr.e) == 0 {
			return Ptr{}
		}
		id := e.alloc(st, 0, arr, nil)
		return Ptr{id, pathAppend("", 0)}
	}
	panic(engineErr{"builtin " + name})
}

func (e *Engine) seqVals(st *State, w Value) []Value {
	switch s := w.(type) {
	case SliceV:
		return e.sliceVals(st, s)
	case string, *SymStr:
		var out []Value
		for _, b := range e.strBytes(w) {
			out = append(out, b)
		}
		return out
	}
	panic(engineErr{fmt.Sprintf("sequence %T", w)})
}

func (e *Engine) appendTo(st *State, s SliceV, w Value, typ types.Type) Value {
	vals := e.seqVals(st, w)
	if len(vals) == 0 {
		return s
	}
	n := s.len + len(vals)
	if n <= s.cap {
		for i, v := range vals {
			e.storeRaw(st, Ptr{s.arr.obj, pathAppend(s.arr.path, s.off+s.len+i)}, v)
		}
		return SliceV{arr: s.arr, off: s.off, len: n, cap: s.cap}
	}
	et := typ.Underlying().(*types.Slice).Elem()
	c := growCap(s.cap, n, et)
	arr := &ArrayV{e: make([]Value, c)}
	old := e.sliceVals(st, s)
	copy(arr.e, old)
	copy(arr.e[len(old):], vals)
	if c > n {
		z := e.zero(et)
		for i := n; i < c; i++ {
			arr.e[i] = copyVal(z)
		}
	}
	id := e.alloc(st, 0, arr, nil)
	e.raceAlloc(st, id)
	return SliceV{arr: Ptr{obj: id}, len: n, cap: c}
}

// ---- channels

func (e *Engine) doSend(st *State, fr *Frame, x *ssa.Send) bool {
	v, ok := e.resolve(st, fr, x.Chan)
	if !ok {
		return true
	}
	c := v.(ChanV)
	if c.obj == 0 {
		e.block(st)
		return true
	}
	co := st.heap.mut(c.obj).val.(*ChanObj)
	if co.closed {
		e.doPanic(st, e.runtimeErr("send on closed channel"), "send on closed channel")
		return true
	}
	val := copyVal(e.get(fr, x.X))
	if co.cap == 0 {
		for _, p := range co.sendq {
			if p.gor == st.cur {
				e.block(st)
				return true
			}
		}
		co.sendq = append(co.sendq, pendingSend{st.cur, val})
		e.raceSend(st, c.obj, 0)
		e.unblockAll(st)
		e.block(st)
		return true
	}
	if len(co.buf) >= co.cap {
		e.block(st)
		return true
	}
	co.buf = append(co.buf, val)
	e.raceSend(st, c.obj, co.cap)
	fr.pc++
	e.unblockAll(st)
	return false
}

func (e *Engine) doRecv(st *State, fr *Frame, x *ssa.UnOp) bool {
	v, ok := e.resolve(st, fr, x.X)
	if !ok {
		return true
	}
	c := v.(ChanV)
	if c.obj == 0 {
		e.block(st)
		return true
	}
	co := st.heap.mut(c.obj).val.(*ChanObj)
	var val Value
	got := true
	switch {
	case len(co.buf) > 0:
		val = co.buf[0]
		co.buf = append([]Value(nil), co.buf[1:]...)
		e.raceRecv(st, c.obj)
	case len(co.sendq) > 0:
		p := co.sendq[0]
		co.sendq = append([]pendingSend(nil), co.sendq[1:]...)
		val = p.val
		e.raceRecv(st, c.obj)
		cur := st.cur
		st.cur = p.gor
		sg := st.gor()
		sg.status = GRun
		st.top().pc++
		st.cur = cur
	case co.closed:
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		val = e.zero(et)
		got = false
		e.raceRecvClosed(st, c.obj)
	default:
		e.block(st)
		return true
	}
	fr = st.top()
	if x.CommaOk {
		e.set(fr, x, TupleV{val, e.f.Bool(got)})
	} else {
		e.set(fr, x, val)
	}
	fr.pc++
	e.unblockAll(st)
	return false
}

func (e *Engine) doSelect(st *State, fr *Frame, x *ssa.Select) bool {
	n := len(x.States)
	ready := -1
	for k := 0; k < n && ready < 0; k++ {
		i := k
		if st.sched == 1 { // the last one that is ready
			i = n - 1 - k
		}
		c, ok := e.get(fr, x.States[i].Chan).(ChanV)
		if !ok {
			panic(engineErr{"select of a symbolic channel"})
		}
		if c.obj == 0 {
			continue
		}
		co := st.heap.mut(c.obj).val.(*ChanObj)
		if x.States[i].Dir == types.RecvOnly {
			if len(co.buf) > 0 || len(co.sendq) > 0 || co.closed {
				ready = i
			}
		} else {
			if co.closed {
				e.doPanic(st, e.runtimeErr("send on closed channel"), "send on closed channel")
				return true
			}
			if co.cap == 0 {
				panic(engineErr{"select of a send on an unbuffered channel"})
			}
			if len(co.buf) < co.cap {
				ready = i
			}
		}
	}
	if ready < 0 && x.Blocking {
		e.block(st)
		return true
	}
	ret := TupleV{e.vInt(int64(ready)), e.f.Bool(false)}
	for i, s := range x.States {
		if s.Dir != types.RecvOnly {
			continue
		}
		if i != ready {
			ret = append(ret, e.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			continue
		}
		c := e.get(fr, s.Chan).(ChanV)
		co := st.heap.mut(c.obj).val.(*ChanObj)
		ret[1] = e.f.Bool(true)
		switch {
		case len(co.buf) > 0:
			ret = append(ret, co.buf[0])
			co.buf = append([]Value(nil), co.buf[1:]...)
			e.raceRecv(st, c.obj)
		case len(co.sendq) > 0:
			p := co.sendq[0]
			co.sendq = append([]pendingSend(nil), co.sendq[1:]...)
			ret = append(ret, p.val)
			e.raceRecv(st, c.obj)
			cur := st.cur
			st.cur = p.gor
			st.gor().status = GRun
			st.top().pc++
			st.cur = cur
		default:
			ret = append(ret, e.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			ret[1] = e.f.Bool(false)
			e.raceRecvClosed(st, c.obj)
		}
	}
	if ready >= 0 && x.States[ready].Dir == types.SendOnly {
		c := e.get(fr, x.States[ready].Chan).(ChanV)
		co := st.heap.mut(c.obj).val.(*ChanObj)
		co.buf = append(co.buf, copyVal(e.get(fr, x.States[ready].Send)))
		e.raceSend(st, c.obj, co.cap)
	}
	fr = st.top()
	e.set(fr, x, ret)
	fr.pc++
	if ready >= 0 {
		e.unblockAll(st)
	}
	return false
}

// ---- happens-before race detection

type raceAcc struct {
	path  string
	gor   int
	clk   int
	write bool
	where string
}
type chanVC struct {
	items [][]int // clocks of buffered sends
	recvs [][]int // clocks of receives (for back edges)
	nsend int
	close []int
}
type raceState struct {
	vc   [][]int
	acc  map[ObjID][]raceAcc
	ch   map[ObjID]chanVC
	lock map[Ptr][]int
}

func (r *raceState) clone() *raceState {
	n := &raceState{acc: map[ObjID][]raceAcc{}, ch: map[ObjID]chanVC{}, lock: map[Ptr][]int{}}
	for _, v := range r.vc {
		n.vc = append(n.vc, append([]int(nil), v...))
	}
	for k, v := range r.acc {
		n.acc[k] = v[:len(v):len(v)]
	}
	for k, v := range r.ch {
		v.items = v.items[:len(v.items):len(v.items)]
		v.recvs = v.recvs[:len(v.recvs):len(v.recvs)]
		n.ch[k] = v
	}
	for k, v := range r.lock {
		n.lock[k] = v
	}
	return n
}

func (r *raceState) clock(g int) []int {
	for len(r.vc) <= g {
		v := make([]int, len(r.vc)+1)
		v[len(r.vc)] = 1
		r.vc = append(r.vc, v)
	}
	return r.vc[g]
}

func vcJoin(a, b []int) []int {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make([]int, n)
	copy(r, a)
	for i, x := range b {
		if x > r[i] {
			r[i] = x
		}
	}
	return r
}

func (r *raceState) tick(g int) {
	v := append([]int(nil), r.clock(g)...)
	for len(v) <= g {
		v = append(v, 0)
	}
	v[g]++
	r.vc[g] = v
}

func (e *Engine) raceAccess(st *State, p Ptr, write bool) {
	r := st.race
	if r == nil || p.obj <= baseObjMax && false {
		return
	}
	g := st.cur
	if len(st.gors[g].frames) > 0 && isHarnessFn(st.gors[g].frames[len(st.gors[g].frames)-1].fi.fn) {
		return
	}
	vc := r.clock(g)
	as := r.acc[p.obj]
	own := -1
	for i, a := range as {
		if a.gor == g {
			if a.path == p.path && a.write == write {
				own = i
			}
			continue
		}
		if !a.write && !write {
			continue
		}
		if !(strings.HasPrefix(a.path, p.path) || strings.HasPrefix(p.path, a.path)) {
			continue
		}
		c := 0
		if a.gor < len(vc) {
			c = vc[a.gor]
		}
		if a.clk > c {
			kinds := [2]string{"read", "write"}
			x, y := 0, 0
			if a.write {
				x = 1
			}
			if write {
				y = 1
			}
			e.report(st, "race", "race", fmt.Sprintf("data race: %s by goroutine %d (%s) and %s by goroutine %d (%s)", kinds[x], a.gor, a.where, kinds[y], g, e.where(st)), st.modelOr(e))
			return
		}
	}
	n := raceAcc{p.path, g, vc[g], write, e.where(st)}
	if own >= 0 {
		if as[own].clk == n.clk {
			return
		}
		as = append([]raceAcc(nil), as...)
		as[own] = n
		r.acc[p.obj] = as
		return
	}
	r.acc[p.obj] = append(as[:len(as):len(as)], n)
}

func (e *Engine) raceAlloc(st *State, id ObjID) {
	if st.race != nil {
		delete(st.race.acc, id)
	}
}
func (e *Engine) raceGo(st *State, ng *Gor) {
	if r := st.race; r != nil {
		p := r.clock(st.cur)
		r.clock(ng.id)
		r.vc[ng.id] = vcJoin(p, r.vc[ng.id])
		r.tick(ng.id)
		r.tick(st.cur)
	}
}
func (e *Engine) raceEnd(st *State) {}
func (e *Engine) raceSend(st *State, c ObjID, cap int) {
	r := st.race
	if r == nil {
		return
	}
	ch := r.ch[c]
	// the k-th receive happens before the (k+cap)-th send completes
	if cap > 0 {
		k := ch.nsend - cap
		if k >= 0 && k < len(ch.recvs) {
			r.vc[st.cur] = vcJoin(r.clock(st.cur), ch.recvs[k])
		}
	}
	ch.nsend++
	ch.items = append(ch.items[:len(ch.items):len(ch.items)], append([]int(nil), r.clock(st.cur)...))
	r.ch[c] = ch
	r.tick(st.cur)
}
func (e *Engine) raceRecv(st *State, c ObjID) {
	r := st.race
	if r == nil {
		return
	}
	ch := r.ch[c]
	if len(ch.items) > 0 {
		r.vc[st.cur] = vcJoin(r.clock(st.cur), ch.items[0])
		ch.items = ch.items[1:]
	}
	ch.recvs = append(ch.recvs[:len(ch.recvs):len(ch.recvs)], append([]int(nil), r.clock(st.cur)...))
	r.ch[c] = ch
	r.tick(st.cur)
}
func (e *Engine) raceClose(st *State, c ObjID) {
	if r := st.race; r != nil {
		ch := r.ch[c]
		ch.close = append([]int(nil), r.clock(st.cur)...)
		r.ch[c] = ch
		r.tick(st.cur)
	}
}
func (e *Engine) raceRecvClosed(st *State, c ObjID) {
	if r := st.race; r != nil {
		if ch := r.ch[c]; ch.close != nil {
			r.vc[st.cur] = vcJoin(r.clock(st.cur), ch.close)
		}
	}
}
func (e *Engine) raceLock(st *State, p Ptr) {
	if r := st.race; r != nil {
		if v, ok := r.lock[p]; ok {
			r.vc[st.cur] = vcJoin(r.clock(st.cur), v)
		}
	}
}
func (e *Engine) raceUnlock(st *State, p Ptr, join bool) {
	if r := st.race; r != nil {
		v := append([]int(nil), r.clock(st.cur)...)
		if join {
			v = vcJoin(v, r.lock[p])
		}
		r.lock[p] = v
		r.tick(st.cur)
	}
}

var _ = utf8.RuneError
var _ = math.Pi
