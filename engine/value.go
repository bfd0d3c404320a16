package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term            bool, integers, floats
//	string           concrete string
//	*SymStr          string with symbolic bytes and concrete length
//	Ptr              pointer (obj 0 = nil)
//	*StructV, *ArrayV  aggregates (owned by their container)
//	SliceV, MapV, ChanV
//	IfaceV
//	*FuncV
//	TupleV
//	*Union           guarded alternatives
//	*NatV            opaque native value
//	nil              undefined register
type Value interface{}

type ObjID int

type Ptr struct {
	obj  ObjID
	path string // encoded path: sequence of 4-byte big endian indices
}

func pathAppend(p string, i int) string {
	return p + string([]byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)})
}
func pathIdx(p string, k int) int {
	return int(p[4*k])<<24 | int(p[4*k+1])<<16 | int(p[4*k+2])<<8 | int(p[4*k+3])
}
func pathLast(p string) int { return pathIdx(p, len(p)/4-1) }
func pathParent(p string) string {
	return p[:len(p)-4]
}

type StructV struct{ f []Value }
type ArrayV struct{ e []Value }

type SliceV struct {
	arr      Ptr // pointer to the array aggregate; obj 0: nil slice
	off      int
	len, cap int
}
type MapV struct{ obj ObjID }
type ChanV struct{ obj ObjID }

type IfaceV struct {
	typ types.Type // nil: nil interface
	val Value
}
type FuncV struct {
	fn       *ssa.Function
	bindings []Value
	builtin  string
	nilf     bool
}
type TupleV []Value

type SymStr struct{ b []*Term }

type Alt struct {
	g *Term
	v Value
}
type Union struct{ alts []Alt }

// heap object contents beyond plain values
type MapEntry struct {
	key     Value
	val     Value
	present *Term
}
type MapObj struct {
	es []MapEntry
}
type ChanObj struct {
	buf    []Value
	cap    int
	closed bool
	// rendezvous for unbuffered channels: sender goroutines waiting
	sendq []pendingSend
	recvq []int
}
type pendingSend struct {
	gor int
	val Value
}
type IterObj struct {
	m     ObjID
	keys  []Value
	pos   int
	str   Value
	isStr bool
	late  bool // entries added later are not visited
}
type HashObj struct {
	bits  int
	alg   string
	items []Value
}
type NatV struct {
	kind string
	v    interface{}
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case *StructV:
		n := &StructV{f: make([]Value, len(x.f))}
		for i, e := range x.f {
			n.f[i] = copyVal(e)
		}
		return n
	case *ArrayV:
		n := &ArrayV{e: make([]Value, len(x.e))}
		for i, e := range x.e {
			n.e[i] = copyVal(e)
		}
		return n
	case *Union:
		// alternatives may hold aggregates
		agg := false
		for _, a := range x.alts {
			switch a.v.(type) {
			case *StructV, *ArrayV:
				agg = true
			}
		}
		if !agg {
			return x
		}
		n := &Union{}
		for _, a := range x.alts {
			n.alts = append(n.alts, Alt{a.g, copyVal(a.v)})
		}
		return n
	}
	return v
}

func copyContent(v Value) Value {
	switch x := v.(type) {
	case *MapObj:
		n := &MapObj{es: make([]MapEntry, len(x.es))}
		for i, e := range x.es {
			n.es[i] = MapEntry{e.key, copyVal(e.val), e.present}
		}
		return n
	case *ChanObj:
		n := *x
		n.buf = append([]Value(nil), x.buf...)
		n.sendq = append([]pendingSend(nil), x.sendq...)
		n.recvq = append([]int(nil), x.recvq...)
		return &n
	case *IterObj:
		n := *x
		return &n
	case *HashObj:
		n := *x
		n.items = append([]Value(nil), x.items...)
		return &n
	}
	return copyVal(v)
}

// ---- persistent heap: radix tree with ownership tokens

const hb = 5
const hw = 1 << hb

type hnode struct {
	owner *int
	kids  [hw]*hnode
	objs  [hw]*Obj
}

type Obj struct {
	owner *int
	id    ObjID
	val   Value
	typ   types.Type
}

type Heap struct {
	root  *hnode
	depth int // number of inner levels above leaf level
	owner *int
}

func newHeap() *Heap { return &Heap{root: &hnode{}, depth: 4, owner: new(int)} }

func (h *Heap) fork() *Heap {
	n := *h
	n.owner = new(int)
	h.owner = new(int)
	return &n
}

func (h *Heap) get(id ObjID) *Obj {
	n := h.root
	for l := h.depth; l > 0; l-- {
		n = n.kids[(int(id)>>(uint(l)*hb))&(hw-1)]
		if n == nil {
			return nil
		}
	}
	return n.objs[int(id)&(hw-1)]
}

func (h *Heap) own(n *hnode) *hnode {
	if n == nil {
		return &hnode{owner: h.owner}
	}
	if n.owner == h.owner {
		return n
	}
	c := *n
	c.owner = h.owner
	return &c
}

func (h *Heap) put(o *Obj) {
	id := int(o.id)
	if id>>(uint(h.depth+1)*hb) != 0 {
		panic(engineErr{"heap id overflow"})
	}
	h.root = h.own(h.root)
	n := h.root
	for l := h.depth; l > 0; l-- {
		i := (id >> (uint(l) * hb)) & (hw - 1)
		n.kids[i] = h.own(n.kids[i])
		n = n.kids[i]
	}
	n.objs[id&(hw-1)] = o
}

// mut returns an object that may be modified in place.
func (h *Heap) mut(id ObjID) *Obj {
	o := h.get(id)
	if o == nil {
		panic(engineErr{fmt.Sprintf("mut of unknown object %d", id)})
	}
	if o.owner == h.owner {
		return o
	}
	n := &Obj{owner: h.owner, id: id, val: copyContent(o.val), typ: o.typ}
	h.put(n)
	return n
}

// diff calls fn for every id whose object differs.
func heapDiff(a, b *Heap, fn func(id ObjID, x, y *Obj)) {
	var rec func(x, y *hnode, level int)
	rec = func(x, y *hnode, level int) {
		if x == y {
			return
		}
		for i := 0; i < hw; i++ {
			if level > 0 {
				var kx, ky *hnode
				if x != nil {
					kx = x.kids[i]
				}
				if y != nil {
					ky = y.kids[i]
				}
				if kx != ky {
					rec(kx, ky, level-1)
				}
			} else {
				var ox, oy *Obj
				if x != nil {
					ox = x.objs[i]
				}
				if y != nil {
					oy = y.objs[i]
				}
				if ox != oy {
					id := ObjID(0)
					if ox != nil {
						id = ox.id
					} else {
						id = oy.id
					}
					fn(id, ox, oy)
				}
			}
		}
	}
	rec(a.root, b.root, a.depth)
}

// ---- equality & merging

type mergeFail struct{ why string }

func isNilPtr(v Value) bool {
	p, ok := v.(Ptr)
	return ok && p.obj == 0
}

// sameVal: syntactic identity
func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case *SymStr:
		y, ok := b.(*SymStr)
		if !ok || len(x.b) != len(y.b) {
			return false
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x == y
	case MapV:
		y, ok := b.(MapV)
		return ok && x == y
	case ChanV:
		y, ok := b.(ChanV)
		return ok && x == y
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return false
		}
		if x.typ == nil || y.typ == nil {
			return x.typ == nil && y.typ == nil
		}
		return types.Identical(x.typ, y.typ) && sameVal(x.val, y.val)
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.nilf || y.nilf {
			return x.nilf && y.nilf
		}
		if x.fn != y.fn || x.builtin != y.builtin || len(x.bindings) != len(y.bindings) {
			return false
		}
		for i := range x.bindings {
			if !sameVal(x.bindings[i], y.bindings[i]) {
				return false
			}
		}
		return true
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.e {
			if !sameVal(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Union:
		y, ok := b.(*Union)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.alts {
			if x.alts[i].g != y.alts[i].g || !sameVal(x.alts[i].v, y.alts[i].v) {
				return false
			}
		}
		return true
	case *NatV:
		y, ok := b.(*NatV)
		return ok && x == y
	case *IterObj:
		y, ok := b.(*IterObj)
		if !ok || x.m != y.m || x.pos != y.pos || len(x.keys) != len(y.keys) || x.isStr != y.isStr || x.late != y.late {
			return false
		}
		if x.isStr && !sameVal(x.str, y.str) {
			return false
		}
		for i := range x.keys {
			if !sameVal(x.keys[i], y.keys[i]) {
				return false
			}
		}
		return true
	case *HashObj:
		y, ok := b.(*HashObj)
		if !ok || x.alg != y.alg || len(x.items) != len(y.items) {
			return false
		}
		for i := range x.items {
			if !sameVal(x.items[i], y.items[i]) {
				return false
			}
		}
		return true
	case *ChanObj:
		y, ok := b.(*ChanObj)
		if !ok || len(x.buf) != len(y.buf) || x.cap != y.cap || x.closed != y.closed || len(x.sendq) != len(y.sendq) || len(x.recvq) != len(y.recvq) {
			return false
		}
		for i := range x.buf {
			if !sameVal(x.buf[i], y.buf[i]) {
				return false
			}
		}
		return len(x.sendq) == 0
	case *MapObj:
		y, ok := b.(*MapObj)
		if !ok || len(x.es) != len(y.es) {
			return false
		}
		for i := range x.es {
			if x.es[i].present != y.es[i].present || !sameVal(x.es[i].key, y.es[i].key) || !sameVal(x.es[i].val, y.es[i].val) {
				return false
			}
		}
		return true
	}
	panic(engineErr{fmt.Sprintf("sameVal %T", a)})
}

const maxUnion = 256

// addAlt adds an alternative merging equal ones
func (e *Engine) addAlt(u []Alt, g *Term, v Value) []Alt {
	if g == e.f.ff {
		return u
	}
	for i := range u {
		if sameVal(u[i].v, v) {
			u[i].g = e.f.Or(u[i].g, g)
			return u
		}
	}
	return append(u, Alt{g, v})
}

func (e *Engine) altsOf(v Value) []Alt {
	if u, ok := v.(*Union); ok {
		return u.alts
	}
	return []Alt{{e.f.tt, v}}
}

func (e *Engine) mkUnion(alts []Alt) Value {
	if len(alts) == 1 {
		return alts[0].v
	}
	if len(alts) == 0 {
		panic(engineErr{"empty union"})
	}
	if len(alts) > maxUnion {
		panic(mergeFail{"union too large"})
	}
	return &Union{alts: alts}
}

// merge returns ite(g, a, b). strict: fail on differing slices, maps, funcs...
func (e *Engine) merge(g *Term, a, b Value, strict bool) Value {
	if g == e.f.tt {
		return a
	}
	if g == e.f.ff {
		return b
	}
	if a == nil || b == nil {
		if a == nil {
			return b
		}
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			if x.sort != y.sort {
				panic(mergeFail{"sorts"})
			}
			return e.f.Ite(g, x, y)
		}
		panic(mergeFail{fmt.Sprintf("kind *Term vs %T", b)})
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			if x == y {
				return x
			}
			n := &StructV{f: make([]Value, len(x.f))}
			for i := range x.f {
				n.f[i] = e.merge(g, x.f[i], y.f[i], strict)
			}
			return n
		}
		panic(mergeFail{"struct"})
	case *ArrayV:
		if y, ok := b.(*ArrayV); ok {
			if x == y {
				return x
			}
			if len(x.e) != len(y.e) {
				// arrays allocated at the same position with different sizes:
				// indices beyond the shorter one exist only in one world.
				l := len(x.e)
				if len(y.e) > l {
					l = len(y.e)
				}
				n := &ArrayV{e: make([]Value, l)}
				for i := 0; i < l; i++ {
					switch {
					case i >= len(x.e):
						n.e[i] = copyVal(y.e[i])
					case i >= len(y.e):
						n.e[i] = copyVal(x.e[i])
					default:
						n.e[i] = e.merge(g, x.e[i], y.e[i], strict)
					}
				}
				return n
			}
			n := &ArrayV{e: make([]Value, len(x.e))}
			for i := range x.e {
				n.e[i] = e.merge(g, x.e[i], y.e[i], strict)
			}
			return n
		}
		panic(mergeFail{"array"})
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			n := make(TupleV, len(x))
			for i := range x {
				n[i] = e.merge(g, x[i], y[i], strict)
			}
			return n
		}
		panic(mergeFail{"tuple"})
	case IfaceV:
		if y, ok := b.(IfaceV); ok && x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
			return IfaceV{x.typ, e.merge(g, x.val, y.val, strict)}
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok && !x.nilf && !y.nilf && x.fn == y.fn && x.builtin == y.builtin && len(x.bindings) == len(y.bindings) {
			n := &FuncV{fn: x.fn, builtin: x.builtin}
			for i := range x.bindings {
				n.bindings = append(n.bindings, e.merge(g, x.bindings[i], y.bindings[i], strict))
			}
			return n
		}
	case *SymStr:
		if y, ok := b.(*SymStr); ok && len(x.b) == len(y.b) {
			n := &SymStr{}
			for i := range x.b {
				n.b = append(n.b, e.f.Ite(g, x.b[i], y.b[i]))
			}
			return n
		}
	}
	if sameVal(a, b) {
		return a
	}
	nslice := 0
	if strict {
		for _, v := range []Value{a, b} {
			for _, alt := range e.altsOf(v) {
				switch alt.v.(type) {
				case SliceV:
					nslice++
					if e.cfg.SliceU <= 1 {
						panic(mergeFail{"slice"})
					}
				case MapV, ChanV:
					panic(mergeFail{"map/chan"})
				case *FuncV:
					panic(mergeFail{"func"})
				case *NatV:
					panic(mergeFail{"native"})
				}
			}
		}
	}
	switch a.(type) {
	case *MapObj, *ChanObj, *IterObj, *HashObj:
		panic(mergeFail{fmt.Sprintf("content %T", a)})
	}
	var alts []Alt
	for _, x := range e.altsOf(a) {
		alts = e.addAlt(alts, e.f.And(g, x.g), x.v)
	}
	ng := e.f.Not(g)
	for _, x := range e.altsOf(b) {
		alts = e.addAlt(alts, e.f.And(ng, x.g), x.v)
	}
	lim := maxUnion
	if strict {
		lim = 64
	}
	if nslice > 0 {
		lim = e.cfg.SliceU
	}
	if len(alts) > lim {
		panic(mergeFail{"union size"})
	}
	return e.mkUnion(alts)
}

func (e *Engine) mergeContent(g *Term, a, b Value) Value {
	switch x := a.(type) {
	case *MapObj:
		y, ok := b.(*MapObj)
		if !ok {
			panic(mergeFail{"map content"})
		}
		n := &MapObj{}
		used := make([]bool, len(y.es))
		for _, ex := range x.es {
			found := -1
			for j, ey := range y.es {
				if !used[j] && sameVal(ex.key, ey.key) {
					found = j
					break
				}
			}
			if found >= 0 {
				ey := y.es[found]
				used[found] = true
				p := e.f.Ite(g, ex.present, ey.present)
				var v Value
				// value irrelevant where absent
				if ex.present == e.f.ff {
					v = ey.val
				} else if ey.present == e.f.ff {
					v = ex.val
				} else {
					v = e.merge(g, ex.val, ey.val, true)
				}
				n.es = append(n.es, MapEntry{ex.key, v, p})
			} else {
				n.es = append(n.es, MapEntry{ex.key, copyVal(ex.val), e.f.And(g, ex.present)})
			}
		}
		ng := e.f.Not(g)
		for j, ey := range y.es {
			if !used[j] {
				n.es = append(n.es, MapEntry{ey.key, copyVal(ey.val), e.f.And(ng, ey.present)})
			}
		}
		return n
	case *IterObj:
		y, ok := b.(*IterObj)
		if ok && sameVal(x, y) {
			return x
		}
		if ok && !x.isStr && !y.isStr && x.m == y.m && x.late == y.late && len(x.keys)-x.pos == len(y.keys)-y.pos {
			// same remaining keys
			for i := 0; i < len(x.keys)-x.pos; i++ {
				if !sameVal(x.keys[x.pos+i], y.keys[y.pos+i]) {
					panic(mergeFail{"iter"})
				}
			}
			return x
		}
		panic(mergeFail{"iter"})
	case *ChanObj:
		if sameVal(a, b) {
			return a
		}
		panic(mergeFail{"chan content"})
	case *HashObj:
		y, ok := b.(*HashObj)
		if ok && x.alg == y.alg && len(x.items) == len(y.items) {
			n := &HashObj{bits: x.bits, alg: x.alg}
			for i := range x.items {
				n.items = append(n.items, e.merge(g, x.items[i], y.items[i], false))
			}
			return n
		}
		panic(mergeFail{"hash"})
	}
	return e.merge(g, a, b, true)
}

// ---- debug printing

func (e *Engine) show(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<undef>"
	case *Term:
		if x.isConst() {
			switch x.sort.k {
			case KBool:
				return fmt.Sprint(x.c != 0)
			case KFP:
				return fmt.Sprint(fpval(x.c, x.sort.w))
			}
			return fmt.Sprint(sext(x.c, x.sort.w))
		}
		return fmt.Sprintf("<t%d:%s>", x.id, x.sort.smt())
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		return fmt.Sprintf("<symstr %d>", len(x.b))
	case Ptr:
		if x.obj == 0 {
			return "nil"
		}
		s := fmt.Sprintf("&%d", x.obj)
		for i := 0; i < len(x.path)/4; i++ {
			s += fmt.Sprintf(".%d", pathIdx(x.path, i))
		}
		return s
	case *StructV:
		var p []string
		for _, f := range x.f {
			p = append(p, e.show(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case *ArrayV:
		var p []string
		for _, f := range x.e {
			p = append(p, e.show(f))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case SliceV:
		return fmt.Sprintf("slice(%s,%d,%d,%d)", e.show(x.arr), x.off, x.len, x.cap)
	case MapV:
		return fmt.Sprintf("map(%d)", x.obj)
	case IfaceV:
		if x.typ == nil {
			return "nil-iface"
		}
		return fmt.Sprintf("iface(%s,%s)", x.typ, e.show(x.val))
	case *FuncV:
		if x.fn != nil {
			return "func " + x.fn.String()
		}
		return "func?"
	case TupleV:
		var p []string
		for _, f := range x {
			p = append(p, e.show(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case *Union:
		var p []string
		for _, a := range x.alts {
			p = append(p, fmt.Sprintf("t%d?%s", a.g.id, e.show(a.v)))
		}
		return "U{" + strings.Join(p, " | ") + "}"
	case *MapObj:
		var p []string
		for _, m := range x.es {
			p = append(p, fmt.Sprintf("%s:%s[p%d]", e.show(m.key), e.show(m.val), m.present.id))
		}
		sort.Strings(p)
		return "map{" + strings.Join(p, ", ") + "}"
	}
	return fmt.Sprintf("%T", v)
}
