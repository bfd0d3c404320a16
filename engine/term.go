package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Hash-consed terms over Bool, bit-vectors and IEEE floats.

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KFP
)

type Sort struct {
	k Kind
	w uint8 // bits
}

var sortBool = Sort{KBool, 1}

func bvSort(w int) Sort { return Sort{KBV, uint8(w)} }
func fpSort(w int) Sort { return Sort{KFP, uint8(w)} }

func (s Sort) smt() string {
	switch s.k {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.w)
	}
	if s.w == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OConcat
	OExtract // c = hi<<8|lo
	OZExt
	OSExt
	// floats
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFSqrt
	OFAbs
	OFtoF  // fp->fp convert
	OSItoF // signed int -> fp
	OUItoF
	OFtoSI // fp -> signed int (truncate) sort.w bits
	OFtoUI
	OFtoBits // not in smt; via const only
	OBitstoF
)

var opSMT = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle", OConcat: "concat", OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFSqrt: "fp.sqrt RNE", OFAbs: "fp.abs"}

type Term struct {
	op   Op
	sort Sort
	c    uint64
	name string
	args []*Term
	id   int
	size int32 // saturating dag-ish size
	// number of constant leaves if an ite-tree over constants, 0 otherwise
	leaves int32
}

func (t *Term) isConst() bool { return t.op == OConst }

type termKey struct {
	op         Op
	sort       Sort
	c          uint64
	name       string
	a0, a1, a2 int
	rest       string
}

type TermFactory struct {
	tab  map[termKey]*Term
	all  []*Term
	vars []*Term
	tt   *Term
	ff   *Term
	lift map[string]*Term
	dom  map[string]int // number of values of an input variable
	enum map[int]*Term  // see enumerate
	rngs map[int]ival
	lins map[int]*linear
	divs map[[2]int64][2]*Term
	rems map[string]ival
	quos map[int]quotient
}

func NewTF() *TermFactory {
	f := &TermFactory{tab: map[termKey]*Term{}, lift: map[string]*Term{}, dom: map[string]int{}, enum: map[int]*Term{}, rngs: map[int]ival{}, lins: map[int]*linear{}, divs: map[[2]int64][2]*Term{}, rems: map[string]ival{}, quos: map[int]quotient{}}
	f.tt = f.mk(OConst, sortBool, 1, "")
	f.ff = f.mk(OConst, sortBool, 0, "")
	return f
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (f *TermFactory) mk(op Op, s Sort, c uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, sort: s, c: c, name: name, a0: -1, a1: -1, a2: -1}
	if len(args) > 0 {
		k.a0 = args[0].id
	}
	if len(args) > 1 {
		k.a1 = args[1].id
	}
	if len(args) > 2 {
		k.a2 = args[2].id
	}
	if len(args) > 3 {
		var sb strings.Builder
		for _, a := range args[3:] {
			sb.WriteString(strconv.Itoa(a.id))
			sb.WriteByte(',')
		}
		k.rest = sb.String()
	}
	if t, ok := f.tab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, c: c, name: name, args: args, id: len(f.all)}
	sz := int32(1)
	for _, a := range args {
		sz += a.size
		if sz > 1<<24 || sz < 0 {
			sz = 1 << 24
		}
	}
	t.size = sz
	if op == OConst {
		t.leaves = 1
	} else if op == OIte && s.k != KBool && args[1].leaves > 0 && args[2].leaves > 0 {
		n := args[1].leaves + args[2].leaves
		if n <= 1<<20 {
			t.leaves = n
		}
	}
	f.all = append(f.all, t)
	f.tab[k] = t
	if op == OVar {
		f.vars = append(f.vars, t)
	}
	return t
}

func (f *TermFactory) Bool(b bool) *Term {
	if b {
		return f.tt
	}
	return f.ff
}
func (f *TermFactory) BV(v uint64, w int) *Term {
	return f.mk(OConst, bvSort(w), v&mask(uint8(w)), "")
}
func (f *TermFactory) F64(v float64) *Term {
	if v != v {
		v = math.NaN()
	}
	return f.mk(OConst, fpSort(64), math.Float64bits(v), "")
}
func (f *TermFactory) F32(v float32) *Term {
	if v != v {
		return f.mk(OConst, fpSort(32), 0x7fc00000, "")
	}
	return f.mk(OConst, fpSort(32), uint64(math.Float32bits(v)), "")
}
func (f *TermFactory) Const(v uint64, s Sort) *Term {
	if s.k == KFP {
		if s.w == 32 {
			return f.F32(math.Float32frombits(uint32(v)))
		}
		return f.F64(math.Float64frombits(v))
	}
	return f.mk(OConst, s, v&mask(s.w), "")
}
func (f *TermFactory) Var(name string, s Sort) *Term { return f.mk(OVar, s, 0, name) }

func (f *TermFactory) Not(a *Term) *Term {
	if a.op == OConst {
		return f.Bool(a.c == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return f.mk(ONot, sortBool, 0, "", a)
}

func (f *TermFactory) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.op == OConst {
			return x.c != 0
		}
		if x.op == OAnd && len(x.args) <= 8 {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[x.id] {
			return true
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return f.ff
		}
	}
	for _, x := range out {
		n := x
		if x.op == ONot {
			n = x.args[0]
			if seen[n.id] {
				return f.ff
			}
		}
	}
	if len(out) == 0 {
		return f.tt
	}
	if len(out) == 1 {
		return out[0]
	}
	// absorption: a & (a|b) = a ; a & (!a|b) = a & b   (binary only)
	if len(out) == 2 {
		for i := 0; i < 2; i++ {
			a, o := out[i], out[1-i]
			if o.op == OOr {
				na := f.Not(a)
				for j, x := range o.args {
					if x == a {
						return a
					}
					if x == na {
						rest := append(append([]*Term{}, o.args[:j]...), o.args[j+1:]...)
						return f.And(a, f.Or(rest...))
					}
				}
			}
		}
	}
	sortTerms(out)
	return f.mk(OAnd, sortBool, 0, "", out...)
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

func (f *TermFactory) Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.op == OConst {
			return x.c == 0
		}
		if x.op == OOr && len(x.args) <= 8 {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[x.id] {
			return true
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return f.tt
		}
	}
	for _, x := range out {
		if x.op == ONot && seen[x.args[0].id] {
			return f.tt
		}
	}
	if len(out) == 0 {
		return f.ff
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) == 2 {
		for i := 0; i < 2; i++ {
			a, o := out[i], out[1-i]
			if o.op == OAnd {
				na := f.Not(a)
				for j, x := range o.args {
					if x == a {
						return a
					}
					if x == na {
						rest := append(append([]*Term{}, o.args[:j]...), o.args[j+1:]...)
						return f.Or(a, f.And(rest...))
					}
				}
			}
		}
		// (a&x) | (a&!x) = a
		if out[0].op == OAnd && out[1].op == OAnd && len(out[0].args) == len(out[1].args) {
			diff := -1
			var da, db *Term
			inB := map[int]bool{}
			for _, y := range out[1].args {
				inB[y.id] = true
			}
			n := 0
			for i, x := range out[0].args {
				if !inB[x.id] {
					n++
					diff = i
					da = x
				}
			}
			if n == 1 {
				inA := map[int]bool{}
				for _, x := range out[0].args {
					inA[x.id] = true
				}
				for _, y := range out[1].args {
					if !inA[y.id] {
						db = y
					}
				}
				if db != nil && f.Not(da) == db {
					rest := append(append([]*Term{}, out[0].args[:diff]...), out[0].args[diff+1:]...)
					return f.And(rest...)
				}
			}
		}
	}
	sortTerms(out)
	return f.mk(OOr, sortBool, 0, "", out...)
}

func (f *TermFactory) Implies(a, b *Term) *Term { return f.Or(f.Not(a), b) }

func (f *TermFactory) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %v %v", a.sort, b.sort))
	}
	if c.op == ONot {
		return f.Ite(c.args[0], b, a)
	}
	if a.sort.k == KBool {
		if a.op == OConst {
			if a.c != 0 {
				return f.Or(c, b)
			}
			return f.And(f.Not(c), b)
		}
		if b.op == OConst {
			if b.c != 0 {
				return f.Or(f.Not(c), a)
			}
			return f.And(c, a)
		}
		if a == c {
			return f.Or(c, b)
		}
		if b == c {
			return f.And(c, a)
		}
	}
	// prune by same condition
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
	if b.op == OIte && b.args[1] == a {
		return f.Ite(f.Or(c, b.args[0]), a, b.args[2])
	}
	// ite(c, ite(d, x, y), y) = ite(c&d, x, y)
	if a.op == OIte && a.args[2] == b {
		return f.Ite(f.And(c, a.args[0]), a.args[1], b)
	}
	// ite(c, ite(d, x, y), x) = ite(c & !d, y, x)
	if a.op == OIte && a.args[1] == b {
		return f.Ite(f.And(c, f.Not(a.args[0])), a.args[2], b)
	}
	if b.op == OIte && b.args[2] == a {
		// ite(c, y, ite(d, x, y)) = ite(!c & d, x, y)
		return f.Ite(f.And(f.Not(c), b.args[0]), b.args[1], a)
	}
	return f.mk(OIte, a.sort, 0, "", c, a, b)
}

func (f *TermFactory) Eq(a, b *Term) *Term {
	if a == b {
		// FP terms: structural identity
		return f.tt
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %v %v", a.sort, b.sort))
	}
	if a.op == OConst && b.op == OConst {
		return f.Bool(a.c == b.c)
	}
	if a.sort.k == KBool {
		if a.op == OConst {
			if a.c != 0 {
				return b
			}
			return f.Not(b)
		}
		if b.op == OConst {
			if b.c != 0 {
				return a
			}
			return f.Not(a)
		}
		if f.Not(a) == b {
			return f.ff
		}
	}
	if b.op == OConst {
		a, b = b, a
	}
	// a const, b ite-tree
	if a.op == OConst && b.op == OIte && b.leaves > 0 && b.leaves <= 4096 {
		return f.liftN("eq"+strconv.FormatUint(a.c, 16), []*Term{b}, func(cs []*Term) *Term { return f.Bool(cs[0].c == a.c) })
	}
	if a.op == OIte && b.op == OIte && a.leaves > 0 && b.leaves > 0 && a.leaves*b.leaves <= 1024 {
		return f.liftN("eqq", []*Term{a, b}, func(cs []*Term) *Term { return f.Bool(cs[0].c == cs[1].c) })
	}
	if a.sort.k == KBV {
		if r := f.linCmp(OEq, a, b); r != nil {
			return r
		}
	}
	if a.op == OConst && a.sort.k == KBV {
		switch b.op {
		case OExtract:
			if b.c&0xff == 0 && f.rng(b.args[0]).within(b.sort.w) {
				return f.Eq(f.BV(uint64(sext(a.c, a.sort.w)), int(b.args[0].sort.w)), b.args[0])
			}
		case OZExt:
			iw := b.args[0].sort.w
			if a.c&^mask(iw) != 0 {
				return f.ff
			}
			return f.Eq(f.BV(a.c, int(iw)), b.args[0])
		case OSExt:
			iw := b.args[0].sort.w
			lo := a.c & mask(iw)
			if uint64(sext(lo, iw))&mask(a.sort.w) != a.c {
				return f.ff
			}
			return f.Eq(f.BV(lo, int(iw)), b.args[0])
		case OAdd:
			if b.args[1].op == OConst {
				return f.Eq(f.BV(a.c-b.args[1].c, int(a.sort.w)), b.args[0])
			}
		case OConcat:
			lw := b.args[1].sort.w
			return f.And(f.Eq(f.BV(a.c>>lw, int(b.args[0].sort.w)), b.args[0]), f.Eq(f.BV(a.c, int(lw)), b.args[1]))
		}
	}
	if (a.op == OZExt || a.op == OSExt) && b.op == a.op && a.args[0].sort == b.args[0].sort {
		return f.Eq(a.args[0], b.args[0])
	}
	if a.op == OConst && b.op == OIte && (b.args[1].op == OConst || b.args[2].op == OConst) {
		return f.Ite(b.args[0], f.Eq(a, b.args[1]), f.Eq(a, b.args[2]))
	}
	if b.op != OConst && a.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return f.mk(OEq, sortBool, 0, "", a, b)
}

func (f *TermFactory) isITELeaf(t *Term) bool { return t.leaves > 0 }

// liftN applies a pure function on constants over ite-trees with constant leaves.
func (f *TermFactory) liftN(tag string, ts []*Term, fn func(cs []*Term) *Term) *Term {
	budget := 200000
	return f.liftRec(tag, ts, fn, &budget)
}

func (f *TermFactory) liftRec(tag string, ts []*Term, fn func(cs []*Term) *Term, budget *int) *Term {
	// find top condition
	var c *Term
	for _, t := range ts {
		if t.op == OIte {
			if c == nil || t.args[0].id > c.id {
				c = t.args[0]
			}
		}
	}
	if c == nil {
		return fn(ts)
	}
	var sb strings.Builder
	sb.WriteString(tag)
	for _, t := range ts {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(t.id))
	}
	key := sb.String()
	if r, ok := f.lift[key]; ok {
		return r
	}
	*budget--
	if *budget < 0 {
		panic(engineErr{"lift budget exceeded: " + tag})
	}
	as := make([]*Term, len(ts))
	bs := make([]*Term, len(ts))
	for i, t := range ts {
		as[i] = f.cofactor(t, c, true, 6)
		bs[i] = f.cofactor(t, c, false, 6)
	}
	r := f.Ite(c, f.liftRec(tag, as, fn, budget), f.liftRec(tag, bs, fn, budget))
	f.lift[key] = r
	return r
}

func (f *TermFactory) cofactor(t, c *Term, v bool, depth int) *Term {
	if t.op != OIte {
		return t
	}
	if t.args[0] == c {
		if v {
			return f.cofactor(t.args[1], c, v, depth)
		}
		return f.cofactor(t.args[2], c, v, depth)
	}
	// mutual exclusion of (x==k) conditions
	if v && depth > 0 {
		if excl(c, t.args[0]) {
			return f.cofactor(t.args[2], c, v, depth)
		}
	}
	if depth <= 0 || t.leaves > 64 {
		return t
	}
	a := f.cofactor(t.args[1], c, v, depth-1)
	b := f.cofactor(t.args[2], c, v, depth-1)
	if a == t.args[1] && b == t.args[2] {
		return t
	}
	return f.Ite(t.args[0], a, b)
}

// excl: a and b cannot both be true (x = k1 vs x = k2)
func excl(a, b *Term) bool {
	if a.op == OEq && b.op == OEq && a.args[0].op == OConst && b.args[0].op == OConst && a.args[1] == b.args[1] && a.args[0] != b.args[0] {
		return true
	}
	if b.op == ONot && b.args[0] == a {
		return true
	}
	return false
}

func allLeaves(ts ...*Term) bool {
	n := int64(1)
	for _, t := range ts {
		if t.leaves == 0 {
			return false
		}
		n *= int64(t.leaves)
		if n > 1<<16 {
			return false
		}
	}
	return true
}

func smallLeaves(lim int64, ts ...*Term) bool {
	n := int64(1)
	any := false
	for _, t := range ts {
		if t.leaves == 0 {
			return false
		}
		if t.leaves > 1 {
			any = true
		}
		n *= int64(t.leaves)
		if n > lim {
			return false
		}
	}
	return any
}

func evalBV(op Op, a, b uint64, w uint8) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m, true
	case OSub:
		return (a - b) & m, true
	case OMul:
		return (a * b) & m, true
	case OUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			if sa < 0 {
				return 1, true
			}
			return m, true
		}
		if sb == -1 {
			return uint64(-sa) & m, true
		}
		return uint64(sa/sb) & m, true
	case OSRem:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			return a, true
		}
		if sb == -1 {
			return 0, true
		}
		return uint64(sa%sb) & m, true
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OBXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAShr:
		s := sext(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(s>>b) & m, true
	case OULt:
		return b2u(a < b), true
	case OULe:
		return b2u(a <= b), true
	case OSLt:
		return b2u(sext(a, w) < sext(b, w)), true
	case OSLe:
		return b2u(sext(a, w) <= sext(b, w)), true
	}
	return 0, false
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func isCmp(op Op) bool {
	switch op {
	case OULt, OULe, OSLt, OSLe, OEq, OFLt, OFLe, OFEq:
		return true
	}
	return false
}

// Bin builds a bit-vector binary operation.
func (f *TermFactory) Bin(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("bin %d sort mismatch %v %v", op, a.sort, b.sort))
	}
	w := a.sort.w
	rs := a.sort
	if isCmp(op) {
		rs = sortBool
	}
	if a.op == OConst && b.op == OConst {
		v, ok := evalBV(op, a.c, b.c, w)
		if !ok {
			panic("evalBV")
		}
		return f.Const(v, rs)
	}
	// identities
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.c == 0 {
			return a
		}
		if b.op == OConst && a.op == OAdd && a.args[1].op == OConst {
			return f.Bin(OAdd, a.args[0], f.BV(a.args[1].c+b.c, int(w)))
		}
	case OSub:
		if b.op == OConst {
			return f.Bin(OAdd, a, f.BV(-b.c, int(w)))
		}
		if a == b {
			return f.BV(0, int(w))
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
		}
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.c == 0 {
				return b
			}
			if b.c == mask(w) {
				return a
			}
			if b.c&(b.c+1) == 0 { // low mask
				n := bits.Len64(b.c)
				if a.op == OZExt && int(a.args[0].sort.w) <= n {
					return a
				}
				if n < int(w) && a.leaves == 0 {
					return f.ZExt(f.Extract(a, n-1, 0), int(w))
				}
			}
		}
		if a == b {
			return a
		}
	case OBOr:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.c == 0 {
				return a
			}
			if b.c == mask(w) {
				return b
			}
		}
		if a == b {
			return a
		}
	case OBXor:
		if a == b {
			return f.BV(0, int(w))
		}
		if b.op == OConst && b.c == 0 {
			return a
		}
		if a.op == OConst && a.c == 0 {
			return b
		}
	case OShl, OLShr, OAShr:
		if b.op == OConst {
			if b.c == 0 {
				return a
			}
			if b.c >= uint64(w) && op != OAShr {
				return f.BV(0, int(w))
			}
			if op == OLShr && a.leaves == 0 && b.c < uint64(w) {
				return f.ZExt(f.Extract(a, int(w)-1, int(b.c)), int(w))
			}
		}
		if a.op == OConst && a.c == 0 {
			return a
		}
	case OULt, OSLt:
		if a == b {
			return f.ff
		}
		if op == OULt && b.op == OConst && b.c == 0 {
			return f.ff
		}
	case OULe, OSLe:
		if a == b {
			return f.tt
		}
	case OUDiv, OSDiv:
		if b.op == OConst && b.c == 1 {
			return a
		}
	}
	if smallLeaves(4096, a, b) {
		return f.liftN(fmt.Sprintf("b%d", op), []*Term{a, b}, func(cs []*Term) *Term {
			v, _ := evalBV(op, cs[0].c, cs[1].c, w)
			return f.Const(v, rs)
		})
	}
	switch op {
	case OULt, OULe, OSLt, OSLe:
		if r := f.linCmp(op, a, b); r != nil {
			return r
		}
	case OSDiv, OUDiv, OSRem, OURem:
		if b.op == OConst && a.leaves == 0 {
			if q, r := f.linDiv(a, sext(b.c, w)); q != nil {
				if op == OSDiv || op == OUDiv {
					return q
				}
				return r
			}
		}
	}
	// narrow comparisons of extensions with constants
	if op == OULt || op == OULe || op == OSLt || op == OSLe {
		if r := f.narrowCmp(op, a, b); r != nil {
			return r
		}
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if b.op != OConst && a.id > b.id {
			a, b = b, a
		}
	}
	t := f.mk(op, rs, 0, "", a, b)
	if op == OAdd || op == OSub {
		// sums that cancel out
		if l := f.lin(t); len(l.as) == 0 {
			return f.BV(uint64(l.c), int(w))
		} else if len(l.as) == 1 && l.cs[0] == 1 && l.c == 0 && l.as[0] != t {
			return f.at(l.as[0], int(w))
		}
	}
	return t
}

// unsigned range upper bound of a term (cheap)
func (f *TermFactory) narrowCmp(op Op, a, b *Term) *Term {
	w := a.sort.w
	az := a.op == OZExt
	bz := b.op == OZExt
	signed := op == OSLt || op == OSLe
	uop := op
	if op == OSLt {
		uop = OULt
	}
	if op == OSLe {
		uop = OULe
	}
	if az && bz && a.args[0].sort == b.args[0].sort {
		return f.Bin(uop, a.args[0], b.args[0])
	}
	if az && b.op == OConst {
		iw := a.args[0].sort.w
		if signed {
			sb := sext(b.c, w)
			if sb < 0 {
				return f.ff
			}
		}
		if b.c > mask(iw) {
			return f.tt
		}
		if uop == OULe && b.c == mask(iw) {
			return f.tt
		}
		return f.Bin(uop, a.args[0], f.BV(b.c, int(iw)))
	}
	if bz && a.op == OConst {
		iw := b.args[0].sort.w
		if signed {
			sa := sext(a.c, w)
			if sa < 0 {
				return f.tt
			}
		}
		if a.c > mask(iw) {
			return f.ff
		}
		if uop == OULe && a.c == 0 {
			return f.tt
		}
		return f.Bin(uop, f.BV(a.c, int(iw)), b.args[0])
	}
	if signed && a.op == OSExt && b.op == OSExt && a.args[0].sort == b.args[0].sort {
		return f.Bin(op, a.args[0], b.args[0])
	}
	return nil
}

func (f *TermFactory) BNot(a *Term) *Term {
	if a.op == OConst {
		return f.BV(^a.c, int(a.sort.w))
	}
	if smallLeaves(4096, a) {
		return f.liftN("bnot", []*Term{a}, func(cs []*Term) *Term { return f.BV(^cs[0].c, int(a.sort.w)) })
	}
	return f.mk(OBNot, a.sort, 0, "", a)
}
func (f *TermFactory) Neg(a *Term) *Term {
	if a.op == OConst {
		return f.BV(-a.c, int(a.sort.w))
	}
	if smallLeaves(4096, a) {
		return f.liftN("neg", []*Term{a}, func(cs []*Term) *Term { return f.BV(-cs[0].c, int(a.sort.w)) })
	}
	return f.mk(ONeg, a.sort, 0, "", a)
}

func (f *TermFactory) Extract(a *Term, hi, lo int) *Term {
	if lo == 0 && hi == int(a.sort.w)-1 {
		return a
	}
	w := hi - lo + 1
	if a.op == OConst {
		return f.BV(a.c>>uint(lo), w)
	}
	if smallLeaves(4096, a) {
		return f.liftN(fmt.Sprintf("ex%d.%d", hi, lo), []*Term{a}, func(cs []*Term) *Term { return f.BV(cs[0].c>>uint(lo), w) })
	}
	if lo == 0 && (a.op == OAdd || a.op == OSub || a.op == OMul || a.op == OIte) && f.rng(a).within(uint8(w)) {
		return f.mk(OExtract, bvSort(w), uint64(hi)<<8, "", a)
	}
	switch a.op {
	case OExtract:
		ilo := int(a.c & 0xff)
		return f.Extract(a.args[0], hi+ilo, lo+ilo)
	case OZExt:
		iw := int(a.args[0].sort.w)
		if hi < iw {
			return f.Extract(a.args[0], hi, lo)
		}
		if lo >= iw {
			return f.BV(0, w)
		}
		return f.ZExt(f.Extract(a.args[0], iw-1, lo), w)
	case OSExt:
		iw := int(a.args[0].sort.w)
		if hi < iw {
			return f.Extract(a.args[0], hi, lo)
		}
	case OConcat:
		lw := int(a.args[1].sort.w)
		if hi < lw {
			return f.Extract(a.args[1], hi, lo)
		}
		if lo >= lw {
			return f.Extract(a.args[0], hi-lw, lo-lw)
		}
	case OIte:
		if a.size < 200 {
			return f.Ite(a.args[0], f.Extract(a.args[1], hi, lo), f.Extract(a.args[2], hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		return f.Bin(a.op, f.Extract(a.args[0], hi, lo), f.Extract(a.args[1], hi, lo))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return f.Bin(a.op, f.Extract(a.args[0], hi, lo), f.Extract(a.args[1], hi, lo))
		}
	case OShl:
		if a.args[1].op == OConst {
			s := int(a.args[1].c)
			if lo >= s {
				return f.Extract(a.args[0], hi-s, lo-s)
			}
			if hi < s {
				return f.BV(0, w)
			}
		}
	}
	return f.mk(OExtract, bvSort(w), uint64(hi)<<8|uint64(lo), "", a)
}

func (f *TermFactory) ZExt(a *Term, w int) *Term {
	if int(a.sort.w) == w {
		return a
	}
	if a.op == OConst {
		return f.BV(a.c, w)
	}
	if a.op == OZExt {
		return f.ZExt(a.args[0], w)
	}
	if a.op == OExtract && a.c&0xff == 0 && int(a.args[0].sort.w) == w {
		if r := f.rng(a.args[0]); r.lo >= 0 && r.within(a.sort.w) {
			return a.args[0]
		}
	}
	if smallLeaves(4096, a) {
		return f.liftN(fmt.Sprintf("zx%d", w), []*Term{a}, func(cs []*Term) *Term { return f.BV(cs[0].c, w) })
	}
	return f.mk(OZExt, bvSort(w), 0, "", a)
}
func (f *TermFactory) SExt(a *Term, w int) *Term {
	if int(a.sort.w) == w {
		return a
	}
	if a.op == OConst {
		return f.BV(uint64(sext(a.c, a.sort.w)), w)
	}
	if a.op == OZExt {
		return f.ZExt(a.args[0], w)
	}
	if a.op == OSExt {
		return f.SExt(a.args[0], w)
	}
	if a.op == OExtract && a.c&0xff == 0 && int(a.args[0].sort.w) == w && f.rng(a.args[0]).within(a.sort.w) {
		return a.args[0]
	}
	if smallLeaves(4096, a) {
		return f.liftN(fmt.Sprintf("sx%d", w), []*Term{a}, func(cs []*Term) *Term { return f.BV(uint64(sext(cs[0].c, a.sort.w)), w) })
	}
	return f.mk(OSExt, bvSort(w), 0, "", a)
}

func (f *TermFactory) Concat(a, b *Term) *Term {
	w := int(a.sort.w) + int(b.sort.w)
	if a.op == OConst && b.op == OConst {
		return f.BV(a.c<<b.sort.w|b.c, w)
	}
	return f.mk(OConcat, bvSort(w), 0, "", a, b)
}

// ---- floats

func fpval(c uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(c)))
	}
	return math.Float64frombits(c)
}

func (f *TermFactory) fpConst(v float64, w uint8) *Term {
	if w == 32 {
		return f.F32(float32(v))
	}
	return f.F64(v)
}

func (f *TermFactory) FBin(op Op, a, b *Term) *Term {
	w := a.sort.w
	eval := func(cs []*Term) *Term {
		if w == 32 {
			x, y := math.Float32frombits(uint32(cs[0].c)), math.Float32frombits(uint32(cs[1].c))
			switch op {
			case OFAdd:
				return f.F32(x + y)
			case OFSub:
				return f.F32(x - y)
			case OFMul:
				return f.F32(x * y)
			case OFDiv:
				return f.F32(x / y)
			case OFLt:
				return f.Bool(x < y)
			case OFLe:
				return f.Bool(x <= y)
			case OFEq:
				return f.Bool(x == y)
			}
		}
		x, y := math.Float64frombits(cs[0].c), math.Float64frombits(cs[1].c)
		switch op {
		case OFAdd:
			return f.F64(x + y)
		case OFSub:
			return f.F64(x - y)
		case OFMul:
			return f.F64(x * y)
		case OFDiv:
			return f.F64(x / y)
		case OFLt:
			return f.Bool(x < y)
		case OFLe:
			return f.Bool(x <= y)
		case OFEq:
			return f.Bool(x == y)
		}
		panic("fbin")
	}
	if a.leaves > 0 && b.leaves > 0 && int64(a.leaves)*int64(b.leaves) <= 1<<16 {
		return f.liftN(fmt.Sprintf("f%d", op), []*Term{a, b}, eval)
	}
	rs := a.sort
	if isCmp(op) {
		rs = sortBool
	}
	return f.mk(op, rs, 0, "", a, b)
}

// FUn applies a native unary float function; general is used if not constant-leaved.
func (f *TermFactory) FUn(tag string, a *Term, fn func(float64) float64) *Term {
	if a.leaves > 0 {
		return f.liftN("fu."+tag, []*Term{a}, func(cs []*Term) *Term { return f.fpConst(fn(fpval(cs[0].c, a.sort.w)), a.sort.w) })
	}
	switch tag {
	case "neg":
		return f.mk(OFNeg, a.sort, 0, "", a)
	case "abs":
		return f.mk(OFAbs, a.sort, 0, "", a)
	case "sqrt":
		return f.mk(OFSqrt, a.sort, 0, "", a)
	}
	return nil
}

func (f *TermFactory) FtoF(a *Term, w int) *Term {
	if int(a.sort.w) == w {
		return a
	}
	if a.leaves > 0 {
		return f.liftN(fmt.Sprintf("ff%d", w), []*Term{a}, func(cs []*Term) *Term { return f.fpConst(fpval(cs[0].c, a.sort.w), uint8(w)) })
	}
	return f.mk(OFtoF, fpSort(w), 0, "", a)
}

func (f *TermFactory) ItoF(a *Term, signed bool, w int) *Term {
	if a.leaves > 0 {
		return f.liftN(fmt.Sprintf("if%v%d.%d", signed, w, a.sort.w), []*Term{a}, func(cs []*Term) *Term {
			if signed {
				v := sext(cs[0].c, a.sort.w)
				if w == 32 {
					return f.F32(float32(v))
				}
				return f.F64(float64(v))
			}
			if w == 32 {
				return f.F32(float32(cs[0].c))
			}
			return f.F64(float64(cs[0].c))
		})
	}
	if t := f.enumerate(a); t != nil {
		return f.ItoF(t, signed, w)
	}
	if signed {
		return f.mk(OSItoF, fpSort(w), 0, "", a)
	}
	return f.mk(OUItoF, fpSort(w), 0, "", a)
}

func (f *TermFactory) FtoI(a *Term, signed bool, w int) *Term {
	if a.leaves > 0 {
		return f.liftN(fmt.Sprintf("fi%v%d", signed, w), []*Term{a}, func(cs []*Term) *Term {
			v := fpval(cs[0].c, a.sort.w)
			if signed {
				// amd64 semantics for out-of-range: min int64
				if v != v || v >= 9223372036854775808.0 || v < -9223372036854775808.0 {
					return f.BV(1<<63, w)
				}
				return f.BV(uint64(int64(v)), w)
			}
			if v != v {
				return f.BV(1<<63, w)
			}
			return f.BV(uint64(v), w)
		})
	}
	if signed {
		return f.mk(OFtoSI, bvSort(w), 0, "", a)
	}
	return f.mk(OFtoUI, bvSort(w), 0, "", a)
}

// enumerate returns a as an ite-tree over its possible values, if it is made of few
// input variables and has few values; nil otherwise.
func (f *TermFactory) enumerate(a *Term) *Term {
	if r, ok := f.enum[a.id]; ok {
		return r
	}
	f.enum[a.id] = nil
	var vars []*Term
	seen := map[int]bool{}
	n := 1
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t.id] {
			return true
		}
		seen[t.id] = true
		if len(seen) > 200 {
			return false
		}
		if t.op == OVar {
			d, ok := f.dom[t.name]
			if !ok || d <= 0 || n > 65536/d {
				return false
			}
			n *= d
			vars = append(vars, t)
		}
		for _, x := range t.args {
			if !walk(x) {
				return false
			}
		}
		return true
	}
	if !walk(a) || len(vars) == 0 {
		return nil
	}
	m := NewModel()
	vals := map[uint64]bool{}
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(vars) {
			clear(m.memo)
			vals[m.Eval(a)] = true
			return len(vals) <= 512
		}
		for v := 0; v < f.dom[vars[i].name]; v++ {
			m.vals[vars[i].name] = uint64(v)
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	if !rec(0) {
		return nil
	}
	var vs []uint64
	for v := range vals {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return sext(vs[i], a.sort.w) < sext(vs[j], a.sort.w) })
	var tree func(vs []uint64) *Term
	tree = func(vs []uint64) *Term {
		if len(vs) == 1 {
			return f.BV(vs[0], int(a.sort.w))
		}
		h := len(vs) / 2
		return f.Ite(f.mk(OSLt, sortBool, 0, "", a, f.BV(vs[h], int(a.sort.w))), tree(vs[:h]), tree(vs[h:]))
	}
	r := tree(vs)
	f.enum[a.id] = r
	return r
}

// ---- evaluation under a model

type Model struct {
	vals map[string]uint64
	memo map[int]uint64
}

func NewModel() *Model { return &Model{vals: map[string]uint64{}, memo: map[int]uint64{}} }

func (m *Model) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.c
	}
	if v, ok := m.memo[t.id]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OVar:
		r = m.vals[t.name] & mask(t.sort.w)
	case ONot:
		r = 1 - m.Eval(t.args[0])
	case OAnd:
		r = 1
		for _, a := range t.args {
			if m.Eval(a) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		r = 0
		for _, a := range t.args {
			if m.Eval(a) != 0 {
				r = 1
				break
			}
		}
	case OIte:
		if m.Eval(t.args[0]) != 0 {
			r = m.Eval(t.args[1])
		} else {
			r = m.Eval(t.args[2])
		}
	case OEq:
		r = b2u(m.Eval(t.args[0]) == m.Eval(t.args[1]))
	case OBNot:
		r = ^m.Eval(t.args[0]) & mask(t.sort.w)
	case ONeg:
		r = -m.Eval(t.args[0]) & mask(t.sort.w)
	case OConcat:
		r = m.Eval(t.args[0])<<t.args[1].sort.w | m.Eval(t.args[1])
	case OExtract:
		r = (m.Eval(t.args[0]) >> (t.c & 0xff)) & mask(t.sort.w)
	case OZExt:
		r = m.Eval(t.args[0])
	case OSExt:
		r = uint64(sext(m.Eval(t.args[0]), t.args[0].sort.w)) & mask(t.sort.w)
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq:
		r = evalF(t.op, m.Eval(t.args[0]), m.Eval(t.args[1]), t.args[0].sort.w)
	case OFNeg, OFAbs, OFSqrt:
		v := fpval(m.Eval(t.args[0]), t.sort.w)
		switch t.op {
		case OFNeg:
			v = -v
		case OFAbs:
			v = math.Abs(v)
		case OFSqrt:
			v = math.Sqrt(v)
		}
		r = fbits(v, t.sort.w)
	case OFtoF:
		r = fbits(fpval(m.Eval(t.args[0]), t.args[0].sort.w), t.sort.w)
	case OSItoF:
		v := sext(m.Eval(t.args[0]), t.args[0].sort.w)
		if t.sort.w == 32 {
			r = uint64(math.Float32bits(float32(v)))
		} else {
			r = math.Float64bits(float64(v))
		}
	case OUItoF:
		v := m.Eval(t.args[0])
		if t.sort.w == 32 {
			r = uint64(math.Float32bits(float32(v)))
		} else {
			r = math.Float64bits(float64(v))
		}
	case OFtoSI:
		r = uint64(int64(fpval(m.Eval(t.args[0]), t.args[0].sort.w))) & mask(t.sort.w)
	case OFtoUI:
		r = uint64(fpval(m.Eval(t.args[0]), t.args[0].sort.w)) & mask(t.sort.w)
	default:
		v, ok := evalBV(t.op, m.Eval(t.args[0]), m.Eval(t.args[1]), t.args[0].sort.w)
		if !ok {
			panic(fmt.Sprintf("model eval op %d", t.op))
		}
		r = v
	}
	m.memo[t.id] = r
	return r
}

func fbits(v float64, w uint8) uint64 {
	if w == 32 {
		if v != v {
			return 0x7fc00000
		}
		return uint64(math.Float32bits(float32(v)))
	}
	if v != v {
		v = math.NaN()
	}
	return math.Float64bits(v)
}

func evalF(op Op, a, b uint64, w uint8) uint64 {
	if w == 32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		switch op {
		case OFAdd:
			return fbits(float64(x+y), 32)
		case OFSub:
			return fbits(float64(x-y), 32)
		case OFMul:
			return fbits(float64(x*y), 32)
		case OFDiv:
			return fbits(float64(x/y), 32)
		case OFLt:
			return b2u(x < y)
		case OFLe:
			return b2u(x <= y)
		case OFEq:
			return b2u(x == y)
		}
	}
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	switch op {
	case OFAdd:
		return fbits(x+y, 64)
	case OFSub:
		return fbits(x-y, 64)
	case OFMul:
		return fbits(x*y, 64)
	case OFDiv:
		return fbits(x/y, 64)
	case OFLt:
		return b2u(x < y)
	case OFLe:
		return b2u(x <= y)
	case OFEq:
		return b2u(x == y)
	}
	panic("evalF")
}

type engineErr struct{ msg string }

func (e engineErr) Error() string { return e.msg }

// ---- printing

func constSMT(t *Term) string {
	switch t.sort.k {
	case KBool:
		if t.c != 0 {
			return "true"
		}
		return "false"
	case KBV:
		if t.sort.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.sort.w)/4, t.c)
		}
		return fmt.Sprintf("#b%0*b", int(t.sort.w), t.c)
	}
	if t.sort.w == 32 {
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.c)
	}
	return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.c)
}
