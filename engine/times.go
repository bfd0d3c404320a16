package main

import (
	"strconv"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Calendar arithmetic is pure, so it is applied leaf by leaf to the ite-trees its
// arguments are. Only times without monotonic clock reading whose nanoseconds are
// zero and whose location is UTC are handled here; for all others the standard
// library's code is interpreted.

const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400

func natTime(ext int64) time.Time { return time.Unix(ext-unixToInternal, 0).UTC() }
func extOf(t time.Time) int64     { return t.Unix() + unixToInternal }

// utcTime returns the seconds field of a time value.
func (e *Engine) utcTime(v Value) (*Term, bool) {
	s, ok := v.(*StructV)
	if !ok || len(s.f) != 3 {
		return nil, false
	}
	w, ok := s.f[0].(*Term)
	if !ok || !w.isConst() || w.c != 0 {
		return nil, false
	}
	x, ok := s.f[1].(*Term)
	if !ok || x.leaves == 0 {
		return nil, false
	}
	p, ok := s.f[2].(Ptr)
	if !ok || p.obj != 0 {
		return nil, false
	}
	return x, true
}

func (e *Engine) mkTime(x *Term) Value {
	return &StructV{f: []Value{e.f.BV(0, 64), e.f.normal(x), Ptr{}}}
}

func leafTerms(vs ...Value) ([]*Term, bool) {
	var ts []*Term
	for _, v := range vs {
		t, ok := v.(*Term)
		if !ok || t.leaves == 0 {
			return nil, false
		}
		ts = append(ts, t)
	}
	return ts, true
}

func init() {
	m := intrinsics
	m["time.Date"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		ts, ok := leafTerms(args[:7]...)
		if !ok || !ts[6].isConst() || ts[6].c != 0 {
			return nil, false
		}
		p, ok := args[7].(Ptr)
		if !ok || p.obj == 0 || len(p.path) != 0 {
			return nil, false
		}
		utc := false
		for g, id := range e.globals {
			if id == p.obj {
				utc = g.Pkg != nil && g.Pkg.Pkg.Path() == "time" && g.Name() == "utcLoc"
			}
		}
		if !utc {
			return nil, false
		}
		return e.mkTime(e.f.liftN("time.Date", ts[:6], func(c []*Term) *Term {
			a := make([]int, 6)
			for i := range a {
				a[i] = int(sext(c[i].c, c[i].sort.w))
			}
			return e.f.BV(uint64(extOf(time.Date(a[0], time.Month(a[1]), a[2], a[3], a[4], a[5], 0, time.UTC))), 64)
		})), true
	}
	m["(time.Time).AddDate"] = func(e *Engine, st *State, fn *ssa.Function, args []Value) (Value, bool) {
		x, ok := e.utcTime(args[0])
		ts, ok2 := leafTerms(args[1:]...)
		if !ok || !ok2 {
			return nil, false
		}
		return e.mkTime(e.f.liftN("AddDate", append([]*Term{x}, ts...), func(c []*Term) *Term {
			return e.f.BV(uint64(extOf(natTime(int64(c[0].c)).AddDate(int(int64(c[1].c)), int(int64(c[2].c)), int(int64(c[3].c))))), 64)
		})), true
	}
	get := func(n string, fn func(t time.Time) int) {
		m["(time.Time)."+n] = func(e *Engine, st *State, f *ssa.Function, args []Value) (Value, bool) {
			x, ok := e.utcTime(args[0])
			if !ok {
				return nil, false
			}
			return e.f.liftN("T."+n, []*Term{x}, func(c []*Term) *Term {
				return e.vInt(int64(fn(natTime(int64(c[0].c))))).(*Term)
			}), true
		}
	}
	get("Weekday", func(t time.Time) int { return int(t.Weekday()) })
	get("Day", func(t time.Time) int { return t.Day() })
	get("Month", func(t time.Time) int { return int(t.Month()) })
	get("Year", func(t time.Time) int { return t.Year() })
	get("YearDay", func(t time.Time) int { return t.YearDay() })
	get("Hour", func(t time.Time) int { return t.Hour() })
	get("Unix", func(t time.Time) int { return int(t.Unix()) })
	multi := func(n string, fn func(t time.Time) []int) {
		m["(time.Time)."+n] = func(e *Engine, st *State, f *ssa.Function, args []Value) (Value, bool) {
			x, ok := e.utcTime(args[0])
			if !ok {
				return nil, false
			}
			var r TupleV
			for i := 0; i < f.Signature.Results().Len(); i++ {
				i := i
				r = append(r, e.f.liftN("T."+n+string(rune('0'+i)), []*Term{x}, func(c []*Term) *Term {
					return e.vInt(int64(fn(natTime(int64(c[0].c)))[i])).(*Term)
				}))
			}
			return r, true
		}
	}
	multi("Date", func(t time.Time) []int { y, mo, d := t.Date(); return []int{y, int(mo), d} })
	multi("ISOWeek", func(t time.Time) []int { y, w := t.ISOWeek(); return []int{y, w} })
	cmp := func(n string, fn func(a, b int64) bool) {
		m["(time.Time)."+n] = func(e *Engine, st *State, f *ssa.Function, args []Value) (Value, bool) {
			a, ok := e.utcTime(args[0])
			b, ok2 := e.utcTime(args[1])
			if !ok || !ok2 {
				return nil, false
			}
			a, b = e.f.normal(a), e.f.normal(b)
			return e.f.liftN("T."+n, []*Term{a, b}, func(c []*Term) *Term {
				return e.f.Bool(fn(int64(c[0].c), int64(c[1].c)))
			}), true
		}
	}
	cmp("Before", func(a, b int64) bool { return a < b })
	cmp("After", func(a, b int64) bool { return a > b })
	cmp("Equal", func(a, b int64) bool { return a == b })
	m["(time.Time).Sub"] = func(e *Engine, st *State, f *ssa.Function, args []Value) (Value, bool) {
		a, ok := e.utcTime(args[0])
		b, ok2 := e.utcTime(args[1])
		if !ok || !ok2 {
			return nil, false
		}
		a, b = e.f.normal(a), e.f.normal(b)
		return e.f.liftN("T.Sub", []*Term{a, b}, func(c []*Term) *Term {
			return e.f.BV(uint64(natTime(int64(c[0].c)).Sub(natTime(int64(c[1].c)))), 64)
		}), true
	}
	m["(time.Duration).Hours"] = func(e *Engine, st *State, f *ssa.Function, args []Value) (Value, bool) {
		ts, ok := leafTerms(args...)
		if !ok {
			return nil, false
		}
		return e.f.liftN("D.Hours", ts, func(c []*Term) *Term { return e.f.F64(time.Duration(c[0].c).Hours()) }), true
	}
}

// normal rewrites an ite-tree into a chain with one arm per distinct value.
func (f *TermFactory) normal(t *Term) *Term {
	if t.op != OIte || t.leaves == 0 || t.leaves < 4 {
		return t
	}
	if r, ok := f.lift["normal|"+itoa(t.id)]; ok {
		return r
	}
	type lg struct {
		v *Term
		g *Term
	}
	memo := map[*Term][]lg{}
	var rec func(t *Term) []lg
	rec = func(t *Term) []lg {
		if t.op != OIte {
			return []lg{{t, f.tt}}
		}
		if r, ok := memo[t]; ok {
			return r
		}
		c, nc := t.args[0], f.Not(t.args[0])
		var r []lg
		a, b := rec(t.args[1]), rec(t.args[2])
		i, j := 0, 0
		for i < len(a) || j < len(b) {
			switch {
			case j == len(b) || i < len(a) && a[i].v.c < b[j].v.c:
				r = append(r, lg{a[i].v, f.And(c, a[i].g)})
				i++
			case i == len(a) || b[j].v.c < a[i].v.c:
				r = append(r, lg{b[j].v, f.And(nc, b[j].g)})
				j++
			default:
				r = append(r, lg{a[i].v, f.Ite(c, a[i].g, b[j].g)})
				i++
				j++
			}
		}
		memo[t] = r
		return r
	}
	l := rec(t)
	r := l[len(l)-1].v
	for i := len(l) - 2; i >= 0; i-- {
		r = f.Ite(l[i].g, l[i].v, r)
	}
	f.lift["normal|"+itoa(t.id)] = r
	return r
}

func itoa(i int) string { return strconv.Itoa(i) }
