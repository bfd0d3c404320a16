package main

import (
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// FnInfo: static per-function data: register numbering, loop structure
// (weak topological order), liveness.
type FnInfo struct {
	fn      *ssa.Function
	id      int
	reg     map[ssa.Value]int
	nreg    int
	paths   [][]int32 // per block: index at each nesting level
	depth   int
	heads   []int     // per block: nesting level of which it is head (1-based level idx), 0 = none
	comp    [][]int32 // per block: component ids per level (len = len(path)-1)
	live    []map[int]bool
	liveAt  map[[2]int][]int
	liveBlk []([]int)
	mu      sync.Mutex
}

type Prog struct {
	prog      *ssa.Program
	infos     map[*ssa.Function]*FnInfo
	errString types.Type
	mu        sync.Mutex
}

func (p *Prog) info(fn *ssa.Function) *FnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.infos[fn]; ok {
		return i
	}
	i := buildInfo(fn)
	i.id = len(p.infos) + 1
	p.infos[fn] = i
	return i
}

func buildInfo(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{fn: fn, reg: map[ssa.Value]int{}, liveAt: map[[2]int][]int{}}
	add := func(v ssa.Value) {
		fi.reg[v] = fi.nreg
		fi.nreg++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.wto()
	fi.liveness()
	return fi
}

// Bourdoncle's weak topological order.
func (fi *FnInfo) wto() {
	fn := fi.fn
	n := len(fn.Blocks)
	fi.paths = make([][]int32, n)
	fi.heads = make([]int, n)
	fi.comp = make([][]int32, n)
	if n == 0 {
		return
	}
	type elem struct {
		v    int
		sub  []elem
		comp bool
	}
	dfn := make([]int, n)
	num := 0
	var stack []int
	const inf = 1 << 30
	var visit func(v int, part *[]elem) int
	var component func(v int) elem
	component = func(v int) elem {
		var part []elem
		for _, s := range fn.Blocks[v].Succs {
			if dfn[s.Index] == 0 {
				visit(s.Index, &part)
			}
		}
		// reverse
		for i, j := 0, len(part)-1; i < j; i, j = i+1, j-1 {
			part[i], part[j] = part[j], part[i]
		}
		return elem{v: v, sub: part, comp: true}
	}
	visit = func(v int, part *[]elem) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := num
		loop := false
		for _, s := range fn.Blocks[v].Succs {
			var m int
			if dfn[s.Index] == 0 {
				m = visit(s.Index, part)
			} else {
				m = dfn[s.Index]
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			el := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for el != v {
					dfn[el] = 0
					el = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*part = append(*part, component(v))
			} else {
				*part = append(*part, elem{v: v})
			}
		}
		return head
	}
	var top []elem
	visit(0, &top)
	if fn.Recover != nil && dfn[fn.Recover.Index] == 0 {
		visit(fn.Recover.Index, &top)
	}
	for i, j := 0, len(top)-1; i < j; i, j = i+1, j-1 {
		top[i], top[j] = top[j], top[i]
	}
	compID := int32(0)
	var assign func(part []elem, pre []int32, comps []int32)
	assign = func(part []elem, pre []int32, comps []int32) {
		for i, e := range part {
			p := append(append([]int32{}, pre...), int32(i+1))
			if !e.comp {
				fi.paths[e.v] = p
				fi.comp[e.v] = comps
				continue
			}
			compID++
			cs := append(append([]int32{}, comps...), compID)
			hp := append(append([]int32{}, p...), 0)
			fi.paths[e.v] = hp
			fi.comp[e.v] = cs
			fi.heads[e.v] = len(cs)
			if len(cs) > fi.depth {
				fi.depth = len(cs)
			}
			assign(e.sub, p, cs)
		}
	}
	assign(top, nil, nil)
	for i := range fi.paths {
		if fi.paths[i] == nil {
			fi.paths[i] = []int32{int32(1000000 + i)}
		}
	}
}

// updateIters computes the loop counters after the edge from->to.
func (fi *FnInfo) updateIters(iters []int32, from, to int) []int32 {
	ct := fi.comp[to]
	if len(ct) == 0 {
		return nil
	}
	cf := fi.comp[from]
	n := make([]int32, len(ct))
	for l := range ct {
		if l < len(cf) && cf[l] == ct[l] {
			n[l] = iters[l]
		} else {
			break
		}
	}
	if h := fi.heads[to]; h > 0 && h <= len(cf) && cf[h-1] == ct[h-1] {
		n[h-1]++
	}
	return n
}

func (fi *FnInfo) liveness() {
	fn := fi.fn
	n := len(fn.Blocks)
	// liveOut per block as bitset via map
	liveIn := make([]map[int]bool, n) // at first non-phi
	for i := range liveIn {
		liveIn[i] = map[int]bool{}
	}
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := fi.liveOut(b, liveIn)
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if _, ok := in.(*ssa.Phi); ok {
					break
				}
				fi.transfer(in, live)
			}
			if len(live) != len(liveIn[i]) {
				changed = true
				liveIn[i] = live
			} else {
				for r := range live {
					if !liveIn[i][r] {
						changed = true
						liveIn[i] = live
						break
					}
				}
			}
		}
	}
	fi.live = liveIn
}

func (fi *FnInfo) liveOut(b *ssa.BasicBlock, liveIn []map[int]bool) map[int]bool {
	live := map[int]bool{}
	for _, s := range b.Succs {
		for r := range liveIn[s.Index] {
			live[r] = true
		}
		// phi defs are not live on the edge; phi uses from b are
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			delete(live, fi.reg[ph])
		}
	}
	for _, s := range b.Succs {
		pi := -1
		for i, p := range s.Preds {
			if p == b {
				pi = i
			}
		}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range s.Preds {
				if p == b || i == pi {
					if r, ok := fi.reg[ph.Edges[i]]; ok {
						live[r] = true
					}
				}
			}
		}
	}
	return live
}

func (fi *FnInfo) transfer(in ssa.Instruction, live map[int]bool) {
	if v, ok := in.(ssa.Value); ok {
		delete(live, fi.reg[v])
	}
	var ops [10]*ssa.Value
	for _, op := range in.Operands(ops[:0]) {
		if *op == nil {
			continue
		}
		if r, ok := fi.reg[*op]; ok {
			live[r] = true
		}
	}
}

// liveRegs returns the registers live before instruction pc of block b
// (after = true: live after the value of instruction pc is still to be defined,
// i.e. registers needed once the call at pc has returned).
func (fi *FnInfo) liveRegs(b *ssa.BasicBlock, pc int, inCall bool) []int {
	k := [2]int{b.Index, pc*2 + bool2int(inCall)}
	fi.mu.Lock()
	defer fi.mu.Unlock()
	if r, ok := fi.liveAt[k]; ok {
		return r
	}
	live := fi.liveOut(b, fi.live)
	for i := len(b.Instrs) - 1; i >= pc; i-- {
		in := b.Instrs[i]
		if inCall && i == pc {
			if v, ok := in.(ssa.Value); ok {
				delete(live, fi.reg[v])
			}
			break
		}
		fi.transfer(in, live)
	}
	// named results / recover need allocs: those are heap objects referenced by
	// registers used in the Recover block
	if fi.fn.Recover != nil {
		for r := range fi.live[fi.fn.Recover.Index] {
			live[r] = true
		}
	}
	var out []int
	for r := range live {
		out = append(out, r)
	}
	sortInts(out)
	fi.liveAt[k] = out
	return out
}

func bool2int(b bool) int {
	if b {
		return 1
	}
	return 0
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// ---- types

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func basicSort(b *types.Basic) (Sort, bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return sortBool, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return bvSort(64), true
	case types.Int8, types.Uint8:
		return bvSort(8), true
	case types.Int16, types.Uint16:
		return bvSort(16), true
	case types.Int32, types.Uint32, types.UntypedRune:
		return bvSort(32), true
	case types.Float32:
		return fpSort(32), true
	case types.Float64, types.UntypedFloat:
		return fpSort(64), true
	}
	return Sort{}, false
}
