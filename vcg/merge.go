package main

// Joining the two sides of an if: when every path from the branch meets again
// at one block, the sides are executed up to that block and continued as one
// state whose values depend on the condition. Only done for contracts that say
// "merge"; it changes the size of the obligations, not their meaning.

import (
	"golang.org/x/tools/go/ssa"
)

type stopAt struct {
	fr   *Frame
	b    *ssa.BasicBlock
	got  []arrival
	next *stopAt
}

type arrival struct {
	st   *State
	regs map[ssa.Value]*Val
	prev *ssa.BasicBlock
}

var pdomCache = map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}

// ipdom: the block all paths from b (that do not panic) meet at, or nil
func ipdom(b *ssa.BasicBlock) *ssa.BasicBlock {
	fn := b.Parent()
	if m, ok := pdomCache[fn]; ok {
		return m[b]
	}
	n := len(fn.Blocks)
	dead := make([]bool, n) // ends in a panic
	for _, x := range fn.Blocks {
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Panic); ok {
			dead[x.Index] = true
		}
	}
	set := make([]map[int]bool, n) // nil: everything
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			x := fn.Blocks[i]
			if dead[i] {
				continue
			}
			var s map[int]bool
			if len(x.Succs) == 0 {
				s = map[int]bool{}
			} else {
				for _, y := range x.Succs {
					if dead[y.Index] || set[y.Index] == nil {
						continue
					}
					if s == nil {
						s = map[int]bool{}
						for k := range set[y.Index] {
							s[k] = true
						}
						continue
					}
					for k := range s {
						if !set[y.Index][k] {
							delete(s, k)
						}
					}
				}
				if s == nil {
					continue
				}
			}
			s[i] = true
			if set[i] == nil || len(set[i]) != len(s) {
				set[i] = s
				ch = true
			}
		}
	}
	m := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, x := range fn.Blocks {
		best := -1
		for k := range set[i] {
			if k != i && (best < 0 || len(set[k]) > len(set[best])) {
				best = k
			}
		}
		if best >= 0 {
			m[x] = fn.Blocks[best]
		}
	}
	pdomCache[fn] = m
	return m[b]
}

// joinBlock: where the sides of the branch ending b meet, if the code between
// contains no loop
func (v *V) joinBlock(fr *Frame, b *ssa.BasicBlock) *ssa.BasicBlock {
	j := ipdom(b)
	if j == nil || fr.info.byHeader[j] != nil {
		return nil
	}
	for _, l := range fr.info.byHeader {
		if l.body[b] != l.body[j] {
			return nil
		}
	}
	seen := map[*ssa.BasicBlock]bool{j: true}
	stack := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if fr.info.byHeader[x] != nil {
			return nil
		}
		stack = append(stack, x.Succs...)
	}
	return j
}

// branch executes both sides of the if ending block b
func (v *V) branch(fr *Frame, b *ssa.BasicBlock, c *Term, st *State, k Cont) bool {
	if v.con == nil || !v.con.Merge {
		return false
	}
	j := v.joinBlock(fr, b)
	if j == nil {
		return false
	}
	base := st.copy()
	regs := copyRegs(fr)
	var sides [2][]arrival
	for i, cond := range []*Term{c, Not(c)} {
		s := base.copy()
		s.assume(cond)
		fr.regs = copyRegsMap(regs)
		if !v.feasible(s) {
			continue
		}
		stop := &stopAt{fr: fr, b: j, next: v.stop}
		v.stop = stop
		v.block(fr, b.Succs[i], b, s, k)
		v.stop = stop.next
		sides[i] = stop.got
	}
	if len(sides[0]) == 1 && len(sides[1]) == 1 {
		if m, phis := v.mergeStates(fr, j, base, c, sides[0][0], sides[1][0]); m != nil {
			fr.regs = copyRegsMap(regs)
			n := 0
			for _, in := range j.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				fr.regs[p] = phis[n]
				n++
			}
			if v.stop != nil && v.stop.fr == fr && v.stop.b == j {
				// this join is also where an enclosing branch joins: phis are
				// already resolved, which the outer join cannot use
				v.stop.got = append(v.stop.got, arrival{m, copyRegs(fr), nil})
				return true
			}
			v.instrs(fr, j, n, nil, m, k)
			return true
		}
	}
	for i := range sides {
		for _, a := range sides[i] {
			fr.regs = copyRegsMap(a.regs)
			v.block(fr, j, a.prev, a.st, k)
		}
	}
	return true
}

func factsSince(st *State, base *PC) ([]*Term, bool) {
	var out []*Term
	for p := st.pc; p != base; p = p.next {
		if p == nil {
			return nil, false
		}
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out, true
}

func (v *V) mergeStates(fr *Frame, j *ssa.BasicBlock, base *State, c *Term, a, b arrival) (*State, []*Val) {
	x, y := a.st, b.st
	if x.epoch != y.epoch || len(x.loops) != len(y.loops) || len(x.gor) != len(y.gor) || len(x.gor) != len(base.gor) ||
		len(x.chans) != len(y.chans) || len(x.wgs) != len(y.wgs) || len(x.wgs) != len(base.wgs) || len(x.chans) != len(base.chans) {
		return nil, nil
	}
	for i := range x.loops {
		if x.loops[i] != y.loops[i] {
			return nil, nil
		}
	}
	for f := range x.defers {
		if len(x.defers[f]) != len(y.defers[f]) || len(x.defers[f]) != len(base.defers[f]) {
			return nil, nil
		}
	}
	fx, ok1 := factsSince(x, base.pc)
	fy, ok2 := factsSince(y, base.pc)
	if !ok1 || !ok2 {
		return nil, nil
	}
	// phis
	phi := func(p *ssa.Phi, s arrival) *Val {
		if s.prev == nil {
			return s.regs[p]
		}
		for i, q := range j.Preds {
			if q == s.prev {
				sv := fr.regs
				fr.regs = s.regs
				r := v.get(fr, p.Edges[i], s.st)
				fr.regs = sv
				return r
			}
		}
		return nil
	}
	var phis []*Val
	for _, in := range j.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r := v.mergeVal(c, phi(p, a), phi(p, b))
		if r == nil {
			return nil, nil
		}
		phis = append(phis, r)
	}
	m := base.copy()
	m.loops = append([]*LoopCtx{}, x.loops...)
	m.defers = x.copy().defers
	m.gor, m.chans, m.wgs = x.gor, x.chans, x.wgs
	for cell, p := range x.cells {
		q, ok := y.cells[cell]
		if !ok {
			m.cells[cell] = p
			continue
		}
		r := v.mergeVal(c, p, q)
		if r == nil {
			return nil, nil
		}
		m.cells[cell] = r
	}
	for cell, q := range y.cells {
		if _, ok := x.cells[cell]; !ok {
			m.cells[cell] = q
		}
	}
	keys := map[string]*Term{}
	for k, t := range x.mem {
		keys[k] = t
	}
	for k, t := range y.mem {
		keys[k] = t
	}
	for _, k := range sortedKeys(keys) {
		s := arrElem(arrElem(keys[k].Sort))
		if mapKey(k) {
			p, q := x.mem[k], y.mem[k]
			if p == nil || q == nil || p != q {
				return nil, nil
			}
			continue
		}
		m.mem[k] = mergeArr(c, v.getMem(x, k, s), v.getMem(y, k, s))
	}
	switch {
	case x.alloc == y.alloc || freshSince(x.alloc, y.alloc):
		m.alloc = x.alloc
	case freshSince(y.alloc, x.alloc):
		m.alloc = y.alloc
	default:
		v.bumpAlloc(m)
		m.assume(Le(x.alloc, m.alloc))
		m.assume(Le(y.alloc, m.alloc))
	}
	for _, t := range fx {
		m.assume(Implies(c, t))
	}
	for _, t := range fy {
		m.assume(Implies(Not(c), t))
	}
	return m, phis
}

func mapKey(k string) bool { return len(k) > 5 && k[:5] == "|map:" }

func storeChain(t *Term) []*Term {
	out := []*Term{t}
	for t.Op == "app" && t.Name == "store" {
		t = t.Args[0]
		out = append(out, t)
	}
	return out
}

func mergeLeaf(c, x, y *Term) *Term {
	if x == y {
		return x
	}
	if len(x.Sort) > 7 && x.Sort[:7] == "(Array " {
		return mergeArr(c, x, y)
	}
	return Ite(c, x, y)
}

// mergeArr: the array equal to x if c and to y otherwise, kept as stores on
// their common part
func mergeArr(c, x, y *Term) *Term {
	if x == y {
		return x
	}
	cx, cy := storeChain(x), storeChain(y)
	at := map[*Term]int{}
	for i, t := range cx {
		at[t] = i
	}
	for jy, t := range cy {
		ix, ok := at[t]
		if !ok {
			continue
		}
		r := t
		for i := ix - 1; i >= 0; i-- {
			r = Store(r, cx[i].Args[1], mergeLeaf(c, cx[i].Args[2], Select(r, cx[i].Args[1])))
		}
		for i := jy - 1; i >= 0; i-- {
			r = Store(r, cy[i].Args[1], mergeLeaf(c, Select(r, cy[i].Args[1]), cy[i].Args[2]))
		}
		return r
	}
	return Ite(c, x, y)
}

// mergeVal: a if c, else b; nil when the shapes differ
func (v *V) mergeVal(c *Term, a, b *Val) *Val {
	if a == b {
		return a
	}
	if a == nil || b == nil || a.LArr != nil && a.K != KArr || b.LArr != nil && b.K != KArr {
		return nil
	}
	if a.K == KFields && b.K == KFields && len(a.Sub) == len(b.Sub) {
		if structOf(a.T) == nil {
			same := true
			for i := range a.Sub {
				same = same && a.Sub[i] == b.Sub[i]
			}
			if same {
				return a
			}
			return nil
		}
		r := *a
		r.Sub = make([]*Val, len(a.Sub))
		for i := range a.Sub {
			if r.Sub[i] = v.mergeVal(c, a.Sub[i], b.Sub[i]); r.Sub[i] == nil {
				return nil
			}
		}
		return &r
	}
	switch {
	case a.K == KScalar && b.K == KScalar && a.Term != nil && b.Term != nil:
		if a.Term.Sort != b.Term.Sort {
			return nil
		}
		return scalar(a.T, Ite(c, a.Term, b.Term))
	case a.K == KSlice && b.K == KSlice:
		reg := a.Reg
		if a.Reg != b.Reg {
			switch {
			case isIntV(a.Arr, 0):
				reg = b.Reg
			case isIntV(b.Arr, 0):
			default:
				return nil
			}
		}
		return mkSlice(a.T, Ite(c, a.Arr, b.Arr), Ite(c, a.Off, b.Off), Ite(c, a.Len, b.Len), Ite(c, a.Cap, b.Cap), reg)
	case a.K == KClo && b.K == KClo && a.Clo == b.Clo:
		return a
	case a.K == KAddr && b.K == KAddr:
		x, y := a.Addr, b.Addr
		if x == y {
			return a
		}
		if x.Cell != y.Cell || x.Reg != y.Reg || x.Arr != y.Arr || x.Idx != y.Idx || len(x.Path) != len(y.Path) {
			return nil
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return nil
			}
		}
		return a
	case a.K == KPtr && b.K == KPtr && a.P != nil && b.P != nil:
		r := *a
		r.P, r.I = Ite(c, a.P, b.P), Ite(c, a.I, b.I)
		if a.Q != nil && b.Q != nil {
			r.Q = Ite(c, a.Q, b.Q)
		} else if a.Q != b.Q {
			return nil
		}
		return &r
	}
	return nil
}
