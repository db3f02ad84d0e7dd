package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type KeyMod struct {
	stable  map[*Term]bool
	fresh   bool // objects created since the loop was entered
	fnFresh bool // objects created since the function was entered
	whole   bool
	sort    Sort
}

type Mods struct {
	cells map[*Cell]map[int]bool
	creg  map[*Cell]bool // whole value (regions) needs merging
	keys  map[string]*KeyMod
	alloc bool
	gor   []*Spawn
}

func newMods() *Mods {
	return &Mods{cells: map[*Cell]map[int]bool{}, keys: map[string]*KeyMod{}}
}

type cellLeaf struct {
	c *Cell
	i int
}

type LoopCtx struct {
	fr     *Frame
	loop   *Loop
	dry    bool
	spec   *LoopSpec
	header *State // after havoc
	mark   int
	entryA *Term
	dec    *Term
	mods   *Mods
	found  *Mods
	grew   bool
	cand   map[cellLeaf]bool // reference leaves that stay nil or fresh
	steps  map[*Cell]int     // counters: 1 ok so far, -1 not a counter
	exits  int
	base   *Term // value of the counter when the loop is entered
	bound  *Term
	k      Cont
	key    string
	edges  int
	exact  map[*Cell]int // back edges on which the counter advanced by exactly one
	gor    []*Spawn
}

// memory symbols introduced by havoc: what they replace
type havocInfo struct {
	prev *Term
	mod  *KeyMod
}

var memHavoc = map[*Term]*havocInfo{}
var allocLB = map[*Term]*Term{}
var freshSym = map[*Term]*Term{} // symbol -> allocation mark it is above (or nil)

// freshSince: t is certainly an object id allocated at or after mark a
func freshSince(t, a *Term) bool {
	if t.Op == "app" && t.Name == "ite" {
		return freshSince(t.Args[1], a) && freshSince(t.Args[2], a)
	}
	x, c := split(t)
	y, d := split(a)
	if x == y {
		return c.Cmp(d) >= 0
	}
	if x == nil {
		return false
	}
	if c.Sign() >= 0 {
		if lb, ok := allocLB[x]; ok {
			return freshSince(lb, a)
		}
	}
	return false
}

// freshOrNil: t is 0 or allocated at or after mark a
func freshOrNil(t, a *Term) bool {
	if isIntV(t, 0) || freshSince(t, a) {
		return true
	}
	if t.Op == "app" && t.Name == "ite" {
		return freshOrNil(t.Args[1], a) && freshOrNil(t.Args[2], a)
	}
	if m, ok := freshSym[t]; ok {
		return m == a || freshSince(m, a)
	}
	return false
}

func (v *V) bumpAlloc(st *State) {
	old := st.alloc
	n := Fresh("alloc", SInt)
	allocLB[n] = old
	B.nonneg[n] = true
	st.alloc = n
	st.assume(Le(old, n))
}

func sameVal(a, b *Val) bool {
	if a == b {
		return true
	}
	return false
}

func (v *V) flatAll(x *Val) []*Term {
	if x.K == KFields {
		if _, ok := x.T.Underlying().(*types.Slice); ok {
			return nil
		}
	}
	return v.flattenR(x, "*")
}

// compareState records what changed between the loop header and st
func (v *V) compareState(ctx *LoopCtx, st *State) {
	m := ctx.found
	h := ctx.header
	ctx.edges++
	if len(st.gor) > len(h.gor) {
		m.gor = st.gor
		if len(ctx.mods.gor) < len(st.gor) {
			ctx.grew = true
		}
	}
	for c, old := range h.cells {
		cur, ok := st.cells[c]
		if !ok || sameVal(cur, old) {
			continue
		}
		a, b := v.flatAll(old), v.flatAll(cur)
		if len(a) != len(b) {
			panic(unsupported("shape of " + c.Name + " changes in a loop"))
		}
		ls := leavesOf(c.T)
		for i := range a {
			if a[i] == b[i] {
				continue
			}
			if m.cells[c] == nil {
				m.cells[c] = map[int]bool{}
			}
			m.cells[c][i] = true
			if ctx.mods.cells[c] == nil || !ctx.mods.cells[c][i] {
				ctx.grew = true
			}
			if ls[i].Ref {
				k := cellLeaf{c, i}
				if was, ok := ctx.cand[k]; ok && was && !freshOrNil(b[i], v.alloc0) {
					ctx.cand[k] = false
					ctx.grew = true
				}
			}
		}
		if !v.mergeReg(old, cur) {
			ctx.grew = true
		}
		if len(a) == 1 && a[0].Sort == SInt && ctx.steps[c] >= 0 {
			x, k1 := split(a[0])
			y, k2 := split(b[0])
			if x == y && k2.Cmp(k1) >= 0 && x != nil {
				if d := k2.Int64() - k1.Int64(); d == 1 {
					if ctx.exact == nil {
						ctx.exact = map[*Cell]int{}
					}
					ctx.exact[c]++
					if ctx.steps[c] == 0 {
						ctx.steps[c] = 1
					}
				} else {
					ctx.steps[c] = 2
				}
			} else if x != nil {
				ctx.steps[c] = -1
			}
		}
	}
	for key, t := range st.mem {
		base, ok := h.mem[key]
		if !ok {
			base = baseMem(t)
		}
		if t == base {
			continue
		}
		km := m.keys[key]
		if km == nil {
			km = &KeyMod{stable: map[*Term]bool{}, sort: t.Sort}
			m.keys[key] = km
		}
		v.memMods(ctx, t, base, km, map[*Term]bool{})
		old := ctx.mods.keys[key]
		if old == nil || km.fresh && !old.fresh || km.fnFresh && !old.fnFresh || km.whole && !old.whole {
			ctx.grew = true
		} else {
			for a := range km.stable {
				if !old.stable[a] {
					ctx.grew = true
				}
			}
		}
	}
	if st.alloc != h.alloc {
		m.alloc = true
		if !ctx.mods.alloc {
			ctx.grew = true
		}
	}
}

func baseMem(t *Term) *Term {
	for {
		switch {
		case t.Op == "app" && t.Name == "store":
			t = t.Args[0]
		case t.Op == "app" && t.Name == "ite":
			t = t.Args[2]
		case memHavoc[t] != nil:
			t = memHavoc[t].prev
		default:
			return t
		}
	}
}

func (v *V) memMods(ctx *LoopCtx, t, base *Term, km *KeyMod, seen map[*Term]bool) {
	for t != base {
		if seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.Op == "app" && t.Name == "store":
			v.arrMod(ctx, t.Args[1], km)
			t = t.Args[0]
		case t.Op == "app" && t.Name == "ite":
			v.memMods(ctx, t.Args[1], base, km, seen)
			t = t.Args[2]
		case memHavoc[t] != nil:
			hi := memHavoc[t]
			for a := range hi.mod.stable {
				v.arrMod(ctx, a, km)
			}
			if hi.mod.fresh {
				km.fresh = true
			}
			if hi.mod.fnFresh {
				km.fnFresh = true
			}
			if hi.mod.whole {
				km.whole = true
			}
			t = hi.prev
		default:
			// stores of the base that were overwritten are simplified away
			if x := base; v.onChain(x, t) {
				for x != t {
					if x.Op == "app" && x.Name == "store" {
						v.arrMod(ctx, x.Args[1], km)
						x = x.Args[0]
					} else {
						hi := memHavoc[x]
						for a := range hi.mod.stable {
							v.arrMod(ctx, a, km)
						}
						km.fresh = km.fresh || hi.mod.fresh
						km.fnFresh = km.fnFresh || hi.mod.fnFresh
						km.whole = km.whole || hi.mod.whole
						x = hi.prev
					}
				}
				return
			}
			km.whole = true
			return
		}
	}
}

func (v *V) arrMod(ctx *LoopCtx, a *Term, km *KeyMod) {
	switch {
	case freshSince(a, ctx.entryA):
		km.fresh = true
	case a.maxS <= ctx.mark:
		km.stable[a] = true
	case a.Op == "app" && a.Name == "ite" && freshSince(a.Args[2], ctx.entryA):
		km.fresh = true
		v.arrMod(ctx, a.Args[1], km)
	case freshOrNil(a, v.alloc0):
		km.fnFresh = true
	default:
		km.whole = true
	}
}

// onChain: t is reached from x by undoing stores
func (v *V) onChain(x, t *Term) bool {
	for x != t {
		switch {
		case x.Op == "app" && x.Name == "store":
			x = x.Args[0]
		case memHavoc[x] != nil:
			x = memHavoc[x].prev
		default:
			return false
		}
	}
	return true
}

// mergeReg makes the regions of two versions of a value agree; false when a
// region had to be given up (the loop is analysed again).
func (v *V) mergeReg(a, b *Val) bool {
	if a == b {
		return true
	}
	if a.K == KSlice && b.K == KSlice && a.Reg != b.Reg {
		if isIntV(a.Arr, 0) && isIntV(a.Len, 0) || isIntV(b.Arr, 0) && isIntV(b.Len, 0) {
			return true
		}
		for _, r := range []string{a.Reg, b.Reg} {
			if r != "" {
				v.escapeRegion(r)
			}
		}
	}
	if a.K == KFields && b.K == KFields && len(a.Sub) == len(b.Sub) {
		for i := range a.Sub {
			v.mergeReg(a.Sub[i], b.Sub[i])
		}
	}
	if a.K == KAddr && b.K == KAddr && a.Addr.Reg != b.Addr.Reg {
		panic(unsupported("pointer region changes in a loop"))
	}
	return true
}

func (m *Mods) add(o *Mods) {
	for c, ls := range o.cells {
		if m.cells[c] == nil {
			m.cells[c] = map[int]bool{}
		}
		for i := range ls {
			m.cells[c][i] = true
		}
	}
	for k, km := range o.keys {
		x := m.keys[k]
		if x == nil {
			x = &KeyMod{stable: map[*Term]bool{}, sort: km.sort}
			m.keys[k] = x
		}
		for a := range km.stable {
			x.stable[a] = true
		}
		x.fresh = x.fresh || km.fresh
		x.fnFresh = x.fnFresh || km.fnFresh
		x.whole = x.whole || km.whole
	}
	m.alloc = m.alloc || o.alloc
	if len(o.gor) > len(m.gor) {
		m.gor = o.gor
	}
}

func (v *V) enterLoop(fr *Frame, l *Loop, prev *ssa.BasicBlock, st *State, k Cont) {
	key := fmt.Sprintf("%s/%s#%d", fr.site, fr.fn.Name(), l.header.Index)
	spec := v.loopSpec(fr, key)
	if l.counter == nil {
		l.counter = headerCounter(l)
	}
	name := posStr(v.P.fset, loopPos(l))
	// invariants hold on entry
	base := v.counterBase(fr, l, st)
	probe := &LoopCtx{fr: fr, loop: l, spec: spec, key: key, k: k, base: base}
	entry := st
	if spec != nil && len(spec.Ghost) > 0 {
		s0 := st.copy()
		s0.loops = append(s0.loops, probe)
		for _, g := range spec.Ghost {
			v.setGhost(st, s0, fr, key, g, g.Init)
		}
	}
	if spec != nil {
		s0 := st.copy()
		s0.loops = append(s0.loops, probe)
		for _, u := range spec.Uses {
			if t, ok := v.evalUse(s0, fr, u); ok {
				s0.assume(t)
			}
		}
		for _, c := range spec.Invs {
			t, ok := v.evalInv(s0, fr, c)
			if !ok {
				continue
			}
			if v.dry == 0 {
				v.oblige(s0, "loop invariant on entry", name+" "+c.Label, loopPos(l), t)
			}
		}
		// the invariants are assumed again after the havoc: what they said of the
		// entry state is not needed
	}
	mods := newMods()
	cand := map[cellLeaf]bool{}
	steps := map[*Cell]int{}
	var bound map[*Cell]*Term
	var exact map[*Cell]bool
	entryA := st.alloc
	regs := copyRegs(fr)
	for iter := 0; ; iter++ {
		if iter > 12 {
			panic(unsupported("loop analysis does not stabilise at " + name))
		}
		ctx := &LoopCtx{fr: fr, loop: l, dry: true, spec: spec, mods: mods, found: newMods(), cand: cand, steps: map[*Cell]int{}, key: key, k: k, entryA: entryA, base: base}
		ctx.mark = B.nsym
		s := v.havocLoop(st, ctx, nil, nil, nil)
		v.dry++
		v.assumeInvs(s, fr, ctx)
		ctx.header = s.copy()
		s.loops = append(s.loops, ctx)
		v.instrs(fr, l.header, 0, prev, s, k)
		v.dry--
		bound = v.counterBound(fr, l, ctx, st)
		exact = map[*Cell]bool{}
		for c, n := range ctx.exact {
			if n == ctx.edges && ctx.steps[c] == 1 {
				exact[c] = true
			}
		}
		fr.regs = copyRegsMap(regs)
		if iter == 0 {
			// warm-up: base memory symbols now exist
			if len(ctx.found.cells) == 0 && len(ctx.found.keys) == 0 && !ctx.found.alloc {
				steps = ctx.steps
				break
			}
			// candidate references
			for c, ls := range ctx.found.cells {
				for i := range ls {
					lv := leavesOf(c.T)
					if lv[i].Ref {
						kk := cellLeaf{c, i}
						if _, ok := cand[kk]; !ok {
							x := v.flatAll(st.cells[c])
							cand[kk] = freshOrNil(x[i], v.alloc0)
						}
					}
				}
			}
			ctx.found.keys = map[string]*KeyMod{}
			mods.add(ctx.found)
			steps = ctx.steps
			continue
		}
		for c, ls := range ctx.found.cells {
			for i := range ls {
				lv := leavesOf(c.T)
				if lv[i].Ref {
					kk := cellLeaf{c, i}
					if _, ok := cand[kk]; !ok {
						x := v.flatAll(st.cells[c])
						cand[kk] = freshOrNil(x[i], v.alloc0)
						ctx.grew = true
					}
				}
			}
		}
		mods.add(ctx.found)
		steps = ctx.steps
		if !ctx.grew {
			break
		}
	}
	// the loop proper
	if v.dry == 0 {
		for _, f := range v.frameInvs(st, mods) {
			v.oblige(st, "loop frame on entry", name+" only listed memory changes: "+f.key, loopPos(l), f.t)
		}
	}
	ctx := &LoopCtx{fr: fr, loop: l, spec: spec, mods: mods, found: newMods(), cand: cand, steps: map[*Cell]int{}, key: key, k: k, entryA: entryA, base: base}
	ctx.mark = B.nsym
	_ = entry
	s := v.havocLoop(st, ctx, steps, bound, exact)
	ctx.dry = v.dry > 0 && false
	for _, f := range v.frameInvs(s, mods) {
		s.assume(f.t)
	}
	v.assumeInvs(s, fr, ctx)
	ctx.header = s.copy()
	if spec != nil && spec.Dec != nil {
		s.loops = append(s.loops, ctx)
		d, ok := v.evalLoopExpr(s, fr, spec.Dec)
		s.loops = s.loops[:len(s.loops)-1]
		if ok {
			ctx.dec = d
		}
	}
	if ctx.dec == nil {
		if c := v.counterCell(fr, l); c == nil || bound == nil || bound[c] == nil {
			if !isRangeLoop(l) {
				v.notes["termination of the loop at "+name+" is not proved"] = true
			}
		}
	}
	s.loops = append(s.loops, ctx)
	v.instrs(fr, l.header, 0, prev, s, k)
	fr.regs = regs
}

func isRangeLoop(l *Loop) bool {
	return l.counter != nil && l.counter.Comment == "rangeindex"
}

func copyRegsMap(m map[ssa.Value]*Val) map[ssa.Value]*Val {
	n := make(map[ssa.Value]*Val, len(m))
	for k, x := range m {
		n[k] = x
	}
	return n
}

func loopPos(l *Loop) token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	best := token.NoPos
	for b := range l.body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() && (best == token.NoPos || in.Pos() < best) {
				best = in.Pos()
			}
		}
	}
	return best
}

// headerCounter finds the variable compared in the loop header
func headerCounter(l *Loop) *ssa.Alloc {
	for _, in := range l.header.Instrs {
		if s, ok := in.(*ssa.Store); ok {
			if a, ok := s.Addr.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
				return a
			}
		}
	}
	if i, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
		if b, ok := i.Cond.(*ssa.BinOp); ok {
			if u, ok := b.X.(*ssa.UnOp); ok && u.Op == token.MUL {
				if a, ok := u.X.(*ssa.Alloc); ok && isIntKind(basicKind(b.X.Type())) {
					return a
				}
			}
			if u, ok := b.Y.(*ssa.UnOp); ok && u.Op == token.MUL {
				if a, ok := u.X.(*ssa.Alloc); ok && isIntKind(basicKind(b.Y.Type())) {
					return a
				}
			}
		}
	}
	return nil
}

// counterBase: where a counting loop starts ($i counts from 0)
func (v *V) counterBase(fr *Frame, l *Loop, st *State) *Term {
	c := v.counterCell(fr, l)
	if c == nil || isRangeLoop(l) {
		return nil
	}
	x, ok := st.cells[c]
	if !ok || x.Term == nil || x.Term.Sort != SInt {
		return nil
	}
	return x.Term
}

func (v *V) counterCell(fr *Frame, l *Loop) *Cell {
	if l.counter == nil {
		return nil
	}
	return fr.cells[l.counter]
}

// counterBound: for loops whose header tests "counter < N" with N unchanged by
// the loop, the term N.
func (v *V) counterBound(fr *Frame, l *Loop, ctx *LoopCtx, st *State) map[*Cell]*Term {
	c := v.counterCell(fr, l)
	if c == nil {
		return nil
	}
	i, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	b, ok := i.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.LSS && b.Op != token.NEQ {
		return nil
	}
	y, ok := fr.regs[b.Y]
	if !ok {
		if cst, ok := b.Y.(*ssa.Const); ok {
			y = v.constVal(cst)
		} else {
			return nil
		}
	}
	if y.Term == nil || y.Term.Sort != SInt || y.Term.maxS > ctx.mark {
		return nil
	}
	if b.Op == token.NEQ {
		return nil
	}
	return map[*Cell]*Term{c: y.Term}
}

func (v *V) havocLoop(st *State, ctx *LoopCtx, steps map[*Cell]int, bound map[*Cell]*Term, exact map[*Cell]bool) *State {
	s := st.copy()
	m := ctx.mods
	if len(m.gor) > len(s.gor) {
		s.gor = append([]*Spawn{}, m.gor...)
	}
	var iter *Term
	if m.alloc {
		v.bumpAlloc(s)
	}
	// cells
	var cs []*Cell
	for c := range m.cells {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, c := range cs {
		old, ok := st.cells[c]
		if !ok {
			continue
		}
		ts := append([]*Term{}, v.flatAll(old)...)
		ls := leavesOf(c.T)
		var refs []int
		for i := range ts {
			if m.cells[c][i] {
				was := ts[i]
				ts[i] = v.freshLeaf(c.Name, ls[i], s.alloc)
				if exact[c] && len(ts) == 1 {
					if iter == nil {
						iter = Fresh("iter", SInt)
						B.nonneg[iter] = true
						typeFact[iter] = Le(Int(0), iter)
					}
					// all exact counters advance together
					if len(exact) > 1 || was.Op == "int" {
						ts[i] = Add(was, iter)
					} else {
						s.assume(Eq(ts[i], Add(was, iter)))
					}
				}
				if ls[i].Ref && ctx.cand[cellLeaf{c, i}] {
					freshSym[ts[i]] = v.alloc0
					refs = append(refs, i)
				}
				if steps != nil && len(ts) == 1 && steps[c] >= 1 {
					s.assume(Le(was, ts[i]))
					if was.Op == "int" && was.Int.Sign() >= 0 {
						B.nonneg[ts[i]] = true
					}
					if steps[c] == 1 && bound != nil && bound[c] != nil {
						n := bound[c]
						if c.Alloc != nil && c.Alloc.Comment == "rangeindex" {
							n = Sub(n, Int(1))
						}
						s.assume(Implies(Le(was, n), Le(ts[i], n)))
					}
				}
			}
		}
		nv := v.rebuildVal(old, ts)
		s.cells[c] = nv
		for _, i := range refs {
			s.assume(Or(Eq(ts[i], Int(0)), Le(v.alloc0, ts[i])))
		}
		noteAll(nv)
	}
	for _, key := range sortedKeys(m.keys) {
		km := m.keys[key]
		old, ok := s.mem[key]
		if !ok {
			// not touched before the loop
			old = Sym("M"+s.epoch+"["+key+"]", km.sort)
		}
		s.mem[key] = v.havocKey(s, key, old, km, ctx.entryA)
	}
	return s
}

func (v *V) havocKey(s *State, key string, old *Term, km *KeyMod, entryA *Term) *Term {
	inner := arrElem(old.Sort)
	if !km.whole && !km.fresh && !km.fnFresh {
		m := old
		for _, a := range sortedTerms(km.stable) {
			m = Store(m, a, v.freshInner(key, inner, s.alloc))
		}
		return m
	}
	m := v.freshMem(key, old.Sort, s.alloc)
	memHavoc[m] = &havocInfo{prev: old, mod: km}
	if !km.whole {
		a := BoundVar("a", SInt)
		g := []*Term{}
		if km.fnFresh {
			g = append(g, Lt(a, v.alloc0))
		} else {
			g = append(g, Lt(a, entryA))
		}
		for _, x := range sortedTerms(km.stable) {
			g = append(g, Not(Eq(a, x)))
		}
		from := old
		for km.fnFresh && from.Op == "app" && from.Name == "store" && freshSince(from.Args[1], v.alloc0) {
			from = from.Args[0] // written at an address allocated since
		}
		s.assume(Forall([]*Term{a}, Implies(And(g...), Eq(Select(m, a), Select(from, a))), []*Term{Select(m, a)}))
	}
	return m
}

// freshInner is an arbitrary array of leaves, typed like key's leaves
func (v *V) freshInner(key string, s Sort, bound *Term) *Term {
	x := Fresh("A_"+key, s)
	if arrElem(s) == SInt {
		if l, ok := keyLeaf[key]; ok {
			i := BoundVar("i", SInt)
			sel := Select(x, i)
			f := leafFact(sel, l, bound, tTrue)
			if f != tTrue {
				symAxiom[x] = []*Term{Forall([]*Term{i}, f, []*Term{sel})}
			}
		}
	}
	return x
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// rebuildVal makes a value of the shape of old from new leaves
func (v *V) rebuildVal(old *Val, ts []*Term) *Val {
	r, n := v.rebuild(old, ts)
	if n != len(ts) {
		panic(unsupported("rebuild of " + old.T.String()))
	}
	return r
}

func (v *V) rebuild(old *Val, ts []*Term) (*Val, int) {
	switch old.K {
	case KFields:
		if structOf(old.T) != nil || isTuple(old.T) {
			r := &Val{T: old.T, K: KFields}
			n := 0
			for _, s := range old.Sub {
				x, k := v.rebuild(s, ts[n:])
				r.Sub = append(r.Sub, x)
				n += k
			}
			return r, n
		}
	case KSlice:
		return mkSlice(old.T, ts[0], ts[1], ts[2], ts[3], old.Reg), 4
	case KAddr, KDyn, KClo:
		fl := v.flatAll(old)
		same := true
		for i := range fl {
			if fl[i] != ts[i] {
				same = false
			}
		}
		if same {
			return old, len(fl)
		}
	}
	return unflat(old.T, ts, "")
}

func isTuple(t types.Type) bool {
	_, ok := t.(*types.Tuple)
	return ok
}

func (v *V) assumeInvs(s *State, fr *Frame, ctx *LoopCtx) {
	if ctx.spec == nil {
		return
	}
	s.loops = append(s.loops, ctx)
	for _, c := range ctx.spec.Invs {
		if t, ok := v.evalInv(s, fr, c); ok {
			s.assume(t)
		}
	}
	for _, u := range ctx.spec.Uses {
		if t, ok := v.evalUse(s, fr, u); ok {
			s.assume(t)
		}
	}
	s.loops = s.loops[:len(s.loops)-1]
}

// setGhost stores the value of e (evaluated in at) in a specification variable
func (v *V) setGhost(st, at *State, fr *Frame, key string, g GhostVar, e *Expr) {
	id := key + "/" + g.Name
	cell := v.ghostCells[id]
	t := v.P.specType(g.T, v.pkgName())
	if cell == nil {
		cell = v.newCell(g.Name, t, nil, fr)
		v.ghostCells[id] = cell
	}
	v.ghosts[g.Name] = cell
	v.guard("ghost "+g.Name, func() {
		c := v.loopCtx(at, fr)
		st.cells[cell] = c.coerce(c.eval(e), t)
	})
}

func (v *V) backEdge(ctx *LoopCtx, st *State) {
	if ctx.spec != nil && len(ctx.spec.Ghost) > 0 {
		at := st.copy()
		for _, g := range ctx.spec.Ghost {
			v.setGhost(st, at, ctx.fr, ctx.key, g, g.Next)
		}
	}
	if ctx.dry {
		v.compareState(ctx, st)
		return
	}
	ctx.grew = false
	v.compareState(ctx, st)
	if ctx.grew {
		panic(unsupported("loop writes more than the analysis found"))
	}
	if v.dry > 0 {
		return
	}
	name := posStr(v.P.fset, loopPos(ctx.loop))
	for _, f := range v.frameInvs(st, ctx.mods) {
		v.oblige(st, "loop frame preserved", name+" only listed memory changes: "+f.key, loopPos(ctx.loop), f.t)
	}
	if ctx.spec == nil {
		return
	}
	for _, u := range ctx.spec.Uses {
		if t, ok := v.evalUse(st, ctx.fr, u); ok {
			st.assume(t)
		}
	}
	for _, u := range ctx.spec.Steps {
		if t, ok := v.evalUse(st, ctx.fr, u); ok {
			st.assume(t)
		}
	}
	for _, c := range ctx.spec.Invs {
		t, ok := v.evalInv(st, ctx.fr, c)
		if !ok {
			continue
		}
		v.oblige(st, "loop invariant preserved", name+" "+c.Label, loopPos(ctx.loop), t)
	}
	if ctx.dec != nil {
		if d, ok := v.evalLoopExpr(st, ctx.fr, ctx.spec.Dec); ok {
			v.oblige(st, "loop variant decreases", name, loopPos(ctx.loop), And(Le(Int(0), ctx.dec), Lt(d, ctx.dec)))
		}
	}
}

func (v *V) onDryExit(ctx *LoopCtx, st *State) { ctx.exits++ }

func (v *V) loopSpec(fr *Frame, key string) *LoopSpec {
	if s, ok := v.loopInst[key]; ok {
		return s
	}
	n := len(v.loopOrd) + 1
	v.loopOrd[key] = n
	var r *LoopSpec
	for _, l := range v.curLoops {
		if l.Ord == n {
			r = l
		}
	}
	v.loopInst[key] = r
	return r
}

// feasible prunes paths that are syntactically impossible
func (v *V) feasible(st *State) bool {
	return !st.known[tFalse]
}

type frameInv struct {
	key string
	t   *Term
}

// frameInvs: the frame condition of the function under verification, as an
// invariant of a loop that modifies the keys in m
func (v *V) frameInvs(st *State, m *Mods) []frameInv {
	if v.con == nil || v.worker != nil || v.con.ModAll || v.entry == nil {
		return nil
	}
	var out []frameInv
	targets := v.frameTargets()
	for _, key := range sortedKeys(m.keys) {
		km := m.keys[key]
		if strings.HasPrefix(key, "@") || strings.HasPrefix(key, "|map:") {
			continue
		}
		cur, ok := st.mem[key]
		if !ok {
			continue
		}
		base := Sym("M"+v.entry.epoch+"["+key+"]", cur.Sort)
		if cur == base {
			continue
		}
		i := BoundVar("i", SInt)
		if km.whole {
			a := BoundVar("a", SInt)
			hyp := []*Term{Lt(a, v.alloc0)}
			for _, t := range targets[key] {
				if t.lo == nil {
					hyp = append(hyp, Not(Eq(a, t.arr)))
				} else {
					hyp = append(hyp, Not(And(Eq(a, t.arr), Le(t.lo, i), Lt(i, t.hi))))
				}
			}
			sel := Select(Select(cur, a), i)
			out = append(out, frameInv{key, Forall([]*Term{a, i}, Implies(And(hyp...), Eq(sel, Select(Select(base, a), i))), []*Term{sel})})
			continue
		}
		for _, a := range sortedTerms(km.stable) {
			if freshSince(a, v.alloc0) {
				continue
			}
			hyp := []*Term{Lt(a, v.alloc0)}
			skip := false
			for _, t := range targets[key] {
				if t.lo == nil {
					if t.arr == a {
						skip = true
					}
					hyp = append(hyp, Not(Eq(a, t.arr)))
				} else {
					hyp = append(hyp, Not(And(Eq(a, t.arr), Le(t.lo, i), Lt(i, t.hi))))
				}
			}
			if skip {
				continue
			}
			sel := Select(Select(cur, a), i)
			out = append(out, frameInv{key, Forall([]*Term{i}, Implies(And(hyp...), Eq(sel, Select(Select(base, a), i))), []*Term{sel})})
		}
	}
	return out
}

func (v *V) frameTargets() map[string][]*modTarget {
	if v.frameTgt != nil {
		return v.frameTgt
	}
	targets := map[string][]*modTarget{}
	ec := &Ctx{v: v, st: v.entry, old: v.entry, env: v.entryEnv, pkg: v.con.Pkg}
	for _, m := range v.con.Modifies {
		for _, t := range v.modTargets(ec, m) {
			for _, k := range t.keys {
				targets[k] = append(targets[k], t)
			}
		}
	}
	v.frameTgt = targets
	return targets
}
