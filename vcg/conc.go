package main

// Fork-join worker pools: goroutines that receive items from one channel,
// spawned, fed, closed and awaited by the function under verification.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type ChanInfo struct {
	site    *ssa.MakeChan
	sent    *Cell
	closed  *Cell
	spawned *Cell
	added   *Cell
}

type WG struct{ n *Term }

type Spawn struct {
	clo  *Closure
	ch   *ChanInfo
	spec *WorkerSpec
}

type workerRun struct {
	spec   *WorkerSpec
	ch     *ChanInfo
	shared map[*Cell]bool
	k      *Term // sequence number of the item being processed (nil: none)
	kcell  *Cell
	done   *Cell
	env    map[string]*Val
	foot   *modTarget
	mark   *Term // allocation mark of the worker
	site   *ssa.Go
	mainFr *Frame
}

func (v *V) ghost(st *State, name string, t types.Type, x *Val) *Cell {
	c := v.newCell(name, t, nil, nil)
	c.Ghost = true
	st.cells[c] = x
	return c
}

func (v *V) makeChan(fr *Frame, in *ssa.MakeChan, st *State) *Val {
	id := v.newObj(st)
	ci := &ChanInfo{site: in}
	sz := v.get(fr, in.Size, st)
	if sz.Term != nil && !isIntV(sz.Term, 0) {
		// buffering only lets senders run ahead
		v.oblige(st, "safety", "channel capacity is not negative", in.Pos(), Le(Int(0), sz.Term))
	}
	ci.sent = v.ghost(st, "$sent", tInt, intV(Int(0)))
	ci.closed = v.ghost(st, "$closed", tBool, boolV(tFalse))
	ci.spawned = v.ghost(st, "$spawned", tInt, intV(Int(0)))
	st.chans[id] = ci
	return scalar(in.Type(), id)
}

func (v *V) chanOf(st *State, x *Val) *ChanInfo {
	if x.Term == nil {
		panic(unsupported("channel value"))
	}
	ci := st.chans[x.Term]
	if ci == nil {
		panic(unsupported("channel not created in this function"))
	}
	return ci
}

func (v *V) execGo(fr *Frame, in *ssa.Go, st *State) {
	c := in.Common()
	f := v.get(fr, c.Value, st)
	if f.K != KClo || f.Clo == nil {
		panic(unsupported("go statement"))
	}
	if v.worker != nil {
		panic(unsupported("nested go statement"))
	}
	if v.con == nil || len(v.con.Workers) == 0 {
		panic(unsupported("goroutine without worker contract"))
	}
	spec := v.con.Workers[0]
	var args []*Val
	for _, a := range c.Args {
		args = append(args, v.get(fr, a, st))
	}
	// the channel the worker reads: among bindings and arguments
	var ch *ChanInfo
	look := func(x *Val) {
		if x.K == KAddr && x.Addr.Cell != nil {
			if y, ok := st.cells[x.Addr.Cell]; ok {
				x = y
			}
		}
		if _, ok := x.T.Underlying().(*types.Chan); ok && x.Term != nil {
			if ci := st.chans[x.Term]; ci != nil {
				ch = ci
			}
		}
	}
	for _, b := range f.Clo.Bind {
		look(b)
	}
	for _, a := range args {
		look(a)
	}
	if ch == nil {
		panic(unsupported("worker without channel"))
	}
	sp := st.cells[ch.spawned]
	st.cells[ch.spawned] = intV(Add(sp.Term, Int(1)))
	have := false
	for _, g := range st.gor {
		if g.clo.Fn == f.Clo.Fn {
			have = true
		} else {
			panic(unsupported("different kinds of goroutines"))
		}
	}
	if !have {
		st.gor = append(st.gor, &Spawn{clo: f.Clo, ch: ch, spec: spec})
	}
	if v.dry > 0 || v.workersDone[in] {
		return
	}
	v.workersDone[in] = true
	v.runWorker(fr, in, f.Clo, args, spec, ch, st.copy())
}

// runWorker verifies the goroutine body once for arbitrary items
func (v *V) runWorker(fr *Frame, in *ssa.Go, clo *Closure, args []*Val, spec *WorkerSpec, ch *ChanInfo, st *State) {
	saveLoops, saveOrd, saveInst, saveEnv := v.curLoops, v.loopOrd, v.loopInst, v.workerEnv
	v.curLoops, v.loopOrd, v.loopInst = spec.Loops, map[string]int{}, map[string]*LoopSpec{}
	defer func() {
		v.curLoops, v.loopOrd, v.loopInst, v.workerEnv = saveLoops, saveOrd, saveInst, saveEnv
		v.worker = nil
	}()
	st.loops = nil
	st.gor = nil
	w := &workerRun{spec: spec, ch: ch, shared: map[*Cell]bool{}, site: in, mainFr: fr}
	for _, b := range clo.Bind {
		if b.K == KAddr && b.Addr.Cell != nil {
			w.shared[b.Addr.Cell] = true
		}
	}
	// names available to the worker contract: variables of the spawning frame
	w.env = map[string]*Val{}
	for f := fr; f != nil; f = f.parent {
		for a, cell := range f.cells {
			if x, ok := st.cells[cell]; ok {
				if _, dup := w.env[a.Comment]; !dup {
					w.env[a.Comment] = x
				}
			}
		}
	}
	for i, p := range v.con.Params {
		if i < len(v.fn.Params) {
			if c := paramCell(rootFrame(fr), v.fn.Params[i]); c != nil {
				if x, ok := st.cells[c]; ok {
					w.env[p] = x
					continue
				}
			}
		}
		w.env[p] = v.entryEnv[p]
	}
	// a new thread: fresh allocation mark, shared output memory arbitrary
	v.bumpAlloc(st)
	w.mark = st.alloc
	w.kcell = v.ghost(st, "$k", tInt, intV(Int(-1)))
	w.done = v.ghost(st, "$done", tInt, intV(Int(0)))
	v.workerEnv = w.env
	v.worker = w
	v.havocShared(st, w)
	n := 0
	v.runFunc(clo.Fn, args, clo.Bind, fr, fr.site+"/go", st, func(st2 *State, _ []*Val) {
		n++
		if v.dry > 0 {
			return
		}
		v.workerItemDone(st2, w, in.Pos())
		v.oblige(st2, "concurrency", "the worker reports completion exactly once", in.Pos(), Eq(st2.cells[w.done].Term, Int(1)))
		v.oblige(st2, "concurrency", "the worker ends only when the channel is drained", in.Pos(), Eq(st2.cells[w.kcell].Term, Int(-2)))
	})
	if n == 0 && v.dry == 0 {
		v.oblige(st, "concurrency", "the worker can end", in.Pos(), tFalse)
	}
}

func rootFrame(fr *Frame) *Frame {
	for fr.parent != nil {
		fr = fr.parent
	}
	return fr
}

// the footprint target for item k in state st
func (v *V) footOf(st *State, w *workerRun, spec *WorkerSpec, env map[string]*Val, k *Term) *modTarget {
	c := &Ctx{v: v, st: st, old: v.entry, env: map[string]*Val{}, pkg: v.con.Pkg}
	for n, x := range env {
		c.env[n] = x
	}
	c.env[spec.Item] = intV(k)
	ts := v.modTargets(c, spec.Foot)
	if len(ts) != 1 || len(ts[0].keys) != 1 || ts[0].lo == nil {
		panic(unsupported("worker footprint must be a range of a flat slice"))
	}
	return ts[0]
}

func (v *V) wctx(st *State, env map[string]*Val, item string, k *Term) *Ctx {
	c := &Ctx{v: v, st: st, old: v.entry, env: map[string]*Val{}, olde: v.entryEnv, pkg: v.con.Pkg}
	for n, x := range env {
		c.env[n] = x
	}
	if k != nil {
		c.env[item] = intV(k)
	}
	return c
}

// havocShared: other workers may have written anything to the output
func (v *V) havocShared(st *State, w *workerRun) {
	t := v.footOf(st, w, w.spec, w.env, Int(0))
	key := t.keys[0]
	m := v.getMem(st, key, t.leaf[0].Sort)
	st.mem[key] = Store(m, t.arr, v.freshInner(key, arrElem(m.Sort), st.alloc))
}

func (v *V) execRecv(fr *Frame, b *ssa.BasicBlock, i int, in *ssa.UnOp, prev *ssa.BasicBlock, st *State, k Cont) {
	w := v.worker
	if w == nil {
		panic(unsupported("channel receive outside a worker"))
	}
	ch := v.chanOf(st, v.get(fr, in.X, st))
	if ch.sent != w.ch.sent {
		panic(unsupported("receive from another channel"))
	}
	if v.dry == 0 {
		v.workerItemDone(st, w, in.Pos())
	}
	el := in.X.Type().Underlying().(*types.Chan).Elem()
	s1 := st.copy()
	regs := copyRegs(fr)
	// an item
	kk := Fresh("item", SInt)
	s1.assume(Le(Int(0), kk))
	v.havocShared(s1, w)
	c := v.wctx(s1, w.env, w.spec.Item, kk)
	for _, r := range w.spec.Requires {
		s1.assume(c.Bool(r.E))
	}
	val := c.eval(w.spec.Value)
	val = &Val{T: el, K: val.K, Term: val.Term}
	s1.cells[w.kcell] = intV(kk)
	var r *Val
	if in.CommaOk {
		r = &Val{T: in.Type(), K: KFields, Sub: []*Val{val, boolV(tTrue)}}
	} else {
		panic(unsupported("receive without ok"))
	}
	fr.regs[in] = r
	v.instrs(fr, b, i+1, prev, s1, k)
	fr.regs = regs
	// closed and drained
	st.cells[w.kcell] = intV(Int(-2))
	fr.regs[in] = &Val{T: in.Type(), K: KFields, Sub: []*Val{zeroVal(el), boolV(tFalse)}}
	v.instrs(fr, b, i+1, prev, st, k)
}

// workerItemDone: the item last received has been processed completely
func (v *V) workerItemDone(st *State, w *workerRun, pos token.Pos) {
	if v.dry > 0 {
		return
	}
	kt := st.cells[w.kcell].Term
	if isIntV(kt, -1) || isIntV(kt, -2) {
		return
	}
	c := v.wctx(st, w.env, w.spec.Item, kt)
	for _, e := range w.spec.Ensures {
		v.obligeP(st, "worker postcondition", e.Label, pos, Implies(Le(Int(0), kt), c.Bool(e.E)), e.Props)
	}
}

func (w *workerRun) write(v *V, st *State, key string, arr, idx *Term) {
	if idx == nil {
		w.writeRange(v, st, key, arr, nil, nil)
		return
	}
	w.writeRange(v, st, key, arr, idx, Add(idx, Int(1)))
}

// writeRange: a worker may write its own objects and its item's footprint
func (w *workerRun) writeRange(v *V, st *State, key string, arr, lo, hi *Term) {
	if v.dry > 0 {
		return
	}
	if freshSince(arr, w.mark) {
		return
	}
	kt := st.cells[w.kcell].Term
	if isIntV(kt, -1) || isIntV(kt, -2) {
		v.oblige(st, "race", "worker writes shared memory outside an item: "+key, w.site.Pos(), Le(w.mark, arr))
		return
	}
	t := v.footOf(st, w, w.spec, w.env, kt)
	if t.keys[0] != key || lo == nil {
		v.oblige(st, "race", "worker writes shared memory: "+key, w.site.Pos(), Le(w.mark, arr))
		return
	}
	v.oblige(st, "race", "worker writes stay in the item's footprint", w.site.Pos(), Or(Le(w.mark, arr), Le(hi, lo), And(Eq(arr, t.arr), Le(t.lo, lo), Le(hi, t.hi))))
}

func (v *V) raceCheck(st *State, key string, pos token.Pos) {
	v.oblige(st, "race", "memory is written while workers run: "+key, pos, tFalse)
}

func (v *V) execSend(fr *Frame, in *ssa.Send, st *State) {
	ch := v.chanOf(st, v.get(fr, in.Chan, st))
	x := v.get(fr, in.X, st)
	if v.worker != nil {
		panic(unsupported("worker sends"))
	}
	if len(st.gor) == 0 {
		v.oblige(st, "concurrency", "send without receiver", in.Pos(), tFalse)
		return
	}
	g := st.gor[0]
	n := st.cells[ch.sent].Term
	v.oblige(st, "concurrency", "a worker is there to receive", in.Pos(), Le(Int(1), st.cells[ch.spawned].Term))
	v.oblige(st, "concurrency", "send on an open channel", in.Pos(), Not(st.cells[ch.closed].Term))
	env := v.sendEnv(fr, st)
	c := v.wctx(st, env, g.spec.Item, n)
	v.oblige(st, "concurrency", "items are sent in the order of the worker contract", in.Pos(), Eq(c.eval(g.spec.Value).Term, x.Term))
	for _, r := range g.spec.Requires {
		v.oblige(st, "worker precondition", r.Label, in.Pos(), c.Bool(r.E))
	}
	st.cells[ch.sent] = intV(Add(n, Int(1)))
}

func (v *V) sendEnv(fr *Frame, st *State) map[string]*Val {
	env := map[string]*Val{}
	for f := fr; f != nil; f = f.parent {
		for a, cell := range f.cells {
			if x, ok := st.cells[cell]; ok {
				if _, dup := env[a.Comment]; !dup {
					env[a.Comment] = x
				}
			}
		}
	}
	for i, p := range v.con.Params {
		env[p] = v.entryEnv[p]
		if i < len(v.fn.Params) {
			if c := paramCell(rootFrame(fr), v.fn.Params[i]); c != nil {
				if x, ok := st.cells[c]; ok {
					env[p] = x
				}
			}
		}
	}
	return env
}

func (v *V) closeChan(st *State, x *Val, pos token.Pos) {
	ch := v.chanOf(st, x)
	v.oblige(st, "concurrency", "close of an open channel", pos, Not(st.cells[ch.closed].Term))
	st.cells[ch.closed] = boolV(tTrue)
}

// waitGroup operations: the counter is the WaitGroup variable's value
func (v *V) wgOp(fr *Frame, name string, args []*Val, st *State, pos token.Pos) {
	p := args[0]
	if p.K != KAddr || p.Addr.Cell == nil {
		panic(unsupported("WaitGroup not a local variable"))
	}
	cell := p.Addr.Cell
	switch name {
	case "Add":
		if v.worker != nil {
			panic(unsupported("Add in a worker"))
		}
		cur := v.load(st, p.Addr)
		v.oblige(st, "concurrency", "WaitGroup.Add adds a non-negative number", pos, Le(Int(0), args[1].Term))
		st.cells[cell] = v.setPath(st.cells[cell], p.Addr.Path, scalar(cur.T, Add(cur.Term, args[1].Term)))
	case "Done":
		w := v.worker
		if w == nil {
			panic(unsupported("Done outside a worker"))
		}
		st.cells[w.done] = intV(Add(st.cells[w.done].Term, Int(1)))
	case "Wait":
		if v.worker != nil {
			panic(unsupported("Wait in a worker"))
		}
		if len(st.gor) == 0 {
			return
		}
		g := st.gor[0]
		cur := v.load(st, p.Addr)
		v.oblige(st, "concurrency", "Wait counts every worker", pos, Eq(cur.Term, st.cells[g.ch.spawned].Term))
		v.oblige(st, "concurrency", "the channel is closed before Wait, so every worker ends", pos, st.cells[g.ch.closed].Term)
		v.join(fr, g, st, pos)
		st.gor = nil
	default:
		panic(unsupported("WaitGroup." + name))
	}
}

// join: after Wait every item sent has been processed
func (v *V) join(fr *Frame, g *Spawn, st *State, pos token.Pos) {
	env := v.sendEnv(fr, st)
	n := st.cells[g.ch.sent].Term
	spec := g.spec
	// footprints of different items are disjoint and ordered
	k1, k2 := Fresh("k", SInt), Fresh("k", SInt)
	t1, t2 := v.footOf(st, nil, spec, env, k1), v.footOf(st, nil, spec, env, k2)
	hyp := []*Term{Le(Int(0), k1), Lt(k1, k2), Lt(k2, n)}
	for _, k := range []*Term{k1, k2} {
		c := v.wctx(st, env, spec.Item, k)
		for _, r := range spec.Requires {
			hyp = append(hyp, c.Bool(r.E))
		}
	}
	v.oblige(st, "race", "different items write different elements", pos, Implies(And(hyp...), And(Eq(t1.arr, t2.arr), Le(t1.hi, t2.lo))))
	key := t1.keys[0]
	m := v.getMem(st, key, t1.leaf[0].Sort)
	old := Select(m, t1.arr)
	nw := v.freshInner(key, old.Sort, st.alloc)
	j := BoundVar("j", SInt)
	// outside [lo(0), hi(n-1)) nothing changes
	first := v.footOf(st, nil, spec, env, Int(0))
	last := v.footOf(st, nil, spec, env, Sub(n, Int(1)))
	st.assume(Forall([]*Term{j}, Implies(Or(Le(n, Int(0)), Lt(j, first.lo), Le(last.hi, j)), Eq(Select(nw, j), Select(old, j))), []*Term{Select(nw, j)}))
	st.mem[key] = Store(m, t1.arr, nw)
	v.bumpAlloc(st)
	kv := BoundVar("k", SInt)
	c := v.wctx(st, env, spec.Item, kv)
	for _, e := range spec.Ensures {
		if x := spec.byOwner(e.E); x != nil {
			// the instance for the item that owns the element is enough
			c2 := v.wctx(st, env, spec.Item, nil)
			c2.env["$sent"] = intV(n)
			st.assume(c2.Bool(x))
			continue
		}
		st.assume(Forall([]*Term{kv}, Implies(And(Le(Int(0), kv), Lt(kv, n)), c.Bool(e.E))))
	}
	_ = fmt.Sprint
}

// byOwner: ensures ... forall r :: P(item, r) becomes
// ... forall r :: let item = owner(r) in 0 <= item < $sent ==> P(item, r)
func (w *WorkerSpec) byOwner(e *Expr) *Expr {
	if w.Owner == nil {
		return nil
	}
	id := func(n string) *Expr { return &Expr{Op: "id", Name: n, Tok: e.Tok} }
	bin := func(op string, a, b *Expr) *Expr { return &Expr{Op: "bin", Name: op, Args: []*Expr{a, b}, Tok: e.Tok} }
	switch {
	case e.Op == "bin" && e.Name == "==>":
		if x := w.byOwner(e.Args[1]); x != nil {
			return bin("==>", e.Args[0], x)
		}
	case e.Op == "quant" && e.Name == "forall":
		for _, q := range e.Q {
			if q.Name == w.OwnerVar {
				g := bin("&&", bin("<=", &Expr{Op: "int", Name: "0", Tok: e.Tok}, id(w.Item)), bin("<", id(w.Item), id("$sent")))
				x := *e
				x.Args = []*Expr{{Op: "let", Name: w.Item, Args: []*Expr{w.Owner, bin("==>", g, e.Args[0])}, Tok: e.Tok}}
				return &x
			}
		}
	}
	return nil
}

func loopReceives(l *Loop) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return true
			}
		}
	}
	return false
}
