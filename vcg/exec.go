package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func newBig(s string) (*big.Int, bool) { return new(big.Int).SetString(s, 10) }

type Obligation struct {
	Fn     string
	Kind   string
	Label  string
	Pos    string
	Pc     *PC
	Extra  []*Term
	Goal   *Term
	Mode   string
	Props  []string
	Result string // proved, failed, unknown
	Solver string
	Model  string
	Millis int64
	Expect string // "" prove goal; "sat": reachability guard
}

func (o *Obligation) Name() string {
	return o.Fn + " / " + o.Kind + " / " + o.Label + " @ " + o.Pos
}

// V verifies one function against its contract.
type V struct {
	P           *Program
	spec        *Spec
	fn          *ssa.Function
	con         *Contract
	name        string
	obls        []*Obligation
	dry         int
	nframes     int
	ncells      int
	alloc0      *Term
	entry       *State
	entryEnv    map[string]*Val
	dec0        *Term
	heap        map[ssa.Instruction]bool // alloc sites living in memory
	noRegion    map[string]bool          // regions merged into the default memory
	regions     map[string]bool          // parameter regions
	paths       int
	steps       int
	trusted     map[string]bool
	calls       map[string]bool // contracts used
	loopOrd     map[string]int
	loopInst    map[string]*LoopSpec
	notes       map[string]bool
	inlined     map[string]bool
	axioms      map[string]bool
	dropped     map[string]bool
	frameOff    map[string]bool
	curLoops    []*LoopSpec
	lastEnv     *Frame
	worker      *workerRun
	workerEnv   map[string]*Val
	frameTgt    map[string][]*modTarget
	stop        *stopAt // where the branch being executed joins
	lemmaEnv    map[string]*Val
	lemma       *Lemma
	ghosts      map[string]*Cell // specification variables, by name
	ghostCells  map[string]*Cell
	lemmasUsed  map[string]bool
	workersDone map[ssa.Instruction]bool
	chanSites   map[ssa.Instruction]*ChanInfo
	paramReg    map[string]string
}

type Cont func(*State, []*Val)

func (v *V) oblige(st *State, kind, label string, pos token.Pos, goal *Term) {
	v.obligeP(st, kind, label, pos, goal, nil)
}

func (v *V) obligeP(st *State, kind, label string, pos token.Pos, goal *Term, props []string) {
	if v.dry > 0 {
		st.assume(goal)
		return
	}
	if d, ok := st.decided(goal); ok && d {
		v.obls = append(v.obls, &Obligation{Fn: v.name, Kind: kind, Label: label, Pos: posStr(v.P.fset, pos), Goal: tTrue, Result: "proved", Solver: "simplifier", Props: props})
		return
	}
	if goal.Op == "app" && goal.Name == "and" && kind != "reach" {
		for i, a := range goal.Args {
			l := label
			if len(goal.Args) > 1 {
				l = fmt.Sprintf("%s#%d", label, i)
			}
			v.obligeP(st, kind, l, pos, a, props)
		}
		return
	}
	mode := ""
	if v.con != nil {
		mode = v.con.Mode
	}
	v.obls = append(v.obls, &Obligation{Fn: v.name, Kind: kind, Label: label, Pos: posStr(v.P.fset, pos), Pc: st.pc, Goal: goal, Mode: mode, Props: props})
	st.assume(goal)
}

func (v *V) newFrame(fn *ssa.Function, parent *Frame, site string) *Frame {
	v.nframes++
	f := &Frame{id: v.nframes, fn: fn, regs: map[ssa.Value]*Val{}, cells: map[*ssa.Alloc]*Cell{}, parent: parent, site: site, info: loopInfo(fn)}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	if f.depth > 24 {
		panic(unsupported("inlining too deep at " + fn.String()))
	}
	return f
}

func (v *V) newCell(name string, t types.Type, a *ssa.Alloc, fr *Frame) *Cell {
	v.ncells++
	return &Cell{id: v.ncells, Name: name, T: t, Alloc: a, Frame: fr}
}

// restart requests ---------------------------------------------------------
func (v *V) materialise(c *Cell) {
	if c.Alloc == nil {
		panic(unsupported("address of parameter cell escapes"))
	}
	v.heap[c.Alloc] = true
	panic(restartErr{"heap " + c.Name})
}

func (v *V) escapeRegion(r string) {
	if v.regions[r] {
		panic(unsupported("slice of parameter region " + r + " escapes"))
	}
	v.noRegion[r] = true
	panic(restartErr{"region " + r})
}

func (v *V) siteRegion(in ssa.Instruction, fr *Frame) string {
	p := v.P.fset.Position(in.Pos())
	name := fmt.Sprintf("@%s:%d:%d:%s", shortFile(p.Filename), p.Line, p.Column, fnShort(in.Parent()))
	if !in.Pos().IsValid() {
		name = fmt.Sprintf("@%s:%p", fnShort(in.Parent()), in)
	}
	if v.noRegion[name] {
		return ""
	}
	return name
}

func shortFile(f string) string {
	i := strings.LastIndex(f, "/")
	return f[i+1:]
}

func fnShort(f *ssa.Function) string { return f.Name() }

// ---- addresses ---------------------------------------------------------------

func (v *V) ptrAddr(st *State, p *Val) *Addr {
	switch p.K {
	case KAddr:
		return p.Addr
	case KPtr:
		el := p.T.Underlying().(*types.Pointer).Elem()
		if p.Q != nil {
			if p.Q.Op == "int" {
				t := pathByID[int(p.Q.Int.Int64())]
				if t != nil {
					return &Addr{Elem: t.Elem, Arr: p.P, Idx: p.I, Path: t.Path}
				}
			}
			return &Addr{Elem: el, Arr: p.P, Idx: p.I, Path: []PE{{Field: -77, Idx: p.Q}}}
		}
		if _, ok := el.Underlying().(*types.Array); ok {
			panic(unsupported("pointer to array " + p.T.String()))
		}
		return &Addr{Elem: el, Arr: p.P, Idx: p.I}
	}
	panic(unsupported("address of kind"))
}

func pathType(t types.Type, path []PE) types.Type {
	for _, p := range path {
		if p.Field == -77 {
			continue
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(p.Field).Type()
		case *types.Array:
			t = u.Elem()
		}
	}
	return t
}

func (v *V) load(st *State, a *Addr) *Val {
	if a.Cell != nil {
		x, ok := st.cells[a.Cell]
		if !ok {
			panic(unsupported("read of dead cell " + a.Cell.Name))
		}
		return valPath(x, a.Path)
	}
	if len(a.Path) == 1 && a.Path[0].Field == -77 {
		return v.loadInterior(st, a)
	}
	pre := ""
	var idxs []*Term
	t := a.Elem
	for _, p := range a.Path {
		if p.Idx != nil {
			pre += "[]"
			idxs = append(idxs, p.Idx)
			t = t.Underlying().(*types.Array).Elem()
		} else {
			f := t.Underlying().(*types.Struct).Field(p.Field)
			pre += "." + f.Name()
			t = f.Type()
		}
	}
	var ts []*Term
	for _, l := range leavesOf(t) {
		full := l
		full.Path = pre + l.Path
		s := l.Sort
		for range idxs {
			s = SArr(SInt, s)
		}
		key := memKey(a.Reg, a.Elem, full.Path)
		if len(idxs) == 0 {
			noteKey(key, l)
		}
		m := v.getMem(st, key, s)
		x := Select(Select(m, a.Arr), a.Idx)
		for _, ix := range idxs {
			x = Select(x, ix)
		}
		v.noteLeaf(x, m, a.Arr, l)
		ts = append(ts, x)
	}
	r := unflatten(t, ts, "")
	noteAll(r)
	return r
}

func valPath(x *Val, path []PE) *Val {
	for i, p := range path {
		switch x.K {
		case KFields:
			if p.Idx != nil {
				if p.Idx.Op == "int" && int(p.Idx.Int.Int64()) < len(x.Sub) {
					x = x.Sub[p.Idx.Int.Int64()]
					continue
				}
				panic(unsupported("dynamic index into literal array"))
			}
			x = x.Sub[p.Field]
		case KArr:
			if p.Idx == nil {
				panic(unsupported("field of array"))
			}
			var ts []*Term
			for _, a := range x.LArr {
				ts = append(ts, Select(a, p.Idx))
			}
			y := unflatten(x.T.Underlying().(*types.Array).Elem(), ts, "")
			return valPath(y, path[i+1:])
		default:
			panic(unsupported("path into " + x.T.String()))
		}
	}
	return x
}

func (v *V) setPath(x *Val, path []PE, nv *Val) *Val {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch x.K {
	case KFields:
		n := *x
		n.Sub = append([]*Val{}, x.Sub...)
		i := p.Field
		if p.Idx != nil {
			if p.Idx.Op != "int" {
				panic(unsupported("dynamic index into literal array"))
			}
			i = int(p.Idx.Int.Int64())
		}
		n.Sub[i] = v.setPath(x.Sub[i], path[1:], nv)
		return &n
	case KArr:
		el := x.T.Underlying().(*types.Array).Elem()
		var ts []*Term
		for _, a := range x.LArr {
			ts = append(ts, Select(a, p.Idx))
		}
		y := v.setPath(unflatten(el, ts, ""), path[1:], nv)
		fs := v.flatten(y)
		n := *x
		n.LArr = nil
		for i, a := range x.LArr {
			n.LArr = append(n.LArr, Store(a, p.Idx, fs[i]))
		}
		return &n
	}
	panic(unsupported("store path into " + x.T.String()))
}

func (v *V) store(st *State, a *Addr, x *Val) {
	if a.Cell != nil {
		old, ok := st.cells[a.Cell]
		if !ok {
			panic(unsupported("write to dead cell " + a.Cell.Name))
		}
		if v.worker != nil && v.worker.shared[a.Cell] {
			v.oblige(st, "race", "goroutine writes shared variable "+a.Cell.Name, token.NoPos, tFalse)
		}
		for _, g := range st.gor {
			for _, b := range g.clo.Bind {
				if b.K == KAddr && b.Addr.Cell == a.Cell {
					v.oblige(st, "race", "variable "+a.Cell.Name+" is written while workers run", token.NoPos, tFalse)
				}
			}
		}
		st.cells[a.Cell] = v.setPath(old, a.Path, x)
		return
	}
	if len(a.Path) == 1 && a.Path[0].Field == -77 {
		v.storeInterior(st, a, x)
		return
	}
	if len(a.Path) == 1 && a.Path[0].Field == -55 { // a whole array
		for i, l := range leavesOf(a.Elem) {
			key := memKey(a.Reg, a.Elem, l.Path)
			noteKey(key, l)
			m := v.getMem(st, key, l.Sort)
			var c *Term
			switch x.K {
			case KArr:
				c = x.LArr[i]
			case KFields:
				c = Select(m, a.Arr)
				for j, e := range x.Sub {
					c = Store(c, Int(int64(j)), v.flatten(e)[i])
				}
			default:
				panic(unsupported("array assignment"))
			}
			st.mem[key] = Store(m, a.Arr, c)
			v.noteWrite(st, key, a.Arr, nil)
		}
		return
	}
	pre := ""
	var idxs []*Term
	t := a.Elem
	for _, p := range a.Path {
		if p.Idx != nil {
			pre += "[]"
			idxs = append(idxs, p.Idx)
			t = t.Underlying().(*types.Array).Elem()
		} else {
			f := t.Underlying().(*types.Struct).Field(p.Field)
			pre += "." + f.Name()
			t = f.Type()
		}
	}
	ts := v.flatten(x)
	for i, l := range leavesOf(t) {
		s := l.Sort
		for range idxs {
			s = SArr(SInt, s)
		}
		if len(idxs) == 0 {
			noteKey(memKey(a.Reg, a.Elem, pre+l.Path), l)
		}
		v.storeLeaf(st, memKey(a.Reg, a.Elem, pre+l.Path), s, a.Arr, a.Idx, idxs, ts[i])
	}
}

func (v *V) storeLeaf(st *State, key string, s Sort, arr, idx *Term, idxs []*Term, x *Term) {
	m := v.getMem(st, key, s)
	inner := Select(m, arr)
	if len(idxs) > 0 {
		x = nestStore(Select(inner, idx), idxs, x)
	}
	st.mem[key] = Store(m, arr, Store(inner, idx, x))
	v.noteWrite(st, key, arr, idx)
}

func nestStore(a *Term, idxs []*Term, x *Term) *Term {
	if len(idxs) == 0 {
		return x
	}
	return Store(a, idxs[0], nestStore(Select(a, idxs[0]), idxs[1:], x))
}

// interior pointers with symbolic path id: case split on all known (type, path) pairs
func (v *V) loadInterior(st *State, a *Addr) *Val {
	q := a.Path[0].Idx
	var res *Val
	ids := sortedIDs()
	for _, id := range ids {
		t := pathByID[id]
		if !types.Identical(pathType(t.Elem, t.Path), a.Elem) {
			continue
		}
		x := v.load(st, &Addr{Elem: t.Elem, Arr: a.Arr, Idx: a.Idx, Path: t.Path})
		if res == nil {
			res = x
		} else {
			res = scalar(x.T, Ite(Eq(q, Int(int64(id))), x.Term, res.Term))
		}
	}
	if res == nil {
		panic(unsupported("interior pointer without candidates"))
	}
	return res
}

func (v *V) storeInterior(st *State, a *Addr, x *Val) {
	q := a.Path[0].Idx
	n := 0
	for _, id := range sortedIDs() {
		t := pathByID[id]
		if !types.Identical(pathType(t.Elem, t.Path), a.Elem) {
			continue
		}
		n++
		ad := &Addr{Elem: t.Elem, Arr: a.Arr, Idx: a.Idx, Path: t.Path}
		cur := v.load(st, ad)
		v.store(st, ad, scalar(cur.T, Ite(Eq(q, Int(int64(id))), x.Term, cur.Term)))
	}
	if n == 0 {
		panic(unsupported("interior pointer without candidates"))
	}
}

func sortedIDs() []int {
	var ids []int
	for id := range pathByID {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}

func (v *V) noteWrite(st *State, key string, arr, idx *Term) {
	if v.worker != nil {
		v.worker.write(v, st, key, arr, idx)
	} else if len(st.gor) > 0 {
		v.raceCheck(st, key, token.NoPos)
	}
}

// allocate an object id
// objMark: the newest symbol when an object was allocated
var objMark = map[*Term]int{}

func (v *V) newObj(st *State) *Term {
	id := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	if _, ok := objMark[id]; !ok {
		objMark[id] = B.nsym
	}
	return id
}

// ---- running -----------------------------------------------------------------

func (v *V) runFunc(fn *ssa.Function, args []*Val, binds []*Val, parent *Frame, site string, st *State, k Cont) {
	if fn.Blocks == nil {
		panic(unsupported("no body for " + fn.String()))
	}
	for p := parent; p != nil; p = p.parent {
		if p.fn == fn && fn.Parent() == nil {
			panic(unsupported("recursive call without contract: " + fn.String()))
		}
	}
	fr := v.newFrame(fn, parent, site)
	fr.params = args
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.regs[f] = binds[i]
	}
	fr.binds = binds
	nl := len(st.loops)
	_ = nl
	v.block(fr, fn.Blocks[0], nil, st, k)
}

func (v *V) block(fr *Frame, b, prev *ssa.BasicBlock, st *State, k Cont) {
	if v.stop != nil && v.stop.fr == fr && v.stop.b == b {
		v.stop.got = append(v.stop.got, arrival{st, copyRegs(fr), prev})
		return
	}
	// leave loops of this frame that do not contain b
	for len(st.loops) > 0 {
		top := st.loops[len(st.loops)-1]
		if top.fr != fr || top.loop.body[b] {
			break
		}
		if top.dry {
			v.onDryExit(top, st)
			return
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	if l := fr.info.byHeader[b]; l != nil {
		if len(st.loops) > 0 {
			top := st.loops[len(st.loops)-1]
			if top.fr == fr && top.loop == l {
				if v.worker != nil && loopReceives(l) {
					v.workerItemDone(st, v.worker, loopPos(l))
					st.cells[v.worker.kcell] = intV(Int(-1))
				}
				v.backEdge(top, st)
				return
			}
		}
		v.enterLoop(fr, l, prev, st, k)
		return
	}
	v.instrs(fr, b, 0, prev, st, k)
}

func (v *V) get(fr *Frame, x ssa.Value, st *State) *Val {
	switch y := x.(type) {
	case *ssa.Const:
		return v.constVal(y)
	case *ssa.Function:
		return &Val{T: y.Type(), K: KClo, Clo: &Closure{Fn: y}}
	case *ssa.Global:
		return v.globalAddr(y, st)
	case *ssa.Builtin:
		return &Val{T: y.Type(), K: KClo}
	}
	r, ok := fr.regs[x]
	if !ok {
		panic(unsupported(fmt.Sprintf("register %s of %s undefined", x.Name(), fr.fn)))
	}
	return r
}

func (v *V) globalAddr(g *ssa.Global, st *State) *Val {
	c, ok := v.P.globals[g]
	if !ok {
		c = &Cell{id: -len(v.P.globals) - 1, Name: g.Name(), T: g.Type().(*types.Pointer).Elem()}
		v.P.globals[g] = c
	}
	if _, ok := st.cells[c]; !ok {
		st.cells[c] = v.globalInit(g, st)
	}
	return &Val{T: g.Type(), K: KAddr, Addr: &Addr{Cell: c}}
}

func (v *V) instrs(fr *Frame, b *ssa.BasicBlock, i int, prev *ssa.BasicBlock, st *State, k Cont) {
	for ; i < len(b.Instrs); i++ {
		v.steps++
		if v.steps > 3000000 {
			panic(unsupported("symbolic execution too long"))
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			c := v.get(fr, in.Cond, st).Term
			if d, ok := st.decided(c); ok {
				s := b.Succs[0]
				if !d {
					s = b.Succs[1]
				}
				v.block(fr, s, b, st, k)
				return
			}
			if v.branch(fr, b, c, st, k) {
				return
			}
			v.countPath()
			s1 := st.copy()
			s1.assume(c)
			st.assume(Not(c))
			regs := copyRegs(fr)
			if v.feasible(s1) {
				v.block(fr, b.Succs[0], b, s1, k)
				fr.regs = regs
			}
			if v.feasible(st) {
				v.block(fr, b.Succs[1], b, st, k)
			}
			return
		case *ssa.Jump:
			v.block(fr, b.Succs[0], b, st, k)
			return
		case *ssa.Return:
			var res []*Val
			for _, r := range in.Results {
				res = append(res, v.get(fr, r, st))
			}
			if !v.popFrame(fr, st) {
				return
			}
			k(st, res)
			return
		case *ssa.Panic:
			v.oblige(st, "safety", "panic reachable", in.Pos(), tFalse)
			return
		case *ssa.RunDefers:
			ds := st.defers[fr]
			if len(ds) > 0 {
				st.defers[fr] = nil
				rest := i + 1
				v.runDefers(fr, ds, len(ds)-1, st, func(st2 *State, _ []*Val) {
					v.instrs(fr, b, rest, prev, st2, k)
				})
				return
			}
		case *ssa.Defer:
			v.execDefer(fr, in, st)
		case *ssa.Phi:
			for j, p := range b.Preds {
				if p == prev {
					fr.regs[in] = v.get(fr, in.Edges[j], st)
				}
			}
		case *ssa.Call:
			rest := i + 1
			done := false
			v.call(fr, in, in.Common(), st, func(st2 *State, res []*Val) {
				fr.regs[in] = tupleOf(in.Type(), res)
				v.instrs(fr, b, rest, prev, st2, k)
				done = true
			})
			_ = done
			return
		case *ssa.Go:
			v.execGo(fr, in, st)
		case *ssa.Send:
			v.execSend(fr, in, st)
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				v.execRecv(fr, b, i, in, prev, st, k)
				return
			}
			fr.regs[in] = v.unop(fr, in, st)
		case *ssa.TypeAssert:
			rest := i + 1
			v.typeAssert(fr, in, st, func(st2 *State, r *Val) {
				fr.regs[in] = r
				v.instrs(fr, b, rest, prev, st2, k)
			})
			return
		default:
			v.step(fr, b.Instrs[i], st)
		}
	}
}

func copyRegs(fr *Frame) map[ssa.Value]*Val {
	m := make(map[ssa.Value]*Val, len(fr.regs))
	for k, x := range fr.regs {
		m[k] = x
	}
	return m
}

func (v *V) countPath() {
	v.paths++
	if v.paths > 60000 {
		panic(unsupported("too many paths"))
	}
}

func tupleOf(t types.Type, res []*Val) *Val {
	if _, ok := t.(*types.Tuple); ok {
		if len(res) == 0 {
			return &Val{T: t, K: KFields}
		}
		return &Val{T: t, K: KFields, Sub: res}
	}
	if len(res) != 1 {
		panic(unsupported("result count"))
	}
	return res[0]
}

// popFrame leaves the loops of fr; false when a dry run ends here
func (v *V) popFrame(fr *Frame, st *State) bool {
	for len(st.loops) > 0 {
		top := st.loops[len(st.loops)-1]
		if top.fr != fr {
			break
		}
		if top.dry {
			v.onDryExit(top, st)
			return false
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	return true
}

func (v *V) runDefers(fr *Frame, ds []deferred, i int, st *State, k Cont) {
	if i < 0 {
		k(st, nil)
		return
	}
	d := ds[i]
	v.callWith(fr, d.call, d.call.Common(), d.fn, d.args, st, func(st2 *State, _ []*Val) {
		v.runDefers(fr, ds, i-1, st2, k)
	})
}

func (v *V) execDefer(fr *Frame, in *ssa.Defer, st *State) {
	c := in.Common()
	var args []*Val
	for _, a := range c.Args {
		args = append(args, v.get(fr, a, st))
	}
	var f *Val
	if c.IsInvoke() {
		f = v.get(fr, c.Value, st)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		f = v.get(fr, c.Value, st)
	}
	st.defers[fr] = append(st.defers[fr], deferred{in, f, args})
}

func (v *V) step(fr *Frame, instr ssa.Instruction, st *State) {
	switch in := instr.(type) {
	case *ssa.Alloc:
		fr.regs[in] = v.allocate(fr, in, st)
	case *ssa.Store:
		ad := v.get(fr, in.Addr, st)
		if ad.K == KAddr && ad.Addr.Cell == nil && ad.Addr.Arr == nil {
			return
		}
		v.nilCheck(st, ad, in.Pos())
		v.store(st, v.ptrAddr(st, ad), v.get(fr, in.Val, st))
	case *ssa.BinOp:
		fr.regs[in] = v.binop(fr, in, st)
	case *ssa.ChangeType:
		x := *v.get(fr, in.X, st)
		x.T = in.Type()
		fr.regs[in] = &x
	case *ssa.ChangeInterface:
		x := *v.get(fr, in.X, st)
		x.T = in.Type()
		fr.regs[in] = &x
	case *ssa.Convert:
		fr.regs[in] = v.convert(st, v.get(fr, in.X, st), in.Type(), in)
	case *ssa.MakeInterface:
		fr.regs[in] = &Val{T: in.Type(), K: KDyn, Dyn: v.get(fr, in.X, st)}
	case *ssa.MakeClosure:
		var b []*Val
		for _, x := range in.Bindings {
			b = append(b, v.get(fr, x, st))
		}
		fr.regs[in] = &Val{T: in.Type(), K: KClo, Clo: &Closure{Fn: in.Fn.(*ssa.Function), Bind: b}}
	case *ssa.MakeSlice:
		n := v.get(fr, in.Len, st).Term
		c := v.get(fr, in.Cap, st).Term
		v.oblige(st, "safety", "make: length is not negative and not above the capacity", in.Pos(), And(Le(Int(0), n), Le(n, c)))
		reg := v.siteRegion(in, fr)
		el := in.Type().Underlying().(*types.Slice).Elem()
		id := v.newObj(st)
		v.initObj(st, reg, el, id)
		fr.regs[in] = mkSlice(in.Type(), id, Int(0), n, c, reg)
		noteSlice(fr.regs[in])
	case *ssa.MakeMap:
		id := v.newObj(st)
		mt := in.Type().Underlying().(*types.Map)
		v.mapClear(st, mt, id)
		fr.regs[in] = scalar(in.Type(), id)
	case *ssa.MakeChan:
		fr.regs[in] = v.makeChan(fr, in, st)
	case *ssa.FieldAddr:
		x := v.get(fr, in.X, st)
		v.nilCheck(st, x, in.Pos())
		a := *v.ptrAddr(st, x)
		a.Path = append(append([]PE{}, a.Path...), PE{Field: in.Field})
		fr.regs[in] = &Val{T: in.Type(), K: KAddr, Addr: &a}
	case *ssa.Field:
		x := v.get(fr, in.X, st)
		fr.regs[in] = valPath(x, []PE{{Field: in.Field}})
	case *ssa.IndexAddr:
		fr.regs[in] = v.indexAddr(fr, in, st)
	case *ssa.Index:
		x := v.get(fr, in.X, st)
		ix := v.get(fr, in.Index, st).Term
		if at, ok := x.T.Underlying().(*types.Array); ok {
			v.oblige(st, "safety", "index in range", in.Pos(), And(Le(Int(0), ix), Lt(ix, Int(at.Len()))))
			fr.regs[in] = valPath(x, []PE{{Field: -1, Idx: ix}})
		} else { // string
			v.oblige(st, "safety", "index in range", in.Pos(), And(Le(Int(0), ix), Lt(ix, strLen(x.Term))))
			fr.regs[in] = scalar(in.Type(), strAt(x.Term, ix))
		}
	case *ssa.Slice:
		fr.regs[in] = v.slice(fr, in, st)
	case *ssa.Lookup:
		fr.regs[in] = v.lookup(fr, in, st)
	case *ssa.MapUpdate:
		m := v.get(fr, in.Map, st)
		v.oblige(st, "safety", "assignment to nil map", in.Pos(), Not(Eq(m.Term, Int(0))))
		v.mapStore(st, in.Map.Type().Underlying().(*types.Map), m.Term, v.get(fr, in.Key, st), v.get(fr, in.Value, st))
	case *ssa.Extract:
		t := v.get(fr, in.Tuple, st)
		fr.regs[in] = t.Sub[in.Index]
	default:
		panic(unsupported(fmt.Sprintf("instruction %T in %s", instr, fr.fn)))
	}
}

// initObj zeroes a fresh object in memory
func (v *V) initObj(st *State, reg string, el types.Type, id *Term) {
	for _, l := range leavesOf(el) {
		key := memKey(reg, el, l.Path)
		noteKey(key, l)
		m := v.getMem(st, key, l.Sort)
		st.mem[key] = Store(m, id, ConstArr(zeroLeaf(l.Sort), SArr(SInt, l.Sort)))
	}
}

func isVarargs(a *ssa.Alloc) bool { return a.Comment == "varargs" || a.Comment == "slicelit" }

func (v *V) allocate(fr *Frame, in *ssa.Alloc, st *State) *Val {
	t := in.Type().(*types.Pointer).Elem()
	if at, ok := t.Underlying().(*types.Array); ok && arraySliced(in) {
		if in.Comment == "varargs" && ignoredVarargs(in) {
			return &Val{T: in.Type(), K: KAddr, Addr: &Addr{}} // contents never looked at
		}
		if in.Comment == "varargs" || (in.Comment == "slicelit" && at.Len() <= 16) {
			c := v.newCell("lit", t, in, fr)
			x := &Val{T: t, K: KFields}
			for i := int64(0); i < at.Len(); i++ {
				x.Sub = append(x.Sub, zeroVal(at.Elem()))
			}
			st.cells[c] = x
			return &Val{T: in.Type(), K: KAddr, Addr: &Addr{Cell: c}}
		}
		// array living in memory
		id := v.newObj(st)
		reg := v.siteRegion(in, fr)
		v.initObj(st, reg, at.Elem(), id)
		return &Val{T: in.Type(), K: KAddr, Addr: &Addr{Reg: reg, Elem: at.Elem(), Arr: id, Idx: Int(0), Path: []PE{{Field: -55}}}}
	}
	if v.heap[in] {
		id := v.newObj(st)
		v.initObj(st, "", t, id)
		return &Val{T: in.Type(), K: KAddr, Addr: &Addr{Elem: t, Arr: id, Idx: Int(0)}}
	}
	c := v.newCell(in.Comment, t, in, fr)
	st.cells[c] = zeroVal(t)
	fr.cells[in] = c
	return &Val{T: in.Type(), K: KAddr, Addr: &Addr{Cell: c}}
}

func arraySliced(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if _, ok := r.(*ssa.Slice); ok {
			return true
		}
	}
	return false
}

// varargs arrays whose contents only reach functions that format messages
func ignoredVarargs(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		s, ok := r.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, u := range *s.Referrers() {
			switch c := u.(type) {
			case *ssa.Call:
				f := c.Call.StaticCallee()
				if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "fmt" {
					return false
				}
				if strings.HasPrefix(f.Name(), "Fprint") {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	return true
}

func (v *V) nilCheck(st *State, p *Val, pos token.Pos) {
	if p.K == KPtr {
		v.oblige(st, "safety", "nil dereference", pos, Not(Eq(p.P, Int(0))))
	}
}

func (v *V) indexAddr(fr *Frame, in *ssa.IndexAddr, st *State) *Val {
	x := v.get(fr, in.X, st)
	ix := v.get(fr, in.Index, st).Term
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		if x.K == KFields { // literal slice
			if ix.Op != "int" {
				panic(unsupported("dynamic index into literal slice"))
			}
			c := v.newCell("lit", u.Elem(), nil, fr)
			st.cells[c] = x.Sub[ix.Int.Int64()]
			return &Val{T: in.Type(), K: KAddr, Addr: &Addr{Cell: c}}
		}
		v.oblige(st, "safety", "index in range", in.Pos(), And(Le(Int(0), ix), Lt(ix, x.Len)))
		return &Val{T: in.Type(), K: KAddr, Addr: &Addr{Reg: x.Reg, Elem: u.Elem(), Arr: x.Arr, Idx: Add(x.Off, ix)}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		if x.K == KAddr && x.Addr.Cell == nil && x.Addr.Arr == nil {
			return &Val{T: in.Type(), K: KAddr, Addr: &Addr{}} // ignored varargs
		}
		v.oblige(st, "safety", "index in range", in.Pos(), And(Le(Int(0), ix), Lt(ix, Int(at.Len()))))
		a := *v.ptrAddr(st, x)
		if len(a.Path) == 1 && a.Path[0].Field == -55 {
			return &Val{T: in.Type(), K: KAddr, Addr: &Addr{Reg: a.Reg, Elem: a.Elem, Arr: a.Arr, Idx: ix}}
		}
		a.Path = append(append([]PE{}, a.Path...), PE{Field: -1, Idx: ix})
		return &Val{T: in.Type(), K: KAddr, Addr: &a}
	}
	panic(unsupported("IndexAddr"))
}

func (v *V) slice(fr *Frame, in *ssa.Slice, st *State) *Val {
	x := v.get(fr, in.X, st)
	lo := Int(0)
	if in.Low != nil {
		lo = v.get(fr, in.Low, st).Term
	}
	var hi *Term
	if in.High != nil {
		hi = v.get(fr, in.High, st).Term
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		if x.K == KFields {
			panic(unsupported("slicing a literal"))
		}
		if hi == nil {
			hi = x.Len
		}
		// restriction: reslicing beyond the length is not modelled
		v.oblige(st, "safety", "slice bounds", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, x.Len)))
		r := mkSlice(in.Type(), x.Arr, Add(x.Off, lo), Sub(hi, lo), Sub(x.Cap, lo), x.Reg)
		noteSlice(r)
		return r
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = Int(at.Len())
		}
		if x.K == KAddr && x.Addr.Cell == nil && x.Addr.Arr == nil {
			return &Val{T: in.Type(), K: KFields} // ignored varargs
		}
		if x.Addr.Cell != nil {
			if isIntV(lo, 0) && isIntV(hi, at.Len()) {
				y := *v.load(st, x.Addr)
				if y.K == KFields {
					y.T = in.Type()
					if al, ok := in.X.(*ssa.Alloc); ok && al.Comment == "slicelit" {
						return v.litToMem(st, &y, al, fr)
					}
					return &y
				}
			}
			panic(unsupported("slice of local array"))
		}
		v.oblige(st, "safety", "slice bounds", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, Int(at.Len()))))
		return mkSlice(in.Type(), x.Addr.Arr, lo, Sub(hi, lo), Sub(Int(at.Len()), lo), x.Addr.Reg)
	case *types.Basic: // string
		if hi == nil {
			hi = strLen(x.Term)
		}
		v.oblige(st, "safety", "slice bounds", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, strLen(x.Term))))
		return scalar(in.Type(), Fn("str.sub_", SStr, x.Term, lo, hi))
	}
	panic(unsupported("slice"))
}

func strLen(s *Term) *Term {
	if n, ok := strLitName[s.Name]; ok && s.Op == "sym" {
		return Int(int64(len(n)))
	}
	t := Fn("str.len_", SInt, s)
	typeFact[t] = Le(Int(0), t)
	if !t.bound {
		B.nonneg[t] = true
	}
	return t
}

func strAt(s, i *Term) *Term {
	t := Fn("str.at_", SInt, s, i)
	if !t.bound {
		typeFact[t] = inRange(t, types.Uint8)
		B.nonneg[t] = true
	}
	return t
}

// materialise a literal slice into memory
func (v *V) litToMem(st *State, x *Val, in ssa.Instruction, fr *Frame) *Val {
	if x.K != KFields {
		return x
	}
	el := x.T.Underlying().(*types.Slice).Elem()
	if len(x.Sub) == 0 {
		return mkSlice(x.T, Int(0), Int(0), Int(0), Int(0), "")
	}
	id := v.newObj(st)
	reg := ""
	if in != nil {
		reg = v.siteRegion(in, fr)
	}
	v.initObj(st, reg, el, id)
	for i, s := range x.Sub {
		v.store(st, &Addr{Reg: reg, Elem: el, Arr: id, Idx: Int(int64(i))}, s)
	}
	n := Int(int64(len(x.Sub)))
	return mkSlice(x.T, id, Int(0), n, n, reg)
}

// ---- maps ------------------------------------------------------------------
func mapKeyTerm(v *V, mt *types.Map, k *Val) *Term {
	ts := v.flatten(k)
	if len(ts) != 1 {
		panic(unsupported("composite map key"))
	}
	return ts[0]
}

func mapMemKey(mt *types.Map, path string) string {
	return "|map:" + typeName(mt.Key()) + ":" + typeName(mt.Elem()) + "|" + path
}

func (v *V) mapMem(st *State, mt *types.Map, path string, s Sort) *Term {
	key := mapMemKey(mt, path)
	if t, ok := st.mem[key]; ok {
		return t
	}
	ks := leavesOf(mt.Key())[0].Sort
	t := Sym("M"+st.epoch+"["+key+"]", SArr(SInt, SArr(ks, s)))
	st.mem[key] = t
	return t
}

func (v *V) mapClear(st *State, mt *types.Map, id *Term) {
	ks := leavesOf(mt.Key())[0].Sort
	m := v.mapMem(st, mt, "?has", SBool)
	st.mem[mapMemKey(mt, "?has")] = Store(m, id, ConstArr(tFalse, SArr(ks, SBool)))
	for _, l := range leavesOf(mt.Elem()) {
		m := v.mapMem(st, mt, l.Path, l.Sort)
		st.mem[mapMemKey(mt, l.Path)] = Store(m, id, ConstArr(zeroLeaf(l.Sort), SArr(ks, l.Sort)))
	}
}

func (v *V) mapStore(st *State, mt *types.Map, id *Term, k, x *Val) {
	kt := mapKeyTerm(v, mt, k)
	m := v.mapMem(st, mt, "?has", SBool)
	st.mem[mapMemKey(mt, "?has")] = Store(m, id, Store(Select(m, id), kt, tTrue))
	ts := v.flatten(x)
	for i, l := range leavesOf(mt.Elem()) {
		m := v.mapMem(st, mt, l.Path, l.Sort)
		st.mem[mapMemKey(mt, l.Path)] = Store(m, id, Store(Select(m, id), kt, ts[i]))
	}
	v.noteWrite(st, mapMemKey(mt, ""), id, nil)
}

func (v *V) mapHas(st *State, mt *types.Map, id, kt *Term) *Term {
	m := v.mapMem(st, mt, "?has", SBool)
	return And(Not(Eq(id, Int(0))), Select(Select(m, id), kt))
}

// value under key, zero when absent
func (v *V) mapGet(st *State, mt *types.Map, id, kt *Term) *Val {
	has := v.mapHas(st, mt, id, kt)
	var ts []*Term
	for _, l := range leavesOf(mt.Elem()) {
		m := v.mapMem(st, mt, l.Path, l.Sort)
		x := Select(Select(m, id), kt)
		if l.Sort == SInt && !x.bound && x.Op != "int" {
			if _, ok := typeFact[x]; !ok {
				typeFact[x] = leafFact(x, l, nil, nil)
			}
		}
		ts = append(ts, Ite(has, x, zeroLeaf(l.Sort)))
	}
	return unflatten(mt.Elem(), ts, "")
}

func (v *V) lookup(fr *Frame, in *ssa.Lookup, st *State) *Val {
	x := v.get(fr, in.X, st)
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		ix := v.get(fr, in.Index, st).Term
		v.oblige(st, "safety", "index in range", in.Pos(), And(Le(Int(0), ix), Lt(ix, strLen(x.Term))))
		return scalar(in.Type(), strAt(x.Term, ix))
	}
	kt := mapKeyTerm(v, mt, v.get(fr, in.Index, st))
	val := v.mapGet(st, mt, x.Term, kt)
	if in.CommaOk {
		return &Val{T: in.Type(), K: KFields, Sub: []*Val{val, scalar(types.Typ[types.Bool], v.mapHas(st, mt, x.Term, kt))}}
	}
	return val
}

// ---- operators -------------------------------------------------------------

func (v *V) unop(fr *Frame, in *ssa.UnOp, st *State) *Val {
	x := v.get(fr, in.X, st)
	switch in.Op {
	case token.MUL:
		if x.K == KAddr && x.Addr.Cell == nil && len(x.Addr.Path) == 1 && x.Addr.Path[0].Field == -55 {
			at := in.Type().Underlying().(*types.Array)
			r := &Val{T: in.Type(), K: KArr}
			for _, l := range leavesOf(at.Elem()) {
				m := v.getMem(st, memKey(x.Addr.Reg, at.Elem(), l.Path), l.Sort)
				r.LArr = append(r.LArr, Select(m, x.Addr.Arr))
			}
			return r
		}
		v.nilCheck(st, x, in.Pos())
		return v.load(st, v.ptrAddr(st, x))
	case token.NOT:
		return scalar(in.Type(), Not(x.Term))
	case token.SUB:
		switch x.Term.Sort {
		case SInt:
			return scalar(in.Type(), wrap(Sub(Int(0), x.Term), basicKind(in.Type())))
		case SF64:
			return scalar(in.Type(), fNeg(x.Term))
		case SF32:
			return scalar(in.Type(), Fn("f32.neg", SF32, x.Term))
		}
	case token.XOR: // ^x
		k := basicKind(in.Type())
		if isUnsigned(k) {
			return scalar(in.Type(), Sub(IntB(new(big.Int).Sub(Pow2(bitsOf(k)), big.NewInt(1))), x.Term))
		}
		return scalar(in.Type(), Sub(Int(-1), x.Term))
	}
	panic(unsupported("unary " + in.Op.String()))
}

func fNeg(x *Term) *Term {
	if b, ok := f64Lits[x.Name]; ok && x.Op == "sym" {
		return F64Lit(-floatFromBits(b))
	}
	return Fn("f64.neg", SF64, x)
}

func fop(name string, s Sort, a, b *Term) *Term {
	if (name == "f64.add" || name == "f64.mul") && a.id > b.id {
		a, b = b, a
	}
	if name == "f64.mul" {
		one := F64Lit(1)
		if a == one {
			return b
		}
		if b == one {
			return a
		}
	}
	return Fn(name, s, a, b)
}

func (v *V) binop(fr *Frame, in *ssa.BinOp, st *State) *Val {
	x := v.get(fr, in.X, st)
	y := v.get(fr, in.Y, st)
	t := in.Type()
	if in.Op == token.EQL || in.Op == token.NEQ {
		e := v.equal(st, x, y)
		if in.Op == token.NEQ {
			e = Not(e)
		}
		return scalar(t, e)
	}
	a, b := x.Term, y.Term
	if a == nil || b == nil {
		panic(unsupported("binary operator operands"))
	}
	switch a.Sort {
	case SF64, SF32:
		p := "f64."
		if a.Sort == SF32 {
			p = "f32."
		}
		switch in.Op {
		case token.ADD:
			return scalar(t, fop(p+"add", a.Sort, a, b))
		case token.SUB:
			return scalar(t, Fn(p+"sub", a.Sort, a, b))
		case token.MUL:
			return scalar(t, fop(p+"mul", a.Sort, a, b))
		case token.QUO:
			return scalar(t, Fn(p+"div", a.Sort, a, b))
		case token.LSS:
			return scalar(t, fLt(p, a, b))
		case token.LEQ:
			return scalar(t, fLe(p, a, b))
		case token.GTR:
			return scalar(t, fLt(p, b, a))
		case token.GEQ:
			return scalar(t, fLe(p, b, a))
		}
	case SInt:
		k := basicKind(in.X.Type())
		switch in.Op {
		case token.ADD:
			return scalar(t, wrap(Add(a, b), k))
		case token.SUB:
			if isUnsigned(k) && bitsOf(k) == 64 {
				v.oblige(st, "arith", "unsigned 64-bit subtraction stays non-negative", in.Pos(), Le(b, a))
			}
			return scalar(t, wrap(Sub(a, b), k))
		case token.MUL:
			return scalar(t, wrap(Mul(a, b), k))
		case token.QUO:
			if !(b.Op == "int" && b.Int.Sign() != 0) {
				v.oblige(st, "safety", "division by zero", in.Pos(), Not(Eq(b, Int(0))))
			}
			return scalar(t, goDivK(a, b, k))
		case token.REM:
			if !(b.Op == "int" && b.Int.Sign() != 0) {
				v.oblige(st, "safety", "division by zero", in.Pos(), Not(Eq(b, Int(0))))
			}
			return scalar(t, goModK(a, b, k))
		case token.LSS:
			return scalar(t, Lt(a, b))
		case token.LEQ:
			return scalar(t, Le(a, b))
		case token.GTR:
			return scalar(t, Lt(b, a))
		case token.GEQ:
			return scalar(t, Le(b, a))
		case token.AND:
			return scalar(t, bitAnd(a, b, k))
		case token.OR:
			return scalar(t, bitOr(a, b, k))
		case token.XOR:
			return scalar(t, bitXor(a, b, k))
		case token.AND_NOT:
			return scalar(t, Sub(a, bitAnd(a, b, k)))
		case token.SHL:
			return scalar(t, shiftL(a, b, k))
		case token.SHR:
			return scalar(t, shiftR(a, b, k))
		}
	case SStr:
		switch in.Op {
		case token.ADD:
			return scalar(t, Fn("str.cat_", SStr, a, b))
		case token.LSS:
			return scalar(t, Fn("str.lt_", SBool, a, b))
		case token.GTR:
			return scalar(t, Fn("str.lt_", SBool, b, a))
		}
	}
	panic(unsupported("binary " + in.Op.String()))
}

func fLt(p string, a, b *Term) *Term {
	if fIsInfPos(a) || fIsInfNeg(b) {
		return tFalse
	}
	return Fn(p+"lt", SBool, a, b)
}

func fLe(p string, a, b *Term) *Term { return Fn(p+"le", SBool, a, b) }

func fIsInfPos(t *Term) bool { return t.Op == "sym" && t.Name == "lit_f64_7ff0000000000000" }
func fIsInfNeg(t *Term) bool { return t.Op == "sym" && t.Name == "lit_f64_fff0000000000000" }

func goDivK(a, b *Term, k types.BasicKind) *Term {
	if isUnsigned(k) {
		return DivF(a, b)
	}
	return goDiv(a, b)
}

func goModK(a, b *Term, k types.BasicKind) *Term {
	if isUnsigned(k) {
		return ModF(a, b)
	}
	return goMod(a, b)
}

func isNilConst(x *Val) bool {
	if x.K == KScalar && x.Term != nil && x.Term.Op == "sym" && x.Term.Name == "any_nil" {
		return true
	}
	return false
}

func (v *V) equal(st *State, x, y *Val) *Term {
	if x.K == KDyn && isNilConst(y) || y.K == KDyn && isNilConst(x) {
		return tFalse
	}
	// slices, maps, funcs and pointers against nil
	if x.K == KSlice && y.K == KSlice {
		if isIntV(y.Arr, 0) && isIntV(y.Len, 0) {
			return Eq(x.Arr, Int(0))
		}
		if isIntV(x.Arr, 0) && isIntV(x.Len, 0) {
			return Eq(y.Arr, Int(0))
		}
		panic(unsupported("slice comparison"))
	}
	if x.K == KAddr && y.K == KPtr && isIntV(y.P, 0) || y.K == KAddr && x.K == KPtr && isIntV(x.P, 0) {
		return tFalse
	}
	if x.K == KClo || y.K == KClo {
		if x.K == KClo && x.Clo != nil && y.K == KScalar && isIntV(y.Term, 0) {
			return tFalse
		}
		if y.K == KClo && y.Clo != nil && x.K == KScalar && isIntV(x.Term, 0) {
			return tFalse
		}
	}
	if x.K == KScalar && y.K == KScalar {
		if x.Term.Sort == SF64 {
			return Fn("f64.eq", SBool, orderArgs(x.Term, y.Term)...)
		}
		if x.Term.Sort == SF32 {
			return Fn("f32.eq", SBool, orderArgs(x.Term, y.Term)...)
		}
		return Eq(x.Term, y.Term)
	}
	a, b := v.flatten(x), v.flatten(y)
	if len(a) != len(b) {
		panic(unsupported("comparison shapes"))
	}
	var cs []*Term
	for i := range a {
		if a[i].Sort == SF64 {
			cs = append(cs, Fn("f64.eq", SBool, orderArgs(a[i], b[i])...))
		} else {
			cs = append(cs, Eq(a[i], b[i]))
		}
	}
	return And(cs...)
}

func orderArgs(a, b *Term) []*Term {
	if a.id > b.id {
		a, b = b, a
	}
	return []*Term{a, b}
}

func (v *V) convert(st *State, x *Val, t types.Type, in *ssa.Convert) *Val {
	from, to := basicKind(x.T), basicKind(t)
	switch {
	case x.K == KScalar && x.Term.Sort == SInt && leavesOf(t)[0].Sort == SInt && len(leavesOf(t)) == 1:
		// integer to integer
		return scalar(t, convInt(x.Term, from, to))
	case x.K == KScalar && x.Term.Sort == SInt && (to == types.Float64 || to == types.Float32):
		if to == types.Float32 {
			return scalar(t, Fn("f32.of_int", SF32, x.Term))
		}
		return scalar(t, f64OfInt(x.Term))
	case x.K == KScalar && x.Term.Sort == SF64 && isIntKind(to):
		return scalar(t, intOfF64(x.Term, to))
	case x.K == KScalar && x.Term.Sort == SF32 && to == types.Float64:
		return scalar(t, f64OfF32(x.Term))
	case x.K == KScalar && x.Term.Sort == SF64 && to == types.Float32:
		return scalar(t, Fn("f32.of_f64", SF32, x.Term))
	case x.K == KScalar && x.Term.Sort == SF64 && to == types.Float64, x.K == KScalar && x.Term.Sort == SF32 && to == types.Float32:
		return scalar(t, x.Term)
	case x.K == KSlice && leavesOf(t)[0].Sort == SStr: // string([]byte)
		el := x.T.Underlying().(*types.Slice).Elem()
		m := v.getMem(st, memKey(x.Reg, el, ""), SInt)
		return scalar(t, Fn("str.of_seq", SStr, seqMk(SInt, Select(m, x.Arr), x.Off, x.Len)))
	case x.K == KScalar && x.Term.Sort == SStr: // []byte(string)
		if s, ok := t.Underlying().(*types.Slice); ok {
			id := v.newObj(st)
			reg := v.siteRegion(in, nil)
			el := s.Elem()
			key := memKey(reg, el, "")
			m := v.getMem(st, key, SInt)
			inner := Fn("str.bytes_", SArr(SInt, SInt), x.Term)
			st.mem[key] = Store(m, id, inner)
			n := strLen(x.Term)
			return mkSlice(t, id, Int(0), n, n, reg)
		}
	}
	panic(unsupported("conversion " + x.T.String() + " to " + t.String()))
}

func isIntKind(k types.BasicKind) bool {
	_, _, ok := intRange(k)
	return ok
}

func convInt(x *Term, from, to types.BasicKind) *Term {
	fl, fh, ok1 := intRange(from)
	tl, th, ok2 := intRange(to)
	if ok1 && ok2 && tl.Cmp(fl) <= 0 && fh.Cmp(th) <= 0 {
		return x
	}
	n := bitsOf(to)
	if n == 64 {
		if x.Op == "int" {
			return wrap64(x, to)
		}
		if from == types.Int || from == types.Int64 {
			// to unsigned: negative values wrap
			if nonNeg(x) {
				return x
			}
			return Ite(Le(Int(0), x), x, Add(x, IntB(Pow2(64))))
		}
		if isUnsigned(from) && bitsOf(from) == 64 {
			return Ite(Lt(x, IntB(Pow2(63))), x, Sub(x, IntB(Pow2(64))))
		}
		if isUnsigned(to) { // from a narrower signed type
			return Ite(Le(Int(0), x), x, Add(x, IntB(Pow2(64))))
		}
		return x
	}
	return wrap(x, to)
}

func wrap64(x *Term, to types.BasicKind) *Term {
	m := new(big.Int).Mod(x.Int, Pow2(64))
	if !isUnsigned(to) && m.Cmp(Pow2(63)) >= 0 {
		m.Sub(m, Pow2(64))
	}
	return IntB(m)
}

func f64OfInt(x *Term) *Term {
	if x.Op == "int" && x.Int.IsInt64() {
		i := x.Int.Int64()
		if i > -(1<<53) && i < 1<<53 {
			return F64Lit(float64(i))
		}
	}
	return Fn("f64.of_int", SF64, x)
}

func f64OfF32(x *Term) *Term {
	if b, ok := f32Lits[x.Name]; ok && x.Op == "sym" {
		return F64Lit(float64(floatFromBits32(b)))
	}
	return Fn("f64.of_f32", SF64, x)
}

func intOfF64(x *Term, to types.BasicKind) *Term {
	// literals
	if b, ok := f64Lits[x.Name]; ok && x.Op == "sym" {
		f := floatFromBits(b)
		if f == f && f > -1e15 && f < 1e15 {
			i := int64(f)
			t := Int(i)
			if r := inRange(t, to); r == tTrue {
				return t
			}
		}
	}
	// int(math.Ceil(float64(n) / 2^k)): exact in binary floating point for |n| < 2^53
	if x.Op == "app" && x.Name == "f64.ceil" && bitsOf(to) == 64 {
		d := x.Args[0]
		if d.Op == "app" && d.Name == "f64.div" && d.Args[0].Op == "app" && d.Args[0].Name == "f64.of_int" {
			if b, ok := f64Lits[d.Args[1].Name]; ok {
				c := floatFromBits(b)
				if c >= 1 && c <= 1<<30 && c == float64(int64(c)) && int64(c)&(int64(c)-1) == 0 {
					n := d.Args[0].Args[0]
					o := Fn(fmt.Sprintf("%s.of_f64", kindName(to)), SInt, x)
					return Ite(And(Lt(Int(-(1<<53)), n), Lt(n, Int(1<<53))), Sub(Int(0), DivF(Sub(Int(0), n), Int(int64(c)))), o)
				}
			}
		}
	}
	t := Fn(kindName(to)+".of_f64", SInt, x)
	if !t.bound {
		typeFact[t] = inRange(t, to)
		if isUnsigned(to) {
			B.nonneg[t] = true
		}
	}
	return t
}

func kindName(k types.BasicKind) string { return types.Typ[k].Name() }

func (v *V) typeAssert(fr *Frame, in *ssa.TypeAssert, st *State, k func(*State, *Val)) {
	x := v.get(fr, in.X, st)
	t := in.AssertedType
	if types.IsInterface(t) {
		if x.K == KDyn {
			ok := types.AssignableTo(x.Dyn.T, t)
			y := *x
			y.T = t
			if in.CommaOk {
				k(st, &Val{T: in.Type(), K: KFields, Sub: []*Val{&y, scalar(types.Typ[types.Bool], Bool(ok))}})
				return
			}
			if ok {
				k(st, &y)
				return
			}
		}
		panic(unsupported("assertion to interface"))
	}
	var ok *Term
	var val *Val
	if x.K == KDyn {
		if types.Identical(x.Dyn.T, t) {
			ok, val = tTrue, x.Dyn
		} else {
			ok, val = tFalse, zeroVal(t)
		}
	} else {
		ok = Eq(dynType(x.Term), typeTag(t))
	}
	if !in.CommaOk {
		v.oblige(st, "safety", "type assertion", in.Pos(), ok)
		if val == nil {
			val = v.unbox(x.Term, t)
		}
		k(st, val)
		return
	}
	mk := func(o bool, y *Val) *Val {
		return &Val{T: in.Type(), K: KFields, Sub: []*Val{y, scalar(types.Typ[types.Bool], Bool(o))}}
	}
	if d, known := st.decided(ok); known {
		if d {
			if val == nil {
				val = v.unbox(x.Term, t)
			}
			k(st, mk(true, val))
		} else {
			k(st, mk(false, zeroVal(t)))
		}
		return
	}
	v.countPath()
	s1 := st.copy()
	s1.assume(ok)
	st.assume(Not(ok))
	regs := copyRegs(fr)
	if v.feasible(s1) {
		k(s1, mk(true, v.unbox(x.Term, t)))
		fr.regs = regs
	}
	if v.feasible(st) {
		k(st, mk(false, zeroVal(t)))
	}
}
