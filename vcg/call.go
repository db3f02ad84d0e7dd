package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (v *V) call(fr *Frame, in *ssa.Call, c *ssa.CallCommon, st *State, k Cont) {
	var args []*Val
	for _, a := range c.Args {
		args = append(args, v.get(fr, a, st))
	}
	var f *Val
	if c.IsInvoke() {
		f = v.get(fr, c.Value, st)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		if c.StaticCallee() == nil || c.StaticCallee().Parent() != nil {
			f = v.get(fr, c.Value, st)
		}
	}
	v.callWith(fr, in, c, f, args, st, k)
}

func (v *V) callWith(fr *Frame, in ssa.CallInstruction, c *ssa.CallCommon, f *Val, args []*Val, st *State, k Cont) {
	pos := in.Pos()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		r := v.builtin(fr, in, b, c, args, st)
		if r == nil {
			k(st, nil)
		} else {
			k(st, []*Val{r})
		}
		return
	}
	if c.IsInvoke() {
		v.invoke(fr, in, c, f, args, st, k)
		return
	}
	if f != nil && f.K == KClo && f.Clo != nil {
		fn := f.Clo.Fn
		if f.Clo.Recv != nil {
			args = append([]*Val{f.Clo.Recv}, args...)
		}
		if fn.Parent() != nil {
			v.inlineCall(fr, in, fn, args, f.Clo.Bind, st, k)
			return
		}
		v.static(fr, in, fn, args, st, k)
		return
	}
	if fn := c.StaticCallee(); fn != nil {
		v.static(fr, in, fn, args, st, k)
		return
	}
	_ = pos
	panic(unsupported("dynamic call in " + fr.fn.String()))
}

func (v *V) inlineCall(fr *Frame, in ssa.CallInstruction, fn *ssa.Function, args, binds []*Val, st *State, k Cont) {
	v.inlined[fnKey(fn)] = true
	site := fmt.Sprintf("%s/%s:%d.%d", fr.site, fr.fn.Name(), in.Block().Index, instrIndex(in))
	v.runFunc(fn, args, binds, fr, site, st, k)
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func (v *V) static(fr *Frame, in ssa.CallInstruction, fn *ssa.Function, args []*Val, st *State, k Cont) {
	key := fnKey(fn)
	if con := v.contractFor(fn); con != nil && !con.Inline {
		v.applyContract(con, fn.Signature, args, st, in.Pos(), k, fn)
		return
	}
	if inModule(fn) {
		if fn.Blocks == nil {
			panic(unsupported("no body for " + key))
		}
		v.inlineCall(fr, in, fn, args, nil, st, k)
		return
	}
	v.libCall(fr, in, fn, args, st, k)
}

func (v *V) contractFor(fn *ssa.Function) *Contract {
	if c, ok := v.P.bound[fn]; ok {
		return c
	}
	return nil
}

// bindContracts attaches the contracts to the functions of the program
func (P *Program) bindContracts(spec *Spec) []string {
	var missing []string
	P.bound = map[*ssa.Function]*Contract{}
	taken := map[*ssa.Function]bool{}
	for _, k := range spec.Order {
		c := spec.Contracts[k]
		if c.Iface {
			continue
		}
		if f, ok := P.funcs[k]; ok && len(f.Params) == len(c.Params) && (len(c.Results) == 0 || f.Signature.Results().Len() == len(c.Results)) {
			P.bound[f] = c
			c.Fn = f
			taken[f] = true
		}
	}
	for _, k := range spec.Order {
		c := spec.Contracts[k]
		if c.Iface || c.Fn != nil {
			continue
		}
		// renamed: the only function without contract with the same receiver,
		// package, parameter and result counts as a function of that name had
		var cand []*ssa.Function
		for _, n := range sortedKeys(P.funcs) {
			f := P.funcs[n]
			if taken[f] || f.Parent() != nil || spec.Contracts[n] != nil || f.Pkg == nil || f.Pkg.Pkg.Name() != c.Pkg || f.Blocks == nil {
				continue
			}
			if len(f.Params) != len(c.Params) || f.Signature.Results().Len() != len(c.Results) || recvText(f) != c.Recv || !P.paramNamesMatch(f, c) {
				continue
			}
			cand = append(cand, f)
		}
		if len(cand) == 1 {
			P.bound[cand[0]] = c
			c.Fn = cand[0]
			taken[cand[0]] = true
			P.renamed = append(P.renamed, k+" is "+fnKey(cand[0]))
			continue
		}
		missing = append(missing, k)
	}
	return missing
}

func recvText(f *ssa.Function) string {
	r := f.Signature.Recv()
	if r == nil {
		return ""
	}
	t := r.Type()
	s := ""
	if p, ok := t.(*types.Pointer); ok {
		s, t = "*", p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return s + n.Obj().Name()
	}
	return "?"
}

// paramNamesMatch: most parameters keep the names that the contract uses
func (P *Program) paramNamesMatch(f *ssa.Function, c *Contract) bool {
	n := 0
	for i, p := range f.Params {
		if p.Name() == c.Params[i] {
			n++
		}
	}
	return 2*n >= len(f.Params)
}

func (v *V) invoke(fr *Frame, in ssa.CallInstruction, c *ssa.CallCommon, recv *Val, args []*Val, st *State, k Cont) {
	m := c.Method
	if recv.K == KDyn {
		t := recv.Dyn.T
		sel := v.P.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			panic(unsupported("method " + m.Name() + " of " + t.String()))
		}
		fn := v.P.prog.MethodValue(sel)
		if fn == nil {
			panic(unsupported("method " + m.Name() + " of " + t.String()))
		}
		v.static(fr, in, fn, append([]*Val{recv.Dyn}, args...), st, k)
		return
	}
	v.oblige(st, "safety", "method call on nil interface "+m.Name(), in.Pos(), Not(Eq(recv.Term, zeroLeaf(SAny))))
	it := c.Value.Type()
	if con := v.ifaceContract(it, m.Name()); con != nil {
		v.applyContract(con, m.Type().(*types.Signature), append([]*Val{recv}, args...), st, in.Pos(), k, nil)
		return
	}
	if v.libInvoke(fr, in, it, m, recv, args, st, k) {
		return
	}
	panic(unsupported("call through interface " + it.String() + "." + m.Name()))
}

func (v *V) ifaceContract(t types.Type, name string) *Contract {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	return v.spec.Contracts[n.Obj().Pkg().Name()+"."+n.Obj().Name()+"."+name]
}

// ---- contract application ---------------------------------------------------------

func (v *V) applyContract(con *Contract, sig *types.Signature, args []*Val, st *State, pos token.Pos, k Cont, fn *ssa.Function) {
	v.calls[con.Key] = true
	if con.NoCheck != "" {
		v.trusted[con.Key+": "+con.NoCheck] = true
	}
	env := map[string]*Val{}
	if len(con.Params) != len(args) {
		panic(unsupported(fmt.Sprintf("contract %s has %d parameters, call has %d", con.Key, len(con.Params), len(args))))
	}
	for i, p := range con.Params {
		a := args[i]
		if a.K == KFields {
			if _, ok := a.T.Underlying().(*types.Slice); ok {
				a = v.litToMem(st, a, nil, nil)
			}
		}
		env[p] = a
	}
	// separation of slice arguments
	v.checkRegions(con, env, st, pos)
	pre := &Ctx{v: v, st: st, old: st, env: env, pkg: con.Pkg}
	for _, r := range con.Requires {
		v.oblige(st, "precondition of "+con.Key, r.Label, pos, pre.Bool(r.E))
	}
	given := tTrue
	for _, r := range con.Given {
		given = And(given, pre.Bool(r.E))
	}
	if v.con == con && con.Dec != nil && v.dec0 != nil {
		d := pre.Int(con.Dec)
		v.oblige(st, "recursion decreases", con.Key, pos, And(Le(Int(0), d), Lt(d, v.dec0)))
	} else if v.con != nil && v.con == con {
		v.notes["termination of the recursion in "+con.Key+" is not proved"] = true
	}
	old := st.copy()
	if !con.Pure {
		v.bumpAlloc(st)
		v.applyModifies(con, env, st, old, pos)
	}
	// results
	var res []*Val
	post := &Ctx{v: v, st: st, old: old, env: map[string]*Val{}, olde: env, pkg: con.Pkg}
	for n, x := range env {
		post.env[n] = x
	}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		name := fmt.Sprintf("res%d", i)
		if i < len(con.Results) {
			name = con.Results[i]
		}
		x := v.freshVal(con.Name+"."+name, t, "", st.alloc)
		if x.K == KSlice && x.LArr == nil && given == tTrue && statesZeroOffset(con, name) {
			y := *x
			y.Off = Int(0)
			x = &y
		}
		res = append(res, x)
		post.env[name] = x
	}
	for _, e := range con.Ensures {
		st.assume(Implies(given, post.Bool(e.E)))
	}
	k(st, res)
}

// statesZeroOffset: one of the postconditions is off(name) == 0
func statesZeroOffset(con *Contract, name string) bool {
	for _, e := range con.Ensures {
		x := e.E
		if x.Op == "bin" && x.Name == "==" && x.Args[0].Op == "call" && x.Args[0].Name == "off" &&
			len(x.Args[0].Args) == 1 && x.Args[0].Args[0].Op == "id" && x.Args[0].Args[0].Name == name && x.Args[1].String() == "0" {
			return true
		}
	}
	return false
}

func (v *V) checkRegions(con *Contract, env map[string]*Val, st *State, pos token.Pos) {
	if len(con.Regions) == 0 {
		return
	}
	modified := map[string]bool{}
	for _, m := range con.Modifies {
		modified[rootName(m)] = true
	}
	regs := map[string]string{}
	for p := range con.Regions {
		a := env[p]
		if a == nil || a.K != KSlice {
			continue
		}
		if isIntV(a.Arr, 0) {
			continue
		}
		if modified[p] {
			if a.Reg == "" {
				v.oblige(st, "separation", "argument "+p+" of "+con.Key+" may share memory with other data", pos, tFalse)
			}
			for q, r := range regs {
				if r == a.Reg {
					v.oblige(st, "separation", "arguments "+p+" and "+q+" of "+con.Key+" are separate", pos, Not(Eq(a.Arr, env[q].Arr)))
				}
			}
		} else {
			for q := range con.Regions {
				if modified[q] && env[q] != nil && env[q].K == KSlice && env[q].Reg == a.Reg && q != p {
					v.oblige(st, "separation", "arguments "+p+" and "+q+" of "+con.Key+" are separate", pos, Not(Eq(a.Arr, env[q].Arr)))
				}
			}
		}
		if modified[p] {
			regs[p] = a.Reg
		}
	}
}

func rootName(e *Expr) string {
	for {
		switch e.Op {
		case "id":
			return e.Name
		case "field", "index", "range", "slice", "un":
			e = e.Args[0]
		default:
			return ""
		}
	}
}

// modTarget describes one modifies clause
type modTarget struct {
	keys []string // memory keys (or nil)
	leaf []Leaf
	arr  *Term
	lo   *Term // nil: the whole object
	hi   *Term
	cell *Addr
}

func (v *V) modTargets(c *Ctx, e *Expr) []*modTarget {
	switch e.Op {
	case "call":
		if e.Name == "stream" {
			v.streamMem(c.st)
			return []*modTarget{{keys: []string{streamKey}, leaf: []Leaf{streamLeaf}, arr: v.streamID(c.eval(e.Args[0])), lo: Int(0), hi: Int(1)}}
		}
	case "range":
		x := c.eval(e.Args[0])
		lo, hi := c.Int(e.Args[1]), c.Int(e.Args[2])
		el := x.T.Underlying().(*types.Slice).Elem()
		t := &modTarget{arr: x.Arr, lo: Add(x.Off, lo), hi: Add(x.Off, hi)}
		for _, l := range leavesOf(el) {
			t.keys = append(t.keys, memKey(x.Reg, el, l.Path))
			t.leaf = append(t.leaf, l)
		}
		return []*modTarget{t}
	case "un":
		if e.Name == "*" {
			x := c.eval(e.Args[0])
			a := v.ptrAddr(c.st, x)
			return []*modTarget{v.addrTarget(a)}
		}
	}
	if e.Op == "field" {
		// a field of a local object that never left the stack
		if a, x := c.lv(e.Args[0]); a == nil && x.K == KAddr && x.Addr.Cell != nil {
			ad := *x.Addr
			i := fieldIndex(x.T.Underlying().(*types.Pointer).Elem(), e.Name)
			if i < 0 {
				c.fail(e, "no field %s in %s", e.Name, x.T)
			}
			ad.Path = append(append([]PE{}, ad.Path...), PE{Field: i})
			return []*modTarget{{cell: &ad}}
		}
	}
	a, x := c.lv(e)
	if a != nil {
		return []*modTarget{v.addrTarget(a)}
	}
	if x.K == KSlice {
		el := x.T.Underlying().(*types.Slice).Elem()
		t := &modTarget{arr: x.Arr}
		for _, l := range leavesOf(el) {
			t.keys = append(t.keys, memKey(x.Reg, el, l.Path))
			t.leaf = append(t.leaf, l)
		}
		return []*modTarget{t}
	}
	if mt, ok := x.T.Underlying().(*types.Map); ok {
		t := &modTarget{arr: x.Term}
		v.mapMem(c.st, mt, "?has", SBool)
		t.keys = append(t.keys, mapMemKey(mt, "?has"))
		t.leaf = append(t.leaf, Leaf{Sort: SBool})
		for _, l := range leavesOf(mt.Elem()) {
			v.mapMem(c.st, mt, l.Path, l.Sort)
			t.keys = append(t.keys, mapMemKey(mt, l.Path))
			t.leaf = append(t.leaf, l)
		}
		return []*modTarget{t}
	}
	c.fail(e, "cannot be modified")
	return nil
}

func (v *V) addrTarget(a *Addr) *modTarget {
	if a.Cell != nil {
		return &modTarget{cell: a}
	}
	t := &modTarget{arr: a.Arr, lo: a.Idx, hi: Add(a.Idx, Int(1))}
	pre := ""
	for _, p := range a.Path {
		if p.Field < 0 {
			panic(unsupported("modifies array element"))
		}
	}
	ty := a.Elem
	for _, p := range a.Path {
		f := ty.Underlying().(*types.Struct).Field(p.Field)
		pre += "." + f.Name()
		ty = f.Type()
	}
	for _, l := range leavesOf(ty) {
		t.keys = append(t.keys, memKey(a.Reg, a.Elem, pre+l.Path))
		t.leaf = append(t.leaf, l)
	}
	return t
}

func (v *V) applyModifies(con *Contract, env map[string]*Val, st, old *State, pos token.Pos) {
	if con.ModAll {
		panic(unsupported("modifies everything at a call"))
	}
	c := &Ctx{v: v, st: old, old: old, env: env, pkg: con.Pkg}
	for _, m := range con.Modifies {
		for _, t := range v.modTargets(c, m) {
			if t.cell != nil {
				cur := v.load(st, t.cell)
				v.store(st, t.cell, v.freshVal(t.cell.Cell.Name, cur.T, "", st.alloc))
				continue
			}
			for i, key := range t.keys {
				if !strings.HasPrefix(key, "|map:") {
					noteKey(key, t.leaf[i])
				}
				mem, ok := st.mem[key]
				if !ok {
					mem = v.getMem(st, key, t.leaf[i].Sort)
				}
				inner := Select(mem, t.arr)
				nw := v.freshInner(key, inner.Sort, st.alloc)
				if t.lo != nil {
					if t.hi == Add(t.lo, Int(1)) {
						x := v.freshLeaf("mod", t.leaf[i], st.alloc)
						nw = Store(inner, t.lo, x)
					} else {
						j := BoundVar("j", SInt)
						st.assume(Forall([]*Term{j}, Implies(Or(Lt(j, t.lo), Le(t.hi, j)), Eq(Select(nw, j), Select(inner, j))), []*Term{Select(nw, j)}))
					}
				}
				st.mem[key] = Store(mem, t.arr, nw)
				if v.worker != nil {
					v.worker.writeRange(v, st, key, t.arr, t.lo, t.hi)
				} else if len(st.gor) > 0 {
					v.raceCheck(st, key, pos)
				}
			}
		}
	}
}

// ---- builtins ---------------------------------------------------------------------

func (v *V) builtin(fr *Frame, in ssa.CallInstruction, b *ssa.Builtin, c *ssa.CallCommon, args []*Val, st *State) *Val {
	switch b.Name() {
	case "ssa:deferstack":
		return &Val{T: in.(*ssa.Call).Type(), K: KScalar, Term: Int(0)}
	case "len":
		x := args[0]
		switch u := x.T.Underlying().(type) {
		case *types.Slice:
			if x.K == KFields {
				return intV(Int(int64(len(x.Sub))))
			}
			return intV(x.Len)
		case *types.Basic:
			return intV(strLen(x.Term))
		case *types.Array:
			return intV(Int(u.Len()))
		case *types.Pointer:
			return intV(Int(u.Elem().Underlying().(*types.Array).Len()))
		}
	case "cap":
		if args[0].K == KSlice {
			return intV(args[0].Cap)
		}
	case "append":
		return v.appendTo(fr, in, args, st)
	case "copy":
		dst, src := args[0], args[1]
		if dst.K == KSlice && src.K == KSlice {
			n := Ite(Le(dst.Len, src.Len), dst.Len, src.Len)
			v.copyRange(st, dst, Int(0), src, n)
			return intV(n)
		}
	case "close":
		v.closeChan(st, args[0], in.Pos())
		return nil
	case "print", "println":
		return nil
	case "delete":
		mt := args[0].T.Underlying().(*types.Map)
		kt := mapKeyTerm(v, mt, args[1])
		m := v.mapMem(st, mt, "?has", SBool)
		id := args[0].Term
		st.mem[mapMemKey(mt, "?has")] = Store(m, id, Store(Select(m, id), kt, tFalse))
		v.noteWrite(st, mapMemKey(mt, ""), id, nil)
		return nil
	case "min", "max":
		if len(args) == 2 && args[0].Term != nil && args[0].Term.Sort == SInt {
			a, c := args[0].Term, args[1].Term
			if b.Name() == "min" {
				return scalar(args[0].T, Ite(Le(a, c), a, c))
			}
			return scalar(args[0].T, Ite(Le(a, c), c, a))
		}
	}
	panic(unsupported("builtin " + b.Name()))
}

// copyRange writes src[0..n) over dst[at..at+n)
func (v *V) copyRange(st *State, dst *Val, at *Term, src *Val, n *Term) {
	el := dst.T.Underlying().(*types.Slice).Elem()
	for _, l := range leavesOf(el) {
		kd, ks := memKey(dst.Reg, el, l.Path), memKey(src.Reg, el, l.Path)
		noteKey(kd, l)
		noteKey(ks, l)
		md, ms := v.getMem(st, kd, l.Sort), v.getMem(st, ks, l.Sort)
		od, os := Select(md, dst.Arr), Select(ms, src.Arr)
		nw := v.freshInner(kd, od.Sort, st.alloc)
		j := BoundVar("j", SInt)
		lo := Add(dst.Off, at)
		st.assume(Forall([]*Term{j}, Eq(Select(nw, j), Ite(And(Le(lo, j), Lt(j, Add(lo, n))), Select(os, Add(src.Off, Sub(j, lo))), Select(od, j))), []*Term{Select(nw, j)}))
		st.mem[kd] = Store(md, dst.Arr, nw)
		if v.worker != nil {
			v.worker.writeRange(v, st, kd, dst.Arr, lo, Add(lo, n))
		}
	}
}

func (v *V) appendTo(fr *Frame, in ssa.CallInstruction, args []*Val, st *State) *Val {
	s, xs := args[0], args[1]
	t := s.T
	el := t.Underlying().(*types.Slice).Elem()
	if s.K == KFields {
		s = v.litToMem(st, s, in, fr)
	}
	reg := s.Reg
	isNil := isIntV(s.Arr, 0)
	if isNil {
		reg = v.siteRegion(in, fr)
	}
	var k *Term
	lit := xs.K == KFields
	if lit {
		k = Int(int64(len(xs.Sub)))
	} else if xs.K == KSlice {
		k = xs.Len
	} else if xs.K == KScalar && xs.Term.Sort == SStr {
		k = strLen(xs.Term)
	} else {
		panic(unsupported("append operands"))
	}
	nl := Add(s.Len, k)
	id := v.newObj(st)
	grow := Not(Le(nl, s.Cap))
	if isNil {
		grow = Not(Eq(k, Int(0)))
		if k.Op == "int" {
			grow = Bool(k.Int.Sign() > 0)
		}
	}
	if d, ok := st.decided(grow); ok {
		grow = Bool(d)
	}
	arr := Ite(grow, id, s.Arr)
	ncap := Fresh("cap", SInt)
	B.nonneg[ncap] = true
	typeFact[ncap] = Le(Int(0), ncap)
	st.assume(Le(nl, ncap))
	c := Ite(grow, ncap, s.Cap)
	off := s.Off
	if isNil {
		off = Int(0)
	}
	srcReg := reg
	if isNil {
		srcReg = s.Reg
	}
	_ = srcReg
	var fields [][]*Term
	if lit {
		for _, x := range xs.Sub {
			fields = append(fields, v.flatten(x))
		}
	}
	for i, l := range leavesOf(el) {
		key := memKey(reg, el, l.Path)
		noteKey(key, l)
		m := v.getMem(st, key, l.Sort)
		inner := Select(m, s.Arr)
		if lit {
			for j := range fields {
				inner = Store(inner, Add(Add(off, s.Len), Int(int64(j))), fields[j][i])
			}
		} else {
			nw := v.freshInner(key, inner.Sort, st.alloc)
			j := BoundVar("j", SInt)
			lo := Add(off, s.Len)
			var src *Term
			if xs.K == KSlice {
				ms := v.getMem(st, memKey(xs.Reg, el, l.Path), l.Sort)
				src = Select(Select(ms, xs.Arr), Add(xs.Off, Sub(j, lo)))
			} else {
				src = strAt(xs.Term, Sub(j, lo))
			}
			st.assume(Forall([]*Term{j}, Eq(Select(nw, j), Ite(And(Le(lo, j), Lt(j, Add(lo, k))), src, Select(inner, j))), []*Term{Select(nw, j)}))
			inner = nw
		}
		st.mem[key] = Store(m, arr, inner)
		if !isNil || grow != tTrue {
			v.noteWrite(st, key, arr, nil)
		}
	}
	r := mkSlice(t, arr, off, nl, c, reg)
	noteSlice(r)
	st.assume(Implies(And(Not(grow), Lt(Int(0), k)), Not(Eq(s.Arr, Int(0)))))
	return r
}
