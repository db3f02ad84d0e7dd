package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type FnResult struct {
	Key      string
	Obls     []*Obligation
	Notes    []string
	Trusted  []string
	Inlined  []string
	Dropped  []string
	Calls    []string
	Lemmas   []string
	Err      string
	Paths    int
	Restarts int
}

func NewV(P *Program, spec *Spec) *V {
	v := &V{P: P, spec: spec, heap: map[ssa.Instruction]bool{}, noRegion: map[string]bool{}}
	v.resetRun()
	return v
}

func (v *V) resetRun() {
	v.obls = nil
	v.dry = 0
	v.nframes, v.ncells = 0, 0
	v.paths, v.steps = 0, 0
	v.regions = map[string]bool{}
	v.trusted = map[string]bool{}
	v.calls = map[string]bool{}
	v.loopOrd = map[string]int{}
	v.loopInst = map[string]*LoopSpec{}
	v.notes = map[string]bool{}
	v.inlined = map[string]bool{}
	v.dropped = map[string]bool{}
	v.lemmasUsed = map[string]bool{}
	v.worker = nil
	v.frameTgt = nil
	v.workerEnv = nil
	v.ghosts = map[string]*Cell{}
	v.stop = nil
	v.ghostCells = map[string]*Cell{}
	v.workersDone = map[ssa.Instruction]bool{}
	v.chanSites = map[ssa.Instruction]*ChanInfo{}
}

var epochs int

// newState: an initial state; its memories have names of their own (their
// facts refer to its allocation bound)
func (v *V) newState() *State {
	epochs++
	epoch := fmt.Sprint(epochs)
	st := &State{cells: map[*Cell]*Val{}, mem: map[string]*Term{}, epoch: epoch, known: map[*Term]bool{},
		defers: map[*Frame][]deferred{}, chans: map[*Term]*ChanInfo{}, wgs: map[*Cell]*WG{}}
	v.alloc0 = Fresh("alloc0", SInt)
	st.alloc = v.alloc0
	B.nonneg[v.alloc0] = true
	typeFact[v.alloc0] = Le(Int(1), v.alloc0)
	return st
}

// VerifyFunction generates the obligations of fn against con. recvDyn: for
// interface contracts, the receiver parameter is presented as an interface
// value holding fn's receiver.
func VerifyFunction(P *Program, spec *Spec, fn *ssa.Function, con *Contract) (res *FnResult) {
	name := con.Key
	if con.Iface {
		name = fnKey(fn) + " : " + con.Key
		if fn.Synthetic != "" {
			name = fn.String() + " : " + con.Key
		}
	}
	res = &FnResult{Key: name}
	v := NewV(P, spec)
	v.fn, v.con, v.name = fn, con, name
	bvMode = con.Mode == "bv"
	defer func() { bvMode = false }()
	for try := 0; ; try++ {
		if try > 60 {
			res.Err = "too many restarts"
			break
		}
		again, err := v.attempt(func() { v.runTop(fn, con) })
		if again {
			res.Restarts++
			continue
		}
		res.Err = err
		break
	}
	res.fill(v)
	return res
}

func (res *FnResult) fill(v *V) {
	if res.Err != "" {
		v.obls = append(v.obls, &Obligation{Fn: v.name, Kind: "verifier", Label: "function within reach: " + res.Err, Pos: "?", Goal: tFalse, Result: "unsupported", Solver: "vcg"})
	}
	res.Obls = v.obls
	res.Notes = sortedKeys(v.notes)
	res.Trusted = sortedKeys(v.trusted)
	res.Inlined = sortedKeys(v.inlined)
	res.Dropped = sortedKeys(v.dropped)
	res.Calls = sortedKeys(v.calls)
	res.Lemmas = sortedKeys(v.lemmasUsed)
	res.Paths = v.paths
}

func (v *V) attempt(f func()) (again bool, err string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case restartErr:
				again = true
			case unsupportedErr:
				err = "unsupported: " + e.msg
			case specError:
				err = "specification: " + e.msg
			case nameErr:
				err = "specification: unknown name " + e.name
			default:
				if debugPanics {
					panic(r)
				}
				err = fmt.Sprintf("internal: %v", r)
			}
		}
	}()
	v.resetRun()
	f()
	return false, ""
}

var debugPanics = false

func (v *V) runTop(fn *ssa.Function, con *Contract) {
	st := v.newState()
	v.curLoops = nil
	for _, l := range con.Loops {
		ok := len(l.For) == 0
		for _, n := range l.For {
			if strings.HasPrefix(fnKey(fn), con.Pkg+".(*"+n+").") {
				ok = true
			}
		}
		if ok {
			v.curLoops = append(v.curLoops, l)
		}
	}
	env := map[string]*Val{}
	var args []*Val
	params := fn.Params
	if len(con.Params) != len(params) {
		panic(unsupported(fmt.Sprintf("contract %s names %d parameters, the function has %d", con.Key, len(con.Params), len(params))))
	}
	for i, p := range params {
		reg := con.Regions[con.Params[i]]
		if reg != "" {
			reg = "$" + reg
			v.regions[reg] = true
		}
		x := v.freshVal("p_"+con.Params[i], p.Type(), reg, v.alloc0)
		args = append(args, x)
		if con.Iface && i == 0 {
			env[con.Params[i]] = &Val{T: anyType, K: KDyn, Dyn: x}
			if x.K == KPtr {
				st.assume(Not(Eq(x.P, Int(0))))
			}
		} else {
			env[con.Params[i]] = x
		}
	}
	pre := &Ctx{v: v, st: st, old: st, env: env, pkg: con.Pkg}
	for _, r := range con.Requires {
		st.assume(pre.Bool(r.E))
	}
	for _, r := range con.Given {
		v.trusted["given, not an obligation of callers: "+con.Key+" ["+r.Label+"]"] = true
		st.assume(pre.Bool(r.E))
	}
	// facts about regions: the object ids of separate regions are unrelated
	v.entry = st.copy()
	v.entryEnv = env
	// make entry memory symbols persist
	v.entry.mem = map[string]*Term{}
	pre.st = st
	pre.old = v.entry
	for _, u := range con.Uses {
		v.guard("use "+u.String(), func() { st.assume(pre.Bool(u)) })
	}
	if con.Dec != nil {
		v.dec0 = pre.Int(con.Dec)
	} else {
		v.dec0 = nil
	}
	// vacuity guard: the preconditions are satisfiable
	if v.dry == 0 {
		v.obls = append(v.obls, &Obligation{Fn: v.name, Kind: "reach", Label: "preconditions are satisfiable", Pos: posStr(v.P.fset, fn.Pos()), Pc: st.pc, Goal: tFalse, Expect: "sat", Mode: con.Mode})
	}
	nret := 0
	v.runFunc(fn, args, nil, nil, "", st, func(st2 *State, res []*Val) {
		nret++
		v.checkReturn(fn, con, st2, res, env)
	})
	if nret == 0 {
		v.notes["no path returns"] = true
	}
}

func (v *V) checkReturn(fn *ssa.Function, con *Contract, st *State, res []*Val, env map[string]*Val) {
	if v.dry > 0 {
		return
	}
	if len(st.gor) > 0 {
		v.oblige(st, "concurrency", "goroutines are still running at return", fn.Pos(), tFalse)
	}
	c := &Ctx{v: v, st: st, old: v.entry, env: map[string]*Val{}, olde: env, pkg: con.Pkg}
	for n, x := range env {
		c.env[n] = x
	}
	for i := range res {
		name := fmt.Sprintf("res%d", i)
		if i < len(con.Results) {
			name = con.Results[i]
		}
		x := res[i]
		// results leave the function: force them into flattened form
		if x.K == KAddr || x.K == KSlice && x.Reg != "" && !v.regions[x.Reg] || x.K == KFields {
			fl := v.flatten(x)
			if _, isSl := x.T.Underlying().(*types.Slice); isSl && x.K == KFields {
				x = v.litToMem(st, x, nil, nil)
			} else {
				x = unflatten(x.T, fl, "")
			}
		}
		if x.K == KDyn {
			v.flatten(x)
		}
		c.env[name] = x
	}
	pos := fn.Pos()
	for _, u := range con.Uses {
		v.guard("use at return "+u.String(), func() { st.assume(c.Bool(u)) })
	}
	for _, a := range con.Asserts {
		a := a
		var t *Term
		if v.guard("assert "+a.Label, func() { t = c.Bool(a.E) }) {
			v.obligeP(st, "assertion", a.Label, pos, t, a.Props)
		}
	}
	for _, e := range con.Ensures {
		v.obligeP(st, "postcondition", e.Label, pos, c.Bool(e.E), e.Props)
	}
	v.checkFrame(con, st, c, pos)
}

// checkFrame: memory that existed at entry and is not listed stays unchanged
func (v *V) checkFrame(con *Contract, st *State, c *Ctx, pos token.Pos) {
	if con.ModAll {
		return
	}
	targets := v.frameTargets()
	for _, key := range sortedKeys(st.mem) {
		reg := key[:strings.Index(key, "|")]
		if strings.HasPrefix(reg, "@") {
			continue // objects of this function only
		}
		cur := st.mem[key]
		base, ok := v.entry.mem[key]
		if !ok {
			base = baseMem(cur)
			if base.Op != "sym" || strings.Contains(base.Name, "!") {
				panic(unsupported("entry memory of " + key))
			}
			v.entry.mem[key] = base
		}
		if cur == base || v.onlyFresh(cur, base) {
			continue
		}
		a := Fresh("frame_a", SInt)
		hyp := []*Term{Le(Int(0), a), Lt(a, v.alloc0)}
		inner := arrElem(cur.Sort)
		if strings.HasPrefix(key, "|map:") {
			for _, t := range targets[key] {
				hyp = append(hyp, Not(Eq(a, t.arr)))
			}
			v.oblige(st, "frame", "only listed memory changes: "+key, pos, Implies(And(hyp...), Eq(Select(cur, a), Select(base, a))))
			continue
		}
		_ = inner
		i := Fresh("frame_i", SInt)
		for _, t := range targets[key] {
			if t.lo == nil {
				hyp = append(hyp, Not(Eq(a, t.arr)))
			} else {
				hyp = append(hyp, Not(And(Eq(a, t.arr), Le(t.lo, i), Lt(i, t.hi))))
			}
		}
		v.oblige(st, "frame", "only listed memory changes: "+key, pos, Implies(And(hyp...), Eq(Select(Select(cur, a), i), Select(Select(base, a), i))))
	}
}

// onlyFresh: every store since base hits an object created by this function
func (v *V) onlyFresh(t, base *Term) bool {
	for t != base {
		switch {
		case t.Op == "app" && t.Name == "store":
			if !freshSince(t.Args[1], v.alloc0) {
				return false
			}
			t = t.Args[0]
		default:
			return false
		}
	}
	return true
}

// ---- lemmas ------------------------------------------------------------------------

func VerifyLemma(P *Program, spec *Spec, l *Lemma) (res *FnResult) {
	res = &FnResult{Key: "lemma " + l.Name}
	v := NewV(P, spec)
	v.name = res.Key
	v.lemma = l
	bvMode = l.Mode == "bv"
	defer func() { bvMode = false }()
	again, err := v.attempt(func() {
		st := v.newState()
		env := map[string]*Val{}
		for _, p := range l.Params {
			x := v.freshVal("l_"+p.Name, P.specType(p.T, l.Pkg), "", v.alloc0)
			if x.K == KSlice {
				// lemmas depend on the contents of slices only, so the
				// elements may be taken to start at index 0
				y := *x
				y.Off = Int(0)
				x = &y
			}
			env[p.Name] = x
		}
		v.entry = st
		v.lemmaEnv = env
		c := &Ctx{v: v, st: st, old: st, env: env, pkg: l.Pkg}
		for _, r := range l.Requires {
			st.assume(c.Bool(r))
		}
		if l.Dec != nil {
			v.dec0 = c.Int(l.Dec)
		}
		v.obls = append(v.obls, &Obligation{Fn: v.name, Kind: "reach", Label: "hypotheses are satisfiable", Pos: fmt.Sprintf("%s:%d", l.Tok.File, l.Tok.Line), Pc: st.pc, Goal: tFalse, Expect: "sat", Mode: l.Mode})
		for _, u := range l.Uses {
			st.assume(c.Bool(u))
		}
		for _, x := range l.Ensures {
			g := c.Bool(x)
			var cases []*Term
			rest := tTrue
			for _, cs := range l.Cases {
				t := c.Bool(cs)
				cases = append(cases, And(rest, t))
				rest = And(rest, Not(t))
			}
			if len(cases) == 0 {
				v.obls = append(v.obls, &Obligation{Fn: v.name, Kind: "lemma", Label: x.String(), Pos: fmt.Sprintf("%s:%d", l.Tok.File, l.Tok.Line), Pc: st.pc, Goal: g, Mode: l.Mode})
			} else {
				for i, cs := range append(cases, rest) {
					v.obls = append(v.obls, &Obligation{Fn: v.name, Kind: "lemma", Label: fmt.Sprintf("%s case %d", x.String(), i), Pos: fmt.Sprintf("%s:%d", l.Tok.File, l.Tok.Line), Pc: st.pc, Goal: Implies(cs, g), Mode: l.Mode})
				}
			}
			st.assume(g)
		}
	})
	if again {
		err = "restart in lemma"
	}
	res.Err = err
	res.fill(v)
	return res
}

// implementers of an interface contract: all module types with the method
func (P *Program) implementers(con *Contract) []*ssa.Function {
	sp := P.pkgs[con.Pkg]
	if sp == nil {
		return nil
	}
	tm, ok := sp.Members[con.Recv].(*ssa.Type)
	if !ok {
		return nil
	}
	it, ok := tm.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	var names []string
	byName := map[string]*ssa.Function{}
	for _, pk := range sortedKeys(P.pkgs) {
		for _, mn := range sortedMembers(P.pkgs[pk]) {
			t, ok := P.pkgs[pk].Members[mn].(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if !types.Implements(ty, it) {
					continue
				}
				sel := P.prog.MethodSets.MethodSet(ty).Lookup(sp.Pkg, con.Name)
				if sel == nil {
					continue
				}
				f := P.prog.MethodValue(sel)
				if f == nil {
					continue
				}
				n := ty.String()
				// a value-receiver method serves both T and *T: check once
				if _, isPtr := ty.(*types.Pointer); isPtr && types.Implements(t.Type(), it) {
					continue
				}
				if _, dup := byName[n]; !dup {
					names = append(names, n)
					byName[n] = f
				}
			}
		}
	}
	sort.Strings(names)
	for _, n := range names {
		out = append(out, byName[n])
	}
	return out
}

func sortedMembers(p *ssa.Package) []string {
	var out []string
	for n := range p.Members {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
