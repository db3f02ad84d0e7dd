package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type PC struct {
	t    *Term
	next *PC
	n    int
}

func (p *PC) list() []*Term {
	var out []*Term
	for q := p; q != nil; q = q.next {
		out = append(out, q.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type deferred struct {
	call *ssa.Defer
	fn   *Val
	args []*Val
}

type State struct {
	cells  map[*Cell]*Val
	mem    map[string]*Term
	epoch  string
	alloc  *Term
	pc     *PC
	known  map[*Term]bool
	loops  []*LoopCtx
	defers map[*Frame][]deferred
	gor    []*Spawn
	chans  map[*Term]*ChanInfo
	wgs    map[*Cell]*WG
}

func (s *State) copy() *State {
	n := &State{epoch: s.epoch, alloc: s.alloc, pc: s.pc}
	n.cells = make(map[*Cell]*Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.mem = make(map[string]*Term, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.known = make(map[*Term]bool, len(s.known))
	for k, v := range s.known {
		n.known[k] = v
	}
	n.loops = append([]*LoopCtx{}, s.loops...)
	n.defers = make(map[*Frame][]deferred, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = append([]deferred{}, v...)
	}
	n.gor = append([]*Spawn{}, s.gor...)
	n.chans = map[*Term]*ChanInfo{}
	for k, v := range s.chans {
		c := *v
		n.chans[k] = &c
	}
	n.wgs = map[*Cell]*WG{}
	for k, v := range s.wgs {
		c := *v
		n.wgs[k] = &c
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == tTrue || s.known[t] {
		return
	}
	if t.Op == "app" && t.Name == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	s.known[t] = true
	n := 0
	if s.pc != nil {
		n = s.pc.n
	}
	s.pc = &PC{t, s.pc, n + 1}
}

// decided reports whether a condition is syntactically known on the path
func (s *State) decided(t *Term) (bool, bool) {
	if t == tTrue {
		return true, true
	}
	if t == tFalse {
		return false, true
	}
	if s.known[t] {
		return true, true
	}
	if s.known[Not(t)] {
		return false, true
	}
	if t.Op == "app" && t.Name == "<=" {
		if s.known[Lt(t.Args[1], t.Args[0])] {
			return false, true
		}
		if s.known[Lt(t.Args[0], t.Args[1])] {
			return true, true
		}
	}
	if t.Op == "app" && t.Name == "<" {
		if s.known[Le(t.Args[1], t.Args[0])] {
			return false, true
		}
	}
	return false, false
}

type Frame struct {
	id     int
	fn     *ssa.Function
	regs   map[ssa.Value]*Val
	cells  map[*ssa.Alloc]*Cell
	parent *Frame
	site   string // inline path
	con    *Contract
	depth  int
	binds  []*Val
	info   *LoopInfo
	params []*Val
}

// ---- memory ----------------------------------------------------------------

func memKey(reg string, elem types.Type, path string) string {
	return reg + "|" + typeName(elem) + "|" + path
}

var memAllocBound = map[*Term]*Term{} // base memory symbol -> alloc bound of object ids stored in it
var keyLeaf = map[string]Leaf{}
var symAxiom = map[*Term][]*Term{}
var memKeyOf = map[*Term]string{} // base symbol -> key

func (v *V) getMem(st *State, key string, leafSort Sort) *Term {
	if t, ok := st.mem[key]; ok {
		return t
	}
	t := Sym("M"+st.epoch+"["+key+"]", SArr(SInt, SArr(SInt, leafSort)))
	if _, ok := memAllocBound[t]; !ok {
		memAllocBound[t] = v.alloc0
		memKeyOf[t] = key
	}
	st.mem[key] = t
	return t
}

func (v *V) freshMem(key string, s Sort, bound *Term) *Term {
	t := Fresh("M_"+key, s)
	memAllocBound[t] = bound
	memKeyOf[t] = key
	return t
}

func noteKey(key string, l Leaf) {
	if _, ok := keyLeaf[key]; !ok {
		keyLeaf[key] = l
	}
}

func rootSyms(t *Term, out map[*Term]bool) {
	for {
		switch {
		case t.Op == "sym":
			out[t] = true
			return
		case t.Op == "app" && t.Name == "store":
			// the stored value may itself be an inner array of another memory
			t = t.Args[0]
		case t.Op == "app" && t.Name == "ite":
			rootSyms(t.Args[1], out)
			t = t.Args[2]
		default:
			return
		}
	}
}

var typeFact = map[*Term]*Term{}

func leafFact(x *Term, l Leaf, bound *Term, guard *Term) *Term {
	f := tTrue
	if l.B != types.Invalid {
		if bitsOf(l.B) < 64 {
			f = inRange(x, l.B)
		} else if l.B == types.Int || l.B == types.Int64 {
			f = inRange(x, l.B)
		} else {
			f = inRange(x, l.B)
		}
	} else if l.Ref {
		f = Le(Int(0), x)
		if bound != nil {
			f = And(f, Implies(guard, Lt(x, bound)))
		}
	} else if strings.HasSuffix(l.Path, ".o") || strings.HasSuffix(l.Path, ".n") || strings.HasSuffix(l.Path, ".c") || strings.HasSuffix(l.Path, ".i") || strings.HasSuffix(l.Path, ".q") {
		f = Le(Int(0), x)
	}
	return f
}

// noteLeaf registers the typing facts of a memory read
func (v *V) noteLeaf(x *Term, mem *Term, arr *Term, l Leaf) {
	if !(l.Sort == SInt) {
		return
	}
	if x.Op == "int" {
		return
	}
	if x.bound {
		roots := map[*Term]bool{}
		rootSyms(mem, roots)
		for r := range roots {
			if _, ok := symAxiom[r]; ok {
				continue
			}
			symAxiom[r] = nil
			if arrElem(arrElem(r.Sort)) != SInt {
				continue
			}
			a, i := BoundVar("a", SInt), BoundVar("i", SInt)
			s := Select(Select(r, a), i)
			var guard *Term = tTrue
			if b := memAllocBound[r]; b != nil {
				guard = And(Le(Int(0), a), Lt(a, b))
			}
			f := leafFact(s, l, memAllocBound[r], guard)
			if f != tTrue {
				symAxiom[r] = append(symAxiom[r], Forall([]*Term{a, i}, f, []*Term{s}))
			}
		}
		return
	}
	if _, ok := typeFact[x]; ok {
		return
	}
	roots := map[*Term]bool{}
	rootSyms(mem, roots)
	var bound *Term
	var guard *Term = tTrue
	if l.Ref && mem.Op == "sym" && memAllocBound[mem] != nil {
		bound = memAllocBound[mem]
		guard = And(Le(Int(0), arr), Lt(arr, bound))
	}
	f := leafFact(x, l, bound, guard)
	if f != tTrue {
		typeFact[x] = f
		if l.B == types.Invalid || isUnsigned(l.B) {
			B.nonneg[x] = true
		}
	} else {
		typeFact[x] = tTrue
	}
}

func noteSlice(v *Val) {
	if v.K == KSlice && !v.Len.bound {
		if v.Cap.Op != "int" || v.Len.Op != "int" {
			if _, ok := sliceFact[v.Len]; !ok && v.Len != v.Cap {
				sliceFact[v.Len] = Le(v.Len, v.Cap)
			}
		}
		if v.Arr.Op != "int" && v.Len.Op != "int" {
			if _, ok := sliceNil[v.Len]; !ok {
				sliceNil[v.Len] = Implies(Eq(v.Arr, Int(0)), Eq(v.Len, Int(0)))
			}
		}
		if v.Arr.Op != "int" && v.Cap.Op != "int" {
			if _, ok := sliceNil[v.Cap]; !ok {
				sliceNil[v.Cap] = Implies(Eq(v.Arr, Int(0)), Eq(v.Cap, Int(0)))
			}
		}
	}
}

var sliceFact = map[*Term]*Term{}
var sliceNil = map[*Term]*Term{}

// factSym declares a fresh typed symbol (with its typing fact)
func (v *V) freshLeaf(base string, l Leaf, bound *Term) *Term {
	x := Fresh(base+l.Path, l.Sort)
	if l.Sort == SInt {
		f := leafFact(x, l, bound, tTrue)
		typeFact[x] = f
		if l.B == types.Invalid || isUnsigned(l.B) {
			B.nonneg[x] = true
		}
	}
	return x
}

func (v *V) freshVal(base string, t types.Type, reg string, bound *Term) *Val {
	var ts []*Term
	for _, l := range leavesOf(t) {
		ts = append(ts, v.freshLeaf(base, l, bound))
	}
	r := unflatten(t, ts, reg)
	noteAll(r)
	return r
}

func noteAll(r *Val) {
	switch r.K {
	case KSlice:
		noteSlice(r)
	case KFields:
		for _, s := range r.Sub {
			noteAll(s)
		}
	}
}

// ---- flattening --------------------------------------------------------------
// flatten turns a value into leaf terms; values that cannot live in memory
// as they are (local addresses, local regions) trigger a restart.
func (v *V) flatten(x *Val) []*Term { return v.flattenR(x, "") }

// flattenR: reg is the region slices may keep (cells keep theirs)
func (v *V) flattenR(x *Val, keep string) []*Term {
	switch x.K {
	case KScalar:
		return []*Term{x.Term}
	case KSlice:
		if x.Reg != "" && keep != "*" {
			v.escapeRegion(x.Reg)
		}
		return []*Term{x.Arr, x.Off, x.Len, x.Cap}
	case KFields:
		var out []*Term
		for _, s := range x.Sub {
			out = append(out, v.flattenR(s, keep)...)
		}
		return out
	case KArr:
		return append([]*Term{}, x.LArr...)
	case KPtr:
		if interiorPtr(x.T) {
			return []*Term{x.P, x.I, x.Q}
		}
		return []*Term{x.P, x.I}
	case KAddr:
		a := x.Addr
		if a.Cell != nil {
			v.materialise(a.Cell)
		}
		if a.Reg != "" {
			v.escapeRegion(a.Reg)
		}
		if interiorPtr(x.T) {
			return []*Term{a.Arr, a.Idx, Int(int64(v.pathID(a)))}
		}
		if len(a.Path) != 0 {
			panic(unsupported("interior pointer escapes: " + x.T.String()))
		}
		return []*Term{a.Arr, a.Idx}
	case KDyn:
		return []*Term{v.box(x.Dyn)}
	case KClo:
		return []*Term{v.closureID(x)}
	}
	panic("flatten")
}

var pathIDs = map[string]int{}
var pathByID = map[int]*Addr{}

func addrPathKey(a *Addr) string {
	s := typeName(a.Elem)
	for _, p := range a.Path {
		if p.Idx != nil {
			panic(unsupported("interior pointer into an array"))
		}
		s += fmt.Sprintf("/%d", p.Field)
	}
	return s
}

func (v *V) pathID(a *Addr) int {
	k := addrPathKey(a)
	if id, ok := pathIDs[k]; ok {
		return id
	}
	id := len(pathIDs)
	if len(a.Path) > 0 || true {
		id = len(pathIDs) + 1
	}
	pathIDs[k] = id
	pathByID[id] = &Addr{Elem: a.Elem, Path: a.Path}
	return id
}

var cloIDs = map[string]int{}

func (v *V) closureID(x *Val) *Term {
	if x.Clo == nil {
		return Int(0)
	}
	k := x.Clo.Fn.String()
	if _, ok := cloIDs[k]; !ok {
		cloIDs[k] = len(cloIDs) + 1
	}
	return Int(int64(cloIDs[k]))
}

// ---- interfaces ------------------------------------------------------------
var typeTags = map[string]int64{}
var tagTypes = map[int64]types.Type{}

func typeTag(t types.Type) *Term {
	n := typeName(t)
	if _, ok := typeTags[n]; !ok {
		typeTags[n] = int64(len(typeTags) + 1)
		tagTypes[typeTags[n]] = t
	}
	return Int(typeTags[n])
}

func (v *V) box(x *Val) *Term {
	ls := leavesOf(x.T)
	ts := v.flatten(x)
	n := "box:" + typeName(x.T)
	typeTag(x.T)
	boxType[n] = x.T
	_ = ls
	if len(ts) == 0 {
		return Sym("box0:"+typeName(x.T), SAny)
	}
	return Fn(n, SAny, ts...)
}

var boxType = map[string]types.Type{}

func dynType(a *Term) *Term {
	if a.Op == "app" && strings.HasPrefix(a.Name, "box:") {
		return typeTag(boxType[a.Name])
	}
	if a.Op == "sym" && a.Name == "any_nil" {
		return Int(0)
	}
	if a.Op == "sym" && strings.HasPrefix(a.Name, "box0:") {
		return Int(typeTags[strings.TrimPrefix(a.Name, "box0:")])
	}
	if a.Op == "app" && a.Name == "ite" {
		return Ite(a.Args[0], dynType(a.Args[1]), dynType(a.Args[2]))
	}
	t := Fn("dyntype", SInt, a)
	return t
}

func (v *V) unbox(a *Term, t types.Type) *Val {
	ls := leavesOf(t)
	var ts []*Term
	for i, l := range ls {
		ts = append(ts, unboxLeaf(a, t, i, l))
	}
	for i, l := range ls {
		if l.Sort == SInt && !ts[i].bound && ts[i].Op != "int" {
			if _, ok := typeFact[ts[i]]; !ok {
				typeFact[ts[i]] = leafFact(ts[i], l, nil, nil)
				if l.B == types.Invalid || isUnsigned(l.B) {
					B.nonneg[ts[i]] = true
				}
			}
		}
	}
	r := unflatten(t, ts, "")
	noteAll(r)
	return r
}

func unboxLeaf(a *Term, t types.Type, i int, l Leaf) *Term {
	if a.Op == "app" && a.Name == "box:"+typeName(t) {
		return a.Args[i]
	}
	return Fn("unbox:"+typeName(t)+":"+l.Path, l.Sort, a)
}

// ---- strings and float literals ------------------------------------------------
func StrLit(s string) *Term {
	n, ok := strLits[s]
	if !ok {
		n = fmt.Sprintf("lit_str_%d_%s", len(strLits), sanitize(trunc(s, 20)))
		strLits[s] = n
		strLitName[n] = s
	}
	return Sym(n, SStr)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func F64Lit(f float64) *Term {
	b := math.Float64bits(f)
	n := fmt.Sprintf("lit_f64_%016x", b)
	f64Lits[n] = b
	return Sym(n, SF64)
}

func F32Lit(f float32) *Term {
	b := math.Float32bits(f)
	n := fmt.Sprintf("lit_f32_%08x", b)
	f32Lits[n] = b
	return Sym(n, SF32)
}

func (v *V) constVal(c *ssa.Const) *Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return scalar(t, Bool(constant.BoolVal(c.Value)))
		case u.Info()&types.IsInteger != 0:
			return scalar(t, bigConst(c.Value))
		case u.Kind() == types.Float32:
			f, _ := constant.Float32Val(c.Value)
			return scalar(t, F32Lit(f))
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return scalar(t, F64Lit(f))
		case u.Info()&types.IsString != 0:
			return scalar(t, StrLit(constant.StringVal(c.Value)))
		}
	}
	panic(unsupported("constant " + c.String()))
}

func bigConst(c constant.Value) *Term {
	c = constant.ToInt(c)
	b := constant.Val(c)
	switch x := b.(type) {
	case int64:
		return Int(x)
	default:
		_ = x
		var t = Int(0)
		s := c.ExactString()
		bi, ok := newBig(s)
		if !ok {
			panic(unsupported("constant " + s))
		}
		t = IntB(bi)
		return t
	}
}

func posStr(fset *token.FileSet, p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}
