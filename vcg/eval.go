package main

// Evaluation of specification expressions in a symbolic state.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func floatFromBits(b uint64) float64   { return math.Float64frombits(b) }
func floatFromBits32(b uint32) float32 { return math.Float32frombits(b) }

type nameErr struct{ name string }

type Ctx struct {
	v    *V
	st   *State
	old  *State
	env  map[string]*Val
	olde map[string]*Val // values of names inside old()
	fr   *Frame          // locals
	ps   []string        // contract parameter names of the frame's function
	pkg  string
	head *LoopCtx // the loop whose header is evaluated
	in   *LoopCtx
	deep int
}

func (c *Ctx) with(env map[string]*Val) *Ctx {
	n := *c
	n.env = env
	return &n
}

func (c *Ctx) bind(name string, x *Val) *Ctx {
	n := *c
	n.env = make(map[string]*Val, len(c.env)+1)
	for k, v := range c.env {
		n.env[k] = v
	}
	n.env[name] = x
	return &n
}

func (c *Ctx) fail(e *Expr, f string, a ...interface{}) {
	panic(specError{fmt.Sprintf("%s:%d: %s: %s", e.Tok.File, e.Tok.Line, e.String(), fmt.Sprintf(f, a...))})
}

func (c *Ctx) Bool(e *Expr) *Term {
	x := c.eval(e)
	if x.Term == nil || x.Term.Sort != SBool {
		c.fail(e, "boolean expected")
	}
	return x.Term
}

func (c *Ctx) Int(e *Expr) *Term {
	x := c.eval(e)
	if x.Term == nil || x.Term.Sort != SInt {
		c.fail(e, "integer expected")
	}
	return x.Term
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tF64 = types.Typ[types.Float64]
var tStr = types.Typ[types.String]

func boolV(t *Term) *Val { return scalar(tBool, t) }
func intV(t *Term) *Val  { return scalar(tInt, t) }

// ---- types -------------------------------------------------------------------
func (c *Ctx) typ(t *TypeX) types.Type { return c.v.P.specType(t, c.pkg) }

var imapType types.Type = types.NewArray(types.Typ[types.UntypedInt], 1<<62)
var anyType = types.NewInterfaceType(nil, nil)

func (P *Program) specType(t *TypeX, pkg string) types.Type {
	switch {
	case t.Ptr:
		return types.NewPointer(P.specType(t.Elem, pkg))
	case t.Sl:
		return types.NewSlice(P.specType(t.Elem, pkg))
	}
	switch t.Name {
	case "any":
		return anyType
	case "imap": // ghost map from int to int
		return imapType
	case "error":
		return types.Universe.Lookup("error").Type()
	case "byte":
		return types.Typ[types.Uint8]
	case "map":
		return types.NewMap(P.specType(&TypeX{Name: t.Elem.Name}, pkg), P.specType(t.Elem.Elem, pkg))
	}
	for _, b := range types.Typ {
		if b.Name() == t.Name {
			return b
		}
	}
	n := t.Name
	if i := strings.Index(n, "."); i >= 0 {
		pkg, n = n[:i], n[i+1:]
	}
	sp := P.pkgs[pkg]
	if sp == nil {
		for _, q := range P.prog.AllPackages() {
			if q.Pkg.Name() == pkg {
				sp = q
			}
		}
	}
	if sp != nil {
		if m, ok := sp.Members[n].(*ssa.Type); ok {
			return m.Type()
		}
	}
	panic(specError{"unknown type " + t.Name + " in package " + pkg})
}

// ---- names --------------------------------------------------------------------
func (c *Ctx) local(name string) (*Val, bool) {
	fr := c.fr
	if fr == nil {
		return nil, false
	}
	if strings.HasPrefix(name, "$") {
		return c.counter(name[1:])
	}
	// contract parameter names refer to the current value of the parameter
	for i, p := range c.ps {
		if p == name {
			root := fr
			for root.parent != nil {
				root = root.parent
			}
			if i < len(root.fn.Params) {
				if cell := paramCell(root, root.fn.Params[i]); cell != nil {
					if x, ok := c.st.cells[cell]; ok {
						return x, true
					}
				}
				return root.regs[root.fn.Params[i]], true
			}
		}
	}
	for f := fr; f != nil; f = f.parent {
		var best *Cell
		for a, cell := range f.cells {
			if a.Comment != name {
				continue
			}
			if _, ok := c.st.cells[cell]; !ok {
				continue
			}
			if best == nil || cell.id > best.id {
				best = cell
			}
		}
		if best != nil {
			return c.st.cells[best], true
		}
		var hv *ssa.Alloc
		for r := range f.regs {
			if a, ok := r.(*ssa.Alloc); ok && a.Comment == name && c.v.heap[a] && (hv == nil || a.Pos() > hv.Pos()) {
				hv = a
			}
		}
		if hv != nil {
			return c.v.load(c.st, f.regs[hv].Addr), true
		}
		for i, p := range f.fn.Params {
			if p.Name() == name && i < len(f.params) {
				return f.params[i], true
			}
		}
		for i, fv := range f.fn.FreeVars {
			if fv.Name() == name && i < len(f.binds) {
				return c.v.load(c.st, c.v.ptrAddr(c.st, f.binds[i])), true
			}
		}
	}
	return nil, false
}

// localAddr: address of a local variable cell
func (c *Ctx) localAddr(name string) *Addr {
	for f := c.fr; f != nil; f = f.parent {
		var best *Cell
		for a, cell := range f.cells {
			if a.Comment == name {
				if _, ok := c.st.cells[cell]; ok && (best == nil || cell.id > best.id) {
					best = cell
				}
			}
		}
		if best != nil {
			return &Addr{Cell: best}
		}
	}
	return nil
}

func paramCell(fr *Frame, p *ssa.Parameter) *Cell {
	for _, r := range *p.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Val == ssa.Value(p) {
			if a, ok := s.Addr.(*ssa.Alloc); ok {
				return fr.cells[a]
			}
		}
	}
	return nil
}

// counter resolves $i (innermost loop) and $1, $2 ... (k-th enclosing loop)
func (c *Ctx) counter(which string) (*Val, bool) {
	var ls []*LoopCtx
	for _, l := range c.st.loops {
		ls = append(ls, l)
	}
	if len(ls) == 0 {
		return nil, false
	}
	var l *LoopCtx
	if which == "i" {
		l = ls[len(ls)-1]
	} else {
		k, err := strconv.Atoi(which)
		if err != nil || k < 1 || k > len(ls) {
			return nil, false
		}
		l = ls[k-1]
	}
	cell := c.v.counterCell(l.fr, l.loop)
	if cell == nil {
		return nil, false
	}
	x, ok := c.st.cells[cell]
	if !ok {
		return nil, false
	}
	if l == ls[len(ls)-1] && isRangeLoop(l.loop) && c.head != nil {
		return intV(Add(x.Term, Int(1))), true
	}
	if l.base != nil {
		return intV(Sub(x.Term, l.base)), true
	}
	return intV(x.Term), true
}

func (c *Ctx) ident(e *Expr) *Val {
	name := e.Name
	if x, ok := c.env[name]; ok {
		return x
	}
	switch name {
	case "true":
		return boolV(tTrue)
	case "false":
		return boolV(tFalse)
	case "nil":
		return &Val{T: types.Typ[types.UntypedNil], K: KScalar, Term: nil}
	case "inf":
		return scalar(tF64, F64Lit(math.Inf(1)))
	case "NaN":
		return scalar(tF64, F64Lit(math.NaN()))
	}
	if x, ok := c.local(name); ok {
		return x
	}
	if g, ok := c.v.ghosts[name]; ok {
		if x, ok := c.st.cells[g]; ok {
			return x
		}
	}
	if x, ok := c.pkgConst(c.pkg, name); ok {
		return x
	}
	if f, ok := c.v.spec.Fns[name]; ok && len(f.Params) == 0 {
		return c.apply(f, nil, e)
	}
	panic(nameErr{name})
}

func (c *Ctx) pkgConst(pkg, name string) (*Val, bool) {
	sp := c.v.P.pkgs[pkg]
	if sp == nil {
		return nil, false
	}
	switch m := sp.Members[name].(type) {
	case *ssa.NamedConst:
		return c.v.constVal(m.Value), true
	case *ssa.Global:
		return c.v.load(c.st, c.v.globalAddr(m, c.st).Addr), true
	}
	return nil, false
}

// ---- evaluation -----------------------------------------------------------------

func (c *Ctx) eval(e *Expr) *Val {
	a, x := c.lv(e)
	if a != nil {
		return c.v.load(c.st, a)
	}
	return x
}

// lv evaluates to an address when the expression denotes a memory location
func (c *Ctx) lv(e *Expr) (*Addr, *Val) {
	switch e.Op {
	case "id":
		if _, ok := c.env[e.Name]; !ok && c.fr != nil {
			// keep cells as values
		}
		return nil, c.ident(e)
	case "field":
		// package-qualified constant
		if e.Args[0].Op == "id" {
			if _, ok := c.env[e.Args[0].Name]; !ok {
				if _, isPkg := c.v.P.pkgs[e.Args[0].Name]; isPkg {
					if _, loc := c.local(e.Args[0].Name); !loc {
						if x, ok := c.pkgConst(e.Args[0].Name, e.Name); ok {
							return nil, x
						}
					}
				}
			}
		}
		a, x := c.lv(e.Args[0])
		if a != nil {
			t := pathType(a.Elem, a.Path)
			if _, ok := t.Underlying().(*types.Pointer); ok {
				x = c.v.load(c.st, a)
				a = nil
			} else {
				i := fieldIndex(t, e.Name)
				if i < 0 {
					c.fail(e, "no field %s in %s", e.Name, t)
				}
				n := *a
				n.Path = append(append([]PE{}, a.Path...), PE{Field: i})
				return &n, nil
			}
		}
		switch x.K {
		case KPtr, KAddr:
			ad := *c.v.ptrAddr(c.st, x)
			t := x.T.Underlying().(*types.Pointer).Elem()
			i := fieldIndex(t, e.Name)
			if i < 0 {
				c.fail(e, "no field %s in %s", e.Name, t)
			}
			ad.Path = append(append([]PE{}, ad.Path...), PE{Field: i})
			if ad.Cell != nil {
				return nil, c.v.load(c.st, &ad)
			}
			return &ad, nil
		case KFields:
			i := fieldIndex(x.T, e.Name)
			if i < 0 {
				c.fail(e, "no field %s in %s", e.Name, x.T)
			}
			return nil, x.Sub[i]
		}
		c.fail(e, "field of %s", x.T)
	case "index":
		x := c.eval(e.Args[0])
		switch u := x.T.Underlying().(type) {
		case *types.Slice:
			i := c.Int(e.Args[1])
			if x.LArr != nil {
				var ts []*Term
				for _, la := range x.LArr {
					ts = append(ts, Select(la, Add(x.Off, i)))
				}
				return nil, unflatten(u.Elem(), ts, "")
			}
			if x.K == KFields {
				return nil, x.Sub[i.Int.Int64()]
			}
			return &Addr{Reg: x.Reg, Elem: u.Elem(), Arr: x.Arr, Idx: Add(x.Off, i)}, nil
		case *types.Array:
			i := c.Int(e.Args[1])
			return nil, valPath(x, []PE{{Field: -1, Idx: i}})
		case *types.Map:
			k := c.eval(e.Args[1])
			kt := mapKeyTerm(c.v, u, c.coerce(k, u.Key()))
			return nil, c.v.mapGet(c.st, u, x.Term, kt)
		case *types.Basic:
			return nil, scalar(types.Typ[types.Uint8], strAt(x.Term, c.Int(e.Args[1])))
		}
		c.fail(e, "index of %s", x.T)
	case "un":
		switch e.Name {
		case "*":
			x := c.eval(e.Args[0])
			a := c.v.ptrAddr(c.st, x)
			if a.Cell != nil {
				return nil, c.v.load(c.st, a)
			}
			return a, nil
		case "&":
			if e.Args[0].Op == "id" {
				if a := c.localAddr(e.Args[0].Name); a != nil {
					return nil, &Val{T: types.NewPointer(a.Cell.T), K: KAddr, Addr: a}
				}
			}
			a, x := c.lv(e.Args[0])
			if a == nil {
				_ = x
				c.fail(e, "not addressable")
			}
			return nil, &Val{T: types.NewPointer(pathType(a.Elem, a.Path)), K: KAddr, Addr: a}
		case "!":
			return nil, boolV(Not(c.Bool(e.Args[0])))
		case "-":
			if e.Args[0].Op == "float" {
				f, _ := strconv.ParseFloat(e.Args[0].Name, 64)
				return nil, scalar(tF64, F64Lit(-f))
			}
			x := c.eval(e.Args[0])
			if x.Term.Sort == SF64 {
				return nil, scalar(x.T, fNeg(x.Term))
			}
			return nil, intV(Sub(Int(0), x.Term))
		}
	case "int":
		b, ok := new(big.Int).SetString(e.Name, 0)
		if !ok {
			c.fail(e, "bad integer")
		}
		return nil, intV(IntB(b))
	case "float":
		f, err := strconv.ParseFloat(e.Name, 64)
		if err != nil {
			c.fail(e, "bad float")
		}
		return nil, scalar(tF64, F64Lit(f))
	case "str":
		s, err := strconv.Unquote(e.Name)
		if err != nil {
			c.fail(e, "bad string")
		}
		return nil, scalar(tStr, StrLit(s))
	case "bin":
		return nil, c.bin(e)
	case "ite":
		cond := c.Bool(e.Args[0])
		if cond == tTrue {
			return nil, c.eval(e.Args[1])
		}
		if cond == tFalse {
			return nil, c.eval(e.Args[2])
		}
		a, b := c.eval(e.Args[1]), c.eval(e.Args[2])
		a, b = c.unify(a, b)
		return nil, c.iteVal(e, cond, a, b)
	case "let":
		x := c.eval(e.Args[0])
		return nil, c.bind(e.Name, x).eval(e.Args[1])
	case "slice":
		x := c.eval(e.Args[0])
		lo := c.Int(e.Args[1])
		hi := x.Len
		if e.Args[2] != nil {
			hi = c.Int(e.Args[2])
		}
		y := *x
		y.Off = Add(x.Off, lo)
		y.Len = Sub(hi, lo)
		if x.Cap != nil {
			y.Cap = Sub(x.Cap, lo)
		}
		return nil, &y
	case "quant":
		n := c
		var vars []*Term
		for _, q := range e.Q {
			t := c.typ(q.T)
			var ts []*Term
			for _, l := range leavesOf(t) {
				b := BoundVar(q.Name, l.Sort)
				ts = append(ts, b)
				vars = append(vars, b)
			}
			n = n.bind(q.Name, unflatten(t, ts, ""))
		}
		body := n.Bool(e.Args[0])
		var pats [][]*Term
		for _, tr := range e.Trig {
			var p []*Term
			for _, x := range tr {
				y := n.eval(x)
				if y.Term == nil {
					ts := c.v.flattenR(y, "*")
					p = append(p, ts[0])
				} else {
					p = append(p, patCore(y.Term))
				}
			}
			if covers(p, vars) {
				pats = append(pats, p)
			}
		}
		return nil, boolV(Quant(e.Name, vars, body, pats))
	case "call":
		return nil, c.call(e)
	}
	c.fail(e, "cannot evaluate %s", e.Op)
	return nil, nil
}

// covers: every variable occurs in the pattern and no part of it is constant
func covers(p []*Term, vars []*Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, t := range p {
		if !t.bound {
			return false
		}
		walk(t)
	}
	for _, x := range vars {
		if !seen[x] {
			return false
		}
	}
	return true
}

func (c *Ctx) iteVal(e *Expr, cond *Term, a, b *Val) *Val {
	if a.K == KScalar && b.K == KScalar {
		return scalar(a.T, Ite(cond, a.Term, b.Term))
	}
	if a.K == KSlice && b.K == KSlice && a.Reg == b.Reg && a.LArr == nil && b.LArr == nil {
		return mkSlice(a.T, Ite(cond, a.Arr, b.Arr), Ite(cond, a.Off, b.Off), Ite(cond, a.Len, b.Len), Ite(cond, a.Cap, b.Cap), a.Reg)
	}
	x, y := c.v.flattenR(a, ""), c.v.flattenR(b, "")
	if len(x) != len(y) {
		c.fail(e, "branches differ")
	}
	var ts []*Term
	for i := range x {
		ts = append(ts, Ite(cond, x[i], y[i]))
	}
	return unflatten(a.T, ts, "")
}

func fieldIndex(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (c *Ctx) coerce(x *Val, t types.Type) *Val {
	if x.K == KScalar && x.Term != nil && x.Term.Sort == SInt && x.Term.Op == "int" && len(leavesOf(t)) == 1 && leavesOf(t)[0].Sort == SF64 {
		return scalar(t, f64OfInt(x.Term))
	}
	if x.K == KScalar && x.Term == nil { // nil
		return zeroVal(t)
	}
	if types.IsInterface(t) && !types.IsInterface(x.T) {
		return scalar(t, c.v.box(x))
	}
	return x
}

func (c *Ctx) unify(a, b *Val) (*Val, *Val) {
	isNil := func(x *Val) bool { return x.K == KScalar && x.Term == nil }
	if isNil(a) && isNil(b) {
		return intV(Int(0)), intV(Int(0))
	}
	if isNil(a) {
		return zeroVal(b.T), b
	}
	if isNil(b) {
		return a, zeroVal(a.T)
	}
	if a.K == KScalar && b.K == KScalar {
		if a.Term.Sort == SF64 && b.Term.Sort == SInt {
			return a, c.coerce(b, a.T)
		}
		if b.Term.Sort == SF64 && a.Term.Sort == SInt {
			return c.coerce(a, b.T), b
		}
		if a.Term.Sort == SAny && b.Term.Sort != SAny {
			return a, c.coerce(b, a.T)
		}
		if b.Term.Sort == SAny && a.Term.Sort != SAny {
			return c.coerce(a, b.T), b
		}
	}
	if a.K == KDyn {
		a = scalar(a.T, c.v.box(a.Dyn))
	}
	if b.K == KDyn {
		b = scalar(b.T, c.v.box(b.Dyn))
	}
	if a.K == KScalar && a.Term.Sort == SAny && b.K != KScalar {
		b = c.coerce(b, a.T)
	}
	if b.K == KScalar && b.Term.Sort == SAny && a.K != KScalar {
		a = c.coerce(a, b.T)
	}
	return a, b
}

func (c *Ctx) specEq(a, b *Val) *Term {
	isNil := func(x *Val) bool { return x.K == KScalar && x.Term == nil }
	if isNil(b) && a.K == KSlice {
		return Eq(a.Arr, Int(0))
	}
	if isNil(a) && b.K == KSlice {
		return Eq(b.Arr, Int(0))
	}
	if isNil(b) && a.K == KDyn || isNil(a) && b.K == KDyn {
		return tFalse
	}
	if isNil(b) && (a.K == KPtr) {
		return Eq(a.P, Int(0))
	}
	if isNil(b) && a.K == KAddr || isNil(b) && a.K == KClo && a.Clo != nil {
		return tFalse
	}
	a, b = c.unify(a, b)
	if a.K == KScalar && b.K == KScalar {
		return Eq(a.Term, b.Term)
	}
	x, y := c.v.flattenR(a, "*"), c.v.flattenR(b, "*")
	if len(x) != len(y) {
		panic(specError{"comparison of different shapes " + a.T.String() + " " + b.T.String()})
	}
	var cs []*Term
	for i := range x {
		cs = append(cs, Eq(x[i], y[i]))
	}
	return And(cs...)
}

func (c *Ctx) bin(e *Expr) *Val {
	switch e.Name {
	case "&&":
		a := c.Bool(e.Args[0])
		if a == tFalse {
			return boolV(tFalse)
		}
		return boolV(And(a, c.Bool(e.Args[1])))
	case "||":
		a := c.Bool(e.Args[0])
		if a == tTrue {
			return boolV(tTrue)
		}
		return boolV(Or(a, c.Bool(e.Args[1])))
	case "==>":
		a := c.Bool(e.Args[0])
		if a == tFalse {
			return boolV(tTrue)
		}
		return boolV(Implies(a, c.Bool(e.Args[1])))
	case "<==>":
		return boolV(Eq(c.Bool(e.Args[0]), c.Bool(e.Args[1])))
	}
	a, b := c.eval(e.Args[0]), c.eval(e.Args[1])
	switch e.Name {
	case "==":
		return boolV(c.specEq(a, b))
	case "!=":
		return boolV(Not(c.specEq(a, b)))
	}
	a, b = c.unify(a, b)
	if a.Term == nil || b.Term == nil {
		c.fail(e, "operands")
	}
	x, y := a.Term, b.Term
	if x.Sort != y.Sort {
		c.fail(e, "operand sorts %s and %s", x.Sort, y.Sort)
	}
	switch x.Sort {
	case SInt:
		switch e.Name {
		case "+":
			return intV(Add(x, y))
		case "-":
			return intV(Sub(x, y))
		case "*":
			return intV(Mul(x, y))
		case "/":
			return intV(DivF(x, y))
		case "%":
			return intV(ModF(x, y))
		case "&":
			return intV(bitAnd(x, y, types.Int))
		case ">>":
			return intV(shiftR(x, y, types.Uint64))
		case "<<":
			if y.Op == "int" {
				return intV(Mul(x, IntB(Pow2(int(y.Int.Int64())))))
			}
		case "<":
			return boolV(Lt(x, y))
		case "<=":
			return boolV(Le(x, y))
		case ">":
			return boolV(Lt(y, x))
		case ">=":
			return boolV(Le(y, x))
		}
	case SF64, SF32:
		p := "f64."
		if x.Sort == SF32 {
			p = "f32."
		}
		switch e.Name {
		case "+":
			return scalar(a.T, fop(p+"add", x.Sort, x, y))
		case "-":
			return scalar(a.T, Fn(p+"sub", x.Sort, x, y))
		case "*":
			return scalar(a.T, fop(p+"mul", x.Sort, x, y))
		case "/":
			return scalar(a.T, Fn(p+"div", x.Sort, x, y))
		case "<":
			return boolV(fLt(p, x, y))
		case "<=":
			return boolV(fLe(p, x, y))
		case ">":
			return boolV(fLt(p, y, x))
		case ">=":
			return boolV(fLe(p, y, x))
		}
	case SStr:
		if e.Name == "+" {
			return scalar(tStr, Fn("str.cat_", SStr, x, y))
		}
	}
	c.fail(e, "operator %s on %s", e.Name, x.Sort)
	return nil
}

func (c *Ctx) typeArg(e *Expr) types.Type {
	var conv func(e *Expr) *TypeX
	conv = func(e *Expr) *TypeX {
		switch {
		case e.Op == "un" && e.Name == "*":
			return &TypeX{Ptr: true, Elem: conv(e.Args[0])}
		case e.Op == "id":
			return &TypeX{Name: e.Name}
		case e.Op == "field":
			return &TypeX{Name: e.Args[0].Name + "." + e.Name}
		}
		c.fail(e, "type expected")
		return nil
	}
	return c.typ(conv(e))
}

func (c *Ctx) call(e *Expr) *Val {
	v := c.v
	n := len(e.Args)
	switch e.Name {
	case "len":
		x := c.eval(e.Args[0])
		switch x.T.Underlying().(type) {
		case *types.Slice:
			if x.K == KFields {
				return intV(Int(int64(len(x.Sub))))
			}
			return intV(x.Len)
		case *types.Basic:
			return intV(strLen(x.Term))
		case *types.Array:
			return intV(Int(x.T.Underlying().(*types.Array).Len()))
		}
		c.fail(e, "len of %s", x.T)
	case "cap":
		return intV(c.eval(e.Args[0]).Cap)
	case "upd":
		m := c.eval(e.Args[0])
		return &Val{T: m.T, K: KArr, LArr: []*Term{Store(m.LArr[0], c.Int(e.Args[1]), c.Int(e.Args[2]))}}
	case "cmap":
		return &Val{T: imapType, K: KArr, LArr: []*Term{ConstArr(c.Int(e.Args[0]), SArr(SInt, SInt))}}
	case "prev":
		if c.in == nil || c.in.header == nil {
			panic(nameErr{"prev"})
		}
		n := *c
		n.st = c.in.header
		r := n.eval(e.Args[0])
		if r.K == KSlice && r.LArr == nil { // its elements are the earlier ones, too
			y := *n.seqVal(r)
			y.Arr = r.Arr
			return &y
		}
		return r
	case "old":
		m := *c
		m.st = c.old
		if c.olde != nil {
			m.env = make(map[string]*Val)
			for k, x := range c.env {
				m.env[k] = x
			}
			for k, x := range c.olde {
				m.env[k] = x
			}
		}
		m.fr = nil
		m.old = c.old
		return m.eval(e.Args[0])
	case "is":
		x := c.eval(e.Args[0])
		t := c.typeArg(e.Args[1])
		if x.K == KDyn {
			return boolV(Bool(types.Identical(x.Dyn.T, t)))
		}
		if !types.IsInterface(x.T) {
			return boolV(Bool(types.Identical(x.T, t)))
		}
		return boolV(Eq(dynType(x.Term), typeTag(t)))
	case "as":
		x := c.eval(e.Args[0])
		t := c.typeArg(e.Args[1])
		if x.K == KDyn {
			if types.Identical(x.Dyn.T, t) {
				return x.Dyn
			}
			return v.unbox(v.box(x.Dyn), t)
		}
		if types.Identical(x.T, t) {
			return x
		}
		return v.unbox(x.Term, t)
	case "isnan":
		x := c.eval(e.Args[0])
		p := "f64.eq"
		if x.Term.Sort == SF32 {
			p = "f32.eq"
		}
		return boolV(Not(Fn(p, SBool, x.Term, x.Term)))
	case "feq":
		a, b := c.unify(c.eval(e.Args[0]), c.eval(e.Args[1]))
		p := "f64.eq"
		if a.Term.Sort == SF32 {
			p = "f32.eq"
		}
		return boolV(Fn(p, SBool, orderArgs(a.Term, b.Term)...))
	case "float64":
		x := c.eval(e.Args[0])
		switch x.Term.Sort {
		case SInt:
			return scalar(tF64, f64OfInt(x.Term))
		case SF32:
			return scalar(tF64, f64OfF32(x.Term))
		}
		return x
	case "float32":
		x := c.eval(e.Args[0])
		if x.Term.Sort == SF64 {
			return scalar(types.Typ[types.Float32], Fn("f32.of_f64", SF32, x.Term))
		}
		return x
	case "int", "int64", "int32", "uint32", "uint64", "uint8", "byte", "uint":
		x := c.eval(e.Args[0])
		t := c.typ(&TypeX{Name: e.Name})
		k := basicKind(t)
		if x.Term.Sort == SF64 {
			return scalar(t, intOfF64(x.Term, k))
		}
		return scalar(t, convInt(x.Term, basicKind(x.T), k))
	case "exp", "log", "abs", "pow", "ceil", "floor":
		var ts []*Term
		for _, a := range e.Args {
			ts = append(ts, c.coerce(c.eval(a), tF64).Term)
		}
		return scalar(tF64, mathFn(e.Name, ts))
	case "fresh":
		x := c.eval(e.Args[0])
		return boolV(c.freshT(x))
	case "arr":
		x := c.eval(e.Args[0])
		switch x.K {
		case KSlice:
			return intV(x.Arr)
		case KPtr:
			return intV(x.P)
		case KAddr:
			if x.Addr.Arr != nil {
				return intV(x.Addr.Arr)
			}
		}
		c.fail(e, "arr of %s", x.T)
	case "off":
		return intV(c.eval(e.Args[0]).Off)
	case "alloc":
		return intV(c.st.alloc)
	case "has":
		x := c.eval(e.Args[0])
		mt := x.T.Underlying().(*types.Map)
		return boolV(v.mapHas(c.st, mt, x.Term, mapKeyTerm(v, mt, c.coerce(c.eval(e.Args[1]), mt.Key()))))
	case "bit":
		return boolV(Eq(bitOf(c.Int(e.Args[0]), c.Int(e.Args[1])), Int(1)))
	case "shr":
		return intV(shiftR(c.Int(e.Args[0]), c.Int(e.Args[1]), types.Uint64))
	case "typetag":
		x := c.eval(e.Args[0])
		if x.K == KDyn {
			return intV(typeTag(x.Dyn.T))
		}
		return intV(dynType(x.Term))
	case "box":
		return scalar(anyType, v.box(c.eval(e.Args[0])))
	case "sameslice":
		a, b := c.eval(e.Args[0]), c.eval(e.Args[1])
		return boolV(And(Eq(a.Arr, b.Arr), Eq(a.Off, b.Off), Eq(a.Len, b.Len)))
	case "seqeq": // seqeq(a, b, n): elements 0..n-1 agree
		a, b := c.eval(e.Args[0]), c.eval(e.Args[1])
		cnt := c.Int(e.Args[2])
		i := BoundVar("i", SInt)
		ea, eb := c.elem(a, i), c.elem(b, i)
		return boolV(Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, cnt)), c.specEq(ea, eb))))
	case "strsub":
		return scalar(tStr, Fn("str.sub_", SStr, c.eval(e.Args[0]).Term, c.Int(e.Args[1]), c.Int(e.Args[2])))
	case "min":
		a, b := c.Int(e.Args[0]), c.Int(e.Args[1])
		return intV(Ite(Le(a, b), a, b))
	case "max":
		a, b := c.Int(e.Args[0]), c.Int(e.Args[1])
		return intV(Ite(Le(a, b), b, a))
	case "seqext": // sequences of the same length with the same elements are the same value
		a, b := c.seqVal(c.eval(e.Args[0])), c.seqVal(c.eval(e.Args[1]))
		i := BoundVar("i", SInt)
		pre := And(Eq(a.Len, b.Len), Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, a.Len)), c.specEq(c.elem(a, i), c.elem(b, i)))))
		var eqs []*Term
		for j := range a.LArr {
			eqs = append(eqs, Eq(normSeq(a.LArr[j], a.Off, a.Len), normSeq(b.LArr[j], b.Off, b.Len)))
		}
		return boolV(Implies(pre, And(eqs...)))
	case "seqof": // the contents of a slice as a value
		return c.seqVal(c.eval(e.Args[0]))
	}
	if f, ok := v.spec.Fns[e.Name]; ok {
		if len(f.Params) != n {
			c.fail(e, "%d arguments, want %d", n, len(f.Params))
		}
		var args []*Val
		for _, a := range e.Args {
			args = append(args, c.eval(a))
		}
		return c.apply(f, args, e)
	}
	if l, ok := v.spec.Lemmas[e.Name]; ok {
		return boolV(c.lemmaInst(l, e))
	}
	if ax := streamSpecFn(c, e); ax != nil {
		return ax
	}
	if ax := libSpecFn(c, e); ax != nil {
		return ax
	}
	c.fail(e, "unknown function %s", e.Name)
	return nil
}

// patCore is the uninterpreted core of a trigger such as bit(x, k)
func patCore(t *Term) *Term {
	for t.Op == "app" {
		switch {
		case t.Name == "=" && t.Args[0].Op == "int":
			t = t.Args[1]
		case (t.Name == "=" || t.Name == "mod" || t.Name == "div") && t.Args[1].Op == "int":
			t = t.Args[0]
		default:
			return t
		}
	}
	return t
}

func bitOf(x, k *Term) *Term {
	if k.Op == "int" {
		return bitK(x, int(k.Int.Int64()))
	}
	return ModF(Fn("bits.shr", SInt, x, k), Int(2))
}

func (c *Ctx) elem(s *Val, i *Term) *Val {
	el := s.T.Underlying().(*types.Slice).Elem()
	if s.LArr != nil {
		var ts []*Term
		for _, la := range s.LArr {
			ts = append(ts, Select(la, Add(s.Off, i)))
		}
		return unflatten(el, ts, "")
	}
	return c.v.load(c.st, &Addr{Reg: s.Reg, Elem: el, Arr: s.Arr, Idx: Add(s.Off, i)})
}

func (c *Ctx) freshT(x *Val) *Term {
	var id *Term
	switch x.K {
	case KSlice:
		id = x.Arr
	case KPtr:
		id = x.P
	case KAddr:
		if x.Addr.Cell != nil {
			return tTrue
		}
		id = x.Addr.Arr
	case KScalar:
		if x.Term.Sort == SInt {
			id = x.Term
		}
	}
	if id == nil {
		panic(specError{"fresh of " + x.T.String()})
	}
	return Or(Eq(id, Int(0)), Le(c.old.alloc, id))
}

// seqVal freezes the contents of a slice
func (c *Ctx) seqVal(x *Val) *Val {
	if x.LArr != nil || x.K != KSlice {
		return x
	}
	el := x.T.Underlying().(*types.Slice).Elem()
	y := &Val{T: x.T, K: KSlice, Off: x.Off, Len: x.Len, Cap: x.Len, Arr: Int(1)}
	for _, l := range leavesOf(el) {
		key := memKey(x.Reg, el, l.Path)
		noteKey(key, l)
		m := c.v.getMem(c.st, key, l.Sort)
		y.LArr = append(y.LArr, Select(m, x.Arr))
		if l.Sort == SInt {
			i := BoundVar("i", SInt)
			sel := Select(Select(m, x.Arr), i)
			c.v.noteLeaf(sel, m, x.Arr, l)
		}
	}
	return y
}

// ---- spec functions -------------------------------------------------------------

func (c *Ctx) apply(f *SpecFn, args []*Val, e *Expr) *Val {
	if c.deep > 60 {
		c.fail(e, "specification function nesting too deep (missing rec?)")
	}
	env := map[string]*Val{}
	for i, p := range f.Params {
		env[p.Name] = c.coerce(args[i], c.v.P.specType(p.T, f.Pkg))
	}
	hidden := c.v.con != nil && c.v.con.Hide[f.Name]
	if hidden {
		for _, p := range f.Params {
			if p.T.String() != "int" && p.T.String() != "string" {
				c.fail(e, "only functions of numbers and strings can be hidden")
			}
		}
	}
	if f.Body != nil && !f.Rec && f.Idx == "" && !hidden {
		n := *c
		n.env = env
		n.olde = nil
		n.fr = nil
		n.pkg = f.Pkg
		n.deep++
		r := n.eval(f.Body)
		return n.coerce(r, n.typ(f.Res))
	}
	ts := c.specArgs(f, env)
	res := c.v.P.specType(f.Res, f.Pkg)
	if f.Idx != "" {
		c.v.prepareRec(f)
		for _, k := range f.keys {
			l := keyLeaf[k]
			ts = append(ts, c.v.getMem(c.st, k, l.Sort))
		}
		n := *c
		n.env = env
		n.olde, n.fr, n.pkg = nil, nil, f.Pkg
		n.deep++
		ln := n.Int(f.Len)
		el := leavesOf(res.Underlying().(*types.Slice).Elem())
		if len(el) != 1 {
			c.fail(e, "sequence of scalars expected")
		}
		t := Fn("sf:"+f.Name, SArr(SInt, el[0].Sort), ts...)
		normLen[t] = ln
		return &Val{T: res, K: KSlice, Arr: Int(1), Off: Int(0), Len: ln, Cap: ln, LArr: []*Term{t}}
	}
	ls := leavesOf(res)
	if f.Rec {
		c.v.prepareRec(f)
		for _, k := range f.keys {
			l := keyLeaf[k]
			ts = append(ts, c.v.getMem(c.st, k, l.Sort))
		}
	}
	if len(ls) != 1 {
		c.fail(e, "result of %s must be scalar", f.Name)
	}
	t := Fn("sf:"+f.Name, ls[0].Sort, ts...)
	return scalar(res, t)
}

// specArgs flattens arguments: slices become their contents
func (c *Ctx) specArgs(f *SpecFn, env map[string]*Val) []*Term {
	var ts []*Term
	for _, p := range f.Params {
		x := env[p.Name]
		switch x.K {
		case KSlice:
			y := c.seqVal(x)
			for _, a := range y.LArr {
				ts = append(ts, normSeq(a, y.Off, y.Len))
			}
			ts = append(ts, y.Len)
		default:
			ts = append(ts, c.v.flattenR(x, "")...)
		}
	}
	return ts
}

type recDef struct {
	params []*Term // argument placeholders (incl. memory)
	body   *Term
	unfold int
	idx    *Term // comprehension index (bound variable), or nil
	length *Term
}

// normSeq: the contents a[off..off+n) as a value, independent of what lies
// outside the range (sequences with the same elements are the same value)
var normLen = map[*Term]*Term{} // normalised contents and their length

func normSeq(a, off, n *Term) *Term {
	if isIntV(off, 0) {
		if a.Op == "app" && strings.HasPrefix(a.Name, "seq.norm:") && a.Args[2] == n {
			return a
		}
		if l, ok := normLen[a]; ok && l == n {
			return a
		}
	}
	return Fn("seq.norm:"+string(a.Sort), a.Sort, a, off, n)
}

var recDefs = map[string]*recDef{}

// prepareRec evaluates the body of a recursive function once, with
// placeholders for its arguments and for the memory it reads.
func (v *V) prepareRec(f *SpecFn) {
	if f.state == 2 || f.state == 1 {
		return
	}
	f.state = 1
	for iter := 0; iter < 6; iter++ {
		st := &State{cells: map[*Cell]*Val{}, mem: map[string]*Term{}, epoch: "#" + f.Name + fmt.Sprint(iter), alloc: Sym("alloc#rec", SInt), known: map[*Term]bool{},
			defers: map[*Frame][]deferred{}, chans: map[*Term]*ChanInfo{}, wgs: map[*Cell]*WG{}}
		c := &Ctx{v: v, st: st, old: st, env: map[string]*Val{}, pkg: f.Pkg}
		var params []*Term
		for _, p := range f.Params {
			t := v.P.specType(p.T, f.Pkg)
			if s, ok := t.Underlying().(*types.Slice); ok {
				x := &Val{T: t, K: KSlice, Arr: Int(1)}
				for _, l := range leavesOf(s.Elem()) {
					a := Sym("rp:"+f.Name+":"+p.Name+l.Path, SArr(SInt, l.Sort))
					x.LArr = append(x.LArr, a)
					params = append(params, a)
				}
				x.Off = Int(0)
				x.Len = Sym("rp:"+f.Name+":"+p.Name+"#n", SInt)
				x.Cap = x.Len
				for _, a := range x.LArr {
					normLen[a] = x.Len
				}
				params = append(params, x.Len)
				c.env[p.Name] = x
				continue
			}
			var ts []*Term
			for _, l := range leavesOf(t) {
				ts = append(ts, Sym("rp:"+f.Name+":"+p.Name+"#"+l.Path, l.Sort))
			}
			params = append(params, ts...)
			c.env[p.Name] = unflatten(t, ts, "")
		}
		var idx, length *Term
		var body *Val
		if f.Idx != "" {
			length = c.Int(f.Len)
			idx = BoundVar("ix", SInt)
			c2 := c.bind(f.Idx, intV(idx))
			body = c2.coerce(c2.eval(f.Body), v.P.specType(f.Res, f.Pkg).Underlying().(*types.Slice).Elem())
		} else {
			body = c.coerce(c.eval(f.Body), v.P.specType(f.Res, f.Pkg))
		}
		var keys []string
		for _, k := range sortedKeys(st.mem) {
			keys = append(keys, k)
		}
		if strings.Join(keys, ";") == strings.Join(f.keys, ";") {
			for _, k := range keys {
				params = append(params, st.mem[k])
			}
			recDefs["sf:"+f.Name] = &recDef{params: params, body: body.Term, unfold: f.Unfold, idx: idx, length: length}
			f.state = 2
			return
		}
		f.keys = keys
		delete(B.funs, "sf:"+f.Name)
	}
	panic(specError{"recursive function " + f.Name + ": memory footprint does not stabilise"})
}

// ---- lemmas -----------------------------------------------------------------------

func (c *Ctx) lemmaInst(l *Lemma, e *Expr) *Term {
	if len(e.Args) != len(l.Params) {
		c.fail(e, "%d arguments, want %d", len(e.Args), len(l.Params))
	}
	env := map[string]*Val{}
	for i, p := range l.Params {
		env[p.Name] = c.coerce(c.eval(e.Args[i]), c.v.P.specType(p.T, l.Pkg))
	}
	n := *c
	n.env = env
	n.olde = nil
	n.fr = nil
	n.pkg = l.Pkg
	var rs, es []*Term
	same := map[string]bool{} // parameters an inductive use leaves unchanged
	for i, p := range l.Params {
		same[p.Name] = c.v.lemma == l && e.Args[i].Op == "id" && e.Args[i].Name == p.Name && c.env[p.Name] != nil && c.env[p.Name] == c.v.lemmaEnv[p.Name]
	}
	for _, r := range l.Requires {
		if c.v.lemma == l && onlyMentions(r, same, map[string]bool{}) {
			continue // already assumed
		}
		rs = append(rs, n.Bool(r))
	}
	if c.v.lemma == l { // induction: the instance must be smaller
		if l.Dec == nil {
			c.fail(e, "recursive use without decreases")
		}
		d := n.Int(l.Dec)
		rs = append(rs, Le(Int(0), d), Lt(d, c.v.dec0))
	} else if c.v.lemma != nil {
		if !c.v.lemmaBefore(l, c.v.lemma) {
			c.fail(e, "lemma %s is not declared before %s", l.Name, c.v.lemma.Name)
		}
	}
	for _, x := range l.Ensures {
		es = append(es, n.Bool(x))
	}
	c.v.lemmasUsed[l.Name] = true
	return Implies(And(rs...), And(es...))
}

// onlyMentions: every free name of e is in ok (names of constants and
// functions do not depend on the parameters)
func onlyMentions(e *Expr, ok map[string]bool, bound map[string]bool) bool {
	if e.Op == "id" && !bound[e.Name] {
		if same, isParam := ok[e.Name]; isParam && !same {
			return false
		}
	}
	b := bound
	if len(e.Q) > 0 || e.Op == "let" {
		b = map[string]bool{}
		for k := range bound {
			b[k] = true
		}
		for _, q := range e.Q {
			b[q.Name] = true
		}
		// a let name shadows in the body only; treating its definition alike
		// could only hide a parameter of the same name
		if e.Op == "let" {
			if _, isParam := ok[e.Name]; isParam {
				return false
			}
			b[e.Name] = true
		}
	}
	for _, a := range e.Args {
		if !onlyMentions(a, ok, b) {
			return false
		}
	}
	return true
}

func (v *V) lemmaBefore(a, b *Lemma) bool { return a.Seq < b.Seq }

// evaluation helpers used by the loop code -----------------------------------------

func (v *V) guard(what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if ne, is := r.(nameErr); is {
				v.dropped[what+": name "+ne.name+" not found"] = true
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

func (v *V) loopCtx(st *State, fr *Frame) *Ctx {
	c := &Ctx{v: v, st: st, old: v.entry, env: map[string]*Val{}, olde: v.entryEnv, fr: fr, pkg: v.pkgName(), ps: nil}
	if v.con != nil {
		c.ps = v.con.Params
	}
	if v.workerEnv != nil {
		for k, x := range v.workerEnv {
			c.env[k] = x
		}
		c.ps = nil
		if w := v.worker; w != nil && st.cells[w.kcell] != nil {
			c.env[w.spec.Item] = st.cells[w.kcell]
		}
	}
	if len(st.loops) > 0 {
		c.head = st.loops[len(st.loops)-1]
		c.in = c.head
	}
	return c
}

func (v *V) pkgName() string {
	if v.con != nil {
		return v.con.Pkg
	}
	if v.fn != nil && v.fn.Pkg != nil {
		return v.fn.Pkg.Pkg.Name()
	}
	return ""
}

func (v *V) evalInv(st *State, fr *Frame, cl *Clause) (*Term, bool) {
	var t *Term
	ok := v.guard("invariant "+cl.Label, func() { t = v.loopCtx(st, fr).Bool(cl.E) })
	return t, ok
}

func (v *V) evalUse(st *State, fr *Frame, e *Expr) (*Term, bool) {
	var t *Term
	ok := v.guard("use "+e.String(), func() { t = v.loopCtx(st, fr).Bool(e) })
	return t, ok
}

func (v *V) evalLoopExpr(st *State, fr *Frame, e *Expr) (*Term, bool) {
	var t *Term
	ok := v.guard("variant "+e.String(), func() { t = v.loopCtx(st, fr).Int(e) })
	return t, ok
}

func mathFn(name string, ts []*Term) *Term {
	switch name {
	case "abs":
		return Fn("f64.abs", SF64, ts...)
	case "ceil":
		return Fn("f64.ceil", SF64, ts...)
	case "floor":
		return Fn("f64.floor", SF64, ts...)
	}
	return Fn("math."+name, SF64, ts...)
}

func constInt(c constant.Value) int64 { i, _ := constant.Int64Val(c); return i }
