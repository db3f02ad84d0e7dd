package main

// SMT terms: hash-consed, with light simplification in the constructors.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SAny  Sort = "Any"
	SRow  Sort = "Row"
)

func SArr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func arrElem(s Sort) Sort {
	// "(Array K V)" with K atomic or parenthesised
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("arrElem of " + str)
	}
	body := str[7 : len(str)-1]
	d := 0
	for i, c := range body {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
		} else if c == ' ' && d == 0 {
			return Sort(body[i+1:])
		}
	}
	panic("arrElem")
}

type Term struct {
	Op    string // "sym","int","true","false","app","forall","exists"
	Name  string // symbol / function name
	Sort  Sort
	Args  []*Term
	Int   *big.Int
	Vars  []*Term // quantifier
	Pats  [][]*Term
	id    int
	maxS  int  // largest symbol number inside (for stability tests)
	bound bool // contains bound variables that are free here (any "bnd" symbol)
}

type Builder struct {
	tab  map[string]*Term
	n    int
	nsym int
	syms map[string]Sort
	funs map[string]*FunDecl
	// terms known to be non-negative (type invariants assumed where they are created)
	nonneg map[*Term]bool
}

type FunDecl struct {
	Name string
	Args []Sort
	Res  Sort
}

var B = &Builder{tab: map[string]*Term{}, syms: map[string]Sort{}, funs: map[string]*FunDecl{}, nonneg: map[*Term]bool{}}

func (b *Builder) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	sb.WriteString(string(t.Sort))
	if t.Int != nil {
		sb.WriteString(t.Int.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	for _, a := range t.Vars {
		fmt.Fprintf(&sb, ";%d", a.id)
	}
	for _, p := range t.Pats {
		sb.WriteByte('{')
		for _, a := range p {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
	}
	k := sb.String()
	if x, ok := b.tab[k]; ok {
		return x
	}
	b.n++
	t.id = b.n
	for _, a := range t.Args {
		if a.maxS > t.maxS {
			t.maxS = a.maxS
		}
		if a.bound {
			t.bound = true
		}
	}
	b.tab[k] = t
	return t
}

// symbols ------------------------------------------------------------
func Sym(name string, s Sort) *Term {
	if old, ok := B.syms[name]; ok && old != s {
		panic("symbol " + name + " redeclared with sort " + string(s) + " (was " + string(old) + ")")
	}
	if _, ok := B.syms[name]; !ok {
		B.syms[name] = s
	}
	t := &Term{Op: "sym", Name: name, Sort: s}
	B.nsym++
	t.maxS = B.nsym
	return B.mk(t)
}

var freshCount = map[string]int{}

func Fresh(base string, s Sort) *Term {
	base = sanitize(base)
	freshCount[base]++
	return Sym(fmt.Sprintf("%s!%d", base, freshCount[base]), s)
}

func BoundVar(base string, s Sort) *Term {
	base = sanitize(base)
	freshCount["bnd_"+base]++
	name := fmt.Sprintf("%s?%d", base, freshCount["bnd_"+base])
	t := &Term{Op: "bvar", Name: name, Sort: s, bound: true}
	return B.mk(t)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// literals --------------------------------------------------------------
func IntB(v *big.Int) *Term { return B.mk(&Term{Op: "int", Sort: SInt, Int: v}) }
func Int(v int64) *Term     { return IntB(big.NewInt(v)) }
func Pow2(k int) *big.Int   { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }
func isInt(t *Term) bool    { return t.Op == "int" }
func isIntV(t *Term, v int64) bool {
	return t.Op == "int" && t.Int.IsInt64() && t.Int.Int64() == v
}

var tTrue = &Term{}
var tFalse = &Term{}

func init() {
	tTrue = B.mk(&Term{Op: "true", Sort: SBool})
	tFalse = B.mk(&Term{Op: "false", Sort: SBool})
}

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// generic application ------------------------------------------------
func App(name string, res Sort, args ...*Term) *Term {
	return B.mk(&Term{Op: "app", Name: name, Sort: res, Args: args})
}

// Fn applies a declared (uninterpreted) function.
func Fn(name string, res Sort, args ...*Term) *Term {
	d, ok := B.funs[name]
	if !ok {
		d = &FunDecl{Name: name, Res: res}
		for _, a := range args {
			d.Args = append(d.Args, a.Sort)
		}
		B.funs[name] = d
	} else {
		if d.Res != res || len(d.Args) != len(args) {
			panic(fmt.Sprintf("function %s used with different signature", name))
		}
		for i, a := range args {
			if a.Sort != d.Args[i] {
				panic(fmt.Sprintf("function %s arg %d: sort %s want %s", name, i, a.Sort, d.Args[i]))
			}
		}
	}
	if len(args) == 0 {
		return Sym(name, res)
	}
	return App(name, res, args...)
}

// boolean ---------------------------------------------------------------
func Not(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.Op == "app" && a.Name == "not":
		return a.Args[0]
	}
	return App("not", SBool, a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.Sort != SBool {
			panic("And: sort " + string(x.Sort) + " in " + x.String())
		}
		if x == tTrue || seen[x] {
			return true
		}
		if x == tFalse {
			return false
		}
		if x.Op == "app" && x.Name == "and" {
			for _, y := range x.Args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("and", SBool, out...)
}

func Or(xs ...*Term) *Term {
	ys := make([]*Term, len(xs))
	for i, x := range xs {
		ys[i] = Not(x)
	}
	n := And(ys...)
	if n == tTrue {
		return tFalse
	}
	if n == tFalse {
		return tTrue
	}
	if n.Op == "app" && n.Name == "and" {
		zs := make([]*Term, len(n.Args))
		for i, x := range n.Args {
			zs[i] = Not(x)
		}
		return App("or", SBool, zs...)
	}
	return Not(n)
}

func Implies(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	if a == b {
		return tTrue
	}
	return App("=>", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.Sort != b.Sort {
		panic("Ite sorts " + string(a.Sort) + " vs " + string(b.Sort))
	}
	if a.Sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return Not(c)
		}
		if a == tTrue {
			return Or(c, b)
		}
		if b == tFalse {
			return And(c, a)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
	}
	return App("ite", a.Sort, c, a, b)
}

// linear decomposition: t = base + const
func split(t *Term) (*Term, *big.Int) {
	if t.Op == "int" {
		return nil, t.Int
	}
	if t.Op == "app" && t.Name == "+" && len(t.Args) == 2 && t.Args[1].Op == "int" {
		return t.Args[0], t.Args[1].Int
	}
	return t, big.NewInt(0)
}

func definitelyDifferent(a, b *Term) bool {
	if olderThan(a, b) || olderThan(b, a) {
		return true
	}
	if a.Op == "int" && b.Op == "int" {
		return a.Int.Cmp(b.Int) != 0
	}
	if a.Sort == SInt {
		x, c := split(a)
		y, d := split(b)
		if x == y && x != nil && c.Cmp(d) != 0 {
			return true
		}
	}
	if isLitSym(a) && isLitSym(b) && a != b {
		return true
	}
	if a.Sort == SAny {
		x, y := anyHead(a), anyHead(b)
		return x != "" && y != "" && x != y
	}
	return false
}

// head constructor of an interface value
func anyHead(t *Term) string {
	if t.Op == "sym" && (t.Name == "any_nil" || strings.HasPrefix(t.Name, "box0:")) {
		return t.Name
	}
	if t.Op == "app" && strings.HasPrefix(t.Name, "box:") {
		return t.Name
	}
	return ""
}

// literal constants of uninterpreted sorts are pairwise distinct
func isLitSym(t *Term) bool {
	return t.Op == "sym" && (strings.HasPrefix(t.Name, "lit_str_") || strings.HasPrefix(t.Name, "lit_f64_"))
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts %s vs %s: %s = %s", a.Sort, b.Sort, a, b))
	}
	if definitelyDifferent(a, b) {
		return tFalse
	}
	if a.Sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	}
	if a.Op == "int" {
		a, b = b, a
	}
	if b.Op == "int" && a.Op == "app" && a.Name == "ite" && a.Args[1].Op == "int" && a.Args[2].Op == "int" {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("=", SBool, a, b)
}

// integers ----------------------------------------------------------------
func Add(a, b *Term) *Term {
	x, c := split(a)
	y, d := split(b)
	k := new(big.Int).Add(c, d)
	var base *Term
	switch {
	case x == nil && y == nil:
		return IntB(k)
	case x == nil:
		base = y
	case y == nil:
		base = x
	default:
		// x + y; cancel x + (-x)
		if y.Op == "app" && y.Name == "-" && len(y.Args) == 2 && y.Args[1] == x {
			base = y.Args[0]
			return Add(base, IntB(k))
		}
		if x.Op == "app" && x.Name == "-" && len(x.Args) == 2 && x.Args[1] == y {
			base = x.Args[0]
			return Add(base, IntB(k))
		}
		base = App("+", SInt, x, y)
	}
	if k.Sign() == 0 {
		return base
	}
	return App("+", SInt, base, IntB(k))
}

func Sub(a, b *Term) *Term {
	if a == b {
		return Int(0)
	}
	if b.Op == "int" {
		return Add(a, IntB(new(big.Int).Neg(b.Int)))
	}
	x, c := split(a)
	y, d := split(b)
	k := new(big.Int).Sub(c, d)
	if x == y {
		return IntB(k)
	}
	if x == nil {
		x = Int(0)
		return Add(App("-", SInt, x, y), IntB(k))
	}
	return Add(App("-", SInt, x, y), IntB(k))
}

func Mul(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return IntB(new(big.Int).Mul(a.Int, b.Int))
	}
	if isIntV(a, 0) || isIntV(b, 0) {
		return Int(0)
	}
	if isIntV(a, 1) {
		return b
	}
	if isIntV(b, 1) {
		return a
	}
	if a.Op != "int" && b.Op == "int" {
		a, b = b, a
	} else if a.Op != "int" && b.Op != "int" && a.id > b.id {
		a, b = b, a
	}
	return App("*", SInt, a, b)
}

// Div / Mod: SMT (Euclidean for positive divisor = floor)
func DivF(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.Int.Sign() > 0 {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.Int, b.Int, m)
		return IntB(q)
	}
	if isIntV(b, 1) {
		return a
	}
	return App("div", SInt, a, b)
}

func ModF(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.Int.Sign() > 0 {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.Int, b.Int, m)
		return IntB(m)
	}
	if isIntV(b, 1) {
		return Int(0)
	}
	if a.Op == "app" && a.Name == "mod" && a.Args[1] == b {
		return a
	}
	return App("mod", SInt, a, b)
}

func cmpConst(a, b *Term) (int, bool) {
	x, c := split(a)
	y, d := split(b)
	if x == y {
		return c.Cmp(d), true
	}
	return 0, false
}

func Le(a, b *Term) *Term {
	if r, ok := cmpConst(a, b); ok {
		return Bool(r <= 0)
	}
	return App("<=", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	if r, ok := cmpConst(a, b); ok {
		return Bool(r < 0)
	}
	return App("<", SBool, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// arrays ------------------------------------------------------------------
func Select(a, i *Term) *Term {
	for a.Op == "app" && a.Name == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		if definitelyDifferent(a.Args[1], i) {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "app" && a.Name == "constarr" {
		return a.Args[0]
	}
	return App("select", arrElem(a.Sort), a, i)
}

func Store(a, i, v *Term) *Term {
	if arrElem(a.Sort) != v.Sort {
		panic(fmt.Sprintf("Store: value sort %s into %s", v.Sort, a.Sort))
	}
	if a.Op == "app" && a.Name == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "app" && v.Name == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return App("store", a.Sort, a, i, v)
}

func ConstArr(elem *Term, s Sort) *Term { return App("constarr", s, elem) }

// quantifiers -------------------------------------------------------------
func freeBound(t *Term, seen map[*Term]bool, out map[*Term]bool) {
	if !t.bound || seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "bvar" {
		out[t] = true
		return
	}
	if t.Op == "forall" || t.Op == "exists" {
		inner := map[*Term]bool{}
		s2 := map[*Term]bool{}
		for _, a := range t.Args {
			freeBound(a, s2, inner)
		}
		for _, v := range t.Vars {
			delete(inner, v)
		}
		for k := range inner {
			out[k] = true
		}
		return
	}
	for _, a := range t.Args {
		freeBound(a, seen, out)
	}
}

func Quant(kind string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	t := &Term{Op: kind, Sort: SBool, Args: []*Term{body}, Vars: vars, Pats: pats}
	r := B.mk(t)
	// recompute bound flag
	out := map[*Term]bool{}
	freeBound(&Term{Op: kind, Args: r.Args, Vars: r.Vars, bound: true}, map[*Term]bool{}, out)
	r.bound = len(out) > 0
	return r
}

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return Quant("forall", vars, body, pats)
}

// substitution of bound variables / symbols
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return subst(t, m, memo)
}

func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	switch t.Op {
	case "app":
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = subst(a, m, memo)
			if args[i] != a {
				ch = true
			}
		}
		if !ch {
			r = t
		} else {
			r = rebuild(t, args)
			if n := normLen[t]; n != nil && normLen[r] == nil {
				normLen[r] = subst(n, m, memo)
			}
		}
	case "forall", "exists":
		body := subst(t.Args[0], m, memo)
		if body == t.Args[0] {
			r = t
		} else {
			var pats [][]*Term
			for _, p := range t.Pats {
				var q []*Term
				for _, x := range p {
					q = append(q, subst(x, m, memo))
				}
				pats = append(pats, q)
			}
			r = Quant(t.Op, t.Vars, body, pats)
		}
	default:
		r = t
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Name {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		if len(args) == 2 {
			return Add(args[0], args[1])
		}
	case "-":
		if len(args) == 2 {
			return Sub(args[0], args[1])
		}
	case "*":
		return Mul(args[0], args[1])
	case "div":
		return DivF(args[0], args[1])
	case "mod":
		return ModF(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "dyntype":
		return dynType(args[0])
	case "bit.on":
		return bitOn(args[0], int(args[1].Int.Int64()))
	}
	if strings.HasPrefix(t.Name, "unbox:") && args[0].Op == "app" && strings.HasPrefix(args[0].Name, "box:") {
		tn := strings.TrimPrefix(args[0].Name, "box:")
		rest := strings.TrimPrefix(t.Name, "unbox:")
		if strings.HasPrefix(rest, tn+":") {
			p := rest[len(tn)+1:]
			for i, l := range leavesOf(boxType[args[0].Name]) {
				if l.Path == p {
					return args[0].Args[i]
				}
			}
		}
	}
	return App(t.Name, t.Sort, args...)
}

// printing ------------------------------------------------------------------
func (t *Term) String() string {
	var sb strings.Builder
	t.print(&sb, nil)
	s := sb.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func smtName(n string) string {
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.!?$-", c)) {
			return "|" + strings.NewReplacer("|", "^", "\\", "^").Replace(n) + "|"
		}
	}
	return n
}

var nativeOps = map[string]bool{"not": true, "and": true, "or": true, "=>": true, "ite": true, "=": true, "+": true, "-": true, "*": true, "div": true, "mod": true,
	"<=": true, "<": true, "select": true, "store": true, "constarr": true, "distinct": true}

func isNative(n string) bool {
	return nativeOps[n] || strings.HasPrefix(n, "fp.") || strings.HasPrefix(n, "bv") || strings.HasPrefix(n, "(_ ") || n == "concat" || n == "ubv_to_int"
}

func (t *Term) print(sb *strings.Builder, defs map[*Term]string) {
	if defs != nil {
		if n, ok := defs[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	t.printHead(sb, defs)
}

func (t *Term) printHead(sb *strings.Builder, defs map[*Term]string) {
	switch t.Op {
	case "sym", "bvar":
		sb.WriteString(smtName(t.Name))
	case "raw":
		sb.WriteString(t.Name)
	case "int":
		if t.Int.Sign() < 0 {
			sb.WriteString("(- " + new(big.Int).Neg(t.Int).String() + ")")
		} else {
			sb.WriteString(t.Int.String())
		}
	case "true", "false":
		sb.WriteString(t.Op)
	case "app":
		if t.Name == "constarr" {
			sb.WriteString("((as const " + string(t.Sort) + ") ")
			t.Args[0].print(sb, defs)
			sb.WriteString(")")
			return
		}
		sb.WriteByte('(')
		if isNative(t.Name) {
			sb.WriteString(t.Name)
		} else {
			sb.WriteString(smtName(t.Name))
		}
		for _, a := range t.Args {
			sb.WriteByte(' ')
			a.print(sb, defs)
		}
		sb.WriteByte(')')
	case "forall", "exists":
		sb.WriteString("(" + t.Op + " (")
		for i, v := range t.Vars {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString("(" + smtName(v.Name) + " " + string(v.Sort) + ")")
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		t.Args[0].print(sb, defs)
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					x.print(sb, defs)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		panic("print " + t.Op)
	}
}

// Raw SMT text term (literals of FP / BV theories)
func Raw(text string, s Sort) *Term { return B.mk(&Term{Op: "raw", Name: text, Sort: s}) }

func collect(t *Term, seen map[*Term]bool, syms map[string]Sort, funs map[string]bool, refs map[*Term]int) {
	refs[t]++
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.Op {
	case "sym":
		syms[t.Name] = t.Sort
	case "app":
		if !isNative(t.Name) {
			funs[t.Name] = true
		}
	}
	for _, a := range t.Args {
		collect(a, seen, syms, funs, refs)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			collect(x, seen, syms, funs, refs)
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// olderThan: id is an allocated object and x was computed from values that
// existed before it
func olderThan(x, id *Term) bool {
	m, ok := objMark[id]
	if !ok || x == id || x.bound || x.Sort != SInt {
		return false
	}
	return oldTerm(x, m, []*Term{id}, map[*Term]bool{})
}

// oldTerm: x mentions only symbols up to number m (or symbols of the initial
// state), and none of the objects
func oldTerm(x *Term, m int, ids []*Term, seen map[*Term]bool) bool {
	if seen[x] {
		return true
	}
	seen[x] = true
	if x.bound || x.Op == "sym" && x.maxS > m && !initialMem(x.Name) && !strings.HasPrefix(x.Name, "lit_") && x.Name != "any_nil" {
		return false
	}
	if x.Sort == SInt {
		for _, id := range ids {
			if x == id || freshSince(x, id) {
				return false
			}
		}
	}
	for _, y := range x.Args {
		if !oldTerm(y, m, ids, seen) {
			return false
		}
	}
	return true
}

// initialMem: a memory of the initial state
func initialMem(name string) bool {
	if len(name) < 2 || name[0] != 'M' {
		return false
	}
	i := 1
	for i < len(name) && name[i] >= '0' && name[i] <= '9' {
		i++
	}
	return i > 1 && i < len(name) && name[i] == '['
}
