package main

import (
	"math/big"
	"sort"
)

// Quantified indices. A hypothesis "forall i. ... a[off+i] ..." cannot be
// instantiated by matching, since off+i is arithmetic. Substituting
// i = j-off, a bijection on the integers, makes the index a plain variable.

type linForm struct {
	m map[*Term]*big.Int
	c *big.Int
}

func linOf(t *Term, k *big.Int, out *linForm, sub map[*Term]*linForm) {
	if f, ok := sub[t]; ok {
		for a, x := range f.m {
			addCoef(out, a, new(big.Int).Mul(x, k))
		}
		out.c.Add(out.c, new(big.Int).Mul(f.c, k))
		return
	}
	switch {
	case t.Op == "int":
		out.c.Add(out.c, new(big.Int).Mul(t.Int, k))
		return
	case t.Op == "app" && t.Name == "+":
		for _, a := range t.Args {
			linOf(a, k, out, sub)
		}
		return
	case t.Op == "app" && t.Name == "-" && len(t.Args) == 2:
		linOf(t.Args[0], k, out, sub)
		linOf(t.Args[1], new(big.Int).Neg(k), out, sub)
		return
	case t.Op == "app" && t.Name == "*" && len(t.Args) == 2:
		if t.Args[0].Op == "int" {
			linOf(t.Args[1], new(big.Int).Mul(k, t.Args[0].Int), out, sub)
			return
		}
		if t.Args[1].Op == "int" {
			linOf(t.Args[0], new(big.Int).Mul(k, t.Args[1].Int), out, sub)
			return
		}
	}
	addCoef(out, t, k)
}

func addCoef(f *linForm, a *Term, k *big.Int) {
	x := f.m[a]
	if x == nil {
		x = new(big.Int)
	}
	x = new(big.Int).Add(x, k)
	if x.Sign() == 0 {
		delete(f.m, a)
	} else {
		f.m[a] = x
	}
}

func newLin(t *Term, sub map[*Term]*linForm) *linForm {
	f := &linForm{map[*Term]*big.Int{}, new(big.Int)}
	linOf(t, big.NewInt(1), f, sub)
	return f
}

func (f *linForm) term() *Term {
	var as []*Term
	for a := range f.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	r := Int(0)
	for _, a := range as {
		if f.m[a].Sign() > 0 {
			r = Add(r, Mul(IntB(f.m[a]), a))
		}
	}
	for _, a := range as {
		if f.m[a].Sign() < 0 {
			r = Sub(r, Mul(IntB(new(big.Int).Neg(f.m[a])), a))
		}
	}
	return Add(r, IntB(f.c))
}

func mentions(t *Term, x *Term, memo map[*Term]bool) bool {
	if t == x {
		return true
	}
	if !t.bound {
		return false
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = false
	r := false
	for _, a := range t.Args {
		if mentions(a, x, memo) {
			r = true
			break
		}
	}
	memo[t] = r
	return r
}

// linSubst replaces variables inside t, normalising the sums it touches
func linSubst(t *Term, sub map[*Term]*linForm, plain map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := plain[t]; ok {
		return r
	}
	if !t.bound {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	switch {
	case t.Op == "app" && t.Sort == SInt && (t.Name == "+" || t.Name == "-" && len(t.Args) == 2):
		hit := false
		for x := range sub {
			if mentions(t, x, map[*Term]bool{}) {
				hit = true
			}
		}
		if !hit {
			r = t
			break
		}
		f := newLin(t, nil)
		g := &linForm{map[*Term]*big.Int{}, new(big.Int).Set(f.c)}
		for a, k := range f.m {
			if s, ok := sub[a]; ok {
				for b, x := range s.m {
					addCoef(g, b, new(big.Int).Mul(x, k))
				}
				g.c.Add(g.c, new(big.Int).Mul(s.c, k))
			} else {
				b := linSubst(a, sub, plain, memo)
				linOf(b, k, g, nil)
			}
		}
		r = g.term()
	case t.Op == "app":
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = linSubst(a, sub, plain, memo)
			ch = ch || args[i] != a
		}
		if ch {
			r = rebuild(t, args)
		} else {
			r = t
		}
	case t.Op == "forall" || t.Op == "exists":
		b := linSubst(t.Args[0], sub, plain, memo)
		if b == t.Args[0] {
			r = t
		} else {
			r = Quant(t.Op, t.Vars, b, nil)
		}
	default:
		r = t
	}
	memo[t] = r
	return r
}

// reindex rewrites the quantifiers of t; keep: list of extra copies to assert
func reindex(t *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	switch t.Op {
	case "app":
		if t.Sort == SBool {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = a
				if a.Sort == SBool {
					args[i] = reindex(a, memo)
				}
				ch = ch || args[i] != a
			}
			if ch {
				r = rebuild(t, args)
			}
		}
	case "forall", "exists":
		body := reindex(t.Args[0], memo)
		vars := append([]*Term{}, t.Vars...)
		pats := t.Pats
		changed := body != t.Args[0]
		if len(pats) == 0 {
			for n, x := range vars {
				if x.Sort != SInt {
					continue
				}
				c, bare := indexOffset(body, x, vars)
				if c == nil || bare {
					continue
				}
				j := BoundVar(x.Name, SInt)
				s := &linForm{map[*Term]*big.Int{j: big.NewInt(1)}, new(big.Int)}
				for a, k := range c.m {
					addCoef(s, a, new(big.Int).Neg(k))
				}
				s.c.Sub(s.c, c.c)
				st := s.term()
				body = linSubst(body, map[*Term]*linForm{x: s}, map[*Term]*Term{x: st}, map[*Term]*Term{})
				vars[n] = j
				changed = true
			}
		} else if changed {
			pats = nil
		}
		if changed {
			if len(vars) == 1 && len(pats) == 0 {
				pats = plainPats(body, vars[0])
			}
			r = Quant(t.Op, vars, body, pats)
		}
	}
	memo[t] = r
	return r
}

// plainPats: the terms (select A x) with x the quantified variable, A without
// bound variables
func plainPats(body, x *Term) [][]*Term {
	var out [][]*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.Op == "app" && t.Name == "select" && t.Args[1] == x && !t.Args[0].bound && len(out) < 8 {
			out = append(out, []*Term{t})
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(body)
	return out
}

// indexOffset: the common offset c of the indices c+x in body; bare: x itself
// is an index or an argument somewhere
func indexOffset(body, x *Term, vars []*Term) (best *linForm, bare bool) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.Op == "app" {
			if t.Name == "*" && t.Args[0].Op != "int" && t.Args[1].Op != "int" && mentions(t, x, map[*Term]bool{}) {
				bare = true // products of the variable must keep their shape
			}
			if t.Name == "select" && t.Args[1].Sort == SInt {
				i := t.Args[1]
				if i == x {
					bare = true
				} else if i.Op == "app" && (i.Name == "+" || i.Name == "-") {
					f := newLin(i, nil)
					if k := f.m[x]; k != nil && k.IsInt64() && k.Int64() == 1 {
						delete(f.m, x)
						ok := true
						for a := range f.m {
							// the offset may mention variables of outer quantifiers only
							for _, y := range vars {
								if mentions(a, y, map[*Term]bool{}) {
									ok = false
								}
							}
							if a.bound && !outerOnly(a, body) {
								ok = false
							}
						}
						if ok && best == nil {
							best = f
						}
					}
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(body)
	return
}

// outerOnly: a's bound variables are not bound inside body
func outerOnly(a, body *Term) bool {
	in := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.bound && t.Op != "forall" && t.Op != "exists" {
			return
		}
		seen[t] = true
		for _, v := range t.Vars {
			in[v] = true
		}
		for _, x := range t.Args {
			walk(x)
		}
	}
	walk(body)
	fv := map[*Term]bool{}
	freeBound(a, map[*Term]bool{}, fv)
	for v := range fv {
		if in[v] {
			return false
		}
	}
	return true
}
