package main

// Discharging obligations: SMT-LIB generation and the solver portfolio.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Query struct {
	hyps []*Term
	goal *Term // nil: satisfiability of the hypotheses
	fp   bool
	bits bool // with the definitions of the bit operations
}

// normalise strips universal quantifiers and implications off the goal
func normalise(goal *Term) (hyps []*Term, g *Term) {
	g = goal
	for {
		switch {
		case g.Op == "app" && g.Name == "=>":
			hyps = append(hyps, g.Args[0])
			g = g.Args[1]
		case g.Op == "forall":
			m := map[*Term]*Term{}
			for _, b := range g.Vars {
				m[b] = Fresh("sk_"+strings.SplitN(b.Name, "?", 2)[0], b.Sort)
			}
			// the trigger terms stay visible in every part of the goal
			for _, p := range g.Pats {
				for _, x := range p {
					hyps = append(hyps, hintTerms(Subst(x, m))...)
				}
			}
			ps := g.Pats
			g = Subst(g.Args[0], m)
			if len(ps) == 0 {
				hyps = append(hyps, elementHints(g, m)...)
			}
		case g.Op == "app" && g.Name == "or":
			// a or b or (c => d): take negated disjuncts as hypotheses
			var last *Term
			for _, a := range g.Args {
				if a.Op == "forall" || a.Op == "app" && (a.Name == "and" || a.Name == "=>") {
					last = a
				}
			}
			if last == nil {
				return
			}
			for _, a := range g.Args {
				if a != last {
					hyps = append(hyps, Not(a))
				}
			}
			g = last
		default:
			return
		}
	}
}

// hint makes t occur in the query; a fresh constant equated to t would be
// eliminated again by the solver's preprocessing
func hint(t *Term) *Term {
	name := "hint." + strings.Map(func(r rune) rune {
		if r == '(' || r == ')' || r == ' ' {
			return '_'
		}
		return r
	}, string(t.Sort))
	return Fn(name, SBool, t)
}

// hintTerms makes t (and, for an element of an updated array, the element of the
// array before the updates) occur in the query
func hintTerms(t *Term) []*Term {
	if t.bound || t.Op != "app" || t.Sort == SBool {
		return nil
	}
	out := []*Term{hint(t)}
	if t.Name == "select" {
		a := t.Args[0]
		for a.Op == "app" && a.Name == "store" {
			a = a.Args[0]
		}
		if a != t.Args[0] {
			out = append(out, hint(Select(a, t.Args[1])))
		}
	}
	return out
}

// elementHints: the elements the goal reads at the skolem constants
func elementHints(g *Term, m map[*Term]*Term) []*Term {
	sk := map[*Term]bool{}
	for _, x := range m {
		sk[x] = true
	}
	var out []*Term
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] || t.Op == "forall" || t.Op == "exists" {
			return
		}
		seen[t] = true
		if t.Op == "app" && t.Name == "select" && sk[t.Args[1]] && len(out) < 16 {
			out = append(out, hintTerms(t)...)
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	visit(g)
	return out
}

// splitGoal divides a goal into independent goals
func splitGoal(goal *Term) [][2]*Term {
	hyps, g := normalise(goal)
	h := And(hyps...)
	if g.Op == "app" && g.Name == "and" && len(g.Args) <= 24 {
		var out [][2]*Term
		for _, a := range g.Args {
			for _, s := range splitGoal(a) {
				if h == tTrue {
					out = append(out, s)
				} else {
					out = append(out, lastCase(And(h, s[0]), s[1])...)
				}
			}
		}
		return out
	}
	return lastCase(h, g)
}

// lastCase splits a goal about all sk < n+1 into sk < n and sk = n
func lastCase(h, g *Term) [][2]*Term {
	hs := []*Term{h}
	if h.Op == "app" && h.Name == "and" {
		hs = h.Args
	}
	for _, x := range hs {
		if x.Op != "app" || x.Name != "<" {
			continue
		}
		a, b := x.Args[0], x.Args[1]
		if a.Op != "sym" || !strings.HasPrefix(a.Name, "sk_") {
			continue
		}
		y, c := split(b)
		if y == nil || c.Cmp(big.NewInt(1)) != 0 || occurs(a, y) {
			continue
		}
		m := map[*Term]*Term{a: y}
		memo := map[*Term]*Term{}
		return [][2]*Term{{And(skipStores(h, a, y, memo), Lt(a, y)), skipStores(g, a, y, memo)}, {Subst(h, m), Subst(g, m)}}
	}
	return [][2]*Term{{h, g}}
}

// skipStores: with a < y, an element at index i(a) is not the one stored at i(y)
func skipStores(t, a, y *Term, memo map[*Term]*Term) *Term {
	if t.Op != "app" {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, x := range t.Args {
		args[i] = skipStores(x, a, y, memo)
		ch = ch || args[i] != x
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	for r.Op == "app" && r.Name == "select" && r.Args[0].Op == "app" && r.Args[0].Name == "store" {
		i, j := r.Args[0].Args[1], r.Args[1]
		yi, c := split(i)
		aj, d := split(j)
		if i == j || yi == nil || aj == nil || c.Cmp(d) != 0 || !linearIn(yi, y) || Subst(yi, map[*Term]*Term{y: a}) != aj {
			break
		}
		r = Select(r.Args[0].Args[0], j)
	}
	memo[t] = r
	return r
}

// linearIn: t is y, or a sum with y as one of its terms and not in the others
func linearIn(t, y *Term) bool {
	if t == y {
		return true
	}
	if t.Op != "app" || t.Name != "+" {
		return false
	}
	n := 0
	for _, x := range t.Args {
		if x == y {
			n++
		} else if occurs(y, x) {
			return false
		}
	}
	return n == 1
}

func occurs(a, t *Term) bool {
	if a == t {
		return true
	}
	for _, x := range t.Args {
		if occurs(a, x) {
			return true
		}
	}
	return false
}

// groundTerms lists the subterms without free bound variables
func groundTerms(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			walk(a)
		}
		if !t.bound {
			out = append(out, t)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

// stripFresh: a specification function whose arguments are older than an object
// does not depend on what is stored in that object
func stripFresh(t *Term) *Term {
	marks := map[int]bool{}
	for _, a := range t.Args {
		for a.Op == "app" && a.Name == "store" {
			if m, ok := objMark[a.Args[1]]; ok {
				marks[m] = true
			}
			a = a.Args[0]
		}
	}
	if len(marks) == 0 {
		return t
	}
	var ms []int
	for m := range marks {
		ms = append(ms, m)
	}
	sort.Ints(ms)
	for _, m := range ms {
		args := make([]*Term, len(t.Args))
		ok, ch := true, false
		var ids []*Term
		for i, a := range t.Args {
			for a.Op == "app" && a.Name == "store" {
				k, is := objMark[a.Args[1]]
				if !is || k < m {
					break
				}
				ids = append(ids, a.Args[1])
				a = a.Args[0]
			}
			args[i] = a
			ch = ch || a != t.Args[i]
		}
		if !ch {
			continue
		}
		seen := map[*Term]bool{}
		for _, a := range args {
			ok = ok && oldTerm(a, m, ids, seen)
		}
		if ok {
			return App(t.Name, t.Sort, args...)
		}
	}
	return t
}

func unfoldRec(ts []*Term) []*Term {
	depth := map[*Term]int{}
	var eqs []*Term
	frontier := ts
	seen := map[*Term]bool{}
	for round := 1; round <= 8; round++ {
		var next []*Term
		for _, t := range groundTerms(frontier) {
			if seen[t] || t.Op != "app" {
				continue
			}
			d := recDefs[t.Name]
			if d == nil {
				continue
			}
			seen[t] = true
			if depth[t] == 0 {
				depth[t] = 1
			}
			if s := stripFresh(t); s != t {
				if n := normLen[t]; n != nil && normLen[s] == nil {
					normLen[s] = n
				}
				eqs = append(eqs, Eq(t, s))
				next = append(next, Eq(t, s))
				if depth[s] == 0 {
					depth[s] = depth[t]
				}
				continue
			}
			if depth[t] > d.unfold {
				continue
			}
			if len(d.params) != len(t.Args) {
				panic("recursive definition arity " + t.Name)
			}
			m := map[*Term]*Term{}
			for i, p := range d.params {
				m[p] = t.Args[i]
			}
			b := Subst(d.body, m)
			if d.idx != nil {
				n := Subst(d.length, m)
				sel := Select(t, d.idx)
				e := Forall([]*Term{d.idx}, Implies(And(Le(Int(0), d.idx), Lt(d.idx, n)), Eq(sel, b)), []*Term{sel})
				eqs = append(eqs, e)
				next = append(next, e)
				continue
			}
			for _, s := range groundTerms([]*Term{b}) {
				if s.Op == "app" && recDefs[s.Name] != nil && depth[s] == 0 {
					depth[s] = depth[t] + 1
				}
			}
			e := Eq(t, b)
			eqs = append(eqs, e)
			next = append(next, e)
		}
		if len(next) == 0 {
			break
		}
		frontier = next
	}
	return eqs
}

// seqLength: the length of a sequence value (nil: not a sequence value)
func seqLength(t *Term) *Term {
	if t.Op == "app" && strings.HasPrefix(t.Name, "seq.norm:") {
		return t.Args[2]
	}
	return normLen[t]
}

// seqExtensionality: two sequence values given to the same specification
// function in the same position are the same value if their elements agree
func seqExtensionality(ts []*Term) []*Term {
	type slot struct {
		f string
		i int
	}
	at := map[slot][]*Term{}
	var order []slot
	for _, t := range groundTerms(ts) {
		if t.Op != "app" || !strings.HasPrefix(t.Name, "sf:") {
			continue
		}
		for i, a := range t.Args {
			if a.bound || seqLength(a) == nil || seqLength(a).bound {
				continue
			}
			k := slot{t.Name, i}
			dup := false
			for _, b := range at[k] {
				dup = dup || b == a
			}
			if !dup {
				if len(at[k]) == 0 {
					order = append(order, k)
				}
				at[k] = append(at[k], a)
			}
		}
	}
	var out []*Term
	done := map[[2]*Term]bool{}
	for _, k := range order {
		xs := at[k]
		for i := range xs {
			for j := i + 1; j < len(xs); j++ {
				p := [2]*Term{xs[i], xs[j]}
				if done[p] || xs[i].Sort != xs[j].Sort || len(out) >= 40 {
					continue
				}
				done[p] = true
				done[[2]*Term{xs[j], xs[i]}] = true
				n, m := seqLength(xs[i]), seqLength(xs[j])
				d := extSym(xs[i], xs[j])
				out = append(out, Or(Not(Eq(n, m)), And(Le(Int(0), d), Lt(d, n), Not(Eq(Select(xs[i], d), Select(xs[j], d)))), Eq(xs[i], xs[j])))
			}
		}
	}
	return out
}

var extSyms = map[[2]*Term]*Term{}

// extSym: an index where two sequences differ
func extSym(a, b *Term) *Term {
	k := [2]*Term{a, b}
	if s, ok := extSyms[k]; ok {
		return s
	}
	s := Fresh("differ", SInt)
	extSyms[k] = s
	return s
}

// usablePatterns: solvers reject patterns with connectives; ground subterms
// with connectives get a name, patterns with connectives over bound variables
// are dropped
func usablePatterns(all []*Term) []*Term {
	conn := map[*Term]int{}
	var hasConn func(t *Term) bool
	hasConn = func(t *Term) bool {
		if c, ok := conn[t]; ok {
			return c == 1
		}
		r := t.Op == "forall" || t.Op == "exists"
		if t.Op == "app" {
			switch t.Name {
			case "ite", "and", "or", "not", "=>", "=", "<", "<=":
				r = true
			}
		}
		for _, a := range t.Args {
			r = r || hasConn(a)
		}
		conn[t] = 0
		if r {
			conn[t] = 1
		}
		return r
	}
	var eqs []*Term
	names := map[*Term]*Term{}
	bad := false
	var lift func(t *Term) *Term
	lift = func(t *Term) *Term {
		if !hasConn(t) {
			return t
		}
		if !t.bound {
			if t.Sort == SBool {
				bad = true
				return t
			}
			s, ok := names[t]
			if !ok {
				s = Fresh("pat", t.Sort)
				names[t] = s
				eqs = append(eqs, Eq(s, t))
			}
			return s
		}
		if t.Op != "app" || t.Sort == SBool || t.Name == "ite" {
			bad = true
			return t
		}
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = lift(a)
		}
		return B.mk(&Term{Op: t.Op, Name: t.Name, Sort: t.Sort, Args: args})
	}
	memo := map[*Term]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		ch := false
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = walk(a)
			ch = ch || args[i] != a
		}
		pats := t.Pats
		for _, p := range t.Pats {
			for _, x := range p {
				if hasConn(x) {
					ch = true
					pats = nil
				}
			}
		}
		if ch {
			if pats == nil {
				for _, p := range t.Pats {
					bad = false
					var q []*Term
					for _, x := range p {
						q = append(q, lift(x))
					}
					if !bad {
						pats = append(pats, q)
					}
				}
			}
			r = B.mk(&Term{Op: t.Op, Name: t.Name, Sort: t.Sort, Args: args, Vars: t.Vars, Pats: pats, Int: t.Int})
			r.bound = t.bound
		}
		memo[t] = r
		return r
	}
	out := make([]*Term, len(all))
	for i, t := range all {
		out[i] = walk(t)
	}
	return append(out, eqs...)
}

func keyOfMem(m *Term) string {
	r := map[*Term]bool{}
	rootSyms(m, r)
	for x := range r {
		if k, ok := memKeyOf[x]; ok {
			return k
		}
	}
	return ""
}

// bitsUsed: the bit positions asked for in the terms
func bitsUsed(ts []*Term) []int {
	ks := map[int]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "app" && t.Name == "bit.on" {
			ks[int(t.Args[1].Int.Int64())] = true
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	for _, t := range ts {
		visit(t)
	}
	var out []int
	for k := range ks {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// maskTerm: a value built from masks (its bits are known structurally)
func maskTerm(t *Term) bool {
	if t.Op == "int" {
		return true
	}
	if t.Op != "app" {
		return false
	}
	switch t.Name {
	case "bits.set", "bits.or8", "bits.and8":
		return true
	case "ite":
		return t.Sort == SInt && maskTerm(t.Args[1]) && maskTerm(t.Args[2])
	}
	return false
}

// facts about the ground terms of a query: typing, boxing, strings
func groundFacts(ts []*Term) []*Term {
	var out []*Term
	done := map[*Term]bool{}
	add := func(t *Term) {
		if t != nil && t != tTrue && !done[t] {
			done[t] = true
			out = append(out, t)
		}
	}
	frontier := ts
	seen := map[*Term]bool{}
	ks := bitsUsed(ts)
	var preds []*Term
	lens := false // lengths of strings matter
	for _, t := range groundTerms(ts) {
		lens = lens || t.Op == "app" && t.Name == "str.len_"
	}
	for round := 0; round < 4; round++ {
		n0 := len(out)
		for _, t := range groundTerms(frontier) {
			if seen[t] {
				continue
			}
			seen[t] = true
			if f, ok := typeFact[t]; ok {
				add(f)
			} else if t.Sort == SInt && t.Op == "app" && t.Name == "select" && t.Args[0].Op == "app" && t.Args[0].Name == "select" {
				if k := keyOfMem(t.Args[0].Args[0]); k != "" {
					if l, ok := keyLeaf[k]; ok && l.Sort == SInt {
						add(leafFact(t, l, nil, tTrue))
					}
				}
			}
			add(sliceFact[t])
			add(sliceNil[t])
			for _, a := range symAxiom[t] {
				add(a)
			}
			if n, ok := strLitName[t.Name]; ok && t.Op == "sym" && lens {
				add(Eq(Fn("str.len_", SInt, t), Int(int64(len(n)))))
			}
			if t.Op != "app" {
				continue
			}
			if len(ks) > 0 && t.Sort == SInt && maskTerm(t) {
				for _, k := range ks {
					add(Eq(Fn("bit.on", SBool, t, Int(int64(k))), bitOn(t, k)))
				}
			}
			switch {
			case t.Name == "str.len_":
				add(Le(Int(0), t))
				if c := t.Args[0]; c.Op == "app" && c.Name == "str.cat_" {
					add(Eq(t, Add(strLen(c.Args[0]), strLen(c.Args[1]))))
				}
			case t.Name == "str.at_":
				add(And(Le(Int(0), t), Lt(t, Int(256))))
				if s, ok := strLitName[t.Args[0].Name]; ok && t.Args[0].Op == "sym" && len(s) <= 64 {
					for i := 0; i < len(s); i++ {
						add(Implies(Eq(t.Args[1], Int(int64(i))), Eq(t, Int(int64(s[i])))))
					}
				}
			case strings.HasPrefix(t.Name, "le.") || strings.HasPrefix(t.Name, "be."):
				add(binFact(t))
			case t.Name == "str.of_seq": // string([]byte)
				if q := t.Args[0]; q.Op == "app" && q.Name == "seq.mk" {
					i := normIdx(t)
					sel := Fn("str.at_", SInt, t, i)
					add(Implies(Le(Int(0), q.Args[2]), Eq(strLen(t), q.Args[2])))
					add(Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, q.Args[2])), Eq(sel, Select(q.Args[0], Add(q.Args[1], i)))), []*Term{sel}))
				}
			case strings.HasPrefix(t.Name, "seq.norm:"):
				i := normIdx(t)
				sel := Select(t, i)
				add(Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, t.Args[2])), Eq(sel, Select(t.Args[0], Add(t.Args[1], i)))), []*Term{sel}))
			case t.Name == "go_div" || t.Name == "div" && t.Args[1].Op != "int":
				a, b := t.Args[0], t.Args[1]
				add(Implies(And(Le(Int(0), a), Lt(Int(0), b)), And(Le(Int(0), t), Le(Mul(b, t), a), Lt(a, Add(Mul(b, t), b)))))
				if t.Name == "go_div" {
					add(Implies(And(Le(Int(0), a), Lt(Int(0), b)), Eq(t, App("div", SInt, a, b))))
				}
			case t.Name == "f64.add" || t.Name == "f64.mul" || t.Name == "f32.add" || t.Name == "f32.mul":
				add(Eq(t, Fn(t.Name, t.Sort, t.Args[1], t.Args[0]))) // commutative
				if t.Name == "f64.mul" {                             // x * 1.0 = x
					add(Implies(Eq(t.Args[1], F64Lit(1)), Eq(t, t.Args[0])))
				}
			case t.Name == "go_mod":
				a, b := t.Args[0], t.Args[1]
				add(Implies(And(Le(Int(0), a), Lt(Int(0), b)), Eq(t, App("mod", SInt, a, b))))
			case t.Name == "rune.space_except":
				add(spaceExceptAxiom(t))
			case t.Name == "strs.TrimFunc":
				for _, g := range preds {
					if g != t.Args[1] {
						add(predExt(g, t.Args[1]))
					}
				}
				preds = append(preds, t.Args[1])
			case t.Name == "bits.or32" || t.Name == "bits.shl32" && t.Args[0] == Int(1):
				add(shiftAxiom(t))
			case t.Name == "bits.shr":
				x, k := t.Args[0], t.Args[1]
				add(Implies(Le(Int(0), x), And(Le(Int(0), t), Le(t, x))))
				add(Implies(Eq(k, Int(0)), Eq(t, x)))
			case strings.HasSuffix(t.Name, ".of_f64") && t.Sort == SInt:
				x := t.Args[0]
				kd := kindByName(strings.TrimSuffix(t.Name, ".of_f64"))
				if x.Op == "app" && x.Name == "f64.of_int" {
					n := x.Args[0]
					add(Implies(And(inRange(n, kd), Lt(Int(-(1<<53)), n), Lt(n, Int(1<<53))), Eq(t, n)))
				}
				if kd == types.Int32 { // amd64: CVTTSD2SL yields -2^31 for NaN and out of range
					lo := Int(-(1 << 31))
					add(Implies(Not(Fn("f64.eq", SBool, x, x)), Eq(t, lo)))
					add(Implies(Fn("f64.le", SBool, F64Lit(1<<31), x), Eq(t, lo)))
					add(Implies(Not(Fn("f64.lt", SBool, x, F64Lit(1<<31))), Eq(t, lo)))
					add(Implies(Fn("f64.le", SBool, x, F64Lit(-(1<<31)-1)), Eq(t, lo)))
				}
			case t.Name == "dyntype":
				add(Le(Int(0), t))
				add(Eq(Eq(t, Int(0)), Eq(t.Args[0], Sym("any_nil", SAny))))
			case strings.HasPrefix(t.Name, "unbox:"):
				rest := strings.TrimPrefix(t.Name, "unbox:")
				for n, ty := range boxType {
					tn := strings.TrimPrefix(n, "box:")
					if !strings.HasPrefix(rest, tn+":") {
						continue
					}
					var us []*Term
					for i, l := range leavesOf(ty) {
						us = append(us, unboxLeaf(t.Args[0], ty, i, l))
					}
					add(Implies(Eq(Fn("dyntype", SInt, t.Args[0]), typeTag(ty)), Eq(t.Args[0], Fn(n, SAny, us...))))
					p := strings.TrimPrefix(rest, tn+":")
					for _, l := range leavesOf(ty) {
						if l.Path == p && l.Sort == SInt {
							add(leafFact(t, l, nil, nil))
						}
					}
				}
			case strings.HasPrefix(t.Name, "box:"):
				add(Eq(Fn("dyntype", SInt, t), typeTag(boxType[t.Name])))
				add(Not(Eq(t, Sym("any_nil", SAny))))
				for i, l := range leavesOf(boxType[t.Name]) {
					add(Eq(Fn("unbox:"+typeName(boxType[t.Name])+":"+l.Path, l.Sort, t), t.Args[i]))
				}
			case t.Sort == SAny && t.Op == "sym" && strings.HasPrefix(t.Name, "box0:"):
				add(Eq(Fn("dyntype", SInt, t), Int(typeTags[strings.TrimPrefix(t.Name, "box0:")])))
			}
		}
		if len(out) == n0 {
			break
		}
		frontier = out[n0:]
	}
	return out
}

// shiftAxiom gives the bits of a disjunction and of 1 << j at variable positions
func shiftAxiom(t *Term) *Term {
	k := BoundVar("k", SInt)
	w := func(x *Term) *Term { return And(Le(Int(0), x), Lt(x, Int(32))) }
	word := func(x *Term) *Term { return And(Le(Int(0), x), Lt(x, IntB(Pow2(32)))) }
	on := func(x *Term) *Term { return Eq(bitOf(x, k), Int(1)) }
	trig := []*Term{Fn("bits.shr", SInt, t, k)}
	if t.Name == "bits.shl32" {
		return And(Implies(w(t.Args[1]), word(t)),
			Forall([]*Term{k}, Implies(And(w(k), w(t.Args[1])), Eq(bitOf(t, k), Ite(Eq(k, t.Args[1]), Int(1), Int(0)))), trig))
	}
	a, b := t.Args[0], t.Args[1]
	return And(
		Implies(And(word(a), word(b)), word(t)),
		Forall([]*Term{k}, Implies(And(w(k), word(a), word(b)), Eq(on(t), Or(on(a), on(b)))), trig))
}

// bitAxioms defines the bit operations occurring in the terms
func bitAxioms(ts []*Term) []*Term {
	var out []*Term
	ks := map[int64]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			visit(a)
		}
		if t.Op != "app" {
			return
		}
		if t.Name == "bit.on" && !ks[t.Args[1].Int.Int64()] {
			ks[t.Args[1].Int.Int64()] = true
			x := BoundVar("x", SInt)
			on := Fn("bit.on", SBool, x, t.Args[1])
			out = append(out, Forall([]*Term{x}, bitAxiom(x, t.Args[1]), []*Term{on}))
		}
		if ax := bitOpAxiom(t); ax != nil && !t.bound {
			out = append(out, ax)
			visit(ax)
		}
	}
	for _, t := range ts {
		visit(t)
	}
	return out
}

// quantified boxing axioms for the types occurring under quantifiers
func boxAxioms(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	names := map[string]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.bound && t.Op == "app" {
			if strings.HasPrefix(t.Name, "box:") {
				names[t.Name] = true
			}
			if strings.HasPrefix(t.Name, "unbox:") {
				rest := strings.TrimPrefix(t.Name, "unbox:")
				for n := range boxType {
					if strings.HasPrefix(rest, strings.TrimPrefix(n, "box:")+":") {
						names[n] = true
					}
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	var out []*Term
	for _, n := range sortedKeys(names) {
		ty := boxType[n]
		ls := leavesOf(ty)
		var bs []*Term
		for _, l := range ls {
			bs = append(bs, BoundVar("b", l.Sort))
		}
		if len(ls) == 0 {
			continue
		}
		bx := Fn(n, SAny, bs...)
		cs := []*Term{Eq(Fn("dyntype", SInt, bx), typeTag(ty))}
		for i, l := range ls {
			cs = append(cs, Eq(Fn("unbox:"+typeName(ty)+":"+l.Path, l.Sort, bx), bs[i]))
		}
		out = append(out, Forall(bs, And(cs...), []*Term{bx}))
		a := BoundVar("a", SAny)
		var us []*Term
		for _, l := range ls {
			us = append(us, Fn("unbox:"+typeName(ty)+":"+l.Path, l.Sort, a))
		}
		out = append(out, Forall([]*Term{a}, Implies(Eq(Fn("dyntype", SInt, a), typeTag(ty)), Eq(a, Fn(n, SAny, us...))), []*Term{us[0]}))
		for i, l := range ls {
			if l.Sort == SInt {
				if f := leafFact(us[i], l, nil, nil); f != tTrue {
					out = append(out, Forall([]*Term{a}, f, []*Term{us[i]}))
				}
			}
		}
	}
	return out
}

// ---- printing ------------------------------------------------------------------

func fpTerm(t *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	rs := func(s Sort) Sort {
		x := strings.ReplaceAll(string(s), "F64", "Float64")
		x = strings.ReplaceAll(x, "F32", "Float32")
		return Sort(x)
	}
	var r *Term
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = fpTerm(a, memo)
	}
	op := func(n string, xs ...*Term) *Term { return App(n, rs(t.Sort), xs...) }
	switch t.Op {
	case "sym", "bvar":
		if b, ok := f64Lits[t.Name]; ok && t.Sort == SF64 {
			r = Raw(fmt.Sprintf("((_ to_fp 11 53) #x%016x)", b), rs(t.Sort))
			if f := floatFromBits(b); f != f {
				r = Raw("(_ NaN 11 53)", rs(t.Sort))
			}
		} else if b, ok := f32Lits[t.Name]; ok && t.Sort == SF32 {
			r = Raw(fmt.Sprintf("((_ to_fp 8 24) #x%08x)", b), rs(t.Sort))
		} else if rs(t.Sort) == t.Sort {
			r = t
		} else if t.Op == "bvar" {
			r = B.mk(&Term{Op: "bvar", Name: "fp" + t.Name, Sort: rs(t.Sort), bound: true})
		} else {
			r = Sym("fp$"+t.Name, rs(t.Sort))
		}
	case "forall", "exists":
		var vars []*Term
		for _, x := range t.Vars {
			vars = append(vars, fpTerm(x, memo))
		}
		var pats [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, fpTerm(x, memo))
			}
			pats = append(pats, q)
		}
		r = Quant(t.Op, vars, args[0], pats)
	case "app":
		rne := Raw("RNE", "RoundingMode")
		switch t.Name {
		case "f64.add", "f32.add":
			r = op("fp.add", rne, args[0], args[1])
		case "f64.sub", "f32.sub":
			r = op("fp.sub", rne, args[0], args[1])
		case "f64.mul", "f32.mul":
			r = op("fp.mul", rne, args[0], args[1])
		case "f64.div", "f32.div":
			r = op("fp.div", rne, args[0], args[1])
		case "f64.lt", "f32.lt":
			r = op("fp.lt", args...)
		case "f64.le", "f32.le":
			r = op("fp.leq", args...)
		case "f64.eq", "f32.eq":
			r = op("fp.eq", args...)
		case "f64.neg", "f32.neg":
			r = op("fp.neg", args...)
		case "f64.abs":
			r = op("fp.abs", args...)
		case "f64.ceil":
			r = op("fp.roundToIntegral", Raw("RTP", "RoundingMode"), args[0])
		case "f64.floor":
			r = op("fp.roundToIntegral", Raw("RTN", "RoundingMode"), args[0])
		case "f64.of_f32":
			r = op("(_ to_fp 11 53)", rne, args[0])
		case "f32.of_f64":
			r = op("(_ to_fp 8 24)", rne, args[0])
		case "f64.of_int":
			r = op("(_ to_fp 11 53)", rne, App("to_real", "Real", args[0]))
		default:
			if isNative(t.Name) || rs(t.Sort) == t.Sort && same(args, t.Args) {
				r = App(t.Name, rs(t.Sort), args...)
				if t.Name == "=" && args[0].Sort != args[1].Sort {
					panic("fp sorts")
				}
			} else {
				r = Fn("fp$"+t.Name, rs(t.Sort), args...)
			}
		}
	default:
		r = t
	}
	memo[t] = r
	return r
}

func same(a, b []*Term) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var buildMu sync.Mutex

// propagateValues replaces a term by the integer an assertion equates it with (an
// offset known to be 0 vanishes from index terms); the assertion itself is kept
func propagateValues(ts []*Term) []*Term {
	m := map[*Term]*Term{}
	def := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t.Op != "app" {
			return
		}
		switch t.Name {
		case "and":
			for _, a := range t.Args {
				visit(a)
			}
		case "=":
			a, b := t.Args[0], t.Args[1]
			if b.Op == "int" {
				a, b = b, a
			}
			if a.Op == "int" && b.Op == "app" && b.Name == "select" && m[b] == nil {
				m[b] = a
				def[t] = true
			}
		}
	}
	for _, t := range ts {
		visit(t)
	}
	if len(m) == 0 {
		return ts
	}
	memo := map[*Term]*Term{}
	out := make([]*Term, 0, len(ts))
	for t := range def {
		memo[t] = t
	}
	for _, t := range ts {
		out = append(out, subst(t, m, memo))
	}
	return out
}

// dropFrames leaves out the frame facts (forall a. g => M'[a] = M[a]) that relate a
// memory to one nothing else in the query mentions
func dropFrames(ts []*Term) []*Term {
	type frame struct {
		i        int
		new, old map[*Term]bool
	}
	var frames []frame
	mentioned := map[*Term]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "sym" {
			mentioned[t] = true
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	isFrame := map[int]bool{}
	ranges := map[int]*Term{}
	for i, t := range ts {
		if t.Op == "forall" && len(t.Vars) == 1 && len(t.Pats) == 1 && len(t.Pats[0]) == 1 && t.Args[0].Op == "app" && t.Args[0].Name == "=>" {
			e, p := t.Args[0].Args[1], t.Pats[0][0]
			if e.Op == "app" && e.Name == "=" && p.Op == "app" && p.Name == "select" && p.Args[0].Op == "sym" && p.Args[1] == t.Vars[0] && strings.HasPrefix(string(p.Sort), "(Array") {
				o := e.Args[0]
				if o == p {
					o = e.Args[1]
				}
				if o.Op == "app" && o.Name == "select" && o.Args[1] == t.Vars[0] && (e.Args[0] == p || e.Args[1] == p) {
					f := frame{i, map[*Term]bool{}, map[*Term]bool{}}
					rootSyms(p.Args[0], f.new)
					rootSyms(o.Args[0], f.old)
					frames = append(frames, f)
					isFrame[i] = true
					continue
				}
			}
		}
		if t.Op == "forall" && len(t.Vars) == 2 && len(t.Pats) == 1 && len(t.Pats[0]) == 1 {
			// element ranges of a memory: no mention
			if p := t.Pats[0][0]; p.Op == "app" && p.Name == "select" && p.Args[1] == t.Vars[1] && p.Args[0].Op == "app" && p.Args[0].Name == "select" && p.Args[0].Args[0].Op == "sym" && p.Args[0].Args[1] == t.Vars[0] {
				ranges[i] = p.Args[0].Args[0]
				continue
			}
		}
		visit(t)
	}
	if len(frames) == 0 {
		return ts
	}
	any := func(m map[*Term]bool) bool {
		if len(m) == 0 {
			return true
		}
		for t := range m {
			if mentioned[t] {
				return true
			}
		}
		return false
	}
	// a chain of frames leads from a memory in use to another one in use: drop the ends
	live := map[int]bool{}
	for _, f := range frames {
		live[f.i] = true
	}
	for changed := true; changed; {
		changed = false
		for _, f := range frames {
			if !live[f.i] {
				continue
			}
			reach := func(m map[*Term]bool, older bool) bool {
				if any(m) {
					return true
				}
				for _, g := range frames {
					if g.i == f.i || !live[g.i] {
						continue
					}
					side := g.new
					if !older {
						side = g.old
					}
					for t := range m {
						if side[t] {
							return true
						}
					}
					if older { // two successors of the same memory
						for t := range m {
							if g.old[t] {
								return true
							}
						}
					}
				}
				return false
			}
			if !reach(f.old, true) || !reach(f.new, false) {
				live[f.i] = false
				changed = true
			}
		}
	}
	for i := range live {
		if live[i] {
			visit(ts[i])
		}
	}
	var out []*Term
	for i, t := range ts {
		if m := ranges[i]; m != nil && !mentioned[m] {
			continue
		}
		if !isFrame[i] || live[i] {
			out = append(out, t)
		}
	}
	return out
}

// Script prints a query
func (q *Query) Script(header string) string {
	buildMu.Lock()
	defer buildMu.Unlock()
	ts := append([]*Term{}, q.hyps...)
	if q.goal != nil {
		ts = append(ts, Not(q.goal))
	}
	ts = propagateValues(ts)
	eqs := unfoldRec(ts)
	ts2 := append(append([]*Term{}, eqs...), ts...)
	ts2 = append(ts2, seqExtensionality(ts2)...)
	facts := groundFacts(ts2)
	all := append(append([]*Term{}, facts...), ts2...)
	if q.bits {
		all = append(bitAxioms(all), all...)
	}
	rmemo := map[*Term]*Term{}
	for i := range all {
		all[i] = reindex(all[i], rmemo)
	}
	all = append(boxAxioms(all), all...)
	if q.fp {
		memo := map[*Term]*Term{}
		for i := range all {
			all[i] = fpTerm(all[i], memo)
		}
	}
	all = usablePatterns(dropFrames(propagateValues(all)))
	seen := map[*Term]bool{}
	syms := map[string]Sort{}
	funs := map[string]bool{}
	refs := map[*Term]int{}
	for _, t := range all {
		collect(t, seen, syms, funs, refs)
	}
	var sb strings.Builder
	sb.WriteString(header)
	sorts := map[string]bool{}
	noteSort := func(s Sort) {
		for _, w := range strings.FieldsFunc(string(s), func(c rune) bool { return c == '(' || c == ')' || c == ' ' }) {
			switch w {
			case "Int", "Bool", "Array", "Real", "Float64", "Float32", "RoundingMode":
			default:
				sorts[w] = true
			}
		}
	}
	for _, s := range syms {
		noteSort(s)
	}
	for f := range funs {
		d := B.funs[f]
		if d == nil {
			continue
		}
		noteSort(d.Res)
		for _, a := range d.Args {
			noteSort(a)
		}
	}
	for t := range seen {
		noteSort(t.Sort)
	}
	for _, s := range sortedKeys(sorts) {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
	}
	var lits = map[Sort][]string{}
	for _, n := range sortedKeys(syms) {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", smtName(n), syms[n])
		if strings.HasPrefix(n, "lit_") {
			lits[syms[n]] = append(lits[syms[n]], smtName(n))
		}
		if n == "any_nil" || strings.HasPrefix(n, "box0:") {
			lits[SAny] = append(lits[SAny], smtName(n))
		}
	}
	for _, f := range sortedKeys(funs) {
		d := B.funs[f]
		if d == nil {
			if f == "to_real" {
				continue
			}
			panic("undeclared function " + f)
		}
		sb.WriteString("(declare-fun " + smtName(f) + " (")
		for i, a := range d.Args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(string(a))
		}
		fmt.Fprintf(&sb, ") %s)\n", d.Res)
	}
	for _, s := range []Sort{SStr, SAny, SF64, SF32} {
		if len(lits[s]) > 1 {
			sb.WriteString("(assert (distinct " + strings.Join(lits[s], " ") + "))\n")
		}
	}
	// shared subterms
	defs := map[*Term]string{}
	nd := 0
	var emit func(t *Term)
	visited := map[*Term]bool{}
	emit = func(t *Term) {
		if visited[t] {
			return
		}
		visited[t] = true
		for _, a := range t.Args {
			emit(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				emit(x)
			}
		}
		if t.bound || t.Op == "sym" || t.Op == "int" || t.Op == "raw" || t.Op == "true" || t.Op == "false" || t.Op == "bvar" {
			return
		}
		if refs[t] >= 2 {
			nd++
			n := fmt.Sprintf("d%d", nd)
			var b strings.Builder
			t.printHead(&b, defs)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.Sort, b.String())
			defs[t] = n
		}
	}
	for _, t := range all {
		emit(t)
	}
	for _, t := range all {
		sb.WriteString("(assert ")
		t.print(&sb, defs)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// ---- solvers ---------------------------------------------------------------------

type solver struct {
	name string
	cmd  []string
	head string
}

var solverZ3New = solver{"z3-5.3.2", []string{"z3-new", "-in"}, "(set-logic ALL)\n"}
var solverZ3NoMbqi = solver{"z3-5.3.2/e-matching", []string{"z3-new", "-in", "smt.mbqi=false", "auto_config=false", "smt.random_seed=7"}, "(set-logic ALL)\n"}
var solverZ3Old = solver{"z3-4.8.12", []string{"z3", "-in"}, "(set-logic ALL)\n"}
var solverCvc5 = solver{"cvc5-1.1.2", []string{"cvc5", "--lang=smt2", "--arrays-exp"}, "(set-logic ALL)\n"}
var solverCvc5Enum = solver{"cvc5-1.1.2/enum", []string{"cvc5", "--lang=smt2", "--arrays-exp", "--enum-inst", "--no-nl-ext-tplanes"}, "(set-logic ALL)\n"}

var sem = make(chan bool, 8)
var solverMillis int64
var solverCalls int64

func (s *solver) run(ctx context.Context, script string, timeout time.Duration, model bool) (string, string) {
	select {
	case sem <- true:
	case <-ctx.Done():
		return "cancelled", ""
	}
	defer func() { <-sem }()
	c, cancel := context.WithTimeout(ctx, timeout)
	defer cancel()
	if s.cmd[0] == "cvc5" {
		script = noSymConst(script)
	}
	in := script
	if model {
		in = "(set-option :produce-models true)\n" + script + "(get-model)\n"
	}
	cmd := exec.CommandContext(c, s.cmd[0], s.cmd[1:]...)
	if strings.HasPrefix(s.cmd[0], "z3") {
		cmd.Args = append(cmd.Args, fmt.Sprintf("-T:%d", int(timeout.Seconds())+1), "memory_max_size=3000")
	}
	cmd.Stdin = strings.NewReader(in)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	atomic.AddInt64(&solverMillis, time.Since(t0).Milliseconds())
	atomic.AddInt64(&solverCalls, 1)
	o := strings.TrimSpace(out.String())
	for strings.HasPrefix(o, "WARNING") {
		i := strings.IndexByte(o, '\n')
		if i < 0 {
			break
		}
		o = strings.TrimSpace(o[i+1:])
	}
	first := o
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		first = o[:i]
	}
	first = strings.TrimSpace(first)
	switch first {
	case "sat", "unsat", "unknown":
		return first, o
	}
	if c.Err() != nil || strings.Contains(first, "timeout") || first == "" {
		return "timeout", o
	}
	return "error: " + first, o
}

var symConst = regexp.MustCompile(`\(\(as const (\(Array Int (?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))\) ([A-Za-z_][^ ()|]*)\)`)

// noSymConst: cvc5 takes constant arrays of literal values only; the others
// become symbols with an axiom
func noSymConst(script string) string {
	n := 0
	var decl strings.Builder
	names := map[string]string{}
	for i := 0; i < 4; i++ {
		again := false
		script = symConst.ReplaceAllStringFunc(script, func(m string) string {
			g := symConst.FindStringSubmatch(m)
			if g[2] == "true" || g[2] == "false" {
				return m
			}
			again = true
			if names[m] == "" {
				n++
				names[m] = fmt.Sprintf("kconst_%d", n)
				fmt.Fprintf(&decl, "(declare-fun %s () %s)\n(assert (forall ((i Int)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", names[m], g[1], names[m], g[2], names[m])
			}
			return names[m]
		})
		if !again {
			break
		}
	}
	if n == 0 {
		return script
	}
	at := len(script)
	for _, k := range []string{"(define-fun ", "(assert "} {
		if j := strings.Index(script, "\n"+k); j >= 0 && j+1 < at {
			at = j + 1
		}
	}
	return script[:at] + decl.String() + script[at:]
}

var dumpDir = ""
var quickFail = int64(0) // number of failures so far; many failures shorten the effort
var stepTimeout = 10 * time.Second

type attempt struct {
	s  solver
	to time.Duration
}

// prove discharges one obligation
func prove(o *Obligation) {
	if o.Result != "" {
		return
	}
	t0 := time.Now()
	defer func() { o.Millis = time.Since(t0).Milliseconds() }()
	pc := append(o.Pc.list(), o.Extra...)
	fp := o.Mode == "fp"
	if o.Expect == "sat" {
		q := &Query{hyps: pc, fp: fp}
		if pc == nil {
			o.Result, o.Solver = "proved", "trivial"
			return
		}
		r, _ := solverZ3New.run(context.Background(), q.Script(solverZ3New.head), 3*time.Second, false)
		if r == "unsat" {
			o.Result, o.Solver = "failed", solverZ3New.name
			o.Model = "the hypotheses are contradictory: nothing is proved"
			return
		}
		if strings.HasPrefix(r, "error") {
			o.Result, o.Solver, o.Model = "unknown", solverZ3New.name, r
			return
		}
		o.Result, o.Solver = "proved", solverZ3New.name
		if r != "sat" {
			o.Solver += " (not refuted)"
		}
		return
	}
	buildMu.Lock()
	parts := splitGoal(o.Goal)
	buildMu.Unlock()
	used := map[string]bool{}
	for _, p := range parts {
		hyps := append(append([]*Term{}, pc...), p[0])
		buildMu.Lock()
		hyps = append(hyps, skolemInstances(hyps, p)...)
		buildMu.Unlock()
		res, by, out := proveOne(hyps, p[1], fp, o)
		used[by] = true
		if res != "proved" {
			o.Result, o.Solver, o.Model = res, by, out
			atomic.AddInt64(&quickFail, 1)
			return
		}
	}
	o.Result = "proved"
	o.Solver = strings.Join(sortedKeys(used), "+")
}

// skolemInstances: quantified hypotheses without patterns, instantiated with the
// goal's skolem constants of the same names (forall r ... with sk_r)
func skolemInstances(hyps []*Term, goal [2]*Term) []*Term {
	sk := map[string]*Term{}
	for _, t := range groundTerms([]*Term{goal[0], goal[1]}) {
		if t.Op == "sym" && strings.HasPrefix(t.Name, "sk_") {
			n := strings.TrimPrefix(t.Name, "sk_")
			if i := strings.Index(n, "!"); i > 0 {
				n = n[:i]
			}
			sk[n] = t
		}
	}
	if len(sk) == 0 {
		return nil
	}
	var out []*Term
	var visit func(h *Term, guard []*Term)
	visit = func(h *Term, guard []*Term) {
		switch {
		case h.Op == "app" && h.Name == "and":
			for _, a := range h.Args {
				visit(a, guard)
			}
		case h.Op == "app" && h.Name == "=>":
			visit(h.Args[1], append(append([]*Term{}, guard...), h.Args[0]))
		case h.Op == "forall" && !h.bound && len(h.Pats) == 0:
			m := map[*Term]*Term{}
			for _, x := range h.Vars {
				n := x.Name
				if i := strings.Index(n, "?"); i > 0 {
					n = n[:i]
				}
				s := sk[n]
				if s == nil || s.Sort != x.Sort {
					return
				}
				m[x] = s
			}
			out = append(out, Implies(And(guard...), Subst(h.Args[0], m)))
		}
	}
	for _, h := range hyps {
		visit(h, nil)
	}
	return out
}

// goalInstances: instances of the quantified hypotheses whose triggers match,
// syntactically, terms of the goal (the last hypothesis belongs to the goal)
func goalInstances(hyps []*Term, goal *Term) []*Term {
	const limit = 60
	seen := map[*Term]bool{}
	var terms []*Term
	collect := func(ts ...*Term) {
		for _, t := range groundTerms(ts) {
			if t.Op == "app" && !seen[t] {
				seen[t] = true
				terms = append(terms, t)
			}
		}
	}
	collect(goal)
	if n := len(hyps); n > 0 {
		collect(hyps[n-1])
	}
	var out []*Term
	done := map[*Term]bool{}
	var visit func(h *Term, guard []*Term)
	visit = func(h *Term, guard []*Term) {
		switch {
		case h.Op == "app" && h.Name == "and":
			for _, a := range h.Args {
				visit(a, guard)
			}
		case h.Op == "app" && h.Name == "=>":
			visit(h.Args[1], append(append([]*Term{}, guard...), h.Args[0]))
		case h.Op == "forall" && !h.bound:
			for _, ps := range h.Pats {
				ms := []map[*Term]*Term{{}}
				for _, p := range ps {
					var next []map[*Term]*Term
					for _, m := range ms {
						for _, t := range terms {
							m2 := map[*Term]*Term{}
							for k, x := range m {
								m2[k] = x
							}
							if len(next) < limit && matchTerm(p, t, h.Vars, m2) {
								next = append(next, m2)
							}
						}
					}
					ms = next
				}
				for _, m := range ms {
					if len(m) != len(h.Vars) || len(out) >= limit {
						continue
					}
					x := Implies(And(guard...), Subst(h.Args[0], m))
					if !done[x] && x != tTrue {
						done[x] = true
						out = append(out, x)
					}
				}
			}
		}
	}
	for round := 0; round < 2; round++ {
		n := len(out)
		for _, h := range append(append([]*Term{}, hyps...), out[:n]...) {
			visit(h, nil)
		}
		if len(out) == n {
			break
		}
		collect(out[n:]...)
	}
	return out
}

// matchTerm: p with its variables replaced as in m is t
func matchTerm(p, t *Term, vars []*Term, m map[*Term]*Term) bool {
	if p == t {
		return true
	}
	for _, v := range vars {
		if p == v {
			if x, ok := m[v]; ok {
				return x == t
			}
			if v.Sort != t.Sort {
				return false
			}
			m[v] = t
			return true
		}
	}
	if !p.bound || p.Op != "app" || t.Op != "app" || p.Name != t.Name || len(p.Args) != len(t.Args) {
		return false
	}
	for i := range p.Args {
		if !matchTerm(p.Args[i], t.Args[i], vars, m) {
			return false
		}
	}
	return true
}

var proofCache sync.Map

func proveOne(hyps []*Term, goal *Term, fp bool, o *Obligation) (string, string, string) {
	buildMu.Lock()
	for _, h := range hyps {
		if h == tFalse || h == goal {
			buildMu.Unlock()
			return "proved", "simplifier", ""
		}
	}
	buildMu.Unlock()
	if goal == tTrue {
		return "proved", "simplifier", ""
	}
	full := (&Query{hyps: hyps, goal: goal, fp: fp}).Script("")
	h := fmt.Sprintf("%x", sha256.Sum256([]byte(full)))
	if r, ok := proofCache.Load(h); ok {
		return "proved", r.(string), ""
	}
	if dumpDir != "" {
		os.WriteFile(filepath.Join(dumpDir, h[:12]+".smt2"), []byte("; "+strings.ReplaceAll(o.Name(), "\n", " ")+"\n(set-logic ALL)\n"+full), 0644)
	}
	factor := 1.0
	if n := atomic.LoadInt64(&quickFail); n > 3 {
		factor = 0.35
	}
	sc := func(d time.Duration) time.Duration { return time.Duration(float64(d) * factor) }
	var log []string
	// first: the fast attempt
	first := solverZ3New
	res, out := first.run(context.Background(), first.head+full, 3*time.Second, true)
	if res == "unsat" {
		proofCache.Store(h, first.name)
		return "proved", first.name, ""
	}
	model := ""
	if o.Mode == "bv" {
		if ok, by := bvProve(hyps, goal, o); ok {
			proofCache.Store(h, by)
			return "proved", by, ""
		} else {
			log = append(log, "bit-vectors: "+by)
		}
	}
	if strings.Contains(full, "bit.on") || strings.Contains(full, "bits.") { // with definitions from here on
		log = append(log, first.name+" (bits as atoms): "+res)
		if o.Mode != "bv" && res != "sat" {
			if by := race(full, []attempt{{solverCvc5, sc(20 * time.Second)}, {solverZ3NoMbqi, sc(6 * time.Second)}}); by != "" {
				proofCache.Store(h, by)
				return "proved", by, ""
			}
		}
		full = (&Query{hyps: hyps, goal: goal, fp: fp, bits: true}).Script("")
		res, out = first.run(context.Background(), first.head+full, 4*time.Second, true)
		if res == "unsat" {
			proofCache.Store(h, first.name)
			return "proved", first.name, ""
		}
		if dumpDir != "" {
			os.WriteFile(filepath.Join(dumpDir, h[:12]+"-bits.smt2"), []byte("; "+strings.ReplaceAll(o.Name(), "\n", " ")+"\n(set-logic ALL)\n"+full), 0644)
		}
	}
	if res == "sat" {
		model = out
	}
	log = append(log, first.name+": "+res)
	if strings.HasPrefix(res, "error") {
		log = append(log, trunc(out, 600))
	}
	hasQ := strings.Contains(full, "(forall ") || strings.Contains(full, "(exists ")
	if res == "sat" && !fp {
		// a model of the abstraction refutes the obligation: other solvers would agree
		if !hasQ {
			return "failed", first.name, model
		}
	}
	// once more, with the quantified hypotheses instantiated at the terms of the goal
	buildMu.Lock()
	inst := goalInstances(hyps, goal)
	buildMu.Unlock()
	if len(inst) > 0 {
		with := (&Query{hyps: append(append([]*Term{}, hyps...), inst...), goal: goal, fp: fp}).Script("")
		if by := race(with, []attempt{{solverZ3NoMbqi, sc(5 * time.Second)}, {solverCvc5, sc(5 * time.Second)}}); by != "" {
			proofCache.Store(h, by)
			return "proved", by, ""
		}
	}
	// portfolio
	type ans struct{ res, by, out string }
	ch := make(chan ans, 8)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	atts := []attempt{
		{solverZ3NoMbqi, sc(stepTimeout)},
		{solverCvc5, sc(stepTimeout * 3 / 2)},
		{solverZ3Old, sc(stepTimeout)},
		{solverCvc5Enum, sc(stepTimeout)},
		{solverZ3New, sc(stepTimeout * 2)},
	}
	for _, a := range atts {
		a := a
		go func() {
			r, out := a.s.run(ctx, a.s.head+full, a.to, false)
			ch <- ans{r, a.s.name, out}
		}()
	}
	for range atts {
		a := <-ch
		log = append(log, a.by+": "+a.res)
		if a.res == "unsat" {
			proofCache.Store(h, a.by)
			return "proved", a.by, ""
		}
	}
	r := "unknown"
	if model != "" {
		r = "failed"
	}
	return r, "portfolio", strings.Join(log, "\n") + "\n" + model
}

// race runs the solvers side by side; the name of one that refutes the query, or ""
func race(script string, atts []attempt) string {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan string, len(atts))
	for _, a := range atts {
		a := a
		go func() {
			r, _ := a.s.run(ctx, a.s.head+script, a.to, false)
			if r == "unsat" {
				ch <- a.s.name
			} else {
				ch <- ""
			}
		}()
	}
	for range atts {
		if by := <-ch; by != "" {
			return by
		}
	}
	return ""
}

func proveAll(obls []*Obligation) {
	var wg sync.WaitGroup
	lim := make(chan bool, 10)
	for _, o := range obls {
		o := o
		wg.Add(1)
		lim <- true
		go func() {
			defer wg.Done()
			defer func() { <-lim }()
			defer func() {
				if r := recover(); r != nil {
					o.Result, o.Solver, o.Model = "unknown", "vcg", fmt.Sprint("internal: ", r)
					if debugPanics {
						panic(r)
					}
				}
			}()
			prove(o)
		}()
	}
	wg.Wait()
}

var _ = big.NewInt
var _ = sort.Strings
var _ = types.Invalid

func kindByName(n string) types.BasicKind {
	for _, b := range types.Typ {
		if b.Name() == n {
			return b.Kind()
		}
	}
	return types.Invalid
}

var normIdxTab = map[*Term]*Term{}

func normIdx(t *Term) *Term {
	if i, ok := normIdxTab[t]; ok {
		return i
	}
	i := BoundVar("ni", SInt)
	normIdxTab[t] = i
	return i
}
