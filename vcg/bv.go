package main

// Bit-vector back end for contracts in mode bv: an obligation over machine words
// is translated exactly into fixed-width arithmetic wide enough that no operation
// can overflow. Every integer term whose range is not known from a ground fact makes
// its formula untranslatable; an untranslatable hypothesis is dropped (sound), an
// untranslatable goal leaves the obligation to the other back ends.

import (
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"time"
)

type bvRange struct{ lo, hi *big.Int }

type bvTr struct {
	rng   map[*Term]bvRange
	defs  map[*Term]*Term // unfolded recursive functions
	busy  map[*Term]bool
	dry   bool // ranges only
	memo  map[*Term]bvOut
	decl  []string
	names map[*Term]string
	used  []*Term
	w     int
	need  int // bits of the largest magnitude
}

type bvOut struct {
	s  string
	r  bvRange
	ok bool
}

const bvMaxWidth = 128

func (b *bvTr) lit(x *big.Int) string {
	if n := x.BitLen(); n > b.need {
		b.need = n
	}
	m := new(big.Int).Mod(x, Pow2(b.w))
	return fmt.Sprintf("(_ bv%s %d)", m.String(), b.w)
}

func bvMax(r bvRange) bool {
	l := Pow2(bvMaxWidth - 8)
	return r.lo.CmpAbs(l) < 0 && r.hi.CmpAbs(l) < 0
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (b *bvTr) atom(t *Term) bvOut {
	r, ok := b.rng[t]
	if !ok || r.lo == nil || r.hi == nil || !bvMax(r) {
		if d := b.defs[t]; d != nil && !b.busy[t] {
			b.busy[t] = true
			defer delete(b.busy, t)
			return b.int(d)
		}
		return bvOut{}
	}
	if b.dry {
		return bvOut{"", r, true}
	}
	n := b.names[t]
	if n == "" {
		n = fmt.Sprintf("a%d", len(b.names))
		b.names[t] = n
		b.decl = append(b.decl, fmt.Sprintf("(declare-fun %s () (_ BitVec %d))\n(assert (bvsle %s %s))\n(assert (bvsle %s %s))\n", n, b.w, b.lit(r.lo), n, n, b.lit(r.hi)))
	}
	return bvOut{n, r, true}
}

func (b *bvTr) int(t *Term) bvOut {
	if o, ok := b.memo[t]; ok {
		return o
	}
	o := b.int1(t)
	if o.ok && !bvMax(o.r) {
		o = bvOut{}
	}
	if o.ok && !b.dry {
		for _, x := range []*big.Int{o.r.lo, o.r.hi} {
			if n := x.BitLen(); n > b.need {
				b.need = n
			}
		}
	}
	b.memo[t] = o
	return o
}

func (b *bvTr) int1(t *Term) bvOut {
	f := func(n string, r bvRange, a ...string) bvOut {
		return bvOut{"(" + n + " " + strings.Join(a, " ") + ")", r, true}
	}
	switch t.Op {
	case "int":
		return bvOut{b.lit(t.Int), bvRange{t.Int, t.Int}, true}
	case "sym":
		return b.atom(t)
	case "app":
	default:
		return bvOut{}
	}
	switch t.Name {
	case "+":
		acc := b.int(t.Args[0])
		for _, a := range t.Args[1:] {
			x := b.int(a)
			if !acc.ok || !x.ok {
				return bvOut{}
			}
			acc = f("bvadd", bvRange{new(big.Int).Add(acc.r.lo, x.r.lo), new(big.Int).Add(acc.r.hi, x.r.hi)}, acc.s, x.s)
		}
		return acc
	case "-":
		if len(t.Args) != 2 {
			return bvOut{}
		}
		x, y := b.int(t.Args[0]), b.int(t.Args[1])
		if !x.ok || !y.ok {
			return bvOut{}
		}
		return f("bvsub", bvRange{new(big.Int).Sub(x.r.lo, y.r.hi), new(big.Int).Sub(x.r.hi, y.r.lo)}, x.s, y.s)
	case "*":
		x, y := b.int(t.Args[0]), b.int(t.Args[1])
		if len(t.Args) != 2 || !x.ok || !y.ok {
			return bvOut{}
		}
		var lo, hi *big.Int
		for _, p := range []*big.Int{x.r.lo, x.r.hi} {
			for _, q := range []*big.Int{y.r.lo, y.r.hi} {
				m := new(big.Int).Mul(p, q)
				if lo == nil {
					lo, hi = m, m
				}
				lo, hi = minB(lo, m), maxB(hi, m)
			}
		}
		return f("bvmul", bvRange{lo, hi}, x.s, y.s)
	case "div", "mod":
		if t.Args[1].Op != "int" {
			return bvOut{}
		}
		k, ok := isPow2(t.Args[1].Int)
		if !ok {
			return bvOut{}
		}
		if a := t.Args[0]; t.Name == "mod" && !b.dry && a.Op == "app" && (a.Name == "+" || a.Name == "*" || a.Name == "-") && int(k) <= b.w {
			// only the low bits matter: wrap-around does no harm
			m := new(big.Int).Sub(Pow2(int(k)), big.NewInt(1))
			if s, ok := b.loose(a); ok {
				return f("bvand", bvRange{big.NewInt(0), m}, s, b.lit(m))
			}
		}
		x := b.int(t.Args[0])
		if !x.ok {
			return bvOut{}
		}
		if t.Name == "div" {
			return f("bvashr", bvRange{new(big.Int).Rsh(x.r.lo, uint(k)), new(big.Int).Rsh(x.r.hi, uint(k))}, x.s, b.lit(big.NewInt(int64(k))))
		}
		m := new(big.Int).Sub(Pow2(k), big.NewInt(1))
		if x.r.lo.Sign() >= 0 && x.r.hi.Cmp(m) <= 0 {
			return x
		}
		return f("bvand", bvRange{big.NewInt(0), m}, x.s, b.lit(m))
	case "ite":
		c, ok := b.bool(t.Args[0])
		x, y := b.int(t.Args[1]), b.int(t.Args[2])
		if !ok || !x.ok || !y.ok {
			return bvOut{}
		}
		return f("ite", bvRange{minB(x.r.lo, y.r.lo), maxB(x.r.hi, y.r.hi)}, c, x.s, y.s)
	case "bits.and8", "bits.and32", "bits.or8", "bits.or32", "bits.xor8", "bits.xor32":
		x, y := b.int(t.Args[0]), b.int(t.Args[1])
		if !x.ok || !y.ok || x.r.lo.Sign() < 0 || y.r.lo.Sign() < 0 {
			return bvOut{}
		}
		n := maxB(x.r.hi, y.r.hi).BitLen()
		hi := new(big.Int).Sub(Pow2(n), big.NewInt(1))
		op := "bvand"
		if strings.HasPrefix(t.Name, "bits.or") {
			op = "bvor"
		} else if strings.HasPrefix(t.Name, "bits.xor") {
			op = "bvxor"
		}
		return f(op, bvRange{big.NewInt(0), hi}, x.s, y.s)
	case "bits.set":
		x := b.int(t.Args[0])
		if !x.ok || x.r.lo.Sign() < 0 {
			return bvOut{}
		}
		p := Pow2(int(t.Args[1].Int.Int64()))
		return f("bvor", bvRange{x.r.lo, new(big.Int).Add(x.r.hi, p)}, x.s, b.lit(p))
	case "bits.shr":
		x, y := b.int(t.Args[0]), b.int(t.Args[1])
		if !x.ok || !y.ok || x.r.lo.Sign() < 0 || y.r.lo.Sign() < 0 {
			return bvOut{}
		}
		return f("bvlshr", bvRange{big.NewInt(0), x.r.hi}, x.s, y.s)
	case "bits.shl32":
		x, y := b.int(t.Args[0]), b.int(t.Args[1])
		if !x.ok || !y.ok || y.r.lo.Sign() < 0 {
			return bvOut{}
		}
		m := new(big.Int).Sub(Pow2(32), big.NewInt(1))
		return f("bvand", bvRange{big.NewInt(0), m}, "(bvshl "+x.s+" "+y.s+")", b.lit(m))
	case "select":
		// a table of constants
		a := t.Args[0]
		var ks, vs []*Term
		for a.Op == "app" && a.Name == "store" && a.Args[1].Op == "int" {
			ks, vs = append(ks, a.Args[1]), append(vs, a.Args[2])
			a = a.Args[0]
		}
		if len(ks) > 0 && a.Op == "app" && a.Name == "constarr" {
			i := b.int(t.Args[1])
			acc := b.int(a.Args[0])
			if !i.ok || !acc.ok {
				return bvOut{}
			}
			for j := len(ks) - 1; j >= 0; j-- {
				x := b.int(vs[j])
				if !x.ok {
					return bvOut{}
				}
				acc = f("ite", bvRange{minB(x.r.lo, acc.r.lo), maxB(x.r.hi, acc.r.hi)}, "(= "+i.s+" "+b.lit(ks[j].Int)+")", x.s, acc.s)
			}
			return acc
		}
	}
	return b.atom(t)
}

// loose is a term equal to t modulo 2^width
func (b *bvTr) loose(t *Term) (string, bool) {
	if op := map[string]string{"+": "bvadd", "*": "bvmul", "-": "bvsub"}[t.Name]; t.Op == "app" && op != "" && len(t.Args) > 1 {
		acc := ""
		for i, a := range t.Args {
			s, ok := b.loose(a)
			if !ok {
				return "", false
			}
			if i == 0 {
				acc = s
			} else {
				acc = "(" + op + " " + acc + " " + s + ")"
			}
		}
		return acc, true
	}
	o := b.int(t)
	return o.s, o.ok
}

// prune decides comparisons by ranges and cancels summands in equations
func (b *bvTr) prune(t *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	if t.Op == "app" && !t.bound {
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = b.prune(a, memo)
			ch = ch || args[i] != a
		}
		if ch {
			r = rebuild(t, args)
		}
		if r.Op == "app" && len(r.Args) == 2 && r.Args[0].Sort == SInt {
			switch r.Name {
			case "<=", "<":
				x, y := b.rangeOf(r.Args[0]), b.rangeOf(r.Args[1])
				if !x.ok || !y.ok {
					break
				}
				if c := x.r.hi.Cmp(y.r.lo); c < 0 || c == 0 && r.Name == "<=" {
					r = tTrue
				} else if c := y.r.hi.Cmp(x.r.lo); c < 0 || c == 0 && r.Name == "<" {
					r = tFalse
				}
			case "mod":
				if x := b.rangeOf(r.Args[0]); x.ok && r.Args[1].Op == "int" && x.r.lo.Sign() >= 0 && x.r.hi.Cmp(r.Args[1].Int) < 0 {
					r = r.Args[0]
				}
			case "=":
				x, y := cancelSum(r.Args[0], r.Args[1])
				r = Eq(x, y)
			}
		}
	}
	memo[t] = r
	return r
}

func (b *bvTr) rangeOf(t *Term) bvOut {
	d, m := b.dry, b.memo
	b.dry, b.memo = true, map[*Term]bvOut{}
	o := b.int(t)
	b.dry, b.memo = d, m
	return o
}

func (b *bvTr) bool(t *Term) (string, bool) {
	switch t.Op {
	case "true", "false":
		return t.Op, true
	case "sym":
		if t.Sort == SBool {
			return b.boolAtom(t), true
		}
		return "", false
	case "app":
	default:
		return "", false
	}
	switch t.Name {
	case "and", "or", "not", "=>":
		var xs []string
		for _, a := range t.Args {
			x, ok := b.bool(a)
			if !ok {
				return "", false
			}
			xs = append(xs, x)
		}
		return "(" + t.Name + " " + strings.Join(xs, " ") + ")", true
	case "ite":
		if t.Sort == SBool {
			x, ok1 := b.bool(t.Args[0])
			y, ok2 := b.bool(t.Args[1])
			z, ok3 := b.bool(t.Args[2])
			return "(ite " + x + " " + y + " " + z + ")", ok1 && ok2 && ok3
		}
	case "=":
		if t.Args[0].Sort == SBool {
			x, ok1 := b.bool(t.Args[0])
			y, ok2 := b.bool(t.Args[1])
			return "(= " + x + " " + y + ")", ok1 && ok2
		}
		if t.Args[0].Sort == SInt {
			x, y := b.int(t.Args[0]), b.int(t.Args[1])
			return "(= " + x.s + " " + y.s + ")", x.ok && y.ok
		}
	case "<", "<=":
		if t.Args[0].Sort != SInt {
			return "", false
		}
		x, y := b.int(t.Args[0]), b.int(t.Args[1])
		op := "bvslt"
		if t.Name == "<=" {
			op = "bvsle"
		}
		return "(" + op + " " + x.s + " " + y.s + ")", x.ok && y.ok
	case "bit.on":
		x := b.int(t.Args[0])
		return fmt.Sprintf("(= (bvand (bvashr %s %s) %s) %s)", x.s, b.lit(t.Args[1].Int), b.lit(big.NewInt(1)), b.lit(big.NewInt(1))), x.ok
	}
	return b.boolAtom(t), true
}

func (b *bvTr) boolAtom(t *Term) string {
	n := b.names[t]
	if n == "" {
		n = fmt.Sprintf("p%d", len(b.names))
		b.names[t] = n
		b.decl = append(b.decl, fmt.Sprintf("(declare-fun %s () Bool)\n", n))
	}
	return n
}

// ranges from ground conjuncts c <= t, t <= c, t < c, c < t
func (b *bvTr) noteRange(t *Term) {
	if t.Op != "app" {
		return
	}
	set := func(x *Term, lo, hi *big.Int) {
		r := b.rng[x]
		if lo != nil && (r.lo == nil || lo.Cmp(r.lo) > 0) {
			r.lo = lo
		}
		if hi != nil && (r.hi == nil || hi.Cmp(r.hi) < 0) {
			r.hi = hi
		}
		b.rng[x] = r
	}
	one := big.NewInt(1)
	switch t.Name {
	case "and":
		for _, a := range t.Args {
			b.noteRange(a)
		}
	case "<=", "<":
		x, y := t.Args[0], t.Args[1]
		if x.Sort != SInt {
			return
		}
		if x.Op == "int" && y.Op != "int" {
			lo := x.Int
			if t.Name == "<" {
				lo = new(big.Int).Add(lo, one)
			}
			set(y, lo, nil)
		}
		if y.Op == "int" && x.Op != "int" {
			hi := y.Int
			if t.Name == "<" {
				hi = new(big.Int).Sub(hi, one)
			}
			set(x, nil, hi)
		}
	case "not":
		if a := t.Args[0]; a.Op == "app" && (a.Name == "<=" || a.Name == "<") && a.Args[0].Sort == SInt {
			if a.Name == "<=" {
				b.noteRange(Lt(a.Args[1], a.Args[0]))
			} else {
				b.noteRange(Le(a.Args[1], a.Args[0]))
			}
		}
	}
}

func conjuncts(ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if t.Op == "app" && t.Name == "and" {
			out = append(out, conjuncts(t.Args)...)
		} else {
			out = append(out, t)
		}
	}
	return out
}

func replaceTerm(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	if x, ok := m[t]; ok {
		r = x
	} else if t.Op == "app" {
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = replaceTerm(a, m, memo)
			ch = ch || args[i] != a
		}
		if ch {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

// bvProve tries an obligation as a bit-vector problem
func bvProve(hyps []*Term, goal *Term, o *Obligation) (bool, string) {
	buildMu.Lock()
	ts := append(append([]*Term{}, hyps...), Not(goal))
	ts = propagateValues(ts)
	eqs := unfoldRec(ts)
	all := append(append([]*Term{}, eqs...), ts...)
	// contents of slices handed to specification functions: in-range elements
	norm := map[*Term]*Term{}
	var cand []*Term
	for _, t := range groundTerms(all) {
		if t.Op == "app" && t.Name == "select" && t.Args[0].Op == "app" && strings.HasPrefix(t.Args[0].Name, "seq.norm:") {
			cand = append(cand, t)
		}
	}
	buildMu.Unlock()
	for _, t := range cand {
		n, i := t.Args[0], t.Args[1]
		buildMu.Lock()
		g := And(Le(Int(0), i), Lt(i, n.Args[2]))
		buildMu.Unlock()
		script := (&Query{hyps: hyps, goal: g}).Script("")
		if r, _ := solverZ3New.run(context.Background(), solverZ3New.head+script, 3*time.Second, false); r == "unsat" {
			buildMu.Lock()
			norm[t] = Select(n.Args[0], Add(n.Args[1], i))
			buildMu.Unlock()
		}
	}
	// elements at equal positions
	buildMu.Lock()
	memo0 := map[*Term]*Term{}
	type pair struct{ a, b *Term }
	var pairs []pair
	gsel := groundTerms([]*Term{replaceTerm(goal, norm, memo0)})
	for _, x := range gsel {
		if x.Op != "app" || x.Name != "select" || x.Sort != SInt {
			continue
		}
		for _, y := range groundTerms([]*Term{replaceTerm(goal, norm, memo0), And(hyps...)}) {
			if y.Op == "app" && y.Name == "select" && y != x && y.Args[0] == x.Args[0] && len(pairs) < 12 {
				if u, v := x, y; len(u.String()) < len(v.String()) {
					pairs = append(pairs, pair{v, u})
				} else {
					pairs = append(pairs, pair{u, v})
				}
			}
		}
	}
	buildMu.Unlock()
	merged := map[*Term]bool{}
	for _, p := range pairs {
		if merged[p.a] || merged[p.b] {
			continue
		}
		buildMu.Lock()
		x, y := cancelSum(p.a.Args[1], p.b.Args[1])
		g := And(Le(x, y), Le(y, x))
		buildMu.Unlock()
		if ok, _ := bvCore(all, eqs, g, norm, nil); ok {
			merged[p.a] = true
			norm[p.a] = p.b
		}
	}
	return bvCore(all, eqs, goal, norm, o)
}

// cancelSum drops the summands two sums share
func cancelSum(x, y *Term) (*Term, *Term) {
	var sum func(t *Term) []*Term
	sum = func(t *Term) []*Term {
		if t.Op == "app" && t.Name == "+" {
			var out []*Term
			for _, a := range t.Args {
				out = append(out, sum(a)...)
			}
			return out
		}
		return []*Term{t}
	}
	ys := append([]*Term{}, sum(y)...)
	var xs []*Term
next:
	for _, a := range sum(x) {
		for i, b := range ys {
			if a == b {
				ys = append(ys[:i], ys[i+1:]...)
				continue next
			}
		}
		xs = append(xs, a)
	}
	x, y = Int(0), Int(0)
	for _, a := range xs {
		x = Add(x, a)
	}
	for _, a := range ys {
		y = Add(y, a)
	}
	return x, y
}

func bvCore(all0, eqs []*Term, goal *Term, norm map[*Term]*Term, o *Obligation) (bool, string) {
	all := append([]*Term{}, all0...)
	buildMu.Lock()
	memo := map[*Term]*Term{}
	for i := range all {
		all[i] = replaceTerm(all[i], norm, memo)
	}
	nAssert := len(conjuncts(all))
	all = append(all, groundFacts(all)...)
	b := &bvTr{w: bvMaxWidth, rng: map[*Term]bvRange{}, memo: map[*Term]bvOut{}, names: map[*Term]string{}, defs: map[*Term]*Term{}, busy: map[*Term]bool{}}
	for _, e := range eqs {
		e = replaceTerm(e, norm, memo)
		if e.Op == "app" && e.Name == "=" && e.Args[0].Sort == SInt {
			b.defs[e.Args[0]] = e.Args[1]
		}
	}
	all = conjuncts(all)
	for _, t := range all {
		b.noteRange(t)
	}
	b.dry = true
	for i := 0; i < 3; i++ {
		for _, t := range all {
			if t.bound || t.Op != "app" || t.Name != "<=" && t.Name != "<" && t.Name != "=" || t.Args[0].Sort != SInt {
				continue
			}
			x, y := t.Args[0], t.Args[1]
			if t.Name == "=" {
				for k := 0; k < 2; k++ {
					if x.Op == "sym" {
						if r := b.int(y); r.ok {
							b.noteRange(Le(x, IntB(r.r.hi)))
							b.noteRange(Le(IntB(r.r.lo), x))
						}
					}
					x, y = y, x
				}
				continue
			}
			if r := b.int(y); r.ok && x.Op != "int" {
				b.noteRange(Le(x, IntB(r.r.hi)))
			}
			if r := b.int(x); r.ok && y.Op != "int" {
				b.noteRange(Le(IntB(r.r.lo), y))
			}
		}
		b.memo = map[*Term]bvOut{}
	}
	b.dry = false
	var as []string
	ng := replaceTerm(Not(goal), norm, memo)
	// unfold and substitute in the goal, so that equal summands show
	sub := map[*Term]*Term{}
	for x, d := range b.defs {
		if r := b.rng[x]; r.lo == nil || r.hi == nil {
			sub[x] = d
		}
	}
	for _, t := range all[:nAssert] {
		if t.Op == "app" && t.Name == "=" && t.Args[0].Sort == SInt {
			x, y := t.Args[0], t.Args[1]
			if x.Op != "sym" {
				x, y = y, x
			}
			if x.Op == "sym" && (y.Op == "app" && b.rng[y].hi != nil && b.rng[y].lo != nil) && sub[x] == nil {
				sub[x] = y
			}
		}
	}
	for i := 0; i < 2; i++ {
		ng = replaceTerm(ng, sub, map[*Term]*Term{})
	}
	ng = b.prune(ng, map[*Term]*Term{})
	var gs string
	var ok bool
	for pass := 0; pass < 2; pass++ { // the second pass with the width found to suffice
		as = nil
		gs, ok = b.bool(ng)
		if !ok {
			break
		}
		for _, t := range all[:nAssert] {
			if t.bound || t.Op == "forall" || t.Op == "exists" {
				continue
			}
			if s, ok := b.bool(t); ok {
				as = append(as, s)
			}
		}
		if pass == 0 {
			b.w = b.need + 2
			b.memo, b.names, b.decl = map[*Term]bvOut{}, map[*Term]string{}, nil
		}
	}
	buildMu.Unlock()
	if !ok {
		return false, "not a bit-vector problem"
	}
	script := "(set-logic QF_BV)\n" + strings.Join(b.decl, "")
	for _, s := range as {
		script += "(assert " + s + ")\n"
	}
	script += "(assert " + gs + ")\n(check-sat)\n"
	if dumpDir != "" && o != nil {
		dumpBV(o, script)
	}
	s := solver{"z3-5.3.2/bit-vectors", []string{"z3-new", "-in"}, ""}
	r, out := s.run(context.Background(), script, 20*time.Second, false)
	if r == "unsat" {
		return true, s.name
	}
	return false, r + " " + trunc(out, 300)
}

func dumpBV(o *Obligation, script string) {
	h := fmt.Sprintf("%x", sha256.Sum256([]byte(script)))
	os.WriteFile(filepath.Join(dumpDir, "bv-"+h[:12]+".smt2"), []byte("; "+strings.ReplaceAll(o.Name(), "\n", " ")+"\n"+script), 0644)
}
