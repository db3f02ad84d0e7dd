package main

// Specification language: lexer, parser and declarations.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Tok struct {
	K    string // id, int, float, str, op, eof
	S    string
	File string
	Line int
}

var ops3 = []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "::", "..", "<<", ">>"}

func lex(file, src string) []Tok {
	var out []Tok
	line := 1
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$':
			j := i
			for j < len(src) && (src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9' || src[j] == '_' || src[j] == '$') {
				j++
			}
			out = append(out, Tok{"id", src[i:j], file, line})
			i = j
		case c >= '0' && c <= '9':
			j := i
			isF := false
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F' ||
				src[j] == '.' && j+1 < len(src) && src[j+1] >= '0' && src[j+1] <= '9' ||
				(src[j] == '-' && !strings.HasPrefix(src[i:], "0x") && (src[j-1] == 'e'))) {
				if src[j] == '.' || (src[j] == 'e' && !strings.HasPrefix(src[i:], "0x")) {
					isF = true
				}
				j++
			}
			k := "int"
			if isF {
				k = "float"
			}
			out = append(out, Tok{k, src[i:j], file, line})
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, Tok{"str", src[i : j+1], file, line})
			i = j + 1
		default:
			done := false
			for _, o := range ops3 {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, Tok{"op", o, file, line})
					i += len(o)
					done = true
					break
				}
			}
			if !done {
				out = append(out, Tok{"op", string(c), file, line})
				i++
			}
		}
	}
	out = append(out, Tok{"eof", "", file, line})
	return out
}

type TypeX struct {
	Name string // basic, named, "seq", ...
	Ptr  bool
	Sl   bool
	Elem *TypeX
}

func (t *TypeX) String() string {
	switch {
	case t.Ptr:
		return "*" + t.Elem.String()
	case t.Sl:
		return "[]" + t.Elem.String()
	}
	return t.Name
}

type QVar struct {
	Name string
	T    *TypeX
}

type Expr struct {
	Op   string // id int float str un bin call field index slice quant ite let old seq
	Name string
	Args []*Expr
	Q    []QVar
	Trig [][]*Expr
	Tok  Tok
}

func (e *Expr) String() string {
	switch e.Op {
	case "id", "int", "float", "str":
		return e.Name
	case "un":
		return e.Name + e.Args[0].String()
	case "bin":
		return "(" + e.Args[0].String() + " " + e.Name + " " + e.Args[1].String() + ")"
	case "call":
		var a []string
		for _, x := range e.Args {
			a = append(a, x.String())
		}
		return e.Name + "(" + strings.Join(a, ", ") + ")"
	case "field":
		return e.Args[0].String() + "." + e.Name
	case "index":
		return e.Args[0].String() + "[" + e.Args[1].String() + "]"
	case "quant":
		var a []string
		for _, q := range e.Q {
			a = append(a, q.Name)
		}
		return e.Name + " " + strings.Join(a, ",") + " :: " + e.Args[0].String()
	case "ite":
		return "(if " + e.Args[0].String() + " then " + e.Args[1].String() + " else " + e.Args[2].String() + ")"
	}
	return e.Op + e.Name
}

type Clause struct {
	Label string
	Props []string // empty: all properties of the contract
	E     *Expr
}

type LoopSpec struct {
	For   []string // receiver types (interface contracts)
	Ord   int
	Invs  []*Clause
	Dec   *Expr
	Uses  []*Expr
	Ghost []GhostVar
	Steps []*Expr // facts used at back edges, where prev() is available
}

// GhostVar is a specification variable of a loop: Init on entry, Next at
// every back edge (prev(x): x at the start of the iteration).
type GhostVar struct {
	Name string
	T    *TypeX
	Init *Expr
	Next *Expr
}

type Contract struct {
	Key      string // e.g. leaves.(*lgTree).predict
	Pkg      string
	Recv     string // "*lgTree", "lgTree" or "" (function) or interface name
	Name     string
	Iface    bool
	Params   []string
	Results  []string
	Props    []string
	Mode     string
	Regions  map[string]string
	Requires []*Clause
	Given    []*Clause // assumed for the body, not an obligation of callers: the postconditions hold under it
	Ensures  []*Clause
	Modifies []*Expr
	ModAll   bool
	Pure     bool
	NoCheck  string // trusted (with reason)
	Dec      *Expr
	Loops    []*LoopSpec
	Uses     []*Expr
	Asserts  []*Clause
	Inline   bool
	Merge    bool
	Hide     map[string]bool
	Workers  []*WorkerSpec
	Tok      Tok
	used     bool
	Fn       *ssa.Function
}

// WorkerSpec describes the body of a goroutine that receives items from a
// channel (fork-join pool).
type WorkerSpec struct {
	Item     string
	Requires []*Clause
	Ensures  []*Clause
	Foot     *Expr // written range of a slice
	Value    *Expr // the item sent as number k
	Loops    []*LoopSpec
	OwnerVar string // quantified variable that determines the item ...
	Owner    *Expr  // ... by this expression
}

type SpecFn struct {
	Name   string
	Pkg    string
	Params []QVar
	Res    *TypeX
	Body   *Expr // nil: uninterpreted
	Rec    bool
	Unfold int
	Tok    Tok
	Idx    string // sequence comprehension: element index
	Len    *Expr
	// computed
	keys  []string
	state int
	reads map[string]bool
}

type Lemma struct {
	Name     string
	Pkg      string
	Params   []QVar
	Requires []*Expr
	Ensures  []*Expr
	Dec      *Expr
	Uses     []*Expr
	Cases    []*Expr
	Props    []string
	Mode     string
	Tok      Tok
	Axiom    bool
	Why      string
	Auto     bool
	Trig     [][]*Expr
	Seq      int
}

type Spec struct {
	Fns       map[string]*SpecFn
	Contracts map[string]*Contract
	Order     []string
	Lemmas    map[string]*Lemma
	Props     map[string]*PropSpec
}

type PropSpec struct {
	Kinds   []string
	Bounded bool
	ID      string
	Roots   []string
	Lemmas  []string
	Notes   []string
}

type parser struct {
	t    []Tok
	i    int
	pkg  string
	spec *Spec
}

type specError struct{ msg string }

func (p *parser) cur() Tok { return p.t[p.i] }
func (p *parser) fail(f string, a ...interface{}) {
	t := p.cur()
	panic(specError{fmt.Sprintf("%s:%d: near %q: %s", t.File, t.Line, t.S, fmt.Sprintf(f, a...))})
}
func (p *parser) is(s string) bool { return p.cur().S == s && p.cur().K != "str" }
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) ident() string {
	if p.cur().K != "id" {
		p.fail("expected identifier")
	}
	s := p.cur().S
	p.i++
	return s
}

func LoadSpecs(dir string) (sp *Spec, err error) {
	sp = &Spec{Fns: map[string]*SpecFn{}, Contracts: map[string]*Contract{}, Lemmas: map[string]*Lemma{}, Props: map[string]*PropSpec{}}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specError); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		p := &parser{t: lex(filepath.Base(f), string(b)), spec: sp}
		p.file()
	}
	for _, c := range sp.Contracts {
		sp.checkUses(c.Name, c.Uses)
		for _, l := range c.Loops {
			sp.checkUses(c.Name, l.Uses)
			sp.checkUses(c.Name, l.Steps)
		}
	}
	for _, l := range sp.Lemmas {
		sp.checkUses(l.Name, l.Uses)
	}
	return sp, nil
}

// checkUses: "use" and "step" name lemmas, perhaps guarded or quantified; any other
// formula would be an unchecked assumption
func (sp *Spec) checkUses(where string, us []*Expr) {
	for _, u := range us {
		e := u
		for {
			if e.Op == "bin" && e.Name == "==>" {
				e = e.Args[1]
			} else if e.Op == "quant" && e.Name == "forall" || e.Op == "let" {
				e = e.Args[len(e.Args)-1]
			} else {
				break
			}
		}
		if e.Op != "call" || sp.Lemmas[e.Name] == nil {
			panic(specError{where + ": use of something that is not a lemma: " + u.String()})
		}
	}
}

func (p *parser) file() {
	for p.cur().K != "eof" {
		switch {
		case p.accept("package"):
			p.pkg = p.ident()
		case p.is("fn"), p.is("rec"), p.is("uf"), p.is("seq"):
			p.specFn()
		case p.is("contract"), p.is("interface"):
			p.contract()
		case p.is("lemma"), p.is("axiom"):
			p.lemma()
		case p.accept("property"):
			ps := &PropSpec{ID: p.ident()}
			if p.accept("[") { // only these kinds of obligations
				for !p.accept("]") {
					if k := p.ident(); k == "bounded" { // decided by bounded runs; the listed units are its proved parts
						ps.Bounded = true
					} else {
						ps.Kinds = append(ps.Kinds, k)
					}
				}
			}
			p.expect("{")
			for !p.accept("}") {
				if p.accept("lemma") {
					ps.Lemmas = append(ps.Lemmas, p.ident())
				} else {
					k := p.funcKey()
					if p.accept("?") {
						k += "?" // a helper: it may be gone
					}
					ps.Roots = append(ps.Roots, k)
				}
				p.accept(";")
			}
			if old := p.spec.Props[ps.ID]; old != nil {
				old.Roots = append(old.Roots, ps.Roots...)
				old.Lemmas = append(old.Lemmas, ps.Lemmas...)
				old.Kinds = append(old.Kinds, ps.Kinds...)
				old.Bounded = old.Bounded || ps.Bounded
			} else {
				p.spec.Props[ps.ID] = ps
			}
		default:
			p.fail("declaration expected")
		}
	}
}

// funcKey parses pkg.Name, pkg.(*T).Name, or without the package
func (p *parser) funcKey() string {
	pkg := p.pkg
	if p.cur().K == "id" && p.t[p.i+1].S == "." {
		pkg = p.ident()
		p.expect(".")
	}
	recv := ""
	if p.accept("(") {
		if p.accept("*") {
			recv = "*"
		}
		recv += p.ident()
		p.expect(")")
		p.expect(".")
		return pkg + ".(" + recv + ")." + p.ident()
	}
	n := p.ident()
	if p.is(".") && p.t[p.i+1].K == "id" {
		p.i++
		n += "." + p.ident()
	}
	return pkg + "." + n
}

func (p *parser) typ() *TypeX {
	switch {
	case p.accept("*"):
		return &TypeX{Ptr: true, Elem: p.typ()}
	case p.accept("["):
		p.expect("]")
		return &TypeX{Sl: true, Elem: p.typ()}
	}
	n := p.ident()
	if p.is(".") && p.t[p.i+1].K == "id" {
		p.i++
		n += "." + p.ident()
	}
	if n == "map" && p.is("[") {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		v := p.typ()
		return &TypeX{Name: "map", Elem: &TypeX{Name: k.String(), Elem: v}}
	}
	return &TypeX{Name: n}
}

func (p *parser) params() []QVar {
	var out []QVar
	p.expect("(")
	for !p.accept(")") {
		var names []string
		names = append(names, p.ident())
		for p.accept(",") {
			names = append(names, p.ident())
		}
		t := p.typ()
		for _, n := range names {
			out = append(out, QVar{n, t})
		}
		p.accept(",")
	}
	return out
}

func (p *parser) specFn() {
	f := &SpecFn{Tok: p.cur(), Pkg: p.pkg, Unfold: 1}
	kind := p.ident()
	f.Rec = kind == "rec"
	f.Name = p.ident()
	f.Params = p.params()
	f.Res = p.typ()
	if kind == "seq" {
		p.expect("[")
		f.Idx = p.ident()
		p.expect("<")
		f.Len = p.expr()
		p.expect("]")
	}
	if p.accept("unfold") {
		fmt.Sscan(p.cur().S, &f.Unfold)
		p.i++
	}
	if kind != "uf" {
		p.expect("=")
		f.Body = p.expr()
	}
	if _, dup := p.spec.Fns[f.Name]; dup {
		p.fail("duplicate spec function %s", f.Name)
	}
	p.spec.Fns[f.Name] = f
}

func (p *parser) propList() []string {
	var out []string
	if p.accept("[") {
		for !p.accept("]") {
			out = append(out, p.ident())
			p.accept(",")
		}
	}
	return out
}

func (p *parser) clause() *Clause {
	c := &Clause{}
	// label: ident ':' (not '::')
	if p.cur().K == "id" && (p.t[p.i+1].S == ":" || p.t[p.i+1].S == "[" && p.labelledProps()) {
		c.Label = p.ident()
		c.Props = p.propList()
		p.expect(":")
	}
	c.E = p.expr()
	if c.Label == "" {
		c.Label = c.E.String()
		if len(c.Label) > 80 {
			c.Label = c.Label[:80]
		}
	}
	return c
}

func (p *parser) labelledProps() bool {
	j := p.i + 2
	for p.t[j].K == "id" || p.t[j].S == "," {
		j++
	}
	return p.t[j].S == "]" && p.t[j+1].S == ":"
}

func (p *parser) nameList() []string {
	var out []string
	p.expect("(")
	for !p.accept(")") {
		out = append(out, p.ident())
		p.accept(",")
	}
	return out
}

func (p *parser) contract() {
	c := &Contract{Tok: p.cur(), Pkg: p.pkg, Regions: map[string]string{}, Hide: map[string]bool{}}
	c.Iface = p.ident() == "interface"
	pkg := p.pkg
	if p.cur().K == "id" && p.t[p.i+1].S == "." && !c.Iface {
		pkg = p.ident()
		p.expect(".")
		c.Pkg = pkg
	}
	if c.Iface {
		c.Recv = p.ident()
		p.expect(".")
		c.Name = p.ident()
		c.Key = pkg + "." + c.Recv + "." + c.Name
	} else if p.accept("(") {
		if p.accept("*") {
			c.Recv = "*"
		}
		c.Recv += p.ident()
		p.expect(")")
		p.expect(".")
		c.Name = p.ident()
		c.Key = pkg + ".(" + c.Recv + ")." + c.Name
	} else {
		c.Name = p.ident()
		c.Key = pkg + "." + c.Name
	}
	c.Params = p.nameList()
	if p.is("(") {
		c.Results = p.nameList()
	}
	p.expect("{")
	for !p.accept("}") {
		switch {
		case p.accept("props"):
			for p.cur().K == "id" && strings.HasPrefix(p.cur().S, "C") && len(p.cur().S) == 3 {
				c.Props = append(c.Props, p.ident())
			}
		case p.accept("mode"):
			c.Mode = p.ident()
		case p.accept("trusted"):
			c.NoCheck = strings.Trim(p.cur().S, "\"")
			p.i++
		case p.accept("inline"):
			c.Inline = true
		case p.accept("merge"):
			c.Merge = true
		case p.accept("hide"):
			// these functions stay uninterpreted in this function's obligations
			for {
				c.Hide[p.ident()] = true
				if !p.accept(",") {
					break
				}
			}
		case p.accept("region"):
			n := p.ident()
			c.Regions[n] = p.ident()
		case p.accept("requires"):
			c.Requires = append(c.Requires, p.clause())
		case p.accept("given"):
			c.Given = append(c.Given, p.clause())
		case p.accept("ensures"):
			c.Ensures = append(c.Ensures, p.clause())
		case p.accept("assert"):
			c.Asserts = append(c.Asserts, p.clause())
		case p.accept("use"):
			c.Uses = append(c.Uses, p.expr())
		case p.accept("pure"):
			c.Pure = true
		case p.accept("modifies"):
			if p.accept("everything") {
				c.ModAll = true
				break
			}
			c.Modifies = append(c.Modifies, p.expr())
			for p.accept(",") {
				c.Modifies = append(c.Modifies, p.expr())
			}
		case p.accept("decreases"):
			c.Dec = p.expr()
		case p.is("loop"):
			c.Loops = append(c.Loops, p.loop())
		case p.accept("worker"):
			w := &WorkerSpec{}
			p.expect("(")
			w.Item = p.ident()
			p.expect(")")
			p.expect("{")
			for !p.accept("}") {
				switch {
				case p.accept("requires"):
					w.Requires = append(w.Requires, p.clause())
				case p.accept("ensures"):
					w.Ensures = append(w.Ensures, p.clause())
				case p.accept("value"):
					w.Value = p.expr()
				case p.accept("owner"):
					w.OwnerVar = p.ident()
					p.expect("=")
					w.Owner = p.expr()
				case p.accept("footprint"):
					w.Foot = p.expr()
				case p.is("loop"):
					w.Loops = append(w.Loops, p.loop())
				default:
					p.fail("worker clause expected")
				}
			}
			c.Workers = append(c.Workers, w)
		default:
			p.fail("contract clause expected")
		}
	}
	if _, dup := p.spec.Contracts[c.Key]; dup {
		p.fail("duplicate contract %s", c.Key)
	}
	p.spec.Contracts[c.Key] = c
	p.spec.Order = append(p.spec.Order, c.Key)
}

func (p *parser) loop() *LoopSpec {
	p.expect("loop")
	l := &LoopSpec{}
	fmt.Sscan(p.cur().S, &l.Ord)
	p.i++
	for p.accept("for") || p.accept(",") {
		l.For = append(l.For, p.ident())
	}
	p.expect("{")
	for !p.accept("}") {
		switch {
		case p.accept("inv"):
			l.Invs = append(l.Invs, p.clause())
		case p.accept("decreases"):
			l.Dec = p.expr()
		case p.accept("use"):
			l.Uses = append(l.Uses, p.expr())
		case p.accept("ghost"):
			g := GhostVar{Name: p.ident(), T: p.typ()}
			if !p.accept("init") {
				p.fail("init expected")
			}
			g.Init = p.expr()
			if !p.accept("next") {
				p.fail("next expected")
			}
			g.Next = p.expr()
			l.Ghost = append(l.Ghost, g)
		case p.accept("step"):
			l.Steps = append(l.Steps, p.expr())
		default:
			p.fail("loop clause expected")
		}
	}
	return l
}

func (p *parser) lemma() {
	l := &Lemma{Tok: p.cur(), Pkg: p.pkg}
	l.Axiom = p.ident() == "axiom"
	l.Name = p.ident()
	l.Params = p.params()
	p.expect("{")
	for !p.accept("}") {
		switch {
		case p.accept("requires"):
			l.Requires = append(l.Requires, p.expr())
		case p.accept("ensures"):
			l.Ensures = append(l.Ensures, p.expr())
		case p.accept("decreases"):
			l.Dec = p.expr()
		case p.accept("use"):
			l.Uses = append(l.Uses, p.expr())
		case p.accept("cases"):
			l.Cases = append(l.Cases, p.expr())
		case p.accept("mode"):
			l.Mode = p.ident()
		case p.accept("auto"):
			l.Auto = true
		case p.accept("trigger"):
			var tr []*Expr
			tr = append(tr, p.expr())
			for p.accept(",") {
				tr = append(tr, p.expr())
			}
			l.Trig = append(l.Trig, tr)
		case p.accept("because"):
			l.Why = strings.Trim(p.cur().S, "\"")
			p.i++
		default:
			p.fail("lemma clause expected")
		}
	}
	if _, dup := p.spec.Lemmas[l.Name]; dup {
		p.fail("duplicate lemma %s", l.Name)
	}
	l.Seq = len(p.spec.Lemmas)
	p.spec.Lemmas[l.Name] = l
}

// ---- expressions -----------------------------------------------------------
func (p *parser) expr() *Expr { return p.iff() }

func (p *parser) mk(op, name string, args ...*Expr) *Expr {
	return &Expr{Op: op, Name: name, Args: args, Tok: p.cur()}
}

func (p *parser) iff() *Expr {
	a := p.impl()
	for p.accept("<==>") {
		a = p.mk("bin", "<==>", a, p.impl())
	}
	return a
}

func (p *parser) impl() *Expr {
	a := p.or()
	if p.accept("==>") {
		return p.mk("bin", "==>", a, p.impl())
	}
	return a
}

func (p *parser) or() *Expr {
	a := p.and()
	for p.accept("||") {
		a = p.mk("bin", "||", a, p.and())
	}
	return a
}

func (p *parser) and() *Expr {
	a := p.cmp()
	for p.accept("&&") {
		a = p.mk("bin", "&&", a, p.cmp())
	}
	return a
}

func (p *parser) cmp() *Expr {
	a := p.add()
	var res *Expr
	for {
		op := p.cur().S
		if p.cur().K != "op" || !(op == "==" || op == "!=" || op == "<" || op == "<=" || op == ">" || op == ">=") {
			break
		}
		p.i++
		b := p.add()
		c := p.mk("bin", op, a, b)
		if res == nil {
			res = c
		} else {
			res = p.mk("bin", "&&", res, c)
		}
		a = b
	}
	if res != nil {
		return res
	}
	return a
}

func (p *parser) add() *Expr {
	a := p.mul()
	for p.cur().K == "op" && (p.is("+") || p.is("-")) {
		op := p.cur().S
		p.i++
		a = p.mk("bin", op, a, p.mul())
	}
	return a
}

func (p *parser) mul() *Expr {
	a := p.unary()
	for p.cur().K == "op" && (p.is("*") || p.is("/") || p.is("%") || p.is("&") || p.is("<<") || p.is(">>")) {
		op := p.cur().S
		p.i++
		a = p.mk("bin", op, a, p.unary())
	}
	return a
}

func (p *parser) unary() *Expr {
	if p.accept("!") {
		return p.mk("un", "!", p.unary())
	}
	if p.accept("-") {
		return p.mk("un", "-", p.unary())
	}
	if p.accept("*") {
		return p.mk("un", "*", p.unary())
	}
	if p.accept("&") {
		return p.mk("un", "&", p.unary())
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	a := p.primary()
	for {
		switch {
		case p.is(".") && p.t[p.i+1].K == "id":
			p.i++
			a = p.mk("field", p.ident(), a)
		case p.is("[") && p.cur().K == "op":
			p.i++
			if p.accept(":") {
				a = p.mk("slice", "", a, p.mk("int", "0"), p.expr())
				p.expect("]")
				continue
			}
			x := p.expr()
			if p.accept(":") {
				if p.accept("]") {
					a = p.mk("slice", "", a, x, nil)
					continue
				}
				y := p.expr()
				a = p.mk("slice", "", a, x, y)
			} else if p.accept("..") {
				y := p.expr()
				a = p.mk("range", "", a, x, y)
			} else {
				a = p.mk("index", "", a, x)
			}
			p.expect("]")
		default:
			return a
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.cur()
	switch t.K {
	case "int", "float", "str":
		p.i++
		return &Expr{Op: t.K, Name: t.S, Tok: t}
	case "op":
		if p.accept("(") {
			e := p.expr()
			p.expect(")")
			return e
		}
	case "id":
		switch t.S {
		case "forall", "exists":
			p.i++
			e := &Expr{Op: "quant", Name: t.S, Tok: t}
			for {
				var names []string
				names = append(names, p.ident())
				for p.accept(",") {
					names = append(names, p.ident())
				}
				ty := p.typ()
				for _, n := range names {
					e.Q = append(e.Q, QVar{n, ty})
				}
				if !p.accept(",") {
					break
				}
			}
			p.expect("::")
			for p.is("{") {
				p.expect("{")
				var tr []*Expr
				for !p.accept("}") {
					tr = append(tr, p.expr())
					p.accept(",")
				}
				e.Trig = append(e.Trig, tr)
			}
			e.Args = []*Expr{p.expr()}
			return e
		case "if":
			p.i++
			c := p.expr()
			p.expect("then")
			a := p.expr()
			p.expect("else")
			b := p.expr()
			return p.mk("ite", "", c, a, b)
		case "let":
			p.i++
			n := p.ident()
			p.expect("=")
			v := p.expr()
			p.expect("in")
			b := p.expr()
			return p.mk("let", n, v, b)
		}
		p.i++
		if p.is("(") {
			p.i++
			e := &Expr{Op: "call", Name: t.S, Tok: t}
			for !p.accept(")") {
				e.Args = append(e.Args, p.expr())
				p.accept(",")
			}
			return e
		}
		return &Expr{Op: "id", Name: t.S, Tok: t}
	}
	p.fail("expression expected")
	return nil
}
