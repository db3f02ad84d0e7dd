package main

// Streams: a reader is an object with a ghost position in a content that is a
// function of the stream; library reads advance the position.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const streamKey = "|stream|pos"

var streamLeaf = Leaf{Sort: SInt, Path: ".n"}

// streamID is the identity of a stream: the object behind a pointer or interface value
func (v *V) streamID(x *Val) *Term {
	switch x.K {
	case KPtr:
		return x.P
	case KAddr:
		if x.Addr.Cell == nil && x.Addr.Arr != nil {
			return x.Addr.Arr
		}
	case KDyn:
		return v.streamID(x.Dyn)
	case KScalar:
		if x.Term.Sort == SAny {
			return Fn("stream.id", SInt, x.Term)
		}
		return x.Term
	}
	panic(unsupported("stream " + x.T.String()))
}

func (v *V) streamMem(st *State) *Term {
	noteKey(streamKey, streamLeaf)
	return v.getMem(st, streamKey, SInt)
}

func (v *V) streamPos(st *State, id *Term) *Term {
	m := v.streamMem(st)
	x := Select(Select(m, id), Int(0))
	v.noteLeaf(x, m, id, streamLeaf)
	return x
}

func (v *V) setStreamPos(st *State, id, p *Term) {
	m := v.streamMem(st)
	st.mem[streamKey] = Store(m, id, Store(Select(m, id), Int(0), p))
	v.noteWrite(st, streamKey, id, Int(0))
}

func (v *V) libStream(fr *Frame, in ssa.CallInstruction, fn *ssa.Function, name string, args []*Val, st *State, k Cont) bool {
	switch name {
	case "(*bufio.Reader).ReadString":
		if args[1].Term != Int('\n') {
			return false
		}
		v.lib("bufio.Reader.ReadString('\\n') returns the line at the stream's position (or an error) and advances to the next line")
		v.nilCheck(st, args[0], in.Pos())
		id := v.streamID(args[0])
		p := v.streamPos(st, id)
		nx := Fn("txt.next", SInt, id, p)
		st.assume(Le(p, nx))
		v.setStreamPos(st, id, nx)
		k(st, []*Val{scalar(tStr, Fn("txt.line", SStr, id, p)), scalar(errType, Fn("txt.err", SAny, id, p))})
		return true
	case "unicode.IsSpace":
		v.lib("unicode.IsSpace and strings.ContainsRune are functions of their arguments")
		k(st, []*Val{scalar(tBool, Fn("rune.isspace", SBool, args[0].Term))})
		return true
	case "strings.ContainsRune":
		v.lib("unicode.IsSpace and strings.ContainsRune are functions of their arguments")
		k(st, []*Val{scalar(tBool, Fn("strs.containsrune", SBool, args[0].Term, args[1].Term))})
		return true
	case "strings.TrimFunc":
		f := args[1]
		if f.K != KClo || f.Clo == nil {
			return false
		}
		v.lib("strings.TrimFunc is a function of the text and of the predicate")
		// the predicate: the closure run on an arbitrary rune
		r := v.freshLeaf("rune", Leaf{Sort: SInt, B: types.Int32}, nil)
		s0 := st.copy()
		n0 := 0
		if s0.pc != nil {
			n0 = s0.pc.n
		}
		p := tFalse
		regs := copyRegs(fr)
		v.inlineCall(fr, in, f.Clo.Fn, []*Val{scalar(types.Typ[types.Rune], r)}, f.Clo.Bind, s0, func(s1 *State, res []*Val) {
			c := tTrue
			for q := s1.pc; q != nil && q.n > n0; q = q.next {
				c = And(c, q.t)
			}
			p = Or(p, And(c, res[0].Term))
		})
		fr.regs = regs
		b := BoundVar("r", SInt)
		pred := Fresh("pred", SArr(SInt, SBool))
		st.assume(Forall([]*Term{b}, Eq(Select(pred, b), Subst(p, map[*Term]*Term{r: b})), []*Term{Select(pred, b)}))
		k(st, []*Val{scalar(tStr, Fn("strs.TrimFunc", SStr, args[0].Term, pred))})
		return true
	}
	return false
}

// space characters other than those in d
func spaceExcept(d *Term) *Term { return Fn("rune.space_except", SArr(SInt, SBool), d) }

func spaceExceptAxiom(t *Term) *Term {
	b := BoundVar("r", SInt)
	return Forall([]*Term{b}, Eq(Select(t, b), And(Fn("rune.isspace", SBool, b), Not(Fn("strs.containsrune", SBool, t.Args[0], b)))), []*Term{Select(t, b)})
}

// extensionality, instantiated for the predicates handed to strings.TrimFunc
func predExt(f, g *Term) *Term {
	d := Fn("arr.diff", SInt, f, g)
	return Or(Eq(f, g), Not(Eq(Select(f, d), Select(g, d))))
}

var errType = types.Universe.Lookup("error").Type()

func streamSpecFn(c *Ctx, e *Expr) *Val {
	arg := func(i int) *Term { return c.eval(e.Args[i]).Term }
	switch e.Name {
	case "sid":
		return intV(c.v.streamID(c.eval(e.Args[0])))
	case "pos":
		return intV(c.v.streamPos(c.st, c.v.streamID(c.eval(e.Args[0]))))
	case "line":
		return scalar(tStr, Fn("txt.line", SStr, arg(0), arg(1)))
	case "line_err":
		return scalar(errType, Fn("txt.err", SAny, arg(0), arg(1)))
	case "line_next":
		return intV(Fn("txt.next", SInt, arg(0), arg(1)))
	case "trim_spaces_except":
		return scalar(tStr, Fn("strs.TrimFunc", SStr, arg(0), spaceExcept(arg(1))))
	case "bin_end":
		return intV(streamEnd(arg(0)))
	case "le_i32", "le_u32", "le_i64", "le_u64", "le_u8", "le_f32", "le_f64":
		k := binKind[e.Name[3:]]
		return scalar(types.Typ[k], binAt("le", k, arg(0), arg(1)))
	case "eof":
		return scalar(errType, Sym("glob:io.EOF", SAny))
	}
	return nil
}
