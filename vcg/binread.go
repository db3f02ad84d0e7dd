package main

// encoding/binary.Read on a ghost stream of bytes.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func streamEnd(id *Term) *Term { return Fn("bin.end", SInt, id) }

var binSize = map[types.BasicKind]int64{types.Int8: 1, types.Uint8: 1, types.Int16: 2, types.Uint16: 2, types.Int32: 4, types.Uint32: 4,
	types.Int64: 8, types.Uint64: 8, types.Float32: 4, types.Float64: 8}
var binName = map[types.BasicKind]string{types.Int8: "i8", types.Uint8: "u8", types.Int16: "i16", types.Uint16: "u16", types.Int32: "i32", types.Uint32: "u32",
	types.Int64: "i64", types.Uint64: "u64", types.Float32: "f32", types.Float64: "f64"}
var binKind = map[string]types.BasicKind{}

func init() {
	for k, n := range binName {
		binKind[n] = k
	}
}

// binAt is the value of kind k decoded at offset p
func binAt(order string, k types.BasicKind, id, p *Term) *Term {
	if k == types.Uint8 || k == types.Int8 {
		order = "le" // one byte has no order
	}
	s := SInt
	switch k {
	case types.Float32:
		s = SF32
	case types.Float64:
		s = SF64
	}
	return Fn(order+"."+binName[k], s, id, p)
}

// binFact: the range of a decoded integer
func binFact(t *Term) *Term {
	if k, ok := binKind[t.Name[3:]]; ok && t.Sort == SInt {
		return inRange(t, k)
	}
	return tTrue
}

// binFixed: the leaves of a value of type t decoded at p, and its size
func binFixed(order string, t types.Type, id, p *Term, out *[]*Term) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n, ok := binSize[u.Kind()]
		if !ok {
			panic(unsupported("binary.Read of " + t.String()))
		}
		*out = append(*out, binAt(order, u.Kind(), id, p))
		return n
	case *types.Struct:
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				panic(unsupported("binary.Read of a blank field"))
			}
			n += binFixed(order, u.Field(i).Type(), id, Add(p, Int(n)), out)
		}
		return n
	case *types.Array:
		b, ok := u.Elem().Underlying().(*types.Basic)
		if !ok || binSize[b.Kind()] == 0 {
			panic(unsupported("binary.Read of " + t.String()))
		}
		*out = append(*out, Fn(order+".arr."+binName[b.Kind()], SArr(SInt, leavesOf(u.Elem())[0].Sort), id, p))
		return u.Len() * binSize[b.Kind()]
	}
	panic(unsupported("binary.Read of " + t.String()))
}

func (v *V) libBinary(fr *Frame, in ssa.CallInstruction, name string, args []*Val, st *State, k Cont) bool {
	if name != "encoding/binary.Read" {
		return false
	}
	o, d := args[1], args[2]
	if o.K != KDyn || d.K != KDyn {
		return false
	}
	order := ""
	switch types.TypeString(o.Dyn.T, func(p *types.Package) string { return p.Path() }) {
	case "encoding/binary.littleEndian":
		order = "le"
	case "encoding/binary.bigEndian":
		order = "be"
	default:
		return false
	}
	v.lib("binary.Read reads exactly the encoded size of its argument at the stream's position and decodes every field in declaration order; if the stream ends before that it returns an error and leaves the argument alone; the length of a stream is finite and does not change")
	id := v.streamID(args[0])
	p := v.streamPos(st, id)
	end := streamEnd(id)
	st.assume(And(Le(Int(0), p), Le(p, end)))
	data := d.Dyn
	var size *Term
	var fixed []*Term
	var slice *Val
	var addr *Addr
	if data.K == KSlice {
		slice = data
	} else if pt, ok := data.T.Underlying().(*types.Pointer); ok {
		v.nilCheck(st, data, in.Pos())
		addr = v.ptrAddr(st, data)
		if _, isSlice := pt.Elem().Underlying().(*types.Slice); isSlice {
			slice = v.load(st, addr)
		} else {
			size = Int(binFixed(order, pt.Elem(), id, p, &fixed))
		}
	} else {
		return false
	}
	var el *types.Basic
	if slice != nil {
		b, ok := slice.T.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic)
		if !ok || binSize[b.Kind()] == 0 {
			return false
		}
		el = b
		size = Mul(slice.Len, Int(binSize[b.Kind()]))
	}
	v.okOrErr(fr, st, Le(Add(p, size), end), func(s1 *State) {
		v.setStreamPos(s1, id, Add(p, size))
		if slice == nil {
			v.store(s1, addr, unflatten(data.T.Underlying().(*types.Pointer).Elem(), fixed, ""))
		} else {
			et := slice.T.Underlying().(*types.Slice).Elem()
			l := leavesOf(et)[0]
			key := memKey(slice.Reg, et, l.Path)
			noteKey(key, l)
			m := v.getMem(s1, key, l.Sort)
			old := Select(m, slice.Arr)
			nw := v.freshInner(key, old.Sort, s1.alloc)
			j := BoundVar("j", SInt)
			w := Int(binSize[el.Kind()])
			s1.assume(Forall([]*Term{j}, Eq(Select(nw, j), Ite(And(Le(slice.Off, j), Lt(j, Add(slice.Off, slice.Len))),
				binAt(order, el.Kind(), id, Add(p, Mul(w, Sub(j, slice.Off)))), Select(old, j))), []*Term{Select(nw, j)}))
			s1.mem[key] = Store(m, slice.Arr, nw)
			v.noteWrite(s1, key, slice.Arr, nil)
			if v.worker != nil {
				v.oblige(s1, "race", "goroutine reads a stream", token.NoPos, tFalse)
			}
		}
		k(s1, []*Val{v.nilError()})
	}, func(s2 *State) {
		q := Fresh("pos", SInt)
		s2.assume(And(Le(p, q), Le(q, end)))
		v.setStreamPos(s2, id, q)
		k(s2, []*Val{v.newError(s2, "binary")})
	})
	return true
}
