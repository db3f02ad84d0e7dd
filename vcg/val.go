package main

// Symbolic values, type flattening and the memory model.
//
// Memory is split per (region, element type, leaf path). Each piece is an
// SMT array of arrays: object id -> index -> leaf. A pointer to a heap object
// is an (object id, index) pair; slices are (object id, offset, length,
// capacity). Region "" is the default memory.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	SF64 Sort = "F64"
	SF32 Sort = "F32"
)

type Leaf struct {
	Path string
	Sort Sort
	B    types.BasicKind // basic kind for integer leaves (Invalid otherwise)
	Ref  bool            // object id
}

var leafCache = map[types.Type][]Leaf{}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func leavesOf(t types.Type) []Leaf {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var out []Leaf
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() == "WaitGroup" {
		leafCache[t] = []Leaf{{"", SInt, types.Invalid, false}}
		return leafCache[t]
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			out = []Leaf{{"", SBool, types.Invalid, false}}
		case u.Info()&types.IsInteger != 0:
			out = []Leaf{{"", SInt, u.Kind(), false}}
		case u.Kind() == types.Float64 || u.Kind() == types.UntypedFloat:
			out = []Leaf{{"", SF64, types.Invalid, false}}
		case u.Kind() == types.Float32:
			out = []Leaf{{"", SF32, types.Invalid, false}}
		case u.Info()&types.IsString != 0:
			out = []Leaf{{"", SStr, types.Invalid, false}}
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			out = []Leaf{{"", SInt, types.Invalid, false}}
		default:
			panic(unsupported("type " + t.String()))
		}
	case *types.Slice:
		out = []Leaf{{".a", SInt, types.Invalid, true}, {".o", SInt, types.Invalid, false}, {".n", SInt, types.Invalid, false}, {".c", SInt, types.Invalid, false}}
	case *types.Pointer:
		out = []Leaf{{".p", SInt, types.Invalid, true}, {".i", SInt, types.Invalid, false}}
		if interiorPtr(t) {
			out = append(out, Leaf{".q", SInt, types.Invalid, false})
		}
	case *types.Interface:
		out = []Leaf{{"", SAny, types.Invalid, false}}
	case *types.Map, *types.Chan:
		out = []Leaf{{"", SInt, types.Invalid, true}}
	case *types.Signature:
		out = []Leaf{{"", SInt, types.Invalid, false}}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leavesOf(f.Type()) {
				l.Path = "." + f.Name() + l.Path
				out = append(out, l)
			}
		}
	case *types.Array:
		for _, l := range leavesOf(u.Elem()) {
			l.Path = "[]" + l.Path
			l.Sort = SArr(SInt, l.Sort)
			out = append(out, l)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, l := range leavesOf(u.At(i).Type()) {
				l.Path = fmt.Sprintf("#%d%s", i, l.Path)
				out = append(out, l)
			}
		}
	default:
		panic(unsupported("type " + t.String()))
	}
	leafCache[t] = out
	return out
}

// pointers to basic types may point into structs: they carry a path id
func interiorPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Basic)
	return ok
}

type unsupportedErr struct{ msg string }

func unsupported(m string) unsupportedErr { return unsupportedErr{m} }

type restartErr struct{ why string }

type Kind int

const (
	KScalar Kind = iota
	KSlice
	KFields // struct or tuple
	KArr    // array value: lifted leaves
	KAddr   // pointer with static shape
	KPtr    // pointer as flattened terms (default region)
	KClo
	KDyn // interface holding a statically known dynamic type
)

type PE struct {
	Field int   // >=0: struct field
	Idx   *Term // else array index
}

type Addr struct {
	Cell *Cell
	Reg  string
	Elem types.Type
	Arr  *Term
	Idx  *Term
	Path []PE
}

type Cell struct {
	id    int
	Name  string
	T     types.Type
	Alloc *ssa.Alloc
	Frame *Frame
	Depth int // loop nesting at creation
	Ghost bool
}

type Closure struct {
	Fn   *ssa.Function
	Bind []*Val
	Recv *Val // bound method
}

type Val struct {
	T    types.Type
	K    Kind
	Term *Term
	// slice
	Arr, Off, Len, Cap *Term
	Reg                string
	Sub                []*Val
	LArr               []*Term // KArr: one per leaf of the array element
	Addr               *Addr
	P, I, Q            *Term // KPtr
	Clo                *Closure
	Dyn                *Val // KDyn
}

func scalar(t types.Type, x *Term) *Val { return &Val{T: t, K: KScalar, Term: x} }

func mkSlice(t types.Type, a, o, n, c *Term, reg string) *Val {
	return &Val{T: t, K: KSlice, Arr: a, Off: o, Len: n, Cap: c, Reg: reg}
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// ---- literals ------------------------------------------------------------
var strLits = map[string]string{}
var strLitName = map[string]string{} // symbol -> literal
var f64Lits = map[string]uint64{}
var f32Lits = map[string]uint32{}

func zeroLeaf(s Sort) *Term {
	switch s {
	case SInt:
		return Int(0)
	case SBool:
		return tFalse
	case SF64:
		return F64Lit(0)
	case SF32:
		return F32Lit(0)
	case SStr:
		return StrLit("")
	case SAny:
		return Sym("any_nil", SAny)
	}
	if strings.HasPrefix(string(s), "(Array ") {
		return ConstArr(zeroLeaf(arrElem(s)), s)
	}
	panic("zeroLeaf " + string(s))
}

// unflatten builds a value of type t from leaf terms
func unflatten(t types.Type, ts []*Term, reg string) *Val {
	v, n := unflat(t, ts, reg)
	if n != len(ts) {
		panic("unflatten: leaf count mismatch for " + t.String())
	}
	return v
}

func unflat(t types.Type, ts []*Term, reg string) (*Val, int) {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
		return scalar(t, ts[0]), 1
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return mkSlice(t, ts[0], ts[1], ts[2], ts[3], reg), 4
	case *types.Pointer:
		if interiorPtr(t) {
			return &Val{T: t, K: KPtr, P: ts[0], I: ts[1], Q: ts[2]}, 3
		}
		return &Val{T: t, K: KPtr, P: ts[0], I: ts[1]}, 2
	case *types.Struct:
		v := &Val{T: t, K: KFields}
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			x, k := unflat(u.Field(i).Type(), ts[n:], reg)
			v.Sub = append(v.Sub, x)
			n += k
		}
		return v, n
	case *types.Tuple:
		v := &Val{T: t, K: KFields}
		n := 0
		for i := 0; i < u.Len(); i++ {
			x, k := unflat(u.At(i).Type(), ts[n:], reg)
			v.Sub = append(v.Sub, x)
			n += k
		}
		return v, n
	case *types.Array:
		k := len(leavesOf(u.Elem()))
		return &Val{T: t, K: KArr, LArr: append([]*Term{}, ts[:k]...)}, k
	default:
		return scalar(t, ts[0]), 1
	}
}

func zeroVal(t types.Type) *Val {
	var ts []*Term
	for _, l := range leavesOf(t) {
		ts = append(ts, zeroLeaf(l.Sort))
	}
	return unflatten(t, ts, "")
}

// integer ranges ---------------------------------------------------------
func intRange(k types.BasicKind) (lo, hi *big.Int, ok bool) {
	u := func(n int) (*big.Int, *big.Int, bool) {
		return big.NewInt(0), new(big.Int).Sub(Pow2(n), big.NewInt(1)), true
	}
	s := func(n int) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(Pow2(n - 1)), new(big.Int).Sub(Pow2(n-1), big.NewInt(1)), true
	}
	switch k {
	case types.Uint8:
		return u(8)
	case types.Uint16:
		return u(16)
	case types.Uint32:
		return u(32)
	case types.Uint64, types.Uint, types.Uintptr:
		return u(64)
	case types.Int8:
		return s(8)
	case types.Int16:
		return s(16)
	case types.Int32:
		return s(32)
	case types.Int64, types.Int:
		return s(64)
	}
	return nil, nil, false
}

func basicKind(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.UntypedRune:
			return types.Int32
		case types.UntypedInt:
			return types.Int
		}
		return b.Kind()
	}
	return types.Invalid
}

func inRange(x *Term, k types.BasicKind) *Term {
	lo, hi, ok := intRange(k)
	if !ok {
		return tTrue
	}
	return And(Le(IntB(lo), x), Le(x, IntB(hi)))
}

func isUnsigned(k types.BasicKind) bool {
	switch k {
	case types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uint, types.Uintptr:
		return true
	}
	return false
}

func bitsOf(k types.BasicKind) int {
	switch k {
	case types.Uint8, types.Int8:
		return 8
	case types.Uint16, types.Int16:
		return 16
	case types.Uint32, types.Int32:
		return 32
	}
	return 64
}

// wrap reduces a mathematical integer to the machine type k. int, int64,
// uint64 are kept mathematical (stated assumption), except subtraction on
// unsigned 64 which the caller obliges to be non-negative.
func wrap(x *Term, k types.BasicKind) *Term {
	n := bitsOf(k)
	if n == 64 {
		return x
	}
	if x.Op == "int" {
		m := new(big.Int).Mod(x.Int, Pow2(n))
		if !isUnsigned(k) && m.Cmp(Pow2(n-1)) >= 0 {
			m.Sub(m, Pow2(n))
		}
		return IntB(m)
	}
	if isUnsigned(k) {
		return ModF(x, IntB(Pow2(n)))
	}
	h := IntB(Pow2(n - 1))
	return Sub(ModF(Add(x, h), IntB(Pow2(n))), h)
}

// truncated division (Go semantics)
func goDiv(a, b *Term) *Term {
	if b.Op == "int" && b.Int.Sign() > 0 {
		if nonNeg(a) {
			return DivF(a, b)
		}
		return Ite(Le(Int(0), a), DivF(a, b), Sub(Int(0), DivF(Sub(Int(0), a), b)))
	}
	if nonNeg(a) && nonNeg(b) {
		return DivF(a, b)
	}
	return Fn("go_div", SInt, a, b)
}

func goMod(a, b *Term) *Term {
	if b.Op == "int" && b.Int.Sign() > 0 {
		if nonNeg(a) {
			return ModF(a, b)
		}
		return Ite(Le(Int(0), a), ModF(a, b), Sub(Int(0), ModF(Sub(Int(0), a), b)))
	}
	if nonNeg(a) && nonNeg(b) {
		return ModF(a, b)
	}
	return Fn("go_mod", SInt, a, b)
}

// syntactic non-negativity
func nonNeg(t *Term) bool {
	switch {
	case t.Op == "int":
		return t.Int.Sign() >= 0
	case t.Op == "app" && t.Name == "mod":
		return true
	case t.Op == "app" && (t.Name == "+" || t.Name == "*"):
		return nonNeg(t.Args[0]) && nonNeg(t.Args[1])
	case t.Op == "app" && t.Name == "div":
		return nonNeg(t.Args[0]) && nonNeg(t.Args[1])
	case t.Op == "app" && t.Name == "ite":
		return nonNeg(t.Args[1]) && nonNeg(t.Args[2])
	case t.Op == "app" && nonNegFn[t.Name]:
		return true
	case t.Op == "app" && t.Name == "bits.set":
		return nonNeg(t.Args[0])
	}
	return B.nonneg[t]
}

var nonNegFn = map[string]bool{"str.len_": true, "bits.or8": true, "bits.and8": true}

// ---- bits ----------------------------------------------------------------
func isPow2(x *big.Int) (int, bool) {
	if x.Sign() <= 0 {
		return 0, false
	}
	n := x.BitLen() - 1
	if Pow2(n).Cmp(x) == 0 {
		return n, true
	}
	return 0, false
}

// bit k (0/1) of a mathematical integer (two's complement for negatives). Bits of
// the results of &, | with masks are computed structurally; the bit of any other
// term is the atom bit.on(x, k), which bitAxiom defines by division.
func bitK(x *Term, k int) *Term { return Ite(bitOn(x, k), Int(1), Int(0)) }

type bitKey struct {
	x *Term
	k int
}

var bitMemo = map[bitKey]*Term{}

func bitOn(x *Term, k int) *Term {
	key := bitKey{x, k}
	if r, ok := bitMemo[key]; ok {
		return r
	}
	r := bitOn1(x, k)
	bitMemo[key] = r
	return r
}

func bitOn1(x *Term, k int) *Term {
	if x.Op == "int" {
		return Eq(ModF(DivF(x, IntB(Pow2(k))), Int(2)), Int(1))
	}
	if x.Op == "app" {
		switch x.Name {
		case "ite":
			return Ite(x.Args[0], bitOn(x.Args[1], k), bitOn(x.Args[2], k))
		case "bits.set": // x | 2^i
			if x.Args[1].Int.Int64() == int64(k) {
				return tTrue
			}
			return bitOn(x.Args[0], k)
		case "bits.or8":
			if k < 8 {
				return Or(bitOn(x.Args[0], k), bitOn(x.Args[1], k))
			}
		case "bits.and8":
			if k < 8 {
				return And(bitOn(x.Args[0], k), bitOn(x.Args[1], k))
			}
		case "mod":
			if m := x.Args[1]; m.Op == "int" {
				if n, ok := isPow2(m.Int); ok && k < n {
					return bitOn(x.Args[0], k)
				}
			}
		}
	}
	return Fn("bit.on", SBool, x, Int(int64(k)))
}

// bitAxiom: what the bits of x are
func bitAxiom(x, k *Term) *Term {
	n := int(k.Int.Int64())
	return Eq(Fn("bit.on", SBool, x, k), Eq(ModF(DivF(x, IntB(Pow2(n))), Int(2)), Int(1)))
}

// definition of the bit operations
func bitOpAxiom(t *Term) *Term {
	switch t.Name {
	case "bits.set":
		k := int(t.Args[1].Int.Int64())
		return Eq(t, Add(t.Args[0], Ite(bitOn(t.Args[0], k), Int(0), IntB(Pow2(k)))))
	case "bits.or8", "bits.and8":
		res := Int(0)
		for i := 0; i < 8; i++ {
			res = Add(res, Ite(bitOn(t, i), IntB(Pow2(i)), Int(0)))
		}
		return Eq(t, res)
	}
	return nil
}

// bvMode: the unit being generated is in mode bv, masks are kept as bit operations
var bvMode bool

func andConst(x *Term, c *big.Int) *Term {
	if c.Sign() == 0 {
		return Int(0)
	}
	if x.Op == "int" {
		return IntB(new(big.Int).And(x.Int, c))
	}
	// low mask
	if n, ok := isPow2(new(big.Int).Add(c, big.NewInt(1))); ok && n > 1 {
		return ModF(x, IntB(Pow2(n)))
	}
	if bvMode {
		return Fn("bits.and32", SInt, x, IntB(c))
	}
	// general: sum of bits, or of runs of ones
	res := Int(0)
	n := c.BitLen()
	ones := 0
	for i := 0; i < n; i++ {
		ones += int(c.Bit(i))
	}
	for i := 0; i < n; {
		if c.Bit(i) == 0 {
			i++
			continue
		}
		if ones <= 4 {
			res = Add(res, Ite(bitOn(x, i), IntB(Pow2(i)), Int(0)))
			i++
			continue
		}
		j := i
		for j < n && c.Bit(j) == 1 {
			j++
		}
		run := Mul(IntB(Pow2(i)), ModF(DivF(x, IntB(Pow2(i))), IntB(Pow2(j-i))))
		res = Add(res, run)
		i = j
	}
	return res
}

func orConst(x *Term, c *big.Int) *Term {
	// x + bits of c that are not set in x
	if c.Sign() == 0 {
		return x
	}
	if x.Op == "int" {
		return IntB(new(big.Int).Or(x.Int, c))
	}
	res := x
	for i := 0; i < c.BitLen(); i++ {
		if c.Bit(i) == 1 {
			res = Fn("bits.set", SInt, res, Int(int64(i)))
		}
	}
	return res
}

func bitAnd(a, b *Term, k types.BasicKind) *Term {
	if a.Op == "int" {
		a, b = b, a
	}
	if b.Op == "int" && b.Int.Sign() >= 0 {
		return andConst(a, b.Int)
	}
	if bitsOf(k) == 8 {
		if a.id > b.id {
			a, b = b, a
		}
		return Fn("bits.and8", SInt, a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return Fn(fmt.Sprintf("bits.and%d", bitsOf(k)), SInt, a, b)
}

func bitOr(a, b *Term, k types.BasicKind) *Term {
	if a.Op == "int" {
		a, b = b, a
	}
	if b.Op == "int" && b.Int.Sign() >= 0 {
		return orConst(a, b.Int)
	}
	if bitsOf(k) == 8 {
		if a.id > b.id {
			a, b = b, a
		}
		return Fn("bits.or8", SInt, a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return Fn(fmt.Sprintf("bits.or%d", bitsOf(k)), SInt, a, b)
}

func bitXor(a, b *Term, k types.BasicKind) *Term {
	return Fn(fmt.Sprintf("bits.xor%d", bitsOf(k)), SInt, a, b)
}

func shiftR(a, b *Term, k types.BasicKind) *Term {
	if b.Op == "int" {
		if b.Int.Cmp(big.NewInt(int64(bitsOf(k)))) >= 0 && isUnsigned(k) {
			return Int(0)
		}
		return DivF(a, IntB(Pow2(int(b.Int.Int64()))))
	}
	return Fn("bits.shr", SInt, a, b)
}

func shiftL(a, b *Term, k types.BasicKind) *Term {
	if b.Op == "int" {
		if b.Int.Cmp(big.NewInt(int64(bitsOf(k)))) >= 0 {
			return Int(0)
		}
		return wrap(Mul(a, IntB(Pow2(int(b.Int.Int64())))), k)
	}
	return Fn(fmt.Sprintf("bits.shl%d", bitsOf(k)), SInt, a, b)
}
