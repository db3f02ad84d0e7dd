package main

import (
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func nan() float64      { return math.NaN() }
func inf(s int) float64 { return math.Inf(s) }

func (v *V) libIO(fr *Frame, in ssa.CallInstruction, fn *ssa.Function, name string, args []*Val, st *State, k Cont) bool {
	rt := resTypes(fn)
	switch name {
	case "strconv.Atoi", "strconv.ParseInt":
		v.lib("strconv.Atoi/ParseInt/ParseUint/ParseFloat: a value and a nil error exactly for well-formed in-range text, else an error")
		s := args[0].Term
		base, bits := Int(10), Int(0)
		if len(args) == 3 {
			base, bits = args[1].Term, args[2].Term
		}
		ok := Fn("parse.int_ok", SBool, s, base, bits)
		val := Fn("parse.int", SInt, s, base, bits)
		v.okOrErr(fr, st, ok, func(s1 *State) {
			if bits.Op == "int" {
				kd := types.Int64
				switch bits.Int.Int64() {
				case 32:
					kd = types.Int32
				case 16:
					kd = types.Int16
				case 8:
					kd = types.Int8
				}
				s1.assume(inRange(val, kd))
			}
			k(s1, []*Val{scalar(rt[0], val), v.nilError()})
		}, func(s2 *State) {
			k(s2, []*Val{v.freshVal("atoi", rt[0], "", nil), v.newError(s2, "atoi")})
		})
		return true
	case "strconv.ParseUint":
		v.lib("strconv.Atoi/ParseInt/ParseUint/ParseFloat: a value and a nil error exactly for well-formed in-range text, else an error")
		s := args[0].Term
		bits := args[2].Term
		ok := Fn("parse.uint_ok", SBool, s, args[1].Term, bits)
		val := Fn("parse.uint", SInt, s, args[1].Term, bits)
		v.okOrErr(fr, st, ok, func(s1 *State) {
			kd := types.Uint64
			if bits.Op == "int" {
				switch bits.Int.Int64() {
				case 32:
					kd = types.Uint32
				case 16:
					kd = types.Uint16
				case 8:
					kd = types.Uint8
				}
			}
			s1.assume(inRange(val, kd))
			k(s1, []*Val{scalar(rt[0], val), v.nilError()})
		}, func(s2 *State) {
			k(s2, []*Val{v.freshVal("atou", rt[0], "", nil), v.newError(s2, "atou")})
		})
		return true
	case "strconv.ParseFloat":
		v.lib("strconv.Atoi/ParseInt/ParseUint/ParseFloat: a value and a nil error exactly for well-formed in-range text, else an error")
		s := args[0].Term
		bits := args[1].Term
		ok := Fn("parse.float_ok", SBool, s, bits)
		v.okOrErr(fr, st, ok, func(s1 *State) {
			k(s1, []*Val{scalar(rt[0], Fn("parse.float", SF64, s, bits)), v.nilError()})
		}, func(s2 *State) {
			k(s2, []*Val{v.freshVal("atof", rt[0], "", nil), v.newError(s2, "atof")})
		})
		return true
	case "strings.Split":
		v.lib("strings.Split(s, sep): for non-empty sep, split_n >= 1 pieces that are functions of s and sep")
		s, sep := args[0].Term, args[1].Term
		n := Fn("strs.split_n", SInt, s, sep)
		st.assume(Le(Int(1), n))
		id := v.newObj(st)
		reg := v.siteRegion(in, fr)
		key := memKey(reg, tStr, "")
		noteKey(key, Leaf{Sort: SStr})
		m := v.getMem(st, key, SStr)
		st.mem[key] = Store(m, id, Fn("strs.split", SArr(SInt, SStr), s, sep))
		k(st, []*Val{mkSlice(rt[0], id, Int(0), n, n, reg)})
		return true
	case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper":
		v.lib(name + " is a function of its argument")
		k(st, []*Val{scalar(tStr, Fn("strs."+fn.Name(), SStr, args[0].Term))})
		return true
	case "strings.HasPrefix", "strings.Contains", "strings.HasSuffix":
		v.lib(name + " is a function of its arguments")
		k(st, []*Val{scalar(tBool, Fn("strs."+fn.Name(), SBool, args[0].Term, args[1].Term))})
		return true
	}
	return false
}

func (v *V) libIOInvoke(fr *Frame, in ssa.CallInstruction, it types.Type, m *types.Func, recv *Val, args []*Val, st *State, k Cont) bool {
	return false
}

// libSpecFn: library models usable in specifications
func libSpecFn(c *Ctx, e *Expr) *Val {
	arg := func(i int) *Term { return c.eval(e.Args[i]).Term }
	switch e.Name {
	case "parse_int":
		return intV(Fn("parse.int", SInt, arg(0), Int(10), Int(0)))
	case "parse_int_ok":
		return boolV(Fn("parse.int_ok", SBool, arg(0), Int(10), Int(0)))
	case "parse_int32":
		return intV(Fn("parse.int", SInt, arg(0), Int(10), Int(32)))
	case "parse_int32_ok":
		return boolV(Fn("parse.int_ok", SBool, arg(0), Int(10), Int(32)))
	case "parse_float":
		return scalar(tF64, Fn("parse.float", SF64, arg(0), Int(64)))
	case "parse_float_ok":
		return boolV(Fn("parse.float_ok", SBool, arg(0), Int(64)))
	case "parse_uint32":
		return intV(Fn("parse.uint", SInt, arg(0), Int(10), Int(32)))
	case "parse_uint32_ok":
		return boolV(Fn("parse.uint_ok", SBool, arg(0), Int(10), Int(32)))
	case "split_n":
		return intV(Fn("strs.split_n", SInt, arg(0), arg(1)))
	case "split_at":
		return scalar(tStr, Select(Fn("strs.split", SArr(SInt, SStr), arg(0), arg(1)), arg(2)))
	case "trimspace":
		return scalar(tStr, Fn("strs.TrimSpace", SStr, arg(0)))
	case "hasprefix":
		return boolV(Fn("strs.HasPrefix", SBool, arg(0), arg(1)))
	}
	return nil
}

func seqMk(s Sort, inner, off, n *Term) *Term {
	return Fn("seq.mk", Sort("Seq_"+string(s)), inner, off, n)
}
