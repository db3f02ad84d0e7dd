package main

// Models of library functions. Each model is an assumption about the Go
// standard library and is reported in the evidence.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (v *V) lib(what string) { v.trusted["library: "+what] = true }

// a non-nil error
func (v *V) newError(st *State, base string) *Val {
	e := Fresh("err_"+base, SAny)
	st.assume(Not(Eq(e, zeroLeaf(SAny))))
	return scalar(types.Universe.Lookup("error").Type(), e)
}

func (v *V) nilError() *Val {
	return scalar(types.Universe.Lookup("error").Type(), zeroLeaf(SAny))
}

func resTypes(fn *ssa.Function) []types.Type {
	var out []types.Type
	r := fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		out = append(out, r.At(i).Type())
	}
	return out
}

// split runs the continuation for success and failure
func (v *V) okOrErr(fr *Frame, st *State, ok *Term, good func(*State), bad func(*State)) {
	if d, known := st.decided(ok); known {
		if d {
			good(st)
		} else {
			bad(st)
		}
		return
	}
	v.countPath()
	s1 := st.copy()
	s1.assume(ok)
	st.assume(Not(ok))
	regs := copyRegs(fr)
	good(s1)
	fr.regs = regs
	bad(st)
}

func (v *V) libCall(fr *Frame, in ssa.CallInstruction, fn *ssa.Function, args []*Val, st *State, k Cont) {
	name := fn.String()
	rt := resTypes(fn)
	one := func(x *Term) { k(st, []*Val{scalar(rt[0], x)}) }
	switch name {
	case "fmt.Errorf", "errors.New":
		v.lib("fmt.Errorf and errors.New return a non-nil error and have no other effect")
		k(st, []*Val{v.newError(st, "new")})
		return
	case "fmt.Sprintf", "fmt.Sprint":
		v.lib("fmt.Sprintf has no side effect")
		one(Fresh("sprintf", SStr))
		return
	case "fmt.Printf", "fmt.Println", "fmt.Print":
		v.lib("fmt.Printf does not change program memory")
		k(st, []*Val{v.freshVal("n", tInt, "", nil), v.freshVal("e", rt[1], "", nil)})
		return
	case "math.NaN":
		one(F64Lit(nan()))
		return
	case "math.Inf":
		if args[0].Term.Op == "int" {
			if args[0].Term.Int.Sign() >= 0 {
				one(F64Lit(inf(1)))
			} else {
				one(F64Lit(inf(-1)))
			}
			return
		}
	case "math.IsNaN":
		v.lib("math.IsNaN, math.Abs, math.Floor and math.Ceil follow IEEE-754")
		one(Not(Fn("f64.eq", SBool, args[0].Term, args[0].Term)))
		return
	case "math.IsInf":
		if args[1].Term.Op == "int" {
			x := args[0].Term
			p := Fn("f64.eq", SBool, orderArgs(x, F64Lit(inf(1)))...)
			n := Fn("f64.eq", SBool, orderArgs(x, F64Lit(inf(-1)))...)
			switch args[1].Term.Int.Sign() {
			case 1:
				one(p)
			case -1:
				one(n)
			default:
				one(Or(p, n))
			}
			return
		}
	case "math.Abs", "math.Ceil", "math.Floor":
		v.lib("math.IsNaN, math.Abs, math.Floor and math.Ceil follow IEEE-754")
		one(mathFn(strings.ToLower(fn.Name()), []*Term{args[0].Term}))
		return
	case "math.Exp", "math.Log", "math.Sqrt", "math.Pow":
		v.lib("math.Exp, math.Log, math.Pow are functions of their arguments")
		var ts []*Term
		for _, a := range args {
			ts = append(ts, a.Term)
		}
		one(mathFn(strings.ToLower(fn.Name()), ts))
		return
	case "math.Float64frombits":
		v.lib("math.Float64frombits is a function of its argument")
		one(Fn("f64.frombits", SF64, args[0].Term))
		return
	case "math.Max", "math.Min":
		one(Fn("f64."+strings.ToLower(fn.Name()), SF64, args[0].Term, args[1].Term))
		return
	case "runtime.GOMAXPROCS", "runtime.NumCPU":
		v.lib("runtime.GOMAXPROCS returns at least 1")
		x := Fresh("gomaxprocs", SInt)
		typeFact[x] = Le(Int(1), x)
		B.nonneg[x] = true
		one(x)
		return
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		v.lib("sync.WaitGroup and channels behave as documented (a worker pool is joined by Wait)")
		v.wgOp(fr, fn.Name(), args, st, in.Pos())
		k(st, nil)
		return
	}
	if v.libStream(fr, in, fn, name, args, st, k) {
		return
	}
	if v.libBinary(fr, in, name, args, st, k) {
		return
	}
	if v.libIO(fr, in, fn, name, args, st, k) {
		return
	}
	panic(unsupported("library call " + name))
}

func (v *V) libInvoke(fr *Frame, in ssa.CallInstruction, it types.Type, m *types.Func, recv *Val, args []*Val, st *State, k Cont) bool {
	if m.Name() == "Error" && m.Type().(*types.Signature).Results().Len() == 1 {
		k(st, []*Val{scalar(tStr, Fn("err.text", SStr, recv.Term))})
		return true
	}
	return v.libIOInvoke(fr, in, it, m, recv, args, st, k)
}
