package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

const modPath = "github.com/dmitryikh/leaves"

type Program struct {
	renamed []string
	fset    *token.FileSet
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // by package name (module packages)
	funcs   map[string]*ssa.Function
	globals map[*ssa.Global]*Cell
	stores  map[*ssa.Global]string // globals written outside init: where
	scanned bool
	bound   map[*ssa.Function]*Contract
}

func LoadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("package errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.Packages(ps, ssa.NaiveForm|ssa.InstantiateGenerics)
	P := &Program{fset: prog.Fset, prog: prog, pkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, globals: map[*ssa.Global]*Cell{}, stores: map[*ssa.Global]string{}}
	for _, p := range ps {
		sp := prog.Package(p.Types)
		if sp == nil || !strings.HasPrefix(p.PkgPath, modPath) {
			continue
		}
		sp.Build()
		if p.Name == "main" {
			continue
		}
		P.pkgs[p.Name] = sp
	}
	for _, sp := range P.pkgs {
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				P.funcs[fnKey(x)] = x
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f == nil || f.Synthetic != "" {
							continue
						}
						P.funcs[fnKey(f)] = f
					}
				}
			}
		}
	}
	return P, nil
}

// fnKey names a function the way contracts do: pkg.F, pkg.(*T).M
func fnKey(f *ssa.Function) string {
	if f.Pkg == nil && f.Parent() == nil {
		if f.Object() == nil || f.Object().Pkg() == nil {
			return f.Name()
		}
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Name()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Name()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			star = "*"
			t = p.Elem()
		}
		n := t.String()
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name()
		}
		return fmt.Sprintf("%s.(%s%s).%s", pkg, star, n, f.Name())
	}
	return pkg + "." + f.Name()
}

func inModule(f *ssa.Function) bool {
	for p := f; p != nil; p = p.Parent() {
		if p.Pkg != nil {
			return strings.HasPrefix(p.Pkg.Pkg.Path(), modPath)
		}
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), modPath)
	}
	return false
}

// all source functions of the module including anonymous ones
func (P *Program) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, k := range sortedKeys(P.funcs) {
		add(P.funcs[k])
	}
	return out
}

// scanGlobals records which globals are written after initialisation
func (P *Program) scanGlobals() {
	if P.scanned {
		return
	}
	P.scanned = true
	for _, f := range P.allFuncs() {
		if f.Name() == "init" && f.Signature.Recv() == nil && f.Parent() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					if !readOnlyUse(in, g) {
						P.stores[g] = f.String()
					}
				}
			}
		}
	}
}

func readOnlyUse(in ssa.Instruction, g *ssa.Global) bool {
	switch x := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.UnOp:
		// a loaded map must only be looked up
		if _, ok := x.Type().Underlying().(*types.Map); ok {
			for _, r := range *x.Referrers() {
				switch r.(type) {
				case *ssa.Lookup, *ssa.DebugRef, *ssa.Range:
				default:
					return false
				}
			}
		}
		if _, ok := x.Type().Underlying().(*types.Slice); ok {
			return false
		}
		return true
	case *ssa.IndexAddr:
		for _, r := range *x.Referrers() {
			u, ok := r.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return false
			}
		}
		return true
	}
	return false
}

// globalInit gives the initial value of a package variable that is never
// written afterwards.
func (v *V) globalInit(g *ssa.Global, st *State) *Val {
	v.P.scanGlobals()
	t := g.Type().(*types.Pointer).Elem()
	if w, ok := v.P.stores[g]; ok {
		panic(unsupported("global " + g.Name() + " written in " + w))
	}
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		// library variables such as io.EOF: constant, non-nil errors
		if types.IsInterface(t) {
			x := Sym("glob:"+g.String(), SAny)
			st.assume(Not(Eq(x, zeroLeaf(SAny))))
			return scalar(t, x)
		}
		if su, ok := t.Underlying().(*types.Struct); ok && su.NumFields() == 0 {
			return zeroVal(t) // e.g. binary.LittleEndian
		}
		panic(unsupported("library variable " + g.String()))
	}
	init := g.Pkg.Func("init")
	val := zeroVal(t)
	set := false
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			switch a := s.Addr.(type) {
			case *ssa.Global:
				if a != g {
					continue
				}
				switch x := s.Val.(type) {
				case *ssa.Const:
					val = v.constVal(x)
					set = true
				case *ssa.MakeMap:
					mt := t.Underlying().(*types.Map)
					id := v.newObj(st)
					v.mapClear(st, mt, id)
					for _, r := range *x.Referrers() {
						if mu, ok := r.(*ssa.MapUpdate); ok {
							k, ok1 := mu.Key.(*ssa.Const)
							e, ok2 := mu.Value.(*ssa.Const)
							if !ok1 || !ok2 {
								panic(unsupported("global map initialiser " + g.Name()))
							}
							v.mapStore(st, mt, id, v.constVal(k), v.constVal(e))
						}
					}
					val = scalar(t, id)
					set = true
				case *ssa.UnOp:
					if al, ok := x.X.(*ssa.Alloc); ok {
						val = v.arrayLit(al, t)
						set = true
						continue
					}
					panic(unsupported("initialiser of " + g.Name()))
				case *ssa.MakeInterface, *ssa.Call:
					if types.IsInterface(t) {
						x := Sym("glob:"+g.String(), SAny)
						st.assume(Not(Eq(x, zeroLeaf(SAny))))
						return scalar(t, x)
					}
					panic(unsupported("initialiser of " + g.Name()))
				default:
					panic(unsupported("initialiser of " + g.Name()))
				}
			case *ssa.IndexAddr:
				if a.X != ssa.Value(g) {
					continue
				}
				ix, ok1 := a.Index.(*ssa.Const)
				e, ok2 := s.Val.(*ssa.Const)
				if !ok1 || !ok2 {
					panic(unsupported("initialiser of " + g.Name()))
				}
				val = v.setPath(val, []PE{{Field: -1, Idx: v.constVal(ix).Term}}, v.constVal(e))
				set = true
			}
		}
	}
	if !set {
		_ = set
	}
	return val
}

func (v *V) arrayLit(al *ssa.Alloc, t types.Type) *Val {
	val := zeroVal(t)
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		ix, ok := ia.Index.(*ssa.Const)
		if !ok {
			panic(unsupported("array literal"))
		}
		for _, u := range *ia.Referrers() {
			if s, ok := u.(*ssa.Store); ok {
				e, ok := s.Val.(*ssa.Const)
				if !ok {
					panic(unsupported("array literal"))
				}
				val = v.setPath(val, []PE{{Field: -1, Idx: v.constVal(ix).Term}}, v.constVal(e))
			}
		}
	}
	return val
}

// ---- loops -----------------------------------------------------------------

type Loop struct {
	header  *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	counter *ssa.Alloc
}

type LoopInfo struct {
	byHeader map[*ssa.BasicBlock]*Loop
	list     []*Loop
}

var loopCache = map[*ssa.Function]*LoopInfo{}

func loopInfo(fn *ssa.Function) *LoopInfo {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	li := &LoopInfo{byHeader: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
					li.list = append(li.list, l)
				}
				var stack []*ssa.BasicBlock
				add := func(x *ssa.BasicBlock) {
					if !l.body[x] {
						l.body[x] = true
						stack = append(stack, x)
					}
				}
				add(b)
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						add(p)
					}
				}
			}
		}
	}
	sort.Slice(li.list, func(i, j int) bool { return li.list[i].header.Index < li.list[j].header.Index })
	loopCache[fn] = li
	return li
}
