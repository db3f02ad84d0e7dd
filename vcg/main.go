package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

var repoFlag = flag.String("repo", "/repo", "repository")
var specFlag = flag.String("spec", "/verif/spec", "specification directory")
var fnFlag = flag.String("fn", "", "debug: verify the contracts whose key contains this")
var propFlag = flag.String("prop", "", "property to check")
var verbose = flag.Bool("v", false, "list every obligation")
var onlyFlag = flag.String("only", "", "debug: only obligations whose name contains this")
var listFlag = flag.Bool("list", false, "list functions of the program")
var outFlag = flag.String("out", "/verif", "directory for evidence and replay files")

func main() {
	flag.StringVar(&dumpDir, "dump", "", "write the queries here")
	flag.BoolVar(&debugPanics, "panics", false, "do not catch internal errors")
	flag.Parse()
	t0 := time.Now()
	repoDir = *repoFlag
	P, err := LoadProgram(*repoFlag)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	if *listFlag {
		for _, k := range sortedKeys(P.funcs) {
			fmt.Println(k)
		}
		return
	}
	spec, err := LoadSpecs(*specFlag)
	if err != nil {
		fmt.Println("spec:", err)
		os.Exit(2)
	}
	missing := P.bindContracts(spec)
	if *fnFlag != "" {
		debugRun(P, spec, missing)
		fmt.Printf("%.1fs, %d solver calls, %d ms in solvers\n", time.Since(t0).Seconds(), solverCalls, solverMillis)
		return
	}
	if *propFlag != "" {
		os.Exit(runProperty(P, spec, missing, *propFlag, t0))
	}
}

func debugRun(P *Program, spec *Spec, missing []string) {
	for _, m := range missing {
		fmt.Println("missing:", m)
	}
	var rs []*FnResult
	for _, name := range strings.Split(*fnFlag, ",") {
		for _, k := range spec.Order {
			if !strings.Contains(k, name) {
				continue
			}
			rs = append(rs, verifyContract(P, spec, spec.Contracts[k])...)
		}
		for _, l := range lemmasInOrder(spec) {
			if strings.Contains("lemma "+l.Name, name) && !l.Axiom {
				rs = append(rs, VerifyLemma(P, spec, l))
			}
		}
	}
	for _, r := range rs {
		obls := r.Obls
		if *onlyFlag != "" {
			obls = nil
			for _, o := range r.Obls {
				if strings.Contains(o.Name(), *onlyFlag) {
					obls = append(obls, o)
				}
			}
		}
		proveAll(obls)
		ok := 0
		for _, o := range obls {
			if o.Result == "proved" {
				ok++
			}
		}
		fmt.Printf("== %s: %d/%d obligations, %d paths, %d restarts %s\n", r.Key, ok, len(obls), r.Paths, r.Restarts, r.Err)
		for _, n := range r.Dropped {
			fmt.Println("   dropped:", n)
		}
		if *verbose {
			fmt.Println("   inlined:", r.Inlined)
			fmt.Println("   calls:", r.Calls)
			fmt.Println("   trusted:", r.Trusted)
			fmt.Println("   notes:", r.Notes)
			fmt.Println("   lemmas:", r.Lemmas)
		}
		for _, o := range obls {
			if *verbose || o.Result != "proved" {
				fmt.Printf("   [%s] %s / %s @ %s (%s, %d ms)\n", o.Result, o.Kind, o.Label, o.Pos, o.Solver, o.Millis)
				if o.Result != "proved" && *verbose {
					fmt.Println(trunc(o.Model, 1500))
				}
			}
		}
	}
}

func verifyContract(P *Program, spec *Spec, c *Contract) []*FnResult {
	if c.NoCheck != "" {
		return nil
	}
	if c.Iface {
		var out []*FnResult
		for _, f := range P.implementers(c) {
			out = append(out, VerifyFunction(P, spec, f, c))
		}
		return out
	}
	if c.Fn == nil {
		return []*FnResult{{Key: c.Key, Obls: []*Obligation{{Fn: c.Key, Kind: "verifier", Label: "the function under contract exists", Pos: "?", Goal: tFalse, Result: "missing", Solver: "vcg"}}, Err: "function not found"}}
	}
	return []*FnResult{VerifyFunction(P, spec, c.Fn, c)}
}

func lemmasInOrder(spec *Spec) []*Lemma {
	var ls []*Lemma
	for _, l := range spec.Lemmas {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].Seq < ls[j].Seq })
	return ls
}
