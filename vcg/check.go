package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type harnessResult struct {
	ran      bool
	failed   bool
	what     string
	file     string
	stat     map[string]interface{}
	note     string
	buildErr string
}

func envSeed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func goEnv() []string {
	var e []string
	for _, v := range os.Environ() {
		if !strings.HasPrefix(v, "GOFLAGS=") && !strings.HasPrefix(v, "GOMAXPROCS=") {
			e = append(e, v)
		}
	}
	return append(e, "GOFLAGS=-mod=mod", "GOMAXPROCS=8")
}

// buildHarness compiles the cross-check program inside the module under test,
// through an overlay: nothing is written to the repository.
func buildHarness(repo, dir, tmp, id string) (string, error) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	rep := map[string]string{}
	for _, f := range files {
		if filepath.Base(f) == "props_internal.go" && id != "C21" && id != "C22" {
			continue
		}
		rep[filepath.Join(repo, "verifharness", filepath.Base(f))] = f
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(ov, b, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(tmp, "harness")
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "build", "-overlay", ov, "-o", bin, "./verifharness")
	cmd.Dir = repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

func runHarness(bin, id, tmp string, seed int64, secs float64, replayDir string) *harnessResult {
	h := &harnessResult{ran: true}
	out := filepath.Join(tmp, "failure.json")
	stat := filepath.Join(tmp, "stat.json")
	prog := filepath.Join(tmp, "progress.json")
	os.Remove(out)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+90)*time.Second)
	defer cancel()
	args := []string{"-prop", id, "-seed", fmt.Sprint(seed), "-time", fmt.Sprint(secs), "-out", out, "-stat", stat, "-progress", prog}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Env = goEnv()
	var log bytes.Buffer
	cmd.Stdout, cmd.Stderr = &log, &log
	err := cmd.Run()
	if b, e := os.ReadFile(stat); e == nil {
		json.Unmarshal(b, &h.stat)
	}
	code := cmd.ProcessState.ExitCode()
	if err == nil {
		return h
	}
	if code == 3 {
		h.ran = false
		h.note = "no cross-check for this property"
		return h
	}
	// code 1: a failing case; anything else: the process crashed (a panic in
	// a goroutine of the code under test, a fatal error) or hung
	h.failed = true
	os.MkdirAll(replayDir, 0755)
	h.file = filepath.Join(replayDir, id+".input.json")
	rec := map[string]interface{}{"property": id, "seed": seed, "how_to_replay": "bash /verif/replay.sh " + id + " " + fmt.Sprint(seed) + " <case>"}
	if b, e := os.ReadFile(out); code == 1 && e == nil {
		var f map[string]interface{}
		json.Unmarshal(b, &f)
		for k, x := range f {
			rec[k] = x
		}
		h.what = fmt.Sprint(f["what"])
		rec["how_to_replay"] = fmt.Sprintf("bash /verif/replay.sh %s %d %v", id, seed, f["case"])
	} else {
		h.what = "the process under test crashed or hung: " + trunc(log.String(), 6000)
		rec["what"] = h.what
		// which case was it?
		if b, e := os.ReadFile(prog); e == nil {
			var run []int
			json.Unmarshal(b, &run)
			rec["running_cases"] = run
		}
	}
	b, _ := json.MarshalIndent(rec, "", " ")
	os.WriteFile(h.file, b, 0644)
	return h
}

type planned struct {
	results []*FnResult
	missing []string
	notes   []string
}

// plan generates the obligations of a property: its functions, its lemmas and
// every lemma used on the way.
func plan(P *Program, spec *Spec, ps *PropSpec) *planned {
	pl := &planned{}
	done := map[string]bool{}
	lemmas := map[string]bool{}
	for _, l := range ps.Lemmas {
		lemmas[l] = true
	}
	for _, root := range ps.Roots {
		helper := strings.HasSuffix(root, "?")
		root = strings.TrimSuffix(root, "?")
		if done[root] {
			continue
		}
		done[root] = true
		c := spec.Contracts[root]
		if c == nil {
			pl.results = append(pl.results, &FnResult{Key: root, Obls: []*Obligation{{Fn: root, Kind: "verifier", Label: "a contract exists", Pos: "?", Goal: tFalse, Result: "missing", Solver: "vcg"}}, Err: "no contract"})
			continue
		}
		if helper && !c.Iface && c.Fn == nil {
			pl.notes = append(pl.notes, "helper "+root+" does not exist in this tree; its callers are verified with what replaced it")
			continue
		}
		rs := verifyContract(P, spec, c)
		if c.Iface && len(rs) == 0 {
			rs = []*FnResult{{Key: root, Obls: []*Obligation{{Fn: root, Kind: "verifier", Label: "the interface has implementations", Pos: "?", Goal: tFalse, Result: "missing", Solver: "vcg"}}}}
		}
		pl.results = append(pl.results, rs...)
		for _, r := range rs {
			for _, l := range r.Lemmas {
				lemmas[l] = true
			}
		}
	}
	ldone := map[string]bool{}
	for again := true; again; {
		again = false
		for _, l := range lemmasInOrder(spec) {
			if !lemmas[l.Name] || ldone[l.Name] {
				continue
			}
			ldone[l.Name] = true
			if l.Axiom {
				pl.notes = append(pl.notes, "axiom "+l.Name)
				continue
			}
			r := VerifyLemma(P, spec, l)
			pl.results = append(pl.results, r)
			for _, n := range r.Lemmas {
				lemmas[n] = true
			}
			again = true
		}
	}
	return pl
}

// wants: does the property ask for this kind of obligation?
func (ps *PropSpec) wants(o *Obligation) bool {
	if len(ps.Kinds) == 0 || o.Kind == "verifier" {
		return true
	}
	for _, k := range ps.Kinds {
		if strings.Contains(o.Kind, k) {
			return true
		}
	}
	return false
}

func inProp(o *Obligation, id string) bool {
	if len(o.Props) == 0 {
		return true
	}
	for _, p := range o.Props {
		if p == id {
			return true
		}
	}
	return false
}

func runProperty(P *Program, spec *Spec, missing []string, id string, t0 time.Time) int {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := envSeed()
	ps := spec.Props[id]
	evidence := filepath.Join(*outFlag, "evidence", id+".json")
	replayDir := filepath.Join(*outFlag, "work", "replay")
	os.MkdirAll(filepath.Dir(evidence), 0755)
	os.MkdirAll(replayDir, 0755)
	os.Remove(filepath.Join(replayDir, id+".txt"))
	os.Remove(filepath.Join(replayDir, id+".input.json"))
	if ps == nil {
		fmt.Println("no specification for", id)
		return 2
	}
	tmp, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)

	secs := 10.0
	if tier == "thorough" {
		secs = 240
	} else if ps.Bounded {
		secs = 40
	}
	// the cross-check is compiled while the obligations are generated
	type built struct {
		bin string
		err error
	}
	bch := make(chan built, 1)
	go func() {
		b, e := buildHarness(*repoFlag, filepath.Join(filepath.Dir(*specFlag), "harness"), tmp, id)
		bch <- built{b, e}
	}()

	pl := plan(P, spec, ps)
	var obls []*Obligation
	for _, r := range pl.results {
		for _, o := range r.Obls {
			if inProp(o, id) && ps.wants(o) {
				obls = append(obls, o)
			}
		}
	}
	genS := time.Since(t0).Seconds()
	proveAll(obls)
	bad := failing(obls)
	// a second, longer effort for the few that were not decided
	if len(bad) > 0 && len(bad) <= 8 {
		retry := bad[:0:0]
		for _, o := range bad {
			if o.Result == "unknown" || o.Result == "failed" && o.Solver == "portfolio" {
				o.Result, o.Model = "", ""
				retry = append(retry, o)
			}
		}
		atomic.StoreInt64(&quickFail, 0)
		stepTimeout = 30 * time.Second
		if tier == "thorough" {
			stepTimeout = 120 * time.Second
		}
		proveAll(retry)
		bad = failing(obls)
	}
	b := <-bch
	h := &harnessResult{}
	if b.err != nil {
		h.note = "the cross-check program does not compile against this tree: " + trunc(b.err.Error(), 800)
	} else {
		if len(bad) > 0 {
			secs *= 5 // look harder for a failing input
			if secs > 240 {
				secs = 240
			}
		}
		h = runHarness(b.bin, id, tmp, seed, secs, replayDir)
	}

	writeEvidence(P, spec, id, tier, seed, evidence, pl, obls, bad, h, genS, secs, t0, missing)
	for _, l := range knownFindings(id) {
		fmt.Println("KNOWN-FINDING: " + l)
	}
	n := 0
	for _, o := range obls {
		if o.Result == "proved" {
			n++
		}
	}
	fmt.Printf("%s: %d of %d obligations discharged in %d units, %.1f s", id, n, len(obls), len(pl.results), time.Since(t0).Seconds())
	if h.ran {
		fmt.Printf("; bounded cross-check (not proof): %v evaluations", h.stat["evaluations"])
	}
	fmt.Println()
	if ps.Bounded && !h.ran {
		fmt.Println("the bounded check did not run:", h.note)
		return 2
	}
	if len(bad) == 0 && !h.failed {
		return 0
	}
	replay := filepath.Join(replayDir, id+".txt")
	writeReplay(replay, id, seed, bad, h)
	for i, o := range bad {
		if i == 10 {
			fmt.Printf("... %d more\n", len(bad)-10)
			break
		}
		fmt.Printf("failed obligation: %s (%s by %s)\n", o.Name(), o.Result, o.Solver)
	}
	if h.failed {
		fmt.Println("failing input:", trunc(h.what, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, replay)
	}
	return 1
}

func failing(obls []*Obligation) []*Obligation {
	var bad []*Obligation
	for _, o := range obls {
		if o.Result != "proved" {
			bad = append(bad, o)
		}
	}
	return bad
}

func writeReplay(path, id string, seed int64, bad []*Obligation, h *harnessResult) {
	var b strings.Builder
	fmt.Fprintf(&b, "property %s, seed %d\n\n", id, seed)
	if h.failed {
		fmt.Fprintf(&b, "failing input found by the bounded cross-check against the real code:\n%s\n(full record: %s)\n\n", h.what, h.file)
	} else {
		fmt.Fprintf(&b, "no failing input was found; %s\n\n", h.note)
	}
	for _, o := range bad {
		fmt.Fprintf(&b, "obligation not discharged: %s\n  result %s by %s\n%s\n\n", o.Name(), o.Result, o.Solver, trunc(o.Model, 8000))
	}
	os.WriteFile(path, []byte(b.String()), 0644)
}

// knownFindings: entries of the committed file for this property
func knownFindings(id string) []string {
	b, err := os.ReadFile(filepath.Join(filepath.Dir(*specFlag), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "finding: property="+id+" ") {
			out = append(out, strings.TrimPrefix(l, "finding: "))
		}
	}
	return out
}

func writeEvidence(P *Program, spec *Spec, id, tier string, seed int64, path string, pl *planned, obls, bad []*Obligation, h *harnessResult, genS, secs float64, t0 time.Time, missing []string) {
	trusted := map[string]bool{}
	notes := map[string]bool{}
	inlined := map[string]bool{}
	relied := map[string]bool{}
	verified := map[string]bool{}
	dropped := map[string]bool{}
	var units []map[string]interface{}
	per := map[string]map[string]int{}
	backends := map[string]int{}
	for _, r := range pl.results {
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		for _, t := range r.Notes {
			notes[t] = true
		}
		for _, t := range r.Inlined {
			inlined[t] = true
		}
		for _, t := range r.Calls {
			relied[t] = true
		}
		for _, t := range r.Dropped {
			dropped[t] = true
		}
		k := r.Key
		if i := strings.Index(k, " : "); i >= 0 {
			verified[k[i+3:]] = true
		}
		verified[k] = true
		kinds := map[string]int{}
		ok := 0
		for _, o := range r.Obls {
			if !inProp(o, id) {
				continue
			}
			kinds[o.Kind]++
			if o.Result == "proved" {
				ok++
				for _, s := range strings.Split(o.Solver, "+") {
					backends[s]++
				}
			}
		}
		per[k] = kinds
		total := 0
		for _, n := range kinds {
			total += n
		}
		units = append(units, map[string]interface{}{"unit": k, "obligations": total, "discharged": ok, "kinds": kinds, "paths": r.Paths})
	}
	for _, n := range pl.notes {
		if strings.HasPrefix(n, "axiom ") {
			trusted[n] = true
		} else {
			notes[n] = true
		}
	}
	var elsewhere []string
	for _, k := range sortedKeys(relied) {
		if !verified[k] {
			elsewhere = append(elsewhere, k+" (its obligations are discharged by the checks of: "+strings.Join(propsOf(spec, k), ", ")+")")
		}
	}
	disch := len(obls) - len(bad)
	cov := map[string]interface{}{
		"obligations":                  len(obls),
		"discharged":                   disch,
		"checker_cmd":                  "vcg -prop " + id + " (weakest-precondition style verification conditions from the SSA form of the current source; z3 5.3.2, z3 4.8.12, cvc5 1.1.2)",
		"trusted_base":                 append(sortedKeys(trusted), standingAssumptions...),
		"functions_under_contract":     units,
		"helpers_verified_by_inlining": sortedKeys(inlined),
		"contracts_relied_upon":        elsewhere,
		"backends":                     backends,
		"solver_seconds":               float64(solverMillis) / 1000,
		"solver_calls":                 solverCalls,
		"vc_generation_seconds":        genS,
		"source":                       "the Go source of " + *repoFlag + ", loaded and translated to SSA by golang.org/x/tools on this run; nothing is rewritten",
		"dropped_by_extraction":        sortedKeys(dropped),
		"notes":                        sortedKeys(notes),
		"functions_renamed_or_absent":  append(append([]string{}, P.renamed...), missing...),
		"undischarged":                 names(bad),
		"bounded_seconds":              secs,
	}
	if h.ran {
		cov["bounded_cross_check_not_proof"] = h.stat
	} else {
		cov["bounded_cross_check_not_proof"] = h.note
	}
	viol := len(bad)
	if h.failed {
		viol++
	}
	level := "proof"
	if spec.Props[id].Bounded {
		level = "exploration"
		delete(cov, "bounded_cross_check_not_proof")
		for k, x := range h.stat {
			cov[k] = x
		}
		cov["bound"] = fmt.Sprintf("generated cases for %v s from the seed; the obligations above are the proved parts only", cov["bounded_seconds"])
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": append(sortedKeys(trusted), standingAssumptions...),
		"wall_s":      time.Since(t0).Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
}

func names(o []*Obligation) []string {
	r := []string{}
	for _, x := range o {
		r = append(r, x.Name())
	}
	return r
}

func propsOf(spec *Spec, key string) []string {
	var out []string
	for id, p := range spec.Props {
		for _, r := range p.Roots {
			if strings.TrimSuffix(r, "?") == key {
				out = append(out, id)
			}
		}
	}
	sort.Strings(out)
	if len(out) == 0 {
		out = []string{"none: assumed"}
	}
	return out
}

var standingAssumptions = []string{
	"int, int64 and uint64 arithmetic is treated as mathematical (values below 2^63); int32, uint32 and uint8 arithmetic wraps",
	"conversion of a float64 that does not fit to int32 gives -2^31 (amd64)",
	"the Go compiler and golang.org/x/tools/go/ssa translate the source faithfully; the verifier and the solvers are correct",
	"memory: allocation succeeds, no unsafe code in the module",
}
