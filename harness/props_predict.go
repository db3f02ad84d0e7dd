package main

import (
	"bufio"
	"bytes"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"sync"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/transformation"
	"github.com/dmitryikh/leaves/util"
)

func init() {
	props["C01"] = prop{run: c01, rule: "random numerical splits of all formats and values around the threshold, zero and special values; every case is non-trivial"}
	props["C02"] = prop{run: c02, rule: "random category sets in text and JSON models, categories in and around the set; bitset helpers on random words"}
	props["C03"] = prop{run: c03, rule: "random trees of all formats, rows around the thresholds; the leaf and the value are compared with an independent walk"}
	props["C04"] = prop{run: c04, rule: "random tree ensembles of all formats, raw scores with every estimator prefix"}
	props["C05"] = prop{run: c05, rule: "random gblinear models"}
	props["C06"] = prop{run: c06, rule: "random models, estimator counts around the limits"}
	props["C07"] = prop{run: c07, rule: "random models, row counts around multiples of the batch size, thread counts; compared with Predict row by row"}
	props["C08"] = prop{run: c08, rule: "as C07 with random sparse matrices; compared with Predict of the densified row"}
	props["C09"] = prop{run: c09, rule: "calls with short outputs, short rows, wrong estimator counts"}
	props["C10"] = prop{run: c10, rule: "random transformations applied to random score vectors at random offsets"}
	props["C11"] = prop{run: c11, rule: "softmax of random finite scores including huge ones"}
	props["C12"] = prop{run: c12, rule: "leaf indices and leaf counts of random tree ensembles"}
	props["C13"] = prop{run: c13, rule: "views of random models, views of views"}
	props["C15"] = prop{run: func(c *Case) { checkTrees(c, "lgtext") }, rule: "random LightGBM text trees with numerical and categorical splits; values and leaf numbers compared with an independent walk"}
	props["C16"] = prop{run: func(c *Case) { checkTrees(c, "lgjson") }, rule: "random LightGBM JSON trees with numerical and categorical splits; values compared with an independent walk"}
	props["C17"] = prop{run: func(c *Case) { checkTrees(c, []string{"gbtree", "dart"}[c.R.Intn(2)]) }, rule: "random XGBoost trees with nodes in any table order; values compared with an independent walk"}
	props["C18"] = prop{run: func(c *Case) {
		if c.R.Intn(2) == 0 {
			scores(c, genModel(c.R, "sklearn"))
		} else {
			checkTrees(c, "sklearn")
		}
	}, rule: "random sklearn gradient boosting models with nodes in any table order; values and raw scores of every estimator prefix compared with an independent evaluation"}
	props["C14"] = prop{run: c14, rule: "deep content of models and inputs before and after sequential and concurrent calls"}
}

func singleSplit(r *rand.Rand, kind string, cat bool) *Model {
	m := &Model{kind: kind, groups: 1, nest: 1, nfeat: 1 + r.Intn(3), trans: "raw", version: "v3", obj: "regression", rate: 1, prior: []float64{0}, w: []float64{1}}
	l := &Node{leaf: true, num: 0, val: 10}
	rr := &Node{leaf: true, num: 1, val: 20}
	n := &Node{l: l, r: rr, feat: r.Intn(m.nfeat)}
	if r.Intn(2) == 0 && kind == "lgtext" {
		l.num, rr.num = 1, 0
	}
	t := &Tree{root: n, nodes: []*Node{n}, leaves: []*Node{l, rr}}
	if l.num == 1 {
		t.leaves = []*Node{rr, l}
	}
	m.trees = []*Tree{t}
	n.cat = cat
	n.dl = r.Intn(2) == 0
	switch r.Intn(3) {
	case 0:
		n.mz = true
	case 1:
		n.mn = true
	}
	return m
}

func finite(f func() float64) float64 {
	for {
		if v := f(); !math.IsInf(v, 0) && v == v {
			return v
		}
	}
}

func c01(c *Case) {
	r := c.R
	kind := []string{"lgtext", "lgjson", "gbtree", "sklearn"}[r.Intn(4)]
	m := singleSplit(r, kind, false)
	n := m.trees[0].root
	n.thr = randThr(r)
	switch kind {
	case "lgjson":
		n.thr = finite(func() float64 { return randThr(r) })
	case "gbtree":
		n.thr = float64(float32(n.thr))
		n.mn, n.mz = true, false
	case "sklearn":
		n.mn, n.mz, n.dl = false, false, false
	}
	e := m.load(c)
	c.Note("%s", m.describe())
	for i := 0; i < 60; i++ {
		x := make([]float64, m.nfeat)
		for j := range x {
			x[j] = randX(r, []float64{n.thr}, nil)
			if i < len(specials) {
				x[j] = specials[i]
			}
		}
		c.evals++
		want := m.trees[0].eval(x).val
		got := e.PredictSingle(x, 0)
		if got != want {
			c.Fail("value %v at threshold %v (missing zero %v, missing NaN %v, default left %v): got leaf %v, want %v\n%s", x[n.feat], n.thr, n.mz, n.mn, n.dl, got, want, m.describe())
		}
	}
}

func c02(c *Case) {
	r := c.R
	m := singleSplit(r, []string{"lgtext", "lgjson"}[r.Intn(2)], true)
	nd := m.trees[0].root
	nd.set = randSet(r)
	nd.dl = false
	if r.Intn(2) == 0 {
		nd.extraW = r.Intn(3)
	}
	if r.Intn(2) == 0 {
		// several categorical splits in one tree
		m.trees[0] = genTree(r, genOpt{nfeat: m.nfeat, maxLeafs: 8, cats: true, missing: true})
		for _, n := range m.trees[0].nodes {
			n.cat = true
			n.set = randSet(r)
		}
	}
	e := m.load(c)
	c.Note("%s", m.describe())
	var cats []int
	for _, n := range m.trees[0].nodes {
		cats = append(cats, n.set...)
	}
	for i := 0; i < 60; i++ {
		x := make([]float64, m.nfeat)
		for j := range x {
			x[j] = randX(r, nil, cats)
			if r.Intn(3) == 0 {
				x[j] = float64(r.Intn(210))
			}
		}
		c.evals++
		want := m.trees[0].eval(x).val
		got := e.PredictSingle(x, 0)
		if got != want {
			c.Fail("categories %v at a model with sets: got %v, want %v\n%s", x, got, want, m.describe())
		}
	}
	// helpers
	for i := 0; i < 20; i++ {
		c.evals++
		w := make([]uint32, 1+r.Intn(5))
		for j := range w {
			switch r.Intn(4) {
			case 0:
				w[j] = 1 << uint(r.Intn(32))
			case 1:
				w[j] = r.Uint32()
			case 2:
				w[j] = []uint32{0xffffffff, 0x80000000, 1, 0x7fffffff, 0x55555555}[r.Intn(5)]
			}
		}
		first, count := -1, uint32(0)
		for j := 0; j < 32*len(w); j++ {
			in := w[j/32]/uint32(math.Pow(2, float64(j%32)))%2 == 1
			if in {
				count++
				if first < 0 {
					first = j
				}
			}
			if util.FindInBitsetUint32(w[j/32], uint32(j%32)) != in {
				c.Fail("FindInBitsetUint32(%#x, %d) = %v", w[j/32], j%32, !in)
			}
			for _, k := range []uint32{32 + uint32(j%32), 64, 1 << 31, 0xffffffff} {
				if util.FindInBitsetUint32(w[j/32], k) {
					c.Fail("FindInBitsetUint32(%#x, %d) = true", w[j/32], k)
				}
			}
		}
		if g := util.NumberOfSetBits(w); g != count {
			c.Fail("NumberOfSetBits(%#x) = %d, want %d", w, g, count)
		}
		g, err := util.FirstNonZeroBit(w)
		if (err != nil) != (first < 0) || err == nil && int(g) != first {
			c.Fail("FirstNonZeroBit(%#x) = %d, %v, want %d", w, g, err, first)
		}
		s := randSet(r)
		if r.Intn(3) == 0 {
			s = append(s, s[0])
		}
		bs := util.ConstructBitset(s)
		max := 0
		in := map[int]bool{}
		for _, v := range s {
			in[v] = true
			if v > max {
				max = v
			}
		}
		if len(bs) != max/32+1 {
			c.Fail("ConstructBitset(%v) has %d words", s, len(bs))
		}
		for j := 0; j < 32*len(bs); j++ {
			if (bs[j/32]>>uint(j%32)&1 == 1) != in[j] {
				c.Fail("ConstructBitset(%v) = %#x", s, bs)
			}
		}
	}
	if util.NumberOfSetBits(nil) != 0 || util.ConstructBitset(nil) != nil {
		c.Fail("empty bitsets")
	}
	if _, err := util.FirstNonZeroBit([]uint32{0, 0}); err == nil {
		c.Fail("FirstNonZeroBit of an empty set succeeded")
	}
}

// treeKinds: formats made of trees
var treeKinds = []string{"lgtext", "lgtext", "lgjson", "gbtree", "dart", "sklearn"}

func finiteThr(m *Model, r *rand.Rand) {
	if m.kind != "lgjson" {
		return
	}
	for _, t := range m.trees {
		for _, n := range t.nodes {
			if math.IsInf(n.thr, 0) {
				n.thr = r.NormFloat64()
			}
		}
	}
}

func treeModel(r *rand.Rand) *Model {
	m := genModel(r, treeKinds[r.Intn(len(treeKinds))])
	finiteThr(m, r)
	return m
}

func someModel(r *rand.Rand) *Model {
	m := anyModel(r)
	finiteThr(m, r)
	return m
}

func c03(c *Case) {
	r := c.R
	checkTrees(c, treeKinds[r.Intn(len(treeKinds))])
}

// checkTrees: values and leaf indices of every tree of a random model
func checkTrees(c *Case, kind string) {
	r := c.R
	m := &Model{}
	for {
		m = genModel(r, kind)
		finiteThr(m, r)
		if kind == "lgtext" {
			m.trans = "raw"
		}
		break
	}
	if r.Intn(3) != 0 { // one group, one or two estimators: larger trees
		m.groups, m.nest = 1, 1
		m.w = m.w[:1]
		o := genOpt{nfeat: m.nfeat, maxLeafs: 30, cats: kind == "lgtext" || kind == "lgjson", missing: kind == "lgtext" || kind == "lgjson", permute: true}
		if kind == "gbtree" || kind == "dart" {
			o.f32, o.forceNan = true, true
		}
		m.trees = []*Tree{genTree(r, o)}
		if kind == "sklearn" {
			m.prior = m.prior[:1]
		}
		if kind == "lgtext" {
			m.obj, m.trans = "regression", "raw"
		}
		finiteThr(m, r)
	}
	e := m.load(c).EnsembleWithRawPredictions()
	lv := e.EnsembleWithLeafPredictions()
	nl := e.NLeaves()
	c.Note("%s", m.describe())
	seen := map[[3]int]*Node{}
	back := map[*Node]int{}
	for i := 0; i < 25; i++ {
		c.evals++
		x := m.randRow(r, r.Intn(3))
		if m.nest == 1 {
			out := buffer(m.groups)
			if err := e.Predict(x, 0, out); err != nil {
				c.Fail("Predict: %v\n%s", err, m.describe())
			}
			for k := range out {
				v := m.base + m.leafValue(0, k, x)
				if m.avg || m.kind == "lgtext" || m.kind == "lgjson" {
					v = m.trees[k].eval(x).val
				}
				if !closeTo(out[k], v, math.Abs(v)+math.Abs(m.base)) {
					c.Fail("row %v: tree of group %d gives %v, want %v\n%s", x, k, out[k], v, m.describe())
				}
			}
		}
		idx := buffer(m.groups * m.nest)
		if err := lv.Predict(x, 0, idx); err != nil {
			c.Fail("leaf prediction: %v\n%s", err, m.describe())
		}
		for k := 0; k < m.groups; k++ {
			for j := 0; j < m.nest; j++ {
				want := m.trees[j*m.groups+k].eval(x)
				got := idx[k*m.nest+j]
				if got != math.Trunc(got) || got < 0 || int(got) >= nl[k*m.nest+j] {
					c.Fail("leaf index %v of tree %d of group %d is out of range [0, %d)\n%s", got, j, k, nl[k*m.nest+j], m.describe())
				}
				if m.kind == "lgtext" && int(got) != want.num {
					c.Fail("row %v: tree %d of group %d reaches leaf %v, want %d\n%s", x, j, k, got, want.num, m.describe())
				}
				key := [3]int{j, k, int(got)}
				if o, ok := seen[key]; ok && o != want {
					c.Fail("row %v: leaf %v of tree %d of group %d is reported for two different leaves\n%s", x, got, j, k, m.describe())
				}
				seen[key] = want
				if o, ok := back[want]; ok && o != int(got) {
					c.Fail("row %v: one leaf of tree %d of group %d is reported as %d and %v\n%s", x, j, k, o, got, m.describe())
				}
				back[want] = int(got)
			}
		}
	}
	for k := 0; k < m.groups; k++ {
		for j := 0; j < m.nest; j++ {
			if nl[k*m.nest+j] != len(m.trees[j*m.groups+k].leaves) {
				c.Fail("NLeaves()[%d] = %d, tree %d of group %d has %d leaves\n%s", k*m.nest+j, nl[k*m.nest+j], j, k, len(m.trees[j*m.groups+k].leaves), m.describe())
			}
		}
	}
}

func counts(m *Model, r *rand.Rand) []int {
	return []int{0, -1, -r.Intn(1000), 1, 1 + r.Intn(m.nest), m.nest - 1, m.nest, m.nest + 1, m.nest + 7, math.MaxInt64, math.MinInt64}
}

func c04(c *Case) { scores(c, treeModel(c.R)) }
func c05(c *Case) { scores(c, genModel(c.R, "gblinear")) }

func scores(c *Case, m *Model) {
	r := c.R
	full := m.load(c)
	e := full.EnsembleWithRawPredictions()
	c.Note("%s", m.describe())
	for i := 0; i < 8; i++ {
		x := m.randRow(r, r.Intn(3))
		if m.kind == "gblinear" && r.Intn(4) != 0 {
			x = m.finiteRow(r, r.Intn(3))
		}
		for _, n := range counts(m, r) {
			c.evals++
			pad := r.Intn(3)
			out := buffer(m.groups + pad)
			if err := e.Predict(x, n, out); err != nil {
				c.Fail("Predict with %d estimators: %v\n%s", n, err, m.describe())
			}
			checkScores(c, m, x, m.adjusted(n), out, fmt.Sprintf("estimators %d", n))
			for j := m.groups; j < len(out); j++ {
				if !isSentinel(out, j) {
					c.Fail("Predict wrote element %d (groups: %d)\n%s", j, m.groups, m.describe())
				}
			}
			if m.groups == 1 {
				if g := e.PredictSingle(x, n); !same(g, out[0]) {
					c.Fail("PredictSingle = %v, Predict = %v, row %v, estimators %d\n%s", g, out[0], x, n, m.describe())
				}
			}
		}
		// rows at an offset
		rows := 1 + r.Intn(4)
		nc := m.nfeat
		vals := []float64{}
		var xs [][]float64
		for k := 0; k < rows; k++ {
			x := m.finiteRow(r, 0)
			xs = append(xs, x)
			vals = append(vals, x...)
		}
		out := buffer(rows*m.groups + 2)
		if err := e.PredictDense(vals, rows, nc, out, 0, 1); err != nil {
			c.Fail("PredictDense: %v\n%s", err, m.describe())
		}
		for k := 0; k < rows; k++ {
			checkScores(c, m, xs[k], m.nest, out[k*m.groups:(k+1)*m.groups], fmt.Sprintf("dense row %d", k))
		}
		if !isSentinel(out, rows*m.groups) || !isSentinel(out, rows*m.groups+1) {
			c.Fail("PredictDense wrote beyond its rows\n%s", m.describe())
		}
	}
}

func checkScores(c *Case, m *Model, x []float64, n int, out []float64, what string) {
	want, mag := m.raw(x, n)
	for k := range want {
		if !closeTo(out[k], want[k], mag[k]) {
			c.Fail("%s: raw score of group %d = %v, want %v, row %v\n%s", what, k, out[k], want[k], x, m.describe())
		}
	}
}

func c06(c *Case) {
	r := c.R
	m := someModel(r)
	e := m.load(c)
	c.Note("%s", m.describe())
	if e.NEstimators() != m.nest {
		c.Fail("NEstimators() = %d, want %d\n%s", e.NEstimators(), m.nest, m.describe())
	}
	lv := e.EnsembleWithLeafPredictions()
	views := []*leaves.Ensemble{e, e.EnsembleWithRawPredictions(), e.EnsembleWithRawPredictions().EnsembleWithRawPredictions()}
	for _, n := range counts(m, r) {
		c.evals++
		x := m.finiteRow(r, 0)
		for vi, v := range views {
			out := buffer(v.NOutputGroups())
			if err := v.Predict(x, n, out); err != nil {
				c.Fail("Predict with %d estimators: %v\n%s", n, err, m.describe())
			}
			if vi > 0 {
				checkScores(c, m, x, m.adjusted(n), out, fmt.Sprintf("estimators %d", n))
			} else {
				want, mag := m.out(x, m.adjusted(n))
				for k := range want {
					if !closeOut(m.trans, out[k], want[k], mag[k%len(mag)]) {
						c.Fail("estimators %d: output %d = %v, want %v, row %v\n%s", n, k, out[k], want[k], x, m.describe())
					}
				}
			}
			if v.NOutputGroups() == 1 {
				if g := v.PredictSingle(x, n); !same(g, out[0]) {
					c.Fail("PredictSingle with %d estimators = %v, Predict = %v\n%s", n, g, out[0], m.describe())
				}
			}
		}
		// leaf indices
		for li, v := range []*leaves.Ensemble{lv, lv.EnsembleWithRawPredictions().EnsembleWithLeafPredictions()} {
			out := buffer(m.groups * m.nest)
			err := v.Predict(x, n, out)
			all := m.adjusted(n) == m.nest
			if (err == nil) != all {
				c.Fail("leaf view %d with %d of %d estimators: error %v\n%s", li, n, m.nest, err, m.describe())
			}
			d := buffer(m.groups * m.nest)
			err2 := v.PredictDense(x, 1, len(x), d, n, 1)
			s := buffer(m.groups * m.nest)
			err3 := v.PredictCSR([]int{0, 0}, nil, nil, s, n, 1)
			if (err2 == nil) != all || (err3 == nil) != all {
				c.Fail("leaf view with %d of %d estimators: dense error %v, sparse error %v\n%s", n, m.nest, err2, err3, m.describe())
			}
			if !all {
				for j := range out {
					if !isSentinel(out, j) || !isSentinel(d, j) || !isSentinel(s, j) {
						c.Fail("a refused leaf prediction wrote its output\n%s", m.describe())
					}
				}
				if m.groups*m.nest == 1 || v.NOutputGroups() == 1 {
					if g := v.PredictSingle(x, n); g != 0 {
						c.Fail("PredictSingle on a leaf view with %d estimators = %v\n%s", n, g, m.describe())
					}
				}
			}
		}
	}
}

// view picks the model itself or one of its views; leaf views only of trees
func view(c *Case, m *Model, e *leaves.Ensemble) (*leaves.Ensemble, string) {
	switch c.R.Intn(4) {
	case 0:
		return e.EnsembleWithRawPredictions(), "raw view"
	case 1:
		if m.isTrees() {
			return e.EnsembleWithLeafPredictions(), "leaf view"
		}
	}
	return e, "model"
}

var rowCounts = []int{0, 1, 2, 3, 5, 15, 16, 17, 18, 31, 32, 33, 34, 47, 48, 49, 63, 64, 65, 80, 81, 100, 129, 160, 257}
var threadCounts = []int{-3, -1, 0, 1, 2, 3, 4, 5, 7, 8, 16, 64, 1000}

// predictAll: reference by Predict, one row at a time
func predictAll(c *Case, m *Model, e *leaves.Ensemble, rows [][]float64, n int) ([]float64, error) {
	g := e.NOutputGroups()
	var ref []float64
	for i, x := range rows {
		out := make([]float64, g)
		if err := e.Predict(x, n, out); err != nil {
			if i == 0 {
				return nil, err
			}
			c.Fail("Predict of row %d: %v\n%s", i, err, m.describe())
		}
		ref = append(ref, out...)
	}
	return ref, nil
}

func compareBatch(c *Case, m *Model, e *leaves.Ensemble, what string, out, ref []float64) {
	g := e.NOutputGroups()
	for i := range ref {
		if !same(out[i], ref[i]) {
			c.Fail("%s: row %d output %d = %v, predicting the row alone gives %v\n%s", what, i/g, i%g, out[i], ref[i], m.describe())
		}
	}
	for i := len(ref); i < len(out); i++ {
		if !isSentinel(out, i) {
			c.Fail("%s: wrote element %d beyond the %d outputs\n%s", what, i, len(ref), m.describe())
		}
	}
}

func estCount(m *Model, r *rand.Rand) int {
	if r.Intn(3) != 0 {
		return 0
	}
	return 1 + r.Intn(m.nest+1)
}

func c07(c *Case) {
	r := c.R
	m := someModel(r)
	e, vn := view(c, m, m.load(c))
	rows := rowCounts[r.Intn(len(rowCounts))]
	extra := 0
	if r.Intn(3) == 0 {
		extra = 1 + r.Intn(3)
	}
	nc := m.nfeat + extra
	var xs [][]float64
	var vals []float64
	for i := 0; i < rows; i++ {
		x := m.randRow(r, extra)
		xs = append(xs, x)
		vals = append(vals, x...)
	}
	if r.Intn(4) == 0 {
		vals = append(vals, 1, 2, 3)
	}
	n := estCount(m, r)
	if vn == "leaf view" {
		n = 0
	}
	ref, err := predictAll(c, m, e, xs, n)
	if err != nil {
		c.Fail("Predict: %v\n%s", err, m.describe())
	}
	c.Note("%s, %d rows, %d columns\n%s", vn, rows, nc, m.describe())
	for i := 0; i < 3; i++ {
		c.evals++
		th := threadCounts[r.Intn(len(threadCounts))]
		out := buffer(len(ref) + r.Intn(5))
		if err := e.PredictDense(vals, rows, nc, out, n, th); err != nil {
			c.Fail("PredictDense of %d rows, %d threads: %v\n%s", rows, th, err, m.describe())
		}
		compareBatch(c, m, e, fmt.Sprintf("PredictDense on a %s, %d rows, %d threads, %d estimators", vn, rows, th, n), out, ref)
	}
}

func c08(c *Case) {
	r := c.R
	m := someModel(r)
	e, vn := view(c, m, m.load(c))
	rows := rowCounts[r.Intn(len(rowCounts))]
	var xs [][]float64
	indptr := []int{0}
	var cols []int
	var vals []float64
	if r.Intn(6) == 0 {
		indptr[0] = 2
		cols, vals = []int{0, 1}, []float64{7, 8}
	}
	dense := r.Intn(3)
	for i := 0; i < rows; i++ {
		x := make([]float64, m.nfeat)
		for j := range x {
			x[j] = m.absent()
		}
		full := m.randRow(r, 4)
		for _, j := range r.Perm(len(full)) {
			if dense == 0 && r.Intn(5) != 0 || dense == 1 && r.Intn(2) == 0 {
				continue
			}
			col := j
			if j >= m.nfeat && r.Intn(3) == 0 {
				col = j + 100000
			}
			cols = append(cols, col)
			vals = append(vals, full[j])
			if j < m.nfeat {
				x[j] = full[j]
			}
		}
		indptr = append(indptr, len(cols))
		xs = append(xs, x)
	}
	n := estCount(m, r)
	if vn == "leaf view" {
		n = 0
	}
	ref, err := predictAll(c, m, e, xs, n)
	if err != nil {
		c.Fail("Predict: %v\n%s", err, m.describe())
	}
	c.Note("%s, %d rows, %d entries\n%s", vn, rows, len(cols), m.describe())
	for i := 0; i < 3; i++ {
		c.evals++
		th := threadCounts[r.Intn(len(threadCounts))]
		out := buffer(len(ref) + r.Intn(5))
		if err := e.PredictCSR(indptr, cols, vals, out, n, th); err != nil {
			c.Fail("PredictCSR of %d rows, %d threads: %v\n%s", rows, th, err, m.describe())
		}
		compareBatch(c, m, e, fmt.Sprintf("PredictCSR on a %s, %d rows, %d threads, %d estimators", vn, rows, th, n), out, ref)
	}
}

func c09(c *Case) {
	r := c.R
	m := someModel(r)
	e, vn := view(c, m, m.load(c))
	c.Note("%s %s", vn, m.describe())
	g := e.NOutputGroups()
	if e.NFeatures() != m.nfeat {
		c.Fail("NFeatures() = %d, want %d\n%s", e.NFeatures(), m.nfeat, m.describe())
	}
	check := func(what string, err error, out []float64, bad bool) {
		c.evals++
		if (err != nil) != bad {
			c.Fail("%s on a %s: error %v, expected refusal: %v\n%s", what, vn, err, bad, m.describe())
		}
		if bad {
			for i := range out {
				if !isSentinel(out, i) {
					c.Fail("%s on a %s was refused but wrote element %d\n%s", what, vn, i, m.describe())
				}
			}
		}
	}
	for i := 0; i < 10; i++ {
		n := estCount(m, r)
		refuse := vn == "leaf view" && m.adjusted(n) != m.nest
		d := r.Intn(3) - 1
		if g+d < 0 {
			d = 0
		}
		fe := r.Intn(3) - 1
		x := make([]float64, m.nfeat+fe)
		for j := range x {
			x[j] = r.NormFloat64()
		}
		out := buffer(g + d)
		check(fmt.Sprintf("Predict with %d of %d outputs, %d of %d features", g+d, g, len(x), m.nfeat), e.Predict(x, n, out), out, d < 0 || fe < 0 || refuse)
		if g == 1 && (fe < 0 || refuse) || g != 1 {
			if v := e.PredictSingle(x, n); v != 0 || math.Signbit(v) {
				c.Fail("PredictSingle with %d of %d features on a %s with %d outputs = %v\n%s", len(x), m.nfeat, vn, g, v, m.describe())
			}
		}
		rows := []int{0, 1, 2, 16, 17, 33, 40}[r.Intn(7)]
		th := threadCounts[r.Intn(len(threadCounts))]
		sz := g * rows
		d = []int{0, -1, 1, -g, g}[r.Intn(5)]
		if sz+d < 0 {
			d = 0
		}
		out = buffer(sz + d)
		nc := m.nfeat + fe
		vals := make([]float64, nc*rows)
		check(fmt.Sprintf("PredictDense of %d rows, %d threads with %d of %d outputs, %d of %d features", rows, th, sz+d, sz, nc, m.nfeat), e.PredictDense(vals, rows, nc, out, n, th), out, d < 0 || fe < 0 || nc == 0 || refuse)
		out = buffer(sz + d)
		check(fmt.Sprintf("PredictCSR of %d rows, %d threads with %d of %d outputs", rows, th, sz+d, sz), e.PredictCSR(make([]int, rows+1), nil, nil, out, n, th), out, d < 0 || refuse)
	}
}

func randScore(r *rand.Rand) float64 {
	switch r.Intn(6) {
	case 0:
		return finite(func() float64 { return pick(r, specials) })
	case 1:
		return finite(func() float64 { return math.Float64frombits(r.Uint64()) })
	case 2:
		return r.NormFloat64() * 1000
	case 3:
		return []float64{709, 710, -745, -746, 744.4, 1000, -1000, 36.7, -37}[r.Intn(9)]
	}
	return r.NormFloat64() * 5
}

func c10(c *Case) {
	r := c.R
	n := 1 + r.Intn(6)
	names := map[transformation.TransformType]string{transformation.Raw: "raw", transformation.Logistic: "logistic", transformation.Softmax: "softmax",
		transformation.LeafIndex: "leaf_index", transformation.Exponential: "exponential"}
	type tr struct {
		t    transformation.Transform
		typ  transformation.TransformType
		out  int
		kind string
	}
	ts := []tr{
		{&transformation.TransformRaw{NumOutputGroups: n}, transformation.Raw, n, "raw"},
		{&transformation.TransformLeafIndex{NumOutputGroups: n}, transformation.LeafIndex, n, "raw"},
		{&transformation.TransformLogistic{}, transformation.Logistic, 1, "logistic"},
		{&transformation.TransformExponential{}, transformation.Exponential, 1, "exponential"},
		{&transformation.TransformSoftmax{NClasses: n}, transformation.Softmax, n, "softmax"},
	}
	raw := make([]float64, []int{n, n, 1, 0, n + 1}[r.Intn(5)])
	for i := range raw {
		raw[i] = randScore(r)
		if r.Intn(12) == 0 {
			raw[i] = pick(r, specials)
		}
	}
	start := r.Intn(4)
	c.Note("raw %v start %d outputs %d", raw, start, n)
	for _, t := range ts {
		c.evals++
		if t.t.Type() != t.typ || t.t.NOutputGroups() != t.out || t.t.Name() != names[t.typ] || t.typ.Name() != names[t.typ] {
			c.Fail("%T reports type %d name %q outputs %d, want %d %q %d", t.t, t.t.Type(), t.t.Name(), t.t.NOutputGroups(), t.typ, names[t.typ], t.out)
		}
		out := buffer(start + n + 4)
		in := append([]float64{}, raw...)
		err := t.t.Transform(in, out, start)
		bad := false
		switch t.kind {
		case "logistic", "exponential":
			bad = len(raw) != 1
		case "softmax":
			bad = len(raw) != n
		}
		if (err != nil) != bad {
			c.Fail("%T of %d scores: error %v", t.t, len(raw), err)
		}
		for i := range in {
			if !same(in[i], raw[i]) {
				c.Fail("%T changed its input", t.t)
			}
		}
		w := 0
		if !bad && len(raw) > 0 {
			want := transformed(t.kind, raw)
			w = len(want)
			nan := false
			for i := range raw {
				if raw[i] != raw[i] || math.IsInf(raw[i], 0) {
					nan = true
				}
			}
			for i, v := range want {
				if nan && t.kind == "softmax" {
					continue
				}
				g := out[start+i]
				if !(same(g, v) || math.Abs(g-v) <= 1e-12*math.Abs(v) || t.kind != "raw" && math.Abs(g-v) < 1e-300) {
					c.Fail("%T(%v)[%d] = %v, want %v", t.t, raw, i, g, v)
				}
				if t.kind == "raw" && !same(g, v) {
					c.Fail("%T(%v)[%d] = %v", t.t, raw, i, g)
				}
			}
		}
		for i := range out {
			if (i < start || i >= start+w) && !isSentinel(out, i) {
				c.Fail("%T of %v at offset %d wrote element %d", t.t, raw, start, i)
			}
		}
	}
	for _, ty := range []transformation.TransformType{-1, -5, 5, 6, 100, math.MaxInt64, math.MinInt64} {
		for k := range names {
			if ty.Name() == names[k] {
				c.Fail("type %d has the name of type %d", ty, k)
			}
		}
	}
}

func c11(c *Case) {
	r := c.R
	n := 1 + r.Intn(8)
	raw := make([]float64, n)
	big := r.Intn(2) == 0
	for i := range raw {
		raw[i] = randScore(r)
		if big && r.Intn(2) == 0 {
			raw[i] = []float64{math.MaxFloat64, -math.MaxFloat64, 1e308, 800, 1e4, -1e4}[r.Intn(6)]
		}
	}
	if r.Intn(6) == 0 {
		for i := range raw {
			raw[i] = raw[0]
		}
	}
	c.Note("%v", raw)
	start := r.Intn(3)
	out := buffer(n + start + 1)
	t := &transformation.TransformSoftmax{NClasses: n}
	if err := t.Transform(raw, out, start); err != nil {
		c.Fail("softmax: %v", err)
	}
	want := transformed("softmax", raw)
	for i, v := range want {
		g := out[start+i]
		if !(g >= 0 && g <= 1) || math.Abs(g-v) > 1e-12*v+1e-300 {
			c.Fail("softmax(%v)[%d] = %v, want %v", raw, i, g, v)
		}
	}
	// through a model: leaf values are the scores
	m := &Model{kind: "lgtext", version: "v3", groups: n, nest: 1, nfeat: 1, obj: fmt.Sprintf("multiclass num_class:%d", n), trans: "softmax"}
	for i := range raw {
		l := &Node{leaf: true, val: raw[i]}
		m.trees = append(m.trees, &Tree{root: l, leaves: []*Node{l}})
	}
	e, err := leaves.LGEnsembleFromReader(bufio.NewReader(bytes.NewReader(m.lgText())), true)
	if err != nil {
		c.Fail("load: %v\n%s", err, m.describe())
	}
	mo := buffer(n)
	if err := e.Predict([]float64{0}, 0, mo); err != nil {
		c.Fail("predict: %v\n%s", err, m.describe())
	}
	for i, v := range want {
		if !(mo[i] >= 0 && mo[i] <= 1) || math.Abs(mo[i]-v) > 1e-12*v+1e-300 {
			c.Fail("model output %d for scores %v = %v, want %v", i, raw, mo[i], v)
		}
	}
}

func c12(c *Case) {
	r := c.R
	m := treeModel(r)
	m.trans = "raw"
	e := m.load(c)
	lv := e.EnsembleWithLeafPredictions()
	c.Note("%s", m.describe())
	if lv.NOutputGroups() != m.groups*m.nest || lv.NRawOutputGroups() != m.groups {
		c.Fail("leaf view has %d outputs, want %d\n%s", lv.NOutputGroups(), m.groups*m.nest, m.describe())
	}
	nl := e.NLeaves()
	if len(nl) != m.groups*m.nest {
		c.Fail("len(NLeaves()) = %d\n%s", len(nl), m.describe())
	}
	back := map[*Node]float64{}
	rows := 1 + r.Intn(20)
	var vals []float64
	for i := 0; i < rows; i++ {
		vals = append(vals, m.randRow(r, 0)...)
	}
	w := m.groups * m.nest
	out := buffer(rows*w + 1)
	if err := lv.PredictDense(vals, rows, m.nfeat, out, 0, 1+r.Intn(3)); err != nil {
		c.Fail("leaf view PredictDense: %v\n%s", err, m.describe())
	}
	if !isSentinel(out, rows*w) {
		c.Fail("leaf view wrote beyond its rows\n%s", m.describe())
	}
	for i := 0; i < rows; i++ {
		c.evals++
		x := vals[i*m.nfeat : (i+1)*m.nfeat]
		one := buffer(w)
		if err := lv.Predict(x, 0, one); err != nil {
			c.Fail("leaf view Predict: %v\n%s", err, m.describe())
		}
		used := map[[2]int]*Node{}
		for k := 0; k < m.groups; k++ {
			for j := 0; j < m.nest; j++ {
				t := m.trees[j*m.groups+k]
				nd := t.eval(x)
				g := out[i*w+k*m.nest+j]
				if g != one[k*m.nest+j] {
					c.Fail("leaf index %d,%d of row %d: batch %v, single %v\n%s", k, j, i, g, one[k*m.nest+j], m.describe())
				}
				if nl[k*m.nest+j] != len(t.leaves) {
					c.Fail("NLeaves()[%d] = %d, want %d\n%s", k*m.nest+j, nl[k*m.nest+j], len(t.leaves), m.describe())
				}
				if m.kind == "lgtext" && g != float64(nd.num) || g != math.Trunc(g) || g < 0 || int(g) >= len(t.leaves) {
					c.Fail("row %v: group %d estimator %d: leaf %v, want %d of %d\n%s", x, k, j, g, nd.num, len(t.leaves), m.describe())
				}
				if o, ok := back[nd]; ok && o != g {
					c.Fail("row %v: group %d estimator %d: leaf %v, earlier reported as %v\n%s", x, k, j, g, o, m.describe())
				}
				back[nd] = g
				_ = used
			}
		}
	}
	// two leaves of one tree never share an index
	inv := map[string]*Node{}
	for ti, t := range m.trees {
		for _, l := range t.leaves {
			if g, ok := back[l]; ok {
				key := fmt.Sprint(ti, "/", g)
				if inv[key] != nil {
					c.Fail("two leaves of tree %d are both reported as %v\n%s", ti, g, m.describe())
				}
				inv[key] = l
			}
		}
	}
}

func c13(c *Case) {
	r := c.R
	m := someModel(r)
	e := m.load(c)
	c.Note("%s", m.describe())
	before := deepHash(e)
	names := map[string]string{"gbtree": "xgboost.gbtree", "dart": "xgboost.dart", "gblinear": "xgboost.gblinear", "lgjson": "lightgbm.gbdt", "sklearn": "sklearn.ensemble.GradientBoostingClassifier", "lgtext": "lightgbm.gbdt"}
	name := names[m.kind]
	if m.avg {
		name = "lightgbm.rf"
	}
	v := e
	kind := "model"
	for depth := 0; depth < 4; depth++ {
		c.evals++
		if v.NFeatures() != m.nfeat || v.NEstimators() != m.nest || v.NRawOutputGroups() != m.groups || v.Name() != name {
			c.Fail("%s at depth %d: features %d estimators %d groups %d name %q; want %d %d %d %q\n%s", kind, depth, v.NFeatures(), v.NEstimators(), v.NRawOutputGroups(), v.Name(), m.nfeat, m.nest, m.groups, name, m.describe())
		}
		x := m.finiteRow(r, 0)
		switch kind {
		case "raw":
			if v.NOutputGroups() != m.groups || v.Transformation().Type() != transformation.Raw {
				c.Fail("raw view has %d outputs\n%s", v.NOutputGroups(), m.describe())
			}
			out := buffer(m.groups)
			n := estCount(m, r)
			if err := v.Predict(x, n, out); err != nil {
				c.Fail("raw view: %v\n%s", err, m.describe())
			}
			checkScores(c, m, x, m.adjusted(n), out, "raw view")
		case "leaf":
			if v.NOutputGroups() != m.groups*m.nest || v.Transformation().Type() != transformation.LeafIndex {
				c.Fail("leaf view has %d outputs\n%s", v.NOutputGroups(), m.describe())
			}
			if m.isTrees() {
				out := buffer(m.groups * m.nest)
				if err := v.Predict(x, 0, out); err != nil {
					c.Fail("leaf view: %v\n%s", err, m.describe())
				}
				ref := buffer(m.groups * m.nest)
				if err := e.EnsembleWithLeafPredictions().Predict(x, m.nest, ref); err != nil {
					c.Fail("leaf view: %v\n%s", err, m.describe())
				}
				for k := 0; k < m.groups; k++ {
					for j := 0; j < m.nest; j++ {
						g := out[k*m.nest+j]
						if g != ref[k*m.nest+j] {
							c.Fail("leaf view at depth %d: %v, the model's leaf view %v\n%s", depth, out, ref, m.describe())
						}
						if m.kind == "lgtext" && g != float64(m.trees[j*m.groups+k].eval(x).num) {
							c.Fail("leaf view at depth %d: group %d estimator %d: %v\n%s", depth, k, j, g, m.describe())
						}
					}
				}
			}
		default:
			out := buffer(v.NOutputGroups())
			if err := v.Predict(x, 0, out); err != nil {
				c.Fail("%v\n%s", err, m.describe())
			}
		}
		nl, nl2 := v.NLeaves(), e.NLeaves()
		if !reflect.DeepEqual(nl, nl2) {
			c.Fail("NLeaves of the view: %v, of the model: %v\n%s", nl, nl2, m.describe())
		}
		if r.Intn(2) == 0 {
			v, kind = v.EnsembleWithRawPredictions(), "raw"
		} else {
			v, kind = v.EnsembleWithLeafPredictions(), "leaf"
		}
	}
	if deepHash(e) != before {
		c.Fail("creating and using views changed the model\n%s", m.describe())
	}
}

// deepHash: everything reachable from a model
func deepHash(v interface{}) uint64 {
	h := fnv.New64a()
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		fmt.Fprintf(h, "|%s:", v.Type())
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			if v.Type().PkgPath() == "sync" || v.Type().PkgPath() == "sync/atomic" {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice, reflect.Array:
			fmt.Fprintf(h, "%d", v.Len())
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			fmt.Fprintf(h, "%d", v.Len())
		case reflect.Float64, reflect.Float32:
			fmt.Fprintf(h, "%x", math.Float64bits(v.Float()))
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprintf(h, "%d", v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			fmt.Fprintf(h, "%d", v.Uint())
		case reflect.Bool:
			fmt.Fprintf(h, "%v", v.Bool())
		case reflect.String:
			fmt.Fprintf(h, "%q", v.String())
		}
	}
	walk(reflect.ValueOf(v))
	return h.Sum64()
}

func hashF(v []float64) uint64 {
	h := fnv.New64a()
	for _, x := range v {
		fmt.Fprintf(h, "%x,", math.Float64bits(x))
	}
	return h.Sum64()
}

func c14(c *Case) {
	r := c.R
	m := someModel(r)
	base := m.load(c)
	e, vn := view(c, m, base)
	c.Note("%s %s", vn, m.describe())
	h0 := deepHash(base)
	rows := []int{1, 5, 17, 40}[r.Intn(4)]
	var vals []float64
	for i := 0; i < rows; i++ {
		vals = append(vals, m.randRow(r, 0)...)
	}
	indptr, cols := []int{0}, []int{}
	var sv []float64
	for i := 0; i < rows; i++ {
		for j := 0; j < m.nfeat+2; j++ {
			if r.Intn(2) == 0 {
				cols = append(cols, j)
				sv = append(sv, r.NormFloat64())
			}
		}
		indptr = append(indptr, len(cols))
	}
	ih := func() string {
		return fmt.Sprint(hashF(vals), hashF(sv), indptr, cols)
	}
	i0 := ih()
	g := e.NOutputGroups()
	seqD, seqS := buffer(rows*g), buffer(rows*g)
	one := buffer(g)
	run := func(d, s, o []float64, th int) {
		e.PredictDense(vals, rows, m.nfeat, d, 0, th)
		e.PredictCSR(indptr, cols, sv, s, 0, th)
		e.Predict(vals[:m.nfeat], 0, o)
		e.PredictSingle(vals[:m.nfeat], 0)
		e.NLeaves()
		e.NFeatures()
		e.NEstimators()
		e.Name()
		e.EnsembleWithRawPredictions()
		e.EnsembleWithLeafPredictions()
	}
	run(seqD, seqS, one, 1)
	c.evals++
	if deepHash(base) != h0 {
		c.Fail("prediction changed the model (%s)\n%s", vn, m.describe())
	}
	if ih() != i0 {
		c.Fail("prediction changed its inputs (%s, %d rows)\n%s", vn, rows, m.describe())
	}
	var wg sync.WaitGroup
	nw := 4
	ds, ss, os := make([][]float64, nw), make([][]float64, nw), make([][]float64, nw)
	for w := 0; w < nw; w++ {
		w := w
		ds[w], ss[w], os[w] = buffer(rows*g), buffer(rows*g), buffer(g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			run(ds[w], ss[w], os[w], 1+w%3)
			runtime.Gosched()
			run(ds[w], ss[w], os[w], 1+w%3)
		}()
	}
	wg.Wait()
	c.evals++
	for w := 0; w < nw; w++ {
		if hashF(ds[w]) != hashF(seqD) || hashF(ss[w]) != hashF(seqS) || hashF(os[w]) != hashF(one) {
			c.Fail("concurrent prediction with one model gave other results than sequential prediction (%s, %d rows)\n%s", vn, rows, m.describe())
		}
	}
	if deepHash(base) != h0 || ih() != i0 {
		c.Fail("concurrent prediction changed the model or its inputs\n%s", m.describe())
	}
}
