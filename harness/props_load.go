package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/dmitryikh/leaves"
)

func init() {
	props["C19"] = prop{run: c19, rule: "random LightGBM headers (text and JSON; versions, class counts, objectives, missing and malformed fields) over random trees; acceptance and meaning compared with an independent reading of the header"}
	props["C20"] = prop{run: c20, rule: "random XGBoost headers and model parameters (gbtree, dart, gblinear; wrong counts, patterns, boosters, objectives); acceptance and meaning compared with an independent reading"}
}

func transOf(obj string, groups int) (string, bool) {
	switch obj {
	case "poisson", "gamma", "tweedie":
		return "exponential", groups == 1
	}
	if strings.HasPrefix(obj, "regression") {
		return "raw", true
	}
	t := strings.Split(obj, " ")
	if len(t) != 2 {
		return "", false
	}
	p := strings.Split(t[1], ":")
	if len(p) != 2 {
		return "", false
	}
	v, ok := refInt(p[1], 64)
	if !ok {
		return "", false
	}
	if t[0] == "binary" && p[0] == "sigmoid" {
		return "logistic", v == 1 && groups == 1
	}
	if t[0] == "multiclass" && p[0] == "num_class" {
		return "softmax", v == int64(groups)
	}
	return "", false
}

func outputs(trans string, groups int) int {
	if trans == "logistic" || trans == "exponential" {
		return 1
	}
	return groups
}

// shape: the loaded ensemble states what model m does
func shape(c *Case, m *Model, e *leaves.Ensemble, nfeat int, name, what string) {
	if e.NRawOutputGroups() != m.groups || e.NOutputGroups() != outputs(m.trans, m.groups) || e.NEstimators() != m.nest || e.NFeatures() != nfeat || e.Name() != name || e.Transformation().Name() != m.trans {
		c.Fail("loaded model: raw groups %d, outputs %d, estimators %d, features %d, name %s, transformation %s; want %d, %d, %d, %d, %s, %s\n%s",
			e.NRawOutputGroups(), e.NOutputGroups(), e.NEstimators(), e.NFeatures(), e.Name(), e.Transformation().Name(),
			m.groups, outputs(m.trans, m.groups), m.nest, nfeat, name, m.trans, what)
	}
	for i := 0; i < 3; i++ {
		x := m.finiteRow(c.R, 0)
		for len(x) < nfeat {
			x = append(x, 0)
		}
		out := buffer(outputs(m.trans, m.groups))
		if err := e.Predict(x, 0, out); err != nil {
			c.Fail("Predict: %v\n%s", err, what)
		}
		want, mag := m.out(x, m.nest)
		for k := range out {
			mk := mag[0]
			for _, a := range mag {
				mk = math.Max(mk, a)
			}
			if !closeOut(m.trans, out[k], want[k], mk) {
				c.Fail("row %v: output %d is %v, want %v\n%s", x, k, out[k], want[k], what)
			}
		}
	}
}

func c19(c *Case) {
	if c.R.Intn(3) == 0 {
		c19json(c)
		return
	}
	r := c.R
	m := genModel(r, "lgtext")
	total := len(m.trees)
	avg := m.avg
	f := map[string]string{"version": m.version, "num_class": strconv.Itoa(m.groups), "num_tree_per_iteration": strconv.Itoa(m.groups),
		"max_feature_idx": strconv.Itoa(m.nfeat - 1), "objective": m.obj}
	sz := total
	if r.Intn(4) != 0 { // break something
		for n := 1 + r.Intn(2); n > 0; n-- {
			switch r.Intn(9) {
			case 0:
				f["version"] = choose(r, "v2", "v3", "v1", "v4", "", "v22", "V2", "2", "v", "v2 ", "v23")
			case 1:
				g := choose(r, "1", "2", "3", "0", "-1", "1.0", "x", "", "+1", "01", "4")
				f["num_class"], f["num_tree_per_iteration"] = g, g
			case 2:
				f["num_class"] = choose(r, "1", "2", "3", "0", "-1", "x", "")
			case 3:
				f["num_tree_per_iteration"] = choose(r, "1", "2", "3", "0", "-1", "x", "")
			case 4:
				f["max_feature_idx"] = choose(r, "x", "", "1.5", strconv.Itoa(m.nfeat), strconv.Itoa(m.nfeat+7))
			case 5, 6:
				n := choose(r, "1", "2", "0", "-1", "13", "x", "", strconv.Itoa(m.groups), strconv.Itoa(m.groups+1))
				f["objective"] = choose(r, "poisson", "gamma", "tweedie", "regression", "regression_l1", "regression sqrt", "regression_l2 x", "binary", "binary sigmoid:"+n, "multiclass num_class:"+n,
					"multiclass sigmoid:"+n, "binary num_class:"+n, "multiclassova num_class:"+n, "cross_entropy", "lambdarank", "", "Poisson", "poisson ", "quantile", "binary sigmoid:1 extra", "binary  sigmoid:1",
					"multiclass num_class", "multiclass num_class:"+n+":", "xentlambda", "mape", "huber", "binary sigmoid:1.0", "gammax")
			case 7:
				sz = []int{1, 2, 3, total - 1, total + 1, m.groups, 2 * m.groups}[r.Intn(7)]
			case 8:
				k := choose(r, "version", "num_class", "num_tree_per_iteration", "max_feature_idx", "objective", "tree_sizes")
				f[k] = "\x00drop"
			}
		}
	}
	if r.Intn(5) == 0 {
		avg = !avg
	}
	if sz < 1 {
		sz = 1
	}
	s := make([]string, sz)
	for i := range s {
		s[i] = strconv.Itoa(100 + i)
	}
	if f["tree_sizes"] == "" {
		f["tree_sizes"] = strings.Join(s, " ")
	}
	keys := []string{"version", "num_class", "num_tree_per_iteration", "max_feature_idx", "objective", "tree_sizes"}
	r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	b := &bytes.Buffer{}
	fmt.Fprintf(b, "tree\n")
	for _, k := range keys {
		if f[k] != "\x00drop" {
			fmt.Fprintf(b, "%s=%s\n", k, f[k])
		}
		if r.Intn(4) == 0 {
			fmt.Fprintf(b, "label_index=0\n")
		}
	}
	if avg {
		fmt.Fprintf(b, "average_output\n")
	}
	b.WriteString("\n")
	for i, t := range m.trees {
		t.lgText(b, i)
	}
	fmt.Fprintf(b, "feature importances:\na=1\n\n")
	trans := r.Intn(3) != 0
	what := fmt.Sprintf("transformation requested: %v\n%s", trans, b.Bytes())
	c.Note("%s", what)

	// an independent reading
	g, gok := refInt(strings.TrimSpace(f["num_class"]), 64)
	tp, tok := refInt(strings.TrimSpace(f["num_tree_per_iteration"]), 64)
	mf, fok := refInt(strings.TrimSpace(f["max_feature_idx"]), 64)
	v := strings.TrimSpace(f["version"])
	ok := (v == "v2" || v == "v3") && gok && tok && fok && g == tp && g >= 1 && f["tree_sizes"] != "\x00drop"
	if ok {
		ok = sz%int(g) == 0 && sz <= total
	}
	tr := "raw"
	if ok && trans && !avg {
		tr, ok = transOf(strings.TrimSpace(f["objective"]), int(g))
	}
	e, err := leaves.LGEnsembleFromReader(bufio.NewReader(bytes.NewReader(b.Bytes())), trans)
	if (err == nil) != ok || (err == nil) != (e != nil) {
		c.Fail("LGEnsembleFromReader: error %v, should be accepted: %v\n%s", err, ok, what)
	}
	if !ok {
		return
	}
	m.groups, m.nest, m.avg, m.trans = int(g), sz/int(g), avg, tr
	name := "lightgbm.gbdt"
	if avg {
		name = "lightgbm.rf"
	}
	shape(c, m, e, int(mf)+1, name, what)
}

func c19json(c *Case) {
	r := c.R
	m := genModel(r, "lgjson")
	finiteThr(m, r)
	f := map[string]json.RawMessage{}
	if err := json.Unmarshal(m.lgJSON(), &f); err != nil {
		panic(err)
	}
	var trees []json.RawMessage
	json.Unmarshal(f["tree_info"], &trees)
	ok := true
	g, tp, mf := m.groups, m.groups, m.nfeat-1
	num := func(k string, v *int) {
		s := choose(r, "1", "2", "3", "0", "-1", "null", `"1"`, "1.5", "4", "drop", "[]")
		n, isInt := refInt(s, 64)
		switch {
		case s == "drop" || s == "null":
			delete(f, k)
			if s == "null" {
				f[k] = []byte(s)
			}
			*v = 0
		case isInt:
			f[k] = []byte(s)
			*v = int(n)
		default:
			f[k] = []byte(s)
			ok = false
		}
	}
	if r.Intn(4) != 0 {
		switch r.Intn(7) {
		case 0:
			f["name"] = []byte(choose(r, `"tree"`, `"Trees"`, `""`, `"tree "`))
		case 1:
			f["version"] = []byte(choose(r, `"v2"`, `"v1"`, `""`, `"v22"`, `"v4"`))
		case 2:
			num("num_class", &g)
		case 3:
			num("num_tree_per_iteration", &tp)
		case 4:
			num("num_class", &g)
			if raw, has := f["num_class"]; has {
				f["num_tree_per_iteration"] = raw
			} else {
				delete(f, "num_tree_per_iteration")
			}
			tp = g
		case 5:
			n := r.Intn(len(trees) + 1)
			trees = trees[:n]
			raw, _ := json.Marshal(trees)
			f["tree_info"] = raw
		case 6:
			delete(f, choose(r, "name", "version"))
		}
	}
	b, err := json.Marshal(f)
	if err != nil {
		panic(err)
	}
	trans := r.Intn(8) == 0
	what := fmt.Sprintf("transformation requested: %v\n%s", trans, b)
	c.Note("%s", what)
	ok = ok && !trans && string(f["name"]) == `"tree"` && string(f["version"]) == `"v2"` && g == tp && g >= 1 && len(trees) > 0
	if ok {
		ok = len(trees)%g == 0
	}
	e, err := leaves.LGEnsembleFromJSON(bytes.NewReader(b), trans)
	if (err == nil) != ok || (err == nil) != (e != nil) {
		c.Fail("LGEnsembleFromJSON: error %v, should be accepted: %v\n%s", err, ok, what)
	}
	if !ok {
		return
	}
	m.groups, m.nest, m.trees = g, len(trees)/g, m.trees[:len(trees)]
	shape(c, m, e, mf+1, "lightgbm.gbdt", what)
}

func c20(c *Case) {
	r := c.R
	kind := choose(r, "gbtree", "dart", "gblinear")
	m := genModel(r, kind)
	gbm, obj := kind, m.obj
	nfeat, mfeat := m.nfeat, m.nfeat
	if r.Intn(4) == 0 {
		nfeat += r.Intn(3)
	}
	groups, roots, treeRoots := m.groups, 1, 1
	wlen := len(m.linW)
	info := make([]int32, len(m.trees))
	for i := range info {
		info[i] = int32(i % groups)
	}
	trees := m.trees
	dw := append([]float64{}, m.w...)
	badTree := -1
	treeFeat := m.nfeat
	if r.Intn(3) != 0 {
		switch r.Intn(10) {
		case 0:
			gbm = choose(r, "gbtree", "dart", "gblinear", "", "gbtree ", "GBTREE", "gbtre")
		case 1:
			obj = choose(r, "binary:logistic", "reg:linear", "", "binary:logitraw", "multi:softmax", "multi:softprob", "rank:pairwise", "binary:logistic ", "reg:logistic")
		case 2:
			nfeat = []int{0, m.nfeat - 1, m.nfeat + 1}[r.Intn(3)]
		case 3:
			groups = []int{0, -1, 1, 2, 3, m.groups + 1}[r.Intn(6)]
			if r.Intn(2) == 0 && groups > 0 {
				for i := range info {
					info[i] = int32(i % groups)
				}
			}
		case 4:
			roots = r.Intn(3)
		case 5:
			if len(info) > 0 {
				info[r.Intn(len(info))] += int32(1 + r.Intn(2))
			}
		case 6:
			if len(info) > 0 {
				k := r.Intn(len(info) + 1)
				trees, info, dw = trees[:k], info[:k], dw[:k]
			}
		case 7:
			treeRoots = r.Intn(3)
			if len(trees) > 0 {
				badTree = r.Intn(len(trees))
			}
		case 8:
			if kind == "dart" {
				if r.Intn(2) == 0 {
					dw = dw[:r.Intn(len(dw))]
				} else {
					dw = append(dw, 1)
				}
			}
			wlen += r.Intn(3) - 1
		case 9:
			if len(trees) > 0 {
				badTree, treeFeat = r.Intn(len(trees)), nfeat+r.Intn(3)-1
			}
		}
	}
	b := &bytes.Buffer{}
	xgHeader(b, float32(m.base), uint32(nfeat), int32(r.Intn(5)), obj, gbm)
	trans := r.Intn(2) == 0
	lin := kind == "gblinear"
	ok := nfeat != 0 && groups >= 1
	if lin {
		w := make([]float32, wlen)
		copy(w, m.linW)
		le(b, uint32(m.nfeat), int32(groups), [32]int32{}, uint64(len(w)), w)
		ok = ok && gbm == "gblinear" && wlen == (m.nfeat+1)*groups
	} else {
		if r.Intn(6) == 0 {
			mfeat = nfeat + r.Intn(2)
		}
		le(b, int32(len(trees)), int32(roots), int32(mfeat), int32(0), int64(0), int32(groups), int32(0), [32]int32{})
		for i, t := range trees {
			tb := &bytes.Buffer{}
			t.xgTree(tb, mfeat, r)
			raw := tb.Bytes()
			if i == badTree {
				raw[0] = byte(treeRoots)
				raw[16], raw[17], raw[18], raw[19] = byte(treeFeat), 0, 0, 0
				if treeFeat < 0 {
					treeFeat = 0
					raw[16] = 0
				}
			}
			b.Write(raw)
			if i == badTree && (treeRoots != 1 || treeFeat > nfeat) {
				ok = false
			}
			if i != badTree && mfeat > nfeat {
				ok = false
			}
		}
		le(b, info)
		if gbm == "dart" || kind == "dart" {
			le(b, uint64(len(dw)))
			for _, w := range dw {
				le(b, float32(w))
			}
		}
		ok = ok && (gbm == "gbtree" || gbm == "dart" && kind == "dart" && len(dw) == len(trees) || gbm == "dart" && kind == "gbtree") && mfeat <= nfeat && len(trees) > 0 && roots == 1
		if ok {
			ok = len(trees)%groups == 0
		}
		if ok {
			for i, v := range info {
				if int(v) != i%groups {
					ok = false
				}
			}
		}
	}
	tr := "raw"
	if ok && trans {
		ok = obj == "binary:logistic" && groups == 1
		tr = "logistic"
	}
	what := fmt.Sprintf("booster %s (written as %s), objective %q, transformation requested %v, header features %d, model features %d, groups %d, trees %d, roots %d, info %v, drop weights %v, tree %d: roots %d features %d\n%s",
		kind, gbm, obj, trans, nfeat, mfeat, groups, len(trees), roots, info, dw, badTree, treeRoots, treeFeat, m.describe())
	c.Note("%s", what)
	load := leaves.XGEnsembleFromReader
	if lin {
		load = leaves.XGBLinearFromReader
	}
	e, err := load(bufio.NewReader(bytes.NewReader(b.Bytes())), trans)
	if (err == nil) != ok || (err == nil) != (e != nil) {
		c.Fail("loader: error %v, should be accepted: %v\n%s", err, ok, what)
	}
	if !ok {
		return
	}
	m.trees, m.groups, m.trans = trees, groups, tr
	m.kind = gbm
	if lin {
		m.nest = 1
		nfeat = m.nfeat
		shapeLinear(c, m, e, what)
		return
	}
	m.nest = len(trees) / groups
	m.w = make([]float64, len(trees))
	for i := range m.w {
		m.w[i] = 1
		if gbm == "dart" {
			m.w[i] = float64(float32(dw[i]))
		}
	}
	shape(c, m, e, nfeat, "xgboost."+gbm, what)
}

func shapeLinear(c *Case, m *Model, e *leaves.Ensemble, what string) {
	shape(c, m, e, m.nfeat, "xgboost.gblinear", what)
}
