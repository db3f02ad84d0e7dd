// Random models, an independent evaluator for them, and writers for the file
// formats that leaves reads. Nothing here is taken from the code under test.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/dmitryikh/leaves"
)

type Node struct {
	leaf   bool
	num    int // number of the leaf, or of the node
	val    float64
	feat   int
	cat    bool
	set    []int
	extraW int // extra (empty) words of the bitset
	thr    float64
	mz     bool // zero is missing
	mn     bool // NaN is missing
	dl     bool // default left
	l, r   *Node
}

type Tree struct {
	root   *Node
	nodes  []*Node // by number
	leaves []*Node // by number
}

func nearZero(x float64) bool { return x > -1e-35 && x <= 1e-35 }

// goLeft is the property's rule for one split.
func (n *Node) goLeft(x float64) bool {
	if n.cat {
		if x != x {
			return false
		}
		t := math.Trunc(x)
		if t < 0 || t > 2147483647 {
			return false
		}
		for _, c := range n.set {
			if float64(c) == t {
				return true
			}
		}
		return false
	}
	if x != x {
		if n.mn {
			return n.dl
		}
		x = 0
	}
	if n.mz && nearZero(x) {
		return n.dl
	}
	return x <= n.thr
}

func (t *Tree) eval(x []float64) *Node {
	n := t.root
	for !n.leaf {
		if n.goLeft(x[n.feat]) {
			n = n.l
		} else {
			n = n.r
		}
	}
	return n
}

type Model struct {
	kind    string // lgtext lgjson gbtree dart gblinear sklearn
	groups  int
	nest    int
	nfeat   int
	trees   []*Tree // estimator i, group k at i*groups+k
	w       []float64
	base    float64
	avg     bool
	linW    []float32 // feature-major, bias row last
	rate    float64   // sklearn
	prior   []float64 // sklearn, per group
	obj     string
	trans   string // raw logistic softmax exponential
	version string
}

func (m *Model) isTrees() bool { return m.kind != "gblinear" }

func (m *Model) adjusted(n int) int {
	if n > 0 && n < m.nest {
		return n
	}
	return m.nest
}

// raw scores with the first n estimators (n already adjusted) and the scale
// of each (the sum of absolute values).
func (m *Model) raw(x []float64, n int) (out, mag []float64) {
	out = make([]float64, m.groups)
	mag = make([]float64, m.groups)
	for k := 0; k < m.groups; k++ {
		s := m.base
		a := math.Abs(s)
		if m.kind == "gblinear" {
			s += float64(m.linW[m.groups*m.nfeat+k])
			a += math.Abs(float64(m.linW[m.groups*m.nfeat+k]))
			for i := 0; i < m.nfeat; i++ {
				t := x[i] * float64(m.linW[m.groups*i+k])
				s += t
				a += math.Abs(t)
			}
			out[k], mag[k] = s, a
			continue
		}
		for i := 0; i < n; i++ {
			v := m.leafValue(i, k, x)
			if m.avg {
				v *= 1.0 / float64(n)
			}
			s += v
			a += math.Abs(v)
		}
		out[k], mag[k] = s, a
	}
	return
}

func (m *Model) leafValue(i, k int, x []float64) float64 {
	v := m.trees[i*m.groups+k].eval(x).val
	switch m.kind {
	case "sklearn":
		v = v * m.rate
		if i == 0 {
			v += m.prior[k]
		}
	case "gbtree", "dart":
		v *= m.w[i*m.groups+k]
	}
	return v
}

// output after the model's transformation
func (m *Model) out(x []float64, n int) (out, mag []float64) {
	raw, mag := m.raw(x, n)
	return transformed(m.trans, raw), mag
}

func transformed(kind string, raw []float64) []float64 {
	switch kind {
	case "raw":
		return raw
	case "logistic":
		return []float64{1 / (1 + math.Exp(-raw[0]))}
	case "exponential":
		return []float64{math.Exp(raw[0])}
	case "softmax":
		m := math.Inf(-1)
		for _, v := range raw {
			if v > m {
				m = v
			}
		}
		s := 0.0
		for _, v := range raw {
			s += math.Exp(v - m)
		}
		r := make([]float64, len(raw))
		for i, v := range raw {
			r[i] = math.Exp(v-m) / s
		}
		return r
	}
	panic("transform " + kind)
}

// missing value of an absent sparse entry
func (m *Model) absent() float64 {
	if m.kind == "gbtree" || m.kind == "dart" {
		return math.NaN()
	}
	return 0
}

// ---- generation ----------------------------------------------------------------

var specials = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, math.NaN(), math.Inf(1), math.Inf(-1),
	1e-35, -1e-35, math.Nextafter(1e-35, 1), math.Nextafter(-1e-35, -1), math.Nextafter(1e-35, 0), math.Nextafter(-1e-35, 0),
	9.99999982451670044181213370393e-36, float64(float32(1e-35)), 5e-324, -5e-324, 1e-20, -1e-20, 1e300, -1e300, math.MaxFloat64, -math.MaxFloat64, 2, 3}

func pick(r *rand.Rand, v []float64) float64 { return v[r.Intn(len(v))] }

func randThr(r *rand.Rand) float64 {
	for {
		var v float64
		switch r.Intn(6) {
		case 0:
			v = pick(r, specials)
		case 1:
			v = math.Float64frombits(r.Uint64())
		case 2:
			v = float64(r.Intn(11) - 5)
		default:
			v = r.NormFloat64()
		}
		if v == v {
			return v
		}
	}
}

type genOpt struct {
	nfeat    int
	maxLeafs int
	cats     bool
	missing  bool // all missing kinds; otherwise none
	f32      bool // float32 thresholds and values
	permute  bool
	forceNan bool // xgboost: every split has NaN as missing
}

func randVal(r *rand.Rand, f32 bool) float64 {
	v := r.NormFloat64() * math.Pow(2, float64(r.Intn(8)-4))
	if f32 {
		v = float64(float32(v))
	}
	return v
}

func randSet(r *rand.Rand) []int {
	max := []int{1, 2, 3, 31, 32, 33, 40, 63, 64, 65, 100, 200}[r.Intn(12)]
	n := 1
	if r.Intn(4) != 0 {
		n = 1 + r.Intn(6)
	}
	seen := map[int]bool{}
	var s []int
	for i := 0; i < n; i++ {
		c := r.Intn(max)
		if r.Intn(6) == 0 {
			c = max - 1
		}
		if r.Intn(8) == 0 {
			c = 31
		}
		if r.Intn(10) == 0 {
			c = 0
		}
		if !seen[c] {
			seen[c] = true
			s = append(s, c)
		}
	}
	return s
}

func genTree(r *rand.Rand, o genOpt) *Tree {
	nl := 1 + r.Intn(o.maxLeafs)
	if o.maxLeafs > 1 && nl == 1 && r.Intn(3) != 0 {
		nl = 2
	}
	root := &Node{leaf: true, num: 0}
	t := &Tree{root: root, leaves: []*Node{root}}
	deep := r.Intn(3) == 0
	for len(t.leaves) < nl {
		var n *Node
		if deep {
			n = t.leaves[len(t.leaves)-1-r.Intn(2)%len(t.leaves)]
		} else {
			n = t.leaves[r.Intn(len(t.leaves))]
		}
		l := &Node{leaf: true, num: n.num}
		rr := &Node{leaf: true, num: len(t.leaves)}
		t.leaves[n.num] = l
		t.leaves = append(t.leaves, rr)
		n.leaf = false
		n.num = len(t.nodes)
		t.nodes = append(t.nodes, n)
		if r.Intn(2) == 0 {
			l, rr = rr, l
		}
		n.l, n.r = l, rr
		n.feat = r.Intn(o.nfeat)
		if o.cats && r.Intn(3) == 0 {
			n.cat = true
			n.set = randSet(r)
			if r.Intn(4) == 0 {
				n.extraW = r.Intn(3)
			}
		} else {
			n.thr = randThr(r)
			if o.f32 {
				n.thr = float64(float32(n.thr))
			}
		}
		n.dl = r.Intn(2) == 0
		if o.forceNan {
			n.mn = true
		} else if o.missing {
			switch r.Intn(3) {
			case 0:
				n.mz = true
			case 1:
				n.mn = true
			}
		} else {
			n.dl = false
		}
	}
	for i, l := range t.leaves {
		l.val = randVal(r, o.f32)
		l.num = i
	}
	if o.permute && len(t.nodes) > 1 && r.Intn(2) == 0 {
		p := r.Perm(len(t.nodes) - 1)
		nn := make([]*Node, len(t.nodes))
		nn[0] = t.nodes[0]
		for i, j := range p {
			nn[i+1] = t.nodes[j+1]
		}
		for i, n := range nn {
			n.num = i
		}
		t.nodes = nn
	}
	return t
}

func (t *Tree) thresholds() []float64 {
	var v []float64
	for _, n := range t.nodes {
		if !n.cat {
			v = append(v, n.thr)
		}
	}
	return v
}

func (m *Model) randRow(r *rand.Rand, extra int) []float64 {
	x := make([]float64, m.nfeat+extra)
	var thr []float64
	var cats []int
	for i := 0; i < 3 && len(m.trees) > 0; i++ {
		t := m.trees[r.Intn(len(m.trees))]
		thr = append(thr, t.thresholds()...)
		for _, n := range t.nodes {
			cats = append(cats, n.set...)
		}
	}
	for i := range x {
		x[i] = randX(r, thr, cats)
	}
	return x
}

func randX(r *rand.Rand, thr []float64, cats []int) float64 {
	switch r.Intn(8) {
	case 0:
		return pick(r, specials)
	case 1, 2:
		if len(thr) > 0 {
			t := thr[r.Intn(len(thr))]
			switch r.Intn(4) {
			case 0:
				return math.Nextafter(t, math.Inf(1))
			case 1:
				return math.Nextafter(t, math.Inf(-1))
			}
			return t
		}
	case 3, 4:
		if len(cats) > 0 {
			c := float64(cats[r.Intn(len(cats))])
			switch r.Intn(9) {
			case 0:
				return c + 0.5
			case 1:
				return c + 1
			case 2:
				return c - 1
			case 3:
				return -c
			case 4:
				return c + 4294967296
			case 5:
				return c + 32
			}
			return c
		}
		return float64(r.Intn(70))
	case 5:
		return []float64{math.NaN(), 0, -0.5, -0.999, 2147483647, 2147483648, 4294967296, 31, 32, 33, 1e19}[r.Intn(11)]
	}
	return r.NormFloat64()
}

// finite row: no NaN, infinities or huge values
func (m *Model) finiteRow(r *rand.Rand, extra int) []float64 {
	x := m.randRow(r, extra)
	for i := range x {
		if x[i] != x[i] || math.Abs(x[i]) > 1e6 {
			x[i] = r.NormFloat64()
		}
	}
	return x
}

func genModel(r *rand.Rand, kind string) *Model {
	m := &Model{kind: kind, version: []string{"v2", "v3"}[r.Intn(2)]}
	m.groups = []int{1, 1, 1, 2, 3, 3, 4, 5}[r.Intn(8)]
	m.nest = 1 + r.Intn(6)
	if r.Intn(12) == 0 {
		m.nest = 7 + r.Intn(12)
	}
	m.nfeat = []int{1, 2, 3, 3, 4, 5, 8, 12}[r.Intn(8)]
	m.trans = "raw"
	o := genOpt{nfeat: m.nfeat, maxLeafs: []int{1, 2, 3, 5, 9, 14}[r.Intn(6)]}
	switch kind {
	case "lgtext":
		o.cats, o.missing, o.permute = r.Intn(2) == 0, true, true
		m.avg = r.Intn(4) == 0
		m.obj = "regression"
		if !m.avg {
			if m.groups == 1 {
				switch r.Intn(4) {
				case 0:
					m.obj, m.trans = "binary sigmoid:1", "logistic"
				case 1:
					m.obj, m.trans = []string{"poisson", "gamma", "tweedie"}[r.Intn(3)], "exponential"
				case 2:
					m.obj, m.trans = "multiclass num_class:1", "softmax"
				}
			} else if r.Intn(3) != 0 {
				m.obj, m.trans = fmt.Sprintf("multiclass num_class:%d", m.groups), "softmax"
			}
		}
	case "lgjson":
		o.cats, o.missing = r.Intn(2) == 0, true
	case "gbtree", "dart":
		o.f32, o.forceNan, o.permute = true, true, true
		m.base = float64(float32([]float64{0, 0.5, -1.25, 0.1}[r.Intn(4)]))
		m.obj = "reg:linear"
		if m.groups == 1 && r.Intn(2) == 0 {
			m.obj, m.trans = "binary:logistic", "logistic"
		} else {
			m.obj, m.trans = "multi:softmax", "raw"
		}
	case "gblinear":
		m.base = float64(float32([]float64{0, 0.5, -1.25, 0.1}[r.Intn(4)]))
		m.nest = 1
		m.linW = make([]float32, (m.nfeat+1)*m.groups)
		for i := range m.linW {
			m.linW[i] = float32(randVal(r, true))
		}
		m.obj = "reg:linear"
		if m.groups == 1 && r.Intn(2) == 0 {
			m.obj, m.trans = "binary:logistic", "logistic"
		}
		return m
	case "sklearn":
		if m.groups == 2 {
			m.groups = 3
		}
		m.rate = []float64{1, 0.1, 0.3, 2}[r.Intn(4)]
		for k := 0; k < m.groups; k++ {
			m.prior = append(m.prior, randVal(r, false))
		}
		o.permute = true
	}
	for i := 0; i < m.groups*m.nest; i++ {
		m.trees = append(m.trees, genTree(r, o))
		w := 1.0
		if kind == "dart" {
			w = float64(float32(r.Float64() * 2))
		}
		m.w = append(m.w, w)
	}
	return m
}

var allKinds = []string{"lgtext", "lgjson", "gbtree", "dart", "gblinear", "sklearn"}

// a model with every kind and every transformation reachable
func anyModel(r *rand.Rand) *Model { return genModel(r, allKinds[r.Intn(len(allKinds))]) }

func (m *Model) describe() string {
	s := fmt.Sprintf("model kind=%s groups=%d estimators=%d features=%d transform=%s objective=%q averaged=%v base=%v\n", m.kind, m.groups, m.nest, m.nfeat, m.trans, m.obj, m.avg, m.base)
	b, isText := m.bytes()
	if isText && len(b) < 20000 {
		s += string(b)
	} else {
		s += fmt.Sprintf("%d bytes: %.2000q", len(b), b)
	}
	return s
}

// ---- writers --------------------------------------------------------------------

func g17(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }

func joinF(v []float64) string {
	s := make([]string, len(v))
	for i := range v {
		s[i] = g17(v[i])
	}
	return strings.Join(s, " ")
}
func joinI(v []int) string {
	s := make([]string, len(v))
	for i := range v {
		s[i] = strconv.Itoa(v[i])
	}
	return strings.Join(s, " ")
}

func bitset(set []int, extra int) []int {
	max := 0
	for _, c := range set {
		if c > max {
			max = c
		}
	}
	w := make([]uint32, max/32+1+extra)
	for _, c := range set {
		w[c/32] |= 1 << uint(c%32)
	}
	r := make([]int, len(w))
	for i := range w {
		r[i] = int(w[i])
	}
	return r
}

func (t *Tree) lgText(b *bytes.Buffer, no int) {
	ncat := 0
	bounds, words := []int{0}, []int{}
	n := len(t.nodes)
	feat, thr, dt, lc, rc := make([]int, n), make([]float64, n), make([]int, n), make([]int, n), make([]int, n)
	child := func(c *Node) int {
		if c.leaf {
			return ^c.num
		}
		return c.num
	}
	for i, nd := range t.nodes {
		feat[i] = nd.feat
		lc[i], rc[i] = child(nd.l), child(nd.r)
		if nd.cat {
			dt[i] |= 1
			thr[i] = float64(ncat)
			ncat++
			words = append(words, bitset(nd.set, nd.extraW)...)
			bounds = append(bounds, len(words))
		} else {
			thr[i] = nd.thr
		}
		if nd.dl {
			dt[i] |= 2
		}
		if nd.mz {
			dt[i] |= 4
		}
		if nd.mn {
			dt[i] |= 8
		}
	}
	lv := make([]float64, len(t.leaves))
	for i, l := range t.leaves {
		lv[i] = l.val
	}
	fmt.Fprintf(b, "Tree=%d\nnum_leaves=%d\nnum_cat=%d\n", no, len(t.leaves), ncat)
	if n > 0 {
		fmt.Fprintf(b, "split_feature=%s\nthreshold=%s\ndecision_type=%s\nleft_child=%s\nright_child=%s\n", joinI(feat), joinF(thr), joinI(dt), joinI(lc), joinI(rc))
	} else {
		fmt.Fprintf(b, "split_feature=\nthreshold=\ndecision_type=\nleft_child=\nright_child=\n")
	}
	fmt.Fprintf(b, "leaf_value=%s\n", joinF(lv))
	if ncat > 0 {
		fmt.Fprintf(b, "cat_boundaries=%s\ncat_threshold=%s\n", joinI(bounds), joinI(words))
	}
	fmt.Fprintf(b, "shrinkage=1\n\n\n")
}

func (m *Model) lgText() []byte {
	b := &bytes.Buffer{}
	fmt.Fprintf(b, "tree\nversion=%s\nnum_class=%d\nnum_tree_per_iteration=%d\nlabel_index=0\nmax_feature_idx=%d\nobjective=%s\n", m.version, m.groups, m.groups, m.nfeat-1, m.obj)
	if m.avg {
		fmt.Fprintf(b, "average_output\n")
	}
	sz := make([]int, len(m.trees))
	for i := range sz {
		sz[i] = 100 + i
	}
	fmt.Fprintf(b, "feature_names=a b c\nfeature_infos=none\ntree_sizes=%s\n\n", joinI(sz))
	for i, t := range m.trees {
		t.lgText(b, i)
	}
	fmt.Fprintf(b, "feature importances:\na=1\n\n")
	return b.Bytes()
}

func jstr(s string) string { return strconv.Quote(s) }

func (n *Node) lgJSON(b *bytes.Buffer) {
	if n.leaf {
		fmt.Fprintf(b, `{"leaf_index":%d,"leaf_value":%s,"leaf_count":3}`, n.num, g17(n.val))
		return
	}
	mt := "None"
	if n.mz {
		mt = "Zero"
	}
	if n.mn {
		mt = "NaN"
	}
	thr, dt := g17(n.thr), "<="
	if n.cat {
		dt = "=="
		ss := make([]string, len(n.set))
		for i, c := range n.set {
			ss[i] = strconv.Itoa(c)
		}
		thr = jstr(strings.Join(ss, "||"))
	}
	fmt.Fprintf(b, `{"split_index":%d,"split_feature":%d,"split_gain":1,"threshold":%s,"decision_type":%s,"default_left":%v,"missing_type":%s,"internal_value":0,"internal_count":9,"left_child":`,
		n.num, n.feat, thr, jstr(dt), n.dl, jstr(mt))
	n.l.lgJSON(b)
	fmt.Fprintf(b, `,"right_child":`)
	n.r.lgJSON(b)
	fmt.Fprintf(b, `}`)
}

func (m *Model) lgJSON() []byte {
	b := &bytes.Buffer{}
	fmt.Fprintf(b, `{"name":"tree","version":"v2","num_class":%d,"num_tree_per_iteration":%d,"label_index":0,"max_feature_idx":%d,"feature_names":["a"],"tree_info":[`, m.groups, m.groups, m.nfeat-1)
	for i, t := range m.trees {
		if i > 0 {
			b.WriteByte(',')
		}
		nc := 0
		for _, n := range t.nodes {
			if n.cat {
				nc++
			}
		}
		fmt.Fprintf(b, `{"tree_index":%d,"num_leaves":%d,"num_cat":%d,"shrinkage":1,"tree_structure":`, i, len(t.leaves), nc)
		t.root.lgJSON(b)
		b.WriteByte('}')
	}
	b.WriteString("]}")
	return b.Bytes()
}

func le(b *bytes.Buffer, vs ...interface{}) {
	for _, v := range vs {
		if err := binary.Write(b, binary.LittleEndian, v); err != nil {
			panic(err)
		}
	}
}

func xgString(b *bytes.Buffer, s string) {
	le(b, uint64(len(s)))
	b.WriteString(s)
}

func xgHeader(b *bytes.Buffer, base float32, nfeat uint32, nclass int32, obj, gbm string) {
	le(b, base, nfeat, nclass, int32(0), int32(0), [29]int32{})
	xgString(b, obj)
	xgString(b, gbm)
}

// xgboost numbering: root 0, children anywhere
func (t *Tree) xgNodes(r *rand.Rand) (nodes []*Node, id map[*Node]int) {
	id = map[*Node]int{}
	add := func(n *Node) { id[n] = len(nodes); nodes = append(nodes, n) }
	add(t.root)
	for i := 0; i < len(nodes); i++ {
		if n := nodes[i]; !n.leaf {
			add(n.l)
			add(n.r)
		}
	}
	if r != nil && len(nodes) > 3 {
		p := r.Perm(len(nodes) - 1)
		nn := append([]*Node{}, nodes...)
		for i, j := range p {
			nn[i+1] = nodes[j+1]
		}
		nodes = nn
		for i, n := range nodes {
			id[n] = i
		}
	}
	return
}

func (t *Tree) xgTree(b *bytes.Buffer, nfeat int, r *rand.Rand) {
	nodes, id := t.xgNodes(r)
	le(b, int32(1), int32(len(nodes)), int32(0), int32(0), int32(nfeat), int32(0), [31]int32{})
	parent := map[*Node]int32{t.root: -1}
	for _, n := range nodes {
		if !n.leaf {
			parent[n.l] = int32(uint32(id[n]) | 1<<31)
			parent[n.r] = int32(id[n])
		}
	}
	for _, n := range nodes {
		if n.leaf {
			le(b, parent[n], int32(-1), int32(-1), uint32(0), float32(n.val))
			continue
		}
		si := uint32(n.feat)
		if n.dl {
			si |= 1 << 31
		}
		le(b, parent[n], int32(id[n.l]), int32(id[n.r]), si, float32(n.thr))
	}
	for range nodes {
		le(b, float32(1), float32(2), float32(3), int32(0))
	}
}

func (m *Model) xgBytes() []byte {
	b := &bytes.Buffer{}
	nclass := int32(0)
	if m.groups > 1 {
		nclass = int32(m.groups)
	}
	xgHeader(b, float32(m.base), uint32(m.nfeat), nclass, m.obj, m.kind)
	if m.kind == "gblinear" {
		le(b, uint32(m.nfeat), int32(m.groups), [32]int32{}, uint64(len(m.linW)), m.linW)
		return b.Bytes()
	}
	le(b, int32(len(m.trees)), int32(1), int32(m.nfeat), int32(0), int64(0), int32(m.groups), int32(0), [32]int32{})
	rr := rand.New(rand.NewSource(int64(len(m.trees)*7 + m.nfeat)))
	for i, t := range m.trees {
		if i%2 == 0 {
			t.xgTree(b, m.nfeat, nil)
		} else {
			t.xgTree(b, m.nfeat, rr)
		}
	}
	for i := range m.trees {
		le(b, int32(i%m.groups))
	}
	if m.kind == "dart" {
		le(b, uint64(len(m.w)))
		for _, w := range m.w {
			le(b, float32(w))
		}
	}
	return b.Bytes()
}

// ---- pickle writer (protocol 0) -----------------------------------------------------

type pk struct {
	b    bytes.Buffer
	memo int
}

func (p *pk) put() { fmt.Fprintf(&p.b, "p%d\n", p.memo); p.memo++ }
func (p *pk) global(mod, name string) {
	fmt.Fprintf(&p.b, "c%s\n%s\n", mod, name)
	p.put()
}
func (p *pk) long(v int)     { fmt.Fprintf(&p.b, "L%dL\n", v) }
func (p *pk) int(v int)      { fmt.Fprintf(&p.b, "I%02d\n", v) }
func (p *pk) flt(v float64)  { fmt.Fprintf(&p.b, "F%s\n", g17(v)) }
func (p *pk) raw(s string)   { p.b.WriteString(s) }
func (p *pk) tuple(f func()) { p.raw("("); f(); p.raw("t"); p.put() }
func (p *pk) uni(s []byte) {
	e := bytes.Replace(s, []byte("\\"), []byte("\\u005c"), -1)
	e = bytes.Replace(e, []byte("\n"), []byte("\\u000a"), -1)
	p.raw("V")
	p.b.Write(e)
	p.raw("\n")
	p.put()
}
func (p *pk) str(s string) { p.uni([]byte(s)) }
func (p *pk) reduce()      { p.raw("R"); p.put() }
func (p *pk) key(k string, f func()) {
	p.str(k)
	f()
	p.raw("s")
}
func (p *pk) newdict(f func()) { p.raw("(d"); p.put(); f() }

func (p *pk) bytesObj(data []byte) { // _codecs.encode(data, 'latin1')
	p.global("_codecs", "encode")
	p.tuple(func() { p.uni(data); p.str("latin1") })
	p.reduce()
}

func (p *pk) dtype(t string, little bool) {
	p.global("numpy", "dtype")
	p.tuple(func() { p.str(t); p.long(0); p.long(1) })
	p.reduce()
	p.tuple(func() {
		p.long(3)
		if little {
			p.str("<")
		} else {
			p.str(">")
		}
		p.raw("NNN")
		p.long(-1)
		p.long(-1)
		p.long(0)
	})
	p.raw("b")
}

func (p *pk) reconstruct() {
	p.global("numpy.core.multiarray", "_reconstruct")
	p.tuple(func() {
		p.global("numpy", "ndarray")
		p.tuple(func() { p.long(0) })
		p.bytesObj([]byte("b"))
	})
	p.reduce()
}

func (p *pk) array(shape []int, dt string, data []byte) {
	p.reconstruct()
	p.tuple(func() {
		p.long(1)
		p.tuple(func() {
			for _, s := range shape {
				p.long(s)
			}
		})
		p.dtype(dt, true)
		p.int(0)
		p.bytesObj(data)
	})
	p.raw("b")
}

func (p *pk) scalar(dt string, data []byte) {
	p.global("numpy.core.multiarray", "scalar")
	p.tuple(func() { p.dtype(dt, true); p.bytesObj(data) })
	p.reduce()
}

func leBytes(vs ...interface{}) []byte {
	b := &bytes.Buffer{}
	le(b, vs...)
	return b.Bytes()
}

func (p *pk) object(mod, name string, members func()) {
	p.global("copy_reg", "_reconstructor")
	p.tuple(func() {
		p.global(mod, name)
		p.global("__builtin__", "object")
		p.raw("N")
	})
	p.reduce()
	p.newdict(members)
	p.raw("b")
}

func (t *Tree) skTree(p *pk, nfeat int, r *rand.Rand) {
	nodes, id := t.xgNodes(r)
	p.object("sklearn.tree.tree", "DecisionTreeRegressor", func() {
		p.key("criterion", func() { p.str("friedman_mse") })
		p.key("n_classes_", func() { p.scalar("i8", leBytes(int64(1))) })
		p.key("max_features_", func() { p.long(nfeat) })
		p.key("n_outputs_", func() { p.long(1) })
		p.key("tree_", func() {
			p.global("sklearn.tree._tree", "Tree")
			p.tuple(func() {
				p.long(nfeat)
				p.array([]int{1}, "i8", leBytes(int64(1)))
				p.long(1)
			})
			p.reduce()
			p.newdict(func() {
				p.key("max_depth", func() { p.long(3) })
				p.key("node_count", func() { p.long(len(nodes)) })
				b := &bytes.Buffer{}
				v := &bytes.Buffer{}
				for _, n := range nodes {
					if n.leaf {
						le(b, int64(-1), int64(-1), int64(-2), float64(-2), 0.25, int64(10), float64(10))
						le(v, n.val)
					} else {
						le(b, int64(id[n.l]), int64(id[n.r]), int64(n.feat), n.thr, 0.25, int64(10), float64(10))
						le(v, 123.5)
					}
				}
				p.key("nodes", func() { p.array([]int{len(nodes)}, "V56", b.Bytes()) })
				p.key("values", func() { p.array([]int{len(nodes), 1, 1}, "f8", v.Bytes()) })
			})
			p.raw("b")
		})
	})
}

func (m *Model) skBytes() []byte {
	p := &pk{}
	p.object("sklearn.ensemble.gradient_boosting", "GradientBoostingClassifier", func() {
		nc := m.groups
		if nc == 1 {
			nc = 2
		}
		p.key("n_classes_", func() { p.long(nc) })
		p.key("learning_rate", func() { p.flt(m.rate) })
		p.key("loss", func() { p.str("deviance") })
		p.key("init_", func() {
			if m.groups == 1 {
				p.object("sklearn.ensemble.gradient_boosting", "LogOddsEstimator", func() {
					p.key("prior", func() { p.scalar("f8", leBytes(m.prior[0])) })
				})
			} else {
				p.object("sklearn.ensemble.gradient_boosting", "PriorProbabilityEstimator", func() {
					p.key("priors", func() { p.array([]int{m.groups}, "f8", leBytes(m.prior)) })
				})
			}
		})
		cl := &bytes.Buffer{}
		for i := 0; i < nc; i++ {
			le(cl, int64(i))
		}
		p.key("classes_", func() { p.array([]int{nc}, "i8", cl.Bytes()) })
		p.key("max_features_", func() { p.long(1 + (m.nfeat-1)/2) })
		p.key("n_features_", func() { p.long(m.nfeat) })
		p.key("n_estimators", func() { p.long(m.nest) })
		p.key("estimators_", func() {
			p.reconstruct()
			rr := rand.New(rand.NewSource(int64(len(m.trees)*5 + m.nfeat)))
			p.tuple(func() {
				p.long(1)
				p.tuple(func() { p.long(m.nest); p.long(m.groups) })
				p.dtype("O8", true)
				p.int(0)
				p.raw("(l")
				p.put()
				for i, t := range m.trees {
					var rx *rand.Rand
					if i%2 == 1 {
						rx = rr
					}
					t.skTree(p, m.nfeat, rx)
					p.raw("a")
				}
			})
			p.raw("b")
		})
	})
	p.raw(".")
	return p.b.Bytes()
}

func (m *Model) bytes() (b []byte, text bool) {
	switch m.kind {
	case "lgtext":
		return m.lgText(), true
	case "lgjson":
		return m.lgJSON(), true
	case "sklearn":
		return m.skBytes(), false
	}
	return m.xgBytes(), false
}

func (m *Model) loadBytes(data []byte, trans bool) (*leaves.Ensemble, error) {
	rd := bufio.NewReader(bytes.NewReader(data))
	switch m.kind {
	case "lgtext":
		return leaves.LGEnsembleFromReader(rd, trans)
	case "lgjson":
		return leaves.LGEnsembleFromJSON(rd, false)
	case "sklearn":
		return leaves.SKEnsembleFromReader(rd, trans)
	case "gblinear":
		return leaves.XGBLinearFromReader(rd, trans)
	}
	return leaves.XGEnsembleFromReader(rd, trans)
}

// wantTrans: which transformation to ask for and what the model then has
func (m *Model) load(c *Case) *leaves.Ensemble {
	data, _ := m.bytes()
	trans := m.trans != "raw" || (m.kind == "lgtext" && len(data)%2 == 0)
	e, err := m.loadBytes(data, trans)
	if err != nil {
		c.Fail("loading a well-formed model failed: %v\n%s", err, m.describe())
	}
	return e
}
