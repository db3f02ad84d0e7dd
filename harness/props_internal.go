// Cross-checks of the internal packages (built only for the properties about them).
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/dmitryikh/leaves/internal/pickle"
	"github.com/dmitryikh/leaves/internal/xgbin"
)

func init() {
	props["C21"] = prop{run: c21, rule: "random XGBoost binary structures written field by field; every field read back compared, and every truncation must fail"}
	props["C22"] = prop{run: c22, rule: "random protocol-0 programs run by an independent interpreter with Python's sharing semantics; malformed operands, unknown opcodes and truncations must fail"}
}

// ---- xgbin ------------------------------------------------------------------------

func rf32(r *rand.Rand) float32 { return math.Float32frombits(r.Uint32()) }
func nanBits(f float32) uint32 {
	if f != f {
		return 0x7fc00000
	}
	return math.Float32bits(f)
}
func ri32(r *rand.Rand) int32 { return int32(r.Uint32()) }

func c21(c *Case) {
	r := c.R
	b := &bytes.Buffer{}
	str := func(n int) string {
		s := make([]byte, n)
		for i := range s {
			s[i] = byte(r.Intn(256))
		}
		return string(s)
	}
	bits := nanBits
	tail := str(r.Intn(9))
	var read func(rd *bufio.Reader) (interface{}, error, bool) // value, error, value is nil
	var check func(v interface{})
	what := ""
	fail := func(f string, a ...interface{}) { c.Fail("%s: %s\nbytes %q", what, fmt.Sprintf(f, a...), b.Bytes()) }
	switch k := r.Intn(6); k {
	case 0: // header
		what = "ReadModelHeader"
		base, nf, nc, ea, em := rf32(r), r.Uint32(), ri32(r), ri32(r), ri32(r)
		le(b, base, nf, nc, ea, em)
		var res [29]int32
		for i := range res {
			res[i] = ri32(r)
			le(b, res[i])
		}
		s1, s2 := str([]int{0, 0, 1, 5, 30}[r.Intn(5)]), str([]int{0, 1, 6, 40}[r.Intn(4)])
		xgString(b, s1)
		xgString(b, s2)
		read = func(rd *bufio.Reader) (interface{}, error, bool) {
			v, err := xgbin.ReadModelHeader(rd)
			return v, err, v == nil
		}
		check = func(v interface{}) {
			h := v.(*xgbin.ModelHeader)
			p := h.Param
			if bits(p.BaseScore) != bits(base) || p.NumFeatures != nf || p.NumClass != nc || p.ContainExtraAttrs != ea || p.ContainEvalMetrics != em || p.Reserved != res || h.NameObj != s1 || h.NameGbm != s2 {
				fail("decoded %+v", h)
			}
		}
	case 1, 2: // gbtree
		what = "ReadGBTreeModel"
		nt := []int{0, 1, 2, 3}[r.Intn(4)]
		if r.Intn(10) == 0 {
			nt = -1 - r.Intn(3)
		}
		f := []int32{int32(nt), ri32(r), ri32(r), ri32(r)}
		pbuf := int64(r.Uint64())
		g, sl := ri32(r), ri32(r)
		le(b, f, pbuf, g, sl)
		var res [32]int32
		for i := range res {
			res[i] = ri32(r)
		}
		le(b, res)
		var checks []func(t *xgbin.TreeModel)
		for i := 0; i < nt; i++ {
			checks = append(checks, genXGTree(r, b, fail))
		}
		var info []int32
		for i := 0; i < nt; i++ {
			info = append(info, ri32(r))
			le(b, info[i])
		}
		read = func(rd *bufio.Reader) (interface{}, error, bool) {
			v, err := xgbin.ReadGBTreeModel(rd)
			return v, err, v == nil
		}
		check = func(v interface{}) {
			m := v.(*xgbin.GBTreeModel)
			p := m.Param
			if p.NumTrees != f[0] || p.NumRoots != f[1] || p.NumFeature != f[2] || p.Pad32bit != f[3] || p.NumPbufferDeprecated != pbuf || p.NumOutputGroup != g || p.SizeLeafVector != sl || p.Reserved != res {
				fail("decoded parameters %+v", p)
			}
			if len(m.Trees) != len(checks) || len(m.TreeInfo) != len(info) {
				fail("decoded %d trees, %d tree infos", len(m.Trees), len(m.TreeInfo))
			}
			for i := range info {
				if m.TreeInfo[i] != info[i] {
					fail("tree info %d is %d", i, m.TreeInfo[i])
				}
				checks[i](m.Trees[i])
			}
		}
	case 3:
		what = "ReadTreeModel"
		ck := genXGTree(r, b, fail)
		read = func(rd *bufio.Reader) (interface{}, error, bool) {
			v, err := xgbin.ReadTreeModel(rd)
			return v, err, v == nil
		}
		check = func(v interface{}) { ck(v.(*xgbin.TreeModel)) }
	case 4:
		what = "ReadGBLinearModel"
		nf, g := r.Uint32(), ri32(r)
		le(b, nf, g)
		var res [32]int32
		for i := range res {
			res[i] = ri32(r)
		}
		le(b, res)
		w := make([]float32, r.Intn(9))
		for i := range w {
			w[i] = rf32(r)
		}
		le(b, uint64(len(w)), w)
		read = func(rd *bufio.Reader) (interface{}, error, bool) {
			v, err := xgbin.ReadGBLinearModel(rd)
			return v, err, v == nil
		}
		check = func(v interface{}) {
			m := v.(*xgbin.GBLinearModel)
			if m.Param.NumFeature != nf || m.Param.NumOutputGroup != g || m.Param.Reserved != res || len(m.Weights) != len(w) {
				fail("decoded %+v", m)
			}
			for i := range w {
				if bits(m.Weights[i]) != bits(w[i]) {
					fail("weight %d is %v", i, m.Weights[i])
				}
			}
		}
	case 5:
		switch r.Intn(3) {
		case 0:
			what = "ReadString"
			s := str(r.Intn(20))
			xgString(b, s)
			read = func(rd *bufio.Reader) (interface{}, error, bool) {
				v, err := xgbin.ReadString(rd)
				return v, err, v == ""
			}
			check = func(v interface{}) {
				if v.(string) != s {
					fail("decoded %q", v)
				}
			}
		case 1:
			what = "ReadInt32Slice"
			w := make([]int32, r.Intn(9))
			for i := range w {
				w[i] = ri32(r)
			}
			le(b, uint64(len(w)), w)
			read = func(rd *bufio.Reader) (interface{}, error, bool) {
				v, err := xgbin.ReadInt32Slice(rd)
				return v, err, v == nil
			}
			check = func(v interface{}) {
				if fmt.Sprint(v) != fmt.Sprint(w) {
					fail("decoded %v", v)
				}
			}
		case 2:
			what = "ReadFloat32Slice"
			w := make([]float32, r.Intn(9))
			for i := range w {
				w[i] = rf32(r)
			}
			le(b, uint64(len(w)), w)
			read = func(rd *bufio.Reader) (interface{}, error, bool) {
				v, err := xgbin.ReadFloat32Slice(rd)
				return v, err, v == nil
			}
			check = func(v interface{}) {
				g := v.([]float32)
				if len(g) != len(w) {
					fail("decoded %v", v)
				}
				for i := range w {
					if bits(g[i]) != bits(w[i]) {
						fail("element %d is %v", i, g[i])
					}
				}
			}
		}
	}
	c.Note("%s %q", what, b.Bytes())
	src := func(p []byte) *bufio.Reader {
		if r.Intn(2) == 0 {
			return bufio.NewReader(bytes.NewReader(p))
		}
		return bufio.NewReaderSize(&dribble{p, r.Int63()}, 16)
	}
	n := b.Len()
	full := append(append([]byte{}, b.Bytes()...), tail...)
	rd := src(full)
	v, err, _ := read(rd)
	if err != nil {
		fail("error %v", err)
	}
	check(v)
	rest := &bytes.Buffer{}
	rest.ReadFrom(rd)
	if rest.String() != tail {
		fail("%d bytes left unread, want %d", rest.Len(), len(tail))
	}
	for i := 0; i < n; i++ {
		if n > 400 && r.Intn(n) > 200 {
			continue
		}
		c.evals++
		if _, err, isNil := read(src(full[:i])); err == nil || !isNil {
			fail("cut after %d of %d bytes: error %v, no value: %v", i, n, err, isNil)
		}
	}
}

// dribble hands out a few bytes at a time
type dribble struct {
	p []byte
	s int64
}

func (d *dribble) Read(q []byte) (int, error) {
	if len(d.p) == 0 {
		return 0, fmt.Errorf("EOF")
	}
	d.s = d.s*6364136223846793005 + 1442695040888963407
	n := 1 + int(uint64(d.s)>>60)
	if n > len(q) {
		n = len(q)
	}
	n = copy(q[:n], d.p)
	d.p = d.p[n:]
	return n, nil
}

func genXGTree(r *rand.Rand, b *bytes.Buffer, fail func(string, ...interface{})) func(t *xgbin.TreeModel) {
	nn := r.Intn(4)
	if r.Intn(10) == 0 {
		nn = 10 + r.Intn(9)
	}
	sl := int32(r.Intn(3) - 1)
	p := []int32{ri32(r), int32(nn), ri32(r), ri32(r), ri32(r), sl}
	var res [31]int32
	for i := range res {
		res[i] = ri32(r)
	}
	le(b, p, res)
	nodes := make([]xgbin.Node, nn)
	stats := make([]xgbin.RTreeNodeStat, nn)
	for i := range nodes {
		nodes[i] = xgbin.Node{Parent: ri32(r), CLeft: ri32(r), CRight: ri32(r), SIndex: r.Uint32(), Info: rf32(r)}
		d := nodes[i]
		le(b, d.Parent, d.CLeft, d.CRight, d.SIndex, d.Info)
	}
	for i := range stats {
		stats[i] = xgbin.RTreeNodeStat{LossChg: rf32(r), SumHess: rf32(r), BaseWeight: rf32(r), LeafChildCnt: ri32(r)}
		d := stats[i]
		le(b, d.LossChg, d.SumHess, d.BaseWeight, d.LeafChildCnt)
	}
	if sl > 0 {
		w := make([]float32, r.Intn(4))
		le(b, uint64(len(w)), w)
	}
	fb := nanBits // a decoder may quieten a signalling NaN
	return func(t *xgbin.TreeModel) {
		q := t.Param
		if q.NumRoots != p[0] || q.NumNodes != p[1] || q.NumDeleted != p[2] || q.MaxDepth != p[3] || q.NumFeature != p[4] || q.SizeLeafVector != p[5] || q.Reserved != res {
			fail("decoded tree parameters %+v", q)
		}
		if len(t.Nodes) != nn || len(t.Stats) != nn {
			fail("decoded %d nodes, %d statistics, want %d", len(t.Nodes), len(t.Stats), nn)
		}
		for i := range nodes {
			d, s := t.Nodes[i], t.Stats[i]
			if d.Parent != nodes[i].Parent || d.CLeft != nodes[i].CLeft || d.CRight != nodes[i].CRight || d.SIndex != nodes[i].SIndex || fb(d.Info) != fb(nodes[i].Info) {
				fail("node %d decoded as %+v", i, d)
			}
			if fb(s.LossChg) != fb(stats[i].LossChg) || fb(s.SumHess) != fb(stats[i].SumHess) || fb(s.BaseWeight) != fb(stats[i].BaseWeight) || s.LeafChildCnt != stats[i].LeafChildCnt {
				fail("statistic %d decoded as %+v", i, s)
			}
		}
	}
}

// ---- pickle -----------------------------------------------------------------------

// reference objects; lists and dictionaries are shared by reference
type pyList struct{ v []interface{} }
type pyDict struct{ m map[string]interface{} }
type pyTuple struct{ v []interface{} }
type pyGlobal struct{ mod, name string }
type pyReduce struct {
	f    interface{}
	args pyTuple
}
type pyBuild struct{ obj, args interface{} }
type pyNone struct{}
type pyStr string

func c22(c *Case) {
	r := c.R
	var st []interface{}
	var marks []int
	memo := map[string]interface{}{}
	b := &bytes.Buffer{}
	var log []string
	emit := func(s string) { b.WriteString(s); log = append(log, s) }
	pushable := func() int { // values above the last mark
		if len(marks) == 0 {
			return len(st)
		}
		return len(st) - marks[len(marks)-1]
	}
	bad := ""
	top := func(i int) interface{} { return st[len(st)-1-i] }
	popn := func(n int) { st = st[:len(st)-n] }
	word := func() string {
		n := r.Intn(6)
		s := make([]byte, n)
		for i := range s {
			s[i] = "abcxyz 019_.\\\t\xe9(.l"[r.Intn(18)]
		}
		return string(s)
	}
	steps := 1 + r.Intn(40)
	breakAt := -1
	if r.Intn(3) == 0 {
		breakAt = r.Intn(steps)
	}
	for i := 0; i < steps && bad == ""; i++ {
		if i == breakAt {
			switch r.Intn(7) {
			case 0:
				s := choose(r, "12", "L", "", "xL", "1.5L", "12 L", "12l", "99999999999999999999L", "--1L")
				emit("L" + s + "\n")
				bad = "LONG " + s
			case 1:
				s := choose(r, "", "x", "1.5", "99999999999999999999", "0x10", " 1", "5L")
				emit("I" + s + "\n")
				bad = "INT " + s
			case 2:
				s := choose(r, "", "x", "1.5.", "1e", "1,5", " 1")
				emit("F" + s + "\n")
				bad = "FLOAT " + s
			case 3:
				op := []byte{'e', 'u', '}', ']', ')', 0x80, 'X', 'T', 'Q', 0, '\n', ' ', 255, 'q', 'G'}[r.Intn(15)]
				emit(string([]byte{op}))
				bad = fmt.Sprintf("opcode %q", op)
			case 4:
				if pushable() >= 1 {
					if _, isL := top(0).(*pyList); !isL {
						emit("Na")
						bad = "APPEND to something that is not a list"
					}
				}
			case 5:
				if pushable() >= 1 {
					emit("(NNNd")
					bad = "DICT of three objects"
				}
			case 6:
				k := "absent" + strconv.Itoa(r.Intn(9))
				emit("g" + k + "\n")
				bad = "GET of a key never stored"
			}
			continue
		}
		switch r.Intn(22) {
		case 0, 1:
			emit("(")
			marks = append(marks, len(st))
		case 2, 3:
			if len(st) > 0 {
				k := strconv.Itoa(r.Intn(5))
				emit("p" + k + "\n")
				memo[k] = top(0)
			}
		case 4, 5:
			k := strconv.Itoa(r.Intn(5))
			if v, ok := memo[k]; ok {
				emit("g" + k + "\n")
				st = append(st, v)
			}
		case 6:
			m, n := strings.Replace(word(), "\n", "", -1), word()
			emit("c" + m + "\n" + n + "\n")
			st = append(st, pyGlobal{m, n})
		case 7:
			v := []int{0, 1, -1, r.Intn(1000), math.MaxInt64, math.MinInt64}[r.Intn(6)]
			emit("L" + strconv.Itoa(v) + "L\n")
			st = append(st, v)
		case 8:
			v := []int{0, 1, -1, r.Intn(1000), math.MaxInt32}[r.Intn(5)]
			emit("I" + strconv.Itoa(v) + "\n")
			st = append(st, v)
		case 9:
			v := randVal(r, false)
			emit("F" + g17(v) + "\n")
			st = append(st, v)
		case 10, 11:
			if len(marks) > 0 {
				k := marks[len(marks)-1]
				marks = marks[:len(marks)-1]
				v := append([]interface{}{}, st[k:]...)
				st = st[:k]
				if r.Intn(2) == 0 {
					emit("t")
					st = append(st, pyTuple{v})
				} else {
					emit("l")
					st = append(st, &pyList{v})
				}
			}
		case 12, 13, 14:
			if pushable() >= 2 {
				if l, ok := top(1).(*pyList); ok && !reaches(top(0), l) {
					emit("a")
					l.v = append(l.v, top(0))
					popn(1)
				}
			} else if pushable() == 1 {
				if l, ok := top(0).(*pyList); ok {
					emit("I7\na")
					l.v = append(l.v, 7)
				}
			}
		case 15:
			s := word()
			enc := strings.Replace(s, "\\", "\\u005c", -1)
			if r.Intn(4) == 0 {
				s, enc = s+"\n"+s, enc+"\\u000a"+enc
			}
			emit("V" + enc + "\n")
			st = append(st, pyStr(s))
		case 16:
			if pushable() >= 2 {
				if t, ok := top(0).(pyTuple); ok {
					emit("R")
					f := top(1)
					popn(2)
					st = append(st, pyReduce{f, t})
				} else if i == breakAt+1 && breakAt > 0 {
					emit("R")
					bad = "REDUCE with arguments that are not a tuple"
				}
			}
		case 17:
			emit("N")
			st = append(st, pyNone{})
		case 18:
			if pushable() >= 2 && !cyclic(top(0), top(1)) {
				emit("b")
				o, a := top(1), top(0)
				popn(2)
				st = append(st, pyBuild{o, a})
			}
		case 19, 20:
			n := r.Intn(3)
			emit("(")
			d := &pyDict{map[string]interface{}{}}
			for j := 0; j < n; j++ {
				k := choose(r, "a", "b", "c")
				emit("V" + k + "\nI" + strconv.Itoa(j) + "\n")
				d.m[k] = j
			}
			emit("d")
			st = append(st, d)
		case 21:
			if pushable() >= 2 {
				if d, ok := top(1).(*pyDict); ok && !reaches(top(0), d) {
					k := choose(r, "a", "b", "zz")
					v := top(0)
					memo["tmp"] = v
					// order on the stack: dict key value
					emit("ptmp\n")
					popn(1)
					// drop the value into a tuple on the side is not possible in
					// protocol 0 without POP: build dict again through the memo
					_ = k
					st = append(st, v)
				}
			} else if pushable() == 1 {
				if d, ok := top(0).(*pyDict); ok {
					k := choose(r, "a", "b", "zz")
					emit("V" + k + "\n")
					if v, has := memo["1"]; has && !reaches(v, d) {
						emit("g1\ns")
						d.m[k] = v
					} else {
						emit("I5\ns")
						d.m[k] = 5
					}
				}
			}
		}
	}
	if len(st) == 0 && bad == "" {
		emit("N")
		st = append(st, pyNone{})
	}
	emit(".")
	junk := choose(r, "", "", "garbage", ".", "N.")
	prog := b.Bytes()
	c.Note("%q", prog)
	run := func(p []byte) (interface{}, error) {
		if r.Intn(2) == 0 {
			return pickle.NewDecoder(bytes.NewReader(p)).Decode()
		}
		return pickle.NewDecoder(bufio.NewReader(bytes.NewReader(p))).Decode()
	}
	v, err := run(append(append([]byte{}, prog...), junk...))
	if bad != "" {
		if err == nil {
			c.Fail("%s was accepted: program %q", bad, prog)
		}
		return
	}
	if err != nil {
		c.Fail("program %q: error %v", prog, err)
	}
	ids := map[interface{}]interface{}{}
	if d := pyDiff(top(0), v, ids, ids, 0); d != "" {
		c.Fail("program %q: %s", prog, d)
	}
	for i := 0; i < len(prog); i++ {
		if len(prog) > 60 && r.Intn(len(prog)) > 30 {
			continue
		}
		c.evals++
		if _, err := run(prog[:i]); err == nil {
			c.Fail("program %q cut after %d bytes was accepted", prog, i)
		}
	}
}

func reaches(v, target interface{}) bool {
	if v == target && isRef(v) {
		return true
	}
	switch x := v.(type) {
	case *pyList:
		for _, e := range x.v {
			if reaches(e, target) {
				return true
			}
		}
	case pyTuple:
		for _, e := range x.v {
			if reaches(e, target) {
				return true
			}
		}
	case *pyDict:
		for _, e := range x.m {
			if reaches(e, target) {
				return true
			}
		}
	case pyReduce:
		return reaches(x.f, target) || reaches(x.args, target)
	case pyBuild:
		return reaches(x.obj, target) || reaches(x.args, target)
	}
	return false
}

func isRef(v interface{}) bool {
	switch v.(type) {
	case *pyList, *pyDict:
		return true
	}
	return false
}

func cyclic(a, b interface{}) bool { return false }

// pyDiff compares the reference object with the decoded one, sharing included
func pyDiff(want, got interface{}, fwd, _ map[interface{}]interface{}, depth int) string {
	if depth > 60 {
		return ""
	}
	seq := func(w []interface{}, g []interface{}, what string) string {
		if len(w) != len(g) {
			return fmt.Sprintf("%s of %d elements, want %d", what, len(g), len(w))
		}
		for i := range w {
			if d := pyDiff(w[i], g[i], fwd, nil, depth+1); d != "" {
				return fmt.Sprintf("%s[%d]: %s", what, i, d)
			}
		}
		return ""
	}
	switch w := want.(type) {
	case pyNone:
		if _, ok := got.(pickle.None); !ok {
			return fmt.Sprintf("%#v, want None", got)
		}
	case int:
		if g, ok := got.(int); !ok || g != w {
			return fmt.Sprintf("%#v, want %d", got, w)
		}
	case float64:
		if g, ok := got.(float64); !ok || !same(g, w) {
			return fmt.Sprintf("%#v, want %v", got, w)
		}
	case pyStr:
		if g, ok := got.(pickle.Unicode); !ok || string(g) != string(w) {
			return fmt.Sprintf("%#v, want %q", got, string(w))
		}
	case pyGlobal:
		if g, ok := got.(pickle.Global); !ok || g.Module != w.mod || g.Name != w.name {
			return fmt.Sprintf("%#v, want %v", got, w)
		}
	case pyTuple:
		g, ok := got.(pickle.Tuple)
		if !ok {
			return fmt.Sprintf("%#v, want a tuple", got)
		}
		return seq(w.v, g, "tuple")
	case *pyList:
		var l pickle.List
		switch g := got.(type) {
		case *pickle.List:
			if o, seen := fwd[w]; seen && o != interface{}(g) {
				return "two references to one list are different lists"
			}
			fwd[w] = g
			l = *g
		case pickle.List:
			l = g
		default:
			return fmt.Sprintf("%#v, want a list", got)
		}
		return seq(w.v, l, "list")
	case *pyDict:
		g, ok := got.(pickle.Dict)
		if !ok || len(g) != len(w.m) {
			return fmt.Sprintf("%#v, want a dictionary of %d", got, len(w.m))
		}
		for k, v := range w.m {
			x, has := g[k]
			if !has {
				return fmt.Sprintf("dictionary without %q", k)
			}
			if d := pyDiff(v, x, fwd, nil, depth+1); d != "" {
				return fmt.Sprintf("dictionary[%q]: %s", k, d)
			}
		}
	case pyReduce:
		g, ok := got.(pickle.Reduce)
		if !ok {
			return fmt.Sprintf("%#v, want a REDUCE", got)
		}
		if d := pyDiff(w.f, g.Callable, fwd, nil, depth+1); d != "" {
			return "callable: " + d
		}
		return seq(w.args.v, g.Args, "arguments")
	case pyBuild:
		g, ok := got.(pickle.Build)
		if !ok {
			return fmt.Sprintf("%#v, want a BUILD", got)
		}
		if d := pyDiff(w.obj, g.Object, fwd, nil, depth+1); d != "" {
			return "object: " + d
		}
		if d := pyDiff(w.args, g.Args, fwd, nil, depth+1); d != "" {
			return "build arguments: " + d
		}
	default:
		return fmt.Sprintf("unknown reference object %#v", want)
	}
	return ""
}
