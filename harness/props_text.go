package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/dmitryikh/leaves/mat"
	"github.com/dmitryikh/leaves/util"
)

func init() {
	props["C23"] = prop{run: c23, rule: "random parameter blocks (blank lines, repeated keys, malformed numbers) compared with an independent parser"}
	props["C24"] = prop{run: c24, rule: "random arrays, CSV and libsvm texts (absent fields, repeated spaces, limits, bad rows) compared with an independent reader"}
}

func choose(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

// what encoding/strconv define for one token, reached by another road
func refInt(s string, bits int) (int64, bool) {
	t := s
	neg := false
	if strings.HasPrefix(t, "+") || strings.HasPrefix(t, "-") {
		neg = t[0] == '-'
		t = t[1:]
	}
	if t == "" {
		return 0, false
	}
	v := float64(0)
	n := int64(0)
	for _, ch := range t {
		if ch < '0' || ch > '9' {
			return 0, false
		}
		n = n*10 + int64(ch-'0')
		v = v*10 + float64(ch-'0')
	}
	lim := math.Pow(2, float64(bits-1))
	if !neg && v >= lim || neg && v > lim {
		return 0, false
	}
	if neg {
		n = -n
	}
	return n, true
}

func refUint32(s string) (uint32, bool) {
	if s == "" || s[0] == '+' || s[0] == '-' {
		return 0, false
	}
	n, ok := refInt(s, 40)
	if !ok || n > math.MaxUint32 {
		return 0, false
	}
	return uint32(n), true
}

func intTok(r *rand.Rand) string {
	switch r.Intn(14) {
	case 0:
		return choose(r, "", "x", "1.5", "-", "+3", "0x10", "1_000", "007", " 1")
	case 1:
		return choose(r, "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296")
	default:
		return strconv.Itoa(r.Intn(2000) - 200)
	}
}

func floatTok(r *rand.Rand) string {
	switch r.Intn(14) {
	case 0:
		return choose(r, "", "x", "nan", "inf", "-inf", "1e999", "1e-400", "--1", "1,5", "0x1p3")
	default:
		return strconv.FormatFloat(r.NormFloat64()*math.Pow(10, float64(r.Intn(9)-4)), 'g', -1, 64)
	}
}

func c23(c *Case) {
	r := c.R
	keys := []string{"tree", "num_leaves", "split_feature", "threshold", "average_output", "a b", "k", ""}
	var lines []string
	for n := r.Intn(3); n > 0; n-- {
		lines = append(lines, choose(r, "", " ", "\t", "\r"))
	}
	bad := false
	n := r.Intn(7)
	want := map[string]string{}
	for i := 0; i < n; i++ {
		k := keys[r.Intn(len(keys))]
		var toks []string
		for j := 1 + r.Intn(5); j > 0; j-- {
			if r.Intn(2) == 0 {
				toks = append(toks, intTok(r))
			} else {
				toks = append(toks, floatTok(r))
			}
		}
		v := strings.Join(toks, " ")
		l := k + "=" + v
		switch r.Intn(12) {
		case 0:
			l = k
		case 1:
			if r.Intn(3) == 0 {
				l = k + "=" + v + "=" + v
			}
		}
		l = choose(r, "", "", " ", "\t") + l + choose(r, "", "", " ", "\r")
		lines = append(lines, l)
		t := strings.TrimSpace(l)
		if t == "" {
			continue // blank: handled by the reference below
		}
	}
	if r.Intn(4) > 0 {
		lines = append(lines, choose(r, "", " "))
		lines = append(lines, "next=1")
	}
	text := strings.Join(lines, "\n")
	if r.Intn(4) > 0 {
		text += "\n"
	}
	c.Note("block %q", text)
	// reference: leading blank lines skipped, then lines up to a blank one
	rest := text
	eof := false
	line := func() (string, bool) {
		if rest == "" {
			eof = true
			return "", false
		}
		i := strings.IndexByte(rest, '\n')
		if i < 0 {
			s := rest
			rest = ""
			eof = true
			return strings.TrimSpace(s), false
		}
		s := rest[:i]
		rest = rest[i+1:]
		return strings.TrimSpace(s), true
	}
	failed := false
	s, ok := line()
	for ok && s == "" {
		s, ok = line()
	}
	if !ok && s == "" && eof {
		failed = true // nothing but blank lines
	}
	if !ok && s != "" {
		failed = true // the library asks for a terminated first line
	}
	if !failed {
		for s != "" {
			p := strings.Split(s, "=")
			if len(p) > 2 {
				bad = true
				break
			}
			if len(p) == 2 {
				want[p[0]] = p[1]
			} else {
				want[p[0]] = ""
			}
			s, ok = line()
			if !ok && s != "" {
				// last line without a newline
				p := strings.Split(s, "=")
				if len(p) > 2 {
					bad = true
				} else if len(p) == 2 {
					want[p[0]] = p[1]
				} else {
					want[p[0]] = ""
				}
				break
			}
		}
	}
	got, err := util.ReadParamsUntilBlank(bufio.NewReader(strings.NewReader(text)))
	c.evals++
	if failed {
		return // whether an unterminated text is a block is not stated
	}
	if bad {
		if err == nil {
			c.Fail("block %q has a line with several '=' and was accepted", text)
		}
		return
	}
	if err != nil {
		if !eof {
			c.Fail("block %q refused: %v", text, err)
		}
		return
	}
	if len(got) != len(want) {
		c.Fail("block %q gives %v, expected %v", text, got, want)
	}
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			c.Fail("block %q gives %q for key %q, expected %q", text, g, k, v)
		}
	}
	for _, k := range append(keys, "absent") {
		v, has := want[k]
		toks := strings.Split(v, " ")
		c.evals++
		fs, err := got.ToFloat64Slice(k)
		okF := has
		var wf []float64
		for _, t := range toks {
			x, e := strconv.ParseFloat(t, 64)
			okF = okF && e == nil
			wf = append(wf, x)
		}
		if (err == nil) != okF {
			c.Fail("ToFloat64Slice(%q) of %q: error %v", k, v, err)
		}
		if err == nil {
			if len(fs) != len(wf) {
				c.Fail("ToFloat64Slice(%q) of %q gives %v", k, v, fs)
			}
			for i := range fs {
				if !same(fs[i], wf[i]) {
					c.Fail("ToFloat64Slice(%q) of %q gives %v", k, v, fs)
				}
			}
		}
		is, err := got.ToInt32Slice(k)
		okI := has
		var wi []int32
		for _, t := range toks {
			x, e := refInt(t, 32)
			okI = okI && e
			wi = append(wi, int32(x))
		}
		if (err == nil) != okI || err == nil && fmt.Sprint(is) != fmt.Sprint(wi) {
			c.Fail("ToInt32Slice(%q) of %q gives %v, %v", k, v, is, err)
		}
		us, err := got.ToUint32Slice(k)
		okU := has
		var wu []uint32
		for _, t := range toks {
			x, e := refUint32(t)
			okU = okU && e
			wu = append(wu, x)
		}
		if (err == nil) != okU || err == nil && fmt.Sprint(us) != fmt.Sprint(wu) {
			c.Fail("ToUint32Slice(%q) of %q gives %v, %v", k, v, us, err)
		}
		x, err := got.ToInt(k)
		wx, okX := refInt(v, 64)
		if (err == nil) != (has && okX) || err == nil && int64(x) != wx {
			c.Fail("ToInt(%q) of %q gives %v, %v", k, v, x, err)
		}
		if got.Contains(k) != has {
			c.Fail("Contains(%q) = %v", k, !has)
		}
		if (got.Compare(k, v) == nil) != has || got.Compare(k, v+"?") == nil {
			c.Fail("Compare(%q) with %q", k, v)
		}
		str, err := got.ToString(k)
		if (err == nil) != has || err == nil && str != v {
			c.Fail("ToString(%q) gives %q, %v", k, str, err)
		}
		ss, err := got.ToStrSlice(k)
		if (err == nil) != has || err == nil && fmt.Sprintf("%q", ss) != fmt.Sprintf("%q", toks) {
			c.Fail("ToStrSlice(%q) gives %q, %v", k, ss, err)
		}
	}
}

func sameFloats(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func c24(c *Case) {
	r := c.R
	switch r.Intn(5) {
	case 0:
		rows, cols := r.Intn(6), r.Intn(6)
		n := rows * cols
		if r.Intn(4) == 0 {
			n += r.Intn(5) - 2
			if n < 0 {
				n = 0
			}
		}
		v := make([]float64, n)
		for i := range v {
			v[i] = r.NormFloat64()
		}
		c.Note("array of %d as %d x %d", n, rows, cols)
		in := append([]float64{}, v...)
		d, err := mat.DenseMatFromArray(in, rows, cols)
		s, err2 := mat.CSRMatFromArray(in, rows, cols)
		c.evals += 2
		if (err == nil) != (n == rows*cols) || (err2 == nil) != (n == rows*cols) {
			c.Fail("array of %d as %d x %d: %v, %v", n, rows, cols, err, err2)
		}
		if err != nil {
			return
		}
		for i := range in {
			in[i] = -1
		}
		if d.Rows != rows || d.Cols != cols || !sameFloats(d.Values, v) {
			c.Fail("dense matrix from %d x %d array is %v", rows, cols, d)
		}
		if s.Rows() != rows || !sameFloats(s.Values, v) {
			c.Fail("sparse matrix from %d x %d array is %v", rows, cols, s)
		}
		for i := 0; i < rows; i++ {
			if s.RowHeaders[i] != i*cols || s.RowHeaders[i+1] != i*cols+cols {
				c.Fail("row headers of a %d x %d array are %v", rows, cols, s.RowHeaders)
			}
			for j := 0; j < cols; j++ {
				if s.ColIndexes[i*cols+j] != j {
					c.Fail("columns of a %d x %d array are %v", rows, cols, s.ColIndexes)
				}
			}
		}
		z := mat.DenseMatZero(rows, cols)
		if z.Rows != rows || z.Cols != cols || len(z.Values) != rows*cols {
			c.Fail("zero matrix %d x %d is %v", rows, cols, z)
		}
		for _, x := range z.Values {
			if x != 0 {
				c.Fail("zero matrix %d x %d is %v", rows, cols, z)
			}
		}
		// written text reads back as the same matrix
		if rows > 0 && cols > 0 {
			var b bytes.Buffer
			if err := d.WriteStr(&b, ";"); err != nil {
				c.Fail("WriteStr: %v", err)
			}
			m, err := mat.DenseMatFromCsv(bufio.NewReader(&b), 0, false, ";", 0)
			if err != nil || m.Rows != rows || m.Cols != cols || !sameFloats(m.Values, v) {
				c.Fail("a %d x %d matrix written and read back is %v (%v)", rows, cols, m, err)
			}
		}
	case 1, 2:
		c24csv(c)
	default:
		c24svm(c)
	}
}

func c24csv(c *Case) {
	r := c.R
	delim := choose(r, ",", "\t", ";", ", ", " ")
	skip := r.Intn(2) == 0
	rows, cols := r.Intn(5), 1+r.Intn(5)
	def := []float64{0, math.NaN(), -7}[r.Intn(3)]
	limit := 0
	if r.Intn(3) == 0 {
		limit = r.Intn(7) - 1
	}
	bad := false
	var want []float64
	var lines []string
	first := 0
	if skip {
		first = 1
	}
	wr, wc := 0, 0
	for i := 0; i < rows; i++ {
		w := cols
		if r.Intn(12) == 0 {
			w += r.Intn(3) - 1
			if w < 1 {
				w = 1
			}
		}
		var toks []string
		for j := 0; j < w; j++ {
			switch {
			case r.Intn(4) == 0:
				toks = append(toks, "")
			default:
				toks = append(toks, floatTok(r))
			}
		}
		l := strings.Join(toks, delim)
		if strings.TrimSpace(strings.Replace(l, delim, "", -1)) == "" && (delim == " " || delim == ", " || l == "") {
			toks[0] = "1"
			l = strings.Join(toks, delim)
		}
		lines = append(lines, l)
	}
	text := strings.Join(lines, "\n") + choose(r, "", "\n", "\r\n", "\n\n5,5\n")
	c.Note("csv %q delimiter %q skip %v limit %d", text, delim, skip, limit)
	// reference: text lines, outer white space except the delimiter's removed
	for _, l := range strings.SplitAfter(text, "\n") {
		cut := " \t\r\n\v\f"
		for _, ch := range delim {
			cut = strings.Replace(cut, string(ch), "", -1)
		}
		l = strings.Trim(l, cut)
		if l == "" || limit > 0 && wr == limit {
			break
		}
		toks := strings.Split(l, delim)
		if wr > 0 && len(toks)-first != wc {
			bad = true
			break
		}
		wc = len(toks) - first
		for j := first; j < len(toks); j++ {
			x := def
			if toks[j] != "" {
				v, err := strconv.ParseFloat(toks[j], 64)
				if err != nil {
					bad = true
				}
				x = v
			}
			want = append(want, x)
		}
		if bad {
			break
		}
		wr++
	}
	m, err := mat.DenseMatFromCsv(bufio.NewReader(strings.NewReader(text)), limit, skip, delim, def)
	c.evals++
	if bad {
		if err == nil {
			c.Fail("csv %q (delimiter %q, skip %v, limit %d) is inconsistent and was accepted: %v", text, delim, skip, limit, m)
		}
		return
	}
	if err != nil {
		c.Fail("csv %q (delimiter %q, skip %v, limit %d) refused: %v", text, delim, skip, limit, err)
	}
	if wr == 0 {
		wc = 0
	}
	if m.Rows != wr || m.Cols != wc || !sameFloats(m.Values, want) {
		c.Fail("csv %q (delimiter %q, skip %v, limit %d, default %v) gives %v, expected %d x %d %v", text, delim, skip, limit, def, *m, wr, wc, want)
	}
}

func c24svm(c *Case) {
	r := c.R
	rows := r.Intn(5)
	skip := r.Intn(3) > 0
	limit := 0
	if r.Intn(3) == 0 {
		limit = r.Intn(7) - 1
	}
	dense := r.Intn(2) == 0
	w := 1 + r.Intn(4)
	var lines []string
	for i := 0; i < rows; i++ {
		l := ""
		if skip || r.Intn(6) == 0 {
			l = choose(r, "1", "0", "x", "1.5")
		}
		n := w
		if r.Intn(10) == 0 {
			n = r.Intn(5)
		}
		for j := 0; j < n; j++ {
			if l != "" {
				l += choose(r, " ", " ", " ", "  ", "   ")
			}
			col := j
			if !dense && r.Intn(3) == 0 || r.Intn(15) == 0 {
				col = r.Intn(9)
			}
			switch r.Intn(25) {
			case 0:
				l += choose(r, "3", "a:1", "1:x", "1:2:3", ":", "-1:2", "4294967296:1", "1.5:2")
			default:
				l += fmt.Sprintf("%d:%s", col, strconv.FormatFloat(r.NormFloat64(), 'g', -1, 64))
			}
		}
		lines = append(lines, choose(r, "", "", " ")+l+choose(r, "", "", " "))
	}
	text := strings.Join(lines, "\n") + choose(r, "", "\n", "\r\n", "\n\n1 0:5\n")
	c.Note("libsvm %q skip %v limit %d", text, skip, limit)
	first := 0
	if skip {
		first = 1
	}
	var vals []float64
	var cols []int
	hdr := []int{0}
	bad, badDense := false, false
	for _, l := range strings.SplitAfter(text, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || limit > 0 && len(hdr)-1 == limit {
			break
		}
		toks := strings.Split(l, " ")
		if len(toks) < 2 {
			bad = true
			break
		}
		k := 0
		for _, t := range toks[first:] {
			if t == "" {
				continue
			}
			p := strings.Split(t, ":")
			if len(p) != 2 {
				bad = true
				break
			}
			col, ok := refUint32(p[0])
			v, err := strconv.ParseFloat(p[1], 64)
			if !ok || err != nil {
				bad = true
				break
			}
			if int(col) != k {
				badDense = true
			}
			vals = append(vals, v)
			cols = append(cols, int(col))
			k++
		}
		if bad {
			break
		}
		hdr = append(hdr, len(vals))
		if hdr[len(hdr)-1]-hdr[len(hdr)-2] != hdr[1] {
			badDense = true
		}
	}
	s, err := mat.CSRMatFromLibsvm(bufio.NewReader(strings.NewReader(text)), limit, skip)
	d, err2 := mat.DenseMatFromLibsvm(bufio.NewReader(strings.NewReader(text)), limit, skip)
	c.evals += 2
	if (err == nil) == bad {
		c.Fail("libsvm %q (skip %v, limit %d): %v (expected to be accepted: %v)", text, skip, limit, err, !bad)
	}
	if (err2 == nil) == (bad || badDense) {
		c.Fail("libsvm %q (skip %v, limit %d) as dense matrix: %v", text, skip, limit, err2)
	}
	if err == nil && (!sameFloats(s.Values, vals) || !sameInts(s.ColIndexes, cols) || !sameInts(s.RowHeaders, hdr) || s.Rows() != len(hdr)-1) {
		c.Fail("libsvm %q (skip %v, limit %d) gives %v, expected %v %v %v", text, skip, limit, *s, hdr, cols, vals)
	}
	if err2 == nil {
		w := 0
		if len(hdr) > 1 {
			w = hdr[1]
		}
		if d.Rows != len(hdr)-1 || d.Cols != w || !sameFloats(d.Values, vals) {
			c.Fail("libsvm %q (skip %v, limit %d) gives %v, expected %d x %d %v", text, skip, limit, *d, len(hdr)-1, w, vals)
		}
	}
}
