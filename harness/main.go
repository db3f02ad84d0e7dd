// Bounded cross-check of the properties against the real code: used to find a
// concrete failing input when an obligation fails, and as a sanity check of the
// specification. It is never counted as proof.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

type failure struct{ msg string }

// Case is one generated case.
type Case struct {
	R     *rand.Rand
	desc  []string
	evals int
	key   uint64
}

func (c *Case) Fail(f string, a ...interface{}) {
	panic(failure{fmt.Sprintf(f, a...)})
}

// Note records what the case looks like (also its identity for counting).
func (c *Case) Note(f string, a ...interface{}) {
	c.desc = append(c.desc, fmt.Sprintf(f, a...))
}

type prop struct {
	run  func(c *Case)
	rule string
	max  int // cases in quick tier
}

var props = map[string]prop{}

var (
	propFlag  = flag.String("prop", "", "property")
	seedFlag  = flag.Int64("seed", 1, "seed")
	timeFlag  = flag.Float64("time", 10, "seconds")
	casesFlag = flag.Int("cases", 0, "number of cases (0: until the time is up)")
	caseFlag  = flag.Int("case", -1, "run this case only")
	outFlag   = flag.String("out", "", "write the failing case here")
	progFlag  = flag.String("progress", "", "write the number of the running cases here")
	statFlag  = flag.String("stat", "", "write statistics here")
)

func newCase(id string, seed int64, i int) *Case {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", id, seed, i)
	return &Case{R: rand.New(rand.NewSource(int64(h.Sum64())))}
}

func runCase(p prop, c *Case) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				msg = f.msg
			} else {
				msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
		}
	}()
	p.run(c)
	return ""
}

type found struct {
	Case int      `json:"case"`
	Msg  string   `json:"what"`
	Desc []string `json:"input"`
}

func main() {
	flag.Parse()
	p, ok := props[*propFlag]
	if !ok {
		fmt.Println("no harness for", *propFlag)
		os.Exit(3)
	}
	if runtime.GOMAXPROCS(0) < 4 {
		runtime.GOMAXPROCS(4)
	}
	var mu sync.Mutex
	var best *found
	seen := map[uint64]bool{}
	var samples []interface{}
	evals := 0
	report := func(i int, c *Case, msg string) {
		mu.Lock()
		defer mu.Unlock()
		if best == nil || i < best.Case {
			best = &found{i, msg, c.desc}
		}
	}
	finish := func() {
		mu.Lock()
		defer mu.Unlock()
		if *statFlag != "" {
			b, _ := json.Marshal(map[string]interface{}{"evaluations": evals, "distinct_nontrivial": len(seen), "rule": p.rule, "samples": samples})
			os.WriteFile(*statFlag, b, 0644)
		}
		if best != nil {
			b, _ := json.MarshalIndent(best, "", " ")
			if *outFlag != "" {
				os.WriteFile(*outFlag, b, 0644)
			}
			fmt.Printf("FAILED case %d: %s\n", best.Case, best.Msg)
			os.Exit(1)
		}
		fmt.Printf("ok: %d cases\n", evals)
		os.Exit(0)
	}
	var next int64 = -1
	nw := runtime.NumCPU()
	if nw > 6 {
		nw = 6
	}
	if *caseFlag >= 0 {
		next = int64(*caseFlag) - 1
		*casesFlag = *caseFlag + 1
		nw = 1
	}
	running := make([]int64, nw)
	started := make([]int64, nw)
	for i := range running {
		running[i] = -1
	}
	saveProgress := func() {
		if *progFlag != "" {
			var l []int64
			for i := range running {
				l = append(l, atomic.LoadInt64(&running[i]))
			}
			b, _ := json.Marshal(l)
			os.WriteFile(*progFlag, b, 0644)
		}
	}
	deadline := time.Now().Add(time.Duration(*timeFlag * float64(time.Second)))
	go func() { // a call that never returns
		for {
			time.Sleep(time.Second)
			saveProgress()
			for i := range running {
				k := atomic.LoadInt64(&running[i])
				if k >= 0 && time.Now().UnixNano()-atomic.LoadInt64(&started[i]) > 40e9 {
					c := newCase(*propFlag, *seedFlag, int(k))
					report(int(k), c, "the call did not return within 40 s")
					finish()
				}
			}
		}
	}()
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if *casesFlag > 0 && i >= *casesFlag {
					return
				}
				if *casesFlag == 0 && time.Now().After(deadline) {
					return
				}
				mu.Lock()
				stop := best != nil
				mu.Unlock()
				if stop {
					return
				}
				atomic.StoreInt64(&started[w], time.Now().UnixNano())
				atomic.StoreInt64(&running[w], int64(i))
				c := newCase(*propFlag, *seedFlag, i)
				msg := runCase(p, c)
				atomic.StoreInt64(&running[w], -1)
				if msg != "" {
					report(i, c, msg)
					return
				}
				h := fnv.New64a()
				for _, d := range c.desc {
					h.Write([]byte(d))
				}
				mu.Lock()
				n := c.evals
				if n == 0 {
					n = 1
				}
				evals += n
				if len(c.desc) > 0 {
					seen[h.Sum64()] = true
				}
				if len(samples) < 3 && len(c.desc) > 0 {
					s := c.desc[0]
					if len(s) > 600 {
						s = s[:600] + "..."
					}
					samples = append(samples, s)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	finish()
}

// ---- comparisons ---------------------------------------------------------------

func same(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (a != a && b != b)
}

// close: equal up to rounding of a sum whose terms have the given magnitude
func closeTo(a, b, mag float64) bool {
	if same(a, b) || a == b {
		return true
	}
	if math.IsInf(mag, 0) || mag != mag {
		return true // inf-inf arithmetic: order of operations is not decided here
	}
	return math.Abs(a-b) <= 1e-11*(mag+1e-300)
}

func closeOut(trans string, a, b, mag float64) bool {
	if closeTo(a, b, mag) {
		return true
	}
	if trans == "raw" {
		return false
	}
	d := math.Abs(a - b)
	return d <= 1e-9*(1+mag)*math.Max(math.Abs(a), math.Abs(b)) || d < 1e-13
}

const sentinel = -987654.125

func buffer(n int) []float64 {
	b := make([]float64, n)
	for i := range b {
		b[i] = sentinel - float64(i)
	}
	return b
}

func isSentinel(b []float64, i int) bool { return b[i] == sentinel-float64(i) }
