package main

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"verif/mc/scen"
)

// Candidates: what filter E does with each is plain from its value. "1 in @" fails unless @ is an array.
var c16Cands = []string{`[1]`, `[2]`, `7`}

// loops, in all sequences of up to three
var c16Loops = []string{"[?(1 in @)]", "[?(@)]", "..[?(1 in @)]", "..[*]", "..[0]", "[*]", "..a"}

// what else may stop an evaluation, or follow a loop
var c16Paths = []string{
	"$[?(@.s=~'(')]", "$[?(@=~/1/)]", "$[?(nofn(@))]", "$[?(abs(@,1))]", "$..[?(nofn())]", "$[?(@[0]>0)][(nofn())]", "$[?(@)][?(nofn(@))]",
	"$..[?(@[0])][?(@ in 7)]", "$[0:9][?(1 in @)]", "$[?(1 in @||@>5)]", "$[?(@>5||1 in @)]", "$[?(@[?(1)])]", "$[?(@[(1 in 7)])]", "$[(1 in $[2])]",
	"$..[(1 in @)]", "$..['a',(1 in @)]", "$[?(1 in @)]..[?(@ in 1)]", "$.a..b[?(1 in @)]", "$", "$[", "$..*..*", "$..[0:1]", "$..[?(@)]..[?(@)]",
}

// shapes a list of candidates takes in a document
func c16Docs(max int) []string {
	var docs []string
	for _, l := range seqs(c16Cands, 0, max, ",") {
		docs = append(docs, "["+l+"]")
	}
	for _, l := range seqs(c16Cands, 0, 3, " ") {
		fs := strings.Fields(l)
		var o []string
		for i, f := range fs {
			o = append(o, fmt.Sprintf(`"%c":%s`, 'a'+i, f))
		}
		docs = append(docs, "{"+strings.Join(o, ",")+"}", "["+strings.Join(fs, ",[1],")+",[["+strings.Join(fs, ",")+"]]]")
	}
	return docs
}

func fixDoc(d string) string { return strings.NewReplacer("[,", "[", ",,", ",").Replace(d) }

// hangs begins the message of a history that does not end.
const hangs = "in a history of evaluations,"

// settle waits for the number of goroutines to come down to base.
func settle(base int) int {
	n := 0
	for i := 0; i < 400; i++ {
		n = runtime.NumGoroutine()
		if n <= base {
			return n
		}
		if i < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(5 * time.Millisecond)
		}
	}
	return n
}

// leak evaluates paths (one to a line) on doc in turn, many times, and tells whether all evaluations end, and how many goroutines they leave.
func leak(path, doc string, times int) string {
	var ps []*Prog
	for _, t := range strings.Split(path, "\n") {
		if p := compileBoth(t); p.Impl != nil {
			ps = append(ps, p)
		}
	}
	if len(ps) == 0 {
		return ""
	}
	v := decode(doc)
	base := settle(1)
	var done atomic.Int64
	end := make(chan bool)
	go func() {
		for i := 0; i < times; i++ {
			evalImpl(ps[i%len(ps)].Impl, v)
			done.Add(1)
		}
		close(end)
	}()
	for last, since := int64(-1), time.Now(); ; {
		select {
		case <-end:
		case <-time.After(time.Second):
			if n := done.Load(); n != last {
				last, since = n, time.Now()
			} else if time.Since(since) > 20*time.Second {
				return fmt.Sprintf("%s evaluation %d does not end", hangs, n+1)
			}
			continue
		}
		break
	}
	if n := settle(base); n > base {
		return fmt.Sprintf("%d evaluations left %d goroutines", times, n-base)
	}
	return ""
}

func c16(c *Ctx) {
	if !c.c16History() {
		return
	}
	if !c.c16Sizes() {
		return
	}
	d, err := buildDrivers(drvDir(os.TempDir()))
	if err != nil {
		fatal(err)
	}
	maxc, max, limit := 4, 1500, 1500*time.Millisecond
	if c.thorough {
		maxc, max, limit = 6, 100000, 30*time.Second
	}
	var docs []string
	for _, x := range c16Docs(maxc) {
		docs = append(docs, fixDoc(x))
	}
	docs = uniq(docs)
	var paths []string
	for _, l := range seqs(c16Loops, 1, 3, "") {
		paths = append(paths, "$"+l)
	}
	paths = append(paths, c16Paths...)
	type ops = []scen.Op
	var one, two []*scen.Scenario
	for i, p := range paths {
		// all documents for one loop, and those of up to 3 (2) candidates for two (three)
		loops := strings.Count(p, "[?") + strings.Count(p, "..") - strings.Count(p, "..[?")
		for _, x := range docs {
			if k := len(x); loops == 2 && k > 17 && !c.thorough || loops >= 3 && k > 11 {
				continue
			}
			one = append(one, scenario(paths, []string{x}, true, ops{ev(i)}))
			if len(x) < 14 && (i < len(c16Loops) || i >= len(paths)-len(c16Paths)) {
				two = append(two, scenario(paths, []string{x}, true, ops{ev(i)}, ops{ev(i)}))
			}
		}
	}
	c.scenarios(d, fmt.Sprintf("one evaluation of %d paths with 0-3 loops on documents of 0-%d candidates, each of which may stop it", len(paths), maxc), "explore", one, c.nw, max, limit)
	c.scenarios(d, "two evaluations at once", "explore", two, c.nw, max, limit)
	var small []*scen.Scenario
	for _, s := range one {
		if len(s.Docs[0]) <= 11 {
			small = append(small, s)
		}
	}
	c.scenarios(d, "the smaller of these, with a send and a receive on one channel taken to conflict", "full", small, c.nw, max, limit)
	if d.instErr != "" {
		fmt.Fprintln(os.Stderr, "mc: not explored under the controlled scheduler:", d.instErr)
		c.partial.Store(true)
		c.Bound("NOT explored under the controlled scheduler (%s): free runs only", firstLine(d.instErr))
	}
	c.Sample(one[0])
	// The real runtime: how many goroutines are left?
	base := settle(runtime.NumGoroutine())
	w := c.worker(0)
	defer func() { c.merge(w) }()
	type pd struct {
		p *Prog
		x int
	}
	n := 0
	var batch []pd
	flush := func() {
		if k := settle(base); k > base {
			// which of them?
			for _, b := range batch {
				lk := Case{Kind: "leak", Path: Text(b.p.Text), Doc: Text(docs[b.x]), N: 20}
				before := settle(base)
				for i := 0; i < 20; i++ {
					evalImpl(b.p.Impl, decode(docs[b.x]))
				}
				if k := settle(before); k > before {
					lk.Msg = fmt.Sprintf("20 evaluations left %d goroutines", k-before)
					c.Violation(lk)
					if c.Enough() {
						break
					}
				}
			}
			base = settle(base)
		}
		batch = batch[:0]
	}
	for _, p := range paths {
		pr := w.Prog(p)
		if pr.Impl == nil {
			continue
		}
		for x := range docs {
			if c.Late() || c.nviol > 5 {
				break
			}
			w.slot.begin('e', p, docs[x])
			evalImpl(pr.Impl, decode(docs[x]))
			w.slot.clear()
			w.traces++
			w.trans++
			n++
			batch = append(batch, pd{pr, x})
			if len(batch) == 64 {
				flush()
			}
		}
	}
	flush()
	c.Bound("real runtime: %d evaluations leave the number of goroutines unchanged, counted after each 64", n)
	// sizes: as many candidates as there can be, an error at the first, second, middle, last or none of them
	sizes := ints(upto(0, 40), around(12))
	if c.thorough {
		sizes = ints(upto(0, 300), around(17))
	}
	n = 0
	for _, size := range sizes {
		for _, at := range ints([]int{0, 1, size / 2, size - 1, size}) {
			for _, p := range []string{"$.c[?(1 in @)]", "$..[?(1 in @)]", "$.c[?(@)][?(nofn(@))]", "$..*", "$.c[?(@)]..[?(@ in 3)]"} {
				if at < 0 || c.Late() || c.nviol > 5 {
					continue
				}
				k := Case{Kind: "leaksize", Path: Text(p), N: size, Sched: []int{at}}
				w.slot.begin('l', jtext(k), "")
				if msg := leakSize(p, size, at); msg != "" {
					k.Msg = msg
					c.Violation(k)
				}
				w.slot.clear()
				w.traces++
				w.nontriv++
				n++
			}
		}
	}
	c.Bound("real runtime: %d evaluations over %d sizes up to %d candidates, stopped at the first, second, middle, last or none", n, len(sizes), sizes[len(sizes)-1])
}

// c16History runs long histories of evaluations, and is false if one of them hangs.
func (c *Ctx) c16History() bool {
	w := c.worker(0)
	defer func() { c.merge(w) }()
	one, many := 400, 20000
	if c.thorough {
		one, many = 20000, 1000000
	}
	var hs []Case
	for _, p := range []string{"$[?(1 in @)]", "$..[?(1 in @)]", "$[?(@)][?(nofn(@))]", "$..*", strings.Join(c16Paths, "\n")} {
		hs = append(hs, Case{Kind: "leak", Path: Text(p), Doc: "[[1],7,[1],7]", N: many / 4})
	}
	for _, p := range c16Paths {
		for _, x := range []string{"[[1],7,[1],7]", `{"a":[1],"b":"1","c":[7,[1]]}`, "[]"} {
			hs = append(hs, Case{Kind: "leak", Path: Text(p), Doc: Text(x), N: one})
		}
	}
	for _, k := range hs {
		w.slot.begin('l', jtext(k), "")
		msg := leak(string(k.Path), string(k.Doc), k.N)
		w.slot.clear()
		w.traces += k.N
		w.trans += k.N
		if msg != "" {
			k.Msg = msg
			c.Violation(k)
			if strings.HasPrefix(msg, hangs) {
				return false
			}
		}
	}
	c.Bound("real runtime: %d histories of %d-%d evaluations of one path, or of all in turn, with and without errors", len(hs), one, many/4)
	return true
}

// c16Dims: documents and paths that grow in depth, in loops and in the number of evaluations at once.
var c16Dims = map[string]func(n int) (paths []string, doc interface{}, clients int){
	"array-depth": func(n int) ([]string, interface{}, int) {
		ps := []string{"$..*", "$..[0]", "$..a", "$..[?(@)]", "$..[?(1 in @)]", "$..[?(@ in 7)]"}
		if n < 600 {
			ps = append(ps, "$..[0]..[0]") // it has n*n/2 results
		}
		return ps, list{wrap(n, "a", 7.0), 7.0, wrap(n/2, "a", list{1.0})}, 1
	},
	"object-depth": func(n int) ([]string, interface{}, int) {
		return []string{"$..*", "$..k", "$..[?(@)]", "$..[?(1 in @)]", "$..['k',(1 in @)]"}, object{"a": wrap(n, "o", 7.0), "b": 7.0}, 1
	},
	"width": func(n int) ([]string, interface{}, int) {
		return []string{"$..*", "$[?(@)]", "$..[?(1 in @)]", "$..[0,-1]", "$[*]..[?(@)]"}, append(fullList(n, list{1.0}), 7.0, list{2.0}), 1
	},
	"loops": func(n int) ([]string, interface{}, int) {
		n = n%400 + 1
		return []string{"$" + strings.Repeat("[?(@)]", n), "$" + strings.Repeat("[?(@)]", n-1) + "[?(1 in @)]", "$[0]" + strings.Repeat("[?(@)][*]", n), "$..[?(" + strings.Repeat("!", n) + "@)]"}, wrap(2*n+2, "a", 1.0), 1
	},
	"clients": func(n int) ([]string, interface{}, int) {
		return []string{"$..*", "$..[?(1 in @)]", "$..[?(@)][?(@)]", "$[?(@)]..[?(@)]"}, list{wrap(60, "a", 7.0), 7.0, wrap(30, "o", 7.0)}, n%200 + 1
	},
}

// endCase evaluates paths that grow with n, several at once, and tells whether all end and leave nothing behind.
func endCase(dim string, n int) string {
	paths, doc, clients := c16Dims[dim](n)
	for _, t := range paths {
		p, err, pan := compileImpl(t)
		if err != nil || pan != "" {
			continue // not this property's business
		}
		base := settle(1)
		var left atomic.Int64
		left.Store(int64(clients))
		end := make(chan bool)
		for i := 0; i < clients; i++ {
			go func() {
				evalImpl(p, doc)
				if left.Add(-1) == 0 {
					close(end)
				}
			}()
		}
		select {
		case <-end:
		case <-time.After(25 * time.Second):
			return fmt.Sprintf("%s %d of %d at once of %.60s on a document of size %d do not end", hangs, left.Load(), clients, t, n)
		}
		if k := settle(base); k > base {
			return fmt.Sprintf("%d evaluations at once of %.60s on a document of size %d left %d goroutines", clients, t, n, k-base)
		}
	}
	return ""
}

// c16Sizes is false if an evaluation does not end.
func (c *Ctx) c16Sizes() bool {
	w := c.worker(0)
	defer func() { c.merge(w) }()
	sizes := ints(upto(0, 70), around(14))
	if c.thorough {
		sizes = ints(upto(0, 600), around(17))
	}
	for _, dim := range []string{"array-depth", "object-depth", "width", "loops", "clients"} {
		for _, n := range sizes {
			if (dim == "loops" && n >= 400 || dim == "clients" && n >= 200) || c.Late() {
				continue
			}
			if dim == "array-depth" && n > 8300 {
				continue // comparison with each structure of so many takes time in proportion to the square
			}
			k := Case{Kind: "ends", Name: dim, N: n}
			w.slot.begin('l', jtext(k), "")
			msg := endCase(dim, n)
			w.slot.clear()
			w.traces++
			w.nontriv++
			if msg != "" {
				k.Msg = msg
				c.Violation(k)
				return false
			}
		}
	}
	c.Bound("real runtime: evaluations on documents of %d sizes up to %d deep or wide, with up to 400 loops in the path, and up to 200 at once", len(sizes), sizes[len(sizes)-1])
	return true
}

func leakSize(path string, size, at int) string {
	var l []string
	for i := 0; i < size; i++ {
		if i == at {
			l = append(l, strconv.Itoa(i))
		} else {
			l = append(l, "[1]")
		}
	}
	doc := `{"c":[` + strings.Join(l, ",") + `]}`
	p := compileBoth(path)
	v := decode(doc)
	base := settle(1)
	evalImpl(p.Impl, v)
	if n := settle(base); n > base {
		return fmt.Sprintf("an evaluation left %d goroutines", n-base)
	}
	return ""
}

func init() {
	register(&Check{ID: "C16", Level: "model_checking", Run: c16, Replay: func(k *Case) string {
		switch k.Kind {
		case "sched":
			return replaySched(k)
		case "leak":
			return leak(string(k.Path), string(k.Doc), k.N)
		case "ends":
			return endCase(k.Name, k.N)
		case "leaksize":
			return leakSize(string(k.Path), k.N, k.Sched[0])
		}
		return replayLadder(k)
	},
		Rule:        "every goroutine, channel, lock and atomic operation of the instrumented implementation is stepped by a controlled scheduler; in every interleaving (up to commutation) every evaluation must return, no client may be blocked for ever, and after the return no goroutine it started may be left blocked or at work (one that has only to finish is allowed); on the real runtime the number of goroutines must come back to what it was; nontrivial traces are executions of scenarios with more than one interleaving, and evaluations by size",
		Assumptions: []string{"an execution that is still running after 60000 synchronisation operations, or a process that is silent for a minute, does not end", "timers and input/output are not modelled: the implementation uses none"}})
}
