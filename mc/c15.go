package main

import (
	"fmt"
	"os"
	"time"

	"verif/mc/scen"
)

const c15Doc = `{"a":{"b":[1,2,3],"c":"xyz"},"l":[{"k":1,"s":"ab","p":"a."},{"k":2,"s":"ba","p":"b"},{"k":"3","s":"[","p":"["}],"n":-1,"o":{"x":{"y":"01"}}}`
const c15Doc2 = `{"a":{"b":[3,1],"c":"a"},"l":[{"k":2,"s":"b","p":"x*"},{"k":5,"l":[1]}],"n":2,"o":{"z":[]}}`

// one path for each kind of order, of value and of shortcut
var c15Paths = []string{
	"$", "$.a.b", "$['a','o']", "$.*", "$.l[0,2]", "$.l[-1].k", "$.a.b[0:2]", "$.a.b[::2]", "$.l[(@.length-1)].s",
	"$.l[?(@.k>1)]", "$.l[?(@.s=~/a./)].k", "$.l[?(@.s=~'b')].s", "$.l[0:2][?(@.s=~@.p)]", "$.l[?(@.s=~@.p)].k", "$.l[?(nofn(@.k))]",
	"$.l[?(@.k in [1,'3',null])].k", "$.l[?(1 in @.k)]", "$..k", "$..[?(@.k)].s", "$..*", "$..[0]", "$..['k','s']", "$..b[1:]",
	"$.l[?(@.k*2+1>3&&!(@.s=='ba')||@.k%2==1)].k", "$.l[?(length(@.s)>1)].s", "$.l[?(contains(@.s,'a'))].k", "$.l[?(tokenize(@.s,'')[0]=='b')].k",
	"$.l[?(@.k==$.l[1].k)]", "$.l[*][?(@>1)]", "$.a.b[?(-@/2<-0.5)]", "$.a.b[?(@==3.0e0)]", "$.a.b[?(max([@,2])==2)]", "$.l[?(keys(@).length==3)].k", "$.l[?(to_number(@.k)==3)].k", "$.o..[?(@.y=='01')]",
	"$[", "$.a[?(@.b=~/(/)]",
}

// the few that go through most of the machine
var c15Few = []int{9, 12, 13, 17, 18, 23, 26}

func ev(p int) scen.Op { return scen.Op{Path: p} }
func co(p int) scen.Op { return scen.Op{Path: p, Compile: true} }

// scenario keeps just the paths that are used.
func scenario(paths, docs []string, late bool, clients ...[]scen.Op) *scen.Scenario {
	s := &scen.Scenario{Docs: docs, Late: late}
	at := map[int]int{}
	for _, cl := range clients {
		var ops []scen.Op
		for _, o := range cl {
			i, ok := at[o.Path]
			if !ok {
				i = len(s.Paths)
				at[o.Path] = i
				s.Paths = append(s.Paths, paths[o.Path])
			}
			o.Path = i
			ops = append(ops, o)
		}
		s.Clients = append(s.Clients, ops)
	}
	return s
}

func c15(c *Ctx) {
	d, err := buildDrivers(drvDir(os.TempDir()))
	if err != nil {
		fatal(err)
	}
	docs := []string{c15Doc}
	docs2 := []string{c15Doc, c15Doc2}
	n := len(c15Paths)
	mk := func(clients ...[]scen.Op) *scen.Scenario { return scenario(c15Paths, docs, false, clients...) }
	type ops = []scen.Op
	on := func(o scen.Op, doc int, own bool) scen.Op { o.Doc = doc; o.Own = own; return o }
	var same, pairs, comp, three, seq []*scen.Scenario
	for i := 0; i < n; i++ {
		same = append(same, mk(ops{ev(i), ev(i)}, ops{ev(i), ev(i)}))
		same = append(same, scenario(c15Paths, docs2, false, ops{ev(i), on(ev(i), 1, false)}, ops{on(ev(i), 1, true), ev(i)}))
		three = append(three, mk(ops{ev(i)}, ops{ev(i)}, ops{ev(i)}))
		three = append(three, mk(ops{ev(i)}, ops{ev(i)}, ops{co(i)}))
		for j := 0; j < n; j++ {
			if i < j {
				pairs = append(pairs, scenario(c15Paths, docs2, false, ops{ev(i), on(ev(j), 1, false)}, ops{ev(j), on(ev(i), 1, false)}))
			}
			comp = append(comp, mk(ops{ev(i)}, ops{co(j)}))
			if i <= j {
				comp = append(comp, mk(ops{co(i)}, ops{co(j)}))
			}
		}
	}
	for _, i := range c15Few {
		for _, j := range c15Few {
			for _, k := range c15Few {
				if i <= j && j <= k {
					three = append(three, mk(ops{ev(i)}, ops{ev(j)}, ops{ev(k)}))
				}
				seq = append(seq, scenario(c15Paths, docs2, false, ops{ev(i), ev(j), on(ev(k), 1, false)}, ops{on(ev(k), 1, true), co(i), ev(j)}))
			}
		}
	}
	max, limit := 1500, 1500*time.Millisecond
	reps := 10
	if c.thorough {
		max, limit = 200000, 60*time.Second
		reps = 300
		var deep []*scen.Scenario
		for _, i := range c15Few {
			for _, j := range c15Few {
				for _, k := range c15Few {
					for _, l := range c15Few {
						deep = append(deep, scenario(c15Paths, docs2, false, ops{ev(i), ev(j), ev(k)}, ops{ev(l), ev(k), on(ev(i), 1, false)}))
						if i <= j && j <= k && k <= l {
							deep = append(deep, mk(ops{ev(i)}, ops{ev(j)}, ops{ev(k)}, ops{ev(l)}))
							deep = append(deep, mk(ops{ev(i), ev(j)}, ops{ev(k), ev(l)}, ops{co(i), ev(l)}))
						}
					}
				}
			}
		}
		seq = append(seq, deep...)
	}
	all := append(append(append(append(append([]*scen.Scenario{}, same...), pairs...), comp...), three...), seq...)
	if d.inst != "" {
		c.Bound("instrumented: %d packages, %d files, %d go statements, %d channel operations, %d selects, %d imports of sync or sync/atomic, %d map ranges, %d package variables reset before each execution", d.stats.Packages, d.stats.Files, d.stats.Gos, d.stats.ChanOps, d.stats.Selects, d.stats.SyncImports, d.stats.MapRanges, d.stats.Globals)
	}
	c.scenarios(d, "two clients, two calls each, on one path", "explore", same, c.nw, max, limit)
	c.scenarios(d, "two clients, two calls each, on every two paths and two documents", "explore", pairs, c.nw, max, limit)
	c.scenarios(d, "evaluation or compilation of each path with compilation of each other", "explore", comp, c.nw, max, limit)
	c.scenarios(d, "three clients", "explore", three, c.nw, max, limit)
	c.scenarios(d, "longer sequences of calls", "explore", seq, c.nw, max, limit)
	c.scenarios(d, "all of these", "native", all, 4, reps, limit)
	var full, four []*scen.Scenario
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			full = append(full, mk(ops{ev(i)}, ops{ev(j)}))
		}
	}
	for a, i := range c15Few {
		for _, j := range c15Few[a:] {
			for k := 0; k < n; k++ {
				four = append(four, scenario(c15Paths, docs2, false, ops{ev(i)}, ops{on(ev(j), 1, false)}, ops{co(k), ev(k)}, ops{on(ev(k), 1, true)}))
			}
		}
	}
	c.scenarios(d, "two clients, with receiving taken to conflict with sending and closing", "full", full, c.nw, max, limit)
	c.scenarios(d, "four clients", "explore", four, c.nw, max, limit)
	if d.instErr != "" {
		fmt.Fprintln(os.Stderr, "mc: not explored under the controlled scheduler:", d.instErr)
		c.partial.Store(true)
		c.Bound("NOT explored under the controlled scheduler (%s): free runs only", firstLine(d.instErr))
	}
	c.Sample(mk(ops{ev(9), ev(12)}, ops{ev(12), ev(9)}))
}

func init() {
	register(&Check{ID: "C15", Level: "model_checking", Run: c15, Replay: replaySched,
		Rule:        "a controlled scheduler owns every goroutine, channel, lock and atomic operation of the implementation (its source is instrumented from the current tree); all interleavings of 2-3 clients that evaluate and compile over a pool of paths and documents are enumerated, up to commutation of independent operations (dynamic partial-order reduction); every call must return what the model returns for it alone, each explored interleaving is checked for data races by the race detector (which sees only the program's own synchronisation), and there must be no deadlock or panic; nontrivial traces are executions of scenarios with more than one interleaving",
		Assumptions: []string{"interleaving at synchronisation operations suffices because data races between them are themselves reported, on every explored interleaving", "the standard library's own synchronisation (regexp, strconv, ...) is not a scheduling point", "memory is sequentially consistent in an execution without data races"}})
}
