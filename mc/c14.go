package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verif/mc/ref"
)

const sentinel = "beyond the end"

// roomy copies v, giving every array spare capacity filled with sentinels: an append to an alias of it shows.
func roomy(v interface{}) interface{} {
	switch v := v.(type) {
	case []interface{}:
		l := make([]interface{}, len(v), len(v)+4)
		for i, e := range v {
			l[i] = roomy(e)
		}
		full := l[:cap(l)]
		for i := len(l); i < len(full); i++ {
			full[i] = sentinel
		}
		return l
	case map[string]interface{}:
		m := make(map[string]interface{}, len(v))
		for k, e := range v {
			m[k] = roomy(e)
		}
		return m
	}
	return v
}

// intact reports whether v still has the value of want and its sentinels.
func intact(v, want interface{}) bool {
	switch v := v.(type) {
	case []interface{}:
		w, ok := want.([]interface{})
		if !ok || len(v) != len(w) {
			return false
		}
		for i := range v {
			if !intact(v[i], w[i]) {
				return false
			}
		}
		if cap(v) < len(v)+4 {
			return false
		}
		full := v[:len(v)+4]
		for i := len(v); i < len(full); i++ {
			if full[i] != sentinel {
				return false
			}
		}
		return true
	case map[string]interface{}:
		w, ok := want.(map[string]interface{})
		if !ok || len(v) != len(w) {
			return false
		}
		for k, e := range v {
			x, ok := w[k]
			if !ok || !intact(e, x) {
				return false
			}
		}
		return true
	}
	return ref.Same(v, want)
}

// clobber overwrites a result and everything its extension would.
func clobber(r []interface{}) {
	for i := range r {
		r[i] = "clobbered"
	}
	r = append(r, "extended")
	r = r[:cap(r)]
	for i := range r {
		r[i] = "clobbered"
	}
}

// pureCase evaluates a path on a private document and looks for every way it could leak between evaluations.
func pureCase(p *Prog, text string, shared bool) string {
	pristine := decode(text)
	doc := roomy(pristine)
	if shared {
		doc = roomy(share(pristine, map[string]interface{}{}))
	}
	model := func(got []interface{}, err error, pan, when string) string {
		t, rerr := ref.Eval(p.Ref, pristine, ref.Quirks{})
		msg := disagree(got, err, pan, t, rerr)
		if msg == "" || pan != "" {
			return msg
		}
		t, rerr = ref.Eval(p.Ref, pristine, ref.Quirks{Eager: true})
		if disagree(got, err, pan, t, rerr) == "" {
			return ""
		}
		return when + ": " + msg
	}
	one, err, pan := evalImpl(p.Impl, doc)
	if msg := model(one, err, pan, "the first evaluation"); msg != "" {
		return msg
	}
	if !intact(doc, pristine) {
		return "evaluation changed the document"
	}
	two, err, pan := evalImpl(p.Impl, doc)
	if msg := model(two, err, pan, "the second evaluation"); msg != "" {
		return msg
	}
	keep := append([]interface{}(nil), two...)
	clobber(one)
	if !intact(doc, pristine) {
		return "changing a result changed the document"
	}
	for i := range keep {
		if !ref.Same(two[i], keep[i]) {
			return "changing a result changed another result"
		}
	}
	three, err, pan := evalImpl(p.Impl, doc)
	if msg := model(three, err, pan, "the evaluation after a result was changed"); msg != "" {
		return msg
	}
	clobber(two)
	other := roomy(pristine)
	four, err, pan := evalImpl(p.Impl, other)
	if msg := model(four, err, pan, "the evaluation of an equal document"); msg != "" {
		return msg
	}
	if msg := model(three, nil, "", "an earlier result after later ones"); three != nil && msg != "" {
		return msg
	}
	if !intact(doc, pristine) || !intact(other, pristine) {
		return "evaluation changed the document"
	}
	return ""
}

// share makes equal structures within v the same structure.
func share(v interface{}, seen map[string]interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		for i := range x {
			x[i] = share(x[i], seen)
		}
	case map[string]interface{}:
		for k := range x {
			x[k] = share(x[k], seen)
		}
	default:
		return v
	}
	k := jtext(v)
	if s, ok := seen[k]; ok {
		return s
	}
	seen[k] = v
	return v
}

var c14Steps = []string{
	".a", ".b", ".*", "..a", "..*", "[0]", "[-1]", "[*]", "..[*]", "[0,1]", "['a','b','a']", "[:]", "[1:]", "[:1]", "[0:0]", "[::-1]", "[::2]", "..[0:1]", "..[:]", "[(0)]", "[('a')]", "[0,1:,(1)]", "..['a',0]",
	"[?(@)]", "[?(@.a)]", "[?(@.a==1)]", "..[?(@)]", "..[?(@.a)]", "[?([@][0]!=@[0])]", "[?([@]==[@])]", "[?(@[0]==@[-1])]", "[?([@,@][0])]", "[?(@ in [@])]", "[?(@ in $.a)]", "[?(max(@)||min(@)||1)]", "[?(sum(@)||avg(@)||1)]", "[?(keys(@)||1)]", "[?(max($.n)==3)]", "[?(length(tokenize('c b a',' '))==3)]", "[?(contains($.n,1))]", "[?(@=~'(')]", "[?(@.s=~@.p)]", "[?(1 in 2)]", "[(max($.n)-2)]", "[?([$.n,@][0][0]==3)]",
}

var c14Docs = []string{
	`{"a":[3,1,2],"b":{"a":1,"b":[[2],[1]]},"n":[3,1,2]}`,
	`[[3,1,2],[3,1,2],{"a":[1],"b":{"a":[1]}},"s",null]`,
	`{"a":{"a":{"a":[1,{"a":2}]},"b":[]},"b":[{"a":1,"s":"x","p":"x"},{"a":1,"s":"x","p":"("}],"n":[3,1,2]}`,
	`{"a":["z","y",["x"]],"b":["z","y",["x"]],"n":[3,1,2],"e":{},"f":[],"g":[{}],"h":[[]]}`,
	`[]`, `[[],[],{},[{}],[[]]]`, `7`,
}

// c14Fill makes the elements of sized arrays and objects, none of them in order.
var c14Fill = []func(i int) string{
	func(i int) string { return fmt.Sprint(i) },
	func(i int) string { return fmt.Sprintf("%q", "s"+fmt.Sprint(i)) },
	func(i int) string { return fmt.Sprintf("[%d,[%d]]", i, -i) },
	func(i int) string { return fmt.Sprintf(`{"b":%d,"a":[%d]}`, i%3, i) },
	func(i int) string {
		return []string{"null", "true", fmt.Sprint(i), `"x"`, `[2,1]`, `{"a":1}`, "1.5", `["b","a"]`}[i%8]
	},
}

var c14Big = []string{
	"$.a", "$.a[*]", "$.o.*", "$..*", "$..a", "$.a[1:-1]", "$.a[::-1]", "$.a[::2]", "$.a[*][0]", "$.a[:][1:]", "$..[1:]", "$.a[0,1,-1]", "$.a[*].a[0]", "$..[?(@.b)]", "$.a[?(@.b)].a", "$.*[?(@)]", "$.a[?(@>2)]", "$.a[?(@ in $.a)]", "$.a[?(@==$.a[1])]", "$.a[?([@]!=[1])]", "$.o[?(@ nin $.a)]",
	"$[?(@==$.a)]", "$[?(@!=$.o)]", "$[?(max(@)||1)]", "$[?(min(@)||1)]", "$[?(sum(@)||1)]", "$[?(avg(@)||1)]", "$[?(prod(@)||1)]", "$[?(length(@))]", "$[?(keys(@)||1)]", "$[?(contains(@,2)||1)]", "$[?(contains(@,'s1')||1)]", "$[?(contains($.a,$.a[2])||1)]", "$[?(abs(@)||to_number(@)||1)]", "$[?(max(max($.a),min($.a))||1)]", "$.a[?(contains($.a,@))]", "$.a[?(max($.a)==@)]", "$.a[?(min($.a)==@)]", "$[?(max(keys($.o))=='k1')]", "$[?([$.a,@][0][0]||1)]", "$.a[(max($.a)||0)]", "$.a[?(@<$.a[1])]", "$.a[?(max(@)==max(@))]", "$..[?(max(@)==1||min(@)==1)]",
}

func (w *Worker) pure(p *Prog, d string) {
	for _, sh := range []bool{false, true} {
		k := Case{Kind: "pure", Path: Text(p.Text), Doc: Text(d)}
		if sh {
			k.N = 1
		}
		w.one(k, func() string { return pureCase(p, d, sh) })
		w.traces += 3
		w.trans += len(p.Ref.Steps) * 4
	}
}

// ---- histories of operations

type opSet struct {
	paths []string
	docs  []string
}

var c14Sets = []opSet{
	{[]string{"$.a[*]", "$..a", "$.a[?(@==1)]"}, []string{`{"a":[1,2]}`, `{"a":[1,2]}`}},
	{[]string{"$", "$.*", "$[?(@.s=~@.p)]"}, []string{`[{"s":"a","p":"a"}]`, `[{"s":"a","p":"("}]`}},
	{[]string{"$.a[1:]", "$.a[0:2][0]", "$..[?(@.a[-1]==1)]"}, []string{`{"a":[[1],[2],3]}`, `{"a":[3,2,1]}`}},
	{[]string{"$.a", "$['a']", "$[(\"a\")]"}, []string{`{"a":1,"b":2}`, `{"b":1,"a":2}`}},
	{[]string{"$[?(@==1.5)]", "$[?(@=='1.5')]", "$[?(@=='1.5'||@==15)]"}, []string{`[1.5,"1.5",15]`, `["1.5",15,1.5]`}},
	{[]string{"$..[0]", "$..[?(max($.n)==@[0])]", "$.n[(length($.n)-1)]"}, []string{`{"n":[2,[9],1]}`, `{"n":[[[1]],5]}`}},
	{[]string{"$.a[?(@ in $.b)]", "$.a[?(@ nin $.b)]", "$[?(contains($.b,@[0]))]"}, []string{`{"a":[1,2],"b":[2,[1]]}`, `{"a":[2],"b":7}`}},
	{[]string{"$[?(@=~$[0])]", "$[?(@=~'^a')]", "$[?(@=~/a$/)]"}, []string{`["a","ba","ab"]`, `["(","a"]`}},
}

// mutate changes the document in place, in a way that every path of the set may see.
func mutate(v interface{}, n int) {
	switch v := v.(type) {
	case []interface{}:
		if len(v) > 0 {
			if n%2 == 0 {
				v[0], v[len(v)-1] = v[len(v)-1], v[0]
			} else {
				v[0] = "new"
			}
		}
	case map[string]interface{}:
		for _, k := range []string{"a", "n"} {
			if l, ok := v[k].([]interface{}); ok {
				mutate(l, n)
			} else if n%2 == 0 {
				v[k] = []interface{}{float64(n), 1.0}
			} else {
				delete(v, k)
			}
		}
	}
}

func (s opSet) nops() int { return len(s.paths)*len(s.docs) + len(s.docs)*2 + 1 + 1 }

func (s opSet) describe(op int) string {
	np, nd := len(s.paths), len(s.docs)
	switch {
	case op < np*nd:
		return fmt.Sprintf("eval %s on doc %d", s.paths[op/nd], op%nd)
	case op < np*nd+nd:
		return fmt.Sprintf("modify doc %d in place", op-np*nd)
	case op < np*nd+2*nd:
		return fmt.Sprintf("replace doc %d by a copy", op-np*nd-nd)
	case op == np*nd+2*nd:
		return "overwrite and extend the last result"
	}
	return "compile all the paths again"
}

// opsCase runs a history of operations.
func opsCase(set int, ops []int) string {
	s := c14Sets[set]
	np, nd := len(s.paths), len(s.docs)
	var progs []*Prog
	for _, t := range s.paths {
		p := compileBoth(t)
		if msg := p.compileVerdict(); msg != "" {
			return t + ": " + msg
		}
		if p.Impl == nil {
			panic("harness: bad path " + t)
		}
		progs = append(progs, p)
	}
	docs := make([]interface{}, nd)
	for i, t := range s.docs {
		docs[i] = decode(t)
	}
	type res struct {
		got, keep []interface{}
		live      bool
	}
	var results []res
	for i, op := range ops {
		at := func(msg string) string {
			var h []string
			for _, o := range ops[:i+1] {
				h = append(h, s.describe(o))
			}
			return strings.Join(h, "; ") + ": " + msg
		}
		switch {
		case op < np*nd:
			p, d := progs[op/nd], docs[op%nd]
			before := jtext(d)
			got, err, pan := evalImpl(p.Impl, d)
			t, rerr := ref.Eval(p.Ref, d, ref.Quirks{})
			if msg := disagree(got, err, pan, t, rerr); msg != "" {
				t, rerr = ref.Eval(p.Ref, d, ref.Quirks{Eager: true})
				if disagree(got, err, pan, t, rerr) != "" {
					return at(msg)
				}
			}
			if jtext(d) != before {
				return at("evaluation changed the document")
			}
			results = append(results, res{got, append([]interface{}(nil), got...), true})
		case op < np*nd+nd:
			mutate(docs[op-np*nd], i)
		case op < np*nd+2*nd:
			n := op - np*nd - nd
			docs[n] = decode(jtext(docs[n]))
		case op == np*nd+2*nd:
			for n := len(results) - 1; n >= 0; n-- {
				if results[n].live {
					before := jtext(docs)
					results[n].live = false
					clobber(results[n].got)
					if jtext(docs) != before {
						return at("changing a result changed a document")
					}
					break
				}
			}
		default:
			for n := range progs {
				q := compileBoth(progs[n].Text)
				if msg := q.compileVerdict(); msg != "" {
					return at(msg)
				}
				progs[n] = q
			}
		}
		for n, r := range results {
			if !r.live {
				continue
			}
			if len(r.got) != len(r.keep) {
				return at("an earlier result changed")
			}
			for j := range r.got {
				if !identical(r.got[j], r.keep[j]) {
					return at(fmt.Sprintf("the result of evaluation %d changed", n+1))
				}
			}
		}
	}
	return ""
}

// identical: the same element of the same document (whose contents the history may have changed)
func identical(a, b interface{}) bool {
	switch a.(type) {
	case []interface{}, map[string]interface{}:
		return fmt.Sprintf("%p", a) == fmt.Sprintf("%p", b)
	}
	return ref.Same(a, b)
}

func (c *Ctx) opHistories(depth int) {
	for set, s := range c14Sets {
		n := s.nops()
		total := 1
		for i := 0; i < depth; i++ {
			total *= n
		}
		c.Parallel(n*n, func(w *Worker, lead int) {
			ops := make([]int, depth)
			ops[0], ops[1] = lead/n, lead%n
			if depth == 1 {
				return
			}
			var rec func(i int)
			rec = func(i int) {
				if i == depth {
					k := Case{Kind: "ops", N: set, Sched: append([]int(nil), ops...)}
					w.slot.begin('l', jtext(k), "")
					msg := opsCase(set, ops)
					w.slot.clear()
					w.traces++
					w.nontriv++
					w.trans += depth
					if len(w.states) < maxStates {
						w.states[hashInts(set, ops)] = struct{}{}
					}
					if msg != "" {
						k.Msg = msg
						c.Violation(k)
					}
					return
				}
				if i == depth-2 && c.Late() {
					return
				}
				for o := 0; o < n; o++ {
					ops[i] = o
					rec(i + 1)
				}
			}
			rec(2)
		})
		c.Bound("path set %d: all %d histories of %d of %d operations (evaluate, modify the document in place, copy it, overwrite and extend a result, compile again)", set, total, depth, n)
	}
}

func hashInts(seed int, v []int) uint64 {
	h := uint64(seed)*1099511628211 + 17
	for _, x := range v {
		h = (h ^ uint64(x+1)) * 1099511628211
		h ^= h >> 29
	}
	return h
}

// ---- fresh processes

var freshPaths = []string{
	"$.a", "$['a']", "$.b", "$..a", "$[0]", "$.*", "$[?(@.a==1)]", "$[?(@.a=='1')]", "$[?(@.a==1.0)]", "$[?(@.s=~/a/)]", "$[?(@.s=~@.p)]", "$[?(@.s=~'a')]", "$[1:]", "$[?(nofn(@))]", "$[?(", "$[(length($)-1)]", "$[?(max(@.l)==2)]", "$[?(min(@.l)==1)]", "$[?(1 in @.l)]", "$[?(@.a in [1,'1'])]", "$..[?(@.a)]", "$[?(@.n==9007199254740993)]", "$[?(keys(@)||1)]", "$[?(1.5<2)]",
}

const freshDoc = `[{"a":1,"b":2,"s":"a","p":"a","l":[2,1]},{"a":"1","s":"b","p":"b","l":["1"],"n":9007199254740992},{"a":{"a":1},"s":"ba","p":"^a","l":[]}]`
const freshDoc2 = `{"a":[1],"b":{"a":2},"0":3}`

// freshHistories runs every history of up to depth evaluations in a process of its own.
func (c *Ctx) freshHistories(paths []string, depth int) {
	dir, err := os.MkdirTemp("", "mc-fresh-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var idx []string
	for i := range paths {
		idx = append(idx, strconv.Itoa(i))
	}
	hs := seqs(idx, depth, depth, ",")
	c.Bound("all %d histories of %d of %d paths, each in a process of its own, on two documents", len(hs), depth, len(paths))
	c.Parallel(len(hs), func(w *Worker, i int) {
		var ops []Text
		for _, s := range strings.Split(hs[i], ",") {
			n, _ := strconv.Atoi(s)
			ops = append(ops, Text(paths[n]), freshDoc, Text(paths[n]), freshDoc2)
		}
		k := Case{Check: c.check.ID, Kind: "fresh", Ops: ops}
		file := filepath.Join(dir, strconv.Itoa(i))
		b, _ := json.Marshal(k)
		os.WriteFile(file, b, 0o644)
		var out bytes.Buffer
		cmd := exec.Command(os.Args[0], "replay", file)
		cmd.Stdout, cmd.Stderr = &out, &out
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
		err := cmd.Run()
		os.Remove(file)
		w.traces++
		w.nontriv++
		w.trans += len(ops)
		w.states[hashString(hs[i])] = struct{}{}
		if err != nil {
			k.Msg = firstLine(out.String())
			c.Violation(k)
		}
	})
}

// repeatCase evaluates paths again and again: n times, with n other paths and documents in between.
func repeatCase(mode string, n int) string {
	listed := listedFindings("C14")
	check := func(p *Prog, v interface{}, i int) string {
		if o := compareEval(p, v, &ref.Machine{Root: v}); o.msg != "" && !listed[o.finding] {
			return fmt.Sprintf("evaluation %d of %s: %s", i+1, p.Text, o.msg)
		}
		return ""
	}
	doc := decode(freshDoc)
	small := decode(`[{"a":1,"l":[2,1],"s":"a","p":"a"},{"a":"1","s":"b","p":"("}]`)
	switch mode {
	case "same":
		for _, t := range []string{"$..[?(@.a)].a", "$[?(@.a==1)]", "$[?(@.s=~@.p)]", "$[0,1:]['a','s']"} {
			p := compileBoth(t)
			for i := 0; i < n; i++ {
				if msg := check(p, small, i); msg != "" {
					return msg
				}
			}
		}
	case "paths":
		first := compileBoth("$[?(@.a==1)].s")
		for i := 0; i < n; i++ {
			v := map[string]interface{}{"k" + strconv.Itoa(i): float64(i), "l": []interface{}{float64(i), "k" + strconv.Itoa(i)}}
			for _, t := range []string{"$.k%d", "$.l[?(@==%d)]", "$.l[?(@=='k%d')]", "$.l[?(@==%d.5-0.5)]"} {
				p := compileBoth(fmt.Sprintf(t, i))
				if msg := p.compileVerdict(); msg != "" {
					return msg
				}
				if msg := check(p, v, i); msg != "" {
					return msg
				}
			}
			if i%64 == 0 || i == n-1 {
				if msg := check(first, doc, i); msg != "" {
					return msg
				}
			}
		}
	case "documents":
		p, q := compileBoth("$..[?(@.a)].a"), compileBoth("$.l[-1]")
		for i := 0; i < n; i++ {
			v := map[string]interface{}{"a": float64(i), "l": []interface{}{float64(i), float64(-i)}}
			if msg := check(p, v, i); msg != "" {
				return msg
			}
			if msg := check(q, v, i); msg != "" {
				return msg
			}
		}
	case "errors":
		p, q := compileBoth("$[?(@.s=~@.p)]"), compileBoth("$[?(@.a)].a")
		for i := 0; i < n; i++ {
			if msg := check(p, small, i); msg != "" {
				return msg
			}
			if msg := check(q, small, i); msg != "" {
				return msg
			}
			if r := compileBoth("$[?(@.a" + strings.Repeat("(", i%5+1)); r.compileVerdict() != "" {
				return r.compileVerdict()
			}
		}
	}
	return ""
}

func c14(c *Ctx) {
	max := 2
	if c.thorough {
		max = 3
	}
	paths := prefixed("$", seqs(c14Steps, 0, max, ""), "")
	c.Bound("all %d paths of <= %d of %d steps on %d documents with spare capacity, and with equal structures shared: document, results, later evaluations and equal documents compared after overwriting and extending each result", len(paths), max, len(c14Steps), len(c14Docs))
	c.Parallel(len(paths), func(w *Worker, i int) {
		p := w.Compile(paths[i])
		if p == nil {
			return
		}
		for _, d := range c14Docs {
			if c.Late() {
				return
			}
			w.pure(p, d)
		}
	})
	// expressions over document arrays
	var exprs []string
	args := []string{"@", "$.n", "@[0]", "@.a", "[@]", "[@,$.n][1]", "$"}
	for f, n := range ref.Arity {
		for _, a := range args {
			if n == 2 {
				for _, b := range args {
					exprs = append(exprs, f+"("+a+","+b+")")
				}
			} else {
				exprs = append(exprs, f+"("+a+")")
			}
		}
	}
	for _, op := range []string{"==", "!=", "<", "+", "&&", "||"} {
		for _, a := range args {
			for _, b := range args {
				exprs = append(exprs, a+op+b)
			}
		}
	}
	for _, a := range args {
		exprs = append(exprs, a+" in $.a", "1 nin "+a, a+"[0]", a+"[-1].a", a+".length", "["+a+","+a+"]=="+a)
	}
	c.Bound("%d operators and function calls over arrays of the document", len(exprs))
	c.Parallel(len(exprs), func(w *Worker, i int) {
		for _, x := range []string{"$.*[?((E)||1)]", "$..[?(E)]", "$[(E)]"} {
			p := w.Compile(strings.ReplaceAll(x, "E", exprs[i]))
			if p == nil {
				return
			}
			for _, d := range c14Docs {
				w.pure(p, d)
			}
		}
	})
	// the sized families of the other checks, and functions and operators over arrays of every kind
	top := 24
	if c.thorough {
		top = 70
	}
	var names []string
	for name := range ladders {
		names = append(names, name)
	}
	sort.Strings(names)
	c.Bound("the %d sized families of all the checks, and %d paths over arrays and objects of %d kinds, at sizes 0..%d: documents, results and later evaluations compared", len(names), len(c14Big), len(c14Fill), top)
	c.Parallel(top*len(names), func(w *Worker, i int) {
		for _, x := range ladders[names[i%len(names)]](1 + i/len(names)) {
			if p := w.Compile(x.path); p != nil && !c.Late() {
				w.pure(p, x.doc)
			}
		}
	})
	sizes := ints(upto(0, top), []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300})
	c.Parallel(len(sizes)*len(c14Big), func(w *Worker, i int) {
		p := w.Compile(c14Big[i%len(c14Big)])
		if p == nil {
			return
		}
		n := sizes[i/len(c14Big)]
		for _, f := range c14Fill {
			if c.Late() {
				return
			}
			var l, o []string
			for j := 0; j < n; j++ {
				e := f((j*7 + 3) % (n + 1))
				l = append(l, e)
				o = append(o, fmt.Sprintf("%q:%s", "k"+strconv.Itoa(n-j), e))
			}
			w.pure(p, `{"a":[`+strings.Join(l, ",")+`],"o":{`+strings.Join(o, ",")+`}}`)
		}
	})
	depth := 5
	if c.thorough {
		depth = 6
	}
	c.opHistories(3)
	c.opHistories(depth)
	c.freshHistories(freshPaths, 2)
	if c.thorough {
		c.freshHistories(freshPaths[:16], 3)
	}
	reps := []int{1, 2, 3, 10, 300, 5000, 70000}
	if c.thorough {
		reps = append(reps, 200000)
	}
	modes := []string{"same", "paths", "documents", "errors"}
	c.Bound("%v evaluations in one process of the same path and document, of ever new paths, of ever new documents, and around errors, each compared", reps)
	c.Parallel(len(modes)*len(reps), func(w *Worker, i int) {
		k := Case{Kind: "repeat", Name: modes[i%len(modes)], N: reps[i/len(modes)]}
		w.one(k, func() string { return repeatCase(k.Name, k.N) })
		w.traces += k.N
	})
	c.Sample(c14Sets[0].describe(0))
}

func c14Replay(k *Case) string {
	switch k.Kind {
	case "pure":
		p := compileBoth(string(k.Path))
		if p.Impl == nil {
			return p.compileVerdict()
		}
		return pureCase(p, string(k.Doc), k.N == 1)
	case "ops":
		return opsCase(k.N, k.Sched)
	case "fresh":
		return histCase(k.Ops, false)
	case "repeat":
		return repeatCase(k.Name, k.N)
	}
	return replayLadder(k)
}

func init() {
	register(&Check{ID: "C14", Level: "model_checking", Run: c14, Replay: c14Replay,
		Rule: "every bounded history of operations (compile, evaluate, modify a document, overwrite and extend a result) is executed; after each one the documents, all earlier results and the model's list are compared"})
}
