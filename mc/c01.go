package main

import (
	"fmt"
	"strings"

	"verif/mc/ref"
)

func refMachine(w *Worker, doc interface{}) *ref.Machine { return &ref.Machine{Root: doc} }

var c01Steps = []string{
	".a", ".b", ".*", ".0", ".1", ".-1", ".z",
	"[0]", "[1]", "[-1]", "[2]", "[-2]", "[9]", "[-9]",
	"['a']", `["b"]`, "[a]", "['0']", "['-1']", "[*]",
	"[0,1]", "[1,0]", "['a','b']", "['b','a']", "[0,'a']", "['a',0]", "[-1,0]", "[0,0]", "['a','a']", "[9,0]", "['z','a',-1]",
	"[('a')]", "[('b')]", "[(0)]", "[(1)]", "[(-1)]", "[(1-2)]", "[($.i)]", "[($.k)]", "[($[0])]", "[(1.0)]", "[(0.9)]", "[(-0.5)]", "[(-1.5)]",
	"[($.z)]", "[('0')]", "[('z')]", "[(9)]", "[(-9)]", "[(null)]", "[(true)]", "[(1/0)]", "[('1')]",
	"[(@)]", "[(@==null&&'a'||'b')]", "[(@.length-1)]",
	".('a')", ".(0)", ".(-1)", ".($.k)", ".($.i)", ".(1-1)",
}

// documents with keys that look like indices, keys addressed by other parts of the document, and mixtures of kinds
var c01Docs = []string{
	`{"a":[10,[11,12,{"a":13,"b":14}],{"a":15,"b":[16,17]}],"b":{"a":[18,{"a":19}],"b":[],"0":20,"1":21,"-1":22},"i":1,"k":"b"}`,
	`{"0":"zero","1":{"0":"one-zero","-1":"x"},"-1":"minus","a":{"0":30,"1":31,"-1":32,"a":{"a":33}},"i":-1,"k":"a"}`,
	`[[1,2,3],{"a":4,"b":[5,6,{"a":7}]},8,"str",null,true,[[9],[10,11]]]`,
	`[0,[[[12,13],[14]],{"a":[15,16]}],{"a":{"a":{"a":17,"b":18},"b":19},"b":[{"a":20},{"b":21},[22]]}]`,
	`{"i":1.9,"k":"0","a":[1,2,{"0":3}],"0":[4,5],"b":null}`,
	`{"i":0,"k":"i","a":"string","b":false}`,
	`{"":1,"a":{"":2},"z":0,"true":3,"null":4,"i":null,"k":[1],"9":5}`,
	`[[],{},[[]],[{}],{"a":[]},{"a":{}},null,"",0,false]`,
	`[1,"one",[1,"one"],{"a":1,"b":1},{"a":1,"b":1},1]`,
	`"scalar"`, `null`, `0`, `true`, `[]`, `{}`,
}

func c01(c *Ctx) {
	n := 5
	if c.thorough {
		n = 6
	}
	docs := uniq(append(treeDocs(n, number), treeDocs(4, mixed)...))
	docs = append(c01Docs, docs...)
	c.Bound("step alphabet: %d; documents: all %d trees with <= %d nodes, plus %d rich documents", len(c01Steps), len(docs), n, len(c01Docs))
	paths := append([]string{"$"}, prefixed("$", seqs(c01Steps, 1, 2, ""), "")...)
	c.Bound("all %d paths of <= 2 steps on all documents", len(paths))
	for _, i := range []int{1, 20, 300, 1200} {
		c.Sample(map[string]string{"path": paths[i], "doc": docs[i%len(docs)]})
	}
	c.Grid(paths, docs)
	three := prefixed("$", seqs(c01Steps, 3, 3, ""), "")
	c.Bound("all %d paths of 3 steps on the rich documents", len(three))
	c.Grid(three, c01Docs)
	if c.thorough {
		four := prefixed("$", seqs(c01Core, 4, 4, ""), "")
		c.Bound("all %d paths of 4 steps over %d core steps on the rich documents", len(four), len(c01Core))
		c.Grid(four, c01Docs)
	}
	// numbers kept as texts by json.Decoder.UseNumber: steps pass scalars on as they are
	var texts []string
	for _, d := range uniq(append(treeDocs(4, number), `[1,{"a":0,"b":[1e400,-0,0.10]},[[2],{"a":{"a":100000000000000000001}}]]`, `{"a":0,"b":{"a":1,"b":[0]},"0":3}`, `7`)) {
		texts = append(texts, "#"+d)
	}
	var pure []string
	for _, s := range append([]string{"..a", "..*", "..[0]", "..['a','b']", "[1:]", "[::-1]", "..[:2]", "[?(true)]", "..[?(true)]", "[?(@.a||true)]"}, c01Steps...) {
		if !strings.Contains(s, "(") || strings.Contains(s, "true)]") {
			pure = append(pure, s)
		}
	}
	opaque := append([]string{"$"}, prefixed("$", seqs(pure, 1, 2, ""), "")...)
	c.Bound("all %d paths of <= 2 steps over %d steps on %d documents decoded with UseNumber", len(opaque), len(pure), len(texts))
	c.Grid(opaque, texts)
	// every kind of step before every kind: what one leaves behind must not show in the next
	kinds := []string{".a", ".*", "[0]", "[-1]", "[0,'a']", "['b','a']", "[1:]", "[::-1]", "..a", "..*", "..[0]", "..[0,'b']", "..[1:]", "..[?(@)]", "..[?(@.a)]", "..[('a')]", "..[(@==null&&'a'||'b')]", "[?(@)]", "[?(@.a)]", "[?(@.b==null)]", "[('a')]", "[(0)]", "[(@)]", "[(@==null&&'a'||'b')]", "[(@&&0||1)]", "[(@.a&&'b'||'a')]", "[(@[0]&&0||-1)]", "['a',(@&&'a'||'b')]", "[(1),?(@)]"}
	max := 3
	if c.thorough {
		max = 4
	}
	mix := prefixed("$", seqs(kinds, 1, max, ""), "")
	c.Bound("all %d paths of <= %d steps over %d steps of every kind on %d documents", len(mix), max, len(kinds), len(c01Docs))
	c.Grid(mix, c01Docs)
	// unions: every list of up to 4 elements over a core
	var unions []string
	un := []string{"0", "1", "-1", "'a'", "'b'", "9", "a", "'z'", "1:", ":-1", "::-1", "?(@.a)", "(0)", "(@&&'a')"}
	max = 4
	if c.thorough {
		max = 5
	}
	for _, u := range seqs(un, 2, max, ",") {
		unions = append(unions, "$["+u+"]", "$[*]["+u+"]")
	}
	c.Bound("all %d unions of 2..%d elements over %d", len(unions), max, len(un))
	c.Grid(unions, c01Docs)
	sizes := ints(upto(0, 140), around(10))
	if c.thorough {
		sizes = ints(upto(0, 300), around(15))
	}
	c.Bound("ladders at sizes %d..%d (%d sizes)", sizes[0], sizes[len(sizes)-1], len(sizes))
	c.Ladder(sizes, "array-index", "object-width", "steps", "union-index", "union-name", "fan-out")
	c.Far("array-index", "object-width", "steps", "union-index", "union-name", "fan-out")
}

var c01Core = []string{".a", ".*", "[0]", "[-1]", "['b']", "[0,'a']", "[('a')]", "[(1)]", "[($.i)]", ".(0)", "[1]", ".0", "['a','b']", "[(-1)]", "[0,1]"}

func init() {
	register(&Check{ID: "C01", Level: "model_checking", Run: c01, Replay: replayLadder,
		Rule: "every path of the bounded step alphabet is evaluated by the reference model and by Eval on every document; states are distinct (document, steps taken, selection) configurations of the model; a trace is nontrivial if it selects something"})

	ladders["array-index"] = func(n int) []pair {
		d := numArray(n)
		ps := []pair{{"$[*]", d}, {"$.*", d}}
		for _, i := range ints(upto(0, 3), []int{n / 2, n - 2, n - 1, n, n + 1, 2 * n}) {
			if i < 0 {
				continue
			}
			ps = append(ps, pair{fmt.Sprintf("$[%d]", i), d}, pair{fmt.Sprintf("$[-%d]", i), d}, pair{fmt.Sprintf("$.%d", i), d},
				pair{fmt.Sprintf("$[(%d)]", i), d}, pair{fmt.Sprintf("$[(-%d)]", i), d}, pair{fmt.Sprintf("$[(%d-1)]", i), d}, pair{fmt.Sprintf("$[0,%d]", i), d})
		}
		return ps
	}
	ladders["object-width"] = func(n int) []pair {
		d := numObject(n)
		return []pair{{"$.*", d}, {"$.m0", d}, {fmt.Sprintf("$.m%d", n-1), d}, {fmt.Sprintf("$['m%d']", n/2), d}, {fmt.Sprintf("$.m%d", n), d}}
	}
	ladders["steps"] = func(n int) []pair {
		var ps []pair
		if n < 4000 {
			d := nested(n, "a", `"end"`)
			ps = append(ps, pair{"$" + strings.Repeat("[1]", n), d}, pair{"$" + strings.Repeat("[-2]", n), d}, pair{"$" + strings.Repeat("[(1)]", n), d}, pair{"$" + strings.Repeat(".1", n) + "[0]", d})
			d = nested(n, "o", `"end"`)
			ps = append(ps, pair{"$" + strings.Repeat(".a", n), d}, pair{"$" + strings.Repeat("['a']", n), d}, pair{"$" + strings.Repeat("['a','z']", n), d})
			d = nested(n, "oa", `"end"`)
			if n%2 == 0 {
				ps = append(ps, pair{"$" + strings.Repeat(".a[1]", n/2), d}, pair{"$" + strings.Repeat(".*.*", n/2), d})
			}
		}
		d := `{"a":[1]}`
		ps = append(ps, pair{"$" + strings.Repeat(".a", n), d}, pair{"$.a[0]" + strings.Repeat("[0]", n), d})
		return ps
	}
	ladders["union-index"] = func(n int) []pair {
		var sb strings.Builder
		for i := 0; i <= n; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			fmt.Fprint(&sb, (i*7)%(n+1))
		}
		return []pair{{"$[" + sb.String() + "]", numArray(n)}, {"$[*][" + sb.String() + "]", "[" + numArray(n) + ",[1],5]"}}
	}
	ladders["union-name"] = func(n int) []pair {
		var sb strings.Builder
		for i := 0; i <= n; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			fmt.Fprintf(&sb, "'m%d'", (i*7)%(n+1))
		}
		return []pair{{"$[" + sb.String() + "]", numObject(n)}, {"$[" + sb.String() + ",0,-1]", numObject(n)}}
	}
	// many values selected, then more steps
	ladders["fan-out"] = func(n int) []pair {
		if n > 5000 {
			n = 5000
		}
		var sb strings.Builder
		sb.WriteByte('[')
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			switch i % 4 {
			case 0:
				fmt.Fprintf(&sb, `{"a":%d,"b":[%d]}`, i, -i)
			case 1:
				fmt.Fprintf(&sb, `[%d,%d]`, i, -i)
			case 2:
				fmt.Fprint(&sb, i)
			case 3:
				fmt.Fprintf(&sb, `{"a":{"a":%d}}`, i)
			}
		}
		sb.WriteByte(']')
		d := sb.String()
		return []pair{{"$[*].a", d}, {"$[*][0]", d}, {"$[*][-1]", d}, {"$[*].a.a", d}, {"$[*]['a','b']", d}, {"$.*[1,0]", d}, {"$[*][('a')]", d}, {"$[*].*", d}}
	}
}
