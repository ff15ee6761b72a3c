package main

import (
	"fmt"
	"strings"
)

var c03Steps = []string{
	"..[?(1)]", "..*", "..a", "..[*]", "..[0]", "..[-1]", "..['a']", "..[\"b\"]", "..b", "..[0,1]", "..['a','b']", "..[1,'a']", "..[1:]", "..[::-1]", "..[0:1,-1]",
	"..[?(@)]", "..[?(@.a)]", "..[?(@[0])]", "..[?(@.length==1)]", "..[?(@.length>1)]", "..[?(!@.a)]", "..[?(0)]", "..[?(@.length==$.length)]",
	"..[(@.length-1)]", "..[('a')]", "..[(0)]", "..[(@.k)]", "..0", "..1", "..-1", "..(0)", "..('b')", "..(@.length-1)", "..[(@[0])]", "..[a]", "..z", "..[9]", "..[(@.z)]", "..[-2]", "..[?(@[-1])]",
}

var c03Docs = []string{
	`{"a":[10,[11,12,{"a":13,"b":14}],{"a":15,"b":[16,17]}],"b":{"a":[18,{"a":19}],"b":[],"0":20,"1":21,"-1":22},"i":1,"k":"b"}`,
	`[[1,2,3],{"a":4,"b":[5,6,{"a":7}]},8,"str",null,true,[[9],[10,11]]]`,
	`[0,[[[12,13],[14]],{"a":[15,16]}],{"a":{"a":{"a":17,"b":18},"b":19},"b":[{"a":20},{"b":21},[22]]}]`,
	`[[[[[[1],2],3],4],5],6]`, `[1,[2,[3,[4,[5,[6]]]]]]`, `{"a":{"a":{"a":{"a":{"b":1},"b":2},"b":3},"b":4},"b":5}`,
	`{"b":5,"a":{"b":4,"a":{"b":3,"a":{"b":2}}}}`,
	`[[],{},[[]],[{}],{"a":[]},{"a":{}},null,"",0,false]`,
	`[[1,2],[1,2],{"a":1},{"a":1},[[1,2],[1,2]]]`,
	`[null,[null,null],{"a":null},[[null]]]`, `{"a":null,"b":[null,{"a":null}]}`,
	`[0,[1,[2],3],4,[5,[6,[7],8],9],10,{"a":[11,{"b":12}],"b":13}]`,
	`"scalar"`, `null`, `0`, `[]`, `{}`, `true`,
}

func c03(c *Ctx) {
	n := 6
	if c.thorough {
		n = 7
	}
	docs := uniq(append(append([]string{}, c03Docs...), treeDocs(n, number)...))
	c.Bound("all %d trees with <= %d nodes (and %d richer ones) x %d descents", len(docs), n, len(c03Docs), len(c03Steps))
	c.Grid(prefixed("$", c03Steps, ""), docs)
	// members with odd names, alone and beside others
	var odd []string
	for _, k := range []string{"", "*", "..", "length", "0", "-1", "$", "@", "a.b", " ", "é", "null", "__proto__", "a'b", `\\u0000`, "[0]"} {
		for _, d := range []string{`{"K":[1,[2]]}`, `{"K":{"a":[1]}}`, `{"K":{"K":{"K":1}}}`, `[{"K":[[1]]},{"K":[]},{"K":{}}]`, `{"a":{"K":[{"a":2}]},"K":1}`, `{"K":[{"a":1}],"a":{"a":[2]}}`} {
			odd = append(odd, strings.ReplaceAll(d, "K", k))
		}
	}
	c.Bound("the same on %d documents with members of odd names", len(odd))
	c.Grid(prefixed("$", c03Steps, ""), odd)

	// descents of mixed scalars; descents after and before other steps, and twice
	docs4 := uniq(append(append([]string{}, c03Docs...), append(treeDocs(5, number), treeDocs(4, mixed)...)...))
	around := []string{".a", ".*", "[0]", "[*]", "[-1]", "['a','b']", "[1:]", "[?(@)]", "[?(@.a)]", "[0,1]", "[('a')]"}
	var paths []string
	for _, s := range c03Steps {
		for _, a := range around {
			paths = append(paths, "$"+a+s, "$"+s+a)
		}
	}
	for _, s := range c03Steps {
		for _, t := range c03Steps {
			paths = append(paths, "$"+s+t)
		}
	}
	c.Bound("%d paths with a descent before or after another step, and two descents, on %d documents (trees with <= 5 nodes)", len(paths), len(docs4))
	c.Grid(paths, docs4)

	// three descents, and descent-step-descent, on the rich documents
	core := []string{"..[?(1)]", "..*", "..a", "..[0]", "..[-1]", "..[1:]", "..[?(@.a)]", "..[(@.length-1)]", "..['a','b']", "..[0,1]"}
	paths = nil
	for _, a := range core {
		for _, b := range append(core, around...) {
			for _, d := range core {
				paths = append(paths, "$"+a+b+d)
			}
		}
	}
	c.Bound("%d paths of three steps with 2 or 3 descents on the rich documents", len(paths))
	c.Grid(paths, c03Docs)

	sizes := ints(upto(0, 80), []int{100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4097, 9000})
	if c.thorough {
		sizes = ints(upto(0, 300), sizes, []int{2000, 4095, 4096, 4097, 9000})
	}
	c.Bound("depth and width ladders at %d sizes up to %d", len(sizes), sizes[len(sizes)-1])
	c.Ladder(sizes, "descent-depth", "descent-width")
	c.Far("descent-depth", "descent-width")
	c.Sample(map[string]string{"path": "$..[?(1)]", "doc": docs[len(docs)-1]})
	c.Sample(map[string]string{"path": paths[7], "doc": c03Docs[0]})
}

func init() {
	register(&Check{ID: "C03", Level: "model_checking", Run: c03, Replay: replayLadder,
		Rule: "every descent of the alphabet is evaluated on every document tree up to the node bound by the model (explicit pre-order; members of an object in any order, each subtree contiguous) and by Eval"})

	ladders["descent-depth"] = func(n int) []pair {
		if n > 9000 {
			n = 9000 // encoding/json's own limit is 10000
		}
		var ps []pair
		for _, kinds := range []string{"a", "o", "ao", "aao"} {
			d := nested(n, kinds, `[1,{"a":2}]`)
			ps = append(ps, pair{"$..a", d}, pair{"$..[0]", d}, pair{"$..*", d}, pair{"$..[-1]", d}, pair{"$..[?(@.a)]", d}, pair{"$..k", d}, pair{"$..[(@.length-1)]", d}, pair{"$..['k',0]", d})
			if n <= 1100 {
				ps = append(ps, pair{"$..[?(1)]", d})
			}
			if n <= 130 {
				ps = append(ps, pair{"$..*..[0]", d})
			}
		}
		return ps
	}
	ladders["descent-width"] = func(n int) []pair {
		var sb, so strings.Builder
		sb.WriteByte('[')
		so.WriteByte('{')
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteByte(',')
				so.WriteByte(',')
			}
			fmt.Fprintf(&so, `"n%d":`, i)
			var e string
			switch i % 4 {
			case 0:
				e = fmt.Sprintf(`{"a":%d}`, i)
			case 1:
				e = fmt.Sprintf(`[%d,[%d]]`, i, -i)
			case 2:
				e = fmt.Sprint(i)
			case 3:
				e = fmt.Sprintf(`[{"a":[%d]}]`, i)
			}
			sb.WriteString(e)
			so.WriteString(e)
		}
		sb.WriteByte(']')
		so.WriteByte('}')
		d := sb.String()
		ps := []pair{{"$..a", d}, {"$..[0]", d}, {"$..*", d}, {"$..[?(1)]", d}, {"$..[?(@.a)]", d}, {"$..[-1]", d}}
		if n <= 60 {
			o := so.String()
			ps = append(ps, pair{"$..a", o}, pair{"$..[0]", o}, pair{"$..[?(1)]", o}, pair{"$..[?(@.a)]", o})
		}
		return ps
	}
}
