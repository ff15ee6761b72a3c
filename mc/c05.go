package main

import (
	"fmt"
	"strings"
)

// operands of every kind a script expression can meet: literals and computed values, or parts of c05Doc
var c05Operands = []string{
	"0", "1", "2", "3", "7", "(-1)", "(-3)", "8388608", "0.0", "0.5", "1.5", "2.0", "(-2.5)", "1e3",
	"''", "'a'", "'b'", "'ab'", "'1'", "'2.5'", "'-1'", "'0'", "'length'", "true", "false", "null",
	"[]", "[1]", "['a']", "[1,2]", "[null]", "[[1,2],'a']",
	"$.z", "$.i", "$.f", "$.n0", "$.neg", "$.big", "$.s", "$.sn", "$.e", "$.t", "$.fl", "$.nul", "$.arr", "$.ea", "$.obj", "$.eo", "$.deep",
	"length($.arr)", "$.arr.length", "$.s.length", "(-'x')", "(1e308*10)", "(1/0)", "$.arr[0]", "$.obj.a", "$.obj['1']", "$",
}

const c05Doc = `{"i":1,"f":2.5,"n0":0,"neg":-3,"big":9007199254740993,"s":"a","sn":"3","e":"","t":true,"fl":false,"nul":null,
"arr":[1,2,"a"],"ea":[],"obj":{"a":1,"1":"one","length":9,"0":"zero","2":[5]},"eo":{},"deep":[[1,[2,{"a":3}]],{"a":{"a":{"a":4}}}],
"0":"k0","1":"k1","2":"k2","-1":"k-1","-3":"k-3","a":"ka","true":"kt","8388608":"big",
"c":[null,false,true,0,1,-1,2,3,-2,4,0.5,1.5,2.5,-2.5,-1.5,0.25,1.25,3.5,"","a","b","ab","1","2.5","0","one","zero","none","some",[],[1],["a"],[1,2],[null],{},{"a":1},8388608,1000,9]}`

var c05Binary = []string{"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "in", "nin", "=~"}

var c05Contexts = []string{
	"$.c[?(@==(E))]", "$.c[?(@<=(E))]", "$.c[?(@==(E)/2)]", "$.c[?(@==((E)||'none'))]", "$.c[?(@==((E)&&'some'))]", "$.c[?(@==!(E))]",
	"$.c[?(@==((E)<1))]", "$.c[?(@==length(E))]", "$.c[?(contains([(E),5],@))]", "$[(E)]", "$.c[?(E)]", "$.c[?((E)[0]==@)]", "$.c[?((E).a==@)]", "$.c[?(@==-(E))]", "$..[?(E)].a",
}

func inContexts(exprs, contexts []string) []string {
	paths := make([]string, 0, len(exprs)*len(contexts))
	for _, e := range exprs {
		for _, c := range contexts {
			paths = append(paths, strings.ReplaceAll(c, "E", e))
		}
	}
	return paths
}

// c05Values are the operand values given to expressions on @.x, @.y, @.w; "" is a missing value.
var c05Values = []string{
	"", "null", "false", "true", "0", "1", "2", "-1", "-3", "0.5", "2.5", "7", "1e300", "-1e300", "5e-324", "9007199254740993",
	`""`, `"a"`, `"b"`, `"ab"`, `"B"`, `"aa"`, `"é"`, `"\u00ff"`, `"\u0000"`, `"1"`, `"2"`, `"10"`, `"9"`, `"1.5"`, `"-1"`, `"0"`, `"+Infinity"`, `" 7\u2003"`, `"0x10"`, `"1E3"`, `"7z"`, `"x"`, `"/"`, `"a.*"`, `"length"`, `"😀"`, `"\uffff"`,
	"[]", "[1]", "[0]", `["a"]`, "[1,2]", "[null]", "[[1]]", `[1,"a",null,true]`, "{}", `{"a":1}`, `{"a":2,"1":"one"}`, `{"length":5}`, `{"a":{"a":7}}`,
}

var c05Core = []string{"", "null", "false", "true", "0", "2", "-3", "0.5", `""`, `"a"`, `"2"`, "[]", "[2]", `["a",0,null]`, "{}", `{"a":1,"2":"b"}`}

// tuples lists objects giving the names every combination of the values.
func tuples(names, vals []string) []string {
	cur := []string{""}
	for _, n := range names {
		var next []string
		for _, p := range cur {
			for _, v := range vals {
				switch {
				case v == "":
					next = append(next, p)
				case p == "":
					next = append(next, `"`+n+`":`+v)
				default:
					next = append(next, p+`,"`+n+`":`+v)
				}
			}
		}
		cur = next
	}
	return prefixed("{", cur, "}")
}

// batches puts the candidates in arrays of at most n.
func batches(cands []string, n int) []string {
	var out []string
	for i := 0; i < len(cands); i += n {
		j := i + n
		if j > len(cands) {
			j = len(cands)
		}
		out = append(out, "["+strings.Join(cands[i:j], ",")+"]")
	}
	return out
}

func raises(op string) bool { return op == "in" || op == "nin" || op == "=~" }

func c05(c *Ctx) {
	// every operator on every pair of operands, seen through every context
	var exprs []string
	for _, a := range c05Operands {
		for _, o := range c05Binary {
			for _, b := range c05Operands {
				exprs = append(exprs, a+" "+o+" "+b)
			}
		}
		for _, u := range []string{"-", "!", "--", "!!", "-!", "!-", "- - -"} {
			exprs = append(exprs, u+a)
		}
		for _, d := range []string{".a", ".length", ".z", ".length.length", ".a.a", ".c", "[0]", "[-1]", "[1]", "[9]", "[-9]", "['a']", "['length']", "['0']", "[0][0]", ".obj.a", "['obj']['a']", "[1][0]", "[0][1][1].a", "[1].a.a.a"} {
			exprs = append(exprs, a+d)
		}
		for _, b := range c05Operands {
			exprs = append(exprs, a+"["+b+"]")
		}
		exprs = append(exprs, a+"=~/a/", a+" =~ /^$/", a+"=~/1/")
	}
	paths := inContexts(exprs, c05Contexts)
	c.Bound("every unary and binary operator on every (pair) of %d operands, and every subscript: %d expressions in %d contexts", len(c05Operands), len(exprs), len(c05Contexts))
	c.Sample(map[string]string{"path": paths[100], "doc": c05Doc})
	c.Grid(paths, []string{c05Doc})

	// texts of characters of every length: their sizes, order, and use as an index
	chars := prefixed(`"`, seqs([]string{"a", "é", "日", "\U0001f600", `\ufffd`, `e\u0301`, `\u0000`, `\uffff`, "\u007f"}, 0, 4, ""), `"`)
	var lens []string
	for i := 0; i < 10; i++ {
		lens = append(lens, fmt.Sprintf("$[?(@.length==%d)]", i), fmt.Sprintf("$[?(length(@)==%d)]", i), fmt.Sprintf("$[?(@.length*2>%d)]", i))
	}
	c.Grid(lens, batches(chars, 2000))
	pairs := batches(tuples([]string{"x", "y"}, chars[:1+9+81]), 2000)
	c.Grid([]string{"$[?(@.x<@.y)]", "$[?(@.x<=@.y)]", "$[?(@.x>@.y)]", "$[?(@.x>=@.y)]", "$[?(max([@.x,@.y])==@.x)]"}, pairs)
	var index []string
	for _, s := range seqs([]string{"0", "1", "2", "-", "+", " ", "x", "b", "_", ".", "e"}, 0, 4, "") {
		index = append(index, `"`+s+`"`)
	}
	ats := []string{"$.c[?($.l[@]==7)]", "$.c[?($.l[@]==8)]", "$.c[?($.l[@]==9)]", "$.c[?($.l[@])]", "$.c[?($.o[@]==7)]"}
	var at []string
	for _, b := range batches(index, 3000) {
		at = append(at, `{"l":[7,8,9],"o":{"0":7,"1":8,"00":7,"+1":7,"-1":7," 1":7},"c":`+b+"}")
	}
	c.Grid(ats, at)
	c.Bound("size and order of %d texts of characters of 1-4 bytes, and %d texts as an index", len(chars), len(index))

	// operand values from the document
	ctx := []string{"E", "(E)==null", "(E)==1", "((E)<2)==false", "(E)<2", "(E)=='a'", "!(E)", "(E)==(E)", "((E)+1)>1", "((E)||5)==5", "((E)&&5)==5"}
	two := tuples([]string{"x", "y"}, c05Values)
	batch2 := batches(two, 300)
	single2 := prefixed("[", two, "]")
	type job struct {
		path string
		docs []string
	}
	var jobs []job
	for _, o := range append([]string{"[]"}, c05Binary...) {
		for _, x := range ctx {
			e := "@.x " + o + " @.y"
			if o == "[]" {
				e = "@.x[@.y]"
			}
			p := "$[?(" + strings.ReplaceAll(x, "E", e) + ")]"
			if raises(o) {
				jobs = append(jobs, job{p, single2})
			} else {
				jobs = append(jobs, job{p, batch2})
			}
		}
	}
	c.Bound("every binary operator on every pair of %d document values in %d contexts", len(c05Values), len(ctx))
	three := tuples([]string{"x", "y", "w"}, c05Core)
	batch3 := batches(three, 512)
	single3 := prefixed("[", three, "]")
	ctx3 := ctx[:4]
	if c.thorough {
		ctx3 = ctx
	}
	ops := append([]string{"[]"}, c05Binary...)
	for _, o := range ops {
		for _, q := range ops {
			for _, form := range []bool{false, true} {
				var e string
				bin := func(a, o, b string) string {
					if o == "[]" {
						return "(" + a + ")[" + b + "]"
					}
					return "(" + a + ") " + o + " (" + b + ")"
				}
				if form {
					e = bin(bin("@.x", o, "@.y"), q, "@.w")
				} else {
					e = bin("@.x", o, bin("@.y", q, "@.w"))
				}
				for i, x := range ctx3 {
					p := "$[?(" + strings.ReplaceAll(x, "E", e) + ")]"
					if raises(o) || raises(q) {
						if i < 2 || c.thorough {
							jobs = append(jobs, job{p, single3})
						}
					} else {
						jobs = append(jobs, job{p, batch3})
					}
				}
			}
		}
	}
	c.Bound("every pair of binary operators, grouped both ways, on every triple of %d document values in %d contexts", len(c05Core), len(ctx3))
	c.Parallel(len(jobs), func(w *Worker, i int) {
		p := w.Compile(jobs[i].path)
		if p == nil {
			return
		}
		for _, d := range jobs[i].docs {
			if c.Late() || c.Enough() {
				return
			}
			w.Pair(p, d)
		}
	})

	// depth two on literals and computed operands
	lits := []string{"0", "2", "(-3)", "0.5", "true", "null", "'a'", "''", "'2'", "[2]", "$.z", "$.f", "$.arr.length", "$.arr"}
	exprs = nil
	for _, a := range lits {
		for _, o := range c05Binary {
			for _, b := range lits {
				for _, q := range c05Binary {
					for _, d := range lits {
						exprs = append(exprs, "("+a+" "+o+" "+b+") "+q+" "+d, a+" "+o+" ("+b+" "+q+" "+d+")")
					}
				}
			}
		}
	}
	cx := []string{"$.c[?(@==(E))]"}
	if c.thorough {
		cx = append(cx, "$.c[?(@<=(E)/2)]", "$.c[?(@==!(E))]", "$[(E)]")
	}
	c.Bound("every expression of two binary operators on %d literal and computed operands, %d contexts", len(lits), len(cx))
	c.Grid(inContexts(exprs, cx), []string{c05Doc2})

	// 64-bit integer arithmetic and its edges, exactly: the result is used as a member name
	edge := []string{"0", "1", "2", "3", "7", "10", "255", "4194303", "4194304", "4194305", "8388607", "8388608", "2147483647", "2147483648", "4294967296", "9007199254740991", "9007199254740992", "9007199254740993", "3037000500", "4611686018427387904", "9223372036854775806", "9223372036854775807"}
	var es []string
	for _, e := range edge {
		es = append(es, e, "(-"+e+")", "(-"+e+"-1)")
	}
	var intExprs []string
	for _, a := range es {
		for _, b := range es {
			for _, o := range []string{"+", "-", "*", "/", "%"} {
				intExprs = append(intExprs, a+o+b)
			}
		}
	}
	c.Bound("integer arithmetic on all pairs of %d edge values, results compared exactly", len(es))
	c.Parallel(len(intExprs), func(w *Worker, i int) { w.exactInt(intExprs[i]) })
	var rel []string
	for _, a := range es {
		for _, b := range es {
			for _, o := range []string{"<", "<=", ">", ">=", "==", "!="} {
				rel = append(rel, "$[?("+a+o+b+")]", "$[?(("+a+"+0.0)"+o+b+")]")
			}
		}
	}
	c.Grid(rel, []string{"[5]"})

	sizes := ints(upto(1, 70), around(11))
	if c.thorough {
		sizes = ints(upto(1, 300), around(14))
	}
	c.Bound("operator chains of %d lengths up to %d", len(sizes), sizes[len(sizes)-1])
	c.Ladder(sizes, "op-chain", "op-nest")
	c.Far("op-chain", "op-nest")
}

const c05Doc2 = `{"f":2.5,"arr":[1,2,"a"],"0":"k0","2":"k2","-3":"k-3","a":"ka","true":"kt","c":[null,false,true,0,1,-1,2,3,-3,6,0.5,2.5,"","a","2",[],[2],[1,2,"a"]]}`

// exactInt checks a computed integer by selecting a member with its decimal name.
func (w *Worker) exactInt(e string) {
	p := w.Compile("$[(" + e + ")]")
	if p == nil {
		return
	}
	w.Pair(p, intDoc(e))
}

func init() {
	register(&Check{ID: "C05", Level: "model_checking", Run: c05, Replay: replayLadder,
		Rule: "every expression of the bounded operator trees over the typed operand alphabet is evaluated by the model and by Eval through contexts that expose its value, kind and absence; a trace is nontrivial if something is selected or an error is due"})
	ladders["op-chain"] = func(n int) []pair {
		d := `{"a":1,"b":[0,1,2,3,4,5,6,7],"c":"x"}`
		r := func(s string) string { return strings.Repeat(s, n) }
		ps := []pair{}
		for _, e := range []string{
			"1" + r("+1"), "0" + r("-$.a"), "1" + r("*1"), "1" + r("+@"), "1" + r("*2"), "64" + r("/2"), "7" + r("%5"), "@" + r("||0"), "1" + r("&&@"), "0" + r("==0"), "1" + r("!=0"), "1" + r("+1*2"), "1" + r("+2*3-4%3/2"),
			"@==0" + r("||@==9"), "@>=0" + r("&&@<7"), "0" + r("<1"), "1.5" + r("+0.25"), "$.z" + r("||$.a"), "@==" + r("-") + "3", r("!") + "@", "@==1" + r("||@==$.b.length-1"),
		} {
			ps = append(ps, pair{"$.b[?(" + e + ")]", d}, pair{"$.b[(" + e + ")]", d}, pair{"$.b[?((" + e + ")%8==@)]", d})
		}
		return ps
	}
	ladders["op-nest"] = func(n int) []pair {
		d := `{"a":1,"b":[0,1,2,3,4,5,6,7]}`
		ps := []pair{}
		for _, o := range []string{"1+", "$.a*", "9-", "0||", "1&&", "@==", "1!=", "@<", "64/", "9%", "abs(@)+", "[1][0]+", "'a'=='a'||"} {
			e := strings.Repeat(o+"(", n) + "@" + strings.Repeat(")", n)
			ps = append(ps, pair{"$.b[?(" + e + ")]", d}, pair{"$.b[?((" + e + ")%8==@)]", d})
		}
		// operands pile up on the stack: x+(x+(... and calls, arrays
		for _, o := range [][2]string{{"abs(", ")"}, {"max(1,", ")"}, {"[", "][0]"}, {"-(", ")"}, {"!(", ")"}, {"[0,", ",1][1]"}, {"$.b[", "%8]"}} {
			e := strings.Repeat(o[0], n) + "@" + strings.Repeat(o[1], n)
			ps = append(ps, pair{"$.b[?(" + e + ")]", d}, pair{"$.b[?((" + e + ")==@)]", d})
		}
		return ps
	}
}

func intDoc(e string) string {
	v := refValue(e)
	n, ok := v.(int64)
	if !ok {
		return `{"0":1,"-1":2}`
	}
	m := map[string]bool{}
	var sb strings.Builder
	sb.WriteByte('{')
	for _, k := range []string{fmt.Sprint(n), fmt.Sprint(n + 1), fmt.Sprint(n - 1), fmt.Sprint(-n), "0", "-9223372036854775808", "9223372036854775807"} {
		if !m[k] {
			if len(m) > 0 {
				sb.WriteByte(',')
			}
			m[k] = true
			fmt.Fprintf(&sb, `"%s":"m%s"`, k, k)
		}
	}
	sb.WriteByte('}')
	return sb.String()
}
