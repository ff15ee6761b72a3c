package main

import (
	"fmt"
	"strings"
)

var c07Ops = []string{"*", "/", "%", "+", "-", "<", "<=", ">", ">=", "=~", "~", "in", "nin", "==", "!=", "&&", "||"}

func raising(ops []string) bool {
	for _, o := range ops {
		if o == "in" || o == "nin" || o == "=~" || o == "~" {
			return true
		}
	}
	return false
}

// opSeqs lists all sequences of n operators.
func opSeqs(ops []string, n int) [][]string {
	cur := [][]string{nil}
	for i := 0; i < n; i++ {
		var next [][]string
		for _, s := range cur {
			for _, o := range ops {
				next = append(next, append(append([]string{}, s...), o))
			}
		}
		cur = next
	}
	return cur
}

// groupings lists every parenthesisation of operands[i..j] joined by ops.
func groupings(operands, ops []string, sp string) []string {
	if len(ops) == 0 {
		return []string{operands[0]}
	}
	var out []string
	for k := range ops {
		for _, l := range groupings(operands[:k+1], ops[:k], sp) {
			for _, r := range groupings(operands[k+1:], ops[k+1:], sp) {
				out = append(out, "("+l+sp+ops[k]+sp+r+")")
			}
		}
	}
	return out
}

// partial lists every way of putting one or two pairs of parentheses round parts of the chain.
func partial(operands, ops []string) []string {
	flat := func(open, shut []int) string {
		var sb strings.Builder
		for i, o := range operands {
			for _, k := range open {
				if k == i {
					sb.WriteByte('(')
				}
			}
			sb.WriteString(o)
			for _, k := range shut {
				if k == i {
					sb.WriteByte(')')
				}
			}
			if i < len(ops) {
				sb.WriteString(" " + ops[i] + " ")
			}
		}
		return sb.String()
	}
	var out []string
	n := len(operands)
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			out = append(out, flat([]int{i}, []int{j}))
			for k := i; k < n; k++ {
				for l := k; l < n; l++ {
					if k > j || l <= j {
						out = append(out, flat([]int{i, k}, []int{j, l}))
					}
				}
			}
		}
	}
	return out
}

func chain(operands, ops []string, sp string) string {
	var sb strings.Builder
	for i, o := range operands {
		sb.WriteString(o)
		if i < len(ops) {
			sb.WriteString(sp + ops[i] + sp)
		}
	}
	return sb.String()
}

func c07(c *Ctx) {
	names := []string{"p", "q", "r", "s", "t"}
	at := prefixed("@.", names, "")
	type set struct{ batch, single []string }
	docs := map[int]set{}
	mk := func(n int, vals, svals []string) {
		docs[n] = set{batches(tuples(names[:n], vals), 700), prefixed("[", tuples(names[:n], svals), "]")}
	}
	mk(2, []string{"", "null", "0", "1", "2", "-3", "0.5", "true", `"a"`, `"b"`, `""`}, []string{"", "2", "0", `"a"`, `["a",2]`, "true"})
	mk(3, []string{"", "0", "2", "-3", "0.5", "true", `"a"`, `"b"`}, []string{"", "2", "0", `"a"`, `["a",2,true]`, "true"})
	mk(4, []string{"0", "2", "-3", "0.5", `"a"`}, []string{"2", `"a"`, `["a",2,true,false,0]`, "false"})
	mk(5, []string{"0", "3", "0.5"}, []string{"2", `"a"`, `["a",true,false]`})
	ctx := []string{"E", "(E)==1", "(E)<=1", "0.7<(E)"}

	type job struct {
		e    string
		n    int
		sing bool
		ctx  int
	}
	var jobs []job
	add := func(e string, n int, ops []string, nctx int) { jobs = append(jobs, job{e, n, raising(ops), nctx}) }
	un := []string{"-", "!", "--", "!!", "-!", "!-"}
	max := 3
	if c.thorough {
		max = 4
	}
	for n := 1; n <= max; n++ {
		nctx := 4
		if n == 4 {
			nctx = 2
		}
		for _, ops := range opSeqs(c07Ops, n) {
			add(chain(at[:n+1], ops, " "), n+1, ops, nctx)
			if n > 3 {
				continue
			}
			// spacing
			if n < 3 {
				for _, sp := range []string{"", "  ", "\t", "\n", " \r\n\t "} {
					if sp == "" && (raising(ops)) {
						continue // words would run together: in, nin follow a name
					}
					add(chain(at[:n+1], ops, sp), n+1, ops, 2)
				}
			}
			// unary prefixes on each operand
			for i := 0; i <= n; i++ {
				for k, u := range un {
					if n == 3 && k > 1 {
						continue
					}
					a := append([]string{}, at[:n+1]...)
					a[i] = u + a[i]
					nc := 4
					if n == 3 {
						nc = 1
					}
					add(chain(a, ops, " "), n+1, ops, nc)
				}
			}
			// every parenthesisation, complete and partial
			gs := groupings(at[:n+1], ops, " ")
			if n < 3 {
				gs = append(gs, partial(at[:n+1], ops)...)
			}
			for _, g := range uniq(gs) {
				nc := 4
				if n == 3 {
					nc = 1
				}
				add(g, n+1, ops, nc)
				if n < 3 {
					add("-"+g, n+1, ops, 4)
					add("!"+g, n+1, ops, 2)
					add("("+g+")", n+1, ops, 1)
				}
			}
		}
	}
	if !c.thorough {
		// one operator of each level, and each order of two equal levels
		for _, ops := range opSeqs([]string{"*", "/", "+", "-", "<", "==", "&&", "||"}, 4) {
			add(chain(at[:5], ops, " "), 5, ops, 2)
		}
	}
	c.Bound("every sequence of <= %d of the %d operators, with unary prefixes at every place (<= 3 operators), every complete parenthesisation (<= 3) and every placing of two pairs (<= 2): %d expressions, on every tuple of operand values", max, len(c07Ops), len(jobs))
	c.Parallel(len(jobs), func(w *Worker, i int) {
		j := jobs[i]
		d := docs[j.n].batch
		if j.sing {
			d = docs[j.n].single
		}
		for k, x := range ctx {
			if k >= j.ctx || j.sing && k >= 2 || j.sing && j.n > 3 && k > 0 {
				break
			}
			p := w.Compile("$[?(" + strings.ReplaceAll(x, "E", j.e) + ")]")
			if p == nil {
				return
			}
			for _, doc := range d {
				if c.Late() || c.Enough() {
					return
				}
				w.Pair(p, doc)
			}
		}
	})
	// the same in every position an expression can take, with literals
	var paths []string
	lits := []string{"7", "2", "3", "2"}
	for n := 1; n <= 3; n++ {
		for _, ops := range opSeqs([]string{"*", "/", "%", "+", "-", "<", ">=", "==", "!=", "&&", "||"}, n) {
			for _, sp := range []string{"", " "} {
				e := chain(lits[:n+1], ops, sp)
				paths = append(paths, "$.c[("+e+")]", "$..[("+e+")]", "$.c[?(@=="+e+")]", "$.c[?("+e+"==@)]", "$.c[?(@==[9,"+e+",8][1])]", "$.c[?(@==abs("+e+"))]", "$.c[?(@==max(0,"+e+",1))]", "$.c[?($.c["+e+"]==@)]", "$.c[?(@=="+"-("+e+"))]", "$.c[?(@==-"+e+")]", "$.c[?(!"+e+"==@)]", "$.c[?(@ in ["+e+"])]", "$.c.("+e+")")
			}
		}
	}
	c.Bound("literal chains of <= 3 operators in 13 positions: %d paths", len(paths))
	c.Grid(paths, []string{`{"c":[0,1,2,3,4,5,6,7,8,9,-1,-7,14,true,false,21,49,-14,-3]}`})
	// postfix and unary binding
	var un2 []string
	for _, u := range append(un, "", "- ", "! ", "- - ", "-(", "!(", "(-", "(!") {
		for _, t := range []string{"@", "@.a", "@.l", "@.l[0]", "@['a']", "@.l.length", "length(@.l)", "@.l[0-1]", "@.l[-1]", "@.o.a", "[1,2][0]", "[@.a][0]", "abs(-1)", "abs(@.a)-1", "(@.a)", "(@).a", "(@.l)[1]", "((@)).o.a", "-@.a", "!@.a", "(@.a)-1", "-(@.a-1)", "@.a -1", "@.a - -1", "@.a--1", "@.a+-1", "@.a*-1", "@.a==-1", "@.a!=!@.b", "@.a<-@.b", "@.b&&!@.a", "@.b||-@.a", "!@.a==@.b", "-@.a+@.b", "-@.a*@.b", "!@.a&&@.b", "@.a-@.b-@.a", "@.a-(@.b-@.a)", "@.a in @.l", "!@.a in @.l", "-@.a in @.l", "@.a in @.l==true", "true==@.a in @.l", "@.a+1 in @.l", "@.a<2 in @.l", "@.s=~/a/==true", "@.s =~ /a/ && @.b", "!@.s=~/a/", "@.s=~'a'<1"} {
			s := u + t
			if strings.Contains(u, "(") {
				s += ")"
			}
			un2 = append(un2, "$[?("+s+")]", "$[?(("+s+")==1)]", "$[?("+s+"==-1)]", "$[?(1=="+s+")]")
		}
	}
	var singles []string
	for _, d := range tuples([]string{"a", "b", "l", "s", "o"}, []string{"", "1", "-1", `"a"`, `[1,2,-1]`, `{"a":1}`, "false"}) {
		singles = append(singles, "["+d+"]")
	}
	if !c.thorough {
		var some []string
		for _, d := range tuples([]string{"a", "b"}, []string{"", "1", "-1", `"a"`, "0", "true", "false"}) {
			for _, l := range []string{`[1,2,-1]`, `[true,2]`, `[]`} {
				for _, s := range []string{`"a"`, `"b"`} {
					x := `"l":` + l + `,"s":` + s + `,"o":{"a":1}}`
					if d != "{}" {
						x = "," + x
					}
					some = append(some, "["+d[:len(d)-1]+x+"]")
				}
			}
		}
		singles = some
	}
	c.Bound("unary operators against postfix and binary ones: %d paths on %d documents", len(un2), len(singles))
	c.Grid(un2, singles)

	sizes := ints(upto(1, 80), around(10))
	if c.thorough {
		sizes = ints(upto(1, 400), around(13))
	}
	c.Bound("mixed chains of %d lengths up to %d", len(sizes), sizes[len(sizes)-1])
	c.Ladder(sizes, "mixed-chain", "paren-ladder")
	c.Far("mixed-chain", "paren-ladder")
	c.Sample(map[string]string{"path": "$[?(" + jobs[2000].e + ")]", "doc": docs[3].batch[0][:100]})
}

func init() {
	register(&Check{ID: "C07", Level: "model_checking", Run: c07, Replay: replayLadder,
		Rule: "every operator sequence within the bound is parsed and evaluated by the model's precedence-climbing grammar and by the implementation on every tuple of operand values; a trace is nontrivial if something is selected or an error is due"})
	ladders["mixed-chain"] = func(n int) []pair {
		d := `{"c":[0,1,2,3,4,5,6,7,-1,0.5,true,false],"a":3}`
		var ps []pair
		for _, cyc := range [][]string{{"+", "*", "-", "/"}, {"-", "-", "%", "+"}, {"*", "+", "<", "&&"}, {"||", "&&", "==", "+", "*"}, {"*", "-", "==", "&&", "||"}, {"&&", "||"}, {"==", "!="}, {"<", "==", "+"}, {"/", "*"}} {
			var sb strings.Builder
			sb.WriteString("@")
			for i := 0; i < n; i++ {
				sb.WriteString(cyc[i%len(cyc)])
				switch i % 5 {
				case 3:
					sb.WriteString("$.a")
				case 4:
					sb.WriteString("-2")
				default:
					fmt.Fprint(&sb, i%4+1)
				}
			}
			e := sb.String()
			ps = append(ps, pair{"$.c[?(" + e + ")]", d}, pair{"$.c[?((" + e + ")>0)]", d}, pair{"$.c[?((" + e + ")==1)]", d})
		}
		return ps
	}
	ladders["paren-ladder"] = func(n int) []pair {
		d := `{"c":[0,1,2,3,4,5,6,7,-1,0.5,true,false],"a":3}`
		o, s := strings.Repeat("(", n), strings.Repeat(")", n)
		var ps []pair
		for _, e := range []string{o + "@" + s + "-1", "1-" + o + "@-1" + s, o + "@-1" + s + "-1", o + "1-" + o + "@" + s + "-1" + s, strings.Repeat("(1-", n) + "@" + strings.Repeat("-2)", n), strings.Repeat("(", n) + "@" + strings.Repeat("*2-1)", n), strings.Repeat("-(", n) + "@" + s, strings.Repeat("!(", n) + "@" + s} {
			ps = append(ps, pair{"$.c[?(" + e + ")]", d}, pair{"$.c[?((" + e + ")>0)]", d}, pair{"$.c[(" + e + ")]", d})
		}
		return ps
	}
}
