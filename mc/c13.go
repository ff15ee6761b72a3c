package main

import (
	"fmt"
	"strconv"
	"strings"

	"verif/mc/ref"
)

// expressions that may make a run-time error, depending on the candidate
var c13Errs = []string{
	"nofn(@)", "nofn()", "Length(@.s)", "length()", "abs(1,2)", "contains(@.s)", "keys(@,1)", "tokenize(@.s)", "sum(1,2)", "to_number()", "starts_with('a')", "ends_with('a','b','c')",
	"max()", "min()", "avg()", // any number of arguments: no error
	"@.s=~@.p", "@.s=~'('", "'a'=~@.p", "@.p=~/a/", "@.s=~5", "@.l=~'a'", "@=~'a'", "@.s=~@.l", "@.s=~null", "true=~/a/", "@.s=~'a'", "tokenize(@.s,@.p)", "tokenize(@.s,'(')",
	"1 in @.l", "1 nin @.l", "@.s in @.s", "@ in @", "@.s in 5", "null nin null", "[] in 'a'", "@.s in {", "@.p in [@.s]", "@.zz in 5", "5 in @.zz", "@.zz=~'('", "@.s=~@.zz", "@.zz=~5", "nofn(@.zz)",
}

// contexts of an expression within an expression: what is always evaluated, and what is evaluated after another
var c13Contexts = []string{
	"E", "!(E)", "!!(E)", "-(E)", "(E)==1", "1==(E)", "(E)!=(E)", "(E)<1", "1>=(E)", "(E)+1", "1-(E)", "(E)*2", "4/(E)", "(E)%2", "[E]", "[1,E][0]", "[1,2][E]", "@[E]", "(E).a", "(E).length", "(E)[0]", "(E)[1:]", "@.l[(E)]",
	"abs(E)", "max(1,E)", "max(E,1)", "length([E])", "keys(E)", "contains([1],E)", "1 in [E]", "(E) in [true]", "(E) nin []", "'a'=~'a'&&(E)", "(E)||true", "(E)&&false", "true&&(E)", "false||(E)", "@.s&&(E)", "@.zz||(E)", "(E)||(E)", "(E)&&(E)", "(@.s==1||(E))", "((((E))))",
	"false&&(E)", "true||(E)", "@.zz&&(E)", "@.s||(E)", "@.l&&@.s&&(E)", // only evaluated when it matters
	"((E) in 5)", "((E)=~'(')", "nofn(E)",
}

// positions of an expression within a path; c is the array (or object) of candidates, also reached in other ways
var c13Positions = []string{
	"$.c[?(E)]", "$.c[?(E)].s", "$.c[?(@.s)][?(E)]", "$.c[0:2][?(E)]", "$..c[?(E)]", "$..[?(E)]", "$.c..[?(E)]", "$[*][?(E)]", "$.c[?(E)][?(E)]", "$.c[?(E)]..s", "$..c[0][?(E)]", "$.w[0]['x','y'][?(E)]", "$.c[1:1][?(E)]", "$.none[?(E)]", "$.none..[?(E)]", "$.c[?(false)][?(E)]", "$.c.length[?(E)]", "$.e[?(E)]", "$.c[?($.c[0:0][?(0)]&&(E))]", "$.n[?(E)]",
	"$.c[(E)]", "$.c.(E)", "$.c[0,(E)]", "$.c[(E),0,(E)]", "$.c[*][(E)]", "$..[(E)]", "$..[0,(E)]", "$.c[?(@.s)][(E)]", "$.c[?(E)][(E)]", "$.none[(E)]", "$.c[*][?(E)]", "$.x[?(E)]", "$..s[?(E)]",
}

var c13Cands = []string{`{"s":"a","p":"a","l":[1,"a"]}`, `{"s":"ab","p":"(","l":5}`, `{}`, `{"s":"","p":"b","l":[]}`, `{"s":3,"p":null,"l":"x"}`, `"a"`, `[1]`}

func c13Doc(kinds []int, obj bool) string {
	var ps []string
	for i, k := range kinds {
		if obj {
			ps = append(ps, fmt.Sprintf(`"m%d":%s`, i, c13Cands[k]))
		} else {
			ps = append(ps, c13Cands[k])
		}
	}
	l := "[" + strings.Join(ps, ",") + "]"
	if obj {
		l = "{" + strings.Join(ps, ",") + "}"
	}
	return `{"c":` + l + `,"w":[{"x":` + l + `,"y":[]},[]],"e":[],"n":null,"x":{"c":[],"s":"a"}}`
}

// histCase evaluates a sequence of (path, document) and compares every outcome; ops alternate path, document.
// fresh compiles the path for each operation instead of once.
func histCase(ops []Text, fresh bool) string {
	progs := map[Text]*Prog{}
	docs := map[Text]interface{}{}
	listed := listedFindings("C13")
	for i := 0; i+1 < len(ops); i += 2 {
		p := progs[ops[i]]
		if p == nil || fresh {
			p = compileBoth(string(ops[i]))
			if msg := p.compileVerdict(); msg != "" {
				return p.Text + ": " + msg
			}
			progs[ops[i]] = p
		}
		v, ok := docs[ops[i+1]]
		if !ok {
			v = decode(string(ops[i+1]))
			docs[ops[i+1]] = v
		}
		if p.Impl == nil {
			continue
		}
		if o := compareEval(p, v, &ref.Machine{Root: v}); o.msg != "" && !listed[o.finding] {
			return fmt.Sprintf("operation %d (%s on %s): %s", i/2+1, p.Text, clipS(string(ops[i+1])), o.msg)
		}
	}
	return ""
}

func c13(c *Ctx) {
	// which expressions fail, in every context, for every candidate
	var docs, one []string
	for k := range c13Cands {
		one = append(one, c13Doc([]int{k}, false))
	}
	var paths []string
	for _, e := range c13Errs {
		for _, x := range c13Contexts {
			paths = append(paths, "$.c[?("+strings.ReplaceAll(x, "E", e)+")]")
			{
				for _, y := range c13Contexts {
					paths = append(paths, "$.c[?("+strings.ReplaceAll(y, "E", strings.ReplaceAll(x, "E", e))+")]")
				}
			}
		}
	}
	few := c13Doc([]int{0, 2}, false)
	c.Bound("%d expressions that may fail in all %d contexts and pairs of contexts on %d candidate kinds", len(c13Errs), len(c13Contexts), len(c13Cands))
	c.Grid(uniq(paths), append(one, few, c13Doc(nil, false)))
	if c.thorough {
		// three contexts deep, for the main kinds of error
		for _, e := range []string{"nofn(@)", "@.s=~@.p", "1 in @.l", "abs(1,2)"} {
			paths = nil
			for _, x := range c13Contexts {
				for _, y := range c13Contexts {
					for _, z := range c13Contexts {
						paths = append(paths, "$.c[?("+strings.ReplaceAll(z, "E", strings.ReplaceAll(y, "E", strings.ReplaceAll(x, "E", e)))+")]")
					}
				}
			}
			c.Grid(uniq(paths), one)
		}
	}
	// where the error arises: every position in the path, every sequence of candidates
	max := 5
	if c.thorough {
		max = 7
	}
	for n := 0; n <= max; n++ {
		k := make([]int, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				docs = append(docs, c13Doc(k, false))
				if n <= 3 {
					docs = append(docs, c13Doc(k, true))
				}
				return
			}
			lim := 4
			if n <= 2 {
				lim = len(c13Cands)
			}
			for x := 0; x < lim; x++ {
				k[i] = x
				rec(i + 1)
			}
		}
		rec(0)
	}
	// candidates that are values of each kind themselves
	var scal []string
	for _, d := range seqs([]string{`"a"`, `"b"`, "null", "7", "true", "[1]", "{}"}, 0, 4, ",") {
		scal = append(scal, "["+d+"]")
	}
	var direct []string
	for _, e := range []string{"@=~/a/", "@=~'a'", "@=~@", "'a'=~@", "!(@=~/a/)", "@=~/(/", "1 in @", "1 nin @", "@ in @", "@ in [7]", "@[0] in @", "@==7||@=~/b/", "@=='a'&&1 in @", "length(@)>0||nofn(@)", "abs(@)==7&&abs()", "tokenize(@,'(')", "tokenize(@,@)", "@==null&&@=~''"} {
		for _, x := range []string{"$[?(E)]", "$[(E)]", "$[?(E)].a", "$[*][?(E)]", "$..[?(E)]", "$[0,?(E)]", "$[?(E),0]", "$[?(E)][?(E)]"} {
			direct = append(direct, strings.ReplaceAll(x, "E", e))
		}
	}
	c.Bound("%d paths with errors on all %d sequences of <= 4 candidates of 7 kinds", len(direct), len(scal))
	c.Grid(direct, scal)
	var pos []string
	errs := []string{"@.s=~@.p", "@.zz||(1 in @.l)", "nofn(@)", "@.s&&abs(@.s,1)", "@.l&&(1 nin @.l)", "max(@.s=~@.p,0)", "$.c[0].s=~$.c[0].p", "1 in $.c[1].l", "nofn()", "@.s==@.p||tokenize(@.s,@.p)", "@.s"}
	for _, e := range errs {
		for _, x := range c13Positions {
			pos = append(pos, strings.ReplaceAll(x, "E", e))
		}
	}
	c.Bound("%d expressions in %d positions of a path on all %d sequences of <= %d candidates (in arrays and objects)", len(errs), len(c13Positions), len(docs), max)
	c.Grid(uniq(pos), docs)
	// histories: what precedes and follows an error
	ops := [][2]string{
		{"$.c[?(@.s=~@.p)]", c13Doc([]int{0, 0}, false)}, {"$.c[?(@.s=~@.p)]", c13Doc([]int{0, 1, 0}, false)}, {"$.c[?(@.s=~@.p)]", c13Doc([]int{1}, true)},
		{"$..[?(1 in @.l)].s", c13Doc([]int{0, 3}, false)}, {"$..[?(1 in @.l)].s", c13Doc([]int{0, 1, 1, 0}, false)},
		{"$.c[*].s", c13Doc([]int{0, 1, 0}, false)}, {"$.c[?(@.s)][(nofn())]", few}, {"$..s", c13Doc([]int{1, 0}, true)}, {"$.c[?(", few},
	}
	hmax := 5
	if c.thorough {
		hmax = 6
	}
	var idx []string
	for i := range ops {
		idx = append(idx, strconv.Itoa(i))
	}
	hs := seqs(idx, 1, hmax, ",")
	c.Bound("all %d histories of <= %d of %d evaluations (with and without errors) and failing compilations", len(hs), hmax, len(ops))
	c.Parallel(len(hs), func(w *Worker, i int) {
		var seq []Text
		for _, s := range strings.Split(hs[i], ",") {
			n, _ := strconv.Atoi(s)
			seq = append(seq, Text(ops[n][0]), Text(ops[n][1]))
		}
		k := Case{Kind: "history", Ops: seq, N: i % 2}
		w.slot.begin('l', "", "")
		w.one(k, func() string { return histCase(seq, k.N == 1) })
		w.trans += len(seq)
	})
	sizes := ints(upto(1, 70), around(12))
	if c.thorough {
		sizes = ints(upto(1, 300), around(15))
	}
	c.Bound("errors at the first, middle, last and no candidate, operand and step of %d sizes up to %d", len(sizes), sizes[len(sizes)-1])
	c.Ladder(sizes, "err-candidates", "err-depth", "err-steps", "err-args")
	c.Far("err-candidates", "err-depth", "err-steps", "err-args")
	c.Sample(pos[0])
}

func init() {
	register(&Check{ID: "C13", Level: "model_checking", Run: c13, Replay: func(k *Case) string {
		if k.Kind == "history" {
			return histCase(k.Ops, k.N == 1)
		}
		return replayLadder(k)
	}, Rule: "the model decides for every bounded (expression, position, candidate sequence) whether a run-time error is due; Eval must report it with no values, and otherwise give a nil error and the model's list; histories around errors are replayed"})
	ladders["err-candidates"] = func(n int) []pair {
		var ps []pair
		for _, k := range ints([]int{0, n / 2, n - 1, n}) {
			var l, o []string
			for i := 0; i < n; i++ {
				p, r, t := "a", "[1]", `"a"`
				if i == k {
					p, r, t = "(", "1", "1"
				}
				c := fmt.Sprintf(`{"s":"a%d","p":"%s","r":%s,"t":%s,"i":%d}`, i, p, r, t, i)
				l = append(l, c)
				o = append(o, fmt.Sprintf(`"m%d":%s`, i, c))
			}
			if n > 9000 {
				o = o[:9]
			}
			L, O := "["+strings.Join(l, ",")+"]", "{"+strings.Join(o, ",")+"}"
			ps = append(ps, pair{"$[?(@.s=~@.p)].i", L})
			if n <= 9000 {
				ps = append(ps, pair{"$[?(@.s=~@.p)].i", O}, pair{"$..[?(@.s=~@.p)].i", L}, pair{"$[*][?($[" + strconv.Itoa(n-1) + "].s=~$[0].p)]", L}, pair{fmt.Sprintf("$[?(@.i==%d&&nofn(@))]", n), L})
			}
			for _, e := range []string{"1 in @.r", "2 nin @.r", "@.t=~/a/", "@.t=~@.s", "!(@.r=~'1')", "@.i>=0==(1 in @.r)", "max(@.i,@.t=~'a')"} {
				ps = append(ps, pair{"$[?(" + e + ")].i", L})
				if n <= 3000 {
					ps = append(ps, pair{"$..[?(@.r&&(" + e + "))].i", O})
				}
			}
			if n > 9000 {
				continue
			}
			ps = append(ps, pair{"$[0:0][?(nofn())]", L}, pair{"$[?(@.s=~@.p)][?(nofn())]", L}, pair{"$[?(@.p=='(')][?(@=~/a/)]", O})
		}
		return ps
	}
	ladders["err-depth"] = func(n int) []pair {
		if n > 3000 {
			n = 3000
		}
		open, end := strings.Repeat(`{"s":"a","p":"a","x":`, n), strings.Repeat("}", n)
		good, bad := open+`{"s":"a","p":"a"}`+end, open+`{"s":"a","p":"("}`+end
		var ps []pair
		for _, d := range []string{good, bad} {
			ps = append(ps, pair{"$..[?(@.s=~@.p)].s", d}, pair{"$..x[?(@=~'(')]", d}, pair{"$..[(1=~2)]", d})
			e := strings.Repeat("!(", n) + "$.s=~$" + strings.Repeat(".x", n) + ".p" + strings.Repeat(")", n)
			ps = append(ps, pair{"$[?(" + e + ")]", d})
		}
		return ps
	}
	ladders["err-steps"] = func(n int) []pair {
		d := strings.Repeat(`[`, n) + `["a"]` + strings.Repeat("]", n)
		if n > 3000 {
			n = 3000
			d = strings.Repeat(`[`, n) + `["a"]` + strings.Repeat("]", n)
		}
		return []pair{{"$" + strings.Repeat("[0]", n) + "[?(@=~'(')]", d}, {"$" + strings.Repeat("[?(@)]", n) + "[?(1 in 2)]", d}, {"$" + strings.Repeat("[?(@)]", n+1) + "[?(1 in 2)]", d}, {"$" + strings.Repeat("[*]", n) + "[(nofn())]", d}, {"$[0][(nofn())]" + strings.Repeat("[0]", n), d}, {"$[1]" + strings.Repeat("[?(nofn())]", n), d}}
	}
	ladders["err-args"] = func(n int) []pair {
		var ps []pair
		args := strings.TrimSuffix(strings.Repeat("1,", n), ",")
		d := `[1,"a",[1]]`
		for _, f := range []string{"abs", "contains", "max", "min", "length", "nofn", "avg", "keys"} {
			ps = append(ps, pair{"$[?(" + f + "(" + args + "))]", d})
		}
		ors := strings.Repeat("0||", n)
		ands := strings.Repeat("1&&", n)
		return append(ps, pair{"$[?(" + ors + "(1 in 2))]", d}, pair{"$[?(" + ands + "nofn())]", d}, pair{"$[?([" + args + ",1 in 2]==1)]", d}, pair{"$[0,(1 in 2)" + strings.Repeat(",0", n) + "]", d}, pair{"$[0" + strings.Repeat(",0", n) + ",(nofn())]", d})
	}
}
