package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"verif/mc/ref"
)

// argument values: literals, computed, parts of the document c11Doc
var c11Args = []string{
	"0", "1", "2", "7", "(-1)", "(-7)", "9223372036854775807", "(-9223372036854775807)", "(-9223372036854775807-1)", "9007199254740993", "8388608",
	"0.0", "0.5", "1.5", "2.0", "(-0.5)", "(-1.5)", "(-0.0)", "1.0e300", "(1.0e308*10)", "(0-1.0e308*10)", "(-'x')",
	"true", "false", "null", "$.zz", "(1/0)",
	"''", "'a'", "'ab'", "'b'", "'ba'", "'é'", "'aé😀'", "'1'", "'-2.5'", "' 1'", "'0x10'", "'1e3'", "'1e999'", "'NaN'", "'Infinity'", "'1_0'", "'a,b'", "',+'", "'('", "'[a-b]'", `'\\\\d'`, "'\\u0000'",
	"[]", "[1]", "[1,2,3]", "[3,1,2]", "[1.5,2]", "[2,1.5]", "[true,1]", "[1,true]", "['a']", "['b','a','c']", "['a',1]", "[1,'a']", "[null]", "[1,null]", "[[1]]", "[$.zz]", "[1,$.zz]", "[-1,-2]", "[0]", "[0.0]", "['']", "[1,1]", "[9007199254740993,1]",
	"$.i", "$.f", "$.neg", "$.big", "$.t", "$.nul", "$.s", "$.u", "$.e", "$.num", "$.l", "$.fl", "$.sl", "$.ml", "$.bl", "$.nl", "$.el", "$.ll", "$.o", "$.eo", "$.one",
	"$.l.length", "length($.s)", "length($.l)", "$.l[0]", "$.sl[-1]", "abs(-3)", "max(1,2)", "tokenize('a,b',',')", "sum([])", "avg([])", "max([])", "keys($.one)", "keys($.eo)", "to_number('3')", "ceil(1.2)", "length(1)", "contains('ab','a')",
}

const c11Doc = `"i":3,"f":2.5,"neg":-4.75,"big":1e300,"t":true,"nul":null,"s":"abc","u":"añ😀","e":"","num":"42","l":[3,1,2],"fl":[0.5,-2.25,1e10],"sl":["b","a","c",""],"ml":[1,"a",null],"bl":[true,false],"nl":[null],"el":[],"ll":[[1],[2,[3]]],"o":{"a":1,"b":[2],"c":"d"},"eo":{},"one":{"k":1}`

const c11Common = `null,false,true,0,1,-1,2,3,-2,4,0.5,1.5,2.5,-2.5,6,7,42,"","a","b","ab","c","abc","k",[],[1],["a"],["a","b"],[1,2,3],[null],{},[""]`

var c11Contexts = []string{"$.c[?(@==(E))]", "$.c[?(@==(E)/2)]", "$.c[?(@<=(E))]", "$.c[?(@==((E)||'none'))]", "$.c[?(@==!(E))]", "$.c[?((E)==null&&@==null)]", "$.c[?(@==((E)<1))]", "$.c[?(@==length(E))]", "$[(E)]", "$.c[?(@==(E)[0])]", "$.c[?(@==(E).length)]", "$.c[?(E)]", "$.c[?([E]==[@])]", "$.c[?(@ in [E])]"}

var c11Root interface{}

// callDoc is c11Doc with the value of the call, and its neighbours, among the candidates.
func callDoc(e string) string {
	x, _, err := ref.ParseExpr(e)
	if err != nil {
		panic("harness: " + e)
	}
	var more []string
	func() {
		defer func() {
			if r := recover(); r != nil && r != ref.ErrRun {
				panic(r)
			}
		}()
		switch v := (&ref.Machine{Root: c11Root}).Expr(x, nil).(type) {
		case int64:
			more = append(more, fmt.Sprint(v), fmt.Sprint(float64(v)/2), fmt.Sprint(v/2), fmt.Sprint(v+1), fmt.Sprint(-v))
		case float64:
			if !math.IsNaN(v) && !math.IsInf(v, 0) {
				more = append(more, jtext(v), jtext(v/2), jtext(math.Nextafter(v, 1e308)), jtext(-v))
			}
		case string:
			more = append(more, jtext(v), jtext(v+"x"))
		case []interface{}:
			if v, ok := plain(v); ok {
				more = append(more, jtext(v))
			}
		}
	}()
	d := `{"c":[` + c11Common
	for _, m := range more {
		d += "," + m
	}
	return d + `],"7":"k7","ab":"kab","3":"k3",` + c11Doc + "}"
}

// plain reports whether v is a JSON value.
func plain(v interface{}) (interface{}, bool) {
	switch v := v.(type) {
	case []interface{}:
		for _, e := range v {
			if _, ok := plain(e); !ok {
				return nil, false
			}
		}
	case float64:
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return nil, false
		}
	case ref.Missing, ref.Name:
		return nil, false
	}
	return v, true
}

func (c *Ctx) calls(exprs, contexts []string) {
	c.Parallel(len(exprs), func(w *Worker, i int) {
		d := callDoc(exprs[i])
		v := decode(d)
		for _, x := range contexts {
			p := w.Compile(strings.ReplaceAll(x, "E", exprs[i]))
			if p == nil {
				return
			}
			w.PairV(p, d, v)
		}
	})
}

func c11(c *Ctx) {
	c11Root = decode("{" + c11Doc + "}")
	args := uniq(c11Args)
	var exprs []string
	var all []string
	for f := range ref.Arity {
		all = append(all, f)
	}
	sort.Strings(all)
	for _, f := range all {
		n := ref.Arity[f]
		exprs = append(exprs, f+"()")
		for _, a := range args {
			if f == "keys" && a == "$.o" {
				for _, g := range []string{"length(keys($.o))", "max(keys($.o))", "min(keys($.o))", "contains(keys($.o),'a')", "contains(keys($.o),'c')", "contains(keys($.o),'d')", "contains(keys($.o),1)", "sum(keys($.o))", "keys($.o).length", "'b' in keys($.o)", "'z' nin keys($.o)"} {
					exprs = append(exprs, g)
				}
				continue
			}
			exprs = append(exprs, f+"("+a+")")
			// composition: every function of every function
			for _, g := range all {
				if ref.Arity[g] == 1 && !(g == "keys" && a == "$.o") {
					exprs = append(exprs, f+"("+g+"("+a+"))")
				}
			}
			for _, b := range args {
				if n == 2 || n < 0 {
					exprs = append(exprs, f+"("+a+","+b+")")
				}
			}
		}
	}
	c.Bound("every function on every argument, every function of every one-argument function, and every pair of %d arguments for those that take two: %d expressions in %d contexts", len(args), len(exprs), len(c11Contexts))
	c.calls(uniq(exprs), c11Contexts)
	// three arguments; wrong counts
	exprs = nil
	core := []string{"0", "1", "(-1)", "2.5", "true", "'a'", "'b'", "''", "null", "$.zz", "[1]", "$.i", "$.f", "$.s", "(-'x')", "'ab'", "$.l"}
	for _, f := range []string{"max", "min", "contains", "abs", "tokenize", "length"} {
		for _, a := range core {
			for _, b := range core {
				for _, d := range core {
					exprs = append(exprs, f+"("+a+","+b+","+d+")")
				}
			}
		}
	}
	few := []string{c11Contexts[0], c11Contexts[2], c11Contexts[4]}
	c.calls(exprs, few)
	// arrays of every content, as part of the document and as literals
	type el struct{ lit, doc string }
	els := []el{{"0", "0"}, {"1", "1"}, {"(-2)", "-2"}, {"0.5", "0.5"}, {"1.0e308", "1e308"}, {"true", "true"}, {"false", "false"}, {"'a'", `"a"`}, {"'B'", `"B"`}, {"''", `""`}, {"'10'", `"10"`}, {"null", "null"}, {"[3]", "[3]"}, {"$.eo", "{}"}}
	max := 3
	if c.thorough {
		max = 4
	}
	var lits, docs []string
	var rec func(n int, l, d string)
	rec = func(n int, l, d string) {
		lits = append(lits, "["+l+"]")
		docs = append(docs, "["+d+"]")
		if n == 0 {
			return
		}
		for _, e := range els {
			if l == "" {
				rec(n-1, e.lit, e.doc)
			} else {
				rec(n-1, l+","+e.lit, d+","+e.doc)
			}
		}
	}
	rec(max, "", "")
	fs := []string{"sum(A)", "avg(A)", "prod(A)", "max(A)", "min(A)", "length(A)", "contains(A,1)", "contains(A,'a')", "contains(A,null)", "contains(A,[3])", "contains(A,$.zz)", "abs(A)", "to_number(A)", "keys(A)", "max(A,1)", "sum([A])", "max([A][0])"}
	c.Bound("%d functions of all %d arrays of <= %d elements of %d kinds, as literals and in the document", len(fs), len(lits), max, len(els))
	c.Parallel(len(lits), func(w *Worker, i int) {
		for _, f := range fs {
			e := strings.ReplaceAll(f, "A", lits[i])
			d := callDoc(e)
			v := decode(d)
			ctx := few
			if len(docs[i]) > 24 && !c.thorough {
				ctx = few[:1]
			}
			for _, x := range ctx {
				if p := w.Compile(strings.ReplaceAll(x, "E", e)); p != nil {
					w.PairV(p, d, v)
				}
				d2 := d[:len(d)-1] + `,"A":` + docs[i] + "}"
				v2 := decode(d2)
				if p := w.Compile(strings.ReplaceAll(x, "E", strings.ReplaceAll(f, "A", "$.A"))); p != nil {
					w.PairV(p, d2, v2)
				}
			}
		}
	})
	// strings: all short subjects and needles, and separators
	var ss []string
	for _, s := range seqs([]string{"a", "b", "é"}, 0, 3, "") {
		ss = append(ss, s)
	}
	exprs = nil
	// other kinds of characters; and parts of a long string, changed at each place
	kinds := seqs([]string{"a", "A", " ", "É", "é", "1", "​"}, 0, 2, "")
	long := "abcDEF 123"
	for _, f := range []string{"contains", "starts_with", "ends_with"} {
		for _, s := range kinds {
			for _, t := range kinds {
				exprs = append(exprs, f+"('"+s+"','"+t+"')")
			}
		}
		for i := 0; i <= len(long); i++ {
			for j := i; j <= len(long); j++ {
				t := long[i:j]
				exprs = append(exprs, f+"('"+long+"','"+t+"')", f+"('"+t+"','"+long+"')", f+"('"+long+"','"+t+" ')", f+"('"+long+"',' "+t+"')")
				for k := range t {
					exprs = append(exprs, f+"('"+long+"','"+t[:k]+swapCase(t[k:k+1])+t[k+1:]+"')", f+"('"+long+"','"+t[:k]+"x"+t[k+1:]+"')")
				}
			}
		}
	}
	for _, f := range []string{"contains", "starts_with", "ends_with", "tokenize"} {
		for _, s := range ss {
			for _, t := range ss {
				exprs = append(exprs, f+"('"+s+"','"+t+"')")
			}
			if f == "tokenize" {
				for _, re := range []string{"a*", "a+", "[ab]", "", "(a)", "a|b", "^a", "a$", ".", "x", "(", "*", "[", `\\b`, "a{2}", "(?i)A", "b?"} {
					exprs = append(exprs, f+"('"+s+"','"+re+"')", f+"($.w,'"+re+"')")
				}
			}
		}
	}
	var sub []string
	for _, s := range []string{"", "a b  c", " a ", ",", "a,b;c", "1, 2,3", "aXbxc", "\\u0000", "日本 語", "a\\nb"} {
		for _, re := range []string{" ", " +", `\\s+`, ",", "[,;]", ", *", "x", "(?i)x", "", "本", `\\n`, "$", "^", `\\`, "(,)", "[[:space:]]"} {
			sub = append(sub, "tokenize('"+s+"','"+re+"')")
		}
	}
	c.Bound("string functions on all pairs of %d strings, and %d tokenizations", len(ss), len(exprs)+len(sub))
	c.calls(uniq(append(exprs, sub...)), []string{c11Contexts[0], "$.c[?([E][0]==@)]", "$.c[?(@==(E)[0])]", "$.c[?(@==(E)[-1])]", "$.c[?(@==length(E))]", "$.c[?(@==(E)[1])]"})
	// numbers as text
	exprs = nil
	for _, s := range seqs([]string{"1", "0", "-", "+", ".", "e", " ", "x", "_", "inf", "5", `\n`}, 0, 4, "") {
		exprs = append(exprs, "to_number('"+s+"')")
	}
	for _, s := range []string{`\r`, `\t`, `\f`, `\b`, `\r\n`, `\u0000`, `\u000b`, `\u00a0`, `\u0085`, `\u2003`, `\u2028`, `\ufeff`, `\u0661`, `\uff11`, "é", ",", "d", "f", "%", "$", "nan", "NaN", "Infinity", "infinity", "p1", "i", "n", "L"} {
		exprs = append(exprs, "to_number('1"+s+"')", "to_number('"+s+"1')", "to_number('"+s+"')", "to_number('1"+s+"2')", "to_number('1.5"+s+"')", "to_number('1e5"+s+"')")
	}
	for _, x := range []string{"0", "1", "-1", "1.5", "-1.5", "0.49999999999999994", "4503599627370496.5", "-0.5", "1e20", "-1e300", "2.5", "-2.5", "9007199254740993", "5e-324"} {
		l, _ := literal(x)
		for _, f := range []string{"abs", "ceil", "floor", "to_number", "-", "length"} {
			exprs = append(exprs, f+"("+l+")", f+"(to_number('"+x+"'))", "ceil("+f+"("+l+"))")
		}
	}
	c.calls(uniq(exprs), few[:2])

	sizes := ints(upto(0, 70), around(11))
	if c.thorough {
		sizes = ints(upto(0, 300), around(15))
	}
	c.Bound("arguments, arrays, strings and nesting of %d sizes up to %d", len(sizes), sizes[len(sizes)-1])
	c.Ladder(sizes, "fn-array", "fn-args", "fn-string", "fn-nest")
	c.Far("fn-array", "fn-args", "fn-string", "fn-nest")
	c.Sample("$.c[?(@==max($.sl[-1],'b'))]")
}

func init() {
	register(&Check{ID: "C11", Level: "model_checking", Run: c11, Replay: replayLadder,
		Rule: "every call of the bounded argument alphabet is evaluated by the model and by Eval, its value seen through contexts that expose value, type and absence, with the model's value among the candidates"})
	ladders["fn-array"] = func(n int) []pair {
		if n > 20000 {
			n = 20000
		}
		var ps []pair
		for _, k := range ints([]int{0, 1, n / 2, n - 2, n - 1}) {
			if k < 0 || k >= n && n > 0 {
				continue
			}
			var num, str, lit []string
			for i := 0; i < n; i++ {
				v := i % 7
				s := fmt.Sprintf("m%d", i%7)
				if i == k {
					v, s = 100, "z"
				} else if i == (k+1)%n {
					v, s = -100, "A"
				}
				num = append(num, strconv.Itoa(v))
				if v < 0 {
					lit = append(lit, fmt.Sprintf("(%d)", v))
				} else {
					lit = append(lit, fmt.Sprint(v))
				}
				str = append(str, `"`+s+`"`)
			}
			N, S := "["+strings.Join(num, ",")+"]", "["+strings.Join(str, ",")+"]"
			sum := 0
			for _, x := range num {
				y, _ := strconv.Atoi(x)
				sum += y
			}
			avg := 0.0
			if n > 0 {
				avg = float64(sum) / float64(n)
			}
			d := fmt.Sprintf(`{"n":%s,"s":%s,"bad":%s,"c":[null,0,%d,%s,100,-100,"z","A",%d,true,false,"none"]}`, N, S, strings.Replace(S, `"A"`, "5", 1), sum, jtext(avg), n)
			for _, f := range []string{"sum($.n)", "avg($.n)", "max($.n)", "min($.n)", "max($.s)", "min($.s)", "length($.n)", "contains($.n,100)", "contains($.s,'A')", "contains($.n,'q')", "max($.bad)||'none'", "sum($.s)||'none'", "prod($.n)"} {
				ps = append(ps, pair{"$.c[?(@==(" + f + "))]", d})
			}
			L := "[" + strings.Join(lit, ",") + "]"
			for _, f := range []string{"sum(L)", "avg(L)", "max(L)", "min(L)", "length(L)", "contains(L,100)"} {
				ps = append(ps, pair{"$.c[?(@==" + strings.ReplaceAll(f, "L", L) + ")]", d})
			}
		}
		return ps
	}
	ladders["fn-args"] = func(n int) []pair {
		var a, b []string
		for i := 0; i < n; i++ {
			a = append(a, strconv.Itoa((i*7)%(n+1)))
			b = append(b, fmt.Sprintf("'s%05d'", (i*7)%(n+1)))
		}
		A, B := strings.Join(a, ","), strings.Join(b, ",")
		d := fmt.Sprintf(`[0,1,%d,%d,"s00000","s00001","s%05d","s%05d",null]`, n, n-1, n, n-1)
		ps := []pair{{"$[?(@==max(" + A + "))]", d}, {"$[?(@==min(" + A + "))]", d}, {"$[?(@==max(" + B + "))]", d}, {"$[?(@==min(" + B + "))]", d}, {"$[?(@==abs(" + A + "))]", d}}
		return append(ps, pair{"$[?(@==(max(" + strings.Replace(A, ",", ",'x',", 1) + ")||'s00000'))]", d})
	}
	ladders["fn-string"] = func(n int) []pair {
		s := strings.Repeat("aé", n)
		d := fmt.Sprintf(`{"s":"%s","t":"%sb","u":"b%s","w":"%s","c":[0,1,%d,%d,true,false,"a","é","none",%d]}`, s, s, s, strings.Repeat("x,", n), 2*n, 2*n+1, n+1)
		var ps []pair
		for _, f := range []string{"length($.s)", "length($.t)", "length('" + s + "')", "contains($.t,$.s)", "contains($.t,'b')", "contains($.s,'b')", "starts_with($.t,$.s)", "starts_with($.u,$.s)", "ends_with($.u,$.s)", "ends_with($.t,$.s)", "starts_with($.s,$.t)", "length(tokenize($.w,','))", "length(tokenize($.t,''))", "tokenize($.w,',')[-1]", "length(tokenize($.s,'é'))", "$.s.length"} {
			ps = append(ps, pair{"$.c[?(@==" + f + ")]", d})
		}
		return ps
	}
	ladders["fn-nest"] = func(n int) []pair {
		var ps []pair
		d := `[0,1,2,5,"5",true,[5]]`
		for _, f := range [][2]string{{"abs(", ")"}, {"max(1,", ")"}, {"max(", ",1)"}, {"min([9,", "])"}, {"to_number(", ")"}, {"ceil(", ")"}, {"length([", "])"}, {"sum([1,", "])"}} {
			e := strings.Repeat(f[0], n) + "5" + strings.Repeat(f[1], n)
			ps = append(ps, pair{"$[?(@==" + e + ")]", d}, pair{"$[?(@>=" + strings.Replace(e, "5", "@", 1) + ")]", d})
		}
		return ps
	}
}

func swapCase(s string) string {
	if u := strings.ToUpper(s); u != s {
		return u
	}
	return strings.ToLower(s)
}
