package main

import (
	"fmt"
	"strings"

	"verif/mc/ref"
)

// JSON texts of the values compared; "" is a missing value
var c06Values = []string{
	"", "null", "true", "false", "0", "-0.0", "1", "-1", "2", "0.5", "-0.5", "1.5", "3", "10", "16", "1e6", "1000000", "1e21", "123456789012345680000", "1e-7", "0.000001", "5e-324", "1.7976931348623157e308", "9007199254740992", "9007199254740993", "100", "0.1", "1e300", "15", "1000", "4722366482869645213695",
	`""`, `" "`, `"\n"`, `"0"`, `"-0"`, `"+0"`, `"00"`, `"0.0"`, `"0e5"`, `"1"`, `" 1 "`, `"1.0"`, `"01"`, `"1e0"`, `"+1"`, `"-1"`, `"--1"`, `"1 1"`, `"1a"`, `"0.5"`, `".5"`, `"5."`, `"."`, `"1.5"`, `"0x10"`, `"0X10"`, `"-0x10"`, `"0b11"`, `"0o17"`, `"0x"`, `"0b2"`, `"1_000"`, `"0x1p4"`, `"1e"`, `"e1"`, `"1e6"`, `"1000000"`, `"1e+06"`, `"1e21"`, `"1e+21"`, `"1e-7"`, `"1e-07"`, `"0.000001"`, `"1e400"`, `"Infinity"`, `"-Infinity"`, `"+Infinity"`, `" Infinity\n"`, `"infinity"`, `"Inf"`, `"++1"`, `"1E3"`, `"1000"`, `"0x1.8"`, `"0xffffffffffffffffff"`, `"4722366482869645000000"`, `"0O17"`, `"0B11"`, `"0xg"`, `"\u16801"`, `"\u30001"`, `"1\u2003"`, `"\u200b1"`, `"\u00851"`, `"\ufeff1"`, `"\u20281"`, `"1\u000b"`, `"+Inf"`, `"inf"`, `"NaN"`, `"nan"`, `"9007199254740993"`, `"9007199254740992"`,
	`"true"`, `"false"`, `"null"`, `"undefined"`, `"a"`, `"A"`, `"ab"`, `"é"`, `"e\u0301"`, `"\u0000"`, `"a\u0000"`, `"😀"`, `"[object Object]"`, `"1,2"`, `"[]"`, `"{}"`, `","`, `"\u00a01"`,
	"[]", "[null]", "[true]", "[false]", "[0]", "[1]", "[-1]", "[0.5]", "[1e6]", "[1e21]", "[1e-7]", `[""]`, `["0"]`, `["1"]`, `[" 1"]`, `["a"]`, `["true"]`, `["0x10"]`, "[[]]", "[[1]]", `[["a"]]`, "[[[0]]]", "[[null]]", "[[true]]", "[{}]", "[[1,2]]", "[1,2]", "[2,1]", "[1,2,3]", "[1,[2]]", `["1","2"]`, "[null,null]", "[1,null]", "[[],[]]",
	"{}", `{"a":1}`, `{"a":"1"}`, `{"a":true}`, `{"a":null}`, `{"b":null}`, `{"b":1}`, `{"a":1,"b":2}`, `{"b":2,"a":1}`, `{"a":2,"b":1}`, `{"a":1,"b":null}`, `{"a":{}}`, `{"a":[]}`, `{"a":{"a":1}}`, `{"a":[1]}`, `{"a":0}`, `{"a":""}`, `{"0":0}`, `{"length":0}`,
}

// the same values as literals, where the grammar has them
func literal(v string) (string, bool) {
	if v == "" {
		return "$.zz", true
	}
	if strings.ContainsAny(v, "{") && v != `"{}"` {
		return "", false
	}
	if v[0] == '"' || v == "null" || v == "true" || v == "false" {
		return v, true
	}
	if v[0] == '[' {
		// elements must have no sign
		if strings.Contains(v, "-1") || strings.Contains(v, "-0") {
			return "", false
		}
		return strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(v, "1e6", "1.0e6"), "1e21", "1.0e21"), "1e-7", "1.0e-7"), true
	}
	neg := v[0] == '-'
	v = strings.TrimPrefix(v, "-")
	if i := strings.IndexByte(v, 'e'); i >= 0 && !strings.Contains(v, ".") {
		v = v[:i] + ".0" + v[i:]
	}
	if len(v) > 19 && !strings.Contains(v, ".") {
		v += ".0"
	}
	if neg {
		v = "(-" + v + ")"
	}
	return v, true
}

var c06Ops = []string{"@.x == @.y", "@.x != @.y", "@.x in [@.y]", "@.x nin [@.y]", "@.x in ['zz',@.y,$]", "@.x nin ['zz',@.y,$]", "contains([@.y],@.x)", "contains(['zz',@.y],@.x)", "[@.x]==[@.y]", "[@.x]==@.y", "@.x==[@.y]", "[@.x,1]==[@.y,1]", "[@.x,1]!=[1,@.y]",
	// the value, besides whether it is truthy
	"(@.x==@.y)==false", "(@.x!=@.y)==false", "(@.x==@.y)==true", "(@.x!=@.y)==true", "(@.x in [@.y])==false", "(@.x nin [@.y])==false", "contains([@.y],@.x)==false"}

func c06(c *Ctx) {
	vals := uniq(c06Values)
	pairs := tuples([]string{"x", "y"}, vals)
	docs := batches(pairs, 200)
	c.Bound("every ordered pair of %d values in the document: ==, !=, in, nin, contains, and as elements", len(vals))
	c.lawsOfModel(vals)
	var paths []string
	for _, o := range c06Ops {
		paths = append(paths, "$[?("+o+")]")
	}
	c.Grid(paths, docs)

	// membership in arrays of the document
	lists := tuples([]string{"x", "l"}, vals)
	for i := range lists {
		lists[i] = strings.Replace(lists[i], `"l":`, `"m":[7],"l":`, 1)
	}
	paths = []string{"$[?(@.m && @.l && !(@.l==@.m) && length(@.l)==1 && contains(@.l,@.x))]", "$[?(contains(@.l,@.x))]"}
	c.Grid(paths, batches(lists, 200))
	var in []string
	for _, x := range vals {
		for _, y := range vals {
			if y == "" {
				y = "null"
			}
			d := `"l":[5,` + y + `,6]}`
			if x != "" {
				d = `"x":` + x + "," + d
			}
			in = append(in, "{"+d)
		}
	}
	c.Grid([]string{"$[?(@.x in @.l)]", "$[?(@.x nin @.l)]", "$[?(contains(@.l,@.x))]"}, batches(in, 200))

	// literals on either side, on both
	type lv struct{ lit, val string }
	var lits []lv
	for _, v := range vals {
		if l, ok := literal(v); ok {
			lits = append(lits, lv{l, v})
		}
	}
	// values that only arise by calculation, within arrays too, and the strings that some of them are equal to
	computed := []string{"(1.0e308*10.0)", "(-(1.0e308)*10.0)", "((1.0e308*10.0)-(1.0e308*10.0))", "(1/0)", "(-1/0)", "(0/0)", "(-(0.0))", "(1/3)", "(1.0e20*10.0)", "(2*3)", "(1<2)", "(7-7)", "(9007199254740993+0)", "@.none", "(@.none+1)", "-'5'", "-'x'",
		"'Infinity'", "'+Infinity'", "'-Infinity'", "'NaN'", "'0'", "'-0'", "'1e+21'", "'1e21'", "'0.3333333333333333'", "'6'", "'true'", "'9007199254740993'", "'9007199254740992'", "''", "'5'", "'-5'", "'undefined'", "'null'"}
	for _, v := range computed {
		lits = append(lits, lv{v, ""})
		if v[0] != '\'' {
			lits = append(lits, lv{"[" + v + "]", ""}, lv{"[[" + v + "]]", ""})
		}
	}
	var cands []string
	for _, v := range vals {
		if v == "" {
			cands = append(cands, "{}")
		} else {
			cands = append(cands, `{"x":`+v+`}`)
		}
	}
	all := batches(cands, 1000)
	paths = nil
	for _, l := range lits {
		for _, f := range []string{"@.x==L", "L==@.x", "@.x!=L", "L!=@.x", "@.x in [L]", "L in [@.x]", "@.x nin [L]", "contains([L],@.x)", "!(@.x==L)", "[L]==@.x", "@.x==[L]", "[@.x]!=[L]"} {
			paths = append(paths, "$[?("+strings.ReplaceAll(f, "L", l.lit)+")]")
		}
		for _, r := range lits {
			for _, o := range []string{"==", "!=", " in [0,", " nin ["} {
				p := "$[?(" + l.lit + o + r.lit
				if strings.Contains(o, "[") {
					p += "]"
				}
				paths = append(paths, p+")]")
			}
		}
	}
	c.Bound("%d of the values as literals, on either side of a document value and of each other: %d paths", len(lits), len(paths))
	c.Grid(paths[:], all)

	// strings as numbers: every character next to a digit, and every short text of the characters that numbers are made of
	var texts []string
	for r := rune(0); r < 0x10000; r++ {
		if r < 0xd800 || r > 0xdfff {
			u := fmt.Sprintf(`\u%04x`, r)
			texts = append(texts, `"`+u+`7"`, `"7`+u+`"`, `"`+u+`"`, `"7`+u+`7"`)
		}
	}
	chars := len(texts)
	long := 4
	if c.thorough {
		long = 5
	}
	for _, s := range seqs([]string{"0", "1", "8", "x", "b", "o", "X", "_", "+", "-", ".", "e", "a", " "}, 0, long, "") {
		texts = append(texts, `"`+s+`"`)
	}
	for _, s := range seqs([]string{"Infinity", "+", "-", " ", "I", "1", "inf", "NaN", "0x", "_"}, 0, long, "") {
		texts = append(texts, `"`+s+`"`)
	}
	texts = uniq(texts)
	paths = nil
	for _, y := range []string{"7", "0", "1", "8", "10", "16", "17", "10.0", "0.1", "(1.0e300*1.0e300)", "true", "false"} {
		paths = append(paths, "$[?(@=="+y+")]", "$[?("+y+"!=@)]")
	}
	paths = append(paths, "$[?(-@==-7)]", "$[?(-@==-1)]", "$[?(-@==0)]", "$[?([@]==1)]", "$[?(0 in [@])]", "$[?(@-1==0)]")
	c.Bound("strings as numbers: every character of 16 bits around a digit and alone, and every text of up to %d of the characters of numbers: %d in all", long, len(texts))
	c.Grid(paths[:2], batches(texts[:chars], 5000))
	c.Grid(paths, batches(texts[chars:], 5000))

	// structures: every pair of small documents, as contents
	n := 4
	if c.thorough {
		n = 5
	}
	trees := treeDocs(n, func(i int) string { return []string{"1", "0", "null", `"1"`}[i%4] })
	var st []string
	st = append(st, "")
	st = append(st, trees...)
	for _, a := range seqs([]string{"0", "1", "null", `"1"`}, 0, 3, ",") {
		st = append(st, "["+a+"]")
	}
	for _, t := range tuples([]string{"a", "b", "c"}, []string{"", "null", "0", "1"}) {
		st = append(st, t)
	}
	st = uniq(st)
	c.Bound("every ordered pair of %d structures (documents of <= %d nodes, arrays of <= 3 elements, objects of <= 3 members)", len(st), n)
	half := batches(tuples([]string{"x", "y"}, st), 250)
	c.Parallel(len(half), func(w *Worker, i int) {
		for _, o := range c06Ops[:4] {
			if p := w.Compile("$[?(" + o + ")]"); p != nil {
				w.Pair(p, half[i])
			}
		}
		delete(w.docs, half[i])
	})
	sizes := ints(upto(0, 40), around(10))
	if c.thorough {
		sizes = ints(upto(0, 130), around(13))
	}
	c.Bound("values differing at one place, of %d sizes up to %d", len(sizes), sizes[len(sizes)-1])
	c.Ladder(sizes, "equal-array", "equal-object", "equal-string", "equal-deep")
	c.Far("equal-array", "equal-object", "equal-string", "equal-deep")
	c.Sample(map[string]string{"path": "$[?(@.x == @.y)]", "doc": docs[3][:120]})
}

// lawsOfModel checks the laws of the property on the model itself, to which the implementation is then bound.
func (c *Ctx) lawsOfModel(vals []string) {
	m := &ref.Machine{}
	get := func(s string) interface{} {
		if s == "" {
			return ref.Missing{}
		}
		return decode(s)
	}
	for _, x := range vals {
		a := get(x)
		if !m.Equal(a, a) {
			panic("harness: model equality is not reflexive at " + x)
		}
		for _, y := range vals {
			b := get(y)
			if m.Equal(a, b) != m.Equal(b, a) {
				panic("harness: model equality is not symmetric at " + x + " " + y)
			}
			c.trans++
		}
	}
}

func init() {
	register(&Check{ID: "C06", Level: "model_checking", Run: c06, Replay: replayLadder,
		Rule: "every ordered pair of values is compared by the model and by Eval with ==, !=, in, nin and contains, as literals and as document values; the laws (reflexive, symmetric) are checked on the model over the same pairs; a trace is nontrivial if something is selected"})
	places := func(n int) []int {
		var ps []int
		for _, k := range ints([]int{0, 1, n / 3, n / 2, n - 2, n - 1}) {
			if k >= 0 && k < n {
				ps = append(ps, k)
			}
		}
		return ps
	}
	// one value against copies changed at one place
	vary := func(n int, mk func(change int) string) []pair {
		var sb strings.Builder
		sb.WriteString(`{"x":` + mk(-1) + `,"c":[` + mk(-1))
		for _, k := range places(n) {
			sb.WriteString("," + mk(k))
		}
		sb.WriteString("]}")
		d := sb.String()
		return []pair{{"$.c[?(@==$.x)]", d}, {"$.c[?(@!=$.x)]", d}, {"$.c[?($.x==@)]", d}, {"$.c[?(@ in [0,$.x])]", d}, {"$.c[?($.x nin [@])]", d}, {"$.c[?(contains([$.x],@))]", d}, {"$[?(contains($.c,@))].length", d}}
	}
	ladders["equal-array"] = func(n int) []pair {
		return append(vary(n, func(change int) string {
			var p []string
			for i := 0; i < n; i++ {
				if i == change {
					p = append(p, "-1")
				} else {
					p = append(p, fmt.Sprint(i))
				}
			}
			return "[" + strings.Join(p, ",") + "]"
		}), vary(n+1, func(change int) string {
			if change >= 0 {
				return numArray(n + change)
			}
			return numArray(n)
		})...)
	}
	ladders["equal-object"] = func(n int) []pair {
		f := func(key, null bool) func(change int) string {
			return func(change int) string {
				var p []string
				for i := 0; i < n; i++ {
					v := fmt.Sprint(i)
					if null {
						v = "null"
					}
					k := fmt.Sprint("k", i)
					if i == change {
						if key {
							k = "other"
						} else {
							v = "[]"
						}
					}
					p = append(p, `"`+k+`":`+v)
				}
				return "{" + strings.Join(p, ",") + "}"
			}
		}
		return append(append(vary(n, f(true, false)), vary(n, f(false, false))...), vary(n, f(true, true))...)
	}
	ladders["equal-string"] = func(n int) []pair {
		ps := vary(n, func(change int) string {
			b := []byte(strings.Repeat("s", n))
			if change >= 0 {
				b[change] = 't'
			}
			return `"` + string(b) + `"`
		})
		// a number written with n digits
		z := strings.Repeat("0", n)
		d := `["` + z + `1","1` + z + `","1.` + z + `","1.` + z + `1",1,"0.` + z + `",0]`
		return append(ps, pair{"$[?(@==1)]", d}, pair{"$[?(@==0)]", d}, pair{"$[?(@==true)]", d}, pair{"$[?(@==$[0])]", d}, pair{"$[?(@==$[1])]", d})
	}
	ladders["equal-deep"] = func(n int) []pair {
		if n > 2000 {
			n = 2000
		}
		var ps []pair
		for _, k := range []string{"a", "o", "ao"} {
			x := nested(n, k, "1")
			d := `{"x":` + x + `,"c":[` + x + "," + nested(n, k, "2") + "," + nested(n+1, k, "1") + `]}`
			ps = append(ps, pair{"$.c[?(@==$.x)]", d}, pair{"$.c[?(@!=$.x)]", d}, pair{"$.c[?($.x==@)]", d})
		}
		// one-element arrays around a scalar
		for _, v := range []string{"1", `"1"`, "null", "true", `"a"`} {
			x := strings.Repeat("[", n) + v + strings.Repeat("]", n)
			d := `[1,"1","a",true,0,"",null,` + x + `]`
			ps = append(ps, pair{"$[?(@==$[7])]", d}, pair{"$[?($[7]==@)]", d}, pair{"$[?(@!=$[7])]", d})
		}
		return ps
	}
}
