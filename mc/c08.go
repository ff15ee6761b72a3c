package main

import (
	"fmt"
	"strings"

	"verif/mc/ref"

	"github.com/forsyth/jsonpath"
	"github.com/forsyth/jsonpath/paths"
)

const c08Doc = `{"a":[{"a":1,"b":[2,"x"]},[3,4],"s",null],"b":{"a":{"a":true},"0":5},"x":1,"0":[6],"in":7,"true":8}`

// syntax decides acceptance of one text by every entry point, and the meaning of an accepted one.
func (w *Worker) syntax(text string, deep bool) bool {
	w.slot.begin('l', "", "")
	p := compileBoth(text)
	w.traces++
	w.trans += len(text) + 1
	if p.Rerr == nil {
		w.nontriv++
	}
	if len(w.states) < maxStates {
		w.states[p.hash] = struct{}{}
	}
	bad := func(msg string) bool {
		w.c.Violation(Case{Kind: "syntax", Path: Text(text), Msg: msg})
		return false
	}
	if msg := p.compileVerdict(); msg != "" {
		return bad(msg)
	}
	if !deep {
		return true
	}
	if msg := entryPoints(text, p); msg != "" {
		return bad(msg)
	}
	if p.Impl != nil {
		v := w.Doc(c08Doc)
		if p.Ref.Bare {
			if _, _, pan := evalImpl(p.Impl, v); pan != "" {
				return bad("Eval: " + pan)
			}
			return true
		}
		return w.PairV(p, c08Doc, v)
	}
	return true
}

func recovered(f func()) (pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprint(r)
			if pan == "" {
				pan = "panic"
			}
		}
	}()
	f()
	return
}

// entryPoints compares MustCompile and ParsePath with Compile.
func entryPoints(text string, p *Prog) string {
	var q *jsonpath.JSONPath
	pan := recovered(func() { q = jsonpath.MustCompile(text) })
	switch {
	case (pan != "") != (p.Ierr != nil):
		return fmt.Sprintf("MustCompile panics: %q, but Compile says %v", pan, p.Ierr)
	case pan == "" && (q == nil || q.String() != text):
		return "MustCompile returns a path with another text"
	}
	var path paths.Path
	var err error
	if pan := recovered(func() { path, err = paths.ParsePath(text) }); pan != "" {
		return "ParsePath: panic: " + pan
	}
	switch {
	case err == nil && p.Ierr != nil:
		return "ParsePath accepts what Compile rejects: " + p.Ierr.Error()
	case err != nil && p.Ierr == nil:
		return "ParsePath rejects what Compile accepts: " + err.Error()
	case err != nil && path != nil:
		return "ParsePath returns a path with an error"
	}
	return ""
}

// script decides acceptance of a script expression.
func (w *Worker) script(text string) bool {
	w.traces++
	msg := scriptVerdict(text)
	if msg != "" {
		w.c.Violation(Case{Kind: "script", Path: Text(text), Msg: msg})
	}
	return msg == ""
}

func scriptVerdict(text string) string {
	_, _, rerr := ref.ParseExpr(text)
	var e paths.Expr
	var err error
	if pan := recovered(func() { e, err = paths.ParseScriptExpression(text) }); pan != "" {
		return "ParseScriptExpression: panic: " + pan
	}
	switch {
	case rerr == nil && err != nil:
		return "ParseScriptExpression rejects a valid expression: " + err.Error()
	case rerr != nil && err == nil:
		return "ParseScriptExpression accepts a text that is not a valid expression"
	case err != nil && e != nil:
		return "ParseScriptExpression returns an expression with an error"
	case err == nil && e == nil:
		return "ParseScriptExpression returns nothing for a valid expression"
	}
	return ""
}

func replay08(k *Case) string {
	switch k.Kind {
	case "script":
		return scriptVerdict(string(k.Path))
	case "syntax":
		p := compileBoth(string(k.Path))
		if msg := p.compileVerdict(); msg != "" {
			return msg
		}
		if msg := entryPoints(string(k.Path), p); msg != "" {
			return msg
		}
		if p.Impl != nil && p.Ref.Bare {
			if _, _, pan := evalImpl(p.Impl, decode(c08Doc)); pan != "" {
				return "Eval: " + pan
			}
		} else if p.Impl != nil {
			e := *k
			e.Kind, e.Doc = "eval", c08Doc
			return replayEval(&e)
		}
		return ""
	}
	return replayLadder(k)
}

// words enumerates all sequences of exactly n tokens in chunks, calling f with each joined text.
func (c *Ctx) words(alpha []string, n int, sep, pre, suf string, f func(w *Worker, text string)) {
	if n == 0 {
		f(c.worker(0), pre+suf)
		return
	}
	// split on the first two tokens
	lead := 2
	if n < 2 {
		lead = n
	}
	heads := seqs(alpha, lead, lead, sep)
	c.Parallel(len(heads), func(w *Worker, i int) {
		var rec func(text string, left int)
		rec = func(text string, left int) {
			if left == 0 {
				f(w, pre+text+suf)
				return
			}
			if left == 2 && c.Late() {
				return
			}
			for _, t := range alpha {
				rec(text+sep+t, left-1)
			}
		}
		rec(heads[i], n-lead)
	})
}

var c08Corpus = []string{
	"$", "$.a", "$.*", "$..a", "$..*", "$.0", "$.-1", "$..0", "$..-1", "$['a']", `$["a"]`, "$[a]", "$[0]", "$[-1]", "$[*]", "$..[*]", "$..['a']", "$..[0]", "$..[0,1]", "$..[1:2]", "$..[(1)]", "$..[?(@)]", "$..(1)", "$.(1)",
	"$[0,1]", "$['a','b']", "$[0,'a',1:2]", "$[:]", "$[::]", "$[1:]", "$[:1]", "$[1:2]", "$[1:2:3]", "$[::2]", "$[:2:3]", "$[1::3]", "$[-1:-2:-3]", "$[(1):(2):(3)]", "$[1:2,3:4]", "$[(@.a)]", "$[('a')]",
	"$[?(@)]", "$[?(@.a)]", "$[?(@.a==1)]", "$[?(@['a']!='x')]", "$[?(@.a<1&&@.b>=2||!@.c)]", "$[?(@.a in [1,2])]", "$[?(@.a nin [])]", "$[?(@ =~ /a\\/b/)]", "$[?(@~'x')]", "$[?(length(@.a)>1)]", "$[?(max(1,2)==2)]", "$[?(max()==null)]", "$[?($.a[0]==@)]", "$[?(-@.a*(2+3)%4/5-6==1.5e3)]", "$[?(true||false&&null)]", "$[?([[1],[]])]", "$[?(a(b(c)))]", "$[?(1.)]", "$[?(1.5)]", "$[?(1.e5)]", "$[?(1.5e+5)]", "$[?(1.5E-5)]", "$.a.b.c[0]['d'][*]..e[?(@.f)].g[1:2]", "$[ 'a' , 1 ]", "$ . a [ 0 ]",
}

var c08Tokens = []string{"$", ".", "..", "[", "]", "(", ")", "?(", "*", "a", "0", "-1", "'x'", ",", ":", "@", "+", "!", "==", "in", "/a/", "1.5", "true", "-", "&&", "?", "="}

func c08(c *Ctx) {
	// token sequences
	deep := func(w *Worker, t string) { w.syntax(t, true) }
	shallow := func(w *Worker, t string) { w.syntax(t, false) }
	core := c08Tokens[:20]
	n := 5
	if c.thorough {
		n = 6
	}
	for k := 0; k <= n; k++ {
		f := deep
		alpha := c08Tokens
		if k >= 4 {
			f, alpha = shallow, core
		}
		c.words(alpha, k, "", "$", "", f)
		if k <= 3 {
			c.words(alpha, k, "", "", "", f)
			c.words(alpha, k, " ", "$ ", "\n", f)
		}
	}
	c.Bound("all sequences of <= %d tokens after $ (%d tokens up to 3, %d beyond), with and without white space up to 3", n, len(c08Tokens), len(core))
	bracket := []string{"a", "0", "-1", "'x'", ",", ":", "(", ")", "@", "*", "1.5", "?(", "[", "]", "-", "\"y\"", "."}
	for k := 0; k <= n; k++ {
		f := deep
		if k >= 4 {
			f = shallow
		}
		c.words(bracket, k, "", "$[", "]", f)
		if k <= n-1 {
			c.words(bracket, k, "", "$..[", "]", f)
			c.words(bracket, k, " ", "$[ ", " ].a", f)
		}
	}
	c.Bound("all sequences of <= %d of %d tokens in brackets", n, len(bracket))
	expr := []string{"@", "$", "a", "1", "1.5", "'x'", "/a/", "(", ")", "[", "]", ".", ",", "-", "!", "==", "<", "&&", "+", " in ", "true", "=~", "*", "="}
	for k := 0; k <= n; k++ {
		if k == 6 {
			expr = expr[:17]
		}
		f := deep
		if k >= 4 {
			f = shallow
		}
		c.words(expr, k, "", "$[?(", ")]", f)
		if k <= n-1 {
			c.words(expr, k, " ", "$[( ", " )]", f)
			c.words(expr, k, "", "", "", func(w *Worker, t string) { w.script(t) })
			c.words(expr, k, " ", " ", " ", func(w *Worker, t string) { w.script(t) })
		}
	}
	c.Bound("all sequences of <= %d of %d tokens as a filter, <= %d as a computed subscript and as a script expression", n, len(expr), n-1)

	// bytes
	var bytes []string
	for i := 0; i < 256; i++ {
		bytes = append(bytes, string([]byte{byte(i)}))
	}
	for _, ctx := range [][2]string{{"$", ""}, {"", ""}, {"$.", ""}, {"$[", "]"}, {"$['", "']"}, {"$[?(", ")]"}, {"$[?(@.", ")]"}, {"$[?(@==1", ")]"}, {"$[?(@==1.", ")]"}, {"$[?(@=~/", "/)]"}, {"$.a", ".b"}, {"$[0", "1]"}, {"$[?(@", "@)]"}, {"$[?(", "(1))]"}, {"$.a.", "b"}, {"", "$.a"}, {"$..", ""}, {"$[1", ":2]"}, {"$['a'", "]"}, {"$['\\", "']"}, {"$['\\u00", "']"}, {"$.-", ""}, {"$[-", "]"}} {
		c.words(bytes, 1, "", ctx[0], ctx[1], deep)
		c.words(bytes, 2, "", ctx[0], ctx[1], deep)
	}
	c.words(bytes, 1, "", "", "", func(w *Worker, t string) { w.script(t) })
	c.words(bytes, 2, "", "", "", func(w *Worker, t string) { w.script(t) })
	c.words(bytes, 2, "", "@.a", "1", func(w *Worker, t string) { w.script(t) })
	var some []string
	for _, b := range "$.[](){}*?@!&|=<>~+-/%,:'\"\\ae0195_inx \n\t\x00#;^`" {
		some = append(some, string(b))
	}
	some = append(some, "é", "\xff", "\u2028", "\u00a0")
	c.words(some, 3, "", "$", "", shallow)
	c.words(some, 3, "", "$[", "]", shallow)
	c.words(some, 3, "", "$[?(@", ")]", shallow)
	c.words(some, 3, "", "$.a", "", shallow)
	c.words(some, 3, "", "", "", shallow)
	if c.thorough {
		c.words(some, 4, "", "$", "", shallow)
		c.words(some, 4, "", "$[", "]", shallow)
		c.words(some, 4, "", "$[?(", ")]", shallow)
	}
	c.Bound("all strings of <= 2 bytes in 23 contexts; all strings of 3 of %d characters in 5 contexts", len(some))

	// edits of valid paths
	edits := append([]string{""}, some...)
	edits = append(edits, "..", "?(", "==", "&&", "||", " in ", "'x'", "/a/", "[0]", "(1)", "1.5", "  ", "\t\n\r ", "\\u12", "--", "::", ",,", "()", "[]")
	corpus := append([]string{}, c08Corpus...)
	c.Parallel(len(corpus), func(w *Worker, i int) {
		s := corpus[i]
		for k := 0; k <= len(s); k++ {
			for _, e := range edits {
				w.syntax(s[:k]+e+s[k:], true)
				for d := 1; d <= 3 && k+d <= len(s); d++ {
					w.syntax(s[:k]+e+s[k+d:], e == "" || d == 1)
				}
			}
			w.syntax(s[:k], true)
			w.syntax(s[k:], true)
			for j := k; j <= len(s); j++ {
				w.syntax(s[:j]+s[k:], false) // a part repeated
				w.syntax(s[:k]+s[j:], false) // a part deleted
			}
		}
		for _, t := range corpus {
			w.syntax(s+t, true)
			w.syntax(s+t[1:], true)
		}
	})
	c.Bound("every insertion, replacement, deletion, repetition and truncation at every byte of %d paths with %d fragments, and every concatenation of two", len(corpus), len(edits))

	// white space between the tokens of every valid path
	c.Parallel(len(corpus), func(w *Worker, i int) {
		toks := split(corpus[i])
		for _, sp := range []string{" ", "\t", "\n", "\r", "\f", "\v", "  \n\t", "\u00a0", "\u2003", "\x00", "\x1f", "\x85"} {
			for k := 0; k <= len(toks); k++ {
				w.syntax(strings.Join(toks[:k], "")+sp+strings.Join(toks[k:], ""), true)
			}
			w.syntax(strings.Join(toks, sp), true)
		}
	})

	// integers and reals
	var nums []string
	for _, d := range []string{"0", "00", "1", "007", "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999", "000000000000000000000001", "0x10", "1e5", "1_0", "1.5", "1.", ".5", "1.e", "1.5e", "1.5e+", "1.5e400", "1.5e-400", "1.5e308", "0.0e0", "1.5.5", "1..5", "1.5e5.5", "1E5", "1.0E+05", "9223372036854775808.0", "1.7976931348623159e308", "+1", "- 1", "--1", "-0", "1 0", "1a", "a1"} {
		for _, sgn := range []string{"", "-"} {
			x := sgn + d
			nums = append(nums, "$."+x, "$["+x+"]", "$[0,"+x+"]", "$["+x+":]", "$[:"+x+"]", "$[::"+x+"]", "$[?("+x+")]", "$[?(@=="+x+")]", "$[("+x+")]", "$[?(@["+x+"])]", "$[?(max("+x+",1))]", "$[?([1,"+x+"])]", "$..["+x+"]", "$.."+x, "$[?(@."+x+")]", "$[("+x+"):]")
		}
	}
	c.Parallel(len(nums), func(w *Worker, i int) { w.syntax(nums[i], true) })
	sizes := ints(upto(0, 70), around(12))
	if c.thorough {
		sizes = ints(upto(0, 200), around(15))
	}
	c.Bound("%d texts with numbers at the edges; texts of %d sizes up to %d", len(nums), len(sizes), sizes[len(sizes)-1])
	c.Ladder(sizes, "text-size")
	c.Far("text-size")
	long := []int{9998, 9999, 10000, 10001, 16384, 20001}
	if c.thorough {
		long = ints(long, upto(300, 400), around(16))
	}
	c.Bound("texts that are long but not deep at sizes %v..%d", long[0], long[len(long)-1])
	c.Ladder(long, "text-long")
	c.Sample(c08Corpus[50])
	c.Sample("$[?(@.a<1&&&@.b>=2||!@.c)]")
}

// split is a crude division of a valid path into tokens: names, numbers, strings and operators stay whole.
func split(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		j := i + 1
		switch c := s[i]; {
		case c == '\'' || c == '"':
			for s[j] != c {
				j++
			}
			j++
		case c == '/' && strings.Contains(s, "=~ /"):
			for s[j] != '/' || s[j-1] == '\\' {
				j++
			}
			j++
		case 'a' <= c && c <= 'z':
			for j < len(s) && 'a' <= s[j] && s[j] <= 'z' {
				j++
			}
		case '0' <= c && c <= '9':
			for j < len(s) && strings.IndexByte("0123456789.eE", s[j]) >= 0 || j < len(s) && (s[j] == '+' || s[j] == '-') && (s[j-1] == 'e' || s[j-1] == 'E') {
				j++
			}
		default:
			for _, t := range []string{"..", "?(", "==", "!=", "<=", ">=", "=~", "&&", "||"} {
				if strings.HasPrefix(s[i:], t) {
					j = i + 2
				}
			}
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

func init() {
	register(&Check{ID: "C08", Level: "model_checking", Run: c08, Replay: replay08,
		Rule: "every text of the bounded token and byte languages is offered to the model's grammar and to Compile (and MustCompile, ParsePath, ParseScriptExpression); accepted paths are also evaluated by both; a trace is nontrivial if the text is in the grammar"})
	ladders["text-size"] = func(n int) []pair {
		r := func(s string) string { return strings.Repeat(s, n) }
		d := `{"a":[1,2,{"a":3}],"b":1}`
		var ps []pair
		for _, p := range []string{
			"$" + r(" ") + ".a", "$.a" + r("\n"), "$[" + r("\t") + "'a'" + r(" ") + "]", "$." + r("a"), "$['" + r("a") + "']", "$['" + r(`\n`) + "']", "$['" + r(`\u0041`) + "']", "$." + r("0") + "1", "$[" + r("9") + "]", "$[?(" + r("1") + ")]", "$[?(1." + r("5") + ")]", "$[?(1.5e" + r("0") + "1)]", "$[?('a'=~/" + r("a?") + "/)]",
			"$" + r("."), "$" + r("["), "$[" + r("]"), "$[" + r(",") + "]", "$[" + r(":") + "]", "$[?" + r("(") + ")]", "$[?(" + r(")") + "]", "$[?(" + r("@") + ")]", "$[?(" + r("=") + ")]", "$[?(@" + r("&") + "1)]", "$['" + r("a"), "$[?(@=~/" + r("a"), "$[" + r("'a',") + "]", "$[" + r("'a',") + "0]", "$[?(a(" + r("1,") + "))]", "$[?(max(" + r("1,") + "2))]", "$[?([" + r("1,") + "2])]", "$[?(@" + r("[0]") + ")]", "$[?(@" + r(".a") + ")]", "$[?(" + r("!") + "@)]", "$[?(" + r("-") + "@)]", "$" + r("..a"), "$" + r(".*"), "$" + r("[0]") + ".", "$" + r(".a") + "[", "$[?(@" + r("+1") + "+)]", r("$"), r(" "), r("\x00"), r("\xff"), "$." + r("é"), "$['" + r("\xff") + "']",
		} {
			if strings.HasPrefix(p, "$"+"..a..a") && n > 12 {
				continue
			}
			ps = append(ps, pair{p, d})
		}
		return ps
	}
	ladders["text-long"] = func(n int) []pair {
		d := `[1,[2,{"a":3}],{"a":1}]`
		var ps []pair
		for _, op := range []string{"+", "-", "*", "/", "%", "<", ">=", "==", "!=", "&&", "||"} {
			ps = append(ps, pair{"$[?(@" + strings.Repeat(op+"1", n) + ")]", d}, pair{"$[(1" + strings.Repeat(op+"(1)", n) + ")]", d}, pair{"$[?(1" + strings.Repeat(" "+op+" @", n) + ")]", d})
		}
		for _, p := range [][3]string{{"$[?(max(", "1,", "2))]"}, {"$[?(length([", "@,", "2])>1)]"}, {"$[?([", "(1),", "@.a])]"}, {"$[?([", "-1,", "!1])]"}, {"$[?(@ in [", "'a',", "1])]"}, {"$[", "0,", "1]"}, {"$[", "(0),", "1]"}, {"$[", "'a',", "(1)]"}, {"$[", "1:,", ":1]"}, {"$[", "?(@),", "?(1)]"}, {"$[?(@", "[0]", ")]"}, {"$[?(@", ".a", ")]"}, {"$[?(@", "['a']", ")]"}, {"$[?(@", "[(0)]", ")]"}, {"$[?(@", ".length", ")]"}, {"$[?(@", "[1:]", ")]"}, {"$", "[(0)]", ""}, {"$", "[?(@)]", ""}, {"$", "[0]", ".a"}, {"$", "[1,0]", ""}, {"$", "[:1]", "[0]"}, {"$[?(1==1", " && @==(1)", ")]"}, {"$[?([", "[1],", "[2]])]"}, {"$[?([", "max(1),", "0])]"}, {"$[?([", "((1)),", "0])]"}, {"$[?([", "1+1*1,", "0])]"}} {
			ps = append(ps, pair{p[0] + strings.Repeat(p[1], n) + p[2], d})
		}
		return ps
	}
}
