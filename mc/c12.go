package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"unicode/utf8"

	"verif/mc/ref"
)

var c12Frags = []string{
	"a", "b", "A", "1", " ", "é", "😀", ".", "*", "+", "?", "|", "(", ")", "[", "]", "^", "$", "{2}", "{1,}", "-", ",", "/", `\`, `\/`, `\\`, `\d`, `\s`, `\b`, `\.`, `\n`, `\t`, `\x41`, `\u0061`, `\'`, `\"`, `\Q`, `\E`, `\pL`, "(?i)", "(?s)", "(?:", "(?P<n>", "'", `"`, "@", "#", "<", "&",
	"\n", "\t", "\x00", "\xff", "\xc3", "\u2028",
}

// subjects against which patterns are tried
var c12Subjects = []string{"", "a", "b", "A", "B", "ab", "ba", "aa", "aab", "bb", "1", "a1", " ", "a b", "é", "😀", "/", "a/b", `\`, `a\/b`, `\/`, "a.b", ".", "*", "(", "[", "\n", "a\nb", "\t", "\x00", "'", `"`, "@", "#", "<b>", "&", "{2}", "-", ",", "n", "d", "u0061", "x41", "\u2028", "\ufffd", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa!"}

// literalPattern is the pattern that the text between the slashes denotes, if it is a literal at all.
func literalPattern(re string) (pat string, ok bool) {
	rest := strings.ReplaceAll(re, `\/`, "\xfe\xfe") // no pattern has this
	if strings.Contains(rest, "/") || strings.HasSuffix(rest, `\`) {
		return "", false
	}
	return strings.ReplaceAll(rest, "\xfe\xfe", "/"), true
}

// patternCase decides one pattern text in every form.
func patternCase(re string, full bool) string {
	pat, isLit := literalPattern(re)
	lit := "/" + re + "/"
	if !isLit {
		// not one literal: only whether and how it is accepted
		p := compileBoth("$.s[?(@=~" + lit + ")]")
		return p.compileVerdict()
	}
	rx, rerr := regexp.Compile(pat)
	var hits, misses []interface{}
	for _, s := range c12Subjects {
		if rerr == nil && rx.MatchString(s) {
			hits = append(hits, s)
		} else {
			misses = append(misses, s)
		}
	}
	all := make([]interface{}, len(c12Subjects))
	pairs := make([]interface{}, len(c12Subjects))
	for i, s := range c12Subjects {
		all[i] = s
		pairs[i] = map[string]interface{}{"s": s, "p": pat}
	}
	doc := map[string]interface{}{"s": all, "p": pat, "sp": pairs, "pl": []interface{}{pat, "zzz"}}
	run := func(text string, want []interface{}, literal bool) string {
		p := compileBoth(text)
		if msg := p.compileVerdict(); msg != "" {
			return text + ": " + msg
		}
		if literal && rerr != nil {
			if p.Impl != nil {
				return text + ": an invalid literal is accepted"
			}
			return ""
		}
		if p.Impl == nil {
			if literal {
				return text + ": a valid literal is rejected: " + p.Ierr.Error()
			}
			return "" // the pattern cannot be written as this string
		}
		o := compareEval(p, doc, &ref.Machine{Root: doc})
		if o.msg != "" {
			return text + ": " + o.msg
		}
		// the model against Go's regexp
		if rerr != nil {
			if o.err == nil {
				panic("harness: the model does not fail: " + text)
			}
			return ""
		}
		if want != nil && (o.err != nil || show(o.tree.Leaves()) != show(want)) {
			panic("harness: the model is wrong: " + text)
		}
		return ""
	}
	if hits == nil {
		hits = []interface{}{}
	}
	if misses == nil {
		misses = []interface{}{}
	}
	q := jtext(pat)
	if !utf8.ValidString(pat) {
		q = "$.p"
	}
	forms := []struct {
		text    string
		want    []interface{}
		literal bool
	}{
		{"$.s[?(@=~" + lit + ")]", hits, true},
		{"$.s[?(@=~$.p)]", hits, false},
	}
	if full {
		forms = append(forms, []struct {
			text    string
			want    []interface{}
			literal bool
		}{
			{"$.s[?(@ =~ " + q + ")]", hits, false},
			{"$.s[?(!(@ =~ " + lit + "))]", misses, true},
			{"$.sp[?(@.s=~@.p)].s", hits, false},
			{"$.sp[?(@.s =~ " + lit + ")].s", hits, true},
			{"$.s[?(@=~" + lit + "==true)]", hits, true},
			{"$.s[?(@=~$.pl[0]&&@=~" + lit + ")]", hits, true},
			{"$.s[?((@=~" + lit + ")!=(@=~$.p))]", []interface{}{}, true},
			{"$.s[?([@=~" + lit + ",@=~$.p][1])]", hits, true},
			{"$..[?(@=~" + lit + ")]", nil, true},
			{"$.sp[?(@.s=~ /x/||@.s=~" + lit + "||@.q=~$.p)].s", nil, true},
		}...)
	}
	for _, f := range forms {
		if msg := run(f.text, f.want, f.literal); msg != "" {
			return msg
		}
	}
	return ""
}

func (w *Worker) pattern(re string, full bool) {
	k := Case{Kind: "pattern", Path: Text(re), N: 1}
	if !full {
		k.N = 0
	}
	w.one(k, func() string { return patternCase(re, full) })
	if full {
		w.traces += 10
	}
	w.trans += len(c12Subjects)
}

// historyCase evaluates dynamic patterns in the order of ops: each op is pattern, or "!" and a pattern evaluated by a path
// with the literal. Each pattern gets the salt as an extra alternative, so that no pattern has been used before.
func historyCase(ops []Text, mode string, salt int) string {
	x := "|zq" + strconv.Itoa(salt)
	subj := []interface{}{"", "a", "b", "ab", "A", "x(", "zq" + strconv.Itoa(salt)}
	switch mode {
	case "candidates": // one evaluation, a pattern for each candidate
		var l []interface{}
		for _, o := range ops {
			for _, s := range subj {
				l = append(l, map[string]interface{}{"s": s, "p": string(o) + x})
			}
		}
		for _, t := range []string{"$[?(@.s=~@.p)]", "$[?(!(@.s=~@.p))].s", "$[?([@.s=~@.p,'a'=~@.p,@.s=~@.p]==[true,'b'=~@.p,true])]"} {
			p := compileBoth(t)
			if msg := evalCase(p, l); msg != "" {
				return msg
			}
		}
		return ""
	case "one path": // one compiled path, a document for each pattern
		p := compileBoth("$.s[?(@=~$.p)]")
		for _, o := range ops {
			if msg := evalCase(p, map[string]interface{}{"s": subj, "p": string(o) + x}); msg != "" {
				return msg
			}
		}
		return ""
	case "paths": // a path compiled for each pattern, used in order and then again
		var ps []*Prog
		for _, o := range ops {
			for _, t := range []string{"$[?(@=~/" + strings.ReplaceAll(string(o)+x, "/", `\/`) + "/)]", "$[?(@=~" + jtext(string(o)+x) + ")]"} {
				p := compileBoth(t)
				if msg := p.compileVerdict(); msg != "" {
					return t + ": " + msg
				}
				if p.Impl != nil {
					ps = append(ps, p)
				}
			}
		}
		for n := 0; n < 2; n++ {
			for _, p := range ps {
				if msg := evalCase(p, subj); msg != "" {
					return msg
				}
			}
		}
	case "one expression": // all patterns in one expression
		var es, en []string
		for i, o := range ops {
			lit := "/" + strings.ReplaceAll(string(o)+x, "/", `\/`) + "/"
			if _, err := regexp.Compile(string(o) + x); i%2 == 0 || err != nil {
				lit = jtext(string(o) + x)
			}
			es = append(es, "@=~"+lit)
			en = append(en, "!(@=~"+lit+")")
		}
		for _, t := range []string{"$[?(" + strings.Join(es, "&&") + ")]", "$[?(" + strings.Join(es, "||") + ")]", "$[?(" + strings.Join(en, "||") + ")]", "$[?([" + strings.Join(es, ",") + "]==[" + strings.Repeat("false,", len(es)-1) + "true])]"} {
			p := compileBoth(t)
			if msg := p.compileVerdict(); msg != "" {
				return t + ": " + msg
			}
			if msg := evalCase(p, subj); msg != "" {
				return msg
			}
		}
	}
	return ""
}

// evalCase evaluates p on v twice.
func evalCase(p *Prog, v interface{}) string {
	if msg := p.compileVerdict(); msg != "" {
		return p.Text + ": " + msg
	}
	for n := 0; n < 2; n++ {
		if o := compareEval(p, v, &ref.Machine{Root: v}); o.msg != "" && o.finding != "eager-logic" {
			return fmt.Sprintf("%s (evaluation %d): %s", p.Text, n+1, o.msg)
		}
	}
	return ""
}

var c12Salt atomic.Int64

var c12Modes = []string{"candidates", "one path", "paths", "one expression"}

func (c *Ctx) patternHistories(alpha []string, max int) {
	hs := seqs(alpha, 1, max, "\x01")
	c.Bound("all %d sequences of <= %d of the %d patterns %q, each pattern fresh, as candidates of one evaluation, documents of one path, several paths, and one expression", len(hs), max, len(alpha), alpha)
	c.Parallel(len(hs), func(w *Worker, i int) {
		var ops []Text
		for _, s := range strings.Split(hs[i], "\x01") {
			ops = append(ops, Text(s))
		}
		for _, m := range c12Modes {
			k := Case{Kind: "history", Name: m, Ops: ops, N: int(c12Salt.Add(1))}
			w.one(k, func() string { return historyCase(ops, m, k.N) })
			w.trans += len(ops)
		}
	})
}

func c12Replay(k *Case) string {
	switch k.Kind {
	case "pattern":
		return patternCase(string(k.Path), k.N == 1)
	case "history":
		return historyCase(k.Ops, k.Name, k.N)
	}
	return replayLadder(k)
}

func c12(c *Ctx) {
	n := 3
	c.words(c12Frags, 0, "", "", "", func(w *Worker, t string) { w.pattern(t, true) })
	c.words(c12Frags, 1, "", "", "", func(w *Worker, t string) { w.pattern(t, true) })
	c.words(c12Frags, 2, "", "", "", func(w *Worker, t string) { w.pattern(t, true) })
	small := []string{"a", "b", "*", "|", "(", ")", "[", "]", `\`, "/", "^", "$", "é", "?", "'", `"`, " "}
	if c.thorough {
		n = 4
		c.words(c12Frags, 3, "", "", "", func(w *Worker, t string) { w.pattern(t, true) })
		c.words(small, 4, "", "", "", func(w *Worker, t string) { w.pattern(t, true) })
		c.words([]string{"a", `\`, "/", "[", "]", "é"}, 7, "", "", "", func(w *Worker, t string) { w.pattern(t, false) })
	} else {
		c.words(c12Frags, 3, "", "", "", func(w *Worker, t string) { w.pattern(t, false) })
		c.words(small, 3, "", "", "", func(w *Worker, t string) { w.pattern(t, true) })
		c.words([]string{"a", `\`, "/", "[", "]"}, 6, "", "", "", func(w *Worker, t string) { w.pattern(t, false) })
	}
	c.Bound("all pattern texts of <= %d of %d fragments (%d in every form), and longer ones over backslash, slash and brackets; each on %d subjects, against Go's regexp", n, len(c12Frags), len(c12Frags)*len(c12Frags), len(c12Subjects))
	more := []string{"a{1000}", "a{1001}", "a{2,1}", "(a", "a)", "[a", "*a", "a**", "(?z)a", "(?P<n>a)(?P<n>b)", `\p{Greek}`, `\pX`, `\8`, `(a)\1`, "(?<n>a)", "(?=a)", "[[:alpha:]]", "[^a]", "[a-z&&b]", `[\]]`, `[\/]`, "(?m)^b$", "(?s)a.b", "a.b", "(?i)AB", "(?U)a*", `\x{1F600}`, `\QAa.b\E`, `\Q/\E`, "a|b|c|d|e", "^$", "^", "$", `\A`, `\z`, `\B`, `\C`, "(?i)É", ".", "..", "^..$", "^.$", `^\x00$`, "^\ufffd$", "((((((a))))))", "a{0}", "x*", "(|a)", "()", `\141`, `\n`, "\r", "a\rb", `a\`, `\\\/`, `\\\\/`, `\\/`, `\//`, "//", "a/i", "a/ b", "a/)&&(@=~/b"}
	c.Parallel(len(more), func(w *Worker, i int) { w.pattern(more[i], true) })
	// operands that are not strings
	ops := []string{"'a'", "'('", "/a/", "1", "1.5", "true", "null", "[]", "['a']", "@", "@.s", "@.zz", "$.p", "$.bad", "$.n", "$.o", "$.l", "$", "(1/0)", "tokenize('a b',' ')[0]", "(@.zz||'a')", "(@=~/a/)", "'a'=~'a'", "!1", "length('a')"}
	doc := `{"p":"a","bad":"(","n":5,"o":{},"l":["a"],"c":["a","(",5,null,true,[],["a"],{"s":"a"},{"s":"("},{"s":1},{}]}`
	var paths []string
	for _, a := range ops {
		for _, b := range ops {
			paths = append(paths, "$.c[?("+a+"=~"+b+")]", "$.c[?(!("+a+"=~"+b+"))]")
			for _, d := range []string{"$.c[0,1]", "$.c[2]", "$.c[7,8,10]", "$.n[0]"} {
				paths = append(paths, d+"[?("+a+"=~"+b+")]")
			}
		}
	}
	docs := []string{doc, `{"p":"a","bad":"(","n":5,"o":{},"l":["a"],"c":["a","b"]}`, `{"p":"a","bad":"a","n":[],"o":{},"l":[],"c":[{"s":"ba"},{"s":"x"},{}]}`, `{"p":"(","c":[]}`}
	c.Bound("all %d pairs of %d operands of =~, in %d documents", len(ops)*len(ops), len(ops), len(docs))
	c.Grid(uniq(paths), docs)

	hist := []string{"a", "^a$", "b", "(", "^$", "(?i)a", "[", "a*"}
	max := 3
	if c.thorough {
		max = 5
	}
	c.patternHistories(hist, max)
	c.patternHistories([]string{"a", "b", "("}, max+2)

	sizes := ints(upto(1, 80), around(11))
	if c.thorough {
		sizes = ints(upto(1, 300), around(13))
	}
	c.Bound("subjects, patterns, numbers of patterns of %d sizes up to %d", len(sizes), sizes[len(sizes)-1])
	c.Ladder(sizes, "re-subject", "re-pattern", "re-count", "re-mix")
	c.Far("re-subject", "re-pattern", "re-count", "re-mix")
	c.Sample(`$.s[?(@=~/a\/b/)]`)
}

func init() {
	register(&Check{ID: "C12", Level: "model_checking", Run: c12, Replay: c12Replay,
		Rule: "every pattern text of the bounded alphabet is compiled as a literal and used as a string from the path and from the document on every subject, and every bounded history of patterns is replayed, against Go's regexp directly"})
	ladders["re-subject"] = func(n int) []pair {
		s := strings.Repeat("ab", n)
		d := fmt.Sprintf(`{"p":"^(ab)*$","q":"a$","c":["%s","%sa","%s\n","é%s","%sx"]}`, s, s, s, s, s)
		return []pair{{"$.c[?(@=~/^(ab)*$/)]", d}, {"$.c[?(@=~$.p)]", d}, {"$.c[?(@=~/a$/)]", d}, {"$.c[?(@=~$.q)]", d}, {"$.c[?(@=~/x/)]", d}, {"$.c[?(@=~/^é/)]", d}, {"$.c[?(@=~'(?s)b.$')]", d}}
	}
	ladders["re-pattern"] = func(n int) []pair {
		// long patterns that differ at one place
		base := strings.Repeat("a", n)
		at := func(i int) string { return base[:i] + "b" + base[i+1:] }
		var l, cands []string
		for _, s := range []string{base, at(0), at(n / 2), at(n - 1), base + "c", "c" + base} {
			l = append(l, s)
			cands = append(cands, fmt.Sprintf(`{"s":"%s","p":"^%s$"}`, s, s))
			cands = append(cands, fmt.Sprintf(`{"s":"%s","p":"^%s$"}`, base, s))
		}
		d := "[" + strings.Join(cands, ",") + "]"
		ps := []pair{{"$[?(@.s=~@.p)]", d}, {"$[?(!(@.s=~@.p))]", d}}
		var es []string
		for _, s := range l {
			es = append(es, "@.s=~/^"+s+"$/")
			ps = append(ps, pair{"$[?(@.s=~/^" + s + "$/)]", d}, pair{"$[?(@.s=~'^" + s + "$')]", d})
		}
		ps = append(ps, pair{"$[?(" + strings.Join(es, "||") + ")]", d})
		return append(ps, pair{`$[?(@.s=~/^` + strings.Repeat(`\/`, n) + `$/)]`, `[{"s":"` + strings.Repeat("/", n) + `"},{"s":"` + strings.Repeat(`\\/`, n) + `"}]`})
	}
	ladders["re-count"] = func(n int) []pair {
		// n different dynamic patterns, used in order, again, and in reverse
		var cands []string
		add := func(i int) {
			cands = append(cands, fmt.Sprintf(`{"s":"k%d","p":"^k%d$"}`, i, i), fmt.Sprintf(`{"s":"k%d","p":"^k%d$"}`, i+1, i))
		}
		for i := 0; i < n; i++ {
			add(i)
		}
		for i := 0; i < n; i++ {
			add(i)
		}
		for i := n - 1; i >= 0; i-- {
			add(i)
		}
		return []pair{{"$[?(@.s=~@.p)]", "[" + strings.Join(cands, ",") + "]"}}
	}
	ladders["re-mix"] = func(n int) []pair {
		// n literals in one path
		if n > 2100 {
			n = 2100
		}
		var es []string
		for i := 0; i < n; i++ {
			es = append(es, fmt.Sprintf("@=~/^k%d$/", i))
		}
		d := fmt.Sprintf(`["k0","k1","k%d","k%d","k%d","k",""]`, n-1, n, n/2)
		return []pair{{"$[?(" + strings.Join(es, "||") + ")]", d}, {"$[?([" + strings.Join(es, ",") + "][" + strconv.Itoa(n-1) + "])]", d}, {"$[?([" + strings.Join(es, ",") + "][0])]", d}}
	}
}
