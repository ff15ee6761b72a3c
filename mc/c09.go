package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"

	"verif/mc/ref"
)

// stringDoc is a document in which v, and only v, is found by the probes.
func stringDoc(v string) interface{} {
	near := []string{"", v + "x", "x" + v, v + "\x00", strings.ToUpper(v), strings.ToLower(v), v + v}
	if v != "" {
		near = append(near, v[1:], v[:len(v)-1], strings.TrimSpace(v))
	}
	o := map[string]interface{}{}
	l := []interface{}{}
	for i, s := range near {
		if s != v {
			o[s] = fmt.Sprint("near", i)
			l = append(l, s)
		}
	}
	o[v] = "hit"
	l = append(l, v, "last")
	return map[string]interface{}{"o": o, "l": l, "n": []interface{}{o, 1.0, []interface{}{o}}, "s": v}
}

var stringProbes = []string{
	"$.o[Q]", "$..[Q]", "$.o[Q,'zzz']", "$.o['zzz',Q]", "$.o[(Q)]", "$.n[*][Q]", "$.l[?(@==Q)]", "$.l[?(@!=Q)]", "$.l[?(Q==@)]", "$[?(@[Q]=='hit')]", "$.l[?(@ in ['zzz',Q])]", "$.l[?(contains([Q],@))]", "$.l[?(@<Q)]", "$.l[?(@>=Q)]",
	"$.l[?(length(Q)==length(@))]", "$.l[?(starts_with(@,Q))]", "$.l[?($.o[Q]=='hit'&&@==$.s)]", "$..[?(@[Q])]", "$.o[Q,Q]", "$.o.(Q)",
}

// stringCase checks one quoted string in every position.
func stringCase(contents string, q byte, probes []string) string {
	v, ok := ref.Decode(contents, q)
	// the contents must not end the string early
	if end := quoteEnd(contents, q); end {
		return ""
	}
	if msg := modelString(contents, q, v, ok); msg != "" {
		panic("harness: " + msg)
	}
	lit := string(q) + contents + string(q)
	var doc interface{}
	if ok {
		doc = stringDoc(v)
	}
	for _, pr := range probes {
		p := compileBoth(strings.ReplaceAll(pr, "Q", lit))
		if msg := p.compileVerdict(); msg != "" {
			return p.Text + ": " + msg
		}
		if !ok {
			if p.Impl != nil {
				return p.Text + ": an invalid string is accepted"
			}
			continue
		}
		if p.Impl == nil {
			return p.Text + ": the model rejects a valid string" // cannot happen
		}
		o := compareEval(p, doc, &ref.Machine{Root: doc})
		if o.msg != "" {
			return p.Text + ": " + o.msg
		}
		if o.tree.N == 0 && !strings.Contains(pr, "<") {
			panic("harness: probe " + pr + " finds nothing for " + fmt.Sprintf("%q", contents))
		}
	}
	return ""
}

// quoteEnd reports whether contents holds an unescaped quote or a final backslash.
func quoteEnd(s string, q byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' {
			i++
			if i >= len(s) {
				return true
			}
		} else if s[i] == q {
			return true
		}
	}
	return false
}

// modelString checks the model's decoding against encoding/json.
func modelString(contents string, q byte, v string, ok bool) string {
	if !utf8.ValidString(contents) {
		return ""
	}
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(contents); i++ {
		c := contents[i]
		switch {
		case c == '\\' && i+1 < len(contents):
			i++
			if contents[i] == '\'' && q == '\'' {
				sb.WriteByte('\'')
			} else if contents[i] == '"' && q == '\'' {
				return ""
			} else {
				sb.WriteByte(c)
				sb.WriteByte(contents[i])
			}
		case c == '"':
			sb.WriteString(`\"`)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	var w string
	err := json.Unmarshal([]byte(sb.String()), &w)
	if (err == nil) != ok || ok && v != w {
		return fmt.Sprintf("model decodes %q as %q %v, encoding/json as %q %v", contents, v, ok, w, err)
	}
	return ""
}

// nameCase checks an unquoted name in every position.
func nameCase(name string, script bool) string {
	doc := stringDoc(name)
	probes := []string{"$.o.Q", "$..Q", "$.o[Q]", "$.o['zzz',Q]", "$.n[*].Q", "$.o.Q.Q", "$ . o . Q ", "$.n[0][Q,Q]"}
	if script {
		probes = append(probes, "$[?(@.Q)]", "$[?(@.Q=='hit')]", "$.o[?($.o.Q==@)]", "$[?(@ . Q == 'hit')]", "$.n[?(@.Q.Q||@.Q)]")
	}
	for _, pr := range probes {
		p := compileBoth(strings.ReplaceAll(pr, "Q", name))
		if msg := p.compileVerdict(); msg != "" {
			return p.Text + ": " + msg
		}
		if p.Impl == nil || p.Ref.Bare {
			continue
		}
		o := compareEval(p, doc, &ref.Machine{Root: doc})
		if o.msg != "" {
			return p.Text + ": " + o.msg
		}
	}
	return ""
}

func (w *Worker) str(contents string, probes []string) {
	for _, q := range []byte{'\'', '"'} {
		k := Case{Kind: "string", Path: Text(contents), Name: string(q)}
		w.slot.begin('l', jtext(k), "")
		msg := stringCase(contents, q, probes)
		w.slot.clear()
		w.traces += len(probes)
		w.trans += len(contents)
		v, ok := ref.Decode(contents, q)
		if ok {
			w.nontriv++
		}
		if len(w.states) < maxStates {
			w.states[hashString(contents)*2+uint64(q)] = struct{}{}
			w.outs[hashString(v)] = struct{}{}
		}
		if msg != "" {
			k.Msg = msg
			w.c.Violation(k)
		}
	}
}

func (w *Worker) name(name string, script bool) {
	k := Case{Kind: "name", Path: Text(name)}
	if script {
		k.N = 1
	}
	w.slot.begin('l', jtext(k), "")
	msg := nameCase(name, script)
	w.slot.clear()
	w.traces += 8
	w.trans += len(name)
	if len(w.states) < maxStates {
		w.states[hashString(name)*3] = struct{}{}
	}
	if msg != "" {
		k.Msg = msg
		w.c.Violation(k)
	}
}

func replay09(k *Case) string {
	switch k.Kind {
	case "string":
		return stringCase(string(k.Path), k.Name[0], stringProbes)
	case "name":
		return nameCase(string(k.Path), k.N == 1)
	}
	return replayLadder(k)
}

var c09Frags = []string{
	"a", "b", " ", "'", `"`, `\'`, `\"`, `\\`, `\/`, "/", `\n`, `\t`, `\r`, `\b`, `\f`, `\u0041`, `\u00e9`, `\u0000`, `\u001F`, `\u2028`, `\u005c`, `\u0027`, `\u0022`, `\ud83d`, `\ude00`, `\uD800`, `\uDFFF`, `\uABcd`, `\uFFFD`, `\ufffe`,
	"é", "😀", "\u2028", "\ufeff", "\x7f", "\xff", "\xc3", "\xf0\x9f", "\x00", "\x1f", "\n", "\t", `\u12`, `\u`, `\u12g4`, `\u 123`, `\x41`, `\a`, `\0`, `\v`, `\U0001F600`, `\ `, "\\\n", "\\é", "[", "]", ",", ":", "$", "@", "-1", "0", "*", "?(", "1e5",
}

func c09(c *Ctx) {
	few := []string{"$.o[Q]", "$.l[?(@==Q)]", "$.o['zzz',Q]", "$.o[(Q)]"}
	frag := func(n int, alpha, probes []string) {
		c.words(alpha, n, "", "", "", func(w *Worker, t string) { w.str(t, probes) })
	}
	frag(0, c09Frags, stringProbes)
	frag(1, c09Frags, stringProbes)
	frag(2, c09Frags, stringProbes)
	three := stringProbes[:1]
	if c.thorough {
		three = stringProbes
	}
	frag(3, c09Frags, three)
	c.Bound("all sequences of <= 3 of %d string fragments, in both quotes, in %d positions (3: %d)", len(c09Frags), len(stringProbes), len(three))
	sur := []string{`\uD7FF`, `\uD800`, `\uD801`, `\uDBFF`, `\uDC00`, `\uDC01`, `\uDFFF`, `\uE000`, "x", `\n`, `\u0041`}
	frag(4, sur, few[:2])
	if c.thorough {
		frag(5, sur, few[:2])
	}
	c.Bound("all sequences of 4 around surrogate escapes")
	// every \u escape, every backslash pair, every two bytes
	c.Parallel(256, func(w *Worker, hi int) {
		for lo := 0; lo < 256; lo++ {
			x := hi<<8 | lo
			w.str(fmt.Sprintf(`\u%04x`, x), few)
			w.str(fmt.Sprintf(`\u%04X`, x), few[:1])
			w.str(fmt.Sprintf(`a\u%04xb\ud83d\ude00`, x), few[:2])
			w.str(fmt.Sprintf(`\ud83d\u%04x`, x), few[:1])
			w.str(fmt.Sprintf(`\u%04x\ude00`, x), few[:1])
			w.str(string([]byte{byte(hi), byte(lo)}), few)
			w.str("\\"+string([]byte{byte(hi), byte(lo)}), few[:1])
			w.str(`\u`+string([]byte{byte(hi), byte(lo)})+"00", few[:1])
			w.str(`\u00`+string([]byte{byte(hi), byte(lo)}), few[:1])
		}
	})
	c.Bound("every \\u escape alone, between others and next to half a pair; every pair of bytes, raw, after a backslash and as hex digits")
	// every code point, raw
	c.Parallel(0x110000>>8, func(w *Worker, hi int) {
		for lo := 0; lo < 256; lo++ {
			r := rune(hi<<8 | lo)
			if 0xD800 <= r && r < 0xE000 {
				continue
			}
			w.str(string(r), few[:1])
			if r >= 0x80 && (c.thorough || r < 0x3000 || lo < 2) {
				w.name(string(r), true)
				w.name("a"+string(r)+"1", true)
			}
		}
	})
	c.Bound("every Unicode code point raw in a string and (>= U+0080) in names")
	var letters []string
	for b := 0; b < 256; b++ {
		c := byte(b)
		if c == '_' || c == '-' || c >= 0x80 || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' {
			letters = append(letters, string([]byte{c}))
		}
	}
	for n := 1; n <= 2; n++ {
		c.words(letters, n, "", "", "", func(w *Worker, t string) {
			if strings.IndexByte("-0123456789", t[0]) >= 0 {
				return
			}
			w.name(t, !strings.Contains(t, "-"))
		})
	}
	parts := []string{"a", "B", "_", "-", "0", "9", "é", "\xff", "in", "nin", "true", "length", "null"}
	for n := 3; n <= 4; n++ {
		c.words(parts, n, "", "a", "", func(w *Worker, t string) { w.name(t, !strings.Contains(t, "-")) })
		c.words(parts, n-2, "", "", "", func(w *Worker, t string) {
			if strings.IndexByte("-0123456789", t[0]) < 0 {
				w.name(t, !strings.Contains(t, "-"))
			}
		})
	}
	c.Bound("every name of <= 2 bytes, and of <= 5 of %d parts", len(parts))
	sizes := ints(upto(0, 140), around(12))
	if c.thorough {
		sizes = ints(upto(0, 600), around(17))
	}
	c.Bound("strings and names of %d lengths up to %d", len(sizes), sizes[len(sizes)-1])
	c.Ladder(sizes, "string-length", "string-count")
	c.Far("string-length", "string-count")
	c.Sample(`$['\ud83d\ude00'] and $[?(@=='\u0041\'')]`)
}

func init() {
	register(&Check{ID: "C09", Level: "model_checking", Run: c09, Replay: replay09,
		Rule: "every sequence of the fragment alphabet is decoded by the model (itself compared with encoding/json on every case) and by the implementation in every position a string can take; a trace is nontrivial if the string is valid"})
	ladders["string-length"] = func(n int) []pair {
		var ps []pair
		for _, unit := range []string{"a", `\n`, `\u0041`, `\ud83d\ude00`, "é", "😀", `\\`, `\'`, "'", `\ud800`} {
			for _, f := range [][2]string{{"", ""}, {"x", `\u0042`}, {`\t`, "y"}} {
				s := f[0] + strings.Repeat(unit, n) + f[1]
				q := byte('"')
				if strings.Contains(s, `\'`) {
					q = '\''
				}
				v, ok := ref.Decode(s, q)
				if !ok {
					panic("harness: ladder string")
				}
				d := jtext(map[string]interface{}{v: "hit", v + "x": "miss", "x" + v: "miss", "l": []interface{}{v, v + "y", ""}})
				lit := string(q) + s + string(q)
				ps = append(ps, pair{"$[" + lit + "]", d}, pair{"$.l[?(@==" + lit + ")]", d}, pair{"$['l'," + lit + "]", d}, pair{"$..[" + lit + "]", d})
			}
		}
		name := "n" + strings.Repeat("a", n)
		d := jtext(map[string]interface{}{name: map[string]interface{}{name: 1}, name + "a": 2, name[:n]: 3})
		ps = append(ps, pair{"$." + name, d}, pair{"$.." + name, d}, pair{"$[" + name + "]", d}, pair{"$[?(@." + name + "==1)]", d}, pair{"$." + name + "." + name, d})
		return ps
	}
	// n different strings in one path
	ladders["string-count"] = func(n int) []pair {
		if n > 3000 {
			n = 3000
		}
		o := map[string]interface{}{}
		var lits, names, eqs []string
		for i := 0; i < n; i++ {
			s := fmt.Sprintf("k%d\n'", i)
			o[s] = i
			lits = append(lits, fmt.Sprintf(`'k%d\n\''`, i))
			o[fmt.Sprintf("n%d", i)] = -i
			names = append(names, fmt.Sprintf("n%d", i))
			eqs = append(eqs, fmt.Sprintf(`@=='k%d\n\''`, i))
		}
		if n == 0 {
			return nil
		}
		var l []interface{}
		for i := 0; i < n; i += 3 {
			l = append(l, fmt.Sprintf("k%d\n'", i), fmt.Sprint("n", i))
		}
		d := jtext(o)
		return []pair{{"$[" + strings.Join(lits, ",") + "]", d}, {"$[" + strings.Join(names, ",") + "]", d}, {"$[?(" + strings.Join(eqs, "||") + ")]", jtext(l)}, {"$[?(@ in [" + strings.Join(lits, ",") + "])]", jtext(l)}}
	}
}
