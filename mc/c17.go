package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// each item is decided by the model's own reading of the whole text, whatever it is next to
var c17Items = []string{
	`{"l":[[1,"x"],[2],[{"a":1},1]]}`, `{"l":[[1],7]}`, `3`, `{"l":[`, "", `{"l":[[1],` + "\n" + ` [1,2]]}`, `}`, `"a}b\"{<&>"`, `null`,
}

var c17Seps = []string{"\n", " ", "", "\r\n", "\n\n"}

const c17Path = "$.l[?(1 in @)]"

// cuts gives all ways of dividing n items among files: the indices at which a new file starts.
func cuts(n, files int) [][]int {
	if files == 1 {
		return [][]int{{}}
	}
	var out [][]int
	for _, c := range cuts(n, files-1) {
		from := 0
		if len(c) > 0 {
			from = c[len(c)-1]
		}
		for i := from; i <= n; i++ {
			out = append(out, append(append([]int{}, c...), i))
		}
	}
	return out
}

// divide makes the run that reads items, separated by sep, from the files given by cut (nil: from standard input).
func divide(r jrun, items []string, sep string, trail bool, cut []int) *jrun {
	text := func(l []string) []byte {
		s := strings.Join(l, sep)
		if trail && len(l) > 0 {
			s += sep
		}
		return []byte(s)
	}
	if cut == nil {
		r.stdin = text(items)
		return &r
	}
	prev := 0
	for _, i := range append(append([]int{}, cut...), len(items)) {
		r.files = append(r.files, input{data: text(items[prev:i])})
		prev = i
	}
	return &r
}

func pickItems(max, kinds int) [][]string {
	var out [][]string
	var rec func(l []string)
	rec = func(l []string) {
		out = append(out, append([]string{}, l...))
		if len(l) == max {
			return
		}
		for _, x := range c17Items[:kinds] {
			rec(append(l, x))
		}
	}
	rec(nil)
	return out
}

func c17Runs(thorough bool) []*jrun {
	var runs []*jrun
	seen := map[string]bool{}
	add := func(r *jrun) {
		k := jtext(r.encode())
		if !seen[k] {
			seen[k] = true
			runs = append(runs, r)
		}
	}
	all := func(items []string, seps []string, files int, trails bool) {
		for _, lines := range []bool{false, true} {
			for _, sep := range seps {
				for t := 0; t < 2; t++ {
					if t == 1 && !trails {
						continue
					}
					r := jrun{path: c17Path, lines: lines}
					add(divide(r, items, sep, t == 0, nil))
					for f := 1; f <= files; f++ {
						for _, c := range cuts(len(items), f) {
							add(divide(r, items, sep, t == 0, c))
						}
					}
				}
			}
		}
	}
	// shortest first
	for _, l := range pickItems(2, len(c17Items)) {
		if thorough {
			all(l, c17Seps, 3, true)
		} else {
			all(l, c17Seps, 1, true)
			all(l, c17Seps[:1], 3, true)
		}
	}
	n, kinds := 3, 6
	if thorough {
		n, kinds = 4, 7
	}
	for _, l := range pickItems(n, kinds) {
		if len(l) < 3 {
			continue
		}
		switch {
		case len(l) == 3 && thorough:
			all(l, c17Seps, 3, true)
		case thorough:
			all(l, c17Seps[:2], 3, false)
		default:
			all(l, c17Seps[:1], 2, false)
		}
	}
	if !thorough {
		for _, l := range pickItems(4, 4) {
			if len(l) == 4 {
				all(l, c17Seps[:1], 1, false)
			}
		}
	}
	// files that cannot be read, among those that can
	fs := []input{{data: []byte(c17Items[0] + "\n")}, {special: "missing"}, {special: "dir"}, {data: []byte(c17Items[1])}, {data: []byte("")}, {data: []byte("[]\n[1]")}}
	var rec func(l []input)
	rec = func(l []input) {
		if len(l) > 0 {
			for _, lines := range []bool{false, true} {
				add(&jrun{path: c17Path, lines: lines, files: append([]input{}, l...)})
			}
		}
		if len(l) == 3 {
			return
		}
		for _, f := range fs {
			rec(append(l, f))
		}
	}
	rec(nil)
	// other paths, valid or not
	for _, p := range []string{"$", "$.*", "$..*", "$..a", "$.l.length", "$[", "$.l[?(", "", "$.l[?(nofn())]", "l", "$[?(1 in @)]", "$..l[0]", "$['l','l']", "x y"} {
		for _, l := range pickItems(2, 6) {
			for _, lines := range []bool{false, true} {
				add(divide(jrun{path: p, lines: lines}, l, "\n", true, nil))
				add(divide(jrun{path: p, lines: lines}, l, "\n", true, []int{}))
			}
		}
	}
	// input that arrives in two parts
	for _, sep := range c17Seps {
		for _, l := range pickItems(2, 6) {
			for _, lines := range []bool{false, true} {
				r := divide(jrun{path: c17Path, lines: lines}, l, sep, true, nil)
				for i := 1; i < len(r.stdin); i++ {
					q := *r
					q.cut = i
					if thorough || sep == "\n" && len(l) == 2 && l[0] != l[1] && l[0] != "" && l[1] != "" {
						add(&q)
					}
				}
			}
		}
	}
	// every byte in a string, and between values
	for b := 0; b < 256; b++ {
		c := string([]byte{byte(b)})
		for _, s := range []string{`["` + c + `"]` + "\n", "1" + c + "2\n", `"\` + c + `"`, c} {
			for _, lines := range []bool{false, true} {
				add(&jrun{path: "$", lines: lines, stdin: []byte(s)})
			}
		}
	}
	// what often comes before, between or after values in files
	for _, s := range []string{"\xef\xbb\xbf", "\xef\xbb\xbf\xef\xbb\xbf", "\xef\xbb", "\xfe\xff", "\xff\xfe", "#!x\n", "#", "//", "/**/", "\x1e", "\x00", ")]}'\n", ",", "\u00a0", "\u2028", "\u0085", "data: ", "...", "---\n", ";", "\x04", "\x1a", "<", "`"} {
		for _, x := range []string{"1", "[1]", `{"l":[[1]]}`, `"x"`, ""} {
			for _, t := range []string{s + x + "\n2\n", x + s + "\n2\n", "3\n" + s + x + "\n2\n", x + "\n" + s, s + "\n" + x} {
				for _, lines := range []bool{false, true} {
					add(&jrun{path: "$", lines: lines, stdin: []byte(t)})
					add(&jrun{path: "$", lines: lines, files: []input{{data: []byte("[5]\n")}, {data: []byte(t)}}})
				}
			}
		}
	}
	return runs
}

// sizes in one dimension: the run of size n
var c17Ladders = map[string]func(n int) *jrun{
	"string": func(n int) *jrun {
		return &jrun{path: "$", stdin: []byte(`"` + strings.Repeat("x", n) + `"` + "\n1\n")}
	},
	"result": func(n int) *jrun {
		return &jrun{path: "$.l[?(1 in @)]", stdin: []byte(`{"l":[` + strings.Repeat("[1],", n) + `[2]]}` + "\n1\n")}
	},
	"values": func(n int) *jrun { return &jrun{path: "$.a", stdin: []byte(strings.Repeat(`{"a":1}`+"\n", n))} },
	"values-then-error": func(n int) *jrun {
		return &jrun{path: "$.l[?(1 in @)]", stdin: []byte(strings.Repeat(`{"l":[[1]]}`+"\n", n) + c17Items[1] + "\n1\n")}
	},
	"values-then-malformed": func(n int) *jrun {
		return &jrun{path: "$", stdin: []byte(strings.Repeat("1\n", n) + "}\n1\n")}
	},
	"string-then-malformed": func(n int) *jrun {
		return &jrun{path: "$", stdin: []byte(`"` + strings.Repeat("x", n) + `"` + "\n}\n")}
	},
	"truncated": func(n int) *jrun { return &jrun{path: "$", stdin: []byte("[]\n" + `["` + strings.Repeat("x", n))} },
	"blanks":    func(n int) *jrun { return &jrun{path: "$", stdin: []byte(strings.Repeat(" ", n) + "1\n2\n")} },
	"no-newline": func(n int) *jrun {
		return &jrun{path: "$", stdin: []byte("1\n[" + strings.Repeat("2,", n) + "3]")}
	},
	"deep": func(n int) *jrun {
		return &jrun{path: "$..a", stdin: []byte(strings.Repeat("[", n%9000) + `{"a":1}` + strings.Repeat("]", n%9000) + "\n2\n")}
	},
	"wide-object": func(n int) *jrun {
		var sb strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, `"k%d":%d,`, i, i)
		}
		return &jrun{path: "$", stdin: []byte("{" + sb.String() + `"a":[]}` + "\n")}
	},
	"files": func(n int) *jrun {
		r := &jrun{path: "$.a"}
		for i := 0; i <= n; i++ {
			r.files = append(r.files, input{data: []byte(fmt.Sprintf(`{"a":%d}`, i))})
		}
		return r
	},
	"big-files": func(n int) *jrun {
		r := &jrun{path: "$"}
		for i := 0; i < 3; i++ {
			r.files = append(r.files, input{data: []byte(fmt.Sprintf("%d\n[", i) + strings.Repeat("5,", n) + "6]\n")})
		}
		return r
	},
	"escapes": func(n int) *jrun {
		var sb strings.Builder
		for i := 0; i < 16; i++ {
			fmt.Fprintf(&sb, "\"\\u%04x\"\n\"%c\"\n", (n*16+i)&0xffff, rune(n*16+i))
		}
		return &jrun{path: "$", stdin: []byte(sb.String())}
	},
}

func c17Ladder(j *jworker, name string, n int) (msg string, out int) {
	for m := 0; m < 4; m++ {
		r := c17Ladders[name](n)
		r.lines = m&1 == 1
		if m&2 != 0 {
			if len(r.files) > 0 {
				continue
			}
			r.files, r.stdin = []input{{data: r.stdin}}, nil
		}
		e := r.expect()
		if msg := e.verdict(j.run(r), r.lines); msg != "" {
			return fmt.Sprintf("%s of size %d, lines %v: %s", name, n, r.lines, clipS(msg)), out
		}
		out += len(e.trees)
	}
	return "", out
}

func c17(c *Ctx) {
	bin, err := buildJpath(drvDir(os.TempDir()))
	if err != nil {
		fatal(err)
	}
	runs := c17Runs(c.thorough)
	c.Bound("%d runs: all sequences of up to 4 items (%d kinds: values on one or several lines, blanks, malformed, truncated, failing) x separators x 1-3 files or standard input x both modes (see c17Runs), files that cannot be read, invalid paths, input arriving in two parts cut at each byte, every byte in and between values", len(runs), len(c17Items))
	c.jparallel(bin, len(runs), func(w *Worker, j *jworker, i int) {
		r := runs[i]
		k := r.encode()
		w.slot.begin('l', jtext(k), "")
		e := r.expect()
		res := j.run(r)
		w.slot.clear()
		w.traces++
		w.trans += len(e.trees) + 1
		if len(e.trees) > 0 {
			w.nontriv++
		}
		w.states[hashString(jtext(k))] = struct{}{}
		w.outs[hashString(fmt.Sprint(res.code)+string(res.out))] = struct{}{}
		if msg := e.verdict(res, r.lines); msg != "" {
			k.Msg = msg
			c.Violation(k)
		}
	})
	sizes := ints(upto(0, 40), []int{50, 64, 100, 128}, near(4096, 2), near(65536, 1), near(1<<17, 1), []int{1<<20 + 1, 1<<23 + 1, 1<<24 + 1})
	if c.thorough {
		sizes = ints(upto(0, 300), around(10), near(4096, 40), near(8192, 4), near(65536, 20), near(1<<17, 2), near(1<<20, 2), []int{1 << 22, 1 << 24, 1<<26 + 1})
	}
	var names []string
	for n := range c17Ladders {
		names = append(names, n)
	}
	sort.Strings(names)
	type job struct {
		name string
		n    int
	}
	var jobs []job
	for _, nm := range names {
		for _, n := range sizes {
			switch {
			case nm == "files" && n > 5000, nm == "escapes" && n > 4096, !c.thorough && n > 1<<17+1 && nm != "string":
			case n > 1<<20+1 && nm != "string" && nm != "truncated" && nm != "blanks":
			default:
				jobs = append(jobs, job{nm, n})
			}
		}
	}
	if c.thorough {
		for n := 0; n < 4096; n++ {
			jobs = append(jobs, job{"escapes", n})
		}
	}
	c.Bound("%d size ladders at %d sizes up to %d, in both modes, from standard input and a file", len(names), len(sizes), sizes[len(sizes)-1])
	c.jparallel(bin, len(jobs), func(w *Worker, j *jworker, i int) {
		k := Case{Kind: "jladder", Name: jobs[i].name, N: jobs[i].n}
		w.slot.begin('l', jtext(k), "")
		msg, n := c17Ladder(j, k.Name, k.N)
		w.slot.clear()
		w.traces += 4
		w.trans += n
		w.nontriv += 4
		w.states[hashString(jtext(k))] = struct{}{}
		if msg != "" {
			k.Msg = msg
			c.Violation(k)
		}
	})
	c.Sample(runs[len(runs)/2].encode())
	c.Sample(Case{Kind: "jladder", Name: jobs[0].name, N: jobs[0].n})
}

func init() {
	register(&Check{ID: "C17", Level: "model_checking", Run: c17, Replay: func(k *Case) string {
		return jreplay(func(j *jworker) string {
			if k.Kind == "jladder" {
				msg, _ := c17Ladder(j, k.Name, k.N)
				return msg
			}
			r := decodeRun(k)
			e := r.expect()
			return e.verdict(j.run(r), r.lines)
		})
	},
		Rule:        "for each bounded configuration (items, separators, files, mode, path) the model reads the input as a sequence of values, evaluates each, and says which lists are due and whether the run fails; the jpath command built from the current tree is run on it, and its standard output, exit status and standard error compared; nontrivial traces have at least one result list",
		Assumptions: []string{"encoding/json decides what a JSON text is and what value it has"}})
}
