package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"verif/mc/ref"
)

// shape is a document tree: 'v' scalar, 'a' array, 'o' object.
type shape struct {
	kind byte
	kids []*shape
}

// shapes lists every tree with exactly n nodes.
func shapes(n int) []*shape { return shapesMemo(n, map[int][]*shape{}, map[int][][]*shape{}) }

func shapesMemo(n int, memo map[int][]*shape, fmemo map[int][][]*shape) []*shape {
	if s, ok := memo[n]; ok {
		return s
	}
	var out []*shape
	if n == 1 {
		out = append(out, &shape{kind: 'v'})
	}
	for _, f := range forests(n-1, memo, fmemo) {
		out = append(out, &shape{'a', f}, &shape{'o', f})
	}
	memo[n] = out
	return out
}

// forests lists every sequence of trees with n nodes in all.
func forests(n int, memo map[int][]*shape, fmemo map[int][][]*shape) [][]*shape {
	if n == 0 {
		return [][]*shape{nil}
	}
	if f, ok := fmemo[n]; ok {
		return f
	}
	var out [][]*shape
	for k := 1; k <= n; k++ {
		for _, t := range shapesMemo(k, memo, fmemo) {
			for _, rest := range forests(n-k, memo, fmemo) {
				out = append(out, append([]*shape{t}, rest...))
			}
		}
	}
	fmemo[n] = out
	return out
}

var keyNames = []string{"a", "b", "c", "d", "e", "f", "g", "h"}

// text renders the tree as JSON; leaf gives the text of the n'th scalar.
func (s *shape) text(n *int, leaf func(int) string) string {
	switch s.kind {
	case 'v':
		*n++
		return leaf(*n)
	case 'a':
		var p []string
		for _, k := range s.kids {
			p = append(p, k.text(n, leaf))
		}
		return "[" + strings.Join(p, ",") + "]"
	}
	var p []string
	for i, k := range s.kids {
		p = append(p, strconv.Quote(keyNames[i])+":"+k.text(n, leaf))
	}
	return "{" + strings.Join(p, ",") + "}"
}

func number(n int) string { return strconv.Itoa(n) }

// mixed gives scalars of every kind in turn, distinct where the kind allows.
func mixed(n int) string {
	switch n % 5 {
	case 1:
		return strconv.Itoa(n)
	case 2:
		return fmt.Sprintf(`"s%d"`, n)
	case 3:
		return "null"
	case 4:
		return "true"
	}
	return "0"
}

// treeDocs lists all documents with up to n nodes and scalars given by leaf.
func treeDocs(n int, leaf func(int) string) []string {
	var out []string
	memo, fmemo := map[int][]*shape{}, map[int][][]*shape{}
	for k := 1; k <= n; k++ {
		for _, s := range shapesMemo(k, memo, fmemo) {
			i := 0
			out = append(out, s.text(&i, leaf))
		}
	}
	return out
}

// seqs lists all sequences of up to max elements (at least min) of the alphabet, joined.
func seqs(alpha []string, min, max int, sep string) []string {
	var out []string
	cur := []string{""}
	for n := 0; n <= max; n++ {
		if n >= min {
			out = append(out, cur...)
		}
		if n == max {
			break
		}
		var next []string
		for _, p := range cur {
			for _, a := range alpha {
				if n == 0 {
					next = append(next, a)
				} else {
					next = append(next, p+sep+a)
				}
			}
		}
		cur = next
	}
	return out
}

func prefixed(pre string, ss []string, suf string) []string {
	out := make([]string, len(ss))
	for i, s := range ss {
		out[i] = pre + s + suf
	}
	return out
}

func uniq(ss []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range ss {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func jtext(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// ---- size ladders

type pair struct{ path, doc string }

// ladders give, for a size n, path/document pairs of that size.
var ladders = map[string]func(n int) []pair{}

// Ladder runs the named ladders at the given sizes.
func (c *Ctx) Ladder(sizes []int, names ...string) {
	type job struct {
		name string
		n    int
	}
	var jobs []job
	for _, n := range sizes {
		for _, nm := range names {
			if ladders[nm] == nil {
				panic("no ladder " + nm)
			}
			jobs = append(jobs, job{nm, n})
		}
	}
	c.Parallel(len(jobs), func(w *Worker, i int) {
		j := jobs[i]
		k := Case{Kind: "ladder", Name: j.name, N: j.n}
		w.slot.begin('l', jtext(k), "")
		for _, msg := range []string{w.ladder(j.name, j.n)} {
			if msg != "" {
				k.Msg = msg
				c.Violation(k)
			}
		}
		w.slot.clear()
		w.counts["ladder "+j.name]++
	})
}

// Far runs the ladders at a few sizes that are far beyond the others.
func (c *Ctx) Far(names ...string) {
	sizes := []int{131073, 100003, 65537, 32771, 16385, 9999, 4099, 2049}
	c.Bound("the same ladders at sizes %v", sizes)
	c.Ladder(sizes, names...)
}

// ladder runs one rung and returns the first disagreement.
func (w *Worker) ladder(name string, n int) string {
	var prevText string
	var doc interface{}
	for _, pr := range ladders[name](n) {
		if pr.doc != prevText || doc == nil {
			doc, prevText = decode(pr.doc), pr.doc
		}
		p := compileBoth(pr.path)
		if msg := p.compileVerdict(); msg != "" {
			return clipS(pr.path) + ": " + msg
		}
		if p.Impl == nil {
			w.traces++
			continue
		}
		m := refMachine(w, doc)
		o := compareEval(p, doc, m)
		w.traces++
		w.trans += m.Trans
		if o.tree != nil && o.tree.N > 0 {
			w.nontriv++
		}
		w.states[hashString(name)*31+uint64(n)*1000003+p.hash] = struct{}{}
		if o.msg != "" && !(o.finding != "" && w.c.listed[o.finding]) {
			return clipS(pr.path) + ": " + o.msg
		}
	}
	return ""
}

func upto(a, b int) []int {
	var s []int
	for i := a; i <= b; i++ {
		s = append(s, i)
	}
	return s
}

// around lists sizes around powers of two up to 2^k.
func around(k int) []int {
	var s []int
	for i := 5; i <= k; i++ {
		s = append(s, 1<<i-1, 1<<i, 1<<i+1)
	}
	return s
}

// near gives the sizes at most d from n.
func near(n, d int) []int {
	var s []int
	for i := n - d; i <= n+d; i++ {
		s = append(s, i)
	}
	return s
}

func ints(a ...[]int) []int {
	seen := map[int]bool{}
	var out []int
	for _, s := range a {
		for _, n := range s {
			if !seen[n] {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	return out
}

// replayAny decides eval, compile and ladder cases.
func replayLadder(k *Case) string {
	c := newCtx(checks[k.Check], false, 1)
	w := c.worker(0)
	return w.ladder(k.Name, k.N)
}

func numArray(n int) string {
	var sb strings.Builder
	sb.WriteByte('[')
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(strconv.Itoa(i * 10))
	}
	sb.WriteByte(']')
	return sb.String()
}

func numObject(n int) string {
	var sb strings.Builder
	sb.WriteByte('{')
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteByte(',')
		}
		fmt.Fprintf(&sb, `"m%d":%d`, i, i*10)
	}
	sb.WriteByte('}')
	return sb.String()
}

// nested gives depth n containers around inner, alternating by kinds ("a", "o", "ao").
func nested(n int, kinds, inner string) string {
	var pre, suf strings.Builder
	var tails []string
	for i := 0; i < n; i++ {
		if kinds[i%len(kinds)] == 'a' {
			pre.WriteString(fmt.Sprintf("[%d,", i))
			tails = append(tails, fmt.Sprintf(",%d]", -i-1))
		} else {
			pre.WriteString(fmt.Sprintf(`{"k":"k%d","a":`, i))
			tails = append(tails, "}")
		}
	}
	for i := n - 1; i >= 0; i-- {
		suf.WriteString(tails[i])
	}
	return pre.String() + inner + suf.String()
}

// refValue is the model's value of a constant expression.
func refValue(e string) interface{} {
	x, _, err := ref.ParseExpr(e)
	if err != nil {
		panic("harness: bad expression " + e)
	}
	return (&ref.Machine{}).Expr(x, nil)
}
