//go:build trees

package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"verif/mc/ref"

	"github.com/forsyth/jsonpath/mach"
	"github.com/forsyth/jsonpath/paths"
)

var treeOps = map[string]paths.Op{
	"*": paths.OpMul, "/": paths.OpDiv, "%": paths.OpMod, "+": paths.OpAdd, "-": paths.OpSub,
	"<": paths.OpLT, "<=": paths.OpLE, ">": paths.OpGT, ">=": paths.OpGE, "=~": paths.OpMatch, "in": paths.OpIn, "nin": paths.OpNin,
	"=": paths.OpEQ, "==": paths.OpEQ, "!=": paths.OpNE, "&&": paths.OpAnd, "||": paths.OpOr,
	"neg": paths.OpNeg, "!": paths.OpNot, "[]": paths.OpIndex, ".": paths.OpDot, "array": paths.OpArray, "call": paths.OpCall,
}

// treeExpr compares an expression tree with the model's, and gives the first difference.
func treeExpr(e paths.Expr, r *ref.Expr) string {
	if e == nil {
		return "an expression is nil"
	}
	op := e.Opcode()
	bad := func(want interface{}) string { return fmt.Sprintf("%#v, expected %v", e, want) }
	_, inner := e.(*paths.Inner)
	if e.IsLeaf() == inner || op.IsLeaf() == inner {
		return fmt.Sprintf("%#v: IsLeaf is %v", e, e.IsLeaf())
	}
	switch r.Op {
	case "lit":
		switch v := r.Lit.(type) {
		case int64:
			if l, ok := e.(*paths.IntLeaf); !ok || l.Val != v || op != paths.OpInt {
				return bad(v)
			}
		case float64:
			if l, ok := e.(*paths.FloatLeaf); !ok || math.Float64bits(l.Val) != math.Float64bits(v) || op != paths.OpReal {
				return bad(v)
			}
		case string:
			if l, ok := e.(*paths.StringLeaf); !ok || l.Val != v || op != paths.OpString {
				return bad(fmt.Sprintf("%q", v))
			}
		case bool:
			if l, ok := e.(*paths.BoolLeaf); !ok || l.Val != v || op != paths.OpBool {
				return bad(v)
			}
		case nil:
			if _, ok := e.(*paths.NullLeaf); !ok || op != paths.OpNull {
				return bad("null")
			}
		}
		return ""
	case "re":
		if l, ok := e.(*paths.RegexpLeaf); !ok || op != paths.OpRE || l.Pattern != r.Re.String() || l.Prog == nil || l.Prog.String() != l.Pattern {
			return bad("/" + r.Re.String() + "/")
		}
		return ""
	case "@", "$", "id":
		want, name := paths.OpID, r.Name
		switch r.Op {
		case "@":
			want, name = paths.OpCurrent, "@"
		case "$":
			want, name = paths.OpRoot, "$"
		}
		if l, ok := e.(*paths.NameLeaf); !ok || l.Name != name || op != want {
			return bad(name)
		}
		return ""
	}
	want, known := treeOps[r.Op]
	if !known {
		panic("harness: no op for " + r.Op)
	}
	t, ok := e.(*paths.Inner)
	if !ok || op != want || t.Op != want {
		return bad(r.Op)
	}
	kids := t.Kids
	for i := -1; i <= len(kids)+1; i++ {
		k, ok := t.Kid(i)
		if in := 0 <= i && i < len(kids); ok != in || in && k != kids[i] || !in && k != nil {
			return fmt.Sprintf("Kid(%d) of %d is %v, %v", i, len(kids), k, ok)
		}
	}
	name := func(i int) bool {
		l, ok := kids[i].(*paths.NameLeaf)
		return ok && l.Name == r.Name && l.Opcode() == paths.OpID && l.IsLeaf()
	}
	switch r.Op {
	case "call":
		if len(kids) == 0 || !name(0) {
			return bad("a call of " + r.Name)
		}
		kids = kids[1:]
	case ".":
		if len(kids) != 2 || !name(1) {
			return bad("." + r.Name)
		}
		kids = kids[:1]
	}
	if len(kids) != len(r.Kids) {
		return fmt.Sprintf("%v has %d operands, expected %d", op, len(kids), len(r.Kids))
	}
	for i, k := range kids {
		if msg := treeExpr(k, r.Kids[i]); msg != "" {
			return msg
		}
	}
	return ""
}

func treeBound(v paths.Val, b ref.Bound) string {
	switch {
	case v == nil && !b.Set:
		return ""
	case v == nil || !b.Set:
		return fmt.Sprintf("a slice bound is %v", v)
	case b.E != nil:
		e, ok := v.(paths.Expr)
		if !ok {
			return fmt.Sprintf("a slice bound is %#v, expected an expression", v)
		}
		return treeExpr(e, b.E)
	}
	if n, ok := v.(paths.IntVal); !ok || n.V() != b.N || n.Value() != b.N {
		return fmt.Sprintf("a slice bound is %#v, expected %d", v, b.N)
	}
	return ""
}

// treePath compares a path tree with the model's.
func treePath(p paths.Path, r *ref.Path) string {
	if len(p) != len(r.Steps) {
		return fmt.Sprintf("%d steps, expected %d", len(p), len(r.Steps))
	}
	for i, st := range p {
		if msg := treeStep(st, &r.Steps[i]); msg != "" {
			return fmt.Sprintf("step %d: %s", i+1, msg)
		}
	}
	return ""
}

func treeStep(st *paths.Step, r *ref.Step) string {
	want, nest := paths.OpSelect, paths.OpNestSelect
	switch {
	case r.Kind == "wild":
		want, nest = paths.OpWild, paths.OpNestWild
	case r.Kind == "filter":
		want, nest = paths.OpFilter, paths.OpNestFilter
	case r.Dot:
		want, nest = paths.OpMember, paths.OpNestMember
	case len(r.Sels) > 1:
		want, nest = paths.OpUnion, paths.OpNestUnion
	}
	if r.Nest {
		want = nest
	}
	if st.Op != want {
		return fmt.Sprintf("%#v, expected %#v", st.Op, want)
	}
	switch r.Kind {
	case "wild":
		if len(st.Args) != 0 {
			return "* has arguments"
		}
		return ""
	case "filter":
		if len(st.Args) != 1 {
			return "a filter has not just one argument"
		}
		e, ok := st.Args[0].(paths.Expr)
		if !ok {
			return fmt.Sprintf("the filter is %#v", st.Args[0])
		}
		return treeExpr(e, r.E)
	}
	if len(st.Args) != len(r.Sels) {
		return fmt.Sprintf("%d arguments, expected %d", len(st.Args), len(r.Sels))
	}
	for i, a := range st.Args {
		s := &r.Sels[i]
		bad := fmt.Sprintf("argument %d is %#v", i+1, a)
		switch s.Kind {
		case "name":
			switch a := a.(type) {
			case paths.NameVal:
				if a.S() != s.Name || a.Value() != a {
					return bad
				}
			case paths.StringVal:
				if a.S() != s.Name || a.Value() != s.Name {
					return bad
				}
			default:
				return bad
			}
		case "int":
			if n, ok := a.(paths.IntVal); !ok || n.V() != s.N || n.Value() != s.N {
				return bad
			}
		case "slice":
			sl, ok := a.(*paths.Slice)
			if !ok || sl == nil || sl.Value() != sl {
				return bad
			}
			for j, b := range []ref.Bound{s.Start, s.End, s.Strid} {
				if msg := treeBound([]paths.Val{sl.Start, sl.End, sl.Stride}[j], b); msg != "" {
					return msg
				}
			}
		case "expr":
			e, ok := a.(paths.Expr)
			if !ok {
				return bad
			}
			if msg := treeExpr(e, s.E); msg != "" {
				return msg
			}
		}
	}
	return ""
}

// treeText decides one path: its tree, and with a document also what a program made from the tree selects.
func treeText(text string, docs []string, listed map[string]bool) (msg string, n int) {
	if pan := recovered(func() { msg, n = treeCase(text, docs, listed) }); pan != "" {
		return "panic: " + pan, n
	}
	return msg, n
}

func treeCase(text string, docs []string, listed map[string]bool) (string, int) {
	r, rerr := ref.ParsePath(text)
	if rerr != nil {
		return "", 0
	}
	p, err := paths.ParsePath(text)
	if err != nil {
		return "", 0 // not this property's business
	}
	if msg := treePath(p, r); msg != "" {
		return msg, 1
	}
	// printing ends
	var all []string
	for _, st := range p {
		all = append(all, st.String())
		for _, a := range st.Args {
			all = append(all, a.String())
		}
	}
	prog, err := mach.Compile(p)
	if err != nil {
		return "mach.Compile: " + err.Error(), 1
	}
	list := prog.String()
	prog2, err := mach.Compile(p)
	if err != nil {
		return "mach.Compile again: " + err.Error(), 1
	}
	if msg := treePath(p, r); msg != "" {
		return "after mach.Compile: " + msg, 1
	}
	n := 1
	if r.Bare || docs == nil {
		return "", n
	}
	for _, d := range docs {
		v := decode(d)
		for i, g := range []*mach.Program{prog, prog2, prog} {
			got, err := g.Run(v)
			if msg := treeVerdict(got, err, r, v, listed); msg != "" {
				return fmt.Sprintf("program %d from the tree on %s: %s", i%2+1, d, msg), n
			}
			n++
		}
	}
	if msg := treePath(p, r); msg != "" {
		return "after evaluation: " + msg, n
	}
	if prog.String() != list {
		return "evaluation changed the program", n
	}
	// the same steps, used twice in a path of their own
	if len(p) > 0 && len(p) <= 2 {
		q, err := mach.Compile(append(append(paths.Path{}, p...), p...))
		if err != nil {
			return "mach.Compile of the steps twice: " + err.Error(), n
		}
		rr := &ref.Path{Text: text, Steps: append(append([]ref.Step{}, r.Steps...), r.Steps...)}
		for _, d := range docs {
			v := decode(d)
			got, err := q.Run(v)
			if msg := treeVerdict(got, err, rr, v, listed); msg != "" {
				return fmt.Sprintf("the steps twice, on %s: %s", d, msg), n
			}
			n++
		}
	}
	return "", n
}

func treeVerdict(got []interface{}, err error, r *ref.Path, v interface{}, listed map[string]bool) string {
	t, rerr := ref.Eval(r, v, ref.Quirks{})
	msg := disagree(got, err, "", t, rerr)
	if msg == "" {
		return ""
	}
	for _, q := range quirkList {
		if t, rerr := ref.Eval(r, v, q.q); listed[q.key] && disagree(got, err, "", t, rerr) == "" {
			return ""
		}
	}
	return msg
}

// scriptCase decides one script expression: its tree, and what it means put into paths.
func scriptCase(text string, docs []string, listed map[string]bool) (msg string, n int) {
	if pan := recovered(func() { msg, n = scriptTree(text, docs, listed) }); pan != "" {
		return "panic: " + pan, n
	}
	return msg, n
}

func scriptTree(text string, docs []string, listed map[string]bool) (string, int) {
	r, bare, rerr := ref.ParseExpr(text)
	if rerr != nil {
		return "", 0
	}
	e, err := paths.ParseScriptExpression(text)
	if err != nil {
		return "", 0
	}
	if msg := treeExpr(e, r); msg != "" {
		return msg, 1
	}
	_ = e.String()
	n := 1
	for _, p := range []paths.Path{
		{{Op: paths.OpFilter, Args: []paths.Val{e}}},
		{{Op: paths.OpUnion, Args: []paths.Val{&paths.Slice{Start: e}, &paths.Slice{End: e, Stride: e}}}, {Op: paths.OpNestSelect, Args: []paths.Val{e}}},
	} {
		if _, err := mach.Compile(p); err != nil {
			return "mach.Compile: " + err.Error(), n
		}
		if msg := treeExpr(e, r); msg != "" {
			return "after mach.Compile: " + msg, n
		}
	}
	if bare || docs == nil {
		return "", n
	}
	sel := func(e *ref.Expr) []ref.Sel { return []ref.Sel{{Kind: "expr", E: e}} }
	for i, x := range []struct {
		p paths.Path
		r []ref.Step
	}{
		{paths.Path{{Op: paths.OpFilter, Args: []paths.Val{e}}}, []ref.Step{{Kind: "filter", E: r}}},
		{paths.Path{{Op: paths.OpNestFilter, Args: []paths.Val{e}}, {Op: paths.OpFilter, Args: []paths.Val{e}}}, []ref.Step{{Kind: "filter", Nest: true, E: r}, {Kind: "filter", E: r}}},
		{paths.Path{{Op: paths.OpSelect, Args: []paths.Val{e}}}, []ref.Step{{Kind: "sel", Sels: sel(r)}}},
		{paths.Path{{Op: paths.OpNestMember, Args: []paths.Val{e}}, {Op: paths.OpFilter, Args: []paths.Val{e}}}, []ref.Step{{Kind: "sel", Nest: true, Dot: true, Sels: sel(r)}, {Kind: "filter", E: r}}},
		{paths.Path{{Op: paths.OpFilter, Args: []paths.Val{&paths.Inner{Op: paths.OpEQ, Kids: []paths.Expr{e, e}}}}}, []ref.Step{{Kind: "filter", E: &ref.Expr{Op: "==", Kids: []*ref.Expr{r, r}}}}},
	} {
		prog, err := mach.Compile(x.p)
		if err != nil {
			return "mach.Compile: " + err.Error(), n
		}
		for _, d := range docs {
			v := decode(d)
			got, err := prog.Run(v)
			if msg := treeVerdict(got, err, &ref.Path{Steps: x.r}, v, listed); msg != "" {
				return fmt.Sprintf("in path %d, on %s: %s", i+1, d, msg), n
			}
			n++
		}
		if msg := treeExpr(e, r); msg != "" {
			return "after use: " + msg, n
		}
	}
	return "", n
}

func (w *Worker) tree(kind, text string, docs []string) {
	k := Case{Kind: kind, Path: Text(text)}
	if docs != nil {
		k.N = 1
	}
	if len(text) < 4000 {
		w.slot.begin('l', jtext(k), "")
	}
	var msg string
	var n int
	if kind == "tree" {
		msg, n = treeText(text, docs, w.c.listed)
	} else {
		msg, n = scriptCase(text, docs, w.c.listed)
	}
	w.slot.clear()
	w.trans++
	if n > 0 {
		w.traces += n
		w.nontriv++
		if len(w.states) < maxStates {
			w.states[hashString(kind+text)] = struct{}{}
		}
	}
	if msg != "" {
		k.Msg = msg
		w.c.Violation(k)
	}
}

var c20Docs = []string{
	`{"a":[{"a":1,"b":[2,"x"]},[3,4],"s",null],"b":{"a":{"a":true},"0":5},"x":1,"0":[6]}`,
	`[[1,2,3],{"a":4,"b":[5,{"a":7}]},8,"a",null,true,[[9],[10,"x"]]]`,
}

func c20(c *Ctx) {
	tree := func(w *Worker, t string) { w.tree("tree", t, nil) }
	run := func(w *Worker, t string) { w.tree("tree", t, c20Docs) }
	script := func(w *Worker, t string) { w.tree("script", t, nil) }
	srun := func(w *Worker, t string) { w.tree("script", t, c20Docs) }

	// every accepted sequence of tokens
	n := 5
	if c.thorough {
		n = 6
	}
	expr := []string{"@", "$", "a", "1", "1.5", "'x'", "/a/", "(", ")", "[", "]", ".", ",", "-", "!", "==", "<", "&&", "+", " in ", "true", "=~", "*", "="}
	brackets := []string{"a", "0", "2", "-1", "'x'", ",", ":", "(", ")", "@", "*", "?(", "[", "]", ".", "..", "1.5"}
	for k := 0; k <= n; k++ {
		f, g := srun, run
		if k >= 4 {
			f, g = script, tree
		}
		c.words(expr, k, "", "", "", f)
		if k < n {
			c.words(expr, k, " ", " ", "\n", script)
			c.words(expr, k, "", "$[?(", ")]", tree)
		}
		c.words(brackets, k, "", "$[", "]", g)
		c.words(brackets, k, "", "$..[", "]", tree)
		c.words(brackets, k, "", "$", "", g)
		c.words(brackets, k, "\t", "$", " ", tree)
	}
	c.Bound("trees of all sequences of <= %d tokens that are valid, of %d as a script expression and of %d in a path and in brackets; programs made from those of <= 3 tokens", n, len(expr), len(brackets))

	// every sequence of steps
	steps := []string{".a", ".*", ".0", ".-1", ".(0)", ".('a')", "[0]", "[-1]", "['a']", "[a]", "[*]", "[0,'a']", "['a',b,-1]", "[1:]", "[:1]", "[0:2:1]", "[::-1]", "[0,1:,'a']", "[(0)]", "[('a'):]", "[:(1)]", "[::(-1)]", "[(0):(2):(1)]", "[?(@)]", "[?(@.a)]", "[?(@[0]==1)]", "[?(!@.a||@>2)]",
		"..a", "..*", "..0", "..-1", "..(0)", "..[0]", "..[*]", "..['a']", "..[a,0]", "..[1:]", "..[(0)]", "..[?(@.a)]", "..[-1,:1]"}
	max := 3
	if c.thorough {
		max = 4
	}
	two := prefixed("$", seqs(steps, 0, 2, ""), "")
	c.Parallel(len(two), func(w *Worker, i int) { run(w, two[i]) })
	for k := 3; k <= max; k++ {
		c.words(steps, k, "", "$", "", tree)
	}
	c.Bound("trees of all sequences of <= %d of %d steps, programs made from the %d of <= 2 steps and from each of those twice over", max, len(steps), len(two))

	// every sequence of operators, and every grouping
	max = 3
	if c.thorough {
		max = 4
	}
	operands := []string{"@.a", "2", "$[1]", "'x'", "@"}
	var es, deep []string
	un := []string{"", "-", "!", "!-", "--"}
	for k := 1; k <= max; k++ {
		for _, ops := range opSeqs(append(append([]string{}, c07Ops...), "="), k) {
			es = append(es, chain(operands[:k+1], ops, " "))
			if k <= 3 {
				es = append(es, groupings(operands[:k+1], ops, "")...)
			}
			if k <= 2 {
				deep = append(deep, chain(operands[:k+1], ops, " "))
				deep = append(deep, partial(operands[:k+1], ops)...)
				for _, u := range un {
					for i := 0; i <= k; i++ {
						a := append([]string{}, operands[:k+1]...)
						a[i] = u + a[i]
						deep = append(deep, chain(a, ops, " "))
					}
				}
			}
		}
	}
	for _, t := range un {
		for _, x := range []string{"@", "@.a.b", "@[0].a[1]", "a(1)", "max(@,[1,2][0],'x').length", "[@,[1,[2]]]", "abs(-(1))[0]", "(@)[(1)]", "((@.a))", "tokenize('a',\"b\")[-1]", "$['a']", "$.x[@]", "[]", "max()", "$[0][1].a.b[2]", "@=~/a\\/b/", "1.5e3", "true", "false", "null", "length(keys($))"} {
			deep = append(deep, t+x, t+"("+x+")", t+"(("+x+"))")
		}
	}
	es, deep = uniq(es), uniq(deep)
	c.Parallel(len(es), func(w *Worker, i int) {
		script(w, es[i])
		if i%7 == 0 {
			tree(w, "$[?("+es[i]+")][("+es[i]+")]")
		}
	})
	c.Parallel(len(deep), func(w *Worker, i int) { srun(w, deep[i]) })
	c.Bound("trees of all %d chains of <= %d operators and their groupings; programs made by putting each of %d script expressions into five paths", len(es), max, len(deep))

	// constants
	var consts []string
	for _, s := range []string{"0", "1", "4194303", "4194304", "8388607", "8388608", "16777216", "2147483647", "2147483648", "4294967296", "9007199254740993", "9223372036854775806", "9223372036854775807"} {
		consts = append(consts, s, "-"+s, "0"+s, "000"+s)
	}
	for _, s := range []string{"0.0", "1.", "1.5", "0.1", "1.0e0", "1.5E3", "2.5e-3", "1.7976931348623157e308", "4.9e-324", "123456789012345678.5", "0.30000000000000004", "1.e2"} {
		consts = append(consts, s, "-"+s)
	}
	var strs []string
	for _, s := range seqs([]string{"a", "'", `"`, `\\`, `\n`, `\u0041`, `\ud83d`, `\ude00`, "é", "/", " ", "]", "?"}, 0, 3, "") {
		strs = append(strs, "'"+strings.ReplaceAll(s, "'", `\'`)+"'", `"`+strings.ReplaceAll(s, `"`, `\"`)+`"`)
	}
	var res []string
	for _, s := range seqs([]string{"a", `\/`, `\\`, `\d`, "[/]", "(", ")", "*", "'", " ", "é"}, 1, 3, "") {
		res = append(res, "@=~/"+s+"/", "/"+s+"/")
	}
	var nms []string
	for _, s := range seqs([]string{"a", "-", "_", "0", "é", "in", "true", "B"}, 1, 3, "") {
		nms = append(nms, s)
	}
	cs := uniq(append(append(append([]string{}, consts...), strs...), append(res, nms...)...))
	c.Parallel(len(cs), func(w *Worker, i int) {
		s := cs[i]
		f, g := srun, run
		if i%5 != 0 && len(s) > 4 {
			f, g = script, tree
		}
		f(w, s)
		f(w, "@=="+s)
		script(w, "[1,"+s+"]")
		script(w, "@."+s)
		script(w, s+"(1)")
		g(w, "$["+s+"]")
		g(w, "$."+s)
		tree(w, "$.."+s)
		tree(w, "$["+s+":"+s+":"+s+"]")
		tree(w, "$[:"+s+":"+s+",::"+s+"]")
		tree(w, "$[0,"+s+"]")
	})
	c.Bound("trees of %d constants, strings, patterns and names, in 10 positions", len(cs))

	// sizes
	top := 40
	if c.thorough {
		top = 200
	}
	var names []string
	for name := range ladders {
		names = append(names, name)
	}
	sort.Strings(names)
	sizes := ints(upto(1, top), []int{127, 128, 129, 255, 256, 257, 511, 512, 513})
	sizes = append([]int{65537, 16385, 4099, 2049}, sizes...)
	c.Parallel(len(sizes)*len(names), func(w *Worker, i int) {
		for _, x := range ladders[names[i%len(names)]](sizes[i/len(names)]) {
			if !c.Late() {
				tree(w, x.path)
			}
		}
	})
	c.Bound("trees of the %d sized families of all the checks at %d sizes up to %d", len(names), len(sizes), sizes[0])
	c.Sample(deep[17])
	c.Sample(two[99])
}

func init() {
	register(&Check{ID: "C20", Level: "model_checking", Run: c20,
		Replay: func(k *Case) string {
			var docs []string
			if k.N == 1 {
				docs = c20Docs
			}
			var msg string
			if k.Kind == "tree" {
				msg, _ = treeText(string(k.Path), docs, listedFindings("C20"))
			} else {
				msg, _ = scriptCase(string(k.Path), docs, listedFindings("C20"))
			}
			return msg
		},
		Rule: "every bounded text that the grammar derives is parsed by the model and by paths.ParsePath or ParseScriptExpression, and the trees compared node by node; the trees are then compiled, once, again, and put into other paths, and what the programs select is compared with the model"})
}
