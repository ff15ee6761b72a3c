package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"verif/mc/ref"
)

// edgeInts lists the integers around every power of two (and ten) that 64 bits hold.
func edgeInts() []int64 {
	seen := map[int64]bool{}
	var out []int64
	add := func(b *big.Int) {
		if b.IsInt64() && !seen[b.Int64()] && b.Int64() > math.MinInt64 {
			seen[b.Int64()] = true
			out = append(out, b.Int64())
		}
	}
	for _, base := range []int64{2, 10} {
		for k := int64(0); k <= 63; k++ {
			p := new(big.Int).Exp(big.NewInt(base), big.NewInt(k), nil)
			for d := int64(-3); d <= 3; d++ {
				x := new(big.Int).Add(p, big.NewInt(d))
				add(x)
				add(new(big.Int).Neg(x))
				h := new(big.Int).Add(new(big.Int).Rsh(new(big.Int).Mul(p, big.NewInt(3)), 1), big.NewInt(d))
				add(h)
				add(new(big.Int).Neg(h))
			}
		}
	}
	return out
}

// intCase checks one integer constant in every position that shows its exact value.
func intCase(n int64) string {
	s := strconv.FormatInt(n, 10)
	o := map[string]interface{}{}
	put := func(b *big.Int, v string) {
		if _, ok := o[b.String()]; !ok {
			o[b.String()] = v
		}
	}
	b := big.NewInt(n)
	put(b, "hit")
	for d := int64(-2); d <= 2; d++ {
		put(new(big.Int).Add(b, big.NewInt(d)), fmt.Sprint("near", d))
	}
	put(new(big.Int).Neg(b), "negated")
	for _, k := range []uint{8, 9, 16, 22, 23, 24, 31, 32, 53} {
		m := new(big.Int).Lsh(big.NewInt(1), k)
		put(new(big.Int).Mod(b, m), "masked")
		put(new(big.Int).Sub(new(big.Int).Mod(b, m), m), "masked")
		put(new(big.Int).Sub(b, m), "wrapped")
		put(new(big.Int).Add(b, m), "wrapped")
	}
	put(big.NewInt(0), "zero")
	put(big.NewInt(math.MinInt64), "least")
	f := float64(n)
	doc := map[string]interface{}{"o": o, "a": []interface{}{"e0", "e1", "e2", "e3", "e4"}, "f": []interface{}{f, math.Nextafter(f, math.Inf(1)), math.Nextafter(f, math.Inf(-1)), -f, 0.0, 1.0}}
	e := s
	if n < 0 {
		e = "(" + s + ")"
	}
	probes := []string{
		"$.o[S]", "$.o.S", "$..[S]", "$..S", "$.o[S,'zero']", "$.o['zero',S]", "$.o[S,S]", "$.o[(E)]", "$.o.(E)", "$..[(E)]", "$.o[(E+0)]", "$.o[(0+E)]", "$.o[(E*1)]", "$.o[(0-(0-E))]", "$.o[([E][0])]", "$.o[([1,E,2][1])]", "$.o[(abs(E))]", "$.o[(ceil(E))]", "$.o[(floor(E))]", "$.o[(to_number(E))]", "$.o[(E||1)]", "$.o[(1&&E)]",
		"$[?(@[E]=='hit')]", "$.f[?(@==E)]", "$.f[?(E==@)]", "$.f[?(@!=E)]", "$.f[?(@<E)]", "$.f[?(@>=E)]", "$.f[?(E-1<@)]", "$.f[?(@ in [E])]", "$.f[?(@ in [0,E,1])]", "$.f[?(contains([E],@))]", "$.f[?(@==max(E,E))]", "$.f[?(E==E+1-1)]", "$.f[?(E!=E+1)]", "$.f[?(E%7==(E+7)%7||E<0)]",
		"$.a[S]", "$.a[S,S]", "$.a.S", "$.a[S:]", "$.a[:S]", "$.a[::S]", "$.a[S:S]", "$.a[1:S]", "$.a[S:4]", "$.a[4:S:-1]", "$.a[S::-1]", "$.a[0:9:S]", "$.a[0,S:,1]", "$.a[(E)]", "$.f[?($.a[E]==$.a[E])]", "$..[S:]",
	}
	for _, pr := range probes {
		p := compileBoth(strings.ReplaceAll(strings.ReplaceAll(pr, "S", s), "E", e))
		if msg := p.compileVerdict(); msg != "" {
			return p.Text + ": " + msg
		}
		if p.Impl == nil {
			continue
		}
		if o := compareEval(p, doc, &ref.Machine{Root: doc}); o.msg != "" {
			return p.Text + ": " + o.msg
		}
	}
	return ""
}

// realCase checks one real constant, given its text.
func realCase(s string) string {
	f, err := strconv.ParseFloat(s, 64)
	doc := map[string]interface{}{"f": []interface{}{f, math.Nextafter(f, math.Inf(1)), math.Nextafter(f, math.Inf(-1)), -f, math.Trunc(f), f * 2, 0.0, 1.0, "x"}, "a": []interface{}{"e0", "e1", "e2"}}
	for _, pr := range []string{"$.f[?(@==S)]", "$.f[?(S==@)]", "$.f[?(@<S)]", "$.f[?(@>=S)]", "$.f[?(@==-S)]", "$.f[?(@==S*2)]", "$.f[?(@ in [1,S])]", "$.f[?(@==[S][0])]", "$.f[?(@==max(S,S))]", "$.f[?(@==abs(S))]", "$.f[?(@==floor(S))]", "$.f[?(S)]", "$.f[?(S-S==0)]", "$.a[(S)]", "$.f[?(@==S&&S!=S+1)]", "$.f[?(@==S+0)]"} {
		p := compileBoth(strings.ReplaceAll(pr, "S", s))
		if msg := p.compileVerdict(); msg != "" {
			return p.Text + ": " + msg
		}
		if err != nil || p.Impl == nil {
			continue
		}
		if o := compareEval(p, doc, &ref.Machine{Root: doc}); o.msg != "" {
			return p.Text + ": " + o.msg
		}
	}
	return ""
}

func (w *Worker) one(k Case, f func() string) {
	w.slot.begin('l', jtext(k), "")
	msg := f()
	w.slot.clear()
	w.traces++
	w.trans++
	w.nontriv++
	if len(w.states) < maxStates {
		w.states[hashString(jtext(k))] = struct{}{}
	}
	if msg != "" {
		k.Msg = msg
		w.c.Violation(k)
	}
}

func replay10(k *Case) string {
	switch k.Kind {
	case "int":
		n, _ := strconv.ParseInt(k.Name, 10, 64)
		return intCase(n)
	case "real":
		return realCase(k.Name)
	}
	return replayLadder(k)
}

// constants that look alike or have equal values
var c10Consts = []string{"0", "1", "2", "8388608", "0.0", "1.0", "1.5", "8388608.0", "2.0e0", "'0'", "'1'", "'1.0'", "''", "'true'", "'null'", "'a'", "'length'", "true", "false", "null", "'8388608'", "9223372036854775807", "9223372036854775806", "9223372036854775807.0", "4294967296", "'max'", "'@'", "'\\u0061'", `"a"`, "'-1'"}

var c10Steps = []string{
	".a", "['a']", "[a]", "..a", "[('a')]", "[?(@.a)]", "[?(@['a'])]", "[?(@=='a')]", "[?(@=~/a/)]", "[?(@=~'a')]", "[?('a')]",
	".1", "[1]", "['1']", "[1:]", "[:1]", "[::1]", "[1:1]", "[1,'1']", "[(1)]", "[('1')]", "[(1.0)]", "[?(@==1)]", "[?(@==1.0)]", "[?(@=='1')]", "[?(@=~/1/)]", "[?(@[1])]", "[?(@['1'])]", "[?(1)]", "[-1]", "[?(@==-1)]", "[1:1:1]", "[-1:]", "[::-1]",
	"['true']", ".true", "[?(@==true)]", "[?(@.true)]", "[?(@=='true')]", "[?(true)]", "['length']", ".length", "[?(@.length==1)]", "[?(length(@)==1)]", "[8388608]", "['8388608']", "[?(@==8388608)]", "[?(@==8388608.0)]", "[?(@=='8388608')]", "[8388608:]", "[?(@[8388608])]", "[*]", "[?(@==null)]", "['null']",
}

var c10Docs = []string{
	`{"a":[{"a":"a","1":1,"true":true,"length":"1"},"a","1",1,true,"true",8388608,"8388608",null,"null",[0,1,2],-1],"1":["x",{"a":{"a":1}},{"1":{"a":"b"}}],"true":{"true":{"a":1},"a":{"true":"t"}},"length":[{"length":5}],"8388608":[{"8388608":1,"a":8388608},8388608],"null":{"null":1},"-1":{"a":"neg"}}`,
	`[{"a":{"1":["a",1,"1"]},"1":{"a":[1]}},[{"a":1},[1,"a",true],{"1":"a"}],"a","1",1,true,"true",8388608,"null",null]`,
	`{"1":{"1":{"1":["1",1,"a",true]}},"a":{"a":{"a":["a",1,"1"]}}}`,
}

func c10(c *Ctx) {
	edges := edgeInts()
	c.Parallel(len(edges), func(w *Worker, i int) {
		w.one(Case{Kind: "int", Name: fmt.Sprint(edges[i])}, func() string { return intCase(edges[i]) })
	})
	span := 600
	if c.thorough {
		span = 9000
	}
	c.Parallel(2*span, func(w *Worker, i int) {
		for _, base := range []int64{0, 1 << 22, -(1 << 22), 1 << 23, -(1 << 23)} {
			n := base + int64(i-span)
			w.one(Case{Kind: "int", Name: fmt.Sprint(n)}, func() string { return intCase(n) })
		}
	})
	c.Bound("each of %d integers around the powers of 2 and 10, and all within %d of 0, ±2^22, ±2^23, in 52 positions", len(edges), span)
	var reals []string
	for _, i := range []string{"0", "1", "7", "12", "00", "9007199254740993", "4503599627370497", "123456789012345678", "179769313486231570000"} {
		for _, fr := range []string{"", "0", "1", "5", "25", "000001", "49999999999999994", "9999999999999999999", "1000000000000000055511151231257827"} {
			for _, e := range []string{"", "e0", "e1", "E2", "e-1", "e+5", "e22", "e-22", "e100", "e-320", "e308", "e-324", "e00001"} {
				reals = append(reals, i+"."+fr+e)
			}
		}
	}
	for _, s := range []string{"2.2250738585072011e-308", "2.2250738585072014e-308", "5e-324", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "0.1", "0.2", "0.3", "0.30000000000000004", "1.1", "2.2", "3.3"} {
		if strings.Contains(s, ".") {
			reals = append(reals, s)
		}
	}
	c.Parallel(len(reals), func(w *Worker, i int) {
		w.one(Case{Kind: "real", Name: reals[i]}, func() string { return realCase(reals[i]) })
	})
	c.Bound("%d reals in 16 positions, against their neighbours", len(reals))

	// look-alikes: pairs and triples in one expression, each constant seen through probes of value and kind
	probes := []string{"$.c[?(@==K)]", "$.c[?(@<=K)]", "$.c[?(@==K/2)]", "$.c[?(@==length(K))]", "$.c[?(@==!K)]", "$.c[?(@==abs(K))]"}
	doc := `{"c":[0,1,2,0.5,0.75,1.5,8388608,4194304,4294967296,9223372036854775807,4611686018427387903,4611686018427387904,"0","1","1.0","","true","null","a","length","max","@","8388608","-1",true,false,null,3,4,6,7,5]}`
	var paths []string
	for _, a := range c10Consts {
		for _, b := range c10Consts {
			for k := 0; k < 2; k++ {
				for _, pr := range probes {
					paths = append(paths, strings.ReplaceAll(pr, "K", fmt.Sprintf("[%s,%s][%d]", a, b, k)))
				}
			}
			for _, d := range c10Consts {
				for k := 0; k < 3; k++ {
					paths = append(paths, strings.ReplaceAll(probes[0], "K", fmt.Sprintf("[%s,%s,%s][%d]", a, b, d, k)))
				}
			}
			paths = append(paths, "$.c[?(@=="+a+")][?("+b+")]", "$.c[?(@=="+a+"||@=="+b+")]", "$.c[?(@=="+a+"||@=="+b+"||@=="+a+")]", "$.c[?(@!="+a+"&&@!="+b+")]", "$.c[?(@ in ["+a+","+b+","+a+"])]", "$.c[?("+a+"=="+b+")]", "$.c[?("+a+"<"+b+")]", "$.c[?("+a+"+"+b+"==@)]", "$.c[?(contains(["+a+"],"+b+"))]", "$.c[?(max("+a+","+b+")==@)]")
		}
	}
	c.Bound("all pairs and triples of %d look-alike constants in one expression: %d paths", len(c10Consts), len(paths))
	c.Grid(paths, []string{doc})
	n := 3
	paths = prefixed("$", seqs(c10Steps, 1, n, ""), "")
	c.Bound("all paths of <= %d of %d steps built on the same few constants in every role: %d paths", n, len(c10Steps), len(paths))
	c.Grid(paths, c10Docs)
	var pats []string
	res := []string{"/a/", "/1/", "/^a$/", "/a|1/", "'a'", "'1'", "'^a$'", "/A/", "/(?i)A/", `/\//`, "/./", "/^$/", "''", "/true/"}
	for _, a := range res {
		for _, b := range res {
			for _, d := range res {
				pats = append(pats, "$[?(@=~"+a+"||@=~"+b+"&&@=~"+d+")]", "$[?(@=~"+a+")][?(@.a=~"+b+")]")
			}
			pats = append(pats, "$[?(@=~"+a+"&&@=="+strings.ReplaceAll(b, "/", "'")+")]")
		}
	}
	c.Bound("all triples of %d patterns, literal and dynamic, in one path", len(res))
	c.Grid(uniq(pats), []string{`["a","1","A","a1","/","","true","^a$","a|1"]`, `[]`})

	// slices whose bounds coincide with each other and with indices
	var sl []string
	bs := []string{"", "0", "1", "2", "-1", "-2", "3", "8388608"}
	for _, a := range bs {
		for _, b := range bs {
			for _, s := range bs {
				one := a + ":" + b + ":" + s
				sl = append(sl, "$["+one+"]", "$["+one+",0]", "$[1,"+one+",1:2]", "$["+one+","+one+"]", "$["+b+":"+a+":"+s+","+one+"]", "$["+one+"]["+one+"]", "$[?(@==1)]["+one+"]")
			}
		}
	}
	c.Grid(sl, []string{`[0,1,2,3,4]`, `[[0,1,2],[3,4,5],[6,7,8],1]`})

	sizes := ints(upto(1, 40), []int{63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537})
	if c.thorough {
		sizes = ints(sizes, upto(40, 300), around(15), []int{100000, 131071, 131072, 131073})
	}
	c.Bound("%d constants of each kind, distinct and repeated, in one path, for %d sizes up to %d", sizes[len(sizes)-1], len(sizes), sizes[len(sizes)-1])
	c.Ladder(sizes, "const-ints", "const-reals", "const-strings", "const-names", "const-mixed", "const-patterns", "const-slices")
	c.Far("const-ints", "const-reals", "const-strings", "const-names", "const-mixed", "const-patterns", "const-slices")
	c.Sample(map[string]string{"path": paths[len(paths)/3], "doc": c10Docs[0]})
}

func init() {
	register(&Check{ID: "C10", Level: "model_checking", Run: c10, Replay: replay10,
		Rule: "every constant of the bounded alphabets is placed in every position, alone and with every other, and its value read back through the model's and the implementation's results"})
	list := func(n int, f func(i int) string) string {
		var sb strings.Builder
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(f(i))
		}
		return sb.String()
	}
	// in a list of n constants, element k must be the k'th
	some := func(n int) []int { return ints([]int{0, 1, n / 2, n - 1}) }
	arr := func(n int, lits string, vals func(i int) string) []pair {
		var ps []pair
		for _, k := range some(n) {
			if k < 0 || k >= n {
				continue
			}
			j := (k + 1) % n
			d := "[" + vals(k) + "," + vals(j) + "]"
			ps = append(ps, pair{fmt.Sprintf("$[?(@==[%s][%d])]", lits, k), d})
		}
		ps = append(ps, pair{"$[?(@ in [" + lits + "])]", "[" + vals(0) + "," + vals(n/2) + "," + vals(n-1) + "," + vals(n) + `,"zz"]`})
		return ps
	}
	big := func(i int) string { return strconv.Itoa(8388608 + i*3) }
	ladders["const-ints"] = func(n int) []pair { return arr(n, list(n, big), big) }
	ladders["const-reals"] = func(n int) []pair {
		f := func(i int) string { return fmt.Sprintf("%d.5", i) }
		return arr(n, list(n, f), f)
	}
	ladders["const-strings"] = func(n int) []pair {
		f := func(i int) string { return fmt.Sprintf(`"s%d"`, i) }
		return arr(n, list(n, f), f)
	}
	ladders["const-names"] = func(n int) []pair {
		if n > 70000 {
			return nil
		}
		d := numObject(n + 1)
		ps := []pair{{"$[" + list(n, func(i int) string { return fmt.Sprint("m", i) }) + "]", d}}
		e := strings.Builder{}
		for i := 0; i < n; i++ {
			if i > 0 {
				e.WriteByte('+')
			}
			fmt.Fprintf(&e, "$.o.m%d", i)
		}
		sum := n * (n - 1) * 5
		return append(ps, pair{"$.c[?(@==" + e.String() + ")]", fmt.Sprintf(`{"c":[%d,%d],"o":%s}`, sum, sum+10, d)})
	}
	ladders["const-mixed"] = func(n int) []pair {
		f := func(i int) string {
			k := i / 5
			switch i % 5 {
			case 0:
				return strconv.Itoa(8388608 + k)
			case 1:
				return strconv.Itoa(8388608+k) + ".0"
			case 2:
				return `"` + strconv.Itoa(8388608+k) + `"`
			case 3:
				return strconv.Itoa(k)
			}
			return `"` + strconv.Itoa(k%7) + `"`
		}
		lits := list(n, f)
		ps := arr(n, lits, f)
		for _, k := range []int{0, 1, 2, 3, 4, n - 1, n - 2} {
			if k >= 0 && k < n {
				ps = append(ps, pair{fmt.Sprintf("$[?([%s][%d]<'z')]", lits, k), "[1]"}, pair{fmt.Sprintf("$[?([%s][%d]/2*2==%s)]", lits, k, f(k)), "[1]"})
			}
		}
		return ps
	}
	ladders["const-patterns"] = func(n int) []pair {
		if n > 1100 {
			n = 1100
		}
		var sb strings.Builder
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteString("||")
			}
			fmt.Fprintf(&sb, "@=~/^p%d$/||@=='p%d'", i, i+n)
		}
		return []pair{{"$[?(" + sb.String() + ")]", fmt.Sprintf(`["p0","p%d","p%d","p%d","q","p%d"]`, n/2, n-1, n, 2*n)}}
	}
	ladders["const-slices"] = func(n int) []pair {
		if n > 5000 {
			n = 5000
		}
		return []pair{{"$[" + list(n, func(i int) string { return fmt.Sprintf("%d:%d:%d", i%7, i%11+3, i%3+1) }) + "]", "[0,1,2,3,4,5,6,7,8,9,10,11,12]"},
			{"$[" + list(n, func(i int) string { return fmt.Sprintf("%d", i%13) }) + "]", "[0,1,2,3,4,5,6,7,8,9,10,11,12]"}}
	}
}
