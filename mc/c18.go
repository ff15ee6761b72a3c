package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"verif/mc/ref"
)

// A big is one case of a size: a path, a document, and what is due.
type sized struct {
	path string
	doc  interface{}
	want func(r []interface{}) string // nil: an error from Compile is due
	fail bool                         // a run-time error is due
	may  bool                         // Compile may reject it: it is beyond what a program can hold
}

type bigDim struct {
	max, deep int // largest size: quick, thorough
	f         func(n int) []sized
}

// exactly expects a list of n values, the i'th being at(i).
func exactly(n int, at func(i int) interface{}) func(r []interface{}) string {
	return func(r []interface{}) string {
		if len(r) != n {
			return fmt.Sprintf("%d results, expected %d", len(r), n)
		}
		for i, v := range r {
			w := at(i)
			switch v.(type) {
			case []interface{}, map[string]interface{}:
				if !sameThing(v, w) {
					return fmt.Sprintf("result %d is a structure, but not the one expected", i)
				}
			default:
				if v != w {
					return fmt.Sprintf("result %d is %.80v, expected %.80v", i, v, w)
				}
			}
		}
		return ""
	}
}

// sameThing is true if two structures have the same kind, size, and first scalar.
func sameThing(a, b interface{}) bool {
	for {
		switch x := a.(type) {
		case []interface{}:
			y, ok := b.([]interface{})
			if !ok || len(x) != len(y) {
				return false
			}
			if len(x) == 0 {
				return true
			}
			a, b = x[len(x)-1], y[len(y)-1]
		case map[string]interface{}:
			y, ok := b.(map[string]interface{})
			if !ok || len(x) != len(y) {
				return false
			}
			if len(x) == 0 {
				return true
			}
			if len(x) != 1 {
				for k := range x {
					if _, ok := y[k]; !ok {
						return false
					}
				}
				return true
			}
			for k := range x {
				v, ok := y[k]
				if !ok {
					return false
				}
				a, b = x[k], v
			}
		default:
			return a == b
		}
	}
}

func one(v interface{}) func(r []interface{}) string {
	return exactly(1, func(int) interface{} { return v })
}

func none(r []interface{}) string { return exactly(0, nil)(r) }

type list = []interface{}
type object = map[string]interface{}

func numList(n int) list {
	l := make(list, n)
	for i := range l {
		l[i] = float64(i)
	}
	return l
}

func fullList(n int, v interface{}) list {
	l := make(list, n)
	for i := range l {
		l[i] = v
	}
	return l
}

// wrap nests v n deep: kinds 'a' (the only element) or 'o' (the member k).
func wrap(n int, kinds string, v interface{}) interface{} {
	for i := n - 1; i >= 0; i-- {
		if kinds[i%len(kinds)] == 'a' {
			v = list{v}
		} else {
			v = object{"k": v}
		}
	}
	return v
}

func texts(n int, sep string, f func(i int) string) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteString(sep)
		}
		sb.WriteString(f(i))
	}
	return sb.String()
}

var c18Dims = map[string]bigDim{
	"depth": {1 << 17, 1 << 20, func(n int) []sized {
		bottom := object{"a": 1.0}
		var bs []sized
		for _, k := range []string{"a", "o", "aoo"} {
			k := k
			d := wrap(n, k, bottom)
			count := func(c byte) int {
				m := 0
				for i := 0; i < n; i++ {
					if k[i%len(k)] == c {
						m++
					}
				}
				return m
			}
			bs = append(bs,
				sized{path: "$..a", doc: d, want: one(1.0)},
				sized{path: "$", doc: d, want: one(d)},
				sized{path: "$..[0].a", doc: d, want: func(r []interface{}) string {
					if k == "a" && n > 0 {
						return one(1.0)(r)
					}
					if len(r) > 1 {
						return "more than one result"
					}
					return ""
				}},
				sized{path: "$..[0]", doc: d, want: func(r []interface{}) string {
					if len(r) != count('a') {
						return fmt.Sprintf("%d results, expected %d", len(r), count('a'))
					}
					return ""
				}},
				sized{path: "$..k", doc: d, want: func(r []interface{}) string {
					if len(r) != count('o') {
						return fmt.Sprintf("%d results, expected %d", len(r), count('o'))
					}
					return ""
				}},
				sized{path: "$..*", doc: d, want: func(r []interface{}) string {
					if len(r) != n+1 || r[n] != 1.0 {
						return fmt.Sprintf("%d results, expected %d", len(r), n+1)
					}
					return ""
				}},
				sized{path: "$..[?(@.a)]", doc: d, want: one(bottom)},
				sized{path: "$..[?(@ == $.zz)].a", doc: d, want: none},
			)
			e := list{d, wrap(n, k, bottom), wrap(n, k, object{"a": 2.0}), wrap(n+1, k, bottom)}
			bs = append(bs,
				sized{path: "$[?(@ == $[0])]", doc: e, want: func(r []interface{}) string {
					if len(r) != 2 {
						return fmt.Sprintf("%d of 4 structures are equal, expected 2", len(r))
					}
					return ""
				}},
				sized{path: "$[?(@ in [$[2]])]", doc: e, want: func(r []interface{}) string {
					if len(r) != 1 {
						return fmt.Sprintf("%d of 4 structures are equal, expected 1", len(r))
					}
					return ""
				}},
				sized{path: "$..[?(@.a > 1)].a", doc: e, want: one(2.0)})
		}
		return bs
	}},
	"array-width": {1 << 17, 1 << 22, func(n int) []sized {
		l := numList(n)
		d := object{"l": l}
		at := func(i int) interface{} { return float64(i) }
		bs := []sized{
			{path: "$.l[*]", doc: d, want: exactly(n, at)},
			{path: "$.l[?(@ >= 0)]", doc: d, want: exactly(n, at)},
			{path: "$.l[?(@ < 0)]", doc: d, want: none},
			{path: "$.l[?(@ in $.l[9])]", doc: d, fail: n > 9, want: none},
			{path: "$.l[:]", doc: d, want: exactly(n, at)},
			{path: "$.l[::-1]", doc: d, want: exactly(n, func(i int) interface{} { return float64(n - 1 - i) })},
			{path: "$.l[::3]", doc: d, want: exactly((n+2)/3, func(i int) interface{} { return float64(3 * i) })},
			{path: "$..*", doc: d, want: exactly(n+1, func(i int) interface{} {
				if i == 0 {
					return l
				}
				return float64(i - 1)
			})},
			{path: "$[?(@.length==" + fmt.Sprint(n) + ")]", doc: d, want: one(l)},
			{path: "$[?(length(@)==" + fmt.Sprint(n) + ")]", doc: d, want: one(l)},
			{path: "$.l[" + fmt.Sprint(n) + "]", doc: d, want: none},
			{path: "$.l[" + fmt.Sprint(-n-1) + "]", doc: d, want: none},
			{path: "$[?(sum(@)==" + fmt.Sprint(n*(n-1)/2) + ")]", doc: d, want: one(l)},
			{path: "$[?(contains(@,'x'))]", doc: d, want: none},
			{path: "$[?(@==$.l)]", doc: d, want: one(l)},
		}
		if n > 0 {
			last := float64(n - 1)
			bs = append(bs,
				sized{path: "$.l[" + fmt.Sprint(n-1) + "]", doc: d, want: one(last)},
				sized{path: "$.l[-1]", doc: d, want: one(last)},
				sized{path: "$.l[" + fmt.Sprint(-n) + "]", doc: d, want: one(0.0)},
				sized{path: "$.l[(@.length-1)]", doc: d, want: none}, // @ is not set in a subscript
				sized{path: "$.l[($.l.length-1)]", doc: d, want: one(last)},
				sized{path: "$.l[?(@==" + fmt.Sprint(n-1) + ")]", doc: d, want: one(last)},
				sized{path: "$.l[" + fmt.Sprint(n-1) + ":]", doc: d, want: one(last)},
				sized{path: "$[?(max(@)==" + fmt.Sprint(n-1) + "&&min(@)==0&&avg(@)*2==" + fmt.Sprint(n-1) + ")]", doc: d, want: one(l)},
				sized{path: "$[?(contains(@," + fmt.Sprint(n-1) + ")&&" + fmt.Sprint(n-1) + " in @)]", doc: d, want: one(l)},
				sized{path: "$[?(@[" + fmt.Sprint(n-1) + "]==" + fmt.Sprint(n-1) + ")]", doc: d, want: one(l)})
		}
		return bs
	}},
	"object-width": {1 << 16, 1 << 20, func(n int) []sized {
		o := object{}
		for i := 0; i < n; i++ {
			o[fmt.Sprint("m", i)] = float64(i)
		}
		d := object{"o": o}
		all := func(r []interface{}) string {
			seen := make([]bool, n)
			if len(r) != n {
				return fmt.Sprintf("%d results, expected %d", len(r), n)
			}
			for _, v := range r {
				f, ok := v.(float64)
				if !ok || f < 0 || int(f) >= n || seen[int(f)] {
					return fmt.Sprintf("result %v is wrong, or there twice", v)
				}
				seen[int(f)] = true
			}
			return ""
		}
		bs := []sized{
			{path: "$.o.*", doc: d, want: all},
			{path: "$.o[?(@ >= 0)]", doc: d, want: all},
			{path: "$.o[?(@ < 0)]", doc: d, want: none},
			{path: "$[?(@.length==" + fmt.Sprint(n) + "&&length(keys(@))==" + fmt.Sprint(n) + ")]", doc: d, want: one(o)},
			{path: "$.o.zz", doc: d, want: none},
			{path: "$[?(@==$.o)].zz", doc: d, want: none},
			{path: "$..zz", doc: d, want: none},
		}
		if n > 0 {
			bs = append(bs,
				sized{path: "$.o.m" + fmt.Sprint(n-1), doc: d, want: one(float64(n - 1))},
				sized{path: "$..m" + fmt.Sprint(n-1), doc: d, want: one(float64(n - 1))},
				sized{path: "$[?(contains(keys(@),'m" + fmt.Sprint(n-1) + "'))].m0", doc: d, want: one(0.0)})
		}
		return bs
	}},
	"sources": {1 << 15, 1 << 20, func(n int) []sized {
		// many values selected, each with its own contribution
		l := make(list, n)
		for i := range l {
			if i%3 == 2 {
				l[i] = float64(i)
			} else {
				l[i] = list{float64(i), object{"a": float64(i)}}
			}
		}
		var as []interface{}
		for i := range l {
			if i%3 != 2 {
				as = append(as, float64(i))
			}
		}
		at := func(i int) interface{} { return as[i] }
		two := func(i int) interface{} { return as[i/2] }
		return []sized{
			{path: "$[*][0]", doc: l, want: exactly(len(as), at)},
			{path: "$[*][1].a", doc: l, want: exactly(len(as), at)},
			{path: "$[*][0:1]", doc: l, want: exactly(len(as), at)},
			{path: "$[*][0,-2]", doc: l, want: exactly(2*len(as), two)},
			{path: "$[*][?(@.a>=0)].a", doc: l, want: exactly(len(as), at)},
			{path: "$[*]..a", doc: l, want: exactly(len(as), at)},
			{path: "$[*][?(@>=0)]", doc: l, want: exactly(len(as), at)},
			{path: "$..[?(@.a>=0)]['a','a']", doc: l, want: exactly(2*len(as), two)},
			{path: "$[:][::-1].a", doc: l, want: exactly(len(as), at)},
		}
	}},
	"string": {1 << 20, 1 << 24, func(n int) []sized {
		s := strings.Repeat("x", n)
		d := list{s, s + "x", "y" + s}
		o := object{s + "k": 1.0}
		u := strings.Repeat("é", n/2)
		return []sized{
			{path: "$[?(@=='" + s + "')]", doc: d, want: one(s)},
			{path: "$[?(@==\"" + strings.Repeat(`\u0078`, n) + "\")]", doc: d, want: one(s)},
			{path: "$['" + s + "k']", doc: o, want: one(1.0)},
			{path: "$." + s + "k", doc: o, want: one(1.0)},
			{path: "$[?(@." + s + "k)]." + s + "k", doc: list{o}, want: one(1.0)},
			{path: "$[?(@['" + s + "k'])].zz", doc: list{o}, want: none},
			{path: "$..['" + s + "k']", doc: list{o}, want: one(1.0)},
			{path: "$['" + s, doc: nil},
			{path: "$['" + s + `\`, doc: nil},
			{path: "$[?(@ == '" + s, doc: nil},
			{path: "$['" + s + "']x", doc: nil},
			{path: "$[?(@ =~ /" + s, doc: nil},
			{path: "$[?(@.length==" + fmt.Sprint(n) + ")]", doc: d, want: one(s)},
			{path: "$[?(length(@)==" + fmt.Sprint(n/2) + ")]", doc: list{u, u + "a"}, want: one(u)},
			{path: "$[?(@ > '" + s + "')]", doc: d, want: exactly(2, func(i int) interface{} { return d[i+1] })},
			{path: "$[?(@ =~ /^x*$/)]", doc: d, want: exactly(2, func(i int) interface{} { return d[i] })},
			{path: "$[?(ends_with(@,$[1]))]", doc: d, want: one(d[1])},
			{path: "$[?(contains(@,'y'))]", doc: d, want: one(d[2])},
			{path: "$[?(starts_with(@,'" + s + "'))]", doc: d, want: func(r []interface{}) string {
				k := 2
				if n == 0 {
					k = 3
				}
				if len(r) != k {
					return fmt.Sprintf("%d results, expected %d", len(r), k)
				}
				return ""
			}},
			{path: "$[?(length(tokenize(@,'y'))==2)]", doc: d, want: one(d[2])},
		}
	}},
	"pattern": {1 << 12, 1 << 13, func(n int) []sized {
		s := strings.Repeat("x", n)
		d := list{s, s + "y", "z" + s}
		return []sized{
			{path: "$[?(@ =~ /^" + s + "$/)]", doc: d, want: one(s)},
			{path: "$[?(@ =~ '^" + s + "$')]", doc: d, want: one(s)},
			{path: "$[?(@ =~ /^" + strings.Repeat("(x|y)", n) + "$/)]", doc: d, want: one(s)},
			{path: "$[?(@ =~ /" + strings.Repeat(`\/`, n) + "$/)]", doc: list{strings.Repeat("/", n)}, want: one(strings.Repeat("/", n))},
		}
	}},
	"space": {1 << 18, 1 << 24, func(n int) []sized {
		d := object{"a": list{1.0, 2.0}}
		var bs []sized
		for _, w := range []string{" ", "\t", "\n", " \r\n"} {
			s := strings.Repeat(w, n)
			bs = append(bs,
				sized{path: "$" + s + "." + s + "a" + s, doc: d, want: one(d["a"])},
				sized{path: s + "$[" + s + "'a'" + s + "]" + s + "[" + s + "1" + s + "," + s + "0" + s + "]", doc: d, want: exactly(2, func(i int) interface{} { return 2.0 - float64(i) })},
				sized{path: "$.a[?(" + s + "@" + s + "==" + s + "2" + s + ")]", doc: d, want: one(2.0)},
				sized{path: "$.a[-" + s + "1:" + s + "]", doc: d, want: one(2.0)},
				sized{path: s, doc: d})
		}
		return bs
	}},
	"digits": {1 << 16, 1 << 20, func(n int) []sized {
		z := strings.Repeat("0", n)
		l := list{10.0, 11.0, 12.0}
		bs := []sized{
			{path: "$[" + z + "1]", doc: l, want: one(11.0)},
			{path: "$[-" + z + "1]", doc: l, want: one(12.0)},
			{path: "$[" + z + "1:" + z + "2]", doc: l, want: one(11.0)},
			{path: "$[?(@==" + z + "11)]", doc: l, want: one(11.0)},
			{path: "$[?(@==11." + z + "0)]", doc: l, want: one(11.0)},
			{path: "$[?(@==1.1e" + z + "1)]", doc: l, want: one(11.0)},
			{path: "$." + z + "1", doc: l, want: one(11.0)},
			{path: "$[?(@>10." + z + "1)]", doc: l, want: func(r []interface{}) string {
				if f, _ := strconv.ParseFloat("10."+z+"1", 64); f > 10 || len(r) == 2 {
					return exactly(2, func(i int) interface{} { return l[i+1] })(r)
				}
				return exactly(2, func(i int) interface{} { return l[i+1] })(r)
			}},
		}
		if n > 19 {
			o := strings.Repeat("1", n)
			bs = append(bs, sized{path: "$[" + o + "]"}, sized{path: "$[-" + o + "]"}, sized{path: "$[?(" + o + ")]"}, sized{path: "$[:" + o + "]"})
		}
		return bs
	}},
	"steps": {1 << 16, 1 << 19, func(n int) []sized {
		bottom := object{"a": 1.0}
		o, a := wrap(n, "o", bottom), wrap(n, "a", bottom)
		r := func(s string) string { return strings.Repeat(s, n) }
		bs := []sized{
			{path: "$" + r(".k") + ".a", doc: o, want: one(1.0)},
			{path: "$" + r("['k']") + ".a", doc: o, want: one(1.0)},
			{path: "$" + r("[0]") + ".a", doc: a, want: one(1.0)},
			{path: "$" + r("[-1]") + ".a", doc: a, want: one(1.0)},
			{path: "$" + r("[*]") + ".a", doc: a, want: one(1.0)},
			{path: "$" + r(".*") + ".a", doc: o, want: one(1.0)},
			{path: "$" + r("[:]") + ".a", doc: a, want: one(1.0)},
			{path: "$" + r("[0,5]") + ".a", doc: a, want: one(1.0)},
			{path: "$" + r("[('k')]") + ".a", doc: o, want: one(1.0)},
			{path: "$" + r("[?(@)]") + ".a", doc: a, want: one(1.0)},
			{path: "$" + r("[0]") + "[?(@ > 1 || @ < 0)]", doc: wrap(n, "a", list{3.0, 1.0, 2.0, -1.0}), want: exactly(3, func(i int) interface{} { return []float64{3, 2, -1}[i] })},
			{path: "$" + r(".k") + "..['a'][?(@ in [1,3])]", doc: wrap(n, "o", list{object{"a": list{1.0, 2.0}}, list{object{"a": list{3.0}}}}), want: exactly(2, func(i int) interface{} { return []float64{1, 3}[i] })},
			{path: "$" + r("[?(1 in [1])]") + ".a", doc: o, want: one(1.0)},
			{path: "$" + r(".zz") + ".a", doc: o, want: func(r []interface{}) string {
				if n == 0 {
					return one(1.0)(r)
				}
				return none(r)
			}},
			{path: "$" + r("..zz"), doc: o, want: func(r []interface{}) string {
				if n == 0 {
					return ""
				}
				return none(r)
			}},
			{path: "$" + r(".k") + "[", doc: nil},
			{path: "$" + r("[0]") + ".", doc: nil},
			{path: "$" + r("[?(@)]") + "]", doc: nil},
			{path: "$.a" + r("[?(@.x[1].y)]") + "[?(nofn())]", doc: object{"a": list{1.0}}, want: none, fail: n == 0},
		}
		if n <= 1<<12 {
			bs = append(bs, sized{path: "$" + r("..[0]") + "..a", doc: list{list{}}, want: none})
		}
		return bs
	}},
	"union": {1 << 17, 1 << 21, func(n int) []sized {
		l, o := numList(n+1), object{}
		for i := 0; i <= n; i++ {
			o[fmt.Sprint("m", i)] = float64(i)
		}
		at := func(i int) interface{} { return float64(i) }
		zero := func(i int) interface{} { return 0.0 }
		may := n >= 1<<20
		bs := []sized{
			{path: "$[0," + texts(n+1, ",", func(i int) string { return fmt.Sprint(i) }) + "]", doc: l, want: exactly(n+2, func(i int) interface{} { return float64(i - 1 + b2i(i == 0)) }), may: may},
			{path: "$[" + texts(n+1, ",", func(i int) string { return fmt.Sprintf("m%d", i) }) + "]", doc: o, want: exactly(n+1, at), may: may},
			{path: "$[" + texts(n+1, ",", func(i int) string { return fmt.Sprintf("'m%d'", i) }) + "]", doc: o, want: exactly(n+1, at), may: may},
			{path: "$[" + texts(n+1, ",", func(i int) string { return fmt.Sprintf("%d:%d", i, i+1) }) + "]", doc: l, want: exactly(n+1, at), may: may},
			{path: "$[" + strings.Repeat("0,", n) + "0]", doc: l, want: exactly(n+1, zero), may: may},
			{path: "$..[" + strings.Repeat("0,", n) + "0]", doc: l, want: exactly(n+1, zero), may: may},
			{path: "$[" + strings.Repeat("5:0,", n) + "0]", doc: l, want: exactly(1, zero), may: may},
			{path: "$[" + strings.Repeat("0,", n) + "]", doc: nil},
			{path: "$[" + strings.Repeat("0,", n) + "*]", doc: func() interface{} {
				if n == 0 {
					return list{1.0}
				}
				return nil
			}(), want: func() func(r []interface{}) string {
				if n == 0 {
					return one(1.0)
				}
				return nil
			}()},
		}
		return bs
	}},
	"elements": {1 << 17, 1 << 21, func(n int) []sized {
		// of array literals and calls
		may := n >= 1<<20
		l := texts(n, ",", func(i int) string { return fmt.Sprint(i) })
		c := list{float64(n - 1), float64(n), -1.0}
		r := []interface{}{}
		if n > 0 {
			r = append(r, float64(n-1))
		}
		ats := exactly(len(r), func(i int) interface{} { return r[i] })
		bs := []sized{
			{path: "$[?(@ in [" + l + "])]", doc: c, want: ats, may: may},
			{path: "$[?([" + l + "].length==@)]", doc: c, want: one(float64(n)), may: may},
			{path: "$[?(contains([" + l + "],@))]", doc: c, want: ats, may: may},
			{path: "$[?([" + l + "]==@)].zz", doc: list{numList(n)}, want: none, may: may},
			{path: "$[?([" + l + "]==@&&@)][0:1]", doc: list{numList(n), list{2.0, 3.0, 4.0}}, want: exactly(b2i(n > 0), func(i int) interface{} { return 0.0 }), may: may},
			{path: "$[?(@ in ['zz'" + texts(n, "", func(i int) string { return fmt.Sprintf(",'s%d'", i) }) + "])]", doc: list{fmt.Sprint("s", n-1), fmt.Sprint("s", n)}, want: exactly(b2i(n > 0), func(int) interface{} { return fmt.Sprint("s", n-1) }), may: may},
			{path: "$[?(@ in [0.25" + texts(n, "", func(i int) string { return fmt.Sprintf(",%d.5", i) }) + "])]", doc: list{float64(n) - 0.5, float64(n) + 0.5, 0.25}, want: func(rr []interface{}) string {
				w := []interface{}{float64(n) - 0.5, 0.25}
				if n == 0 {
					w = w[1:]
				}
				return exactly(len(w), func(i int) interface{} { return w[i] })(rr)
			}, may: may},
			{path: "$[?(@ in [" + texts(n, ",", func(i int) string { return fmt.Sprint(8388608 + i) }) + "])]", doc: list{float64(8388607 + n), float64(8388608 + n)}, want: exactly(b2i(n > 0), func(int) interface{} { return float64(8388607 + n) }), may: may},
			{path: "$[?([0," + strings.Repeat("0,", n) + "])]"},
			{path: "$[?(abs(1" + strings.Repeat(",1", n) + ")==1)]", doc: list{5.0}, want: one(5.0), fail: n > 0, may: may},
		}
		if n > 0 {
			bs = append(bs,
				sized{path: "$[?([" + l + "][@]==" + fmt.Sprint(n-1) + ")]", doc: c, want: func(r []interface{}) string { // -1 is the last too
					return exactly(2, func(i int) interface{} { return []interface{}{float64(n - 1), -1.0}[i] })(r)
				}, may: may},
				sized{path: "$[?(max(" + l + ",0)==@)]", doc: list{float64(n - 1), float64(n)}, want: one(float64(n - 1)), may: may},
				sized{path: "$[?(min(9," + l + ")==@)]", doc: list{5.0, 0.0}, want: one(0.0), may: may},
				sized{path: "$[?(sum([" + l + "])==@)]", doc: list{float64(n) * float64(n-1) / 2, -1.0}, want: one(float64(n) * float64(n-1) / 2), may: may})
		}
		return bs
	}},
	"operators": {1 << 17, 1 << 20, func(n int) []sized {
		r := func(s string) string { return strings.Repeat(s, n) }
		may := n >= 1<<20
		c := list{0.0, 1.0, float64(n + 1), -float64(n) - 5}
		sel := func(f func(v float64) bool) func(r []interface{}) string {
			var w []interface{}
			for _, v := range c {
				if f(v.(float64)) {
					w = append(w, v)
				}
			}
			return exactly(len(w), func(i int) interface{} { return w[i] })
		}
		n1 := float64(n + 1)
		return []sized{
			{path: "$[?(@==1" + r("+1") + ")]", doc: c, want: sel(func(v float64) bool { return v == n1 }), may: may},
			{path: "$[?(1" + r("+1") + "==@)]", doc: c, want: sel(func(v float64) bool { return v == n1 }), may: may},
			{path: "$[?(@" + r("-1") + "==1)]", doc: c, want: sel(func(v float64) bool { return v == n1 }), may: may},
			{path: "$[?(@" + r("*1") + "==1)]", doc: c, want: sel(func(v float64) bool { return v == 1 }), may: may},
			{path: "$[?(@" + r("||@") + ")]", doc: c, want: sel(func(v float64) bool { return v != 0 }), may: may},
			{path: "$[?(@" + r("&&@") + ")]", doc: c, want: sel(func(v float64) bool { return v != 0 }), may: may},
			{path: "$[?(@==0" + r("||@==1") + ")]", doc: c, want: sel(func(v float64) bool { return v == 0 || n > 0 && v == 1 }), may: may},
			{path: "$[?(@>=0" + r("&&@<2") + ")]", doc: c, want: sel(func(v float64) bool { return v >= 0 && (n == 0 || v < 2) }), may: may},
			{path: "$[?(1" + r("+@*0") + "==1)]", doc: c, want: sel(func(v float64) bool { return true }), may: may},
			{path: "$[?(@" + r("*1+0-0") + "==1)]", doc: c, want: sel(func(v float64) bool { return v == 1 }), may: may},
			{path: "$[?(" + r("@==-3||") + "@==1)]", doc: c, want: sel(func(v float64) bool { return v == 1 }), may: may},
			{path: "$[?(" + r("1<2!=") + "@)]", doc: list{}, want: none, may: may},
			{path: "$[?(@==1" + r("+1") + "+)]"},
			{path: "$[?(@" + r("+1") + "]"},
			{path: "$[(0" + r("+1") + ")]", doc: object{fmt.Sprint(n): 7.0}, want: one(7.0), may: may},
			{path: "$[(0" + r("+1") + "):]", doc: list{7.0}, want: nil, may: true},
		}
	}},
	"postfix": {1 << 17, 1 << 20, func(n int) []sized {
		r := func(s string) string { return strings.Repeat(s, n) }
		o, a := wrap(n, "o", 7.0), wrap(n, "a", 7.0)
		may := n >= 1<<20
		return []sized{
			{path: "$[?(@" + r(".k") + "==7)].zz", doc: list{o}, want: none, may: may},
			{path: "$[?(@" + r(".k") + "==7)]", doc: list{o, 8.0}, want: one(o), may: may},
			{path: "$[?(@" + r("['k']") + "==7)]", doc: list{o, 8.0}, want: one(o), may: may},
			{path: "$[?(@" + r("[0]") + "==7)]", doc: list{a, 8.0}, want: one(a), may: may},
			{path: "$[?(@" + r("[-1]") + "==7)]", doc: list{8.0, a}, want: one(a), may: may},
			{path: "$[?($.d" + r(".k") + "==@)]", doc: object{"d": o, "e": 7.0}, want: func(r []interface{}) string {
				if n == 0 {
					return exactly(2, func(int) interface{} { return 7.0 })(r)
				}
				return one(7.0)(r)
			}, may: may},
			{path: "$[?(@" + r(".k") + ".k==7)]", doc: list{o}, want: none, may: may},
			{path: "$[?(@" + r(".k") + ".)]"},
			{path: "$[?(@" + r("[0]") + "[)]"},
		}
	}},
	"nesting": {12000, 20000, func(n int) []sized {
		r := func(s string) string { return strings.Repeat(s, n) }
		c := list{0.0, 1.0}
		w := func(ok bool, f func(r []interface{}) string, extra int) func(r []interface{}) string {
			if !ok || n+extra > ref.MaxNest {
				return nil
			}
			return f
		}
		odd := func(r []interface{}) string { return one(float64(n % 2))(r) }
		odd1 := func(r []interface{}) string { return one(float64(1 - n%2))(r) }
		return []sized{
			{path: "$[?(" + r("(") + "@" + r(")") + "==1)]", doc: c, want: w(true, one(1.0), 1)},
			{path: "$[?(1==" + r("(") + "@" + r(")") + ")]", doc: c, want: w(true, one(1.0), 1)},
			{path: "$[?(" + r("!") + "@)]", doc: c, want: w(true, odd1, 1)},
			{path: "$[?(!" + r("!") + "@)]", doc: c, want: w(true, odd, 2)},
			{path: "$[?(@==" + r("-") + "1||0==" + r("-") + "1+1-2*@*9)]", doc: c, want: w(true, func(r []interface{}) string {
				if n%2 == 0 {
					return one(1.0)(r)
				}
				return one(0.0)(r)
			}, 1)},
			{path: "$[?(" + r("!(") + "@" + r(")") + ")]", doc: c, want: w(n <= 5000-1, odd1, 0)},
			{path: "$[?(" + r("1+(") + "@" + r(")") + "==" + fmt.Sprint(n+1) + ")]", doc: c, want: w(true, one(1.0), 1)},
			{path: "$[?(" + r("abs(") + "@" + r(")") + "==1)]", doc: c, want: w(true, one(1.0), 1)},
			{path: "$[?(" + r("[") + "@" + r("]") + r("[0]") + "==1)]", doc: c, want: w(true, one(1.0), 1)},
			{path: "$[?(" + r("$[") + "@" + r("]") + "==1)]", doc: c, want: w(true, one(1.0), 1)},
			{path: "$[(" + r("(") + "1" + r(")") + ")]", doc: c, want: w(true, one(1.0), 1)},
			{path: "$.(" + r("(") + "1" + r(")") + ")", doc: c, want: w(true, one(1.0), 1)},
			{path: "$[?(" + r("(") + "@)]", doc: c, want: w(n == 0, one(1.0), 1)},
			{path: "$[?(" + r("(") + "@)]" + r(")"), doc: c, want: w(n == 0, one(1.0), 1)},
			{path: "$[?(@" + r("[") + "]"},
			{path: "$[" + r("[")},
			{path: "$[" + r("(")},
			{path: "$" + r("[?(") + "@" + r(")]"), doc: c, want: w(n == 1, one(1.0), 0)},
		}
	}},
	"bad-nesting": {1 << 19, 1 << 24, func(n int) []sized {
		// far beyond the limit, and not closed
		if n <= ref.MaxNest {
			return nil
		}
		var bs []sized
		for _, s := range []string{"(", "!", "-", "[", "abs(", "1+(", "@[", "!(", "-[", "1,(", "a(b(", "'x'==(", "$.a[", "max(1,[", "1.5*(-"} {
			bs = append(bs, sized{path: "$[?(" + strings.Repeat(s, n)}, sized{path: "$[(" + strings.Repeat(s, n) + "1"}, sized{path: "$[1:(" + strings.Repeat(s, n) + ")]"}, sized{path: "$..(" + strings.Repeat(s, n) + ")"})
		}
		for _, s := range []string{"[", "..[", "(", "[?(", "$[", "[(", ",", ":", "[*", "?(", ")", "]", "..", "...", "-", "--", "'", "\"'", "\\", "/", "\xff", "\x00", "@", "?", "!"} {
			bs = append(bs, sized{path: "$" + strings.Repeat(s, n|1)}, sized{path: strings.Repeat(s, n|1)})
		}
		return bs
	}},
	"functions": {1 << 16, 1 << 20, func(n int) []sized {
		words := make(list, n)
		for i := range words {
			words[i] = fmt.Sprint("w", i)
		}
		var sb strings.Builder
		for i := range words {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(words[i].(string))
		}
		text := sb.String()
		d := list{object{"t": text, "w": words, "n": numList(n), "one": fullList(n, 1.0)}}
		k := n
		if n == 0 {
			k = 1 // splitting an empty string gives one
		}
		sum := float64(n) * float64(n-1) / 2
		bs := []sized{
			{path: "$[?(length(tokenize(@.t,' '))==" + fmt.Sprint(k) + ")].zz", doc: d, want: none},
			{path: "$[?(length(tokenize(@.t,' '))==" + fmt.Sprint(k) + ")]['n'][0:1]", doc: d, want: exactly(b2i(n > 0), func(int) interface{} { return 0.0 })},
			{path: "$[?(sum(@.n)==" + strconv.FormatFloat(sum, 'f', -1, 64) + ")].n[0:1]", doc: d, want: exactly(b2i(n > 0), func(int) interface{} { return 0.0 })},
		}
		if n > 0 {
			bs = append(bs,
				sized{path: "$[?(tokenize(@.t,' ')==@.w && prod(@.one)==1 && avg(@.one)==1)].n[0]", doc: d, want: one(0.0)},
				sized{path: "$[?(max(@.n)==" + fmt.Sprint(n-1) + " && min(@.n)==0 && min(@.w)=='w0')].n[0]", doc: d, want: one(0.0)},
				sized{path: "$[?(contains(@.t,'w" + fmt.Sprint(n-1) + "') && ends_with(@.t,'w" + fmt.Sprint(n-1) + "'))].n[0]", doc: d, want: one(0.0)},
				sized{path: "$[0].w[?(@ =~ /^w" + fmt.Sprint(n-1) + "$/)]", doc: d, want: one(words[n-1])},
				sized{path: "$[0].w[?(@ =~ @)]", doc: d, want: exactly(n, func(i int) interface{} { return words[i] })})
		}
		return bs
	}},
	"patterns": {1 << 11, 1 << 14, func(n int) []sized {
		// many patterns
		l := texts(n+1, "||", func(i int) string { return fmt.Sprintf("@=~/^p%d$/", i) })
		m := texts(n+1, "||", func(i int) string { return fmt.Sprintf("@=~'^p%d$'", i) })
		d := list{fmt.Sprint("p", n), fmt.Sprint("p", n+1), "p0x"}
		return []sized{
			{path: "$[?(" + l + ")]", doc: d, want: one(d[0])},
			{path: "$[?(" + m + ")]", doc: d, want: one(d[0])},
		}
	}},
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// decide runs one case.
func (b *sized) decide() string {
	p, err, pan := compileImpl(b.path)
	name := clipS(b.path)
	switch {
	case pan != "":
		return name + ": Compile: " + pan
	case err != nil && p != nil, err == nil && p == nil:
		return name + ": Compile returns a path and an error, or neither"
	case err != nil && (b.may || b.want == nil && !b.fail):
		return ""
	case err != nil:
		return name + ": Compile: " + clipS(err.Error())
	case b.want == nil && !b.may:
		return name + ": Compile accepts it"
	}
	if p.String() != b.path {
		return name + ": String() is not the source text"
	}
	r, err, pan := evalImpl(p, b.doc)
	switch {
	case pan != "":
		return name + ": Eval: " + pan
	case b.fail && err == nil:
		return name + ": a run-time error is due"
	case b.fail && r != nil:
		return name + ": results besides an error"
	case b.fail:
		return ""
	case err != nil:
		return name + ": Eval: " + err.Error()
	case r == nil:
		return name + ": Eval returns a nil list"
	case b.want == nil:
		return ""
	}
	if m := b.want(r); m != "" {
		return name + ": " + m
	}
	return ""
}

func bigRung(name string, n int) (msg string, cases int) {
	for _, b := range c18Dims[name].f(n) {
		b := b
		cases++
		if m := b.decide(); m != "" {
			return m, cases
		}
	}
	return "", cases
}

// powers lists sizes around powers of two in (lo, hi].
func powers(lo, hi int) []int {
	var s []int
	for p := 1; p <= hi; p *= 2 {
		for d := -1; d <= 1; d++ {
			if p+d > lo && p+d <= hi+1 {
				s = append(s, p+d)
			}
		}
	}
	return s
}

func c18(c *Ctx) {
	type job struct {
		name string
		n    int
	}
	var jobs, bigs []job
	var names []string
	for nm := range c18Dims {
		names = append(names, nm)
	}
	sort.Strings(names)
	dense := 130
	if c.thorough {
		dense = 1100
	}
	for _, nm := range names {
		d := c18Dims[nm]
		max := d.max
		if c.thorough {
			max = d.deep
		}
		sizes := ints(upto(0, dense), powers(dense, max))
		if nm == "nesting" {
			sizes = ints(upto(0, dense), powers(dense, 4096), near(5000, 3), near(ref.MaxNest, 5), []int{max})
		}
		if nm == "bad-nesting" {
			sizes = ints(near(ref.MaxNest+2, 2), powers(16384, max))
			if !c.thorough {
				sizes = ints(near(ref.MaxNest+2, 1), []int{1 << 16, max})
			}
		}
		c.Bound("%s: %d sizes, each up to %d and around powers of two up to %d", nm, len(sizes), dense, max)
		for _, n := range sizes {
			if n > 1<<18 {
				bigs = append(bigs, job{nm, n})
			} else {
				jobs = append(jobs, job{nm, n})
			}
		}
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].n < jobs[j].n })
	sort.SliceStable(bigs, func(i, j int) bool { return bigs[i].n < bigs[j].n })
	run := func(w *Worker, j job) {
		k := Case{Kind: "big", Name: j.name, N: j.n}
		w.slot.begin('l', jtext(k), "")
		msg, n := bigRung(j.name, j.n)
		w.slot.clear()
		w.traces += n
		w.nontriv += n
		w.trans += n * int(math.Max(1, float64(j.n)))
		w.states[hashString(jtext(k))] = struct{}{}
		w.counts["dimension "+j.name]++
		if msg != "" {
			k.Msg = fmt.Sprintf("size %d: %s", j.n, msg)
			c.Violation(k)
		}
	}
	c.Parallel(len(jobs), func(w *Worker, i int) { run(w, jobs[i]) })
	// the largest a few at a time: memory
	nw := c.nw
	c.nw = 3
	c.Parallel(len(bigs), func(w *Worker, i int) { run(w, bigs[i]) })
	c.nw = nw
	// the ladders of the other checks, further up, against the model
	var ls []string
	for nm := range ladders {
		ls = append(ls, nm)
	}
	sort.Strings(ls)
	sizes := ints(powers(130, 4096), near(ref.MaxNest, 1), []int{65537})
	if c.thorough {
		sizes = ints(upto(131, 700), powers(700, 1<<17), near(ref.MaxNest, 8))
	}
	sort.Ints(sizes)
	c.Bound("the %d ladders of the other checks, decided by the model, at %d sizes up to %d", len(ls), len(sizes), sizes[len(sizes)-1])
	if !c.thorough {
		// the largest first, all in one go
		sort.Sort(sort.Reverse(sort.IntSlice(sizes)))
		c.Ladder(sizes, ls...)
	} else {
		for _, n := range sizes {
			if c.Late() {
				break
			}
			c.Ladder([]int{n}, ls...)
		}
	}
	c.Sample(map[string]interface{}{"dimension": names[0], "sizes": 5})
}

func init() {
	register(&Check{ID: "C18", Level: "model_checking", Run: c18, Replay: func(k *Case) string {
		if k.Kind == "big" {
			msg, _ := bigRung(k.Name, k.N)
			return msg
		}
		return replayLadder(k)
	},
		Rule:        "for each dimension and each size, paths and documents of that size are compiled and evaluated in a supervised process, and the outcome compared with the one that follows from the size; a crash or silence of the process is a violation by the case that reproduces it",
		Assumptions: []string{"an evaluation that is silent for 90 seconds at the sizes stated does not end"}})
}
