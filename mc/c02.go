package main

import (
	"fmt"
	"math/big"
	"strings"
)

// extremes lists integers at and around powers of two, as text.
func extremes(ks ...int) []string {
	var out []string
	for _, k := range ks {
		p := new(big.Int).Lsh(big.NewInt(1), uint(k))
		for d := int64(-2); d <= 2; d++ {
			n := new(big.Int).Add(p, big.NewInt(d))
			if n.IsInt64() {
				out = append(out, n.String(), "-"+n.String())
			}
		}
	}
	return uniq(out)
}

// sliceText lists the ways to write a slice with the given bounds ("" is absent).
func sliceText(s, e, t string) []string {
	if t != "" {
		return []string{s + ":" + e + ":" + t}
	}
	return []string{s + ":" + e, s + ":" + e + ":"}
}

func c02(c *Ctx) {
	m, lmax := 8, 7
	if c.thorough {
		m, lmax = 14, 12
	}
	bounds := []string{""}
	for i := 0; i <= m; i++ {
		bounds = append(bounds, fmt.Sprint(i))
		if i > 0 {
			bounds = append(bounds, fmt.Sprint(-i))
		}
	}
	var docs []string
	for n := 0; n <= lmax; n++ {
		docs = append(docs, numArray(n))
	}
	var cube []string
	for _, s := range bounds {
		for _, e := range bounds {
			for _, t := range bounds {
				cube = append(cube, sliceText(s, e, t)...)
			}
		}
	}
	c.Bound("start, end, stride each absent or in -%d..%d, array lengths 0..%d: %d slices x %d arrays", m, m, lmax, len(cube), len(docs))
	c.Grid(prefixed("$[", cube, "]"), docs)

	// the same slices in every position, on values of every kind
	mixedDocs := []string{
		`[[1,2,3],5,"abc",{"a":[4,5,6,7]},[8],[],null,[[9,10],[11,12,13]]]`,
		`{"a":[1,2,3,4,5],"b":{"a":[6,7]},"c":"xyz","d":[[8,9],10]}`,
		`{"a":[[1,2],{"b":[3,4,5]},[6]],"0":[7,8,9]}`,
		`"abc"`, `{}`, `[]`, `{"a":1}`,
	}
	small := []string{"", "0", "1", "2", "-1", "-2", "3"}
	var mid []string
	for _, s := range small {
		for _, e := range small {
			for _, t := range []string{"", "1", "2", "-1", "-2", "0"} {
				mid = append(mid, sliceText(s, e, t)...)
			}
		}
	}
	var paths []string
	forms := []string{"$.a[%s]", "$[*][%s]", "$..[%s]", "$.*[%s]", "$[%s][0]", "$[%s].a", "$[%s][*]", "$['a',%s]", "$[%s,'a']", "$[0,%s]", "$[%s,-1]", "$..[%s,0]", "$..['a',%s]", "$[*][%s,0]",
		"$..a[%s]", "$..[%s]..a", "$[%s][?(@)]", "$[?(@)][%s]", "$[ %s ]", "$..[?(@)][%s]", "$[*]..[%s]", "$[%s]..[0]", "$[0:2,%s]", "$[%s,1:3]", "$[*][%s,::-1]"}
	for _, f := range forms {
		for _, s := range mid {
			paths = append(paths, fmt.Sprintf(f, s))
		}
	}
	c.Bound("%d slices in %d positions on %d mixed documents", len(mid), len(forms), len(mixedDocs))
	c.Grid(paths, mixedDocs)

	// two slices in sequence, and pairs of slices in a union
	paths = nil
	two := mid
	if !c.thorough {
		two = nil
		for _, s := range []string{"", "0", "1", "-1", "-2"} {
			for _, e := range []string{"", "2", "-1"} {
				for _, t := range []string{"", "2", "-1"} {
					two = append(two, s+":"+e+":"+t)
				}
			}
		}
	}
	for _, a := range two {
		for _, b := range two {
			paths = append(paths, "$["+a+"]["+b+"]", "$["+a+","+b+"]", "$..["+a+","+b+"]", "$[*]["+a+","+b+"]")
		}
	}
	c.Bound("%d pairs of slices, in sequence and in unions", len(two)*len(two))
	c.Grid(paths, mixedDocs)

	// extremes
	ext := extremes(7, 8, 15, 16, 21, 22, 23, 24, 31, 32, 33, 52, 53, 54, 61, 62, 63)
	few := []string{"", "0", "1", "2", "-1", "-2", "-3", "5", "9223372036854775807", "-9223372036854775806", "4611686018427387904", "-4611686018427387904"}
	paths = nil
	for _, x := range ext {
		for _, y := range few {
			for _, z := range few {
				for _, s := range []string{x + ":" + y + ":" + z, y + ":" + x + ":" + z, y + ":" + z + ":" + x} {
					paths = append(paths, "$["+s+"]")
				}
			}
			paths = append(paths, "$["+x+":"+y+"]", "$["+y+":"+x+"]", "$[0,"+x+":"+y+"]", "$..["+y+":"+x+"]", "$[*][::"+x+","+y+":]")
		}
	}
	paths = uniq(paths)
	c.Bound("%d extreme bounds (around 2^7..2^63) against %d others in each place: %d paths", len(ext), len(few), len(paths))
	c.Grid(paths, []string{"[]", "[1]", "[1,2,3]", "[[1,2],[3],4]", numArray(9)})

	// computed bounds (known finding)
	paths = nil
	cb := []string{"(1)", "(0)", "(-1)", "(2)", "(1+1)", "($.n)", "(1.0)"}
	for _, x := range cb {
		for _, y := range []string{"", "1", "-1", "(2)", "(1)"} {
			for _, s := range []string{x + ":" + y, y + ":" + x, "0:" + y + ":" + x, x + ":" + y + ":1"} {
				paths = append(paths, "$["+s+"]", "$.a["+s+"]", "$[0,"+s+"]")
			}
		}
	}
	c.Bound("%d paths with computed bounds", len(paths))
	c.Grid(paths, []string{"[10,20,30]", `{"n":1,"a":[1,2,3,4]}`})

	sizes := ints(upto(0, 70), around(12))
	if c.thorough {
		sizes = ints(upto(0, 300), around(16))
	}
	c.Bound("ladders at %d array lengths up to %d", len(sizes), sizes[len(sizes)-1])
	c.Ladder(sizes, "slice-long", "slice-many", "slice-union")
	c.Far("slice-long", "slice-many", "slice-union")
	c.Sample(map[string]interface{}{"path": paths[0], "doc": "[10,20,30]"})
	c.Sample(map[string]interface{}{"path": "$[" + cube[1000] + "]", "doc": docs[len(docs)-1]})
}

func init() {
	register(&Check{ID: "C02", Level: "model_checking", Run: c02, Replay: replayLadder,
		Rule: "every slice of the bounded cube is evaluated by the reference model (position by position, without overflow) and by Eval; a trace is nontrivial if it selects something"})

	ladders["slice-long"] = func(n int) []pair {
		d := numArray(n)
		var ps []pair
		for _, s := range []string{":", "::", "1:", ":-1", "::2", "::3", "1::2", "::-1", "::-2", "-1:", "-2::-1", "3:-3", "-3:3:-1", ":3", "-3:", "2:5", "::7", "::-7", "-1::-1", "-1:0:-1", "0:0", "5:2:-1"} {
			ps = append(ps, pair{"$[" + s + "]", d})
		}
		for _, k := range []int{n - 1, n, n + 1, n / 2} {
			for _, f := range []string{"$[%d:]", "$[:%d]", "$[-%d:]", "$[:-%d]", "$[%d::-1]", "$[:%d:-1]", "$[-%d::-1]", "$[::%d]", "$[::-%d]", "$[1:%d:2]", "$[-1:-%d:-2]", "$[%d:1:-3]"} {
				if k >= 0 {
					ps = append(ps, pair{fmt.Sprintf(f, k), d})
				}
			}
		}
		return ps
	}
	// many values sliced, several kinds
	ladders["slice-many"] = func(n int) []pair {
		var sb strings.Builder
		sb.WriteByte('[')
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			switch i % 5 {
			case 4:
				fmt.Fprint(&sb, i)
			case 3:
				fmt.Fprintf(&sb, `{"a":%d}`, i)
			default:
				fmt.Fprintf(&sb, `[%d,%d,%d]`, i, i+100000, -i)
			}
		}
		sb.WriteByte(']')
		d := sb.String()
		return []pair{{"$[*][1:]", d}, {"$[*][::-1]", d}, {"$..[:2]", d}, {"$[*][0,1:]", d}, {"$[::2][:1]", d}, {"$[*][-1:]", d}}
	}
	ladders["slice-union"] = func(n int) []pair {
		if n > 2000 {
			n = 2000
		}
		s := []string{"0"}
		for i := 0; i < n; i++ {
			s = append(s, fmt.Sprintf("%d:%d:%d", i%5, i%7-3, i%4-1))
		}
		u := strings.Join(s, ",")
		return []pair{{"$[" + u + "]", numArray(6)}, {"$..[" + u + "]", `[[1,2,3],{"a":[4,5,6,7]},8]`}}
	}
}
