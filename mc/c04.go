package main

import (
	"fmt"
	"strings"
)

var c04Exprs = []string{
	"@", "!@", "!!@", "@.a", "!@.a", "@.b", "@[0]", "!@[0]", "@[-1]", "@['a']", "@.length", "!@.length", "@.a.b", "@.a.a", "@[0][0]",
	"0", "1", "0.0", "0.5", "''", "'x'", "'0'", "null", "true", "false", "[]", "[0]", "!0", "!''", "-0", "-0.0", "1/0", "@.z", "!@.z", "!(1/0)",
	"$", "$.x", "$.a", "$[0]", "!$.x", "$.a==@.a", "@==$.a", "@==$[0]", "$.length", "$.length==@.length",
	"@==1", "@!=1", "@.a==1", "@.a!=1", "@>1", "@<3", "@>=2", "@<=2", "@.a>1", "@.a<@.b", "@=='s2'", "@.a=='s2'", "@==null", "@!=null", "@.a==null", "@.z==null", "@==true", "@==false", "@==@", "@!=@", "@.a==@.b", "@==[]", "@==[0]", "@.a==[0]",
	"@.a&&@.b", "@.a||@.b", "@.a&&!@.b", "@&&@.a", "@||@.a", "@.z||@.a", "@.z&&@.a", "@.a||1", "@.a&&0", "!(@.a&&@.b)", "!@.a||@.b",
	"@ in [1,2,'s2']", "@ nin [1,null]", "@.a in [1,2,3]", "@.length==1", "@.length>1", "@.length-1", "@-1", "@*0", "@+1", "-@", "@%2", "@/2", "@%2==0",
	"length(@)", "length(@)==2", "abs(@)>1", "contains([1,2],@)", "contains(keys(@),'a')", "max([@,2])==2", "sum(@)", "@.a+@.b", "@.a*2==@.b",
}

var c04Docs = []string{
	`[null,false,true,0,-0.0,1,-1,0.5,"","0","a"," ",[],[0],[null],{},{"a":0},{"a":null},{"a":""},{"a":false},{"a":1},{"a":[]},{"b":1}]`,
	`{"m1":null,"m2":false,"m3":true,"m4":0,"m5":1,"m6":"","m7":"x","m8":[],"m9":{},"a":1,"x":2}`,
	`{"a":[{"a":1,"b":2},{"a":3},{"b":4},{"a":0,"b":5},{"a":null},5,"s2",[6,7],[]],"b":{"a":{"a":8},"b":[9],"c":0},"x":0}`,
	`[{"a":1,"b":2},{"a":2,"b":1},{"a":{"a":1,"b":2}},[1,2],[[1],2],{"a":"s2"},1,2,3,4]`,
	`[[{"a":1},{"a":0}],[{"a":2}],[],{"a":{"a":3},"b":{"a":0}},7,null]`,
	`[1,1,1,2,2,1]`, `[{"a":1},{"a":1},{"a":0},{"a":1}]`, `{"x":1,"a":{"a":1},"b":{"a":2}}`, `[[[]],[[0]],[[1]]]`,
	`"scalar"`, `null`, `0`, `1`, `true`, `""`, `[]`, `{}`, `[[]]`, `[{}]`, `{"a":[]}`, `{"a":{}}`, `{"a":1}`, `[null]`, `{"a":null}`, `{"a":[null]}`,
}

func c04(c *Ctx) {
	n := 5
	exprs := uniq(c04Exprs)
	docs := uniq(append(append([]string{}, c04Docs...), append(treeDocs(n, number), treeDocs(n, mixed)...)...))
	var paths []string
	for _, e := range exprs {
		paths = append(paths, "$[?("+e+")]", "$..[?("+e+")]")
	}
	c.Bound("%d filter expressions, plain and nested, on all %d documents with <= %d nodes", len(exprs), len(docs), n)
	c.Grid(paths, docs)

	// every character as a string, and as a member's name, is a candidate like any other
	var chars, names []string
	for r := rune(0); r < 0x10000; r++ {
		if r < 0xd800 || r > 0xdfff {
			u := fmt.Sprintf(`"\\u%04x"`, r)
			chars = append(chars, u)
			names = append(names, u+":[1]")
		}
	}
	var named []string
	for i := 0; i < len(names); i += 512 {
		j := i + 512
		if j > len(names) {
			j = len(names)
		}
		named = append(named, "{"+strings.Join(names[i:j], ",")+"}")
	}
	c.Bound("filters over every character of 16 bits as a string, and as the name of a member")
	c.Grid([]string{"$[?(@)]", "$[?(!@)]", "$[?(@&&1)]", "$[?(@||0)]", "$[?(@.length==1)]"}, batches(chars, 5000))
	c.Grid([]string{"$[?(@)]", "$[?(@[0])]", "$..[?(@==1)]"}, named)

	pre := []string{".a", ".b", ".*", "[0]", "[-1]", "['a','b']", "[1:]", "[?(@)]", "[?(@.a)]", "..a", "..*", ".z", "[::-1]", "[?(0)]", "[0,0]"}
	suf := []string{".a", ".*", "[0]", "[-1]", "..a", "[?(@)]", "[?(@.a)]", "[?(@>1)]", "['a',0]", "[1:]", "[?(!@)]", "[(0)]", "[('a')]"}
	paths = nil
	for _, e := range exprs {
		for _, p := range pre {
			paths = append(paths, "$"+p+"[?("+e+")]")
		}
		for _, s := range suf {
			paths = append(paths, "$[?("+e+")]"+s, "$..[?("+e+")]"+s)
		}
		for _, p := range pre[:8] {
			for _, s := range suf[:7] {
				paths = append(paths, "$"+p+"[?("+e+")]"+s)
			}
		}
	}
	docs4 := uniq(append(append([]string{}, c04Docs...), treeDocs(4, mixed)...))
	if c.thorough {
		docs4 = docs
	}
	c.Bound("the same after %d and before %d other steps: %d paths on %d documents", len(pre), len(suf), len(paths), len(docs4))
	c.Grid(paths, docs4)

	// every pair of filters
	paths = nil
	for _, a := range exprs {
		for _, b := range exprs {
			paths = append(paths, "$[?("+a+")][?("+b+")]")
			if c.thorough {
				paths = append(paths, "$..[?("+a+")][?("+b+")]", "$[?("+a+")]..[?("+b+")]", "$[*][?("+a+")].a[?("+b+")]")
			}
		}
	}
	c.Bound("%d paths with every pair of filters on the rich documents", len(paths))
	c.Grid(paths, c04Docs)

	sizes := ints(upto(0, 140), around(11))
	if c.thorough {
		sizes = ints(upto(0, 300), around(16))
	}
	c.Bound("candidate-count ladders at %d sizes up to %d", len(sizes), sizes[len(sizes)-1])
	c.Ladder(sizes, "filter-count", "filter-sources", "filter-chain")
	c.Far("filter-count", "filter-sources", "filter-chain")
	c.Sample(map[string]string{"path": "$[?(@.a&&@.b)]", "doc": c04Docs[2]})
	c.Sample(map[string]string{"path": paths[77], "doc": c04Docs[0]})
}

func init() {
	register(&Check{ID: "C04", Level: "model_checking", Run: c04, Replay: replayLadder,
		Rule: "every filter expression of the alphabet is evaluated on every candidate of every document by the model and by Eval, in every position; a trace is nontrivial if something is kept"})

	ladders["filter-count"] = func(n int) []pair {
		d := numArray(n)
		o := numObject(n)
		last := fmt.Sprint((n - 1) * 10)
		return []pair{{"$[?(1)]", d}, {"$[?(@>=0)]", d}, {"$[?(@==" + last + ")]", d}, {"$[?(@!=" + last + ")]", d}, {"$[?(@%20==0)]", d}, {"$[?(0)]", d}, {"$[?(@==0)]", d}, {"$[?(@>" + fmt.Sprint(n*5) + ")]", d},
			{"$[?(1)]", o}, {"$[?(@==" + last + ")]", o}, {"$[?(@%20==0)]", o}}
	}
	// many containers feed the filter
	ladders["filter-sources"] = func(n int) []pair {
		if n > 5000 {
			n = 5000
		}
		var sb strings.Builder
		sb.WriteByte('[')
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			switch i % 5 {
			case 0:
				fmt.Fprintf(&sb, `[%d,{"a":%d}]`, i, i)
			case 1:
				sb.WriteString("[]")
			case 2:
				fmt.Fprint(&sb, i)
			case 3:
				fmt.Fprintf(&sb, `{"a":{"a":%d}}`, i%2)
			case 4:
				sb.WriteString("{}")
			}
		}
		sb.WriteByte(']')
		d := sb.String()
		return []pair{{"$[*][?(@.a)]", d}, {"$[*][?(@)]", d}, {"$..[?(@.a)]", d}, {"$[?(@.a)]", d}, {"$[?(@.length)]", d}, {"$[*][?(@.a)].a", d}, {"$[?(@)][?(@)]", d}}
	}
	// many filters in sequence
	ladders["filter-chain"] = func(n int) []pair {
		if n > 1100 {
			n = 1100
		}
		d := nested(n, "a", "[7]")
		return []pair{{"$" + strings.Repeat("[?(@.length)]", n), d}, {"$" + strings.Repeat("[?(1)]", n%12), d}, {"$" + strings.Repeat("[?(@[0])]", n), d}}
	}
}
