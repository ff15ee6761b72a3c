package ref

import (
	"errors"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// ErrRun is any run-time error.
var ErrRun = errors.New("run-time error")

// Quirks selects recorded deviations of the implementation (see known_findings.txt).
type Quirks struct {
	Eager  bool // KF1: && and || evaluate both operands even when JavaScript would skip the right one
	Bounds bool // KF2: computed slice bounds are taken as 0
}

// Tree is a selection: a sequence whose parts may be unordered (members of objects).
type Tree struct {
	Leaf bool
	V    Value
	Bag  bool
	Kids []*Tree
	N    int // number of leaves
}

func leaf(v Value) *Tree { return &Tree{Leaf: true, V: v, N: 1} }

func group(bag bool, kids []*Tree) *Tree {
	t := &Tree{Bag: bag}
	for _, k := range kids {
		if k.N > 0 {
			t.Kids = append(t.Kids, k)
			t.N += k.N
		}
	}
	if len(t.Kids) == 1 {
		return t.Kids[0]
	}
	return t
}

// Each replaces every leaf by the selection f gives for it.
func (t *Tree) each(f func(Value) *Tree) *Tree {
	if t.Leaf {
		return f(t.V)
	}
	kids := make([]*Tree, len(t.Kids))
	for i, k := range t.Kids {
		kids[i] = k.each(f)
	}
	return group(t.Bag, kids)
}

// Leaves lists the selected values in one admissible order.
func (t *Tree) Leaves() []Value {
	if t.Leaf {
		return []Value{t.V}
	}
	vs := []Value{}
	for _, k := range t.Kids {
		vs = append(vs, k.Leaves()...)
	}
	return vs
}

// Machine evaluates one path on one document.
type Machine struct {
	Q      Quirks
	Root   Value
	Trans  int // model transitions taken
	OnStep func(i int, t *Tree)
	// Skipped is set when strict evaluation skipped an operand (only then can Eager differ)
	Skipped bool
}

// Eval evaluates path on root.
func Eval(path *Path, root Value, q Quirks) (*Tree, error) {
	m := &Machine{Q: q, Root: root}
	return m.Run(path)
}

// Run evaluates the path.
func (m *Machine) Run(path *Path) (t *Tree, err error) {
	defer func() {
		if r := recover(); r != nil {
			if r == ErrRun {
				t, err = nil, ErrRun
				return
			}
			panic(r)
		}
	}()
	t = leaf(m.Root)
	for i := range path.Steps {
		t = m.step(&path.Steps[i], t)
		if m.OnStep != nil {
			m.OnStep(i, t)
		}
	}
	return t, nil
}

func (m *Machine) step(st *Step, in *Tree) *Tree {
	if st.Nest {
		in = in.each(m.walk)
		return in.each(func(v Value) *Tree { return m.apply(st, v, v, nil) })
	}
	if st.Kind == "filter" {
		return in.each(func(v Value) *Tree {
			return m.children(v).each(func(c Value) *Tree {
				m.Trans++
				if Truthy(m.Expr(st.E, c)) {
					return leaf(c)
				}
				return group(false, nil)
			})
		})
	}
	// computed keys and bounds do not depend on the value they are applied to
	var keys []Value
	for _, s := range st.Sels {
		var k Value
		if s.Kind == "expr" {
			k = m.Expr(s.E, nil)
		}
		keys = append(keys, k)
	}
	return in.each(func(v Value) *Tree { return m.apply(st, v, nil, keys) })
}

// walk lists a structure and everything structured in it, containers first.
func (m *Machine) walk(v Value) *Tree {
	m.Trans++
	switch v := v.(type) {
	case []interface{}:
		kids := []*Tree{leaf(v)}
		for _, e := range v {
			kids = append(kids, m.walk(e))
		}
		return group(false, kids)
	case map[string]interface{}:
		kids := []*Tree{}
		for _, k := range names(v) {
			kids = append(kids, m.walk(v[k]))
		}
		return group(false, []*Tree{leaf(v), group(true, kids)})
	}
	return group(false, nil)
}

func names(m map[string]interface{}) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (m *Machine) children(v Value) *Tree {
	kids := []*Tree{}
	switch v := v.(type) {
	case []interface{}:
		for _, e := range v {
			kids = append(kids, leaf(e))
		}
		return group(false, kids)
	case map[string]interface{}:
		for _, k := range names(v) {
			kids = append(kids, leaf(v[k]))
		}
		return group(true, kids)
	}
	return group(false, nil)
}

// apply applies the step's selectors to one value; keys holds computed keys (nil: compute with dot).
func (m *Machine) apply(st *Step, v, dot Value, keys []Value) *Tree {
	m.Trans++
	switch st.Kind {
	case "wild":
		return m.children(v)
	case "filter": // ..[?(e)]: the structures visited are the candidates
		if Truthy(m.Expr(st.E, dot)) {
			return leaf(v)
		}
		return group(false, nil)
	}
	var kids []*Tree
	for i, s := range st.Sels {
		switch s.Kind {
		case "name":
			if o, ok := v.(map[string]interface{}); ok {
				if el, ok := o[s.Name]; ok {
					kids = append(kids, leaf(el))
				}
			}
		case "int":
			kids = append(kids, byKey(v, s.N, !st.Dot))
		case "expr":
			var k Value
			if keys != nil {
				k = keys[i]
			} else {
				k = m.Expr(s.E, dot)
			}
			kids = append(kids, byKey(v, k, !st.Dot))
		case "slice":
			if a, ok := v.([]interface{}); ok {
				kids = append(kids, m.slice(a, s, dot))
			}
		}
	}
	return group(false, kids)
}

// byKey selects by the value of an index or computed subscript.
func byKey(v, key Value, neg bool) *Tree {
	none := group(false, nil)
	switch v := v.(type) {
	case []interface{}:
		var n int64
		switch k := key.(type) {
		case int64:
			n = k
		case float64:
			if !(k > -(1<<62) && k < 1<<62) {
				return none
			}
			n = int64(k) // toward zero
		default:
			return none
		}
		if n < 0 && neg {
			n += int64(len(v))
		}
		if n < 0 || n >= int64(len(v)) {
			return none
		}
		return leaf(v[n])
	case map[string]interface{}:
		if el, ok := member(v, key); ok {
			return leaf(el)
		}
	}
	return none
}

// member finds the member named by a key value.
func member(o map[string]interface{}, key Value) (Value, bool) {
	var s string
	switch k := key.(type) {
	case string:
		s = k
	case int64:
		s = strconv.FormatInt(k, 10)
	case float64:
		if !(k > -(1<<62) && k < 1<<62) {
			return nil, false
		}
		s = strconv.FormatInt(int64(k), 10)
	case bool:
		s = strconv.FormatBool(k)
	default:
		return nil, false
	}
	el, ok := o[s]
	return el, ok
}

// slice is defined by the positions visited, one by one, with arithmetic that cannot overflow.
func (m *Machine) slice(a []interface{}, s Sel, dot Value) *Tree {
	n := len(a)
	get := func(b Bound, def int64) (int64, bool) {
		if !b.Set {
			return def, true
		}
		if b.E == nil {
			return b.N, true
		}
		if m.Q.Bounds {
			return 0, true
		}
		switch x := m.Expr(b.E, dot).(type) {
		case int64:
			return x, true
		case float64:
			return int64(x), true
		}
		return 0, false
	}
	none := group(false, nil)
	stride, ok := get(s.Strid, 1)
	if !ok || stride == 0 {
		return none
	}
	var kids []*Tree
	if stride > 0 {
		lo, ok1 := get(s.Start, 0)
		hi, ok2 := get(s.End, int64(n))
		if !ok1 || !ok2 {
			return none
		}
		lo, hi = clip(lo, n, 0, n), clip(hi, n, 0, n)
		next := lo
		for i := lo; i < hi; i++ {
			if i == next {
				kids = append(kids, leaf(a[i]))
				if stride >= int64(n) {
					break
				}
				next = i + stride
			}
		}
	} else {
		hi, lo := int64(n-1), int64(-1)
		if s.Start.Set {
			x, ok := get(s.Start, 0)
			if !ok {
				return none
			}
			hi = clip(x, n, -1, n-1)
		}
		if s.End.Set {
			x, ok := get(s.End, 0)
			if !ok {
				return none
			}
			lo = clip(x, n, -1, n-1)
		}
		next := hi
		for i := hi; i > lo; i-- {
			if i == next {
				kids = append(kids, leaf(a[i]))
				if stride <= int64(-n) {
					break
				}
				next = i + stride
			}
		}
	}
	return group(false, kids)
}

// clip resolves a bound counted from the end and clips it to [min, max].
func clip(x int64, n, min, max int) int64 {
	if x < 0 {
		if x < -int64(n) {
			return int64(min)
		}
		x += int64(n)
	}
	if x < int64(min) {
		return int64(min)
	}
	if x > int64(max) {
		return int64(max)
	}
	return x
}

// Truthy is JavaScript's ToBoolean, with Missing falsy.
func Truthy(v Value) bool {
	switch v := v.(type) {
	case nil, Missing:
		return false
	case bool:
		return v
	case int64:
		return v != 0
	case float64:
		return !(v == 0 || v != v)
	case string:
		return v != ""
	}
	return true
}

func miss(v Value) bool {
	_, ok := v.(Missing)
	return ok
}

// number gives the numeric value of a bool, int64 or float64.
func number(v Value) (i int64, f float64, isf, ok bool) {
	switch v := v.(type) {
	case bool:
		if v {
			return 1, 1, false, true
		}
		return 0, 0, false, true
	case int64:
		return v, float64(v), false, true
	case float64:
		return 0, v, true, true
	}
	return 0, 0, false, false
}

// Expr evaluates e with @ bound to dot.
func (m *Machine) Expr(e *Expr, dot Value) Value {
	m.Trans++
	switch e.Op {
	case "lit":
		return e.Lit
	case "re":
		return e.Re
	case "@":
		return dot
	case "$":
		return m.Root
	case "array":
		a := make([]interface{}, len(e.Kids))
		for i, k := range e.Kids {
			a[i] = m.Expr(k, dot)
		}
		return a
	case "call":
		args := make([]Value, len(e.Kids))
		for i, k := range e.Kids {
			args[i] = m.Expr(k, dot)
		}
		return m.call(e.Name, args)
	case "id":
		return Name(e.Name)
	case ".":
		v := m.Expr(e.Kids[0], dot)
		if e.Name == "length" {
			switch v := v.(type) {
			case string:
				return int64(utf8.RuneCountInString(v))
			case []interface{}:
				return int64(len(v))
			case map[string]interface{}:
				return int64(len(v))
			}
			return Missing{}
		}
		if o, ok := v.(map[string]interface{}); ok {
			if el, ok := o[e.Name]; ok {
				return el
			}
		}
		return Missing{}
	case "[]":
		v := m.Expr(e.Kids[0], dot)
		k := m.Expr(e.Kids[1], dot)
		return index(v, k)
	case "neg":
		switch v := m.Expr(e.Kids[0], dot).(type) {
		case Missing:
			return v
		case float64:
			return -v
		case int64:
			return -v
		case bool:
			if v {
				return int64(-1)
			}
			return int64(0)
		case string:
			return -jsStrNum(v)
		default:
			return int64(0)
		}
	case "!":
		return !Truthy(m.Expr(e.Kids[0], dot))
	}
	a := m.Expr(e.Kids[0], dot)
	switch e.Op {
	case "&&", "||":
		stop := Truthy(a) == (e.Op == "||")
		if m.Q.Eager || !stop {
			b := m.Expr(e.Kids[1], dot)
			if !stop {
				return b
			}
		} else {
			m.Skipped = true
		}
		return a
	}
	b := m.Expr(e.Kids[1], dot)
	switch e.Op {
	case "==":
		return m.Equal(a, b)
	case "!=":
		return !m.Equal(a, b)
	}
	if miss(a) || miss(b) {
		return Missing{}
	}
	switch e.Op {
	case "+", "-", "*", "/", "%":
		return arith(e.Op, a, b)
	case "<", "<=", ">", ">=":
		return order(e.Op, a, b)
	case "=~":
		var re *regexp.Regexp
		switch b := b.(type) {
		case *regexp.Regexp:
			re = b
		case string:
			var err error
			re, err = regexp.Compile(b)
			if err != nil {
				panic(ErrRun)
			}
		default:
			panic(ErrRun)
		}
		s, ok := a.(string)
		if !ok {
			panic(ErrRun)
		}
		return re.MatchString(s)
	case "in", "nin":
		l, ok := b.([]interface{})
		if !ok {
			panic(ErrRun)
		}
		return m.among(l, a) == (e.Op == "in")
	}
	panic("ref: operator " + e.Op)
}

func (m *Machine) among(l []interface{}, v Value) bool {
	for _, x := range l {
		if m.Equal(x, v) {
			return true
		}
	}
	return false
}

func index(v, k Value) Value {
	if miss(v) || miss(k) {
		return Missing{}
	}
	switch v := v.(type) {
	case []interface{}:
		switch x := k.(type) {
		case string:
			n, err := strconv.ParseInt(x, 10, 64)
			if err != nil {
				return Missing{}
			}
			k = n
		case bool:
			n, _, _, _ := number(x)
			k = n
		}
		t := byKey(v, k, true)
		if t.N == 1 {
			return t.V
		}
	case map[string]interface{}:
		if el, ok := member(v, k); ok {
			return el
		}
	}
	return Missing{}
}

func arith(op string, a, b Value) Value {
	ai, af, ax, aok := number(a)
	bi, bf, bx, bok := number(b)
	if !aok || !bok {
		return Missing{}
	}
	if ax || bx {
		switch op {
		case "+":
			return af + bf
		case "-":
			return af - bf
		case "*":
			return af * bf
		}
		if bf == 0 {
			return Missing{}
		}
		if op == "/" {
			return af / bf
		}
		return math.Mod(af, bf)
	}
	switch op {
	case "+":
		return ai + bi
	case "-":
		return ai - bi
	case "*":
		return ai * bi
	}
	if bi == 0 {
		return Missing{}
	}
	if op == "/" {
		return ai / bi
	}
	return ai % bi
}

func order(op string, a, b Value) Value {
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	var lt, eq, gt bool
	if ok1 && ok2 {
		c := strings.Compare(as, bs)
		lt, eq, gt = c < 0, c == 0, c > 0
	} else {
		ai, af, ax, aok := number(a)
		bi, bf, bx, bok := number(b)
		if !aok || !bok {
			return false
		}
		if ax || bx {
			lt, eq, gt = af < bf, af == bf, af > bf
		} else {
			lt, eq, gt = ai < bi, ai == bi, ai > bi
		}
	}
	switch op {
	case "<":
		return lt
	case "<=":
		return lt || eq
	case ">":
		return gt
	}
	return gt || eq
}
