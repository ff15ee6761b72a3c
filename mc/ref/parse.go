package ref

import (
	"errors"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// ErrSyntax is any rejection.
var ErrSyntax = errors.New("not in the grammar")

// MaxNest is the documented nesting limit for expression terms.
const MaxNest = 10000

// The reference parser works on positions in the text (no token objects, no lookahead state):
// each parse function takes what it recognises starting at ps.i, or fails.
type ps struct {
	s     string
	i     int
	depth int
}

type fail struct{}

func (p *ps) fail() { panic(fail{}) }

func isSp(c byte) bool         { return strings.IndexByte(" \t\n\r\f\v", c) >= 0 }
func isDig(c byte) bool        { return '0' <= c && c <= '9' }
func isLet(c byte) bool        { return c == '_' || c >= 0x80 || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }
func (p *ps) end() bool        { return p.i >= len(p.s) }
func (p *ps) at(s string) bool { return strings.HasPrefix(p.s[p.i:], s) }

func (p *ps) sp() {
	for !p.end() && isSp(p.s[p.i]) {
		p.i++
	}
}

// peek skips space and returns the next byte, or 0 at the end.
// (A NUL in the text is no token, so the confusion is harmless: it fails either way, see ParsePath.)
func (p *ps) peek() byte {
	p.sp()
	if p.end() {
		return 0
	}
	return p.s[p.i]
}

func (p *ps) take(s string) bool {
	p.sp()
	if p.at(s) {
		p.i += len(s)
		return true
	}
	return false
}

func (p *ps) must(s string) {
	if !p.take(s) {
		p.fail()
	}
}

func guard(err *error) {
	if r := recover(); r != nil {
		if _, ok := r.(fail); ok {
			*err = ErrSyntax
			return
		}
		panic(r)
	}
}

// ParsePath parses a path.
func ParsePath(s string) (path *Path, err error) {
	defer guard(&err)
	p := &ps{s: s}
	path = &Path{Text: s}
	p.must("$")
	for {
		p.sp()
		if p.end() {
			path.Bare = path.isBare()
			return path, nil
		}
		path.Steps = append(path.Steps, p.step())
	}
}

// ParseExpr parses a whole script expression.
func ParseExpr(s string) (e *Expr, bare bool, err error) {
	defer guard(&err)
	p := &ps{s: s}
	e = p.expr(0)
	p.sp()
	if !p.end() {
		p.fail()
	}
	return e, IsBare(e), nil
}

func (p *ps) step() Step {
	switch {
	case p.take(".."):
		if p.take("[") {
			return p.brackets(true)
		}
		return p.member(true)
	case p.take("."):
		return p.member(false)
	case p.take("["):
		return p.brackets(false)
	}
	p.fail()
	return Step{}
}

func (p *ps) member(nest bool) Step {
	st := Step{Kind: "sel", Nest: nest, Dot: true}
	c := p.peek()
	switch {
	case c == '*':
		p.i++
		st.Kind = "wild"
	case c == '(':
		p.i++
		st.Sels = []Sel{{Kind: "expr", E: p.expr(0)}}
		p.must(")")
	case c == '-' || isDig(c):
		st.Sels = []Sel{{Kind: "int", N: p.signed()}}
	case isLet(c):
		st.Sels = []Sel{{Kind: "name", Name: p.ident(true)}}
	default:
		p.fail()
	}
	return st
}

func (p *ps) brackets(nest bool) Step {
	st := Step{Kind: "sel", Nest: nest}
	switch {
	case p.take("*"):
		st.Kind = "wild"
		p.must("]")
		return st
	case p.take("?("):
		st.Kind = "filter"
		st.E = p.expr(0)
		p.must(")")
		p.must("]")
		return st
	}
	for {
		st.Sels = append(st.Sels, p.element())
		if p.take("]") {
			break
		}
		p.must(",")
	}
	for _, s := range st.Sels {
		if s.Kind == "expr" && len(st.Sels) > 1 {
			p.fail()
		}
	}
	return st
}

func (p *ps) element() Sel {
	c := p.peek()
	switch {
	case c == '\'' || c == '"':
		return Sel{Kind: "name", Name: p.str()}
	case isLet(c):
		return Sel{Kind: "name", Name: p.ident(true)}
	case c == ':':
		return p.slice(Bound{})
	case c == '(' || c == '-' || isDig(c):
		b := p.bound()
		if p.peek() == ':' {
			return p.slice(b)
		}
		if b.E != nil {
			return Sel{Kind: "expr", E: b.E}
		}
		return Sel{Kind: "int", N: b.N}
	}
	p.fail()
	return Sel{}
}

func (p *ps) bound() Bound {
	if p.take("(") {
		e := p.expr(0)
		p.must(")")
		return Bound{Set: true, E: e}
	}
	return Bound{Set: true, N: p.signed()}
}

func (p *ps) atBound() bool {
	c := p.peek()
	return c == '(' || c == '-' || isDig(c)
}

func (p *ps) slice(start Bound) Sel {
	sel := Sel{Kind: "slice", Start: start}
	p.must(":")
	if p.atBound() {
		sel.End = p.bound()
	}
	if p.take(":") && p.atBound() {
		sel.Strid = p.bound()
	}
	return sel
}

// signed is "-"? digits; the value must fit 64 bits and its negation must not be the most negative but one.
func (p *ps) signed() int64 {
	neg := p.take("-")
	p.sp()
	n := p.integer()
	if neg {
		if n == 1<<63-1 {
			p.fail()
		}
		return -n
	}
	return n
}

func (p *ps) digits() string {
	j := p.i
	for !p.end() && isDig(p.s[p.i]) {
		p.i++
	}
	return p.s[j:p.i]
}

func (p *ps) integer() int64 {
	d := p.digits()
	if d == "" {
		p.fail()
	}
	return p.int64of(d)
}

func (p *ps) int64of(d string) int64 {
	n, ok := new(big.Int).SetString(d, 10)
	if !ok || !n.IsInt64() {
		p.fail()
	}
	return n.Int64()
}

func (p *ps) ident(dash bool) string {
	j := p.i
	for !p.end() && (isLet(p.s[p.i]) || isDig(p.s[p.i]) || dash && p.s[p.i] == '-') {
		p.i++
	}
	return p.s[j:p.i]
}

// str parses a quoted string at the current position.
func (p *ps) str() string {
	q := p.s[p.i]
	j := p.i + 1
	k := j
	for {
		if k >= len(p.s) {
			p.fail()
		}
		if p.s[k] == q {
			break
		}
		if p.s[k] == '\\' {
			k++
		}
		k++
	}
	p.i = k + 1
	v, ok := Decode(p.s[j:k], q)
	if !ok {
		p.fail()
	}
	return v
}

// Decode gives the meaning of the contents of a quoted string, by first finding all 16-bit units
// of \u escapes and then combining adjacent pairs.
func Decode(s string, q byte) (string, bool) {
	var out []byte
	var units []uint16 // run of adjacent \u escapes
	flush := func() {
		for i := 0; i < len(units); i++ {
			u := rune(units[i])
			if 0xD800 <= u && u < 0xDC00 && i+1 < len(units) && 0xDC00 <= units[i+1] && units[i+1] < 0xE000 {
				u = 0x10000 + (u-0xD800)<<10 + (rune(units[i+1]) - 0xDC00)
				i++
			} else if 0xD800 <= u && u < 0xE000 {
				u = 0xFFFD
			}
			out = utf8.AppendRune(out, u)
		}
		units = nil
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c != '\\' {
			if c < 0x20 {
				return "", false
			}
			flush()
			out = append(out, c)
			continue
		}
		i++
		if i >= len(s) {
			return "", false
		}
		c = s[i]
		if c == 'u' {
			if i+4 >= len(s) {
				return "", false
			}
			for _, h := range []byte(s[i+1 : i+5]) {
				if strings.IndexByte("0123456789abcdefABCDEF", h) < 0 {
					return "", false
				}
			}
			n, _ := strconv.ParseUint(s[i+1:i+5], 16, 16)
			units = append(units, uint16(n))
			i += 4
			continue
		}
		flush()
		k := strings.IndexByte("\\/tfnrb", c)
		switch {
		case k >= 0:
			out = append(out, "\\/\t\f\n\r\b"[k])
		case c == q:
			out = append(out, c)
		default:
			return "", false
		}
	}
	flush()
	return string(out), true
}

// binary operators by precedence level, lowest first; longer spellings first
var levels = [][]string{
	{"||"},
	{"&&"},
	{"==", "!="},
	{"<=", ">=", "<", ">", "=~", "~", "in", "nin"},
	{"+", "-"},
	{"*", "/", "%"},
}

// oper returns the binary operator of the given level at the current position, or "".
func (p *ps) oper(level int) string {
	p.sp()
	if p.end() {
		return ""
	}
	if isLet(p.s[p.i]) {
		// keyword operator: the whole word
		j := p.i
		w := p.ident(false)
		for _, o := range levels[level] {
			if o == w {
				return o
			}
		}
		p.i = j
		return ""
	}
	for _, o := range levels[level] {
		if !isLet(o[0]) && p.at(o) {
			p.i += len(o)
			return o
		}
	}
	return ""
}

func (p *ps) expr(level int) *Expr {
	if level == len(levels) {
		return p.unary()
	}
	e := p.expr(level + 1)
	for {
		o := p.oper(level)
		if o == "" {
			return e
		}
		if o == "~" {
			o = "=~"
		}
		e = &Expr{Op: o, Kids: []*Expr{e, p.expr(level + 1)}}
	}
}

func (p *ps) unary() *Expr {
	p.depth++
	defer func() { p.depth-- }()
	if p.depth > MaxNest {
		p.fail()
	}
	switch {
	case p.take("-"):
		return &Expr{Op: "neg", Kids: []*Expr{p.unary()}}
	case p.peek() == '!':
		p.i++
		if p.at("=") {
			p.fail()
		}
		return &Expr{Op: "!", Kids: []*Expr{p.unary()}}
	}
	e := p.term()
	for {
		switch {
		case p.take("("):
			if e.Op != "id" {
				p.fail()
			}
			e = &Expr{Op: "call", Name: e.Name, Kids: p.list(")")}
		case p.take("["):
			k := p.expr(0)
			p.must("]")
			e = &Expr{Op: "[]", Kids: []*Expr{e, k}}
		case p.take("."):
			c := p.peek()
			if !isLet(c) {
				p.fail()
			}
			e = &Expr{Op: ".", Name: p.ident(false), Kids: []*Expr{e}}
		default:
			return e
		}
	}
}

// list parses comma-separated expressions up to the closing bracket.
func (p *ps) list(end string) []*Expr {
	var es []*Expr
	if p.take(end) {
		return es
	}
	for {
		es = append(es, p.expr(0))
		if p.take(end) {
			return es
		}
		p.must(",")
	}
}

func (p *ps) term() *Expr {
	c := p.peek()
	switch {
	case p.end():
		p.fail()
	case c == '@' || c == '$':
		p.i++
		return &Expr{Op: string(c)}
	case c == '(':
		p.i++
		e := p.expr(0)
		p.must(")")
		return e
	case c == '[':
		p.i++
		return &Expr{Op: "array", Kids: p.list("]")}
	case c == '\'' || c == '"':
		return &Expr{Op: "lit", Lit: p.str()}
	case c == '/':
		p.i++
		var b []byte
		for {
			if p.end() {
				p.fail()
			}
			if p.at("/") {
				p.i++
				break
			}
			if p.at(`\/`) {
				p.i++
			}
			b = append(b, p.s[p.i])
			p.i++
		}
		re, err := regexp.Compile(string(b))
		if err != nil {
			p.fail()
		}
		return &Expr{Op: "re", Re: re}
	case isDig(c):
		d := p.digits()
		if !p.at(".") {
			return &Expr{Op: "lit", Lit: p.int64of(d)}
		}
		p.i++
		d += "." + p.digits()
		if p.at("e") || p.at("E") {
			p.i++
			d += "e"
			if p.at("+") || p.at("-") {
				d += p.s[p.i : p.i+1]
				p.i++
			}
			x := p.digits()
			if x == "" {
				p.fail()
			}
			d += x
		}
		f, err := strconv.ParseFloat(d, 64)
		if err != nil {
			p.fail()
		}
		return &Expr{Op: "lit", Lit: f}
	case isLet(c):
		switch id := p.ident(false); id {
		case "true":
			return &Expr{Op: "lit", Lit: true}
		case "false":
			return &Expr{Op: "lit", Lit: false}
		case "null":
			return &Expr{Op: "lit", Lit: nil}
		default:
			return &Expr{Op: "id", Name: id}
		}
	}
	p.fail()
	return nil
}

// IsBare reports whether e uses an identifier or a /re/ as a value (a /re/ is only for =~).
func IsBare(e *Expr) bool {
	if e == nil {
		return false
	}
	if e.Op == "id" || e.Op == "re" {
		return true
	}
	for i, k := range e.Kids {
		if k.Op == "re" && e.Op == "=~" && i == 1 {
			continue
		}
		if IsBare(k) {
			return true
		}
	}
	return false
}

func (path *Path) isBare() bool {
	for _, st := range path.Steps {
		if IsBare(st.E) {
			return true
		}
		for _, s := range st.Sels {
			if IsBare(s.E) || IsBare(s.Start.E) || IsBare(s.End.E) || IsBare(s.Strid.E) {
				return true
			}
		}
	}
	return false
}
