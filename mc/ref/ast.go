// Package ref is the reference model: a deliberately plain interpreter for the documented path language.
// It shares no code with the implementation.
package ref

import "regexp"

// Value is a JSON value (nil, bool, float64, string, []interface{}, map[string]interface{}),
// or, inside expressions, int64, *regexp.Regexp or Missing.
type Value = interface{}

// Missing is the result of an expression without a usable value.
type Missing struct{}

// Name is the value of a bare identifier; outside a call it is not in the modelled domain.
type Name string

// Expr is a script expression.
type Expr struct {
	Op   string // lit re @ $ id call . [] array neg ! and the binary operators
	Lit  Value
	Re   *regexp.Regexp
	Name string
	Kids []*Expr
}

// Bound is a slice bound: absent, constant, or computed.
type Bound struct {
	Set bool
	N   int64
	E   *Expr
}

// Sel is a selector in brackets or after a dot.
type Sel struct {
	Kind              string // name int slice expr
	Name              string
	N                 int64
	E                 *Expr
	Start, End, Strid Bound
}

// Step is one step of a path.
type Step struct {
	Kind string // sel wild filter
	Nest bool   // ..
	Dot  bool   // .x form (no negative indices)
	Sels []Sel
	E    *Expr
}

// Path is a parsed path.
type Path struct {
	Text  string
	Steps []Step
	Bare  bool // uses a bare identifier as a value: outside the modelled domain
}
