package ref

import (
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
)

// jsStrNum is JavaScript's StringToNumber.
var decimalRE = regexp.MustCompile(`^[+-]?(Infinity|[0-9]+\.?[0-9]*([eE][+-]?[0-9]+)?|\.[0-9]+([eE][+-]?[0-9]+)?)$`)
var radixRE = regexp.MustCompile(`^0([xX][0-9a-fA-F]+|[oO][0-7]+|[bB][01]+)$`)

func jsStrNum(s string) float64 {
	s = strings.Trim(s, " \t\n\r\f\v\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000\ufeff")
	switch {
	case s == "":
		return 0
	case radixRE.MatchString(s):
		n, _ := new(big.Int).SetString(s, 0)
		f, _ := new(big.Float).SetInt(n).Float64()
		return f
	case decimalRE.MatchString(s):
		f, _ := strconv.ParseFloat(s, 64) // out of range: infinity, as in JavaScript
		return f
	}
	return math.NaN()
}

// jsNumStr is JavaScript's Number::toString.
func jsNumStr(f float64) string {
	switch {
	case f != f:
		return "NaN"
	case math.IsInf(f, 1):
		return "Infinity"
	case math.IsInf(f, -1):
		return "-Infinity"
	case f == 0:
		return "0"
	}
	if a := math.Abs(f); a >= 1e21 || a < 1e-6 {
		s := strconv.FormatFloat(f, 'e', -1, 64)
		// exponent without leading zero
		i := strings.IndexByte(s, 'e')
		exp := s[i+2:]
		for len(exp) > 1 && exp[0] == '0' {
			exp = exp[1:]
		}
		return s[:i+2] + exp
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

// jsString is ToString of a value (arrays joined, null and undefined empty inside arrays).
func jsString(v Value) string {
	switch v := v.(type) {
	case nil:
		return "null"
	case Missing:
		return "undefined"
	case bool:
		return strconv.FormatBool(v)
	case int64:
		return strconv.FormatInt(v, 10)
	case float64:
		return jsNumStr(v)
	case string:
		return v
	case []interface{}:
		parts := make([]string, len(v))
		for i, e := range v {
			switch e.(type) {
			case nil, Missing:
			default:
				parts[i] = jsString(e)
			}
		}
		return strings.Join(parts, ",")
	}
	return "[object Object]"
}

type kind int

const (
	kUndef kind = iota
	kNull
	kBool
	kNum
	kStr
	kObj
)

func kindOf(v Value) kind {
	switch v.(type) {
	case Missing:
		return kUndef
	case nil:
		return kNull
	case bool:
		return kBool
	case int64, float64:
		return kNum
	case string:
		return kStr
	}
	return kObj
}

func numEq(a, b Value) bool {
	ai, af, ax, _ := number(a)
	bi, bf, bx, _ := number(b)
	if ax || bx {
		return af == bf
	}
	return ai == bi
}

// Equal is JavaScript's ==, with structures compared by contents.
func (m *Machine) Equal(a, b Value) bool {
	ka, kb := kindOf(a), kindOf(b)
	if ka > kb {
		a, b, ka, kb = b, a, kb, ka
	}
	// now ka <= kb
	switch {
	case kb <= kNull:
		return true
	case ka <= kNull:
		return false
	case ka == kObj:
		switch a := a.(type) {
		case []interface{}:
			b, ok := b.([]interface{})
			if !ok || len(a) != len(b) {
				return false
			}
			for i := range a {
				if !m.Equal(a[i], b[i]) {
					return false
				}
			}
			return true
		case map[string]interface{}:
			b, ok := b.(map[string]interface{})
			if !ok || len(a) != len(b) {
				return false
			}
			for k, v := range a {
				w, ok := b[k]
				if !ok || !m.Equal(v, w) {
					return false
				}
			}
			return true
		}
		return false
	case kb == kObj:
		return m.equalObj(a, b)
	case ka == kb:
		if ka == kNum {
			return numEq(a, b)
		}
		return a == b
	}
	// two of bool, num, str
	if kb == kStr {
		f := jsStrNum(b.(string))
		_, x, _, _ := number(a)
		return f == x
	}
	return numEq(a, b)
}

// equalObj compares a primitive with an array or object.
// Comparing with longer arrays and with objects is never true: the implementation and its tests
// leave the string forms of those out ("only when that's an array can == be true").
func (m *Machine) equalObj(p, o Value) bool {
	l, isArray := o.([]interface{})
	if !isArray || len(l) > 1 {
		return false
	}
	if b, ok := p.(bool); ok {
		p = int64(0)
		if b {
			p = int64(1)
		}
	}
	_, str := p.(string)
	if len(l) == 0 {
		return m.Equal(p, "")
	}
	switch e := l[0].(type) {
	case nil, Missing:
		return m.Equal(p, "")
	case string:
		return m.Equal(p, e)
	case bool:
		// pinned by the implementation's tests: a boolean element compares as a boolean with a number or boolean
		if !str {
			return numEq(e, p)
		}
		return p == jsString(e)
	case int64, float64:
		if str {
			return p == jsString(e)
		}
		return numEq(e, p)
	case []interface{}:
		return m.equalObj(p, e) // same string
	}
	return str && p == jsString(l[0])
}
