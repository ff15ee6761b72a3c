package ref

import (
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Arity of each function (-1: any).
var Arity = map[string]int{
	"abs": 1, "avg": 1, "ceil": 1, "contains": 2, "ends_with": 2, "floor": 1, "keys": 1, "length": 1,
	"max": -1, "min": -1, "prod": 1, "starts_with": 2, "sum": 1, "to_number": 1, "tokenize": 2,
}

func (m *Machine) call(name string, args []Value) Value {
	n, ok := Arity[name]
	if !ok || n >= 0 && n != len(args) {
		panic(ErrRun)
	}
	var a, b Value
	if len(args) > 0 {
		a = args[0]
	}
	if len(args) > 1 {
		b = args[1]
	}
	no := Missing{}
	switch name {
	case "abs":
		switch a := a.(type) {
		case int64:
			if a == math.MinInt64 {
				return no
			}
			if a < 0 {
				return -a
			}
			return a
		case float64:
			return math.Abs(a)
		}
		return no
	case "ceil", "floor":
		switch a := a.(type) {
		case int64:
			return a
		case float64:
			if name == "ceil" {
				return math.Ceil(a)
			}
			return math.Floor(a)
		}
		return no
	case "avg", "sum", "prod":
		l, ok := a.([]interface{})
		if !ok {
			return no
		}
		if len(l) == 0 {
			if name == "sum" {
				return 0.0
			}
			return nil
		}
		sum, prod := 0.0, 1.0
		for _, v := range l {
			_, f, _, ok := number(v)
			if !ok {
				return no
			}
			sum += f
			prod *= f
		}
		switch name {
		case "avg":
			return sum / float64(len(l))
		case "prod":
			return prod
		}
		return sum
	case "max", "min":
		l := args
		if len(args) == 0 {
			return nil
		}
		if len(args) == 1 {
			var ok bool
			l, ok = a.([]interface{})
			if !ok {
				return no
			}
			if len(l) == 0 {
				return nil
			}
		}
		if s, ok := l[0].(string); ok {
			for _, v := range l[1:] {
				t, ok := v.(string)
				if !ok {
					return no
				}
				if (t < s) == (name == "min") {
					s = t
				}
			}
			return s
		}
		if _, isb := l[0].(bool); isb {
			return no
		}
		_, r, _, ok := number(l[0])
		if !ok {
			return no
		}
		for _, v := range l[1:] {
			_, f, _, ok := number(v)
			if !ok {
				return no
			}
			if name == "min" && f < r || name == "max" && f > r {
				r = f
			}
		}
		return r
	case "contains":
		switch a := a.(type) {
		case string:
			if s, ok := b.(string); ok {
				return strings.Contains(a, s)
			}
		case []interface{}:
			return m.among(a, b)
		}
		return no
	case "starts_with", "ends_with":
		s, ok1 := a.(string)
		t, ok2 := b.(string)
		if !ok1 || !ok2 {
			return no
		}
		if len(t) > len(s) {
			return false
		}
		if name == "starts_with" {
			return s[:len(t)] == t
		}
		return s[len(s)-len(t):] == t
	case "keys":
		o, ok := a.(map[string]interface{})
		if !ok {
			return no
		}
		l := []interface{}{}
		for _, k := range names(o) {
			l = append(l, k)
		}
		return l
	case "length":
		switch a := a.(type) {
		case string:
			return int64(utf8.RuneCountInString(a))
		case []interface{}:
			return int64(len(a))
		case map[string]interface{}:
			return int64(len(a))
		}
		return nil
	case "to_number":
		switch a := a.(type) {
		case int64, float64:
			return a
		case string:
			f, err := strconv.ParseFloat(a, 64)
			if err != nil {
				return no
			}
			return f
		}
		return no
	case "tokenize":
		s, ok1 := a.(string)
		t, ok2 := b.(string)
		if !ok1 || !ok2 {
			return no
		}
		re, err := regexp.Compile(t)
		if err != nil {
			return no
		}
		l := []interface{}{}
		for _, p := range re.Split(s, -1) {
			l = append(l, p)
		}
		return l
	}
	panic("ref: function " + name)
}
