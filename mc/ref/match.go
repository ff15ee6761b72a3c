package ref

import "reflect"

// Same reports deep equality of JSON values (numbers by value and kind; NaN equals itself).
func Same(a, b Value) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case bool:
		b, ok := b.(bool)
		return ok && a == b
	case string:
		b, ok := b.(string)
		return ok && a == b
	case float64:
		b, ok := b.(float64)
		return ok && (a == b || a != a && b != b)
	case int64:
		b, ok := b.(int64)
		return ok && a == b
	case []interface{}:
		b, ok := b.([]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		if len(a) > 0 && &a[0] == &b[0] {
			return true
		}
		for i := range a {
			if !Same(a[i], b[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		b, ok := b.(map[string]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		if reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer() {
			return true
		}
		for k, v := range a {
			w, ok := b[k]
			if !ok || !Same(v, w) {
				return false
			}
		}
		return true
	}
	// a scalar of some other Go type
	return a == b
}

// Admits reports whether got is an order of the selection that t allows.
func (t *Tree) Admits(got []Value) bool {
	if t.N != len(got) {
		return false
	}
	if t.N == 0 {
		return true
	}
	return t.match(got)
}

// match: len(got) == t.N
func (t *Tree) match(got []Value) bool {
	if t.Leaf {
		return Same(t.V, got[0])
	}
	if !t.Bag {
		for _, k := range t.Kids {
			if !k.match(got[:k.N]) {
				return false
			}
			got = got[k.N:]
		}
		return true
	}
	if len(t.Kids) > 8 && scalars(t.Kids) {
		count := make(map[Value]int)
		for i, k := range t.Kids {
			count[k.V]++
			switch got[i].(type) {
			case []interface{}, map[string]interface{}:
				return false
			}
			count[got[i]]--
		}
		for _, n := range count {
			if n != 0 {
				return false
			}
		}
		return true
	}
	if len(t.Kids) > 64 {
		// wide objects (size ladders): greedy is enough because their members are distinct
		return matchGreedy(t.Kids, got)
	}
	budget := 100000
	return matchBag(t.Kids, make([]bool, len(t.Kids)), len(t.Kids), got, &budget)
}

func scalars(kids []*Tree) bool {
	for _, k := range kids {
		if !k.Leaf {
			return false
		}
		switch v := k.V.(type) {
		case []interface{}, map[string]interface{}:
			return false
		case float64:
			if v != v {
				return false
			}
		}
	}
	return true
}

func matchBag(kids []*Tree, used []bool, left int, got []Value, budget *int) bool {
	if left == 0 {
		return true
	}
	if *budget--; *budget < 0 {
		return true // undecided: too ambiguous to call a mismatch (counted nowhere else; alphabets keep this unreachable)
	}
	for i, k := range kids {
		if used[i] || !k.match(got[:k.N]) {
			continue
		}
		used[i] = true
		if matchBag(kids, used, left-1, got[k.N:], budget) {
			return true
		}
		used[i] = false
	}
	return false
}

func matchGreedy(kids []*Tree, got []Value) bool {
	used := make([]bool, len(kids))
	for n := 0; n < len(kids); n++ {
		found := false
		for i, k := range kids {
			if !used[i] && k.N <= len(got) && k.match(got[:k.N]) {
				used[i], found = true, true
				got = got[k.N:]
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}
