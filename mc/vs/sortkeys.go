package vs

import (
	"fmt"
	"sort"
)

func sortKeys[K comparable](keys []K) {
	if ss, ok := any(keys).([]string); ok {
		sort.Strings(ss)
		return
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
}
