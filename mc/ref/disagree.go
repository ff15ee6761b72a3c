package ref

import (
	"encoding/json"
	"fmt"
)

// Show renders a value for a message.
func Show(vs interface{}) string {
	b, err := json.Marshal(vs)
	if err != nil {
		return fmt.Sprintf("%#v", vs)
	}
	if len(b) > 400 {
		return string(b[:400]) + "..."
	}
	return string(b)
}

// Disagree tells how an evaluation differs from what the model demands, or "".
func Disagree(got []interface{}, err error, pan string, t *Tree, rerr error) string {
	switch {
	case pan != "":
		return "Eval: " + pan
	case rerr != nil && err == nil:
		return fmt.Sprintf("a run-time error is due, but Eval returned %s", Show(got))
	case rerr != nil && got != nil:
		return fmt.Sprintf("Eval returned values %s with error %q", Show(got), err)
	case rerr != nil:
		return ""
	case err != nil:
		return fmt.Sprintf("Eval failed: %q, expected %s", err.Error(), Show(t.Leaves()))
	case got == nil:
		return "Eval returned a nil list without an error"
	case !t.Admits(got):
		return fmt.Sprintf("got %s, expected %s", Show(got), Show(t.Leaves()))
	}
	return ""
}
