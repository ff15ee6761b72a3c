// Command drv runs concurrent scenarios against the implementation: under the controlled scheduler, if that was
// instrumented (explore, replay), or freely (native).
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"time"

	"verif/mc/ref"
	"verif/mc/scen"
	"verif/mc/vs"

	"github.com/forsyth/jsonpath"
)

type expect struct {
	t, eager *ref.Tree
	err, ee  error
	bad      bool // not a valid path
}

type world struct {
	s    *scen.Scenario
	want map[[2]int]*expect
	impl []*jsonpath.JSONPath
	docs []interface{}
	own  [][]interface{}
	msgs []string
	outs [][]string
}

func decode(text string) interface{} {
	var v interface{}
	if err := json.Unmarshal([]byte(text), &v); err != nil {
		panic(err)
	}
	return v
}

func newWorld(s *scen.Scenario) *world {
	w := &world{s: s, want: map[[2]int]*expect{}}
	for i, p := range s.Paths {
		rp, err := ref.ParsePath(p)
		for j := -1; j < len(s.Docs); j++ {
			e := &expect{bad: err != nil}
			if err == nil && j >= 0 {
				e.t, e.err = ref.Eval(rp, decode(s.Docs[j]), ref.Quirks{})
				e.eager, e.ee = ref.Eval(rp, decode(s.Docs[j]), ref.Quirks{Eager: true})
			}
			w.want[[2]int{i, j}] = e
		}
	}
	return w
}

// fresh makes the documents and the shared paths afresh.
func (w *world) fresh(run func(f func()) string) string {
	w.docs = w.docs[:0]
	w.own = w.own[:0]
	for _, d := range w.s.Docs {
		w.docs = append(w.docs, decode(d))
	}
	for range w.s.Clients {
		var ds []interface{}
		for _, d := range w.s.Docs {
			ds = append(ds, decode(d))
		}
		w.own = append(w.own, ds)
	}
	w.msgs = make([]string, len(w.s.Clients))
	w.outs = make([][]string, len(w.s.Clients))
	w.impl = make([]*jsonpath.JSONPath, len(w.s.Paths))
	return run(func() {
		for i, p := range w.s.Paths {
			w.impl[i], _ = jsonpath.Compile(p)
		}
	})
}

// client is the body of one client.
func (w *world) client(n int, between, returned func()) {
	for k, o := range w.s.Clients[n] {
		if k > 0 {
			between()
		}
		want := w.want[[2]int{o.Path, o.Doc}]
		p := w.impl[o.Path]
		if o.Compile {
			var err error
			p, err = jsonpath.Compile(w.s.Paths[o.Path])
			returned()
			if (err != nil) != want.bad || (p == nil) != (err != nil) {
				w.fail(n, k, fmt.Sprintf("Compile: path %v, error %v", p, err))
				continue
			}
			if p != nil && p.String() != w.s.Paths[o.Path] {
				w.fail(n, k, fmt.Sprintf("String() is %q", p.String()))
			}
		}
		if p == nil {
			if !want.bad {
				w.fail(n, k, "Compile rejected the path")
			}
			continue
		}
		if o.Doc < 0 {
			continue
		}
		d := w.docs[o.Doc]
		if o.Own {
			d = w.own[n][o.Doc]
		}
		got, err := p.Eval(d)
		returned()
		if msg := ref.Disagree(got, err, "", want.t, want.err); msg != "" && ref.Disagree(got, err, "", want.eager, want.ee) != "" {
			w.fail(n, k, msg)
		}
		h := fnv.New64a()
		b, _ := json.Marshal(got)
		h.Write(b)
		if err != nil {
			h.Write([]byte{1})
		}
		w.outs[n] = append(w.outs[n], strconv.FormatUint(h.Sum64(), 36))
	}
}

func (w *world) fail(n, k int, msg string) {
	o := w.s.Clients[n][k]
	doc := "-"
	if o.Doc >= 0 {
		doc = w.s.Docs[o.Doc]
	}
	if w.msgs[n] == "" {
		w.msgs[n] = fmt.Sprintf("client %d, call %d, %s on %s: %s", n, k+1, w.s.Paths[o.Path], doc, msg)
	}
}

func (w *world) message() string {
	for _, m := range w.msgs {
		if m != "" {
			return m
		}
	}
	return ""
}

var aux vs.Explorer // for what is not explored

func (w *world) bodies() []func() {
	bs := make([]func(), len(w.s.Clients))
	ret := func() {}
	if w.s.Late {
		ret = vs.Returned
	}
	for i := range bs {
		i := i
		bs[i] = func() { w.client(i, vs.Yield, ret) }
	}
	return bs
}

// setup is done before each controlled execution.
func (w *world) setup() string {
	reset()
	return w.fresh(func(f func()) string {
		x := aux.Once([]func(){f})
		return verdict(x, false)
	})
}

func verdict(x *vs.Exec, late bool) string {
	switch {
	case x.Panic != "":
		return "panic: " + x.Panic
	case x.Deadlock != "":
		return "deadlock: " + x.Deadlock
	case x.TooLong:
		return "the execution does not end"
	case late && x.Leak != "":
		return "after every call has returned: " + x.Leak
	case late && x.Late != "":
		return x.Late
	}
	return ""
}

func explore(s *scen.Scenario, i, max int, limit time.Duration, choices []int, replay bool) (r scen.Result) {
	r.I = i
	w := newWorld(s)
	e := new(vs.Explorer)
	e.Max = max
	races := vs.RaceErrors()
	outs := map[string]bool{}
	t0 := time.Now()
	var pre string
	check := func(x *vs.Exec, redundant bool) bool {
		msg := pre
		if msg == "" {
			msg = verdict(x, s.Late)
		}
		if msg == "" && !s.Late {
			msg = w.message()
		}
		if msg == "" && !s.Late && vs.RaceErrors() != races {
			msg = "data race"
		}
		outs[fmt.Sprint(w.outs)] = true
		if n := x.Threads(); n > r.Gos {
			r.Gos = n
		}
		if msg != "" && e.Unsupported == "" && r.Msg == "" {
			r.Msg = msg
			r.Sched = e.Choices()
			if replay {
				r.Sched = choices
			}
			r.Trace = x.Trace()
		}
		if time.Since(t0) > limit {
			e.Max = 1 // enough
		}
		return msg == ""
	}
	if replay {
		pre = w.setup()
		x := e.Replay(w.bodies(), choices)
		check(x, false)
		e.Execs = 1
	} else {
		e.Explore(func() []func() {
			pre = w.setup()
			return w.bodies()
		}, check)
	}
	r.Execs, r.Pruned, r.Steps, r.Capped, r.Outcomes, r.Nodes = e.Execs, e.Pruned, e.Steps, e.Capped, len(outs), e.Nodes
	r.Err = e.Unsupported
	if aux.Unsupported != "" {
		r.Err = aux.Unsupported
	}
	if e.Diverged > 0 && r.Err == "" && r.Msg == "" {
		r.Err = "an execution could not be repeated: nondeterminism outside the scheduler"
	}
	return r
}

// native runs the scenario freely, reps times.
func native(s *scen.Scenario, i, reps int) (r scen.Result) {
	r.I = i
	w := newWorld(s)
	outs := map[string]bool{}
	races := vs.RaceErrors()
	for k := 0; k < reps && r.Msg == ""; k++ {
		w.fresh(func(f func()) string { f(); return "" })
		var wg sync.WaitGroup
		start := make(chan bool)
		for n := range s.Clients {
			wg.Add(1)
			go func(n int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						w.msgs[n] = fmt.Sprint("panic: ", p)
					}
				}()
				<-start
				w.client(n, func() {}, func() {})
			}(n)
		}
		close(start)
		wg.Wait()
		r.Execs++
		r.Msg = w.message()
		if r.Msg == "" && vs.RaceErrors() != races {
			r.Msg = "data race"
		}
		outs[fmt.Sprint(w.outs)] = true
	}
	r.Outcomes = len(outs)
	return r
}

func main() {
	// drv explore|native|replay FILE part parts max limit(ms) [choices]
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		fatal(err)
	}
	var ss []*scen.Scenario
	if err := json.Unmarshal(b, &ss); err != nil {
		fatal(err)
	}
	debug.SetGCPercent(400)
	num := func(i int) int {
		n, err := strconv.Atoi(os.Args[i])
		if err != nil {
			fatal(err)
		}
		return n
	}
	part, parts, max := num(3), num(4), num(5)
	limit := time.Duration(num(6)) * time.Millisecond
	out := bufio.NewWriter(os.Stdout)
	emit := func(r scen.Result) {
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
		out.Flush()
	}
	mode := os.Args[1]
	vs.Full(mode == "full")
	if mode != "native" {
		if !instrumented {
			fatal(fmt.Errorf("not instrumented"))
		}
		runtime.GOMAXPROCS(1)
	}
	if mode == "replay" {
		var choices []int
		if err := json.Unmarshal([]byte(os.Args[7]), &choices); err != nil {
			fatal(err)
		}
		emit(explore(ss[part], part, 1, limit, choices, true))
		return
	}
	for i := part; i < len(ss); i += parts {
		emit(scen.Result{I: i, Start: true})
		if mode == "native" {
			emit(native(ss[i], i, max))
		} else {
			emit(explore(ss[i], i, max, limit, nil, false))
		}
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "drv:", err)
	os.Exit(3)
}
