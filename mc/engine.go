package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"verif/mc/ref"

	"github.com/forsyth/jsonpath"
)

// Text is a string that survives JSON even if it is not UTF-8.
type Text string

func (t Text) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(t)) && !strings.ContainsRune(string(t), 0xFFFD) {
		return json.Marshal(string(t))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(t))})
}

func (t *Text) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) == nil {
		*t = Text(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	x, err := base64.StdEncoding.DecodeString(m["b64"])
	*t = Text(x)
	return err
}

// Case is one replayable behaviour.
type Case struct {
	Check string `json:"check"`
	Kind  string `json:"kind"` // eval compile ladder ...
	Path  Text   `json:"path,omitempty"`
	Doc   Text   `json:"doc,omitempty"`
	Name  string `json:"name,omitempty"`
	N     int    `json:"n,omitempty"`
	Ops   []Text `json:"ops,omitempty"`
	Sched []int  `json:"sched,omitempty"`
	Msg   string `json:"message,omitempty"`
}

// Check decides one property.
type Check struct {
	ID     string
	Level  string
	Run    func(*Ctx)
	Replay func(*Case) string // for kinds other than eval; "" means the property held
	// Crash: a crash or hang of the implementation violates this property (all of them: a case that
	// kills the process did not produce what the property demands)
	Rule        string
	Assumptions []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Ctx is the state of a run of a check.
type Ctx struct {
	check    *Check
	thorough bool
	seed     int
	deadline time.Time
	slots    *slotFile
	found    string // file for the violations found so far
	nw       int

	mu         sync.Mutex
	violations []Case
	nviol      int
	saved      time.Time
	known      map[string]int
	counts     map[string]int
	samples    []interface{}
	bounds     []string
	capped     atomic.Bool // out of time
	partial    atomic.Bool // some bound was not reached
	states     map[uint64]struct{}
	trans      int
	traces     int
	nodes      int // of explorations that keep no set of states
	nontrivial int
	outcomes   map[uint64]struct{}
	listed     map[string]bool
}

// Worker is one enumerating goroutine's private state.
type Worker struct {
	c       *Ctx
	slot    slot
	docs    map[string]interface{}
	states  map[uint64]struct{}
	outs    map[uint64]struct{}
	trans   int
	traces  int
	nontriv int
	known   map[string]int
	counts  map[string]int
}

const maxStates = 3 << 20 // per worker; beyond it states is a lower bound

func (c *Ctx) worker(i int) *Worker {
	w := &Worker{c: c, docs: make(map[string]interface{}), states: make(map[uint64]struct{}),
		outs: make(map[uint64]struct{}), known: make(map[string]int), counts: make(map[string]int)}
	if c.slots != nil {
		w.slot = c.slots.slot(i)
	}
	return w
}

func (c *Ctx) merge(w *Worker) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for k := range w.states {
		c.states[k] = struct{}{}
	}
	for k := range w.outs {
		c.outcomes[k] = struct{}{}
	}
	for k, n := range w.known {
		c.known[k] += n
	}
	for k, n := range w.counts {
		c.counts[k] += n
	}
	c.trans += w.trans
	c.traces += w.traces
	c.nontrivial += w.nontriv
}

// Late reports that time is up; the run is then not exhaustive.
func (c *Ctx) Late() bool {
	if c.capped.Load() {
		return true
	}
	if time.Now().After(c.deadline) {
		c.capped.Store(true)
		return true
	}
	return false
}

// Parallel runs f(w, i) for all i in [0, n) on all workers.
func (c *Ctx) Parallel(n int, f func(w *Worker, i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < c.nw; k++ {
		w := c.worker(k)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer c.merge(w)
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.Late() || c.Enough() {
					return
				}
				f(w, i)
				w.slot.clear()
			}
		}()
	}
	wg.Wait()
}

// Enough reports that enough violations have been found.
func (c *Ctx) Enough() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.nviol >= 200
}

// Violation records a violation.
func (c *Ctx) Violation(k Case) {
	k.Check = c.check.ID
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nviol++
	c.violations = append(c.violations, k)
	sort.SliceStable(c.violations, func(i, j int) bool {
		return size(c.violations[i]) < size(c.violations[j])
	})
	if len(c.violations) > 5 {
		c.violations = c.violations[:5]
	}
	if c.found != "" && (c.nviol <= 5 || time.Since(c.saved) > time.Second) {
		c.saved = time.Now()
		if b, err := json.Marshal(c.violations); err == nil {
			os.WriteFile(c.found, b, 0o644)
		}
	}
}

func size(k Case) int {
	n := len(k.Path) + len(k.Doc) + k.N + len(k.Sched)
	if k.Kind == "sched" && len(k.Sched) == 0 {
		n += 1 << 20 // may not happen again
	}
	for _, o := range k.Ops {
		n += len(o)
	}
	return n
}

func (c *Ctx) Sample(s interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, s)
	}
}

// Bound records a bound of the exploration, for the evidence.
func (c *Ctx) Bound(format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.bounds = append(c.bounds, fmt.Sprintf(format, args...))
}

// Prog is a path text with both its meanings.
type Prog struct {
	Text string
	Ref  *ref.Path
	Rerr error
	Impl *jsonpath.JSONPath
	Ierr error
	Pan  string
	hash uint64
}

func hashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// compileImpl compiles with the implementation, catching panics.
func compileImpl(s string) (p *jsonpath.JSONPath, err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			p, pan = nil, fmt.Sprint("panic: ", r)
		}
	}()
	p, err = jsonpath.Compile(s)
	return
}

// evalImpl evaluates with the implementation, catching panics (of this goroutine).
func evalImpl(p *jsonpath.JSONPath, v interface{}) (out []interface{}, err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			out, pan = nil, fmt.Sprint("panic: ", r)
		}
	}()
	out, err = p.Eval(v)
	return
}

// Prog compiles a path both ways.
func (w *Worker) Prog(text string) *Prog {
	w.slot.begin('c', text, "")
	p := compileBoth(text)
	w.slot.clear()
	return p
}

func compileBoth(text string) *Prog {
	p := &Prog{Text: text, hash: hashString(text)}
	p.Ref, p.Rerr = ref.ParsePath(text)
	p.Impl, p.Ierr, p.Pan = compileImpl(text)
	return p
}

// compileVerdict compares acceptance.
func (p *Prog) compileVerdict() string {
	switch {
	case p.Pan != "":
		return "Compile: " + p.Pan
	case p.Rerr == nil && p.Ierr != nil:
		return "Compile rejects a valid path: " + p.Ierr.Error()
	case p.Rerr != nil && p.Ierr == nil:
		return "Compile accepts a text that is not a valid path"
	case (p.Impl == nil) != (p.Ierr != nil):
		return fmt.Sprintf("Compile returned path %v with error %v", p.Impl, p.Ierr)
	case p.Impl != nil && p.Impl.String() != p.Text:
		return fmt.Sprintf("String() is %q", p.Impl.String())
	}
	return ""
}

// decode returns the value of a document's text. After a #, numbers stay texts (json.Number).
func decode(text string) interface{} {
	var v interface{}
	if strings.HasPrefix(text, "#") {
		d := json.NewDecoder(strings.NewReader(text[1:]))
		d.UseNumber()
		if err := d.Decode(&v); err != nil {
			panic(fmt.Sprintf("harness: bad document %q: %v", text, err))
		}
		return v
	}
	if err := json.Unmarshal([]byte(text), &v); err != nil {
		panic(fmt.Sprintf("harness: bad document %q: %v", text, err))
	}
	return v
}

// Doc returns this worker's private copy of a document.
func (w *Worker) Doc(text string) interface{} {
	v, ok := w.docs[text]
	if !ok {
		v = decode(text)
		w.docs[text] = v
	}
	return v
}

func hashValue(h uint64, v interface{}) uint64 {
	const p = 1099511628211
	mix := func(x uint64) { h = (h ^ x) * p; h ^= h >> 29 }
	switch v := v.(type) {
	case nil:
		mix(1)
	case bool:
		if v {
			mix(2)
		} else {
			mix(3)
		}
	case float64:
		mix(math.Float64bits(v) + 5)
	case int64:
		mix(uint64(v) + 7)
	case string:
		mix(11)
		for i := 0; i < len(v); i++ {
			mix(uint64(v[i]))
		}
	case json.Number:
		mix(hashString(string(v)) + 9)
	case []interface{}:
		mix(13)
		for _, e := range v {
			h = hashValue(h, e)
		}
		mix(17)
	case map[string]interface{}:
		var sum uint64
		for k, e := range v {
			sum += hashValue(hashString(k), e)
		}
		mix(sum + 19)
	}
	return h
}

func hashTree(h uint64, t *ref.Tree) uint64 {
	if t.Leaf {
		return hashValue(h*31+1, t.V)
	}
	if t.Bag {
		var sum uint64
		for _, k := range t.Kids {
			sum += hashTree(99, k)
		}
		return h*37 + sum
	}
	for _, k := range t.Kids {
		h = hashTree(h*41+2, k)
	}
	return h*43 + 3
}

// outcome of one comparison
type outcome struct {
	msg     string // violation
	finding string // key of the known finding that explains a deviation
	tree    *ref.Tree
	err     error
}

// compareEval evaluates p on v both ways. onStep observes the model.
func compareEval(p *Prog, v interface{}, m *ref.Machine) (o outcome) {
	got, err, pan := evalImpl(p.Impl, v)
	o.tree, o.err = m.Run(p.Ref)
	o.msg = disagree(got, err, pan, o.tree, o.err)
	if o.msg == "" || pan != "" {
		return o
	}
	for _, q := range quirkList {
		t, e := ref.Eval(p.Ref, v, q.q)
		if disagree(got, err, pan, t, e) == "" {
			o.finding = q.key
			return o
		}
	}
	return o
}

var quirkList = []struct {
	key string
	q   ref.Quirks
}{
	{"eager-logic", ref.Quirks{Eager: true}},
	{"computed-slice-bound", ref.Quirks{Bounds: true}},
}

func disagree(got []interface{}, err error, pan string, t *ref.Tree, rerr error) string {
	return ref.Disagree(got, err, pan, t, rerr)
}

func show(v interface{}) string { return ref.Show(v) }

// Pair checks a path on a document, and reports whether the implementation agreed.
func (w *Worker) Pair(p *Prog, doc string) bool {
	if p.Rerr != nil || p.Impl == nil {
		return false
	}
	v := w.Doc(doc)
	return w.PairV(p, doc, v)
}

// PairV is Pair with the document's value given.
func (w *Worker) PairV(p *Prog, doc string, v interface{}) bool {
	w.slot.begin('e', p.Text, doc)
	dh := hashString(doc)
	m := &ref.Machine{Root: v}
	m.OnStep = func(i int, t *ref.Tree) {
		if len(w.states) < maxStates {
			w.states[hashTree(dh+uint64(i)*7919, t)] = struct{}{}
		}
	}
	o := compareEval(p, v, m)
	w.slot.clear()
	w.traces++
	w.trans += m.Trans
	if o.tree != nil && o.tree.N > 0 || o.err != nil {
		w.nontriv++
	}
	if o.tree != nil {
		if len(w.outs) < maxStates {
			w.outs[hashTree(1, o.tree)] = struct{}{}
		}
	}
	if o.msg == "" {
		return true
	}
	if o.finding != "" && w.c.listed[o.finding] {
		w.known[o.finding]++
		return true
	}
	w.c.Violation(Case{Kind: "eval", Path: Text(p.Text), Doc: Text(doc), Msg: o.msg})
	return false
}

// Compile checks that both accept (or both reject) and returns nil unless the path can be evaluated.
func (w *Worker) Compile(text string) *Prog {
	p := w.Prog(text)
	if msg := p.compileVerdict(); msg != "" {
		w.c.Violation(Case{Kind: "compile", Path: Text(text), Msg: msg})
		return nil
	}
	if p.Impl == nil {
		return nil
	}
	return p
}

// Grid checks every path on every document.
func (c *Ctx) Grid(paths, docs []string) {
	c.Parallel(len(paths), func(w *Worker, i int) {
		p := w.Compile(paths[i])
		if p == nil {
			return
		}
		for _, d := range docs {
			if c.Late() {
				return
			}
			w.Pair(p, d)
		}
	})
}

// replayEval decides an eval or compile case alone.
func replayEval(k *Case) string {
	p := compileBoth(string(k.Path))
	if msg := p.compileVerdict(); msg != "" {
		return msg
	}
	if k.Kind == "compile" || p.Impl == nil {
		return ""
	}
	if !json.Valid([]byte(k.Doc)) {
		return "" // a document too big for its slot
	}
	v := decode(string(k.Doc))
	o := compareEval(p, v, &ref.Machine{Root: v})
	if o.finding != "" && listedFindings(k.Check)[o.finding] {
		return ""
	}
	return o.msg
}

// ---- findings

type finding struct{ Property, Key, Text string }

func findingsFile() string { return filepath.Join(verifDir(), "known_findings.txt") }

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		return filepath.Dir(filepath.Dir(exe))
	}
	return "/verif"
}

func readFindings() []finding {
	b, err := os.ReadFile(findingsFile())
	if err != nil {
		return nil
	}
	var fs []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(l[len("finding: "):], " ", 3)
		if len(f) == 3 {
			fs = append(fs, finding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
	return fs
}

func listedFindings(id string) map[string]bool {
	m := make(map[string]bool)
	for _, f := range readFindings() {
		if f.Property == id {
			m[f.Key] = true
		}
	}
	// The order in which && and || evaluate their operands is the business of the properties on operators
	// and run-time errors, where it is a listed finding; the others hold either way.
	switch id {
	case "C04", "C05", "C13":
	default:
		m["eager-logic"] = true
	}
	if id == "C08" || id == "C20" {
		m["computed-slice-bound"] = true // syntax is its business, not the value of a bound
	}
	return m
}

func newCtx(ch *Check, thorough bool, seed int) *Ctx {
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	return &Ctx{check: ch, thorough: thorough, seed: seed, nw: nw,
		known: make(map[string]int), counts: make(map[string]int), states: make(map[uint64]struct{}),
		outcomes: make(map[uint64]struct{}), listed: listedFindings(ch.ID)}
}
