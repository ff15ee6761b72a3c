// Package vs replaces the concurrency of an instrumented program (goroutines, channels, select, package sync and
// sync/atomic) by one that a controlled scheduler steps through, so that every interleaving can be explored.
//
// Only one thread runs at a time; it stops before each synchronisation operation, and the explorer decides which
// thread performs its operation next. Under the race detector, the scheduler's own hand-overs are hidden from it
// and each operation declares just the ordering that the Go memory model gives it, so that every explored
// interleaving is also checked for data races.
//
// Functions that touch the scheduler's state are marked norace, and use neither maps nor append, because the
// runtime's implementation of those reports accesses of its own.
package vs

import (
	"fmt"
	"runtime"
	"unsafe"
)

type Kind uint8

const (
	kNone Kind = iota
	kStart
	kResume
	kSend
	kRecv
	kClose
	kSelect
	kLen
	kLock
	kTryLock
	kUnlock
	kRLock
	kRUnlock
	kAdd
	kWait
	kLoad
	kStore
	kPool
	kSignal
	kMap
	kMapRead
	kYield
	kReturn
)

var kindNames = []string{"", "start", "resume", "send", "receive", "close", "select", "len", "lock", "trylock", "unlock", "rlock", "runlock", "add", "wait", "load", "store", "pool", "signal", "map", "map read", "yield", "return"}

// reads: operations that commute with each other on the same object
func isRead(k Kind) bool {
	return k == kLoad || k == kRLock || k == kRUnlock || k == kLen || k == kMapRead
}

// lateKinds: operations of which a goroutine that is merely finishing performs very few (to release what it holds, or
// to notice that it is cancelled)
func lateKind(k Kind) bool {
	switch k {
	case kSend, kRecv, kSelect:
		return true
	}
	return false
}

const (
	maxThreads = 64
	maxNodes   = 6000
	maxObjs    = 6
)

// gate says whether a pending operation can proceed.
type gate interface{ open(k Kind) bool }

type op struct {
	kind  Kind
	nobj  int
	objs  [maxObjs]unsafe.Pointer
	g     gate
	root  int // the client on whose behalf it is
	cause int // step that it follows from (that which started or resumed it, or the other side's), or -1
	wild  bool
}

type thread struct {
	id       int
	root     int
	wake     chan struct{}
	pend     op
	ready    bool // has a pending operation
	done     bool
	parent   *thread
	client   bool
	returned bool
	late     bool // outlives the call that started it
	lateOps  int
	lateComm int
	sel      *waiter // what a blocked select or channel operation waits for
}

type step struct {
	tid  int
	op   op
	node int
}

// node is a decision in the exploration: which thread runs (n == 0), or one of n data alternatives.
type node struct {
	n                          int
	alt                        int
	chosen                     int
	enabled, done, back, sleep uint64
}

// Exec is one execution under the controlled scheduler.
type Exec struct {
	ex        *Explorer
	threads   [maxThreads]*thread
	nthreads  int
	running   *thread
	nsteps    int // recorded steps
	freeSteps int
	cut       [maxThreads]op // pending operations where the recording stopped
	cutReady  uint64
	nodes     int  // decisions taken so far
	free      bool // redundant: run to the end without recording
	over      bool
	Deadlock  string // a client never returned
	Leak      string // the clients returned, but a goroutine never ended
	Late      string
	Panic     string
	TooLong   bool
	Diverged  bool
	finished  chan struct{}
	endSync   byte
}

var cur *Exec // the running execution

// Running reports whether an execution is in progress.
//
//go:norace
func Running() bool { return cur != nil }

type unsupported string

func (u unsupported) Error() string { return string(u) }

//go:norace
func park(t *thread) {
	raceOff()
	<-t.wake
	raceOn()
}

//go:norace
func unpark(t *thread) {
	raceOff()
	t.wake <- struct{}{}
	raceOn()
}

// yield stops before an operation until the explorer chooses it.
//
//go:norace
func yield(k Kind, g gate, objs ...unsafe.Pointer) {
	x := cur
	if x == nil {
		return
	}
	t := x.running
	t.pend = op{kind: k, g: g, cause: -1, root: t.root}
	if len(objs) > maxObjs {
		t.pend.wild = true
	} else {
		for i := range objs {
			t.pend.objs[i] = objs[i]
		}
		t.pend.nobj = len(objs)
	}
	t.ready = true
	x.schedule(t)
}

// block stops until another thread completes the operation (resume).
//
//go:norace
func block() {
	x := cur
	t := x.running
	t.ready = false
	x.schedule(t)
}

// resume makes a blocked thread ready.
//
//go:norace
func (x *Exec) resume(t *thread) {
	t.pend = op{kind: kResume, cause: x.nsteps - 1, root: t.root}
	t.ready = true
}

//go:norace
func (x *Exec) enabledMask() uint64 {
	var m uint64
	for i := 0; i < x.nthreads; i++ {
		t := x.threads[i]
		if t.done || !t.ready {
			continue
		}
		if t.pend.g != nil && !t.pend.g.open(t.pend.kind) {
			continue
		}
		m |= 1 << uint(t.id)
	}
	return m
}

// schedule picks the next thread and hands over to it. t is the caller's thread.
//
//go:norace
func (x *Exec) schedule(t *thread) {
	en := x.enabledMask()
	if en == 0 {
		stuck, client := false, false
		for i := 0; i < x.nthreads; i++ {
			if !x.threads[i].done {
				stuck = true
				if x.threads[i].client {
					client = true
				}
			}
		}
		if client {
			x.Deadlock = x.describe()
		} else if stuck {
			x.Leak = x.describe()
		}
		x.finish()
		if t != nil && !t.done {
			park(t) // for ever
		}
		return
	}
	id := x.pick(en, t)
	if id < 0 { // cut off
		x.finish()
		if t != nil && !t.done {
			park(t)
		}
		return
	}
	n := x.threads[id]
	if n.late {
		n.lateOps++
		if lateKind(n.pend.kind) {
			n.lateComm++
		}
		if (n.lateComm > 2 || n.lateOps > 12) && x.Late == "" {
			x.Late = "a goroutine is still running after the evaluation that started it returned: " + kindNames[n.pend.kind]
		}
	}
	n.ready = false
	x.running = n
	if n != t {
		unpark(n)
		if t != nil && !t.done {
			park(t)
		}
	}
}

//go:norace
func (x *Exec) finish() {
	if x.over {
		return
	}
	x.over = true
	raceOff()
	x.finished <- struct{}{}
	raceOn()
}

func (x *Exec) describe() string {
	s := ""
	for i := 0; i < x.nthreads; i++ {
		t := x.threads[i]
		if t.done {
			continue
		}
		if s != "" {
			s += "; "
		}
		who := "goroutine"
		if t.client {
			who = "client"
		}
		if t.ready {
			s += fmt.Sprintf("%s %d waits to %s", who, t.id, kindNames[t.pend.kind])
		} else {
			s += fmt.Sprintf("%s %d is blocked in %s", who, t.id, t.blockedIn())
		}
	}
	return s
}

func (t *thread) blockedIn() string { return kindNames[t.pend.kind] }

// Full makes a receive depend on the sending to, and closing of, the same channel, although they commute.
func Full(on bool) { full = on }

var full bool

//go:norace
func dependent(a, b *op) bool {
	if a.kind == kReturn || b.kind == kReturn {
		return a.root == b.root // what the call has started has to be done before it
	}
	if a.wild || b.wild {
		return true
	}
	if isRead(a.kind) && isRead(b.kind) {
		return false
	}
	if !full && (a.kind == kSend && b.kind == kRecv || a.kind == kRecv && b.kind == kSend) {
		// What a queue's receivers receive depends on the order of its senders, and on that of its receivers, but
		// not on how those are interleaved (closing it, selecting, and asking its length are other operations).
		return false
	}
	if !full && (a.kind == kClose && b.kind == kRecv || a.kind == kRecv && b.kind == kClose) {
		// A receive gets the same before the channel is closed, if it has to wait for that, as after it, unless
		// a sender is blocked meanwhile: but closing does not commute with sending, so that the order in which
		// the channel is closed first is explored, and that is a panic.
		return false
	}
	for i := 0; i < a.nobj; i++ {
		for j := 0; j < b.nobj; j++ {
			if a.objs[i] == b.objs[j] {
				return true
			}
		}
	}
	return false
}

// pick decides which of the enabled threads runs next, and records it.
//
//go:norace
func (x *Exec) pick(en uint64, t *thread) int {
	e := x.ex
	if x.free {
		x.freeSteps++
		if x.freeSteps > 10*maxNodes {
			x.TooLong = true
			return -1
		}
		return first(en)
	}
	if x.nsteps >= maxNodes-1 || x.nodes >= maxNodes-1 {
		x.TooLong = true
		return -1
	}
	if e.replay != nil {
		id := first(en)
		if x.nodes < len(e.replay) {
			id = e.replay[x.nodes]
			if id < 0 || id >= 64 || en&(1<<uint(id)) == 0 {
				x.Diverged = true
				x.free = true
				return first(en)
			}
		}
		s := &e.steps[x.nsteps]
		s.tid, s.op, s.node = id, x.threads[id].pend, x.nodes
		x.nsteps++
		x.nodes++
		return id
	}
	nd := &e.nodes[x.nodes]
	if x.nodes < e.depth {
		// replay
		if nd.n != 0 || nd.enabled != en || en&(1<<uint(nd.chosen)) == 0 {
			x.Diverged = true
			x.free = true
			return first(en)
		}
	} else {
		*nd = node{enabled: en}
		if x.nsteps > 0 {
			// the previous scheduling decision's sleepers that are independent of what it ran
			ps := &e.steps[x.nsteps-1]
			pn := &e.nodes[ps.node]
			cand := (pn.sleep | pn.done) &^ (1 << uint(pn.chosen))
			for i := 0; i < x.nthreads; i++ {
				if cand&(1<<uint(i)) != 0 && !dependent(&x.threads[i].pend, &ps.op) {
					nd.sleep |= 1 << uint(i)
				}
			}
		}
		avail := en &^ nd.sleep
		if avail == 0 {
			x.free = true
			for i := 0; i < x.nthreads; i++ {
				if !x.threads[i].done && x.threads[i].ready {
					x.cut[i] = x.threads[i].pend
					x.cutReady |= 1 << uint(i)
				}
			}
			e.Pruned++
			return first(en)
		}
		nd.chosen = first(avail)
		if t != nil && avail&(1<<uint(t.id)) != 0 {
			nd.chosen = t.id
		}
		nd.done = 1 << uint(nd.chosen)
		nd.back = nd.done
		e.depth++
		e.Nodes++
	}
	s := &e.steps[x.nsteps]
	s.tid = nd.chosen
	s.op = x.threads[nd.chosen].pend
	s.node = x.nodes
	x.nsteps++
	x.nodes++
	return nd.chosen
}

//go:norace
func first(m uint64) int {
	for i := 0; i < 64; i++ {
		if m&(1<<uint(i)) != 0 {
			return i
		}
	}
	return -1
}

// choose takes one of n alternatives that the program's environment decides.
//
//go:norace
func choose(n int) int {
	x := cur
	if x == nil || n <= 1 || x.free {
		return 0
	}
	e := x.ex
	if x.nodes >= maxNodes-1 {
		return 0
	}
	if e.replay != nil {
		k := 0
		if x.nodes < len(e.replay) && e.replay[x.nodes] < n {
			k = e.replay[x.nodes]
		}
		x.nodes++
		return k
	}
	nd := &e.nodes[x.nodes]
	if x.nodes < e.depth {
		if nd.n != n {
			x.Diverged = true
			x.free = true
			return 0
		}
	} else {
		*nd = node{n: n}
		e.depth++
		e.Nodes++
	}
	x.nodes++
	return nd.alt
}

// Go starts a thread.
//
//go:norace
func Go(f func()) {
	x := cur
	if x == nil {
		panic(unsupported("goroutine started outside an execution"))
	}
	t := x.newThread(x.running)
	t.pend.cause = x.nsteps - 1
	go x.body(t, f)
}

//go:norace
func (x *Exec) newThread(parent *thread) *thread {
	if x.nthreads >= maxThreads {
		panic(unsupported("too many goroutines"))
	}
	t := &thread{id: x.nthreads, wake: make(chan struct{}, 1), parent: parent}
	t.root = t.id
	if parent != nil {
		t.root = parent.root
	}
	t.pend = op{kind: kStart, cause: -1, root: t.root}
	t.ready = true
	x.threads[x.nthreads] = t
	x.nthreads++
	return t
}

//go:norace
func (x *Exec) body(t *thread, f func()) {
	park(t)
	defer x.exit(t)
	f()
}

//go:norace
func (x *Exec) exit(t *thread) {
	if r := recover(); r != nil {
		x.panicked(t, r)
	}
	raceRelease(unsafe.Pointer(&x.endSync))
	t.done = true
	t.ready = false
	x.schedule(t)
}

func (x *Exec) panicked(t *thread, r interface{}) {
	if u, ok := r.(unsupported); ok {
		x.ex.Unsupported = string(u)
	}
	if x.Panic == "" {
		buf := make([]byte, 2048)
		x.Panic = fmt.Sprint(r, " ", string(buf[:runtime.Stack(buf, false)]))
	}
}

// Returned tells that the call a client made has returned: whatever it started should have finished.
//
//go:norace
func Returned() {
	x := cur
	if x == nil {
		return
	}
	yieldWild(kReturn)
	for i := 0; i < x.nthreads; i++ {
		t := x.threads[i]
		if t.done || t.client {
			continue
		}
		for p := t.parent; p != nil; p = p.parent {
			if p == x.running {
				t.late = true
				break
			}
		}
	}
}

// Yield is a scheduling point of a client, between its calls.
//
//go:norace
func Yield() { yield(kYield, nil) }

// Explorer enumerates the executions of a scenario.
type Explorer struct {
	steps       [maxNodes]step
	nodes       [maxNodes]node
	depth       int
	Execs       int
	Pruned      int
	Steps       int
	Nodes       int // distinct decisions
	Capped      bool
	Diverged    int
	Unsupported string
	Max         int
	clock       [maxNodes][maxThreads]int32
	tclock      [maxThreads][maxThreads]int32
	replay      []int
}

// Choices is the sequence of decisions of the last execution.
func (e *Explorer) Choices() []int {
	var c []int
	for i := 0; i < e.depth; i++ {
		if e.nodes[i].n > 0 {
			c = append(c, e.nodes[i].alt)
		} else {
			c = append(c, e.nodes[i].chosen)
		}
	}
	return c
}

// Trace describes the last execution.
func (x *Exec) Trace() string {
	s := ""
	for i := 0; i < x.nsteps && i < maxNodes; i++ {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("%d:%s", x.ex.steps[i].tid, kindNames[x.ex.steps[i].op.kind])
	}
	return s
}

// Explore runs every execution (up to commutation of independent operations): setup is called before each, and gives
// the bodies of the client threads; check is called after each, and returns false to stop.
func (e *Explorer) Explore(setup func() []func(), check func(x *Exec, redundant bool) bool) {
	e.depth = 0
	for {
		x := e.run(setup())
		e.Execs++
		e.Steps += x.nsteps
		if x.Diverged {
			e.Diverged++
		}
		ok := check(x, x.free)
		if x.TooLong {
			e.Capped = true
		}
		if !ok || e.Unsupported != "" || x.Diverged {
			if x.Diverged {
				e.Capped = true
			}
			return
		}
		e.analyse(x)
		if !e.backtrack() {
			return
		}
		if e.Max > 0 && e.Execs >= e.Max {
			e.Capped = true
			return
		}
	}
}

// Once runs the bodies under one schedule.
func (e *Explorer) Once(bodies []func()) *Exec {
	e.depth = 0
	e.replay = nil
	return e.run(bodies)
}

// Replay runs the bodies under the schedule given.
func (e *Explorer) Replay(bodies []func(), choices []int) *Exec {
	e.depth = 0
	e.replay = choices
	if choices == nil {
		e.replay = []int{}
	}
	return e.run(bodies)
}

//go:norace
func (e *Explorer) run(bodies []func()) *Exec {
	x := &Exec{ex: e, finished: make(chan struct{}, 1)}
	cur = x
	for _, f := range bodies {
		t := x.newThread(nil)
		t.client = true
		go x.body(t, f)
	}
	x.schedule(nil)
	raceOff()
	<-x.finished
	raceOn()
	raceAcquire(unsafe.Pointer(&x.endSync))
	cur = nil
	return x
}

// analyse adds to the backtrack sets (Flanagan and Godefroid's dynamic partial-order reduction).
//
//go:norace
func (e *Explorer) analyse(x *Exec) {
	n := x.nsteps
	nt := x.nthreads
	for i := 0; i < nt; i++ {
		for j := 0; j < nt; j++ {
			e.tclock[i][j] = -1
		}
	}
	for k := 0; k < n; k++ {
		s := &e.steps[k]
		p := s.tid
		if s.op.cause >= 0 {
			e.join(&e.tclock[p], &e.clock[s.op.cause], nt)
		}
		e.race(x, k, p, &s.op, nt)
		// happens before: every earlier dependent step
		for i := k - 1; i >= 0; i-- {
			q := &e.steps[i]
			if q.tid != p && int32(i) > e.tclock[p][q.tid] && dependent(&q.op, &s.op) {
				e.join(&e.tclock[p], &e.clock[i], nt)
			}
		}
		e.tclock[p][p] = int32(k)
		e.clock[k] = e.tclock[p]
	}
	for i := 0; i < nt; i++ {
		t := x.threads[i]
		switch {
		case x.free:
			if x.cutReady&(1<<uint(i)) != 0 {
				e.race(x, n, i, &x.cut[i], nt)
			}
		case !t.done && t.ready:
			e.race(x, n, i, &t.pend, nt)
		}
	}
}

//go:norace
func (e *Explorer) join(a, b *[maxThreads]int32, nt int) {
	for i := 0; i < nt; i++ {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
}

// race finds the last step before k that the operation of thread p could have preceded.
//
//go:norace
func (e *Explorer) race(x *Exec, k, p int, o *op, nt int) {
	if o.nobj == 0 && !o.wild && o.kind != kReturn {
		return
	}
	for i := k - 1; i >= 0; i-- {
		q := &e.steps[i]
		if q.tid == p {
			continue
		}
		if int32(i) <= e.tclock[p][q.tid] {
			continue // ordered already
		}
		if !dependent(&q.op, o) {
			continue
		}
		nd := &e.nodes[q.node]
		var want uint64
		if nd.enabled&(1<<uint(p)) != 0 {
			want = 1 << uint(p)
		}
		for j := i + 1; j < k; j++ {
			r := e.steps[j].tid
			if nd.enabled&(1<<uint(r)) != 0 && int32(j) <= e.tclock[p][r] {
				want |= 1 << uint(r)
			}
		}
		if want == 0 {
			nd.back |= nd.enabled
		} else if want&nd.back == 0 {
			nd.back |= 1 << uint(first(want))
		}
		return
	}
}

//go:norace
func (e *Explorer) backtrack() bool {
	for e.depth > 0 {
		nd := &e.nodes[e.depth-1]
		if nd.n > 0 {
			if nd.alt+1 < nd.n {
				nd.alt++
				return true
			}
		} else if m := nd.back &^ nd.done &^ nd.sleep; m != 0 {
			nd.chosen = first(m)
			nd.done |= 1 << uint(nd.chosen)
			return true
		}
		e.depth--
	}
	return false
}

// Threads is the number of threads there were.
func (x *Exec) Threads() int { return x.nthreads }

//go:norace
func lastStep() int {
	if cur == nil {
		return -1
	}
	return cur.nsteps - 1
}

// follows tells that the operation under way happens after the step given.
//
//go:norace
func follows(step int) {
	x := cur
	if x == nil || x.free || x.nsteps == 0 || step >= x.nsteps {
		return
	}
	x.ex.steps[x.nsteps-1].op.cause = step
}
