package vs

import "unsafe"

// A core is a channel.
type core struct {
	cap    int
	n      int // values in the buffer
	buf    *item
	last   *item
	sendq  *waiter
	recvq  *waiter
	closed bool
	shut   int    // step that closed it
	sync   byte   // close happens before a receive that sees it
	slots  []byte // the kth receive happens before the completion of send k+cap
	sent   int
}

type item struct {
	v    interface{}
	next *item
	slot int
	step int  // that sent it
	sync byte // the send happens before the receive
}

// waiter is a thread blocked on channels.
type waiter struct {
	t    *thread
	next *waiter
	c    *core
	idx  int // case of a select
	send bool
	it   *item
	grp  *group
	step int
}

// group is what the waiters of one blocked operation share.
type group struct {
	fired  bool
	idx    int
	it     *item
	ok     bool
	closed bool
	ack    byte // a receive from an unbuffered channel happens before the send completes
}

// Chan replaces chan T.
type Chan[T any] struct{ c core }

func Make[T any](n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	return &Chan[T]{core{cap: n, slots: make([]byte, n)}}
}

func ptr[T any](c *Chan[T]) *core {
	if c == nil {
		return nil
	}
	return &c.c
}

func Send[T any](c *Chan[T], v T) { send(ptr(c), v) }

func Recv[T any](c *Chan[T]) T {
	v, _ := Recv2(c)
	return v
}

func Recv2[T any](c *Chan[T]) (T, bool) {
	v, ok := recv(ptr(c))
	if !ok {
		var zero T
		return zero, false
	}
	if v == nil {
		var zero T // a nil interface
		return zero, true
	}
	return v.(T), true
}

func Range[T any](c *Chan[T]) (*Chan[T], T, bool) {
	v, ok := Recv2(c)
	return c, v, ok
}

func Close[T any](c *Chan[T]) { closeChan(ptr(c)) }

func Len[T any](c *Chan[T]) int { return chanLen(ptr(c)) }
func Cap[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return c.c.cap
}

//go:norace
func chanLen(c *core) int {
	if c == nil {
		return 0
	}
	yield(kLen, nil, unsafe.Pointer(c))
	return c.n
}

// never blocks for good.
//
//go:norace
func never(k Kind) {
	if cur == nil {
		panic(unsupported("blocked outside an execution"))
	}
	yield(k, nil)
	cur.running.pend.kind = k
	block()
}

//go:norace
func (c *core) push(it *item) {
	if c.last == nil {
		c.buf = it
	} else {
		c.last.next = it
	}
	c.last = it
	c.n++
	it.slot = c.sent % c.cap
	c.sent++
}

//go:norace
func (c *core) pop() *item {
	it := c.buf
	c.buf = it.next
	if c.buf == nil {
		c.last = nil
	}
	it.next = nil
	c.n--
	return it
}

//go:norace
func enqueue(q **waiter, w *waiter) {
	for *q != nil {
		q = &(*q).next
	}
	*q = w
}

// dequeue takes the first waiter whose operation has not been completed by another channel.
//
//go:norace
func dequeue(q **waiter) *waiter {
	for *q != nil {
		w := *q
		*q = w.next
		if !w.grp.fired {
			return w
		}
	}
	return nil
}

//go:norace
func waiting(q *waiter) bool {
	for ; q != nil; q = q.next {
		if !q.grp.fired {
			return true
		}
	}
	return false
}

//go:norace
func fire(w *waiter) {
	w.grp.fired = true
	w.grp.idx = w.idx
	cur.resume(w.t)
}

// trySend sends if that does not block. The caller's thread does it.
//
//go:norace
func (c *core) trySend(v interface{}) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := dequeue(&c.recvq); w != nil {
		it := &item{v: v, step: lastStep()}
		raceRelease(unsafe.Pointer(&it.sync))
		// the receiver was waiting already: its receive happens before the completion of the send
		raceAcquire(unsafe.Pointer(&w.grp.ack))
		follows(w.step)
		w.grp.it, w.grp.ok = it, true
		fire(w)
		return true
	}
	if c.n < c.cap {
		it := &item{v: v, step: lastStep()}
		c.push(it)
		raceAcquire(unsafe.Pointer(&c.slots[it.slot])) // the receive that made room
		raceRelease(unsafe.Pointer(&it.sync))
		return true
	}
	return false
}

// tryRecv receives if that does not block.
//
//go:norace
func (c *core) tryRecv() (v interface{}, ok, done bool) {
	if c.n > 0 {
		it := c.pop()
		follows(it.step)
		raceAcquire(unsafe.Pointer(&it.sync))
		raceRelease(unsafe.Pointer(&c.slots[it.slot]))
		if w := dequeue(&c.sendq); w != nil {
			c.push(w.it)
			raceRelease(unsafe.Pointer(&w.grp.ack))
			fire(w)
		}
		return it.v, true, true
	}
	if w := dequeue(&c.sendq); w != nil {
		follows(w.it.step)
		raceAcquire(unsafe.Pointer(&w.it.sync))
		raceRelease(unsafe.Pointer(&w.grp.ack))
		fire(w)
		return w.it.v, true, true
	}
	if c.closed {
		follows(c.shut)
		raceAcquire(unsafe.Pointer(&c.sync))
		return nil, false, true
	}
	return nil, false, false
}

//go:norace
func send(c *core, v interface{}) {
	if c == nil {
		never(kSend)
		return
	}
	yield(kSend, nil, unsafe.Pointer(c))
	if c.trySend(v) {
		return
	}
	if cur == nil {
		panic(unsupported("blocked outside an execution"))
	}
	g := &group{}
	w := &waiter{t: cur.running, c: c, send: true, grp: g, it: &item{v: v, step: lastStep()}}
	raceRelease(unsafe.Pointer(&w.it.sync))
	enqueue(&c.sendq, w)
	block()
	if g.closed {
		panic("send on closed channel")
	}
	raceAcquire(unsafe.Pointer(&g.ack))
}

//go:norace
func recv(c *core) (interface{}, bool) {
	if c == nil {
		never(kRecv)
		return nil, false
	}
	yield(kRecv, nil, unsafe.Pointer(c))
	if v, ok, done := c.tryRecv(); done {
		return v, ok
	}
	if cur == nil {
		panic(unsupported("blocked outside an execution"))
	}
	g := &group{}
	w := &waiter{t: cur.running, c: c, grp: g, step: lastStep()}
	raceRelease(unsafe.Pointer(&g.ack))
	enqueue(&c.recvq, w)
	block()
	return g.received(c)
}

//go:norace
func (g *group) received(c *core) (interface{}, bool) {
	if g.closed {
		raceAcquire(unsafe.Pointer(&c.sync))
		return nil, false
	}
	raceAcquire(unsafe.Pointer(&g.it.sync))
	return g.it.v, true
}

//go:norace
func closeChan(c *core) {
	if c == nil {
		panic("close of nil channel")
	}
	yield(kClose, nil, unsafe.Pointer(c))
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	c.shut = lastStep()
	raceRelease(unsafe.Pointer(&c.sync))
	for w := dequeue(&c.recvq); w != nil; w = dequeue(&c.recvq) {
		w.grp.closed = true
		fire(w)
	}
	for w := dequeue(&c.sendq); w != nil; w = dequeue(&c.sendq) {
		w.grp.closed = true
		fire(w)
	}
}

// ---- select

type Case struct {
	c    *core
	send bool
	v    interface{}
}

type Got struct {
	v  interface{}
	ok bool
}

func RecvCase[T any](c *Chan[T]) Case      { return Case{c: ptr(c)} }
func SendCase[T any](c *Chan[T], v T) Case { return Case{c: ptr(c), send: true, v: v} }

// Val gives what a receiving case received.
func Val[T any](c *Chan[T], g Got) T {
	var zero T
	if !g.ok || g.v == nil {
		return zero
	}
	return g.v.(T)
}

func Val2[T any](c *Chan[T], g Got) (T, bool) { return Val(c, g), g.ok }

// Select performs one of the cases; -1 is the default.
//
//go:norace
func Select(def bool, cases ...Case) (int, Got) {
	var objs [maxObjs]unsafe.Pointer
	n := 0
	wild := false
	for i := range cases {
		if cases[i].c == nil {
			continue
		}
		if n == maxObjs {
			wild = true
			break
		}
		objs[n] = unsafe.Pointer(cases[i].c)
		n++
	}
	if wild {
		yieldWild(kSelect)
	} else {
		yield(kSelect, nil, objs[:n]...)
	}
	ready := 0
	for i := range cases {
		if cases[i].ready() {
			ready++
		}
	}
	if ready > 0 {
		k := choose(ready)
		for i := range cases {
			if !cases[i].ready() {
				continue
			}
			if k > 0 {
				k--
				continue
			}
			if cases[i].send {
				cases[i].c.trySend(cases[i].v)
				return i, Got{}
			}
			v, ok, _ := cases[i].c.tryRecv()
			return i, Got{v, ok}
		}
	}
	if def {
		return -1, Got{}
	}
	if cur == nil {
		panic(unsupported("blocked outside an execution"))
	}
	g := &group{}
	var mine *waiter
	for i := range cases {
		c := cases[i].c
		if c == nil {
			continue
		}
		w := &waiter{t: cur.running, c: c, idx: i, grp: g, send: cases[i].send, step: lastStep()}
		mine = w
		if w.send {
			w.it = &item{v: cases[i].v, step: lastStep()}
			raceRelease(unsafe.Pointer(&w.it.sync))
			enqueue(&c.sendq, w)
		} else {
			raceRelease(unsafe.Pointer(&g.ack))
			enqueue(&c.recvq, w)
		}
	}
	_ = mine
	block()
	cs := &cases[g.idx]
	if cs.send {
		if g.closed {
			panic("send on closed channel")
		}
		raceAcquire(unsafe.Pointer(&g.ack))
		return g.idx, Got{}
	}
	v, ok := g.received(cs.c)
	return g.idx, Got{v, ok}
}

//go:norace
func (s *Case) ready() bool {
	c := s.c
	if c == nil {
		return false
	}
	if s.send {
		return c.closed || waiting(c.recvq) || c.n < c.cap
	}
	return c.n > 0 || waiting(c.sendq) || c.closed
}

//go:norace
func yieldWild(k Kind) {
	x := cur
	if x == nil {
		return
	}
	t := x.running
	t.pend = op{kind: k, cause: -1, wild: true, root: t.root}
	t.ready = true
	x.schedule(t)
}
