package vs

import "unsafe"

// Sema is the state of a lock.
type Sema struct {
	Writer  bool
	Readers int
	sync    byte // unlock happens before lock
	rsync   byte // runlock happens before lock
}

//go:norace
func (s *Sema) open(k Kind) bool {
	switch k {
	case kLock:
		return !s.Writer && s.Readers == 0
	case kRLock:
		return !s.Writer
	}
	return true
}

//go:norace
func (s *Sema) Lock() {
	yield(kLock, s, unsafe.Pointer(s))
	if cur == nil && !s.open(kLock) {
		panic(unsupported("blocked outside an execution"))
	}
	s.Writer = true
	raceAcquire(unsafe.Pointer(&s.sync))
	raceAcquire(unsafe.Pointer(&s.rsync))
}

//go:norace
func (s *Sema) TryLock() bool {
	yield(kTryLock, nil, unsafe.Pointer(s))
	if !s.open(kLock) {
		return false
	}
	s.Writer = true
	raceAcquire(unsafe.Pointer(&s.sync))
	raceAcquire(unsafe.Pointer(&s.rsync))
	return true
}

//go:norace
func (s *Sema) Unlock() {
	yield(kUnlock, nil, unsafe.Pointer(s))
	if !s.Writer {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(&s.sync))
	s.Writer = false
}

//go:norace
func (s *Sema) RLock() {
	yield(kRLock, s, unsafe.Pointer(s))
	if cur == nil && !s.open(kRLock) {
		panic(unsupported("blocked outside an execution"))
	}
	s.Readers++
	raceAcquire(unsafe.Pointer(&s.sync))
}

//go:norace
func (s *Sema) TryRLock() bool {
	yield(kTryLock, nil, unsafe.Pointer(s))
	if !s.open(kRLock) {
		return false
	}
	s.Readers++
	raceAcquire(unsafe.Pointer(&s.sync))
	return true
}

//go:norace
func (s *Sema) RUnlock() {
	yield(kUnlock, nil, unsafe.Pointer(s)) // may enable a writer: not a read
	if s.Readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&s.rsync))
	s.Readers--
}

// Counter is the state of a wait group.
type Counter struct {
	N    int
	sync byte
}

//go:norace
func (c *Counter) open(k Kind) bool { return k != kWait || c.N == 0 }

//go:norace
func (c *Counter) Add(n int) {
	yield(kAdd, nil, unsafe.Pointer(c))
	if n < 0 {
		raceRelease(unsafe.Pointer(&c.sync))
	}
	c.N += n
	if c.N < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

//go:norace
func (c *Counter) Wait() {
	yield(kWait, c, unsafe.Pointer(c))
	if cur == nil && c.N != 0 {
		panic(unsupported("blocked outside an execution"))
	}
	raceAcquire(unsafe.Pointer(&c.sync))
}

// Event blocks threads until they are signalled (a condition variable's queue).
type Event struct {
	q    *waiter
	sync byte
}

//go:norace
func (e *Event) Enqueue() interface{} {
	if cur == nil {
		panic(unsupported("blocked outside an execution"))
	}
	yield(kSignal, nil, unsafe.Pointer(e))
	w := &waiter{t: cur.running, grp: &group{}}
	enqueue(&e.q, w)
	return w
}

//go:norace
func (e *Event) Await(h interface{}) {
	w := h.(*waiter)
	if !w.grp.fired {
		w.grp.ok = true // is blocked
		cur.running.pend.kind = kWait
		block()
	}
}

//go:norace
func (e *Event) Signal(all bool) {
	yield(kSignal, nil, unsafe.Pointer(e))
	for w := dequeue(&e.q); w != nil; w = dequeue(&e.q) {
		w.grp.fired = true
		if w.grp.ok {
			cur.resume(w.t)
		}
		if !all {
			return
		}
	}
}

// Atomic is a scheduling point for an atomic operation on p; its effect follows at once.
//
//go:norace
func Atomic(p unsafe.Pointer, write bool) {
	if write {
		yield(kStore, nil, p)
	} else {
		yield(kLoad, nil, p)
	}
}

// Point is a scheduling point for an operation on the object p that is ordered after all earlier ones.
//
//go:norace
func Point(p unsafe.Pointer, read bool) {
	if read {
		yield(kMapRead, nil, p)
	} else {
		yield(kMap, nil, p)
	}
}

func Acquire(p unsafe.Pointer) { raceAcquire(p) }
func Release(p unsafe.Pointer) { raceRelease(p) }

// Choose takes one of n alternatives of the environment.
func Choose(n int) int { return choose(n) }

// Zero resets a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Sorted gives a map's keys in order.
func Sorted[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sortKeys(keys)
	return keys
}
