package simrt

import (
	"reflect"
	"runtime"
	"time"
	"unsafe"
)

// Entry is one element of a map.
type Entry[K comparable, V any] struct {
	K K
	V V
}

// Entries lists m in the order the simulator decides to iterate it.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	keys := Keys(m)
	res := make([]Entry[K, V], 0, len(keys))
	for _, k := range keys {
		res = append(res, Entry[K, V]{k, m[k]})
	}
	return res
}

// Channels. Buffered channels are the real ones, tried without blocking until
// they are ready. Values that go through an unbuffered channel are handed over
// through a queue of waiting tasks, as no task is ever blocked in the real one.

const chanSite = 1<<14 - 2

// waiter is a task that waits in one select statement.
type waiter struct {
	fired bool
	which int
}

type chanEntry struct {
	next *chanEntry
	w    *waiter
	i    int
	box  unsafe.Pointer // *T: value to send, or where to put it
	ok   *bool          // receivers
}

type chanQ struct {
	ptr   unsafe.Pointer
	sends *chanEntry
	recvs *chanEntry
}

// edge is what orders the operations of a channel.
func (q *chanQ) edge() *byte { return (*byte)(q.ptr) }

const maxChans = 1024

var (
	chanTab [maxChans]*chanQ
	chanN   int

	chanLimit = 16
)

//go:norace
func resetChans() {
	for i := 0; i < chanN; i++ {
		chanTab[i] = nil
	}
	chanN, chanLimit = 0, 16
}

// find returns who waits for a channel.
//
//go:norace
func find(p unsafe.Pointer) *chanQ {
	for i := 0; i < chanN; i++ {
		if chanTab[i].ptr == p {
			return chanTab[i]
		}
	}
	return nil
}

// chanOf is for adding to who waits for a channel: channels nobody waits for
// are forgotten now and then.
//
//go:norace
func chanOf(p unsafe.Pointer) *chanQ {
	if q := find(p); q != nil {
		return q
	}
	if chanN >= chanLimit {
		n := 0
		for i := 0; i < chanN; i++ {
			if q := chanTab[i]; first(q.sends, nil) != nil || first(q.recvs, nil) != nil {
				chanTab[n] = q
				n++
			}
		}
		for i := n; i < chanN; i++ {
			chanTab[i] = nil
		}
		chanN = n
		if chanLimit = 2*n + 16; chanLimit > maxChans {
			chanLimit = maxChans
		}
	}
	if chanN == maxChans {
		panic("simrt: too many channels")
	}
	q := &chanQ{ptr: p}
	chanTab[chanN] = q
	chanN++
	return q
}

// first returns the first entry whose select statement still waits.
//
//go:norace
func first(e *chanEntry, not *waiter) *chanEntry {
	for ; e != nil; e = e.next {
		if !e.w.fired && e.w != not {
			return e
		}
	}
	return nil
}

//go:norace
func fire(e *chanEntry) { e.w.fired, e.w.which = true, e.i }

//go:norace
func fired(w *waiter) (int, bool) { return w.which, w.fired }

//go:norace
func push(l **chanEntry, e *chanEntry) {
	for *l != nil {
		if (*l).w.fired { // left behind
			*l = (*l).next
			continue
		}
		l = &(*l).next
	}
	*l = e
}

//go:norace
func give(w *waiter) { w.fired = true }

// Case is a case of a select statement.
type Case interface {
	try() bool
	enqueue(w *waiter, i int)
	arrived()
	selectCase() reflect.SelectCase
	set(v reflect.Value, ok bool)
}

// RecvCase is a receive operation; V and OK are what was received.
type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

// NewRecv makes a receive operation.
func NewRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }

func (c *RecvCase[T]) try() bool {
	if c.ch == nil {
		return false
	}
	select {
	case c.V, c.OK = <-c.ch:
		Wake()
		return true
	default:
	}
	if cap(c.ch) > 0 {
		return false
	}
	q := find(c.ptr())
	if q == nil {
		return false
	}
	e := first(q.sends, nil)
	if e == nil {
		return false
	}
	PoolAcquire(q.edge())
	c.V, c.OK = *(*T)(e.box), true
	PoolRelease(q.edge())
	fire(e)
	Wake()
	return true
}

//go:norace
func (c *RecvCase[T]) enqueue(w *waiter, i int) {
	if c.ch != nil && cap(c.ch) == 0 {
		q := chanOf(c.ptr())
		PoolRelease(q.edge())
		push(&q.recvs, &chanEntry{w: w, i: i, box: unsafe.Pointer(&c.V), ok: &c.OK})
	}
}

func (c *RecvCase[T]) arrived() { PoolAcquire((*byte)(c.ptr())) }

func (c *RecvCase[T]) selectCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}

func (c *RecvCase[T]) set(v reflect.Value, ok bool) {
	if c.OK = ok; ok {
		reflect.ValueOf(&c.V).Elem().Set(v)
	}
}

// SendCase is a send operation.
type SendCase[T any] struct {
	ch chan<- T
	v  T
}

// To makes a send operation to a channel.
func To[T any](ch chan<- T) *SendCase[T] { return &SendCase[T]{ch: ch} }

// Case is the operation that sends v.
func (c *SendCase[T]) Case(v T) Case { c.v = v; return c }

// Send replaces a channel send statement.
func (c *SendCase[T]) Send(v T) {
	c.v = v
	if cur == nil {
		c.ch <- v
		return
	}
	Select(false, c)
}

func (c *SendCase[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }

func (c *SendCase[T]) try() bool {
	if c.ch == nil {
		return false
	}
	select {
	case c.ch <- c.v: // panics if the channel is closed
		Wake()
		return true
	default:
	}
	if cap(c.ch) > 0 {
		return false
	}
	q := find(c.ptr())
	if q == nil {
		return false
	}
	e := first(q.recvs, nil)
	if e == nil {
		return false
	}
	PoolAcquire(q.edge())
	*(*T)(e.box), *e.ok = c.v, true
	PoolRelease(q.edge())
	fire(e)
	Wake()
	return true
}

//go:norace
func (c *SendCase[T]) enqueue(w *waiter, i int) {
	if c.ch != nil && cap(c.ch) == 0 {
		q := chanOf(c.ptr())
		PoolRelease(q.edge())
		push(&q.sends, &chanEntry{w: w, i: i, box: unsafe.Pointer(&c.v)})
	}
}

func (c *SendCase[T]) arrived() { PoolAcquire((*byte)(c.ptr())) }

func (c *SendCase[T]) selectCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}

func (c *SendCase[T]) set(reflect.Value, bool) {}

// Select replaces a select statement: it returns the index of the case that
// was chosen, -1 for the default.
func Select(hasDefault bool, cases ...Case) int {
	Y(chanSite)
	if cur == nil {
		return realSelect(hasDefault, cases)
	}
	for {
		n := len(cases)
		off := 0
		if n > 1 {
			off = choose(n)
		}
		for k := 0; k < n; k++ {
			i := (k + off) % n
			if cases[i].try() {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		if Aborting() {
			runtime.Goexit()
		}
		w := newWaiter()
		for i, c := range cases {
			c.enqueue(w, i)
		}
		Block()
		if i, ok := fired(w); ok {
			cases[i].arrived()
			return i
		}
		give(w) // its entries are not used any more
	}
}

//go:norace
func newWaiter() *waiter { return &waiter{} }

//go:norace
func choose(n int) int {
	if sch == nil {
		return 0
	}
	return int(rnd(&sch.rng) >> 3 % uint64(n))
}

func realSelect(hasDefault bool, cases []Case) int {
	var sc []reflect.SelectCase
	for _, c := range cases {
		sc = append(sc, c.selectCase())
	}
	if hasDefault {
		sc = append(sc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(sc)
	if i == len(cases) {
		return -1
	}
	cases[i].set(v, ok)
	return i
}

// Forever replaces an empty select statement.
func Forever() {
	for {
		if cur == nil {
			select {}
		}
		Block()
	}
}

// Recv replaces a channel receive expression.
func Recv[T any](ch <-chan T) T {
	v, _ := RecvOK(ch)
	return v
}

// RecvOK replaces a two-valued channel receive.
func RecvOK[T any](ch <-chan T) (T, bool) {
	if cur == nil {
		v, ok := <-ch
		return v, ok
	}
	c := NewRecv(ch)
	Select(false, c)
	return c.V, c.OK
}

// Ranged returns a channel and the variable of a loop over it.
func Ranged[T any](ch <-chan T) (c <-chan T, v T) { return ch, v }

// RecvOnly gives the type of a channel that is only received from.
func RecvOnly[T any](ch <-chan T) <-chan T { return ch }

// Close replaces the builtin.
func Close[T any](ch chan<- T) {
	Y(chanSite)
	close(ch)
	Wake()
}

// YieldFor replaces runtime.Gosched.
func YieldFor(func()) { Yield() }

// Sleep replaces time.Sleep: the others go on meanwhile.
func Sleep(real func(time.Duration), d time.Duration) {
	if cur == nil {
		real(d)
		return
	}
	Yield()
}
