// Package simsync stands in for package sync in the instrumented code. The
// primitives block in the simulator instead of in the runtime; the real ones
// inside give the race detector the happens-before edges of the originals.
package simsync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"simverif/simrt"
)

type Locker = sync.Locker

const site = 1<<14 - 1

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	if !simrt.Active() {
		if simrt.Aborting() {
			return
		}
		m.mu.Lock()
		return
	}
	simrt.Y(site)
	for !m.mu.TryLock() {
		simrt.Block()
	}
}

func (m *Mutex) TryLock() bool {
	if simrt.Aborting() {
		return true
	}
	simrt.Y(site)
	return m.mu.TryLock()
}

func (m *Mutex) Unlock() {
	if simrt.Aborting() {
		m.mu.TryLock() // whatever state it is in, leave it unlocked
		m.mu.Unlock()
		return
	}
	m.mu.Unlock()
	simrt.Wake()
	simrt.Y(site)
}

// RWMutex is a read-write lock. A writer that waits keeps new readers out.
type RWMutex struct {
	mu      sync.RWMutex
	waiting int // writers
}

//go:norace
func (m *RWMutex) want(d int) { m.waiting += d }

//go:norace
func (m *RWMutex) wanted() bool { return m.waiting > 0 }

func (m *RWMutex) Lock() {
	if !simrt.Active() {
		if simrt.Aborting() {
			return
		}
		m.mu.Lock()
		return
	}
	simrt.Y(site)
	if m.mu.TryLock() {
		return
	}
	m.want(1)
	defer m.want(-1)
	for !m.mu.TryLock() {
		simrt.Block()
	}
}

func (m *RWMutex) RLock() {
	if !simrt.Active() {
		if simrt.Aborting() {
			return
		}
		m.mu.RLock()
		return
	}
	simrt.Y(site)
	for m.wanted() || !m.mu.TryRLock() {
		simrt.Block()
	}
}

func (m *RWMutex) TryLock() bool { simrt.Y(site); return simrt.Aborting() || m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool {
	simrt.Y(site)
	return simrt.Aborting() || !m.wanted() && m.mu.TryRLock()
}

func (m *RWMutex) Unlock() {
	if simrt.Aborting() {
		return
	}
	m.mu.Unlock()
	simrt.Wake()
	simrt.Y(site)
}

func (m *RWMutex) RUnlock() {
	if simrt.Aborting() {
		return
	}
	m.mu.RUnlock()
	simrt.Wake()
	simrt.Y(site)
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	simrt.Y(site)
	if o.done.Load() == 0 {
		o.m.Lock()
		defer o.m.Unlock()
		if o.done.Load() == 0 {
			defer o.done.Store(1)
			f()
		}
	}
}

func (o *Once) global() {
	if !simrt.Started() {
		simrt.OnEveryReset(func() { o.done.Store(0) })
	}
}

func OnceFunc(f func()) func() {
	var o Once
	o.global()
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	o.global()
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	o.global()
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool hands out pooled objects in the order the simulator decides and now and
// then behaves as if it had been emptied by the garbage collector.
type Pool struct {
	New   func() any
	epoch uint64
	known bool // in the list of pools
	n     int
	items [64]any
}

var edges [128]byte

func edge(x any) *byte {
	p := uintptr((*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1])
	return &edges[(uint64(p)*0x9e3779b97f4a7c15>>57)%128]
}

// pools lists those that were put something into.
var (
	pools  [256]*Pool
	poolsN int
)

// DropPools empties all pools, as the garbage collector does.
//
//go:norace
func DropPools() {
	for i := 0; i < poolsN; i++ {
		pools[i].n, pools[i].known = 0, false
		pools[i].items = [64]any{}
		pools[i] = nil
	}
	poolsN = 0
}

//go:norace
func (p *Pool) fresh() {
	if e := simrt.Epoch(); p.epoch != e {
		// every simulated run starts with empty pools
		p.epoch, p.n = e, 0
		p.items = [64]any{}
	}
}

//go:norace
func (p *Pool) take() (x any, ok bool) {
	p.fresh()
	i := simrt.PoolChoice(p.n)
	if i < 0 {
		return nil, false
	}
	x = p.items[i]
	p.n--
	p.items[i] = p.items[p.n]
	p.items[p.n] = nil
	return x, true
}

//go:norace
func (p *Pool) give(x any) {
	p.fresh()
	if !p.known && poolsN < len(pools) {
		p.known = true
		pools[poolsN] = p
		poolsN++
	}
	if p.n < len(p.items) {
		p.items[p.n] = x
		p.n++
	}
}

func (p *Pool) Get() any {
	simrt.Y(site)
	x, ok := p.take()
	if ok {
		simrt.PoolAcquire(edge(x))
		simrt.Y(site)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.Y(site)
	simrt.PoolRelease(edge(x))
	p.give(x)
	simrt.Y(site)
}

// Map is the real sync.Map with yield points around its operations. What a
// simulated run stores in it is forgotten when the run is over.
type Map struct {
	m     sync.Map
	dirty bool
	base  map[any]any
}

//go:norace
func (m *Map) touch() {
	if m.dirty || !simrt.Started() {
		return
	}
	m.dirty = true
	simrt.OnReset(func() {
		m.dirty = false
		m.m.Clear()
		for k, v := range m.base {
			m.m.Store(k, v)
		}
	})
}

// stored keeps what is put in before the first simulated run (initialisation).
func (m *Map) stored(k, v any) {
	if simrt.Started() {
		m.touch()
		return
	}
	if m.base == nil {
		m.base = map[any]any{}
	}
	m.base[k] = v
}

func (m *Map) Load(k any) (any, bool) { simrt.Y(site); return m.m.Load(k) }
func (m *Map) Store(k, v any) {
	simrt.Y(site)
	m.stored(k, v)
	m.m.Store(k, v)
	simrt.Y(site)
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.Y(site)
	a, ok := m.m.LoadOrStore(k, v)
	if !ok {
		m.stored(k, v)
	}
	return a, ok
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.Y(site)
	m.touch()
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k any)              { simrt.Y(site); m.touch(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool) { simrt.Y(site); m.stored(k, v); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	simrt.Y(site)
	m.touch()
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	simrt.Y(site)
	m.touch()
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Clear()                      { simrt.Y(site); m.touch(); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) { simrt.Y(site); m.m.Range(f) }

type WaitGroup struct {
	n  atomic.Int64
	wg sync.WaitGroup
}

func (w *WaitGroup) Add(d int) {
	w.wg.Add(d)
	if w.n.Add(int64(d)) == 0 {
		simrt.Wake()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.Y(site)
	for w.n.Load() != 0 && !simrt.Aborting() {
		simrt.Block()
	}
	if w.n.Load() == 0 {
		w.wg.Wait()
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L   Locker
	seq atomic.Uint64
	tok atomic.Int64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	seq := c.seq.Load()
	c.L.Unlock()
	for !simrt.Aborting() {
		if c.seq.Load() != seq {
			break
		}
		simrt.Block()
	}
	c.L.Lock()
}
func (c *Cond) Signal()    { c.Broadcast() } // spurious wake-ups are the caller's to handle
func (c *Cond) Broadcast() { c.seq.Add(1); simrt.Wake(); simrt.Y(site) }
