// Package sync replaces the standard one inside the simulation.
package sync

import (
	"simrt"
	gosync "sync"
)

type Locker = gosync.Locker

// fresh is true for the first use of a long lived value in a simulation.
func fresh(gen *uint64) bool {
	g := simrt.Generation()
	if *gen == g || simrt.Killing() {
		return false
	}
	*gen = g
	return true
}

type Mutex struct {
	locked bool
	q      []*simrt.G
	gen    uint64
}

func (m *Mutex) renew() {
	if fresh(&m.gen) {
		m.locked, m.q = false, nil
	}
}

func (m *Mutex) Lock() {
	simrt.Yield("lock")
	m.renew()
	for m.locked {
		m.q = append(m.q, simrt.Current())
		simrt.Park("mutex lock")
	}
	m.locked = true
	simrt.Acquire(m)
}

func (m *Mutex) TryLock() bool {
	simrt.Yield("trylock")
	m.renew()
	if m.locked {
		return false
	}
	m.locked = true
	simrt.Acquire(m)
	return true
}

func (m *Mutex) Unlock() {
	simrt.Yield("unlock")
	if !m.locked {
		simrt.Fatal("sync: unlock of unlocked mutex")
		return
	}
	simrt.Release(m)
	m.locked = false
	if len(m.q) > 0 {
		g := m.q[0]
		m.q = m.q[1:]
		simrt.Ready(g)
	}
}

type RWMutex struct {
	w       bool
	readers int
	wwait   int
	q       []*simrt.G
	rel     int
	gen     uint64
}

func (m *RWMutex) renew() {
	if fresh(&m.gen) {
		m.w, m.readers, m.wwait, m.q = false, 0, 0, nil
	}
}

func (m *RWMutex) wait(why string) {
	m.q = append(m.q, simrt.Current())
	simrt.Park(why)
}

func (m *RWMutex) wake() {
	q := m.q
	m.q = nil
	for _, g := range q {
		simrt.Ready(g)
	}
}

func (m *RWMutex) Lock() {
	simrt.Yield("lock")
	m.renew()
	m.wwait++
	for m.w || m.readers > 0 {
		m.wait("rwmutex lock")
	}
	m.wwait--
	m.w = true
	simrt.Acquire(m)
	simrt.Acquire(&m.rel)
}

func (m *RWMutex) TryLock() bool {
	simrt.Yield("trylock")
	m.renew()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	simrt.Acquire(m)
	simrt.Acquire(&m.rel)
	return true
}

func (m *RWMutex) Unlock() {
	simrt.Yield("unlock")
	if !m.w {
		simrt.Fatal("sync: Unlock of unlocked RWMutex")
		return
	}
	simrt.Release(m)
	m.w = false
	m.wake()
}

func (m *RWMutex) RLock() {
	simrt.Yield("rlock")
	m.renew()
	for m.w || m.wwait > 0 {
		m.wait("rwmutex rlock")
	}
	m.readers++
	simrt.Acquire(m)
}

func (m *RWMutex) TryRLock() bool {
	simrt.Yield("tryrlock")
	m.renew()
	if m.w || m.wwait > 0 {
		return false
	}
	m.readers++
	simrt.Acquire(m)
	return true
}

func (m *RWMutex) RUnlock() {
	simrt.Yield("runlock")
	if m.readers == 0 {
		simrt.Fatal("sync: RUnlock of unlocked RWMutex")
		return
	}
	simrt.ReleaseMerge(&m.rel)
	m.readers--
	m.wake()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n int
	q []*simrt.G
}

func (w *WaitGroup) Add(delta int) {
	simrt.Yield("wg add")
	if delta < 0 {
		simrt.ReleaseMerge(w)
	}
	w.n += delta
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		q := w.q
		w.q = nil
		for _, g := range q {
			simrt.Ready(g)
		}
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

func (w *WaitGroup) Wait() {
	simrt.Yield("wg wait")
	for w.n > 0 {
		w.q = append(w.q, simrt.Current())
		simrt.Park("wait group")
	}
	simrt.Acquire(w)
}

// Count is the current counter (harness use).
func (w *WaitGroup) Count() int { return w.n }

type condWaiter struct {
	g        *simrt.G
	notified bool
}

type Cond struct {
	L Locker
	q []*condWaiter
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := &condWaiter{g: simrt.Current()}
	c.q = append(c.q, w)
	c.L.Unlock()
	for !w.notified {
		simrt.Park("cond wait")
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	simrt.Yield("cond signal")
	if len(c.q) > 0 {
		w := c.q[0]
		c.q = c.q[1:]
		w.notified = true
		simrt.Ready(w.g)
	}
}

func (c *Cond) Broadcast() {
	simrt.Yield("cond broadcast")
	q := c.q
	c.q = nil
	for _, w := range q {
		w.notified = true
		simrt.Ready(w.g)
	}
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	simrt.Yield("once")
	if o.done {
		simrt.Acquire(o)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; simrt.Release(o) }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var res T
	once := OnceFunc(func() { res = f() })
	return func() T { once(); return res }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	once := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { once(); return r1, r2 }
}

type Pool struct {
	New   func() any
	items []poolItem
	gen   uint64
}

// poolItem orders the Put of an item before its Get, as the real pool does.
type poolItem struct {
	x   any
	tok *byte
}

func (p *Pool) Get() any {
	simrt.Yield("pool get")
	if fresh(&p.gen) {
		p.items = nil
	}
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		simrt.Acquire(x.tok)
		return x.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	simrt.Yield("pool put")
	if fresh(&p.gen) {
		p.items = nil
	}
	if x == nil {
		return
	}
	it := poolItem{x, new(byte)}
	simrt.Release(it.tok)
	p.items = append(p.items, it)
}

type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) begin(kind string) {
	simrt.Yield(kind)
	simrt.Acquire(m)
	if m.m == nil {
		m.m = map[any]any{}
	}
}

func (m *Map) end() { simrt.ReleaseMerge(m) }

func (m *Map) Load(k any) (any, bool) {
	m.begin("map load")
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) put(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Store(k, v any) { m.begin("map store"); m.put(k, v); m.end() }

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.begin("map loadorstore")
	defer m.end()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.put(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.begin("map loadanddelete")
	defer m.end()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.begin("map swap")
	defer m.end()
	x, ok := m.m[k]
	m.put(k, v)
	return x, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.begin("map cas")
	defer m.end()
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o any) bool {
	m.begin("map cad")
	defer m.end()
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	m.begin("map range")
	for _, k := range append([]any{}, m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

func (m *Map) Clear() {
	m.begin("map clear")
	m.m = map[any]any{}
	m.keys = nil
	m.end()
}
