package simrt

import (
	"runtime"
	"unsafe"
)

type waiter struct {
	g     *G
	sel   *selState
	idx   int
	val   any
	ok    bool
	fired bool
	tok   *sync // what orders it and its counterpart
}

// sync is what the two ends of a channel operation agree on.
type sync struct{ there, back byte }

type selState struct {
	done bool
	idx  int
	w    *waiter
}

type chanState struct {
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	keep   any
	slots  []byte // as in Go: the k-th receive precedes the k+cap-th send
	sent   int
	recvd  int
	timer  *Timer
	end    byte // orders the closing before receives which notice it
}

// in and out order an element's way through the buffer.
func (st *chanState) in(n int) {
	if Race && n > 0 {
		if st.slots == nil {
			st.slots = make([]byte, n)
		}
		p := &st.slots[st.sent%n]
		st.sent++
		Acquire(p)
		Release(p)
	}
}

func (st *chanState) out(n int) {
	if Race {
		if st.timer != nil {
			Acquire(st.timer)
		}
		if n > 0 && st.slots != nil {
			p := &st.slots[st.recvd%n]
			st.recvd++
			Acquire(p)
			Release(p)
		}
	}
}

// depart tells what came before waiting on w, arrive takes note of what came
// before its counterpart acted.
func (w *waiter) depart() *waiter {
	if Race {
		w.tok = &sync{}
		Release(&w.tok.there)
	}
	return w
}

func (w *waiter) arrive(st *chanState) {
	if Race {
		Acquire(&w.tok.back)
		if st != nil && st.timer != nil {
			Acquire(st.timer)
		}
	}
}

// meet is done by the one which ends the waiting of w.
func (w *waiter) meet() {
	if Race && w.tok != nil {
		Acquire(&w.tok.there)
		Release(&w.tok.back)
	}
}

func (w *waiter) stale() bool { return w.sel != nil && w.sel.done }

func (w *waiter) fire(ok bool) {
	w.ok = ok
	w.fired = true
	w.meet()
	if w.sel != nil {
		w.sel.done = true
		w.sel.idx = w.idx
		w.sel.w = w
	}
	active.ready(w.g)
}

func popLive(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.stale() {
			return w
		}
	}
	return nil
}

func hasLive(q []*waiter) bool {
	for _, w := range q {
		if !w.stale() {
			return true
		}
	}
	return false
}

// chanTab finds the state of a channel (a map of Go's own would be watched by
// the race detector).
type chanTab struct {
	keys []unsafe.Pointer
	vals []*chanState
	n    int
}

func (t *chanTab) slot(k unsafe.Pointer) int {
	m := len(t.keys) - 1
	i := int(uintptr(k)>>4*0x9e3779b1>>8) & m
	for t.keys[i] != nil && t.keys[i] != k {
		i = (i + 1) & m
	}
	return i
}

func (t *chanTab) get(k unsafe.Pointer) *chanState {
	if 2*t.n >= len(t.keys) {
		old := *t
		size := max(64, 2*len(old.keys))
		t.keys, t.vals = make([]unsafe.Pointer, size), make([]*chanState, size)
		for i, k := range old.keys {
			if k != nil {
				j := t.slot(k)
				t.keys[j], t.vals[j] = k, old.vals[i]
			}
		}
	}
	i := t.slot(k)
	if t.keys[i] == nil {
		t.keys[i], t.vals[i] = k, &chanState{}
		t.n++
	}
	return t.vals[i]
}

func key[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func bidiS[T any](ch chan<- T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }
func bidiR[T any](ch <-chan T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }

func state[T any](s *Sim, ch chan T) *chanState {
	k := key(ch)
	st := s.chans.get(k)
	if st.keep == nil {
		st.keep = ch
	}
	return st
}

// trySend attempts the send without blocking.
func trySend[T any](s *Sim, ch chan T, v T) bool {
	st := state(s, ch)
	if st.closed {
		panic(sendOnClosed{})
	}
	if w := popLive(&st.recvq); w != nil {
		w.val = v
		w.fire(true)
		st.in(cap(ch))
		st.recvd++
		return true
	}
	if len(ch) < cap(ch) {
		st.in(cap(ch))
		raceOff()
		ch <- v
		raceOn()
		return true
	}
	return false
}

type sendOnClosed struct{}

func (sendOnClosed) Error() string { return "send on closed channel" }
func (sendOnClosed) RuntimeError() {}

func tryRecv[T any](s *Sim, ch chan T) (v T, ok, done bool) {
	st := state(s, ch)
	if len(ch) > 0 {
		raceOff()
		v = <-ch
		raceOn()
		st.out(cap(ch))
		if w := popLive(&st.sendq); w != nil {
			sv, _ := w.val.(T)
			raceOff()
			ch <- sv
			raceOn()
			w.fire(true)
			st.in(cap(ch))
		}
		return v, true, true
	}
	if st.closed {
		Acquire(&st.end)
		return v, false, true
	}
	if w := popLive(&st.sendq); w != nil {
		v, _ = w.val.(T)
		w.fire(true)
		return v, true, true
	}
	return v, false, false
}

func blockForever(what string) {
	Park(what)
	panic("simrt: unreachable")
}

// BlockForever is an empty select.
func BlockForever() {
	for {
		Park("select{}")
	}
}

// SendTo returns the send operation on ch (split so that the value converts
// to the element type as it would in a send statement).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { send(bidiS(ch), v) }
}

func send[T any](ch chan T, v T) {
	s := active
	if s == nil {
		ch <- v
		return
	}
	if s.killing {
		runtime.Goexit()
	}
	s.yield("send", false)
	if ch == nil {
		blockForever("send on nil channel")
	}
	if trySend(s, ch, v) {
		return
	}
	st := state(s, ch)
	w := (&waiter{g: s.cur, val: v}).depart()
	st.sendq = append(st.sendq, w)
	for !w.fired {
		Park("chan send")
	}
	w.arrive(nil)
	if !w.ok {
		panic(sendOnClosed{})
	}
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](rch <-chan T) (T, bool) {
	ch := bidiR(rch)
	s := active
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	if s.killing {
		runtime.Goexit()
	}
	s.yield("recv", false)
	if ch == nil {
		blockForever("receive from nil channel")
	}
	if v, ok, done := tryRecv(s, ch); done {
		return v, ok
	}
	st := state(s, ch)
	w := (&waiter{g: s.cur}).depart()
	st.recvq = append(st.recvq, w)
	for !w.fired {
		Park("chan receive")
	}
	w.arrive(st)
	v, _ := w.val.(T)
	return v, w.ok
}

func Close[T any](sch chan<- T) {
	if s := active; s != nil && !s.killing {
		s.yield("close", false)
	}
	CloseNow(sch)
}

// CloseNow closes without a scheduling point.
func CloseNow[T any](sch chan<- T) {
	ch := bidiS(sch)
	s := active
	if s == nil || ch == nil {
		close(ch)
		return
	}
	if s.killing {
		st := state(s, ch)
		if !st.closed {
			st.closed = true
			close(ch)
		}
		return
	}
	st := state(s, ch)
	if st.closed {
		close(ch) // panics as Go does
	}
	st.closed = true
	ReleaseMerge(&st.end)
	raceOff()
	close(ch)
	raceOn()
	for w := popLive(&st.recvq); w != nil; w = popLive(&st.recvq) {
		w.fire(false)
	}
	for w := popLive(&st.sendq); w != nil; w = popLive(&st.sendq) {
		w.fire(false)
	}
}

// TrySendNow is a non-blocking send without a scheduling point (timers).
func TrySendNow[T any](ch chan T, v T) bool {
	if active == nil || active.killing {
		return false
	}
	if Race {
		state(active, ch).timer = active.firing
	}
	return trySend(active, ch, v)
}

// DrainNow empties a buffered channel.
func DrainNow[T any](ch chan T) {
	raceOff()
	for len(ch) > 0 {
		<-ch
	}
	raceOn()
}

// ---- select

type Case interface {
	nilch() bool
	isReady(s *Sim) bool
	exec(s *Sim)
	enqueue(s *Sim, sel *selState, idx int)
	finish(w *waiter)
}

type RecvC[T any] struct {
	ch chan T
	v  T
	ok bool
}

func CaseRecv[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: bidiR(ch)} }

func (c *RecvC[T]) Val() T          { return c.v }
func (c *RecvC[T]) Val2() (T, bool) { return c.v, c.ok }
func (c *RecvC[T]) nilch() bool     { return c.ch == nil }
func (c *RecvC[T]) isReady(s *Sim) bool {
	st := state(s, c.ch)
	return len(c.ch) > 0 || st.closed || hasLive(st.sendq)
}
func (c *RecvC[T]) exec(s *Sim) { c.v, c.ok, _ = tryRecv(s, c.ch) }
func (c *RecvC[T]) enqueue(s *Sim, sel *selState, idx int) {
	st := state(s, c.ch)
	st.recvq = compact(st.recvq)
	st.recvq = append(st.recvq, (&waiter{g: s.cur, sel: sel, idx: idx}).depart())
}
func (c *RecvC[T]) finish(w *waiter) {
	w.arrive(state(active, c.ch))
	c.v, _ = w.val.(T)
	c.ok = w.ok
}

type SendC[T any] struct {
	ch chan T
	v  T
}

func CaseSend[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{ch: bidiS(ch), v: v} }
}

func (c *SendC[T]) nilch() bool { return c.ch == nil }
func (c *SendC[T]) isReady(s *Sim) bool {
	st := state(s, c.ch)
	return st.closed || hasLive(st.recvq) || len(c.ch) < cap(c.ch)
}
func (c *SendC[T]) exec(s *Sim) { trySend(s, c.ch, c.v) }
func (c *SendC[T]) enqueue(s *Sim, sel *selState, idx int) {
	st := state(s, c.ch)
	st.sendq = compact(st.sendq)
	st.sendq = append(st.sendq, (&waiter{g: s.cur, sel: sel, idx: idx, val: c.v}).depart())
}
func (c *SendC[T]) finish(w *waiter) {
	w.arrive(nil)
	if !w.ok {
		panic(sendOnClosed{})
	}
}

func compact(q []*waiter) []*waiter {
	out := q[:0]
	for _, w := range q {
		if !w.stale() {
			out = append(out, w)
		}
	}
	return out
}

// Select performs a select statement and returns the index of the chosen
// case, -1 for the default.
func Select(hasDefault bool, cases ...Case) int {
	s := active
	if s == nil {
		panic("simrt: select outside the simulation")
	}
	if s.killing {
		runtime.Goexit()
	}
	s.yield("select", false)
	var ready []int
	for i, c := range cases {
		if !c.nilch() && c.isReady(s) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[s.cfg.Sched.Intn(len(ready))]
		s.mix(uint64(i) + 0x5e1)
		cases[i].exec(s)
		return i
	}
	if hasDefault {
		return -1
	}
	sel := &selState{}
	for i, c := range cases {
		if !c.nilch() {
			c.enqueue(s, sel, i)
		}
	}
	for !sel.done {
		Park("select")
	}
	cases[sel.idx].finish(sel.w)
	return sel.idx
}
