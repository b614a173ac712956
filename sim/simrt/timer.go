package simrt

import "container/heap"

// Timer is a simulated timer.
type Timer struct {
	when  int64
	seq   uint64
	index int
	f     func()
}

type timerHeap []*Timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].when != h[j].when {
		return h[i].when < h[j].when
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) {
	h[i], h[j] = h[j], h[i]
	h[i].index = i
	h[j].index = j
}
func (h *timerHeap) Push(x any) {
	t := x.(*Timer)
	t.index = len(*h)
	*h = append(*h, t)
}
func (h *timerHeap) Pop() any {
	old := *h
	t := old[len(old)-1]
	old[len(old)-1] = nil
	*h = old[:len(old)-1]
	t.index = -1
	return t
}

func (s *Sim) addTimer(when int64, f func()) *Timer {
	s.tseq++
	t := &Timer{when: when, seq: s.tseq, f: f}
	heap.Push(&s.timers, t)
	Release(t)
	return t
}

func (s *Sim) delTimer(t *Timer) bool {
	if t.index < 0 || t.index >= len(s.timers) || s.timers[t.index] != t {
		return false
	}
	heap.Remove(&s.timers, t.index)
	return true
}

func (s *Sim) fireDue() {
	for len(s.timers) > 0 && s.timers[0].when <= s.now {
		t := heap.Pop(&s.timers).(*Timer)
		s.firing = t
		raceOff() // whoever notices that time has passed has no part in it
		t.f()
		raceOn()
		s.firing = nil
	}
}

// AddTimer calls f (which must not block or yield) after d nanoseconds.
func AddTimer(d int64, f func()) *Timer {
	s := active
	if s == nil {
		panic("simrt: timer outside the simulation")
	}
	if d < 0 {
		d = 0
	}
	return s.addTimer(s.now+d, f)
}

// StopTimer removes the timer and reports whether it was pending.
func StopTimer(t *Timer) bool {
	if active == nil {
		return false
	}
	return active.delTimer(t)
}

// SpawnFromTimer starts a system goroutine from a timer callback (no yield).
func SpawnFromTimer(name string, f func()) {
	s := active
	if s.killing {
		return
	}
	if t := s.firing; t != nil {
		h := f
		f = func() { Acquire(t); h() }
	}
	g := s.newG(name, f)
	g.Harness = false
	g.state = gRunnable
	s.runq = append(s.runq, g)
}
