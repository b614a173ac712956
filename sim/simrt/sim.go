// Package simrt is the deterministic simulator: it owns goroutine scheduling,
// channels, time and every random choice of an instrumented program. Exactly
// one simulated goroutine runs at any instant and the simulator decides which.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

type gstate uint8

const (
	gRunnable gstate = iota
	gRunning
	gBlocked
	gDead
)

// G is a simulated goroutine.
type G struct {
	ID      int
	Name    string
	wake    chan struct{}
	state   gstate
	reason  string
	prio    uint64
	lastRun int
	Harness bool // belongs to the test harness (not counted as a leak)
	Steps   int
	Tag     any
	exiting bool
}

// Outcome of a run.
type Outcome struct {
	Kind   string // "ok", "deadlock", "timelimit", "steplimit", "crash"
	Detail string
}

// Strategy selects how schedules are generated.
type Strategy struct {
	Kind   int // 0 run-to-block, 1 uniform, 2 sticky, 3 pct, 4 starve, 5 round robin
	Stick  int // percent to stay for sticky
	Victim int
	Points int // pct change points
	Span   int
}

func (st Strategy) String() string {
	return [...]string{"run-to-block", "uniform", "sticky", "pct", "starve", "round-robin"}[st.Kind]
}

type Config struct {
	Sched     *Stream
	Env       *Stream // timing faults, map order
	Strategy  Strategy
	StepCost  int64
	MaxSteps  int
	MaxTime   int64
	JumpEvery int   // mean steps between stalls of the whole process, 0 = never
	JumpMax   int64 // largest stall
	MapRandom bool
	Trace     bool
	NumCPU    int
	Epoch     int64
}

type Sim struct {
	cfg     Config
	gs      []*G
	live    int
	runq    []*G
	cur     *G
	now     int64
	step    int
	timers  timerHeap
	tseq    uint64
	chans   chanTab
	conds   []*condWait
	killing bool
	ended   bool
	out     Outcome
	endCh   chan struct{}
	exitCh  chan struct{}
	mainG   *G

	nextJump int
	changes  []int
	lowPrio  uint64

	Hash       uint64
	Switches   int
	Preempts   int
	Jumps      int
	Spawned    int
	MaxRunq    int
	Ops        map[string]int
	TraceLog   []string
	mapDraws   int
	crashStack string
	firing     *Timer
	exits      byte // orders what a simulation did before what follows it
}

type condWait struct {
	g    *G
	cond func() bool
}

// active is the running simulation, nil outside one.
var active *Sim

// generation counts the simulations of this process.
var generation uint64

// Generation tells simulations apart: what is locked in one which was stopped
// does not stay locked in the next, as it would not in a new process.
func Generation() uint64 { return generation }

// Killing is true while what is left of a stopped simulation is cleared away.
func Killing() bool { return active == nil || active.killing }

func Active() *Sim { return active }

func InSim() bool { return active != nil }

// Run executes main as the first simulated goroutine and returns when main
// has returned, or when the simulation cannot continue.
func Run(cfg Config, main func()) (*Sim, Outcome) {
	if active != nil {
		panic("simrt: nested Run")
	}
	if cfg.StepCost <= 0 {
		cfg.StepCost = 1000
	}
	if cfg.NumCPU <= 0 {
		cfg.NumCPU = 4
	}
	s := &Sim{
		cfg:    cfg,
		gs:     make([]*G, 0, 64),
		runq:   make([]*G, 0, 64),
		endCh:  make(chan struct{}, 1),
		exitCh: make(chan struct{}, 1),
		Hash:   14695981039346656037,
		Ops:    map[string]int{},
	}
	s.nextJump = -1
	s.planJump()
	if cfg.Strategy.Kind == 3 && !cfg.Sched.Replaying {
		for i := 0; i < cfg.Strategy.Points; i++ {
			s.changes = append(s.changes, cfg.Sched.rng.Intn(cfg.Strategy.Span+1))
		}
		sort.Ints(s.changes)
	}
	s.lowPrio = 1 << 20
	active = s
	generation++
	s.mainG = s.newG("main", func() { main() })
	s.mainG.Harness = true
	s.mainG.state = gRunning
	s.cur = s.mainG
	s.mainG.hand()
	raceOff()
	<-s.endCh
	raceOn()
	s.killing = true
	for _, g := range s.gs {
		if g.state == gDead {
			continue
		}
		s.cur = g
		g.hand()
		raceOff()
		<-s.exitCh
		raceOn()
	}
	Acquire(&s.exits)
	active = nil
	return s, s.out
}

func (s *Sim) planJump() {
	if s.cfg.JumpEvery <= 0 {
		return
	}
	gap := 1 + s.cfg.Env.Intn(2*s.cfg.JumpEvery)
	s.nextJump = s.step + gap
}

func (s *Sim) newG(name string, f func()) *G {
	g := &G{ID: len(s.gs), Name: name, wake: make(chan struct{}, 1), lastRun: s.step}
	if s.cfg.Strategy.Kind == 3 && !s.cfg.Sched.Replaying {
		g.prio = (1 << 32) + s.cfg.Sched.rng.Next()%(1<<30)
	}
	if s.cur != nil {
		g.Harness = s.cur.Harness
	}
	s.gs = append(s.gs, g)
	s.live++
	s.Spawned++
	go s.body(g, f)
	return g
}

// hand gives g the processor.
func (g *G) hand() {
	raceOff()
	g.wake <- struct{}{}
	raceOn()
}

// await waits for the processor.
func (g *G) await() {
	raceOff()
	<-g.wake
	raceOn()
}

func (s *Sim) body(g *G, f func()) {
	g.await()
	defer func() {
		r := recover()
		ReleaseMerge(&s.exits)
		g.state = gDead
		s.live--
		if s.killing {
			raceOff()
			s.exitCh <- struct{}{}
			raceOn()
			return
		}
		if r != nil {
			s.crashStack = string(debug.Stack())
			s.end(Outcome{"crash", fmt.Sprintf("uncaught panic in goroutine %d (%s): %v", g.ID, g.Name, r)})
			return
		}
		if g == s.mainG {
			s.end(Outcome{"ok", ""})
			return
		}
		s.dispatch(nil)
	}()
	if s.killing {
		return
	}
	f()
}

func (s *Sim) CrashStack() string { return s.crashStack }

func (s *Sim) end(o Outcome) {
	if !s.ended {
		s.ended = true
		s.out = o
		raceOff()
		s.endCh <- struct{}{}
		raceOn()
	}
}

// Abort stops the whole run with the given outcome; the caller never returns.
func Abort(kind, detail string) {
	s := active
	s.end(Outcome{kind, detail})
	s.cur.await()
	runtime.Goexit()
}

func (s *Sim) mix(x uint64) {
	s.Hash = (s.Hash ^ x) * 1099511628211
}

// tick accounts one step: time passes, stalls happen, timers fire.
func (s *Sim) tick() {
	s.step++
	s.cur.Steps++
	s.now += s.cfg.StepCost
	if s.step == s.nextJump {
		k := s.cfg.Env.Intn(16)
		d := s.cfg.JumpMax >> uint(15-k)
		s.now += d
		s.Jumps++
		s.planJump()
	}
	if len(s.timers) > 0 && s.timers[0].when <= s.now {
		s.fireDue()
	}
	if len(s.conds) > 0 {
		s.pollConds()
	}
}

func (s *Sim) pollConds() {
	out := s.conds[:0]
	for _, c := range s.conds {
		if c.cond() {
			s.ready(c.g)
		} else {
			out = append(out, c)
		}
	}
	s.conds = out
}

func (s *Sim) checkLimits() {
	if s.ended {
		return
	}
	if s.cfg.MaxSteps > 0 && s.step > s.cfg.MaxSteps {
		s.end(Outcome{"steplimit", s.Dump()})
	} else if s.cfg.MaxTime > 0 && s.now > s.cfg.MaxTime {
		s.end(Outcome{"timelimit", s.Dump()})
	}
}

// Yield is a scheduling point.
func Yield(kind string) {
	s := active
	if s == nil {
		return
	}
	if s.killing {
		return
	}
	s.yield(kind, false)
}

// Gosched gives way to any other runnable goroutine.
func Gosched() {
	s := active
	if s == nil {
		runtime.Gosched()
		return
	}
	if s.killing {
		runtime.Goexit()
	}
	s.yield("gosched", true)
}

func (s *Sim) yield(kind string, sched bool) {
	g := s.cur
	s.tick()
	if !Race {
		s.Ops[kind]++
	}
	s.checkLimits()
	if s.ended {
		g.await()
		runtime.Goexit()
	}
	if s.cfg.Trace {
		s.trace(kind)
	}
	if len(s.runq) == 0 {
		return
	}
	next := s.pick(g, sched)
	if next == g {
		return
	}
	s.Preempts++
	g.state = gRunnable
	s.runq = append(s.runq, g)
	s.switchTo(next)
	s.park(g)
}

func (s *Sim) trace(kind string) {
	if len(s.TraceLog) < 200000 {
		s.TraceLog = append(s.TraceLog, fmt.Sprintf("%d t=%d g%d(%s) %s", s.step, s.now, s.cur.ID, s.cur.Name, kind))
	}
}

func (s *Sim) park(g *G) {
	g.await()
	if s.killing {
		runtime.Goexit()
	}
}

func (s *Sim) switchTo(next *G) {
	s.Switches++
	s.mix(uint64(next.ID)<<1 | 1)
	next.state = gRunning
	next.lastRun = s.step
	s.cur = next
	next.hand()
}

func (s *Sim) removeRunq(i int) *G {
	g := s.runq[i]
	for ; i < len(s.runq)-1; i++ {
		s.runq[i] = s.runq[i+1]
	}
	s.runq[len(s.runq)-1] = nil
	s.runq = s.runq[:len(s.runq)-1]
	return g
}

const fairness = 4000

// pick decides who runs next. self is nil when the caller blocked or died.
// Choice 0 means: carry on with the caller (or, when it gave way or blocked,
// the goroutine that has waited longest).
func (s *Sim) pick(self *G, sched bool) *G {
	n := len(s.runq)
	if n > s.MaxRunq {
		s.MaxRunq = n
	}
	if s.step&63 == 0 {
		for i, g := range s.runq {
			if s.step-g.lastRun > fairness {
				return s.removeRunq(i)
			}
		}
	}
	total := n
	if self != nil {
		total++
	}
	at := func(i int) *G {
		if self == nil {
			return s.runq[i]
		}
		if sched {
			if i == n {
				return self
			}
			return s.runq[i]
		}
		if i == 0 {
			return self
		}
		return s.runq[i-1]
	}
	idx := s.cfg.Sched.take(total, func(r *Rand) int {
		st := s.cfg.Strategy
		switch st.Kind {
		case 1:
			return r.Intn(total)
		case 2:
			if self != nil && !sched && r.Intn(100) < st.Stick {
				return 0
			}
			return r.Intn(total)
		case 3:
			for len(s.changes) > 0 && s.step >= s.changes[0] {
				s.changes = s.changes[1:]
				if self != nil {
					s.lowPrio--
					self.prio = s.lowPrio
				}
			}
			if sched && self != nil {
				s.lowPrio--
				self.prio = s.lowPrio
			}
			best := 0
			for i := 1; i < total; i++ {
				if at(i).prio > at(best).prio {
					best = i
				}
			}
			return best
		case 4:
			for try := 0; try < 4; try++ {
				k := r.Intn(total)
				if at(k).ID%5 != st.Victim || r.Intn(200) == 0 {
					return k
				}
			}
			return r.Intn(total)
		case 5:
			if self == nil || sched {
				return 0
			}
			return min(1, total-1)
		}
		if self != nil {
			return 0
		}
		return r.Intn(total)
	})
	if self == nil || sched {
		if self != nil && idx == n {
			return self
		}
		return s.removeRunq(idx)
	}
	if idx == 0 {
		return self
	}
	return s.removeRunq(idx - 1)
}

// dispatch hands the processor over; the caller is blocked or dead (self nil
// in both cases). It returns false when the run has ended.
func (s *Sim) dispatch(self *G) {
	for {
		if s.ended {
			return
		}
		if len(s.runq) > 0 {
			next := s.pick(nil, false)
			s.switchTo(next)
			return
		}
		if len(s.conds) > 0 {
			s.pollConds()
			if len(s.runq) > 0 {
				continue
			}
		}
		if len(s.timers) == 0 {
			s.end(Outcome{"deadlock", s.Dump()})
			return
		}
		if t := s.timers[0].when; t > s.now {
			s.now = t
		}
		s.step++
		s.fireDue()
		if len(s.conds) > 0 {
			s.pollConds()
		}
		s.checkLimits()
	}
}

// Park blocks the current goroutine until Ready is called on it.
func Park(reason string) {
	s := active
	if s == nil {
		panic("simrt: would block forever outside the simulation: " + reason)
	}
	if s.killing {
		runtime.Goexit()
	}
	g := s.cur
	g.state = gBlocked
	g.reason = reason
	s.mix(uint64(g.ID) << 1)
	if s.cfg.Trace {
		s.trace("park " + reason)
	}
	s.dispatch(g)
	s.park(g)
	g.reason = ""
}

// Ready makes a parked goroutine runnable.
func Ready(g *G) { active.ready(g) }

func (s *Sim) ready(g *G) {
	if g.state != gBlocked {
		return
	}
	g.state = gRunnable
	g.lastRun = s.step
	s.runq = append(s.runq, g)
}

// Current is the running simulated goroutine, nil outside a simulation.
func Current() *G {
	if active == nil {
		return nil
	}
	return active.cur
}

// Go starts a simulated goroutine.
func Go(f func()) { GoNamed("", f) }

func GoNamed(name string, f func()) {
	s := active
	if s == nil {
		panic("simrt: go statement outside the simulation")
	}
	if s.killing {
		return
	}
	if name == "" {
		if pc, _, _, ok := runtime.Caller(2); ok {
			name = runtime.FuncForPC(pc).Name()
			if i := strings.LastIndex(name, "/"); i >= 0 {
				name = name[i+1:]
			}
		}
	}
	g := s.newG(name, f)
	g.state = gRunnable
	s.runq = append(s.runq, g)
	s.yield("go", false)
}

// GoHarness starts a goroutine that belongs to the harness.
func GoHarness(name string, f func()) {
	s := active
	if s.killing {
		return
	}
	g := s.newG(name, f)
	g.Harness = true
	g.state = gRunnable
	s.runq = append(s.runq, g)
	s.yield("go", false)
}

// GoSystem starts a goroutine whose code is the code under test.
func GoSystem(name string, f func()) {
	s := active
	if s.killing {
		return
	}
	g := s.newG(name, f)
	g.Harness = false
	g.state = gRunnable
	s.runq = append(s.runq, g)
	s.yield("go", false)
}

// Until blocks until cond holds, or until d nanoseconds of simulated time have
// passed (d<=0: forever); it reports whether cond held. Harness use only.
func Until(d int64, cond func() bool) bool {
	s := active
	if s.killing {
		runtime.Goexit()
	}
	Yield("until")
	if cond() {
		return true
	}
	g := s.cur
	timedOut := false
	var t *Timer
	if d > 0 {
		t = s.addTimer(s.now+d, func() { timedOut = true })
	}
	s.conds = append(s.conds, &condWait{g, func() bool { return timedOut || cond() }})
	Park("until")
	if t != nil {
		s.delTimer(t)
	}
	return cond()
}

// Sleep blocks for d simulated nanoseconds.
func Sleep(d int64) {
	s := active
	if s == nil {
		return
	}
	Yield("sleep")
	if d <= 0 {
		return
	}
	if s.killing {
		runtime.Goexit()
	}
	g := s.cur
	s.addTimer(s.now+d, func() { s.ready(g) })
	Park("sleep")
}

func (s *Sim) Now() int64   { return s.now }
func (s *Sim) Step() int    { return s.step }
func (s *Sim) Epoch() int64 { return s.cfg.Epoch }

// NowNanos is the simulated clock.
func NowNanos() int64 {
	if active == nil {
		return 0
	}
	return active.now
}

func StepNo() int {
	if active == nil {
		return 0
	}
	return active.step
}

// Advance moves the clock (a stall or a slow call) without blocking.
func Advance(d int64) {
	s := active
	s.now += d
	if len(s.timers) > 0 && s.timers[0].when <= s.now {
		s.fireDue()
	}
}

func NumCPU() int {
	if active == nil {
		return 4
	}
	return active.cfg.NumCPU
}

// LiveSystem lists goroutines of the system under test that still exist.
func (s *Sim) LiveSystem() []string {
	var out []string
	for _, g := range s.gs {
		if g.state != gDead && !g.Harness {
			out = append(out, fmt.Sprintf("%s [%s]", g.Name, g.stateString()))
		}
	}
	return out
}

func (g *G) stateString() string {
	switch g.state {
	case gRunnable:
		return "runnable"
	case gRunning:
		return "running"
	case gBlocked:
		return g.reason
	}
	return "dead"
}

// Dump describes all live goroutines.
func (s *Sim) Dump() string {
	var b strings.Builder
	for _, g := range s.gs {
		if g.state != gDead {
			fmt.Fprintf(&b, "g%d %s: %s; ", g.ID, g.Name, g.stateString())
		}
	}
	return b.String()
}

func (s *Sim) Killing() bool { return s.killing }

// Fatal reports a condition that is a fatal runtime error in Go.
func Fatal(msg string) {
	s := active
	if s == nil || s.killing {
		return
	}
	Abort("crash", "fatal error: "+msg)
}

// NumGoroutine counts live goroutines.
func NumGoroutine() int {
	if active == nil {
		return runtime.NumGoroutine()
	}
	return active.live
}

// EnvDraw draws from the environment stream.
func (s *Sim) EnvDraw(n int) int { return s.cfg.Env.Intn(n) }
