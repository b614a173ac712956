package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"simrt"
	"simstd/vos"
)

// Fail is a violation found in one run.
type Fail struct {
	Sig string // class, stable under minimisation
	Msg string
}

func failf(sig, f string, a ...any) *Fail { return &Fail{sig, fmt.Sprintf(f, a...)} }

// Prop is one property's machinery.
type Prop struct {
	ID                      string
	Quick                   int // runs in the quick tier
	Thorough                int
	Rule                    string // when a run counts as non-trivial
	Exec                    func(r *Run) *Fail
	RaceOnly                bool     // only what the race detector reports counts
	RaceQuick, RaceThorough int      // runs with the race detector
	Needs                   []string // fault kinds which must have been injected at least once
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Run is one simulated run: one seed.
type Run struct {
	Prop                      *Prop
	Seed                      uint64
	Scn, Flt                  *simrt.Stream // scenario, faults
	Env, Sch                  *simrt.Stream // timing, schedule
	FS                        *vos.FS
	World                     []*World
	Inject                    func(op, name string, n int) (vos.Verdict, bool) // scenario specific faults
	SlowFS                    int64
	Sessions                  []*Session
	Desc                      []string
	Faults                    map[string]int
	Cover                     map[string]int
	NonTriv                   bool
	Steps                     int
	Time                      int64
	Hash                      uint64
	Switches, Preempts, Jumps int
	Strat                     simrt.Strategy
	MaxTime                   int64
	NoJump                    bool
	NumCPU                    int
	Trace                     bool
	TraceLog                  []string
	Ops                       map[string]int
	Last                      *simrt.Sim
	sims                      int
	hit                       vos.Tally // faults of the simulation in progress
	cfg                       *simrt.Config
	renew                     bool // every simulation is a new process
	befores                   int
	before                    *Spec // what the process did before
}

func newRun(p *Prop, seed uint64, scn, flt, env, sch *simrt.Stream) *Run {
	r := &Run{
		Prop: p, Seed: seed, Scn: scn, Flt: flt, Env: env, Sch: sch, FS: vos.New(),
		Faults: map[string]int{}, Cover: map[string]int{}, MaxTime: 4 * 3600e9, NumCPU: 4, Ops: map[string]int{},
	}
	simrt.ResetProcess()
	r.FS.Put("/work", true, nil)
	r.FS.Put("/home/user", true, nil)
	r.FS.Put("/data", true, nil)
	r.FS.Hook = r.hook
	return r
}

func (r *Run) note(f string, a ...any) { r.Desc = append(r.Desc, fmt.Sprintf(f, a...)) }

func (r *Run) hook(op, name string, n int) vos.Verdict {
	if r.SlowFS > 0 {
		simrt.Advance(int64(hash(op, name, fmt.Sprint(r.FS.Ops.Of(op))) % uint64(r.SlowFS)))
	}
	if r.Inject != nil {
		if v, ok := r.Inject(op, name, n); ok {
			if v.Err != nil || v.Kill || v.Short != 0 {
				r.hit.Add("disk:" + op)
			}
			return v
		}
	}
	for _, w := range r.World {
		if v, ok := w.verdict(op, name); ok {
			if v.Err != nil {
				r.hit.Add("disk:" + op)
			}
			return v
		}
	}
	return vos.Verdict{}
}

// strategy draws how this run is scheduled and timed.
func (r *Run) strategy(concurrent bool) {
	s := r.Scn
	st := simrt.Strategy{}
	if concurrent {
		st.Kind = s.Weighted(1, 4, 3, 4, 2, 1)
		switch st.Kind {
		case 2:
			st.Stick = 50 + 10*s.Intn(5)
		case 3:
			st.Points = 1 + s.Intn(6)
			st.Span = []int{300, 1000, 4000}[s.Intn(3)]
		case 4:
			st.Victim = 1 + s.Intn(8)
		}
	} else {
		st.Kind = s.Weighted(3, 1)
	}
	r.Strat = st
	cfg := simrt.Config{StepCost: 1000, MaxSteps: 2000000, Epoch: 1700000000e9, NumCPU: r.NumCPU, MapRandom: true}
	cfg.Epoch += int64(s.Intn(1000)) * 777777777
	if s.Chance(20) {
		cfg.StepCost = []int64{1, 100000}[s.Intn(2)]
	}
	if s.Chance(25) {
		cfg.JumpEvery = []int{100, 30, 500}[s.Intn(3)]
		cfg.JumpMax = []int64{1e7, 1e9, 1e10}[s.Intn(3)]
	}
	r.cfg = &cfg
	r.renew = s.Chance(60)
	if s.Chance(12) {
		r.before = r.earlier()
	}
}

// earlier draws a session which the process performed before, over something
// else, and which nobody looks at.
func (r *Run) earlier() *Spec {
	s := r.Scn
	t := genTree(s, TreeOpt{Max: 10, Small: true})
	r.befores++
	base := fmt.Sprintf("/earlier%d/root", r.befores)
	w := &World{Tree: t, Base: base, Arg: base, ReadFail: map[string]int{}, InfoFail: map[string]bool{}}
	o := genOpts(s, Feat{Depth: 30, Filter: 60, Samp: 20, Hib: 25, Case: 30})
	sp := &Spec{Label: "earlier", W: w, O: o, Run: s.Chance(40)}
	if sp.Run {
		genNoW(s, o)
	}
	if s.Chance(20) {
		sp.Cancel = Cancel{Kind: "visit", N: s.Intn(5)}
	}
	r.note("the process has performed another session before: run=%v %v", sp.Run, o)
	r.Faults["earlier-session"]++
	return sp
}

// sim runs main under the simulator; several calls continue on the same disk.
func (r *Run) sim(main func()) simrt.Outcome {
	if r.cfg == nil {
		r.strategy(false)
	}
	cfg := *r.cfg
	cfg.Sched, cfg.Env, cfg.Strategy = r.Sch, r.Env, r.Strat
	cfg.MaxTime = r.MaxTime
	cfg.NumCPU = r.NumCPU
	cfg.Trace = r.Trace
	if r.NoJump {
		cfg.JumpEvery = 0
	}
	cfg.Epoch += r.Time
	if r.sims > 0 && r.renew {
		simrt.ResetProcess()
	}
	vos.Cur = r.FS
	if sp := r.before; sp != nil {
		r.before = nil
		hook, order := r.FS.Hook, r.FS.Order
		r.FS.Hook, r.FS.Order = nil, nil
		sp.W.mount(r.FS)
		pre := cfg
		pre.Trace = false
		pre.MaxTime = 600e9
		simrt.Run(pre, func() {
			newSession(sp).run()
			settle(5e9)
		})
		r.FS.Hook, r.FS.Order = hook, order
	}
	r.FS.Dead = false
	sim, out := simrt.Run(cfg, main)
	vos.Cur = nil
	r.Last = sim
	r.sims++
	r.Steps += sim.Step()
	r.Time += sim.Now()
	r.Hash = r.Hash*1099511628211 ^ sim.Hash
	r.Switches += sim.Switches
	r.Preempts += sim.Preempts
	r.Jumps += sim.Jumps
	if sim.Jumps > 0 {
		r.Faults["stall"] += sim.Jumps
	}
	r.hit.Each(func(k string, n int) { r.Faults[k] += n })
	r.hit = vos.Tally{}
	for k, n := range sim.Ops {
		r.Ops[k] += n
	}
	if r.Trace {
		r.TraceLog = append(r.TraceLog, sim.TraceLog...)
	}
	return out
}

func (r *Run) session(sp *Spec) *Session {
	if sp.Composite == 0 && sp.Wrong == 0 {
		sp.Composite = r.Scn.Weighted(12, 1, 1, 1)
	}
	if sp.Reuse > 0 && sp.From == "" && r.Scn.Chance(sp.Reuse) {
		sp.Preview = 1 + r.Scn.Intn(3)
		r.note("options are reused (%d)", sp.Preview)
	}
	s := newSession(sp)
	if sp.Composite == 0 {
		s.bring(r.Scn.Weighted(9, 1, 1, 1))
	}
	if sp.Cancel.Kind == "" && r.Scn.Chance(10) {
		s.linger = []int64{1e3, 1e6, 3e9}[r.Scn.Intn(3)]
	}
	r.Sessions = append(r.Sessions, s)
	return s
}

func (r *Run) mount(w *World) {
	r.World = append(r.World, w)
	w.mount(r.FS)
}

// settle gives anything still going time to act.
func settle(d int64) { simrt.Sleep(d) }

// ended turns an outcome into a failure when main could not complete.
func ended(out simrt.Outcome, what string, sim *simrt.Sim) *Fail {
	switch out.Kind {
	case "ok":
		return nil
	case "crash":
		return failf("crash", "%s: the process crashes: %s", what, out.Detail)
	}
	return failf("hang", "%s: no progress (%s): %s", what, out.Kind, out.Detail)
}

type worldOpt struct {
	Max      int
	ReadFail int // percent of worlds
	InfoFail int
	Rel      int
	Listing  int
	DSStore  bool
	Wide     bool
	DirPct   int
	Partial  bool
	Base     string
	NotRoot  bool // the root itself stays readable
	Plain    bool // plain root name
	Bytes    bool // names may hold bytes which are not text
	File     int  // percent of worlds whose tree is a single file
}

var rootNames = []string{"root", "mûsik", "日本 x", "d", "r.o"}

// world draws a world; it is mounted.
func (r *Run) world(o worldOpt) *World {
	s := r.Scn
	if o.Max == 0 {
		o.Max = 24
	}
	t := genTree(s, TreeOpt{Max: o.Max, DSStore: o.DSStore, Wide: o.Wide, DirPct: o.DirPct, Bytes: o.Bytes && s.Chance(15)})
	if t.Vast {
		r.Cover["vast tree"]++
	}
	w := &World{Tree: t, ReadFail: map[string]int{}, InfoFail: map[string]bool{}}
	name := rootNames[0]
	if !o.Plain {
		name = rootNames[s.Weighted(6, 1, 1, 1, 1)]
		if s.Chance(4) {
			name = oddNames[s.Intn(len(oddNames))]
		}
	}
	if o.File > 0 && s.Chance(o.File) {
		t.single(s.Intn(5000))
		if !o.Plain && s.Chance(60) {
			name = pickName(s, fileNames)
		}
	}
	t.Root.Name = name
	base := o.Base
	if base == "" {
		base = "/data"
	}
	w.Base = base + "/" + name
	w.Arg = w.Base
	if s.Chance(o.Rel) {
		w.Rel = true
		w.FSRoot = base
		w.Arg = name
		if s.Chance(30) {
			w.FSRoot = "/"
			w.Arg = strings.TrimPrefix(w.Base, "/")
		} else if s.Chance(15) && t.Root.Dir {
			w.FSRoot = w.Base
			w.Arg = "."
		}
	}
	w.Spelt = w.Arg
	if s.Chance(10) {
		if k := s.Intn(5); t.Root.Dir || k == 3 {
			w.Spelt = w.spell(k)
		}
	}
	w.Linked = s.Chance(6) && t.Root.Dir
	if s.Chance(o.Listing) {
		w.Listing = fmt.Sprint("l", s.Intn(1000))
	}
	if r.Flt.Chance(o.ReadFail) {
		for _, n := range t.All {
			if n.Dir && !(o.NotRoot && n.Rel == "") && r.Flt.Chance(25) {
				k := 0
				if o.Partial && r.Flt.Chance(30) {
					k = r.Flt.Intn(len(n.Kids) + 1)
				}
				w.ReadFail[n.Rel] = k
			}
		}
	}
	if r.Flt.Chance(o.InfoFail) {
		for _, n := range t.All {
			if n.Rel != "" && r.Flt.Chance(15) {
				w.InfoFail[n.Rel] = true
			}
		}
	}
	r.mount(w)
	r.note("world %s: %v", w.Base, w)
	return w
}

// spell is the tree specified by a path which isn't clean, as users do.
func (w *World) spell(k int) string {
	a := w.Arg
	switch k {
	case 0:
		return a + "/"
	case 1:
		return a + "/."
	case 2:
		return a + "//"
	case 3:
		if i := strings.LastIndex(a, "/"); i >= 0 {
			return a[:i] + "/./" + a[i:]
		}
		return "./" + a
	}
	if a == "." {
		return "x/.."
	}
	return a + "/../" + path.Base(a)
}

func sortedKeys(m map[string]int) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// quiet reports failures common to healthy sequential sessions.
func quiet(s *Session) *Fail {
	if s.Escaped != nil {
		return failf("panic-escapes", "navigation panics: %v [%s]", s.Escaped, s.EscStack)
	}
	if s.Err != nil {
		return failf("error", "navigation returns %q", s.Err)
	}
	return nil
}
