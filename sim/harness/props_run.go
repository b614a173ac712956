package main

import (
	"errors"
	"fmt"

	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"

	"simrt"
	simctx "simstd/context"
)

func init() {
	register(&Prop{ID: "C02", Quick: 180000, Thorough: 9000000, Exec: c02,
		Rule: "at least four nodes are handled, with two workers or more"})
	register(&Prop{ID: "C03", Quick: 180000, Thorough: 9000000, Exec: c03,
		Rule: "more nodes than workers are handled"})
	register(&Prop{ID: "C04", Quick: 180000, Thorough: 9000000, Exec: c04,
		Rule: "at least three outputs are due, or the consumer fails to read"})
	register(&Prop{ID: "C05", Quick: 45000, Thorough: 3000000, Exec: c05,
		Rule: "the tree has more nodes than queue and workers can hold"})
	register(&Prop{ID: "C06", Quick: 300000, Thorough: 15000000, Exec: c06,
		Rule: "the context ends before navigation does, with nodes still to come"})
	register(&Prop{ID: "C20", Quick: 180000, Thorough: 9000000, Exec: c20,
		Rule: "at least one callback panics and one does not"})
}

// durations draws how long callbacks take.
func durations(r *Run, sp *Spec) {
	sp.MaxDur = []int64{0, 1e4, 1e6, 1e8, 3e9}[r.Scn.Weighted(2, 3, 3, 2, 2)]
	sp.DurSalt = fmt.Sprint(r.Scn.Intn(1000))
}

// checkAfter looks for anything that happens or remains after the session.
func checkAfter(s *Session, at int, left []string) *Fail {
	for _, v := range s.Visits {
		if v.Start > at {
			return failf("late", "the callback for %q begins after the session has ended", v.Rel)
		}
		if v.End == 0 || v.End > at {
			return failf("late", "the callback for %q has not completed when the session has ended", v.Rel)
		}
	}
	if len(left) > 0 {
		return failf("leak", "after the session these remain: %v", left)
	}
	return nil
}

// --- C02

func c02(r *Run) *Fail {
	r.strategy(true)
	w := r.world(worldOpt{File: 2, Max: 30, ReadFail: 15, InfoFail: 15, Rel: 20, Listing: 30, Wide: r.Scn.Chance(15), Partial: true})
	o := genOpts(r.Scn, Feat{Hooks: 12, Depth: 20, Filter: 30, Samp: 15, Hib: 15, Case: 10})
	o.hibSafe(w)
	genNoW(r.Scn, o)
	if r.Scn.Chance(20) {
		o.Out = &OutSpec{Size: uint(r.Scn.Intn(3)), Interval: 1e7, Timeout: 2e9, Consumer: "reads"}
	}
	spr := &Spec{W: w, O: o, Run: true, Reuse: 10, Composite: r.Scn.Weighted(5, 1, 1, 1)}
	durations(r, spr)
	if r.Scn.Chance(20) {
		r.SlowFS = []int64{1e5, 1e9}[r.Scn.Intn(2)]
	}
	first := r.Scn.Chance(50)
	r.note("options: %v", o)
	walk := r.session(&Spec{W: w, O: o})
	run := r.session(spr)
	var left []string
	out := r.sim(func() {
		if first {
			walk.run()
		}
		run.run()
		settle(20e9)
		left = simrt.Active().LiveSystem()
		if !first {
			walk.run()
		}
	})
	if f := ended(out, "run", r.Last); f != nil {
		return f
	}
	for _, s := range r.Sessions {
		if f := quiet(s); f != nil {
			return f
		}
	}
	m := newModel(w, o)
	r.NonTriv = len(walk.Visits) >= 4 && o.NoW > 1
	r.coverOpts(o, w)
	var want []Step
	for _, v := range walk.Visits {
		n := m.By[v.Rel]
		if n == nil {
			return failf("walk", "the walk visits %q, which is not expected at all", v.Rel)
		}
		want = append(want, Step{N: n})
	}
	if x := follow(m.steps(), walk.order()); x != "" {
		return failf("walk", "the walk itself is wrong: %s", x)
	}
	if x := sameSet(want, run.order()); x != "" {
		return failf("set", "%s", x)
	}
	for _, v := range run.Visits {
		if x := m.facts(v); x != "" {
			return failf("facts:"+factName(x), "%s", x)
		}
	}
	if !run.Waited {
		return failf("hang", "the wait group is never released")
	}
	return checkAfter(run, run.WaitEnd, left)
}

// --- C03

// barrier makes callbacks wait for each other in groups of n.
type barrier struct {
	n, total int
	started  int
	stuck    string
	max      int
}

func (b *barrier) enter(v *Visit) {
	k := b.started
	b.started++
	g := k / b.n
	need := (g + 1) * b.n
	if need > b.total {
		return
	}
	if !simrt.Until(300e9, func() bool { return b.started >= need || b.stuck != "" }) && b.stuck == "" {
		b.stuck = fmt.Sprintf("callbacks %d.. of %d wait for %d of themselves, but only %d can be in progress", g*b.n, b.total, b.n, b.started-g*b.n)
	}
}

func c03(r *Run) *Fail {
	r.NumCPU = 1 + r.Scn.Intn(8)
	r.strategy(true)
	w := r.world(worldOpt{File: 2, Max: 30, Listing: 30, ReadFail: 10, Wide: r.Scn.Chance(30)})
	o := genOpts(r.Scn, Feat{Hooks: 12, Depth: 15, Filter: 20, Samp: 10, Case: 10})
	genNoW(r.Scn, o)
	sp := &Spec{W: w, O: o, Run: true, Reuse: 10}
	durations(r, sp)
	now := int(o.NoW)
	how := r.Scn.Weighted(5, 2, 1)
	switch how {
	case 1: // as many workers as processors, asked for
		now, o.NoW = r.NumCPU, 0
		sp.Extra = append(sp.Extra, pref.WithCPU())
	case 2: // the default
		now, o.NoW = r.NumCPU, 0
	}
	m := newModel(w, o)
	want := m.steps()
	var b *barrier
	if r.Scn.Chance(60) {
		b = &barrier{n: now, total: len(want)}
		for _, st := range want {
			if st.Opt {
				b = nil
				break
			}
		}
	}
	if b != nil {
		sp.ActFn = func(v *Visit) (Act, bool) { b.enter(v); return Act{}, false }
	}
	r.note("options: %v workers=%d cpus=%d barrier=%v", o, now, r.NumCPU, b != nil)
	s := r.session(sp)
	out := r.sim(func() { s.run() })
	if b != nil && b.stuck != "" {
		return failf("starved", "with %d workers, %s", now, b.stuck)
	}
	if f := ended(out, "run", r.Last); f != nil {
		return f
	}
	if f := quiet(s); f != nil {
		return f
	}
	r.NonTriv = len(s.Visits) > now
	r.Cover[fmt.Sprintf("workers:%d", now)]++
	if s.MaxLive > now {
		return failf("bound", "%d callbacks are in progress at once with %d workers", s.MaxLive, now)
	}
	if x := sameSet(want, s.order()); x != "" {
		return failf("set", "%s", x)
	}
	if now == 1 {
		if x := follow(want, s.order()); x != "" {
			return failf("order", "with one worker: %s", x)
		}
	}
	return nil
}

// --- C04

func c04(r *Run) *Fail {
	r.strategy(true)
	w := r.world(worldOpt{File: 2, Max: 24, Listing: 20, ReadFail: 10, InfoFail: 10, Rel: 15})
	o := genOpts(r.Scn, Feat{Hooks: 12, Depth: 15, Filter: 20, Samp: 10})
	genNoW(r.Scn, o)
	m := newModel(w, o)
	want := m.steps()
	strict := r.Scn.Chance(60)
	out := &OutSpec{Size: uint(r.Scn.Intn(5)), Interval: []int64{0, 1e6, 1e8, 1e9}[r.Scn.Intn(4)], Timeout: []int64{2e8, 1e9, 5e9}[r.Scn.Intn(3)], Consumer: "reads"}
	sp := &Spec{W: w, O: o, Run: true, Reuse: 10, Acts: map[string]Act{}}
	durations(r, sp)
	if strict {
		r.NoJump = true
		if r.Scn.Chance(50) {
			// slow, but well within what the senders wait for: with NoW senders
			// queueing, each waits for that many readings
			out.Consumer = "slow"
			out.Slow = out.Timeout / int64(4*(o.NoW+2))
		}
	} else {
		switch r.Scn.Intn(4) {
		case 0:
			out.Consumer = "never"
		case 1:
			out.Consumer = "stops"
			out.StopAt = r.Scn.Intn(6)
		case 2:
			out.Consumer = "pause"
			out.StopAt = r.Scn.Intn(6)
			out.Slow = 3 * out.Timeout
		case 3:
			out.Consumer = "slow"
			out.Slow = out.Timeout * 2
			out.Timeout = 2e8
		}
		r.Faults["consumer:"+out.Consumer]++
	}
	o.Out = out
	if r.Scn.Chance(50) {
		for _, st := range want {
			if r.Flt.Chance(25) {
				k := []string{"err", "skipdir", "skipall"}[r.Flt.Weighted(5, 1, 1)]
				sp.Acts[st.N.Rel] = Act{Kind: k}
				r.Faults["client-error"]++
			}
		}
	}
	r.note("options: %v strict=%v acts=%v", o, strict, sp.Acts)
	s := r.session(sp)
	var left []string
	oc := r.sim(func() {
		s.run()
		if strict {
			simrt.Until(60e9, func() bool { return s.OutClosed })
		} else {
			settle(20e9)
		}
		left = simrt.Active().LiveSystem()
	})
	if f := ended(oc, "run with output", r.Last); f != nil {
		return f
	}
	if f := quiet(s); f != nil {
		return f
	}
	r.NonTriv = len(want) >= 3 || !strict
	r.Cover["consumer:"+out.Consumer]++
	if x := sameSet(want, s.order()); x != "" {
		return failf("set", "%s; consumer %s", x, out.Consumer)
	}
	if !s.OutOpen {
		return failf("open", "the output channel is never handed to the client")
	}
	by := map[string]*Visit{}
	for _, v := range s.Visits {
		by[v.Rel] = v
		if v.End == 0 || v.End > s.WaitEnd {
			return failf("late", "the callback for %q has not completed when waiting ends", v.Rel)
		}
	}
	got := map[string]int{}
	for i, x := range s.Outs {
		if x.Nil {
			return failf("output", "output %d carries no node", i)
		}
		v := by[x.Rel]
		if v == nil {
			return failf("output", "output for %q, which was not handled", x.Rel)
		}
		if got[x.Rel]++; got[x.Rel] > 1 {
			return failf("output", "%d outputs for %q", got[x.Rel], x.Rel)
		}
		if x.Err != v.Ret || x.JobErr != v.Ret {
			return failf("outcome", "the output for %q carries %v (%v), its callback returned %v", x.Rel, x.Err, x.JobErr, v.Ret)
		}
		if x.Step < v.End {
			return failf("output", "the output for %q arrives before its callback completed", x.Rel)
		}
	}
	if len(left) > 0 {
		return failf("leak", "after the run these remain: %v", left)
	}
	if !strict {
		return nil
	}
	for _, v := range s.Visits {
		if got[v.Rel] == 0 {
			return failf("lost", "no output for %q although the consumer keeps reading (%d of %d arrive)", v.Rel, len(s.Outs), len(s.Visits))
		}
	}
	if !s.OutClosed {
		return failf("close", "the output channel is never closed")
	}
	return nil
}

// --- C05

func c05(r *Run) *Fail {
	r.strategy(true)
	w := r.world(worldOpt{File: 2, Max: 30 + r.Scn.Intn(60), Listing: 10, Wide: r.Scn.Chance(70), DirPct: []int{0, 20, 80}[r.Scn.Intn(3)]})
	o := genOpts(r.Scn, Feat{Hooks: 12, Case: 5})
	genNoW(r.Scn, o)
	if r.Scn.Chance(25) {
		o.Out = &OutSpec{Size: uint(r.Scn.Intn(3)), Interval: 1e8, Timeout: 1e9, Consumer: "reads"}
	}
	sp := &Spec{W: w, O: o, Run: true, Reuse: 10}
	block := r.Scn.Chance(40)
	late := !block && r.Scn.Chance(20)
	release := false
	rest := -1 // as long as nobody has looked
	if block { // nothing completes until the traversal has come to rest
		r.NoJump = true
		sp.ActFn = func(*Visit) (Act, bool) {
			simrt.Until(120e9, func() bool { return release })
			return Act{}, true
		}
	} else if late { // nobody looks at the outputs, until the traversal has come to rest
		r.NoJump = true
		o.Out = &OutSpec{Size: uint(r.Scn.Intn(6)), Interval: 1e8, Timeout: 24 * 3600e9, Consumer: "pause", Slow: 120e9}
	} else {
		sp.ActFn = func(v *Visit) (Act, bool) {
			return Act{Dur: 1e9 + int64(hash("c05", v.Rel)%uint64(9e9))}, true
		}
	}
	r.note("options: %v block=%v", o, block)
	s := r.session(sp)
	out := r.sim(func() {
		if block || late {
			simrt.GoHarness("releaser", func() {
				simrt.Sleep(60e9)
				rest, release = s.Discovered, true
				if late {
					rest = len(s.Visits)
				}
			})
		}
		s.run()
	})
	if f := ended(out, "run", r.Last); f != nil {
		return f
	}
	if f := quiet(s); f != nil {
		return f
	}
	in := o.InSize
	if in == 0 {
		in = o.NoW // the documented default
	}
	bound := int(in+o.NoW) + 4
	want := newModel(w, o).steps()
	r.NonTriv = len(want) > bound+int(o.NoW)
	r.Cover[fmt.Sprintf("in:%d now:%d", in, o.NoW)]++
	if late && rest >= 0 && sp.Preview == 0 {
		size := int(o.Out.Size)
		if size == 0 {
			size = int(o.NoW) // the documented default
		}
		if due := min(len(want), size+int(o.NoW)); rest < due || rest > due+4 {
			return failf("outputs", "%d nodes are handled before anybody looks at the outputs, with a queue of %d for those and %d workers (%d nodes in all)", rest, size, o.NoW, len(want))
		}
		r.Cover["late"]++
	}
	if due := min(len(want), int(in+o.NoW)); block && rest >= 0 && sp.Preview == 0 && rest < due {
		return failf("idle-queue", "the traversal comes to rest after %d nodes, with a queue of %d and %d workers (%d nodes in all)", rest, in, o.NoW, len(want))
	}
	if s.MaxAhead > bound {
		return failf("unbounded", "the traversal is %d nodes ahead of the callbacks, with a queue of %d and %d workers (%d nodes in all)", s.MaxAhead, in, o.NoW, len(want))
	}
	if x := sameSet(want, s.order()); x != "" {
		return failf("set", "%s", x)
	}
	return nil
}

// --- C06

func c06(r *Run) *Fail {
	conc := r.Scn.Chance(65)
	r.strategy(conc)
	r.NoJump = r.Scn.Chance(50)
	w := r.world(worldOpt{File: 2, Max: 36, Listing: 15, ReadFail: 15, InfoFail: 10, Rel: 15, Wide: r.Scn.Chance(20)})
	o := genOpts(r.Scn, Feat{Hooks: 12, Depth: 15, Filter: 20, Samp: 10, Hib: 10})
	o.hibSafe(w)
	sp := &Spec{W: w, O: o, Run: conc, Reuse: 10}
	durations(r, sp)
	if conc {
		genNoW(r.Scn, o)
		if r.Scn.Chance(50) {
			o.Out = &OutSpec{Size: uint(r.Scn.Intn(4)), Interval: []int64{0, 1e7, 1e9}[r.Scn.Intn(3)], Timeout: []int64{0, 1e8, 1e10}[r.Scn.Intn(3)],
				Consumer: []string{"reads", "never", "stops", "slow"}[r.Scn.Intn(4)], StopAt: r.Scn.Intn(5), Slow: 5e8}
		}
	}
	if r.Scn.Chance(25) {
		r.SlowFS = []int64{1e6, 1e9}[r.Scn.Intn(2)]
	}
	m := newModel(w, o)
	want := m.steps()
	n := len(want)
	span := sp.MaxDur*int64(n+1) + r.SlowFS*int64(2*len(m.All)) + int64(len(m.All))*40*r.cfg.StepCost
	switch r.Scn.Weighted(1, 4, 3, 2) {
	case 0:
		sp.Cancel = Cancel{Kind: "before"}
	case 1:
		sp.Cancel = Cancel{Kind: "visit", N: r.Flt.Intn(n + 1)}
	case 2:
		sp.Cancel = Cancel{Kind: "time", At: int64(r.Flt.Intn(1000)) * span / 1000}
	case 3:
		sp.Cancel = Cancel{Kind: "deadline", At: 1 + int64(r.Flt.Intn(1000))*span/1000}
	}
	r.note("options: %v cancel=%+v", o, sp.Cancel)
	s := r.session(sp)
	var left []string
	out := r.sim(func() {
		s.run()
		settle(30e9)
		left = simrt.Active().LiveSystem()
	})
	if f := ended(out, "cancelled traversal", r.Last); f != nil {
		return f
	}
	if s.Escaped != nil {
		return quiet(s)
	}
	r.Cover[fmt.Sprintf("%s run=%v", sp.Cancel.Kind, conc)]++
	r.Faults["cancel:"+sp.Cancel.Kind]++
	due := s.T0 + sp.Cancel.At // for a deadline
	deadline := sp.Cancel.Kind == "deadline"
	inTime := s.Cancelled && s.CancelStep < s.NavEnd // ended before navigation did
	if deadline {
		inTime = s.Cancelled && due < s.T1
	}
	ctxErr := simctx.Canceled
	if deadline {
		ctxErr = simctx.DeadlineExceeded
	}
	if s.Err != nil && !(s.Cancelled && errors.Is(s.Err, ctxErr)) {
		return failf("error", "navigation returns %q", s.Err)
	}
	discovered := 0
	for _, x := range m.All {
		if x.Selected && !x.Opt {
			discovered++
		}
	}
	if inTime && s.Err == nil {
		// it must have been through everything already
		if !conc && len(s.Visits) < need(want) {
			return failf("error", "navigation returns no error although its context ended and %d of %d nodes were visited", len(s.Visits), n)
		}
		if conc && o.Hib == nil && s.Discovered < discovered {
			return failf("error", "navigation returns no error although its context ended and %d of %d nodes were found", s.Discovered, discovered)
		}
	}
	// how many more
	after := 0
	for _, v := range s.Visits {
		if v.Over {
			after++
		}
	}
	bound := 2
	if conc {
		in := o.InSize
		if in == 0 {
			in = o.NoW
		}
		bound = int(o.NoW+in) + 4
	}
	before := len(s.Visits) - after
	r.NonTriv = inTime && before < n
	// those which are queued by then aren't handled any more
	if few := min(bound, int(o.NoW)+2); conc && after > few || after > bound {
		return failf("continues", "%d more nodes are visited after the context ended", after)
	}
	if inTime && conc && s.Discovered > s.CancelVisits+3*bound && !deadline {
		// found by descend events counted since
		d := 0
		for i := range s.Events {
			if e := &s.Events[i]; e.Kind == "descend" && e.Step > s.CancelStep {
				d++
			}
		}
		if d > 2*bound {
			return failf("continues", "the traversal descends into %d more nodes after the context ended", d)
		}
	}
	if f := lifecycle(s); f != nil {
		return f
	}
	if conc && !s.Waited {
		return failf("hang", "the wait group is never released")
	}
	at := s.NavEnd
	if conc {
		at = s.WaitEnd
	}
	if f := checkAfter(s, at, left); f != nil {
		return f
	}
	// promptness, where nothing else stalls
	if r.NoJump && inTime && !deadline {
		slack := int64(5e9) + 20*r.SlowFS + 2000*r.cfg.StepCost
		if t := s.T1 - s.CancelT; t > slack+sp.MaxDur {
			return failf("slow", "navigation returns %s after the cancellation", dur(t))
		}
		if conc {
			if e := s.find("waited"); e != nil {
				lim := slack + 2*sp.MaxDur
				if t := e.T - s.CancelT; t > lim {
					return failf("slow", "the wait group is released %s after the cancellation", dur(t))
				}
			}
		}
	}
	return nil
}

func need(want []Step) int {
	n := 0
	for _, w := range want {
		if !w.Opt {
			n++
		}
	}
	return n
}

// --- C20

func c20(r *Run) *Fail {
	r.strategy(true)
	w := r.world(worldOpt{File: 2, Max: 30, Listing: 20, ReadFail: 10, Wide: r.Scn.Chance(20)})
	o := genOpts(r.Scn, Feat{Hooks: 12, Depth: 15, Filter: 20, Samp: 10})
	genNoW(r.Scn, o)
	strict := false
	if r.Scn.Chance(60) {
		o.Out = &OutSpec{Size: uint(r.Scn.Intn(4)), Interval: []int64{0, 1e7, 1e9}[r.Scn.Intn(3)], Timeout: 2e9, Consumer: "reads"}
		if strict = r.Scn.Chance(70); strict {
			r.NoJump = true
		} else {
			o.Out.Consumer = []string{"reads", "never", "stops"}[r.Scn.Intn(3)]
			o.Out.StopAt = r.Scn.Intn(4)
		}
	}
	m := newModel(w, o)
	want := m.steps()
	sp := &Spec{W: w, O: o, Run: true, Reuse: 10, Acts: map[string]Act{}}
	durations(r, sp)
	pct := []int{10, 40, 100}[r.Flt.Weighted(3, 3, 1)]
	bad := 0
	for _, st := range want {
		if r.Flt.Chance(pct) {
			sp.Acts[st.N.Rel] = Act{Kind: panics[r.Flt.Intn(len(panics))]}
			r.Faults["client-panic"]++
			bad++
		}
	}
	var b *barrier
	if r.Scn.Chance(40) && need(want) == len(want) {
		b = &barrier{n: int(o.NoW), total: len(want)}
		sp.ActFn = func(v *Visit) (Act, bool) { b.enter(v); return Act{}, false }
	}
	r.note("options: %v acts=%v barrier=%v", o, sp.Acts, b != nil)
	s := r.session(sp)
	var left []string
	out := r.sim(func() {
		s.run()
		if o.Out != nil && o.Out.Consumer == "reads" {
			simrt.Until(60e9, func() bool { return s.OutClosed })
		} else {
			settle(20e9)
		}
		left = simrt.Active().LiveSystem()
	})
	if b != nil && b.stuck != "" {
		return failf("starved", "with %d workers, %s", o.NoW, b.stuck)
	}
	if f := ended(out, "run with panicking callbacks", r.Last); f != nil {
		return f
	}
	if f := quiet(s); f != nil {
		return f
	}
	r.NonTriv = bad > 0 && bad < len(want)
	if x := sameSet(want, s.order()); x != "" {
		return failf("set", "%s", x)
	}
	if s.MaxLive > int(o.NoW) {
		return failf("bound", "%d callbacks are in progress at once with %d workers", s.MaxLive, o.NoW)
	}
	if !s.Waited {
		return failf("hang", "the wait group is never released")
	}
	if f := checkAfter(s, s.WaitEnd, left); f != nil {
		return f
	}
	if o.Out != nil && o.Out.Consumer == "reads" && !s.OutClosed {
		return failf("close", "the output channel is never closed")
	}
	got := map[string]int{}
	for i, x := range s.Outs {
		if x.Nil {
			return failf("output", "output %d carries no node", i)
		}
		got[x.Rel]++
		for _, v := range s.Visits {
			if v.Rel != x.Rel {
				continue
			}
			if v.Panicked && (x.Err == nil || x.JobErr == nil) {
				return failf("outcome", "the output for %q, whose callback panicked, carries no error", x.Rel)
			}
			if !v.Panicked && (x.Err != v.Ret || x.JobErr != v.Ret) {
				return failf("outcome", "the output for %q carries %v (%v), its callback returned %v", x.Rel, x.Err, x.JobErr, v.Ret)
			}
		}
	}
	if strict {
		for _, v := range s.Visits {
			k := got[v.Rel]
			if k > 1 || !v.Panicked && k != 1 {
				return failf("output", "%d outputs for %q, whose callback completed", k, v.Rel)
			}
		}
	}
	return nil
}

var _ = enums.SubscribeFiles
