package main

import (
	"errors"
	"fmt"
	"io/fs"

	"github.com/snivilised/agenor/enums"

	"simrt"
)

func init() {
	register(&Prop{ID: "C15", Quick: 300000, Thorough: 15000000, Exec: c15,
		Rule: "navigation ends in another way than having visited everything, or it is a concurrent run"})
	register(&Prop{ID: "C16", Quick: 300000, Thorough: 15000000, Exec: c16,
		Rule: "something is withheld, or navigation ends early, or it is a concurrent run"})
	register(&Prop{ID: "C17", Quick: 300000, Thorough: 15000000, Exec: c17,
		Rule: "the window leaves out at least one node"})
}

// finish draws a way in which navigation comes to its end.
func (r *Run) finish(sp *Spec, m *Model) string {
	want := sp.due(m)
	sp.Acts = map[string]Act{}
	k := r.Scn.Weighted(3, 3, 3, 3, 4, 3, 3, 2, 2)
	if sp.Run {
		k = []int{0, 0, 9, 10, 4, 5, 6, 7, 8}[k]
	}
	put := func(kind string) string {
		n := pickStep(r.Scn, want)
		if n == nil {
			return "normal"
		}
		sp.Acts[n.Rel] = Act{Kind: kind}
		return fmt.Sprintf("%s at %q", kind, n.Rel)
	}
	switch k {
	case 1:
		r.Faults["client-error"]++
		return put("err")
	case 2:
		x := put("skipdir")
		for i := r.Scn.Intn(3); i > 0; i-- {
			x += ", " + put("skipdir")
		}
		return x
	case 3:
		return put("skipall")
	case 4:
		if sp.Run {
			x := "panics"
			for _, st := range want {
				if r.Flt.Chance(30) {
					sp.Acts[st.N.Rel] = Act{Kind: panics[r.Flt.Intn(len(panics))]}
					r.Faults["client-panic"]++
				}
			}
			return x
		}
		r.Faults["client-panic"]++
		x := put(panics[r.Flt.Intn(len(panics))])
		if r.Flt.Chance(40) {
			op := []string{"mkdir", "mkdirall", "open", "create", "write", "writefile"}[r.Flt.Intn(6)]
			r.Inject = func(o, name string, n int) (v vosVerdict, ok bool) {
				if o == op {
					return vosVerdict{Err: errStore}, true
				}
				return v, false
			}
			x += ", storage fails at " + op
		}
		return x
	case 5:
		sp.Cancel = Cancel{Kind: "visit", N: r.Flt.Intn(len(want) + 1)}
		r.Faults["cancel"]++
		return "cancelled at a visit"
	case 6:
		sp.Cancel = Cancel{Kind: []string{"time", "deadline"}[r.Flt.Intn(2)], At: int64(r.Flt.Intn(30)) * 300000}
		r.Faults["cancel"]++
		return "cancelled after " + dur(sp.Cancel.At)
	case 7:
		if r.Flt.Chance(50) {
			sp.Cancel = Cancel{Kind: "before"}
			r.Faults["cancel"]++
			return "cancelled before"
		}
		r.Faults["disk:stat-root"]++
		r.Inject = func(op, name string, n int) (v vosVerdict, ok bool) {
			if op == "stat" && name == m.W.Base {
				return vosVerdict{Err: errInfo}, true
			}
			return v, false
		}
		switch r.Scn.Intn(4) {
		case 1:
			sp.Fault = &FaultSpec{}
		case 2:
			sp.Fault = &FaultSpec{Swallow: true}
		case 3:
			sp.Fault = &FaultSpec{Other: true}
		}
		return "root cannot be examined"
	case 8:
		var stop error
		if r.Scn.Chance(50) {
			stop = fs.SkipAll
		}
		salt := fmt.Sprint(r.Scn.Intn(1000))
		from := 0
		if sp.quietly() {
			if n := sp.first(m); n != nil {
				from = m.index(n)
			}
		}
		sp.Skip = func(rel string, dir bool, err error) (enums.SkipTraversal, error) {
			// a handler may also answer for what has not failed, but here it
			// does not hide where the announcements begin again
			if n := m.By[rel]; n == nil || m.index(n) < from {
				return enums.SkipNoneTraversal, nil
			}
			switch h := hash(salt, rel); {
			case h%7 == 0 && (err != nil || h%3 == 0):
				return enums.SkipAllTraversal, stop
			case h%3 == 0 && (err != nil || h%2 == 0):
				return enums.SkipDirTraversal, nil
			}
			return enums.SkipNoneTraversal, nil
		}
		return "skip handler"
	case 9:
		for _, st := range want {
			if r.Scn.Chance(30) {
				sp.Acts[st.N.Rel] = Act{Kind: []string{"err", "skipdir", "skipall"}[r.Scn.Intn(3)]}
			}
		}
		return "errors returned by callbacks"
	case 10:
		o := sp.O
		o.Out = &OutSpec{Size: uint(r.Scn.Intn(3)), Interval: 1e7, Timeout: 2e9, Consumer: []string{"reads", "never", "stops"}[r.Scn.Intn(3)], StopAt: 1}
		return "outputs"
	}
	return "normal"
}

var errStore = errors.New("injected: storage failure")

// nesting checks the announcements of descents and ascents; it returns the
// nodes descended into, in order.
func nesting(s *Session, m *Model) ([]*MNode, *Fail) {
	var (
		open []string
		desc []*MNode
		seen = map[string]bool{}
	)
	state := 0
	quietly, bare := s.Spec.quietly(), 0
	if quietly {
		state = 1 // the beginning has been announced by the session it resumes
	}
	for i := range s.Events {
		e := &s.Events[i]
		switch e.Kind {
		case "begin":
			if state != 0 {
				return nil, failf("begin", "the beginning is announced again or late")
			}
			state = 1
			if e.Note != m.W.Arg {
				return nil, failf("begin", "the beginning names the tree %q instead of %q", e.Note, m.W.Arg)
			}
		case "end":
			if state != 1 {
				return nil, failf("end", "the end is announced without a beginning, or again")
			}
			state = 2
			if len(open) > 0 {
				return nil, failf("nesting", "the end is announced while still inside %q", open)
			}
		case "descend":
			if state != 1 {
				return nil, failf("order", "descent into %q is announced outside of the traversal", e.Rel)
			}
			n := m.By[e.Rel]
			if n == nil {
				return nil, failf("nesting", "descent into %q, which is not a node of the walk", e.Rel)
			}
			if seen[e.Rel] {
				return nil, failf("nesting", "descent into %q is announced twice", e.Rel)
			}
			seen[e.Rel] = true
			up := "!"
			if n.Up != nil {
				up = n.Up.Rel
			}
			top := "!"
			if len(open) > 0 {
				top = open[len(open)-1]
			}
			if top != up && !(quietly && len(open) == 0) {
				return nil, failf("nesting", "descent into %q is announced inside of %q", e.Rel, top)
			}
			open = append(open, e.Rel)
			desc = append(desc, n)
		case "ascend":
			if state != 1 {
				return nil, failf("order", "ascent from %q is announced outside of the traversal", e.Rel)
			}
			if len(open) == 0 || open[len(open)-1] != e.Rel {
				return nil, failf("nesting", "ascent from %q is announced while inside %q", e.Rel, open)
			}
			open = open[:len(open)-1]
		case "cb":
			if state == 0 {
				return nil, failf("order", "callback for %q before the beginning is announced", e.Rel)
			}
			if s.Spec.Run {
				if !seen[e.Rel] {
					if bare++; quietly && bare == 1 {
						continue
					}
					return nil, failf("nesting", "callback for %q, into which no descent was announced", e.Rel)
				}
				continue
			}
			if state != 1 {
				return nil, failf("order", "callback for %q after the end is announced", e.Rel)
			}
			if quietly && len(desc) == 0 && bare == 0 {
				bare++
				continue
			}
			if len(open) == 0 || open[len(open)-1] != e.Rel {
				return nil, failf("nesting", "callback for %q while inside %q", e.Rel, open)
			}
		case "wake", "sleep":
			if state != 1 {
				return nil, failf("order", "%s is announced outside of the traversal", e.Kind)
			}
		}
	}
	if state != 2 {
		return nil, failf("end", "the beginning or the end is never announced (state %d)", state)
	}
	return desc, nil
}

func c15(r *Run) *Fail {
	conc := r.Scn.Chance(35)
	r.strategy(conc)
	w := r.world(worldOpt{File: 2, Max: 24, ReadFail: 25, InfoFail: 15, Rel: 25, Listing: 25})
	o := genOpts(r.Scn, Feat{Hooks: 12, Depth: 30, Filter: 25, Samp: 15, Hib: 25, Case: 10})
	o.hibSafe(w)
	m := newModel(w, o)
	sp := &Spec{W: w, O: o, Run: conc, Reuse: 10}
	if conc {
		genNoW(r.Scn, o)
	}
	if ok, f := r.crashed(sp, m, 20); !ok {
		return f
	}
	durations(r, sp)
	if r.Scn.Chance(10) {
		sp.Slow = 1e5
	}
	how := r.finish(sp, m)
	r.note("options: %v ending: %s", o, how)
	s := r.session(sp)
	out := r.sim(func() { s.run(); settle(10e9) })
	if f := ended(out, "navigation", r.Last); f != nil {
		return f
	}
	if s.Escaped != nil {
		return quiet(s)
	}
	r.Cover[fmt.Sprintf("%v %.9s", conc, how)]++
	r.NonTriv = conc || how != "normal"
	desc, f := nesting(s, m)
	if f != nil {
		return f
	}
	if how == "normal" && o.Hib == nil && s.Err == nil {
		// complete: every directory of the walk is announced
		got := map[string]bool{}
		for _, n := range desc {
			got[n.Rel] = true
		}
		for _, n := range m.All {
			if sp.At != nil && m.index(n) < m.index(sp.At) {
				continue
			}
			if f := sp.first(m); sp.quietly() && (f == nil || m.index(n) <= m.index(f)) {
				continue
			}
			if n.Dir && !n.Shadow && !got[n.Rel] {
				return failf("complete", "no descent into %q is announced", n.Rel)
			}
		}
		for i := 1; i < len(desc); i++ {
			if desc[i].Dir == desc[i-1].Dir && desc[i].Up == desc[i-1].Up && !m.less(desc[i-1].Name, desc[i].Name) {
				return failf("order", "descent into %q is announced before %q", desc[i-1].Rel, desc[i].Rel)
			}
		}
	}
	return nil
}

// --- C16

func c16(r *Run) *Fail {
	conc := r.Scn.Chance(35)
	r.strategy(conc)
	w := r.world(worldOpt{File: 2, Max: 24, ReadFail: 20, InfoFail: 15, Rel: 25, Listing: 25})
	o := genOpts(r.Scn, Feat{Hooks: 12, Depth: 25, Filter: 65, Samp: 15, Hib: 25, Case: 10, Subs: [4]int{2, 2, 3, 3}})
	o.hibSafe(w)
	m := newModel(w, o)
	sp := &Spec{W: w, O: o, Run: conc, Reuse: 10}
	if conc {
		genNoW(r.Scn, o)
	}
	if ok, f := r.crashed(sp, m, 20); !ok {
		return f
	}
	durations(r, sp)
	if r.Scn.Chance(20) {
		r.SlowFS = 1e8
	}
	how := r.finish(sp, m)
	r.note("options: %v ending: %s", o, how)
	s := r.session(sp)
	pause := int64(r.Scn.Intn(5)) * 1e9
	var el [2]int64
	var started int64
	var complete bool
	out := r.sim(func() {
		s.run()
		if s.Result != nil && s.Result.Session() != nil {
			ses := s.Result.Session()
			started = ses.StartedAt().UnixNano() - simrt.Active().Epoch()
			el[0] = int64(ses.Elapsed())
			settle(pause)
			el[1] = int64(ses.Elapsed())
			complete = ses.IsComplete()
		}
	})
	if f := ended(out, "navigation", r.Last); f != nil {
		return f
	}
	if s.Escaped != nil {
		return quiet(s)
	}
	r.Cover[fmt.Sprintf("%v %.9s", conc, how)]++
	if s.Result == nil || s.Result.Session() == nil {
		return failf("metrics", "navigation returns no result or no session")
	}
	desc, f := nesting(s, m)
	if f != nil {
		return f
	}
	e := m.expect(s, desc)
	r.NonTriv = conc || how != "normal" || e.held > 0
	type chk struct {
		k        enums.Metric
		lo, hi   uint
		what     string
		anyEnd   bool
		observed bool
	}
	var files, dirs uint
	var kids uint
	for _, v := range s.Visits {
		if v.Dir {
			dirs++
		} else {
			files++
		}
		kids += uint(len(v.Children))
	}
	cks := []chk{
		{enums.MetricNoFilesInvoked, files, files, "files invoked", true, true},
		{enums.MetricNoDirectoriesInvoked, dirs, dirs, "directories invoked", true, true},
		{enums.MetricNoFilesFilteredOut, e.outFiles, e.outFiles + e.optFiles, "files filtered out", true, false},
		{enums.MetricNoDirectoriesFilteredOut, e.outDirs, e.outDirs + e.optDirs, "directories filtered out", true, false},
	}
	if conc {
		// nodes still queued at cancellation are counted, but not handled
		if s.Cancelled {
			in := o.InSize
			if in == 0 {
				in = o.NoW
			}
			q := o.NoW + in + 4
			cks[0].hi += q
			cks[1].hi += q
			kids = 0
		}
	}
	if o.Sub == enums.SubscribeDirectoriesWithFiles && !s.Cancelled && o.sampFilter() == nil {
		cks = append(cks, chk{enums.MetricNoChildFilesFound, kids, kids, "child files found", false, true})
		if o.Child != nil {
			var out uint
			for _, v := range s.Visits {
				n := m.By[v.Rel]
				if n.Fail {
					continue // nothing was listed
				}
				out += uint(len(n.Files) - len(v.Children))
			}
			cks = append(cks, chk{enums.MetricNoChildFilesFilteredOut, out, out, "child files filtered out", false, true})
		}
	}
	for _, c := range cks {
		got := s.Met[c.k]
		if p := s.prior(c.k); got < p+c.lo || got > p+c.hi {
			return failf("metrics:"+c.what, "%s: %d reported, %d happened (%s), previously %d", c.what, got, c.lo, how, p)
		}
		if g := s.EndMet[c.k]; g != got {
			return failf("metrics:end", "%s: %d reported with the end event, %d with the result", c.what, g, got)
		}
	}
	if s.Err == nil && !complete {
		return failf("unfinished", "navigation returned without an error, but its session isn't said to be complete (%s)", how)
	}
	// times
	if started < s.T0 || started > s.T1 {
		return failf("started", "the session is reported to have started at %s, navigation began at %s", dur(started), dur(s.T0))
	}
	if b := s.find("begin"); b != nil && started > b.T {
		return failf("started", "the session is reported to have started at %s, after its beginning was announced at %s", dur(started), dur(b.T))
	}
	if el[0] != el[1] {
		return failf("elapsed", "the elapsed time of a finished session changes from %s to %s", dur(el[0]), dur(el[1]))
	}
	last := started
	for i := range s.Events {
		if x := &s.Events[i]; x.Kind == "cbend" && !conc || x.Kind == "ascend" {
			last = x.T
		}
	}
	if el[0] < last-started || el[0] > s.T1-started {
		return failf("elapsed", "elapsed time is reported as %s; from start to the last activity it was %s, to the return %s", dur(el[0]), dur(last-started), dur(s.T1-started))
	}
	return nil
}

// expectation is what filter and hibernation make of the nodes that were
// really descended into.
type expectation struct {
	steps                                []Step
	wake, sleep                          *MNode
	outFiles, outDirs, optFiles, optDirs uint
	held                                 int
	open                                 bool // unknown whether the first node was reached
}

func (m *Model) expect(s *Session, desc []*MNode) expectation {
	var e expectation
	h := m.O.Hib
	state := 1
	if h != nil && h.Wake != nil {
		state = 0
	}
	start := 0
	var maybe *MNode
	if sp := s.Spec; sp.At != nil {
		start = m.index(sp.At)
		// what happened before the resume point belongs to the previous session
		seq := append([]*MNode{}, m.All[:start]...)
		for _, n := range desc {
			if m.index(n) >= start {
				seq = append(seq, n)
			}
		}
		if f := sp.first(m); sp.quietly() && f != nil {
			// the node with which the announcements begin
			known := len(seq) > start
			have := false
			for _, v := range s.Visits {
				known = known || v.Rel == f.Rel
			}
			for _, n := range seq {
				have = have || n == f
			}
			if !known {
				e.open, maybe = true, f
			}
			if !have {
				seq = append(seq[:start:start], append([]*MNode{f}, seq[start:]...)...)
			}
		}
		desc = seq
	}
	for i, n := range desc {
		if !n.Selected {
			continue
		}
		if i < start {
			switch {
			case state == 0 && h.Wake.match(n):
				state = 1
			case state == 1 && h != nil && h.Sleep != nil && h.Sleep.match(n):
				state = 2
			}
			continue
		}
		in := false
		switch state {
		case 0:
			if h.Wake.match(n) {
				e.wake = n
				state = 1
				in = h.WakeIncl
			}
		case 1:
			in = true
			if h != nil && h.Sleep != nil && h.Sleep.match(n) {
				e.sleep = n
				state = 2
				in = h.SleepIncl
			}
		}
		switch {
		case !in:
			e.held++
		case n.Opt || n == maybe:
			e.steps = append(e.steps, Step{n, true})
			if n.Dir {
				e.optDirs++
			} else {
				e.optFiles++
			}
		case n.Pass:
			e.steps = append(e.steps, Step{n, false})
		case m.sampledOut(n):
			e.held++
		case n.Dir:
			e.held++
			e.outDirs++
		default:
			e.held++
			e.outFiles++
		}
	}
	return e
}

// --- C17

func c17(r *Run) *Fail {
	conc := r.Scn.Chance(30)
	r.strategy(conc)
	w := r.world(worldOpt{File: 2, Max: 30, ReadFail: 30, InfoFail: 15, Rel: 20, Listing: 25})
	o := genOpts(r.Scn, Feat{Hooks: 12, Depth: 20, Filter: 25, Samp: 10, Hib: 100, Case: 10})
	o.hibSafe(w)
	m := newModel(w, o)
	sp := &Spec{W: w, O: o, Run: conc, Reuse: 10}
	if conc {
		genNoW(r.Scn, o)
	}
	if ok, f := r.crashed(sp, m, 20); !ok {
		return f
	}
	durations(r, sp)
	how := "normal"
	if r.Scn.Chance(40) {
		how = r.finish(sp, m)
	}
	r.note("options: %v ending: %s", o, how)
	s := r.session(sp)
	out := r.sim(func() { s.run() })
	if f := ended(out, "navigation", r.Last); f != nil {
		return f
	}
	if s.Escaped != nil {
		return quiet(s)
	}
	desc, f := nesting(s, m)
	if f != nil {
		return f
	}
	win := m.window()
	var plain Model = *m
	po := *o
	po.Hib = nil
	plain.O = &po
	r.NonTriv = len(win.Steps) < len(plain.base())
	r.Cover[fmt.Sprintf("%v wake=%v sleep=%v/%v", conc, o.Hib.Wake != nil, win.Wake != nil, win.Sleep != nil)]++
	e := m.expect(s, desc)
	if e.open && how != "normal" {
		return nil
	}
	if !conc {
		if x := follow(e.steps, s.order()); x != "" {
			return failf("window", "%s; visited %q, the window holds %q (%s)", x, s.order(), rels(e.steps), how)
		}
	} else if !s.Cancelled {
		if x := sameSet(e.steps, s.order()); x != "" {
			return failf("window", "%s; visited %q, the window holds %q (%s)", x, s.order(), rels(e.steps), how)
		}
	} else {
		in := map[string]bool{}
		for _, st := range e.steps {
			in[st.N.Rel] = true
		}
		for _, v := range s.Visits {
			if !in[v.Rel] {
				return failf("window", "%q is handled outside of the window", v.Rel)
			}
		}
	}
	if how == "normal" {
		if s.Err != nil {
			return failf("error", "navigation returns %q", s.Err)
		}
		x := ""
		if conc {
			x = sameSet(sp.due(m), s.order())
		} else {
			x = follow(sp.due(m), s.order())
		}
		if x != "" {
			return failf("window", "%s; visited %q, the window holds %q", x, s.order(), rels(sp.due(m)))
		}
		e.wake, e.sleep = win.Wake, win.Sleep
		if sp.At != nil {
			// unless announced by the previous session
			if e.wake != nil && m.index(e.wake) < m.index(sp.At) {
				e.wake = nil
			}
			if e.sleep != nil && m.index(e.sleep) < m.index(sp.At) {
				e.sleep = nil
			}
		}
	}
	bare := "!"
	if sp.quietly() {
		if f := sp.first(m); f != nil {
			bare = f.Rel
		}
	}
	return announced(s, e.wake, e.sleep, bare)
}

// announced checks that wake and sleep were announced at the given nodes and
// nowhere else.
func announced(s *Session, wake, sleep *MNode, bare string) *Fail {
	var open []string
	at := map[string][]string{}
	for i := range s.Events {
		e := &s.Events[i]
		switch e.Kind {
		case "descend":
			open = append(open, e.Rel)
		case "ascend":
			if len(open) > 0 {
				open = open[:len(open)-1]
			}
		case "wake", "sleep":
			x := bare
			if len(open) > 0 {
				x = open[len(open)-1]
			}
			at[e.Kind] = append(at[e.Kind], x)
			if e.Note != e.Kind {
				return failf("announce", "%s is announced with the description %q", e.Kind, e.Note)
			}
		}
	}
	for _, x := range []struct {
		kind string
		n    *MNode
	}{{"wake", wake}, {"sleep", sleep}} {
		got := at[x.kind]
		switch {
		case x.n == nil && len(got) > 0:
			return failf("announce", "%s is announced at %q although no node matches its condition", x.kind, got)
		case x.n != nil && len(got) != 1:
			return failf("announce", "%s is announced %d times (%q), it is due once at %q", x.kind, len(got), got, x.n.Rel)
		case x.n != nil && got[0] != x.n.Rel:
			return failf("announce", "%s is announced at %q, the first matching node is %q", x.kind, got[0], x.n.Rel)
		}
	}
	return nil
}
