package main

import (
	"context"
	"errors"
	"io"
	"io/fs"
	"strings"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"

	"simrt"
)

func init() {
	register(&Prop{ID: "C11", Quick: 450000, Thorough: 24000000, Exec: c11,
		Rule: "at least one directory or entry within the walk fails"})
	register(&Prop{ID: "C12", Quick: 300000, Thorough: 15000000, Exec: c12,
		Rule: "the root could not be examined"})
	register(&Prop{ID: "C13", Quick: 450000, Thorough: 24000000, Exec: c13,
		Rule: "the callback returned an error with nodes still to come"})
	register(&Prop{ID: "C14", Quick: 450000, Thorough: 24000000, Exec: c14,
		Rule: "at least one directive was returned with nodes still to come"})
	register(&Prop{ID: "C18", Quick: 450000, Thorough: 24000000, Exec: c18,
		Rule: "sampling leaves out at least one node"})
}

// pickVisit draws one of the expected nodes.
func pickStep(s *simrt.Stream, steps []Step) *MNode {
	var sure []Step
	for _, x := range steps {
		if !x.Opt {
			sure = append(sure, x)
		}
	}
	if len(sure) == 0 {
		return nil
	}
	return sure[s.Intn(len(sure))].N
}

// lifecycle checks announcements of a finished navigation.
func lifecycle(s *Session) *Fail {
	begin, end := s.count("begin"), s.count("end")
	if s.Spec.quietly() {
		begin++
	}
	if begin != 1 {
		return failf("begin", "the beginning is announced %d times", begin)
	}
	if end != 1 {
		return failf("end", "the end is announced %d times", end)
	}
	return nil
}

// --- C11

func c11(r *Run) *Fail {
	conc := r.Scn.Chance(20)
	r.strategy(conc)
	w := r.world(worldOpt{File: 2, ReadFail: 85, InfoFail: 40, Rel: 25, Listing: 30, Partial: true, Wide: r.Scn.Chance(5)})
	o := genOpts(r.Scn, Feat{Hooks: 12, Depth: 25, Filter: 25, Samp: 20, Case: 10})
	if o.Samp != nil {
		for k := range w.ReadFail {
			w.ReadFail[k] = 0
		}
	}
	if o.Hook != nil && r.Scn.Chance(50) {
		o.Hook.faulty(r.Scn)
	}
	if conc {
		genNoW(r.Scn, o)
	}
	sp := &Spec{W: w, O: o, Run: conc, Reuse: 10, MaxDur: 1e6, DurSalt: "c11"}
	handler := !r.Scn.Chance(25)
	answers := map[string]int{} // failing directory -> 0 carry on, 1 skip, 2 stop
	var stopErr error
	m := newModel(w, o)
	if handler {
		for _, n := range m.All {
			if n.Fail {
				answers[n.Rel] = r.Scn.Weighted(6, 3, 1)
			}
		}
		if r.Scn.Chance(50) {
			stopErr = fs.SkipAll
		}
		sp.Skip = func(rel string, dir bool, err error) (enums.SkipTraversal, error) {
			if err == nil {
				return enums.SkipNoneTraversal, nil
			}
			switch answers[rel] {
			case 1:
				return enums.SkipDirTraversal, nil
			case 2:
				return enums.SkipAllTraversal, stopErr
			}
			return enums.SkipNoneTraversal, nil
		}
	}
	for d := range answers {
		// a client's own read hook may deliver what comes beneath an unreadable
		// directory, or may not
		if n := m.By[d]; n == nil || n.Shadow {
			answers[d] = 0
		}
	}
	r.note("options: %v handler=%v answers=%v stopErr=%v", o, handler, answers, stopErr)
	s := r.session(sp)
	out := r.sim(func() { s.run() })
	if f := ended(out, "navigation", r.Last); f != nil {
		return f
	}
	if s.Escaped != nil {
		return quiet(s)
	}
	// the reference: walk until a failing directory is answered with stop
	stop := -1
	var failing []*MNode
	var want []Step
	for i, n := range m.All {
		if n.Selected && n.Pass {
			want = append(want, Step{n, n.Opt})
		}
		if n.Fail && !n.Shadow {
			failing = append(failing, n)
			if handler && answers[n.Rel] == 2 {
				stop = i
				break
			}
		}
	}
	for _, n := range m.All {
		if (n.Fail || n.NoInfo) && !n.Shadow {
			r.NonTriv = true
		}
	}
	r.coverOpts(o, w)
	if s.Err != nil {
		return failf("error", "navigation returns %q because of a read failure", s.Err)
	}
	got := s.order()
	if conc {
		if x := sameSet(want, got); x != "" {
			return failf("isolation", "%s", x)
		}
	} else if x := follow(want, got); x != "" {
		c := "isolation"
		if stop >= 0 {
			c = "stop"
		}
		return failf(c, "%s; unreadable %q, answers %v", x, keys(w.ReadFail), answers)
	}
	for _, v := range s.Visits {
		if n := m.By[v.Rel]; n != nil && n.Shadow {
			continue
		}
		if x := m.facts(v); x != "" {
			return failf("facts:"+factName(x), "%s", x)
		}
		if n := m.By[v.Rel]; n.NoInfo && !errors.Is(v.NodeErr, errInfo) {
			return failf("node-error", "node %q carries %v, not the failure to obtain its details", v.Rel, v.NodeErr)
		}
	}
	if !handler {
		return nil
	}
	return s.asked(m, failing)
}

// asked checks what the skip handler is told: of each failure to list a
// directory that is certainly visited, once, and of nothing else.
func (s *Session) asked(m *Model, failing []*MNode) *Fail {
	asks := map[string]int{}
	for i := range s.Events {
		e := &s.Events[i]
		if e.Kind != "ask" || e.Err == nil {
			continue
		}
		n := m.By[e.Rel]
		if n == nil || !n.Fail {
			return failf("ask", "skip handler told of a failure (%v) at %q, where there was none", e.Err, e.Rel)
		}
		due := errRead
		if n.Refused {
			due = errHook
		}
		if !errors.Is(e.Err, due) {
			return failf("ask", "skip handler told of %v at %q, not the failure which happened", e.Err, e.Rel)
		}
		asks[e.Rel]++
	}
	for _, n := range failing {
		if asks[n.Rel] != 1 {
			return failf("ask", "the failure to list %q is reported to the skip handler %d times", n.Rel, asks[n.Rel])
		}
	}
	return nil
}

// --- C12

func c12(r *Run) *Fail {
	conc := r.Scn.Chance(50)
	r.strategy(conc)
	w := r.world(worldOpt{File: 2, Max: 8, Rel: 40, Listing: 30})
	o := genOpts(r.Scn, Feat{Hooks: 12, Depth: 25, Filter: 25, Samp: 20, Hib: 20})
	if conc {
		genNoW(r.Scn, o)
		if r.Scn.Chance(50) {
			o.Out = &OutSpec{Size: uint(r.Scn.Intn(3)), Interval: 1e8, Timeout: 2e9, Consumer: "reads"}
		}
	}
	sp := &Spec{W: w, O: o, Run: conc, Reuse: 10}
	if ok, f := r.crashed(sp, newModel(w, o), 25); !ok {
		return f
	}
	switch r.Scn.Weighted(3, 3, 2, 2) {
	case 1:
		sp.Fault = &FaultSpec{}
	case 2:
		sp.Fault = &FaultSpec{Swallow: true}
	case 3:
		sp.Fault = &FaultSpec{Other: true}
	}
	var injected error
	if r.Flt.Chance(15) {
		injected = errHook
		if o.Hook == nil {
			o.Hook = &HookSpec{QueryChain: r.Flt.Chance(50)}
		}
		o.Hook.Query, o.Hook.Deny = true, true
		r.Faults["hook:status"]++
	} else if r.Flt.Chance(60) {
		injected = errInfo
		r.Inject = func(op, name string, n int) (v vosVerdict, ok bool) {
			if op == "stat" && name == w.Base {
				return vosVerdict{Err: kindOf(errInfo, w.String())}, true
			}
			return v, false
		}
	} else {
		injected = fs.ErrNotExist
		r.FS.Delete(w.Base)
		r.Faults["missing-root"]++
	}
	r.NonTriv = true
	r.note("options: %v fault handler=%+v failure=%v", o, sp.Fault, injected)
	s := r.session(sp)
	late := 0
	out := r.sim(func() {
		s.run()
		late = len(s.Visits)
		settle(20e9)
	})
	if f := ended(out, "navigation of a tree without root", r.Last); f != nil {
		return f
	}
	if s.Escaped != nil {
		return quiet(s)
	}
	_ = late
	r.Cover[cover3(conc, sp.Fault != nil, o.Out != nil)]++
	if len(s.Visits) > 0 {
		return failf("visits", "%d nodes are visited although the root cannot be examined", len(s.Visits))
	}
	if n := s.count("fault"); sp.Fault != nil && n != 1 {
		return failf("handler", "fault handler is told %d times", n)
	}
	if sp.Fault != nil {
		e := s.find("fault")
		if !errors.Is(e.Err, injected) || e.Note != w.Arg {
			return failf("handler", "fault handler is told %v at %q, it was %v at %q", e.Err, e.Note, injected, w.Arg)
		}
	}
	switch {
	case sp.Fault == nil || (!sp.Fault.Swallow && !sp.Fault.Other):
		if !errors.Is(s.Err, injected) {
			return failf("error", "navigation returns %v instead of the failure %v", s.Err, injected)
		}
	case sp.Fault.Swallow:
		if s.Err != nil {
			return failf("error", "navigation returns %v although the handler answered nil", s.Err)
		}
	default:
		if !errors.Is(s.Err, errHandler) {
			return failf("error", "navigation returns %v instead of the handler's answer", s.Err)
		}
	}
	if f := lifecycle(s); f != nil {
		return f
	}
	if b := s.find("begin"); b != nil && sp.Fault != nil && b.Step > s.find("fault").Step {
		return failf("begin", "the beginning is announced after the failure")
	}
	if conc {
		if !s.Waited {
			return failf("hang", "the wait group is not released")
		}
		if s.OutOpen && !s.OutClosed {
			return failf("output", "the output channel is never closed")
		}
	}
	return nil
}

func cover3(a, b, c bool) string {
	k := ""
	for i, x := range []bool{a, b, c} {
		if x {
			k += string(rune('A' + i))
		} else {
			k += "-"
		}
	}
	return k
}

// --- C13

// listErr can't be compared.
type listErr []string

func (e listErr) Error() string { return strings.Join(e, ", ") }

func c13(r *Run) *Fail {
	r.strategy(false)
	w := r.world(worldOpt{File: 2, ReadFail: 20, InfoFail: 15, Rel: 30, Listing: 30})
	o := genOpts(r.Scn, Feat{Hooks: 12, Depth: 25, Filter: 30, Samp: 15, Case: 10, Hib: 10})
	o.hibSafe(w)
	m := newModel(w, o)
	sp := &Spec{W: w, O: o, Reuse: 10, MaxDur: 1e6, DurSalt: "c13"}
	if ok, f := r.crashed(sp, m, 20); !ok {
		return f
	}
	want := sp.due(m)
	n := pickStep(r.Scn, want)
	if n == nil {
		return nil
	}
	sp.Acts = map[string]Act{n.Rel: {Kind: "err"}}
	var custom error
	if r.Scn.Chance(20) { // an error that wraps, or looks like, something else
		custom = []error{fs.ErrNotExist, errRead, core.ErrNilForest, errWrapped, fs.ErrPermission, io.EOF, context.Canceled, context.DeadlineExceeded,
			errors.Join(errWrapped, io.ErrUnexpectedEOF), listErr{"several", "things"}}[r.Scn.Intn(10)]
	}
	r.Faults["client-error"]++
	r.note("options: %v error at %q", o, n.Rel)
	s := r.session(sp)
	if custom != nil {
		s.Spec.ActFn = nil
		s.custom = custom
	}
	out := r.sim(func() { s.run() })
	if f := ended(out, "walk", r.Last); f != nil {
		return f
	}
	if s.Escaped != nil {
		return quiet(s)
	}
	r.coverOpts(o, w)
	cut := len(want)
	for i := range want {
		if want[i].N == n {
			cut = i + 1
		}
	}
	r.NonTriv = cut < len(want)
	visited := false
	for _, v := range s.Visits {
		visited = visited || v.Rel == n.Rel
	}
	if want[cut-1].Opt && !visited {
		return nil
	}
	if x := follow(want[:cut], s.order()); x != "" {
		return failf("continues", "after the callback's error at %q: %s", n.Rel, x)
	}
	last := s.Visits[len(s.Visits)-1]
	var l listErr
	if s.Err == nil || !(errors.Is(s.Err, last.Ret) || errors.As(last.Ret, &l) && errors.As(s.Err, &l)) {
		return failf("swallowed", "the callback returned %q at %q; navigation returns %v", last.Ret, n.Rel, s.Err)
	}
	if f := lifecycle(s); f != nil {
		return f
	}
	return metricsMatch(s, m)
}

// metricsMatch compares the reported counts of invoked nodes with the record.
func metricsMatch(s *Session, m *Model) *Fail {
	var files, dirs uint
	for _, v := range s.Visits {
		if v.Dir {
			dirs++
		} else {
			files++
		}
	}
	for _, x := range []struct {
		k    enums.Metric
		want uint
		what string
	}{{enums.MetricNoFilesInvoked, files, "files invoked"}, {enums.MetricNoDirectoriesInvoked, dirs, "directories invoked"}} {
		if s.Result == nil {
			return failf("metrics", "navigation returns no result")
		}
		if got := s.Met[x.k]; got != s.prior(x.k)+x.want {
			return failf("metrics", "%s: %d reported, %d happened, previously %d", x.what, got, x.want, s.prior(x.k))
		}
	}
	return nil
}

// --- C14

func c14(r *Run) *Fail {
	r.strategy(false)
	w := r.world(worldOpt{File: 2, Max: 30, Rel: 25, Listing: 30})
	o := genOpts(r.Scn, Feat{Hooks: 12, Depth: 25, Filter: 30, Samp: 15, Case: 10})
	m := newModel(w, o)
	sp := &Spec{W: w, O: o, Reuse: 10, MaxDur: 1e6, DurSalt: "c14"}
	if ok, f := r.crashed(sp, m, 20); !ok {
		return f
	}
	base := sp.due(m)
	if len(base) == 0 {
		return nil
	}
	start := 0
	if sp.At != nil {
		start = m.index(sp.At)
	}
	acts := map[string]Act{}
	k := 1 + r.Scn.Intn(3)
	for i := 0; i < k; i++ {
		n := pickStep(r.Scn, base)
		if n == nil {
			return nil
		}
		if n.Dir {
			// prefer directories with contents
			for t := 0; t < 3 && len(n.T.Kids) == 0; t++ {
				if x := pickStep(r.Scn, base); x.Dir {
					n = x
				}
			}
		}
		acts[n.Rel] = Act{Kind: "skipdir"}
	}
	if r.Scn.Chance(40) {
		acts[pickStep(r.Scn, base).Rel] = Act{Kind: "skipall"}
	}
	wrap := r.Scn.Chance(10)
	sp.Acts = acts
	// a skip handler is asked for every directory, and may answer likewise
	answers := map[string]int{}
	if r.Scn.Chance(35) {
		var dirs []*MNode
		for _, n := range m.All[start:] {
			if n.Dir && !n.Shadow {
				dirs = append(dirs, n)
			}
		}
		for i := 1 + r.Scn.Intn(2); i > 0 && len(dirs) > 0; i-- {
			answers[dirs[r.Scn.Intn(len(dirs))].Rel] = 1 + r.Scn.Weighted(3, 1)
		}
		var stop error
		if r.Scn.Chance(50) {
			stop = fs.SkipAll
		}
		sp.Skip = func(rel string, dir bool, err error) (enums.SkipTraversal, error) {
			switch answers[rel] {
			case 1:
				return enums.SkipDirTraversal, nil
			case 2:
				return enums.SkipAllTraversal, stop
			}
			return enums.SkipNoneTraversal, nil
		}
	}
	r.note("options: %v directives %v handler %v", o, acts, answers)
	s := r.session(sp)
	s.wrap = wrap
	out := r.sim(func() { s.run() })
	if f := ended(out, "walk", r.Last); f != nil {
		return f
	}
	if s.Escaped != nil {
		return quiet(s)
	}
	r.coverOpts(o, w)
	visited := map[string]bool{}
	for _, v := range s.Visits {
		visited[v.Rel] = true
	}
	asked := map[string]bool{}
	for i := range s.Events {
		if s.Events[i].Kind == "ask" {
			asked[s.Events[i].Rel] = true
		}
	}
	// expected sequence, given which optional nodes were really visited
	var want []Step
	var stopped bool
	var walk func(n *MNode, opt bool) (sibOpt bool)
	walk = func(n *MNode, opt bool) bool {
		if stopped {
			return false
		}
		opt = opt || n.Opt
		act := ""
		if n.Selected && n.Pass && m.index(n) >= start {
			want = append(want, Step{n, opt})
			if !opt || visited[n.Rel] {
				act = acts[n.Rel].Kind
			}
		}
		if act == "skipall" {
			stopped = true
			return false
		}
		if act == "skipdir" {
			r.NonTriv = true
			return !n.Dir
		}
		ans := answers[n.Rel]
		if opt && !asked[n.Rel] {
			ans = 0
		}
		switch ans {
		case 1:
			r.NonTriv = true
			return false
		case 2:
			stopped = true
			return false
		}
		rest := false
		for _, c := range n.Kids {
			if walk(c, opt || rest) {
				rest = true
			}
			if stopped {
				return false
			}
		}
		return false
	}
	walk(m.Root, false)
	if stopped && len(want) < len(base) {
		r.NonTriv = true
	}
	if x := follow(want, s.order()); x != "" {
		c := "prune"
		if stopped {
			c = "skipall"
		}
		return failf(c, "%s; directives %v, skip handler %v, visited %q", x, acts, answers, s.order())
	}
	if s.Err != nil {
		return failf("error", "navigation returns %q after directives %v", s.Err, acts)
	}
	return lifecycle(s)
}

// --- C18

func c18(r *Run) *Fail {
	conc := r.Scn.Chance(15)
	r.strategy(conc)
	w := r.world(worldOpt{File: 2, Max: 40, ReadFail: 25, InfoFail: 20, Rel: 25, Listing: 60, Wide: r.Scn.Chance(30)})
	o := genOpts(r.Scn, Feat{Hooks: 12, Depth: 20, Filter: 25, Samp: 100, Case: 10, Hib: 10})
	o.hibSafe(w)
	if conc {
		genNoW(r.Scn, o)
	}
	m := newModel(w, o)
	sp := &Spec{W: w, O: o, Run: conc, Reuse: 10, MaxDur: 1e6, DurSalt: "c18"}
	sp.Skip = func(string, bool, error) (enums.SkipTraversal, error) { return enums.SkipNoneTraversal, nil }
	r.note("options: %v", o)
	s := r.session(sp)
	out := r.sim(func() { s.run() })
	if f := ended(out, "navigation", r.Last); f != nil {
		return f
	}
	if f := quiet(s); f != nil {
		return f
	}
	r.coverOpts(o, w)
	plain := *o
	plain.Samp = nil
	r.NonTriv = len(newModel(w, &plain).All) > len(m.All)
	want := m.steps()
	x := ""
	if conc {
		x = sameSet(want, s.order())
	} else {
		x = follow(want, s.order())
	}
	if x != "" {
		return failf("sampling", "%s; visited %q expected %q", x, s.order(), rels(want))
	}
	for _, v := range s.Visits {
		if x := m.facts(v); x != "" {
			return failf("facts:"+factName(x), "%s", x)
		}
	}
	if f := sinks(s); f != nil {
		return f
	}
	if o.Hib != nil {
		return nil
	}
	return s.asked(m, m.failing())
}

// failing are the directories that can't be listed, though the walk gets to
// them for certain.
func (m *Model) failing() (out []*MNode) {
	for _, n := range m.All {
		if n.Fail && !n.Shadow {
			out = append(out, n)
		}
	}
	return out
}
