package main

import (
	"errors"
	"fmt"
	"path"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/tfs"
	nef "github.com/snivilised/nefilim"

	"simrt"
	"simstd/vos"
)

func init() {
	register(&Prop{ID: "C07", Quick: 180000, Thorough: 9000000, Exec: c07,
		Rule: "a session panics, is saved and resumed with something left to visit"})
	register(&Prop{ID: "C08", Quick: 180000, Thorough: 9000000, Exec: c08,
		Rule: "a session panics, is saved and resumed with something left to visit"})
	register(&Prop{ID: "C09", Quick: 180000, Thorough: 9000000, Exec: c09,
		Rule: "a callback panics"})
}

var strategies = []enums.ResumeStrategy{enums.ResumeStrategyFastward, enums.ResumeStrategySpawn}

// point is where a session, itself resumed at from, is resumed when the
// callback of n panics. This is the directory in which navigation is
// interrupted, unless the session did not see its beginning.
func point(n, from *MNode) *MNode {
	if n.Up == nil || from != nil && n.Up != from && under(from.Rel, n.Up.Rel) {
		return n
	}
	return n.Up
}

// index is the position of a node in visiting order.
func (m *Model) index(n *MNode) int {
	for i, x := range m.All {
		if x == n {
			return i
		}
	}
	return -1
}

// from restricts steps to those at or after d in visiting order.
func (m *Model) from(d *MNode, steps []Step) []Step {
	k := m.index(d)
	var out []Step
	for _, st := range steps {
		if m.index(st.N) >= k {
			out = append(out, st)
		}
	}
	return out
}

// withheld counts the nodes inside the window, between a and b inclusive, which
// the filter holds back.
func (m *Model) withheld(a, b int) (files, dirs uint) {
	h := m.O.Hib
	state := 1
	if h != nil && h.Wake != nil {
		state = 0
	}
	for i, n := range m.All {
		if !n.Selected {
			continue
		}
		in := false
		switch state {
		case 0:
			if h.Wake.match(n) {
				state = 1
				in = h.WakeIncl
			}
		case 1:
			in = true
			if h != nil && h.Sleep != nil && h.Sleep.match(n) {
				state = 2
				in = h.SleepIncl
			}
		}
		if in && !n.Pass && !m.sampledOut(n) && i >= a && i <= b {
			if n.Dir {
				dirs++
			} else {
				files++
			}
		}
	}
	return files, dirs
}

// leg is one session of a chain of crashes and resumes.
type leg struct {
	s    *Session
	from *MNode // resume point, nil in the first
	how  string
	hit  *MNode // node whose callback panics
	ok   bool   // saved, when it panics
}

type chain struct {
	m    *Model
	legs []*leg
}

type chainOpt struct {
	Feat  Feat
	World worldOpt
	Conc  int // percent of last sessions which are concurrent
	Max   int
	// Final adjusts the last session
	Final func(r *Run, sp *Spec, left []Step) string
	After func(s *Session)
}

// clear removes read failures which leave it open what is visited.
func (w *World) clear(o *Opts) *Model {
	o.hibSafe(w)
	m := newModel(w, o)
	for _, n := range m.All {
		if n.Opt {
			clear(w.ReadFail)
			return newModel(w, o)
		}
	}
	return m
}

var panics = []string{"panic", "panicstr", "panicrt", "panicskip", "panicnil", "panicobj"}

// chain crashes and resumes a walk. It returns nil, nil when there is nothing
// to judge.
func (r *Run) chain(co chainOpt) (*chain, *Fail) {
	r.strategy(false)
	w := r.world(co.World)
	o := genOpts(r.Scn, co.Feat)
	if r.Scn.Chance(20) {
		o.Admin = []string{"/data/admin", "/home/user/saved/here", "/data/ä b"}[r.Scn.Intn(3)]
	}
	m := w.clear(o)
	c := &chain{m: m}
	r.note("options: %v", o)
	steps := m.steps()
	n := pickStep(r.Scn, steps)
	if n == nil {
		return nil, nil
	}
	sp := &Spec{W: w, O: o, Reuse: 10, Acts: map[string]Act{n.Rel: {Kind: panics[r.Flt.Intn(len(panics))]}}}
	durations(r, sp)
	r.Faults["client-panic"]++
	cur := &leg{hit: n, how: "walk"}
	total := 1 + r.Scn.Intn(co.Max)
	for i := 0; ; i++ {
		cur.s = r.session(sp)
		cur.s.Spec.Label = cur.how
		c.legs = append(c.legs, cur)
		out := r.sim(func() {
			cur.s.run()
			if co.After != nil {
				co.After(cur.s)
			}
			settle(2e9)
		})
		if f := ended(out, cur.how, r.Last); f != nil {
			return nil, f
		}
		if cur.s.Escaped != nil {
			return nil, quiet(cur.s)
		}
		if cur.hit == nil {
			return c, nil
		}
		dest, ok := cur.s.saved()
		if !ok {
			return c, nil
		}
		cur.ok = true
		next := &leg{from: point(cur.hit, cur.from)}
		left := m.from(next.from, steps)
		if len(left) > 1 {
			r.NonTriv = true
		}
		k := r.Scn.Intn(2)
		oo := *o
		sp = &Spec{W: w, O: &oo, From: dest, Strategy: strategies[k], MaxDur: sp.MaxDur, DurSalt: sp.DurSalt, Acts: map[string]Act{}}
		next.how = []string{"fastward", "spawn"}[k]
		r.Faults["resume:"+next.how]++
		if i+1 < total {
			if next.hit = pickStep(r.Scn, left); next.hit != nil {
				sp.Acts[next.hit.Rel] = Act{Kind: panics[r.Flt.Intn(len(panics))]}
				r.Faults["client-panic"]++
			}
		} else {
			if r.Scn.Chance(co.Conc) {
				sp.Run = true
				genNoW(r.Scn, &oo)
				r.strategy(true)
				next.how += " run"
			}
			if co.Final != nil {
				next.how += " " + co.Final(r, sp, left)
			}
		}
		r.note("resume %d: %s at %q", i+1, next.how, next.from.Rel)
		cur = next
	}
}

func (r *Run) coverChain(c *chain) {
	if len(c.legs) > 1 {
		l := c.legs[1]
		r.Cover[fmt.Sprintf("%s legs=%d sub=%v depth=%d filter=%v hib=%v samp=%v", l.how, len(c.legs), c.m.O.Sub, min(l.from.Depth, 4), c.m.O.Filter != nil, c.m.O.Hib != nil, c.m.O.Samp != nil)]++
	}
}

var chainWorld = worldOpt{File: 2, Max: 24, ReadFail: 15, InfoFail: 15, Rel: 25, Listing: 30}
var chainFeat = Feat{Hooks: 12, Depth: 25, Filter: 30, Samp: 20, Hib: 25, Case: 25}

// --- C07

func c07(r *Run) *Fail {
	if r.Scn.Chance(20) {
		return c07changed(r)
	}
	c, f := r.chain(chainOpt{World: chainWorld, Feat: chainFeat, Conc: 15, Max: 3})
	if f != nil || c == nil {
		return f
	}
	r.coverChain(c)
	done := map[string]bool{}
	seen := map[string]bool{}
	for i, l := range c.legs {
		if i > 0 {
			// what is at or beneath the interruption is visited again
			for k := range seen {
				if under(k, l.from.Rel) {
					delete(seen, k)
				}
			}
		}
		for _, v := range l.s.Visits {
			if i > 0 && seen[v.Rel] {
				return failf("again", "session %d (%s) visits %q again, which is outside of %q, where the interruption happened", i+1, l.how, v.Rel, l.from.Rel)
			}
		}
		for _, v := range l.s.Visits {
			if v.End > 0 && !v.Panicked {
				done[v.Rel] = true
			}
			seen[v.Rel] = true
		}
	}
	last := c.legs[len(c.legs)-1]
	if last.hit != nil {
		return nil // could not be saved
	}
	if last.s.Err != nil {
		return failf("error", "resume (%s) returns %q", last.how, last.s.Err)
	}
	for _, st := range c.m.steps() {
		if !st.Opt && !done[st.N.Rel] {
			return failf("lost", "node %q is not visited by any of the %d sessions (%s)", st.N.Rel, len(c.legs), c.story())
		}
	}
	return nil
}

// c07changed resumes a session whose tree has changed in the meantime.
func c07changed(r *Run) *Fail {
	r.strategy(false)
	w := r.world(worldOpt{Max: 24, Rel: 25, Listing: 30})
	o := genOpts(r.Scn, Feat{Hooks: 12, Depth: 20, Filter: 20, Case: 20})
	if o.Filter != nil && o.Filter.Scope&^(enums.ScopeFile|enums.ScopeDirectory) != 0 || o.Filter != nil && o.Filter.Kind == "poly" {
		o.Filter = nil // what is a leaf may change
	}
	m := newModel(w, o)
	sp := &Spec{W: w, O: o, Reuse: 10}
	ok, f := r.crashed(sp, m, 100)
	if f != nil || !ok || sp.At == nil {
		return f
	}
	d := sp.At
	w2 := *w
	w2.ReadFail = map[string]int{}
	var skip, gone string
	skipping := false
	pick := func(dirs bool) *TNode {
		if r.Flt.Chance(50) {
			return d.T
		}
		var c []*TNode
		for _, n := range w.Tree.All {
			if n.Dir || !dirs {
				c = append(c, n)
			}
		}
		return c[r.Flt.Intn(len(c))]
	}
	for i := 1 + r.Flt.Intn(2); i > 0; i-- {
		switch r.Flt.Intn(4) {
		case 0:
			if n := pick(false); n.Rel != "" {
				gone = n.Rel
				w2.Tree = w2.Tree.without(r.FS, w.Base, n.Rel)
				r.Faults["changed:removed"]++
				r.note("since removed: %q", n.Rel)
			}
		case 1:
			if n := pick(true); n.Dir {
				w2.ReadFail[n.Rel] = 0
				r.Faults["changed:unreadable"]++
				r.note("since unreadable: %q", n.Rel)
			}
		case 2:
			n := pick(true)
			skip, skipping = n.Rel, true
			r.Faults["changed:skipped"]++
			r.note("skip handler skips: %q", skip)
		case 3:
			n := pick(true)
			if up := w2.Tree.ByRel[n.Rel]; up != nil && up.Dir {
				t := w2.Tree.clone("\x00")
				up = t.ByRel[n.Rel]
				dir := r.Flt.Chance(50)
				k := t.add(up, pickName(r.Flt, dirNames), dir, 1)
				if k == nil || w.Tree.ByRel[k.Rel] != nil {
					break // the same name again, perhaps as something else
				}
				w2.Tree = t
				r.FS.Put(path.Join(w.Base, k.Rel), dir, nil).Size = 1
				r.Faults["changed:added"]++
				r.note("since added: %q", k.Rel)
			}
		}
	}
	for i := range r.World {
		if r.World[i] == w {
			r.World[i] = &w2
		}
	}
	m2 := newModel(&w2, o)
	sp.W = &w2
	if skipping {
		sp.Skip = func(rel string, dir bool, err error) (enums.SkipTraversal, error) {
			if dir && rel == skip {
				return enums.SkipDirTraversal, nil
			}
			return enums.SkipNoneTraversal, nil
		}
	}
	s := r.session(sp)
	out := r.sim(func() { s.run(); settle(2e9) })
	if f := ended(out, "resume", r.Last); f != nil {
		return f
	}
	if s.Escaped != nil {
		return quiet(s)
	}
	if s.Err != nil {
		if w2.Tree.ByRel[d.Rel] != nil {
			return failf("changed:error", "resume returns %q although the resume point %q still exists", s.Err, d.Rel)
		}
		return nil // refused
	}
	done := map[string]bool{}
	for _, v := range append(append([]*Visit{}, sp.Before.Visits...), s.Visits...) {
		if v.End > 0 && !v.Panicked {
			done[v.Rel] = true
		}
	}
	had := map[string]bool{}
	for _, st := range m.steps() {
		had[st.N.Rel] = true
	}
	from := len(m2.All)
	if n := m2.By[d.Rel]; n != nil {
		from = m2.index(n)
	}
	r.NonTriv = true
	for _, st := range m2.steps() {
		n := st.N
		if st.Opt || n.Shadow || done[n.Rel] || skipping && n.Rel != skip && under(n.Rel, skip) {
			continue
		}
		if had[n.Rel] || m2.index(n) >= from {
			return failf("changed:lost", "node %q is not visited by either session (resumed at %q, skip %q, gone %q), visited by the second: %q", n.Rel, d.Rel, skip, gone, s.order())
		}
	}
	return nil
}

// clone copies the tree without what is at or beneath rel.
func (t *Tree) clone(rel string) *Tree {
	c := &Tree{ByRel: map[string]*TNode{}}
	for _, n := range t.All {
		if rel != "" && under(n.Rel, rel) {
			continue
		}
		k := *n
		k.Kids, k.Up = nil, nil
		if n.Up != nil {
			k.Up = c.ByRel[n.Up.Rel]
			k.Up.Kids = append(k.Up.Kids, &k)
		} else {
			c.Root = &k
		}
		c.All = append(c.All, &k)
		c.ByRel[k.Rel] = &k
	}
	return c
}

// without removes rel and everything beneath it, from the disk too.
func (t *Tree) without(f *vos.FS, base, rel string) *Tree {
	for i := len(t.All) - 1; i >= 0; i-- {
		if under(t.All[i].Rel, rel) {
			f.Delete(path.Join(base, t.All[i].Rel))
		}
	}
	return t.clone(rel)
}

func (c *chain) story() string {
	x := ""
	for i, l := range c.legs {
		if i > 0 {
			x += ", "
		}
		x += l.how
		if l.from != nil {
			x += fmt.Sprintf(" at %q", l.from.Rel)
		}
		if l.hit != nil {
			x += fmt.Sprintf(" panics at %q", l.hit.Rel)
		}
	}
	return x
}

// --- C08

func c08(r *Run) *Fail {
	c, f := r.chain(chainOpt{World: chainWorld, Feat: chainFeat, Conc: 20, Max: 3})
	if f != nil || c == nil {
		return f
	}
	r.coverChain(c)
	return c.same()
}

// same checks that every resumed session behaves like the original one.
func (c *chain) same() *Fail {
	m := c.m
	for i, l := range c.legs {
		if i == 0 {
			continue
		}
		s := l.s
		want := m.from(l.from, m.steps())
		if l.hit != nil {
			for k, st := range want {
				if st.N == l.hit {
					want = want[:k+1]
					break
				}
			}
		}
		x := ""
		if s.Spec.Run {
			x = sameSet(want, s.order())
		} else {
			x = follow(want, s.order())
		}
		if x != "" {
			return failf("order", "resumed session %d: %s; visited %q, due are %q (%s)", i+1, x, s.order(), rels(want), c.story())
		}
		for _, v := range s.Visits {
			if x := m.facts(v); x != "" {
				return failf("facts:"+factName(x), "resumed session %d: %s (%s)", i+1, x, c.story())
			}
		}
		if l.hit == nil && s.Err != nil {
			return failf("error", "resumed session %d returns %q", i+1, s.Err)
		}
		// counts
		prev := c.legs[i-1].s
		var files, dirs, kids, outKids uint
		for _, v := range s.Visits {
			if v.Dir {
				dirs++
			} else {
				files++
			}
			kids += uint(len(v.Children))
			if n := m.By[v.Rel]; !n.Fail {
				outKids += uint(len(n.Files) - len(v.Children))
			}
		}
		end := len(m.All)
		if l.hit != nil {
			end = m.index(l.hit)
		}
		hf, hd := m.withheld(m.index(l.from), end)
		type chk struct {
			k    enums.Metric
			n    uint
			what string
		}
		cks := []chk{
			{enums.MetricNoFilesInvoked, files, "files invoked"},
			{enums.MetricNoDirectoriesInvoked, dirs, "directories invoked"},
			{enums.MetricNoFilesFilteredOut, hf, "files filtered out"},
			{enums.MetricNoDirectoriesFilteredOut, hd, "directories filtered out"},
		}
		if m.O.Sub == enums.SubscribeDirectoriesWithFiles && m.O.sampFilter() == nil {
			cks = append(cks, chk{enums.MetricNoChildFilesFound, kids, "child files found"})
			if m.O.Child != nil {
				cks = append(cks, chk{enums.MetricNoChildFilesFilteredOut, outKids, "child files filtered out"})
			}
		}
		for _, k := range cks {
			if got, due := s.Met[k.k], prev.Met[k.k]+k.n; got != due {
				return failf("metrics:"+k.what, "resumed session %d (%s): %s: %d reported, previously %d and %d since", i+1, l.how, k.what, got, prev.Met[k.k], k.n)
			}
		}
		// what an add-on is told
		if n := len(s.Loaded); n > 1 {
			return failf("told", "resumed session %d: the add-on is told of the state %d times", i+1, n)
		}
		for _, st := range s.Loaded {
			if path.Clean(st.Tree) != path.Clean(m.W.Arg) || st.Subscription != m.O.Sub {
				return failf("told", "resumed session %d: the add-on is told of tree %q, subscription %v instead of %q, %v", i+1, st.Tree, st.Subscription, m.W.Arg, m.O.Sub)
			}
			for _, k := range cks {
				got := uint(0)
				if x := st.Metrics[k.k]; x != nil {
					got = uint(x.Counter)
				}
				if got != prev.Met[k.k] {
					return failf("told", "resumed session %d: the add-on is told of %d %s, previously %d", i+1, got, k.what, prev.Met[k.k])
				}
			}
		}
		// the tree
		if b := s.find("begin"); b != nil && path.Clean(b.Note) != path.Clean(m.W.Arg) {
			return failf("tree", "resumed session %d announces the tree %q instead of %q", i+1, b.Note, m.W.Arg)
		}
	}
	return nil
}

// crashed makes sp, in some percentage of runs, resume a session that panicked.
// It is false when there is nothing to resume.
func (r *Run) crashed(sp *Spec, m *Model, percent int) (bool, *Fail) {
	if !r.Scn.Chance(percent) {
		return true, nil
	}
	for _, n := range m.All {
		if n.Opt {
			return true, nil
		}
	}
	n := pickStep(r.Scn, m.steps())
	if n == nil {
		return false, nil
	}
	o := *m.O
	o.NoW, o.InSize, o.Out = 0, 0, nil
	first := r.session(&Spec{Label: "crash", W: m.W, O: &o, MaxDur: 1e6, DurSalt: "crash", Acts: map[string]Act{n.Rel: {Kind: panics[r.Flt.Intn(len(panics))]}}})
	out := r.sim(func() {
		first.run()
		settle(2e9)
	})
	if f := ended(out, "walk to be resumed", r.Last); f != nil {
		return false, f
	}
	dest, ok := first.saved()
	if first.Escaped != nil || !ok {
		return false, nil // C09
	}
	r.Faults["client-panic"]++
	sp.From, sp.Before, sp.At = dest, first, point(n, nil)
	k := r.Scn.Intn(2)
	sp.Strategy = strategies[k]
	r.Faults[[]string{"resume:fastward", "resume:spawn"}[k]]++
	r.note("resumed by %s at %q, after a panic at %q", []string{"fastward", "spawn"}[k], sp.At.Rel, n.Rel)
	return true, nil
}

// due is what the session described is to visit.
func (sp *Spec) due(m *Model) []Step {
	if sp.At == nil {
		return m.steps()
	}
	return m.from(sp.At, m.steps())
}

// quietly says that a session announces only what happens after its resume
// point.
func (sp *Spec) quietly() bool {
	return sp.At != nil && sp.Strategy == enums.ResumeStrategyFastward
}

// first is the node at which a fast-forwarding session begins to announce.
func (sp *Spec) first(m *Model) *MNode {
	for i, n := range m.All {
		if i >= m.index(sp.At) && n.Selected {
			return n
		}
	}
	return nil
}

// prior is what had been counted before the session.
func (s *Session) prior(k enums.Metric) uint {
	if s.Spec.Before == nil {
		return 0
	}
	return s.Spec.Before.Met[k]
}

// --- C09

var saveOps = []string{"stat", "mkdir", "create", "write", "close", "rename", "sync", "chmod", "read"}

// storeFault draws a failure of the storage a session is saved to.
func (r *Run) storeFault(dir string) string {
	if !r.Flt.Chance(65) {
		return ""
	}
	op := saveOps[r.Flt.Weighted(1, 4, 4, 6, 4, 1, 1, 1, 1)]
	nth := r.Flt.Intn(3)
	short := r.Flt.Intn(600)
	err := []error{syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EROFS}[r.Flt.Intn(4)]
	kill := r.Flt.Chance(25)
	forever := r.Flt.Chance(60)
	seen := 0
	r.Inject = func(o, name string, n int) (v vosVerdict, ok bool) {
		if o != op || !under(name, dir) {
			return v, false
		}
		seen++
		if seen-1 == nth || seen-1 > nth && forever {
			r.Faults["store:"+op]++
			if kill {
				r.Faults["kill"]++
				return vosVerdict{Kill: true, Short: short}, true
			}
			return vosVerdict{Err: err, Short: short}, true
		}
		return v, false
	}
	x := fmt.Sprintf("%s %d fails with %v", op, nth, err)
	if kill {
		x = fmt.Sprintf("killed at %s %d", op, nth)
	}
	return x
}

type claim struct {
	dest string
	data string
	s    *Session
	from *MNode
	m    *Model
}

func c09(r *Run) *Fail {
	both := r.Scn.Chance(25) // walks at the same time
	r.strategy(both)
	wo := worldOpt{File: 2, Max: 14, InfoFail: 10, Rel: 25, Listing: 20}
	if r.Scn.Chance(40) {
		// relative file systems do not accept names which are not text
		wo.Rel, wo.Bytes = 0, true
	}
	w := r.world(wo)
	o := genOpts(r.Scn, chainFeat)
	m := w.clear(o)
	store := "/home/user"
	switch r.Scn.Weighted(5, 2, 1, 1, 1, 1) {
	case 1:
		o.Admin, store = "/data/admin", "/data/admin"
	case 2:
		o.Admin, store = "rel/saved", "/work/rel/saved"
	case 3:
		o.Admin = "~/there"
	case 4:
		o.Admin, store = "/data/blocked", "/data/blocked"
	case 5:
		o.Admin, store = "../data/x.y", "/data/x.y"
	}
	healthy := true
	if o.Admin == "/data/blocked" {
		r.FS.Put("/data/blocked", false, []byte("a file"))
		healthy = false
		r.Faults["store:blocked"]++
	}
	steps := m.steps()
	if len(steps) == 0 {
		return nil
	}
	total := 1 + r.Scn.Intn(3)
	if both {
		total = 2 + r.Scn.Intn(2)
	}
	pause := []int64{0, 3e8, 2e9}[r.Scn.Weighted(4, 2, 2)]
	relR := r.Scn.Chance(6)
	var (
		ses    []*Session
		claims []claim
		fail   *Fail
	)
	recovery := r.Scn.Weighted(6, 1, 1, 1)
	what := r.storeFault(store)
	if what != "" {
		healthy = false
	}
	representable := func(n *MNode) bool { return utf8.ValidString(m.W.full(n.Rel)) }
	for i := 0; i < total; i++ {
		n := pickStep(r.Scn, steps)
		if n == nil {
			return nil
		}
		sp := &Spec{W: w, O: o, Reuse: 10, Acts: map[string]Act{n.Rel: {Kind: panics[r.Flt.Intn(len(panics))]}}}
		if relR {
			sp.Forest = func(string) *core.Forest {
				return &core.Forest{T: w.traversal(), R: tfs.NewFS(nef.Rel{Root: "/home/user"})}
			}
		}
		switch recovery {
		case 1:
			sp.Extra = append(sp.Extra, pref.WithPanicHandler(pref.Rescuer(func(rc pref.Recovery, d pref.RescueData) (string, error) { return rc.Save(d) })))
		case 2:
			sp.Extra = append(sp.Extra, pref.WithPanicHandler(pref.Rescuer(func(pref.Recovery, pref.RescueData) (string, error) { return "", errHandler })))
		case 3:
			sp.Extra = append(sp.Extra, pref.WithPanicHandler(pref.Rescuer(func(pref.Recovery, pref.RescueData) (string, error) { panic("the handler panics, too") })))
		}
		r.Faults["client-panic"]++
		ses = append(ses, r.session(sp))
		sp.At = nil
		sp.Label = n.Rel
	}
	r.note("options: %v admin=%q storage: %s sessions: %d together=%v pause=%s relative=%v handler=%d", o, o.Admin, what, total, both, dur(pause), relR, recovery)
	judge := func(s *Session) *Fail {
		n := m.By[s.Spec.Label]
		if s.Escaped != nil {
			return failf("panic-escapes", "navigation panics: %v [%s]", s.Escaped, s.EscStack)
		}
		if !errors.Is(s.Err, locale.ErrCorePanicOccurred) {
			return failf("unrecognisable", "after the panic of a callback navigation returns %v", s.Err)
		}
		var not *locale.TraversalNotSavedError
		if dest, ok := s.saved(); ok {
			node := r.FS.Lookup(dest)
			if dest == "" || node == nil || node.Dir {
				return failf("untrue", "the session is reported as saved to %q, which does not exist (%s)", dest, what)
			}
			if !strings.Contains(s.Err.Error(), dest) {
				return failf("text", "the error %q does not name the destination %q", s.Err, dest)
			}
			for _, c := range claims {
				if c.dest == dest {
					return failf("clobber", "the session is saved to %q, where another one already was", dest)
				}
			}
			claims = append(claims, claim{dest: dest, data: string(node.Data), s: s, from: point(n, nil), m: m})
			return nil
		}
		if !errors.As(s.Err, &not) {
			return failf("unrecognisable", "after the panic of a callback navigation returns %v", s.Err)
		}
		if not.Reason == nil {
			return failf("reason", "the session was not saved, and there is no reason")
		}
		if !strings.Contains(s.Err.Error(), not.Reason.Error()) {
			return failf("text", "the error %q does not name the reason %q", s.Err, not.Reason)
		}
		if recovery == 2 && !errors.Is(not.Reason, errHandler) {
			return failf("reason", "the session was not saved, because of %v instead of the handler's error", not.Reason)
		}
		if healthy && !relR && recovery < 2 && representable(n) {
			return failf("unsaved", "the session was not saved although nothing failed: %v", not.Reason)
		}
		return nil
	}
	out := r.sim(func() {
		live := 0
		for _, s := range ses {
			s := s
			if both {
				live++
				simrt.GoHarness("walker", func() {
					s.run()
					live--
					if f := judge(s); f != nil && fail == nil {
						fail = f
					}
				})
				continue
			}
			s.run()
			if f := judge(s); f != nil {
				fail = f
				return
			}
			settle(pause)
		}
		if both {
			simrt.Until(0, func() bool { return live == 0 })
		}
	})
	killed := out.Kind == "killed"
	if !killed {
		if f := ended(out, "walk", r.Last); f != nil {
			return f
		}
	}
	if fail != nil {
		return fail
	}
	r.NonTriv = true
	r.Cover[fmt.Sprintf("claims=%d of %d both=%v handler=%d %s", len(claims), total, both, recovery, what)]++
	r.Inject = nil
	for _, c := range claims {
		n := r.FS.Lookup(c.dest)
		if n == nil || string(n.Data) != c.data {
			return failf("damaged", "the session saved to %q was damaged by a later one (%s)", c.dest, what)
		}
	}
	if killed {
		r.Faults["crash"]++
	}
	// what is claimed can be resumed from
	for i, c := range claims {
		oo := *o
		k := r.Scn.Intn(2)
		s := r.session(&Spec{W: w, O: &oo, From: c.dest, Strategy: strategies[k], Label: fmt.Sprintf("resume %d", i), Forest: c.s.Spec.Forest})
		out := r.sim(func() { s.run() })
		if f := ended(out, "resume of a saved session", r.Last); f != nil {
			return f
		}
		if f := quiet(s); f != nil {
			f.Sig = "resume:" + f.Sig
			f.Msg = fmt.Sprintf("resuming from %q, which is reported as saved: %s (%s)", c.dest, f.Msg, what)
			return f
		}
		if x := follow(m.from(c.from, steps), s.order()); x != "" {
			return failf("resume", "resuming from %q, which is reported as saved: %s (%s)", c.dest, x, what)
		}
	}
	return nil
}
