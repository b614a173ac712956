package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/snivilised/agenor/enums"

	"simrt"
)

func init() {
	register(&Prop{ID: "C19", Quick: 36000, Thorough: 1200000, Exec: c19, RaceOnly: true,
		Rule: "the session handles nodes on workers of its own, and the run counts for the property whose scenario it performs"})
	register(&Prop{ID: "C21", Quick: 30000, Thorough: 3000000, RaceQuick: 6000, RaceThorough: 150000, Exec: c21,
		Rule: "at least two sessions handle three nodes or more"})
}

// --- C19

// raceScenes are the properties whose scenarios are performed for the race
// detector.
var raceScenes = []string{"C02", "C04", "C06", "C15", "C16", "C20", "C03", "C05", "C12", "C17", "C08", "C09", "C22"}

func c19(r *Run) *Fail {
	id := raceScenes[r.Scn.Weighted(6, 5, 5, 4, 4, 4, 3, 2, 1, 2, 3, 2, 1)]
	_ = props[id].Exec(r)
	conc := false
	for _, s := range r.Sessions {
		conc = conc || s.Spec.Run && len(s.Visits) > 0
	}
	r.NonTriv = r.NonTriv && conc
	r.Cover["scene:"+id]++
	return nil
}

// --- C21

// iso is one of several sessions.
type iso struct {
	sp     *Spec
	strict bool // its history alone is decided by its input
	kind   string
	alone  *Session
	among  *Session
}

func c21(r *Run) *Fail {
	r.strategy(true)
	n := 2 + r.Scn.Weighted(5, 3, 1)
	var all []*iso
	var last *World
	for i := 0; i < n; i++ {
		w := last
		if w == nil || !r.Scn.Chance(25) {
			w = r.world(worldOpt{Max: 14, Base: fmt.Sprintf("/data/w%d", i), ReadFail: 20, Listing: 30, Rel: 15, NotRoot: r.Scn.Chance(80)})
		}
		last = w
		if x := w.inner(r.Scn); x != nil && i > 0 && r.Scn.Chance(25) {
			// a part of the tree, as a tree of its own
			w = x
			r.note("session %d traverses %q", i, w.Base)
			r.Cover["inner tree"]++
		}
		it := r.isolated(i, w)
		if it == nil {
			return nil
		}
		if it.sp.From != "" {
			it.kind += "+resumed"
		}
		r.note("session %d: %s, run=%v max=%s options: %v", i, it.kind, it.sp.Run, dur(it.sp.MaxDur), it.sp.O)
		all = append(all, it)
	}
	if r.Scn.Chance(25) {
		r.SlowFS = []int64{1e5, 1e8}[r.Scn.Intn(2)]
	}
	// each by itself
	for i, it := range all {
		simrt.ResetProcess()
		it.alone = r.session(it.copy(fmt.Sprintf("%d alone", i)))
		if f := ended(r.sim(func() {
			it.alone.run()
			settle(20e9)
		}), "session alone", r.Last); f != nil {
			return nil // not about isolation
		}
		if it.alone.Escaped != nil {
			return nil
		}
		r.Cover["session:"+it.kind]++
	}
	// all of them
	simrt.ResetProcess()
	for i, it := range all {
		it.among = r.session(it.copy(fmt.Sprintf("%d among others", i)))
	}
	mode := r.Scn.Weighted(1, 4, 1)
	var out simrt.Outcome
	if mode == 0 {
		at := r.Scn.Intn(n)
		r.note("one after another, beginning with %d", at)
		out = r.sim(func() {
			for i := range all {
				all[(at+i)%n].among.run()
			}
			settle(20e9)
		})
	} else if mode == 2 {
		ran := make([]bool, n)
		var run func(i int)
		run = func(i int) {
			if i < n && !ran[i] {
				ran[i] = true
				all[i].among.run()
				run(i + 1)
			}
		}
		for i, it := range all {
			at := r.Scn.Intn(5)
			it.among.Spec.Within = func(v *Visit) {
				if v.Before == at {
					run(i + 1)
				}
			}
			r.note("session %d is started within callback %d of session %d", i+1, at, i)
		}
		r.Cover["nested"]++
		out = r.sim(func() {
			run(0)
			settle(20e9)
		})
	} else {
		delays := make([]int64, n)
		for i := range delays {
			delays[i] = []int64{0, 1e4, 1e6, 1e8, 2e9}[r.Scn.Weighted(6, 2, 2, 2, 1)]
		}
		r.note("all at once, delays %v", delays)
		out = r.sim(func() {
			done := 0
			for i, it := range all {
				simrt.GoHarness(fmt.Sprintf("client%d", i), func() {
					if delays[i] > 0 {
						simrt.Sleep(delays[i])
					}
					it.among.run()
					done++
				})
			}
			simrt.Until(600e9, func() bool { return done == n })
			settle(20e9)
		})
	}
	if f := ended(out, "sessions together", r.Last); f != nil {
		return f
	}
	long := 0
	for _, it := range all {
		if len(it.alone.Visits) >= 3 {
			long++
		}
	}
	r.NonTriv = long >= 2
	for i, it := range all {
		if f := it.compare(i); f != nil {
			return f
		}
	}
	return nil
}

// isolated draws one session over its own tree and options.
func (r *Run) isolated(i int, w *World) *iso {
	o := genOpts(r.Scn, Feat{Hooks: 12, Depth: 20, Filter: 35, Samp: 15, Hib: 20, Case: 10})
	o.hibSafe(w)
	sp := &Spec{W: w, O: o, Run: r.Scn.Chance(55), Reuse: 10}
	durations(r, sp)
	it := &iso{sp: sp, strict: true, kind: "walk"}
	m := newModel(w, o)
	if sp.Run {
		it.kind = "run"
		genNoW(r.Scn, o)
		if r.Scn.Chance(25) {
			o.Out = &OutSpec{Size: uint(r.Scn.Intn(3)), Interval: 1e7, Timeout: 3600e9, Consumer: "reads"}
		}
	}
	go1, f := r.crashed(sp, m, 15)
	if !go1 || f != nil {
		return nil
	}
	steps := m.steps()
	hit := func(kinds ...string) {
		n := pickStep(r.Scn, steps)
		if n == nil {
			return
		}
		k := kinds[r.Flt.Intn(len(kinds))]
		sp.Acts = map[string]Act{n.Rel: {Kind: k}}
		it.kind += "+" + k
		r.Faults["client-"+k]++
	}
	switch r.Scn.Weighted(5, 2, 1, 1) {
	case 1:
		if sp.Run {
			it.strict = false
			hit("err", "panic", "skipdir", "skipall")
		} else {
			hit("err", "panic", "panicrt", "panicskip", "panicobj", "skipdir", "skipall")
		}
	case 2:
		it.strict = false
		it.kind += "+cancelled"
		sp.Cancel = Cancel{Kind: []string{"visit", "time", "deadline"}[r.Scn.Intn(3)], N: r.Scn.Intn(len(steps) + 1), At: int64(r.Scn.Intn(2000)) * 1e6}
		if sp.Cancel.At == 0 {
			sp.Cancel.At = 1e3
		}
		r.Faults["cancel:"+sp.Cancel.Kind]++
	case 3:
		if len(w.ReadFail) > 0 && !sp.Run {
			pol := r.Scn.Intn(3)
			sp.Skip = func(rel string, dir bool, err error) (enums.SkipTraversal, error) {
				if err == nil {
					return enums.SkipNoneTraversal, nil
				}
				return []enums.SkipTraversal{enums.SkipNoneTraversal, enums.SkipDirTraversal, enums.SkipAllTraversal}[pol], nil
			}
			it.kind += "+asked"
		}
	}
	if r.Scn.Chance(10) {
		sp.Slow = 1e5
	}
	return it
}

func (it *iso) copy(label string) *Spec {
	sp := *it.sp
	sp.Label = label
	return &sp
}

var isoPath = regexp.MustCompile(`\S*\.json\S*`)

func isoErr(e error) string {
	if e == nil {
		return "-"
	}
	return isoPath.ReplaceAllString(e.Error(), "<saved>")
}

func isoVisit(v *Visit) string {
	x := v.Ext
	return fmt.Sprintf("%q dir=%v depth=%d leaf=%v name=%q parent=%q sub=%q scope=%d kids=%q err=%s returned=%s panicked=%v",
		v.Rel, v.Dir, x.Depth, x.IsLeaf, x.Name, x.Parent, x.SubPath, uint(x.Scope), v.Children, isoErr(v.NodeErr), isoErr(v.Ret), v.Panicked)
}

// outline is what must not depend on other sessions.
func (s *Session) outline() []string {
	var nav, cbs []string
	for i := range s.Events {
		e := &s.Events[i]
		l := fmt.Sprintf("%s %q", e.Kind, e.Rel)
		if e.Kind == "cancel" {
			continue
		}
		if e.Note != "" && e.Kind != "begin" {
			l += " (" + e.Note + ")"
		}
		if e.Err != nil {
			l += " " + isoErr(e.Err)
		}
		switch e.Kind {
		case "cb":
			l += " " + isoVisit(e.V)
			if s.Spec.Run {
				cbs = append(cbs, l)
				continue
			}
		case "cbend", "out", "outopen", "outclosed", "waited", "navdone":
			if s.Spec.Run {
				cbs = append(cbs, l)
				continue
			}
		}
		nav = append(nav, l)
	}
	sort.Strings(cbs)
	out := append(nav, cbs...)
	out = append(out, "returned "+isoErr(s.Err), fmt.Sprintf("escaped %v", s.Escaped))
	var met []string
	for _, k := range watched {
		met = append(met, fmt.Sprintf("%d=%d", k, s.Met[k]))
	}
	return append(out, "metrics "+strings.Join(met, " "))
}

func (it *iso) compare(i int) *Fail {
	for j := range it.among.Events {
		if e := &it.among.Events[j]; strings.HasPrefix(e.Rel, "!") {
			return failf("foreign", "session %d is told %s %q, which is not part of its own tree", i, e.Kind, e.Rel[1:])
		}
	}
	if it.among.Spec.Run && !it.among.Waited {
		return failf("hang", "the wait group of session %d is never released", i)
	}
	if it.among.Escaped != nil {
		return failf("panic-escapes", "session %d panics together with others: %v [%s]", i, it.among.Escaped, it.among.EscStack)
	}
	if n := it.among.count("begin"); n > it.alone.count("begin") {
		return failf("foreign", "session %d (%s) is told %d times that its navigation begins", i, it.kind, n)
	}
	if n := it.among.count("end"); n > 1 {
		return failf("foreign", "session %d (%s) is told %d times that its navigation ends", i, it.kind, n)
	}
	if !it.strict {
		return nil
	}
	a, b := it.alone.outline(), it.among.outline()
	for k := 0; k < len(a) || k < len(b); k++ {
		x, y := "nothing more", "nothing more"
		if k < len(a) {
			x = a[k]
		}
		if k < len(b) {
			y = b[k]
		}
		if x != y {
			return failf("differs", "session %d (%s) behaves differently among others, at its %d. item: alone %s; among others %s", i, it.kind, k, x, y)
		}
	}
	return nil
}
