package main

import (
	"fmt"
	"reflect"

	"github.com/snivilised/agenor/pref"
)

func init() {
	register(&Prop{ID: "C24", Quick: 300000, Thorough: 15000000, Exec: c24,
		Rule: "options other than the defaults are saved, and something remains to be visited"})
}

// kept are the options which a saved session holds.
type kept struct {
	Behaviours          pref.NavigationBehaviours
	Type                any
	InReverse           bool
	NoOf                pref.EntryQuantities
	Node, Child, Sample any
	Hibernate           any
	NoW                 uint
}

func keptOf(o *pref.Options) *kept {
	k := &kept{
		Behaviours: o.Behaviours, Type: o.Sampling.Type, InReverse: o.Sampling.InReverse, NoOf: o.Sampling.NoOf,
		Node: o.Filter.Node, Child: o.Filter.Child, Hibernate: o.Hibernate, NoW: o.Concurrency.NoW,
	}
	if k.Behaviours.Cascade.NoRecurse {
		k.Behaviours.Cascade.Depth = 1 // the same thing
	}
	if o.Filter.Sample != nil {
		c := *o.Filter.Sample
		c.Custom = nil
		k.Sample = c
	}
	return k
}

// differ names the first of the saved options which isn't as it should be.
func (k *kept) differ(w *kept) string {
	a, b := reflect.ValueOf(*k), reflect.ValueOf(*w)
	for i := 0; i < a.NumField(); i++ {
		if x, y := a.Field(i).Interface(), b.Field(i).Interface(); !reflect.DeepEqual(x, y) {
			return fmt.Sprintf("%s is %s, should be %s", a.Type().Field(i).Name, shown(x), shown(y))
		}
	}
	return ""
}

func shown(x any) string {
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Pointer && !v.IsNil() {
		x = v.Elem().Interface()
	}
	return fmt.Sprintf("%+v", x)
}

// c24: a resumed session has the options that were saved, apart from those
// which are given anew.
func c24(r *Run) *Fail {
	conc := r.Scn.Chance(30)
	r.strategy(conc)
	w := r.world(worldOpt{File: 2, Rel: 30, Listing: 40})
	o := genOpts(r.Scn, Feat{Depth: 40, Filter: 50, Samp: 35, Hib: 30, Case: 40, Hooks: 8})
	if r.Scn.Chance(60) {
		genNoW(r.Scn, o)
		o.InSize = 0
	}
	m := newModel(w, o)
	n := pickStep(r.Scn, m.steps())
	if n == nil {
		return nil
	}
	first := r.session(&Spec{Label: "crash", W: w, O: o, Reuse: 10, Acts: map[string]Act{n.Rel: {Kind: panics[r.Flt.Intn(len(panics))]}}})
	out := r.sim(func() {
		first.run()
		settle(2e9)
	})
	if f := ended(out, "walk to be resumed", r.Last); f != nil {
		return f
	}
	dest, ok := first.saved()
	if first.Escaped != nil || !ok {
		return nil // C09
	}
	r.Faults["client-panic"]++
	// what the client gives anew
	oo := *o
	saved := o.NoW
	oo.NoW = 0
	given := ""
	var extra []pref.Option
	if r.Scn.Chance(30) {
		given += " workers"
		genNoW(r.Scn, &oo)
		saved = oo.NoW
	}
	if r.Scn.Chance(20) {
		given += " subpath"
		oo.KeepSep = r.Scn.Chance(50)
		extra = append(extra, pref.WithSubPathBehaviour(&pref.SubPathBehaviour{KeepTrailingSep: oo.KeepSep}))
	}
	if o.sampFilter() == nil && o.Child == nil && r.Scn.Chance(25) {
		given += " filter"
		oo.Filter = nil
		if r.Scn.Chance(70) {
			oo.Filter = genFilter(r.Scn, 4, 4, 1, 2, 1)
		}
		extra = append(extra, oo.filters(w.Arg))
	}
	if o.Hib == nil && r.Scn.Chance(20) {
		given += " depth"
		oo.Depth = uint(n.Depth + r.Scn.Intn(3))
		if oo.Depth == 0 {
			oo.Depth = 1
		}
		extra = append(extra, pref.WithDepth(oo.Depth))
	}
	k := r.Scn.Intn(2)
	r.Faults[[]string{"resume:fastward", "resume:spawn"}[k]]++
	mm := newModel(w, &oo)
	var po *pref.Options
	sp := &Spec{W: w, O: &oo, Run: conc, From: dest, Before: first, At: mm.By[point(n, nil).Rel], Strategy: strategies[k],
		MaxDur: 1e7, DurSalt: "c24", Extra: extra, Capture: &po}
	r.note("options: %v; resumed by %s at %q, after a panic at %q; given anew:%s", o, []string{"fastward", "spawn"}[k], sp.At.Rel, n.Rel, given)
	r.Cover["given:"+given]++
	s := r.session(sp)
	out = r.sim(func() { s.run() })
	if f := ended(out, "resumed session", r.Last); f != nil {
		return f
	}
	if f := quiet(s); f != nil {
		return f
	}
	if po == nil {
		return failf("options", "the options given on resume are not applied")
	}
	ref := pref.DefaultOptions()
	now := oo.NoW
	oo.NoW = saved
	for _, f := range append(oo.settings(w.Arg), extra...) {
		if f != nil {
			if err := f(ref); err != nil {
				return nil
			}
		}
	}
	oo.NoW = now
	if x := keptOf(po).differ(keptOf(ref)); x != "" {
		return failf("options:"+factName(`": `+x), "after the resume, %s", x)
	}
	want := sp.due(mm)
	def := *keptOf(pref.DefaultOptions())
	r.NonTriv = len(want) > 0 && def.differ(keptOf(ref)) != ""
	x := ""
	if conc {
		x = sameSet(want, s.order())
	} else {
		x = follow(want, s.order())
	}
	if x != "" {
		return failf("sequence", "%s; visited %q, expected %q", x, s.order(), rels(want))
	}
	for _, v := range s.Visits {
		if x := mm.facts(v); x != "" {
			return failf("facts:"+factName(x), "%s", x)
		}
	}
	if saved > 0 && conc && s.MaxLive > int(saved) {
		return failf("workers", "%d callbacks are in progress at once, %d workers were configured", s.MaxLive, saved)
	}
	return nil
}
