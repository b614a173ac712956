package main

import (
	"io/fs"
	"strings"

	"github.com/snivilised/agenor/enums"
)

func init() {
	register(&Prop{
		ID: "C01", Quick: 360000, Thorough: 18000000,
		Rule: "the walk has at least four nodes to visit and at least two levels",
		Exec: c01,
	})
}

func c01(r *Run) *Fail {
	r.strategy(false)
	w := r.world(worldOpt{ReadFail: 30, InfoFail: 15, Rel: 30, Listing: 50, DSStore: true, Wide: r.Scn.Chance(10), Partial: true, File: 3})
	o := genOpts(r.Scn, Feat{Hooks: 12, Depth: 35, Filter: 45, Case: 25})
	r.note("options: %v", o)
	sp := &Spec{W: w, O: o, MaxDur: []int64{0, 1e6, 1e10}[r.Scn.Intn(3)], DurSalt: "c01", Reuse: 10}
	if r.Scn.Chance(20) {
		r.SlowFS = 1e9
	}
	s := r.session(sp)
	out := r.sim(func() { s.run() })
	if f := ended(out, "walk", r.Last); f != nil {
		return f
	}
	if f := quiet(s); f != nil {
		return f
	}
	m := newModel(w, o)
	want := m.steps()
	r.NonTriv = len(want) >= 4 && want[len(want)-1].N.Depth >= 1
	r.coverOpts(o, w)
	if x := follow(want, s.order()); x != "" {
		return failf("sequence", "%s; visited %q, expected %q", x, s.order(), rels(want))
	}
	for _, v := range s.Visits {
		if x := m.facts(v); x != "" {
			return failf("facts:"+factName(x), "%s", x)
		}
	}
	if f := sinks(s); f != nil {
		return f
	}
	// every parent node handed out is the one which was visited
	if o.Sub == enums.SubscribeUniversal && o.Filter == nil {
		by := map[string]*Visit{}
		for _, v := range s.Visits {
			by[v.Rel] = v
			if v.Parent != nil {
				if p := by[m.By[v.Rel].Up.Rel]; p == nil || p.Node != v.Parent {
					return failf("facts", "node %q: its parent node is not the node visited for that directory", v.Rel)
				}
			}
		}
	}
	return nil
}

// sinks judges the filters which the client was handed.
func sinks(s *Session) *Fail {
	o := s.Spec.O
	if o.Alt&4 == 0 || s.Spec.From != "" && !o.resupply() {
		if len(s.Sinks) > 0 {
			return failf("sink", "%d filters are handed out unasked", len(s.Sinks))
		}
		return nil
	}
	var node, child, sample int
	for _, x := range s.Sinks {
		if x.Before > 0 {
			return failf("sink", "a filter is handed out after %d callbacks", x.Before)
		}
		if x.Node != nil {
			node++
			for _, v := range s.Visits {
				if !x.Node.IsMatch(v.Node) {
					return failf("sink", "the filter handed out rejects %q, which is visited", v.Rel)
				}
			}
		}
		if x.Child != nil {
			child++
			for _, v := range s.Visits {
				if k := x.Child.Matching(v.Node.Children); len(k) != len(v.Node.Children) {
					return failf("sink", "the child filter handed out rejects children of %q, which are given", v.Rel)
				}
			}
		}
		if x.Sampler != nil {
			sample++
			for _, v := range s.Visits {
				if v.Entry != nil && len(x.Sampler.Matching([]fs.DirEntry{v.Entry})) != 1 {
					return failf("sink", "the sample filter handed out rejects %q, which is visited", v.Rel)
				}
			}
		}
	}
	b := func(c bool) int {
		if c {
			return 1
		}
		return 0
	}
	if w := b(o.Filter != nil && !o.Filter.usesCustom()); node != w {
		return failf("sink", "%d node filters are handed out, %d defined", node, w)
	}
	if w := b(o.Child != nil); child != w {
		return failf("sink", "%d child filters are handed out, %d defined", child, w)
	}
	if w := b(o.sampFilter() != nil); sample != w {
		return failf("sink", "%d sample filters are handed out, %d defined", sample, w)
	}
	return nil
}

// coverOpts records which combination of features a run used.
func (r *Run) coverOpts(o *Opts, w *World) {
	k := "sub:" + o.Sub.String()
	b := func(c bool, s string) {
		if c {
			k += "+" + s
		}
	}
	b(o.Depth > 0 || o.NoRecurse, "depth")
	b(o.Filter != nil, "filter")
	b(o.Child != nil, "child")
	b(o.Samp != nil, "sampling")
	b(o.Hib != nil, "hib")
	b(o.FilesFirst, "ff")
	b(o.CaseHook || o.CaseBehav, "case")
	b(w.Rel, "rel")
	b(len(w.ReadFail) > 0, "readfail")
	r.Cover[k]++
}

// factName is the fact a complaint is about.
func factName(x string) string {
	if i := strings.Index(x, "\": "); i >= 0 {
		x = x[i+3:]
	}
	if i := strings.Index(x, " is "); i >= 0 {
		x = x[:i]
	}
	return strings.ReplaceAll(clip(x, 40), " ", "-")
}
