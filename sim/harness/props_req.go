package main

import (
	"errors"
	"fmt"
	"io/fs"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/tfs"
	nef "github.com/snivilised/nefilim"

	"simrt"
)

func init() {
	register(&Prop{ID: "C22", Quick: 180000, Thorough: 6000000, Exec: c22,
		Rule: "the request is invalid"})
}

// saved is the file which a session claims to have saved itself to.
func (s *Session) saved() (string, bool) {
	var e *locale.TraversalSavedError
	if errors.As(s.Err, &e) {
		return e.Destination, true
	}
	return "", false
}

var errOption = errors.New("the option refuses")

// writes counts operations that change the disk.
func (r *Run) writes() int {
	n := 0
	for _, k := range []string{"mkdir", "create", "write", "remove", "removeall", "rename", "link"} {
		n += r.FS.Ops.Of(k)
	}
	return n
}

// brokenFilter is a definition that no filter can be made from.
func brokenFilter(s *simrt.Stream, what string) (core.FilterDef, string) {
	ok := core.FilterDef{Type: enums.FilterTypeGlob, Description: "fine", Pattern: "*", Scope: enums.ScopeAll}
	bad := core.FilterDef{Type: enums.FilterTypeRegex, Description: "broken", Pattern: "(", Scope: enums.ScopeAll}
	poly := func(f, d core.FilterDef) *core.PolyFilterDef { return &core.PolyFilterDef{File: f, Directory: d} }
	nest := core.FilterDef{Type: enums.FilterTypePoly, Poly: poly(ok, ok)}
	own := core.FilterDef{Type: enums.FilterTypeCustom, Description: "own", Pattern: "*"}
	defs := []core.FilterDef{
		bad,
		{Type: enums.FilterTypeGlob, Pattern: "[a-", Scope: enums.ScopeAll},
		{Type: enums.FilterTypeGlob, Pattern: "a\\", Scope: enums.ScopeAll},
		{Type: enums.FilterTypeGlobEx, Pattern: "no separator"},
		{Type: enums.FilterTypeGlobEx, Pattern: "*|[.txt"},
		{Type: enums.FilterTypeGlobEx, Pattern: "[|*.txt"},
		{Type: enums.FilterTypeGlobEx, Pattern: "*/[|*.txt"},
		{Type: enums.FilterTypeGlobEx, Pattern: "*|noext"},
		{Pattern: "*"},
		{Type: 77, Pattern: "*"},
		{Type: enums.FilterTypePoly, Pattern: "*"},
		{Type: enums.FilterTypePoly, Poly: poly(bad, ok)},
		{Type: enums.FilterTypePoly, Poly: poly(ok, bad)},
		{Type: enums.FilterTypePoly, Poly: poly(nest, ok)},
		{Type: enums.FilterTypePoly, Poly: poly(ok, nest)},
		{Type: enums.FilterTypePoly, Poly: poly(own, ok)},
		{Type: enums.FilterTypePoly, Poly: poly(ok, own)},
		{Type: enums.FilterTypePoly, Poly: poly(ok, core.FilterDef{})},
		own,
	}
	k := s.Intn(len(defs))
	if defs[k].Description == "" {
		defs[k].Description = "broken"
	}
	return defs[k], fmt.Sprintf("%s#%d", what, k)
}

// refusing is a client's own filter, which is not valid.
type refusing struct{}

func (refusing) Description() string                     { return "refusing" }
func (refusing) Validate() error                         { return errOption }
func (refusing) Source() string                          { return "refusing" }
func (refusing) IsMatch(*core.Node) bool                 { return true }
func (refusing) IsApplicable(*core.Node) bool            { return true }
func (refusing) Scope() enums.FilterScope                { return enums.ScopeAll }
func (refusing) Matching(in []fs.DirEntry) []fs.DirEntry { return in }

func c22(r *Run) *Fail {
	conc := r.Scn.Chance(50)
	res := r.Scn.Chance(40)
	r.strategy(conc)
	w := r.world(worldOpt{Max: 10, Rel: 30})
	o := genOpts(r.Scn, Feat{Depth: 20, Filter: 20, Samp: 15, Hib: 15, NoCustom: true})
	sp := &Spec{W: w, O: o, Run: conc}
	from := ""
	if res {
		// a genuine session to resume from
		m := newModel(w, o)
		n := pickStep(r.Scn, m.steps())
		if n == nil {
			return nil
		}
		o.NoW = 0
		first := r.session(&Spec{W: w, O: o, Acts: map[string]Act{n.Rel: {Kind: "panic"}}})
		first.Spec.Forest = func(string) *core.Forest {
			return &core.Forest{T: w.traversal(), R: tfs.New()}
		}
		out := r.sim(func() { first.run() })
		if f := ended(out, "walk", r.Last); f != nil {
			return f
		}
		var ok bool
		if from, ok = first.saved(); !ok {
			return nil // another property's business
		}
		sp.From = from
		sp.Strategy = []enums.ResumeStrategy{enums.ResumeStrategyFastward, enums.ResumeStrategySpawn}[r.Scn.Intn(2)]
	}
	if conc {
		genNoW(r.Scn, o)
		if r.Scn.Chance(30) {
			o.Out = &OutSpec{Size: 1, Interval: 1e7, Timeout: 1e9, Consumer: "reads"}
		}
	}
	sp.Composite = r.Scn.Weighted(5, 1, 1, 1)
	mutate := func(f func(u *pref.Using, rl *pref.Relic)) {
		former := sp.Mutate
		sp.Mutate = func(u *pref.Using, rl *pref.Relic) {
			if former != nil {
				former(u, rl)
			}
			f(u, rl)
		}
	}
	forest := func(f func() *core.Forest) {
		mutate(func(u *pref.Using, rl *pref.Relic) {
			u.GetForest = func(string) *core.Forest { return f() }
			rl.GetForest = u.GetForest
		})
	}
	abs := func() tfs.TraversalFS { return tfs.New() }
	rel := func() tfs.TraversalFS { return tfs.NewFS(nef.Rel{Root: "/data"}) }
	what := ""
	prep := false
	kinds := []string{"handler", "tree", "subscription", "forest", "forest.T", "forest.R", "option", "facade", "filter", "wake", "child", "nilfacade", "filter", "wake", "child", "sample", "sample", "subscription?"}
	if res {
		kinds = []string{"handler", "from", "forest", "forest.T", "forest.R", "option", "facade", "mismatch.T", "mismatch.R", "nilfacade", "strategy", "filter", "wake", "child", "sample", "strategy?"}
	}
	what = kinds[r.Scn.Intn(len(kinds))]
	if !res && r.Scn.Chance(25) {
		switch what {
		case "handler", "tree", "subscription", "forest", "forest.T", "forest.R":
			prep = true
			po := pref.DefaultOptions()
			for _, f := range o.settings(w.Arg) {
				if f != nil {
					_ = f(po)
				}
			}
			sp.Prep = po
		}
	}
	spoil := func(what string) string {
		switch what {
		case "handler":
			mutate(func(u *pref.Using, rl *pref.Relic) { u.Handler = nil; rl.Handler = nil })
		case "tree":
			mutate(func(u *pref.Using, rl *pref.Relic) { u.Tree = "" })
		case "from":
			mutate(func(u *pref.Using, rl *pref.Relic) { rl.From = "" })
		case "strategy":
			mutate(func(u *pref.Using, rl *pref.Relic) { rl.Strategy = enums.ResumeStrategyUndefined })
		case "subscription":
			mutate(func(u *pref.Using, rl *pref.Relic) { u.Subscription = enums.SubscribeUndefined })
		case "strategy?":
			mutate(func(u *pref.Using, rl *pref.Relic) { rl.Strategy = 77 })
		case "subscription?":
			mutate(func(u *pref.Using, rl *pref.Relic) { u.Subscription = 77 })
		case "forest":
			forest(func() *core.Forest { return nil })
		case "forest.T":
			forest(func() *core.Forest { return &core.Forest{R: abs()} })
		case "forest.R":
			forest(func() *core.Forest { return &core.Forest{T: w.traversal()} })
		case "mismatch.T":
			forest(func() *core.Forest {
				if w.Rel {
					return &core.Forest{T: abs(), R: abs()}
				}
				return &core.Forest{T: rel(), R: abs()}
			})
		case "mismatch.R":
			forest(func() *core.Forest { return &core.Forest{T: w.traversal(), R: rel()} })
		case "option":
			sp.Extra = append(sp.Extra, func(*pref.Options) error { return errOption })
		case "filter":
			var def core.FilterDef
			def, what = brokenFilter(r.Scn, what)
			fo := &pref.FilterOptions{Node: &def}
			switch r.Scn.Weighted(3, 2, 1) {
			case 1:
				// together with a child filter there is nothing wrong with
				o.Sub = enums.SubscribeDirectoriesWithFiles
				fo.Child = &core.ChildFilterDef{Type: enums.FilterTypeGlob, Description: "fine", Pattern: "*"}
				what += " child"
			case 2:
				// a client's own, which refuses to be used
				fo.Node, fo.Custom = nil, refusing{}
				what = "filter refuses"
			}
			sp.Extra = append(sp.Extra, pref.WithFilter(fo))
		case "wake":
			var def core.FilterDef
			def, what = brokenFilter(r.Scn, what)
			ho := &core.HibernateOptions{WakeAt: &def}
			if r.Scn.Chance(50) {
				what += " sleep"
				ho.WakeAt, ho.SleepAt = nil, &def
			}
			if r.Scn.Chance(40) {
				// together with one there is nothing wrong with
				fine := &core.FilterDef{Type: enums.FilterTypeGlob, Description: "fine", Pattern: "*", Scope: enums.ScopeAll}
				if ho.WakeAt == nil {
					ho.WakeAt = fine
				} else {
					ho.SleepAt = fine
				}
				what += " both"
			}
			sp.Extra = append(sp.Extra, pref.WithHibernationOptions(ho))
		case "child":
			o.Sub = enums.SubscribeDirectoriesWithFiles
			defs := []core.ChildFilterDef{
				{Type: enums.FilterTypeRegex, Pattern: "("}, {Type: enums.FilterTypeGlob, Pattern: "[a-"}, {Type: enums.FilterTypePoly, Pattern: "*"},
				{Type: enums.FilterTypeGlobEx, Pattern: "*|*"}, {Type: enums.FilterTypeCustom, Pattern: "*"}, {Pattern: "*"}, {Type: 77, Pattern: "*"},
			}
			k := r.Scn.Intn(len(defs))
			what += fmt.Sprintf("#%d", k)
			defs[k].Description = "broken"
			fo := &pref.FilterOptions{Child: &defs[k]}
			switch r.Scn.Weighted(3, 2, 1) {
			case 1:
				fo.Node = &core.FilterDef{Type: enums.FilterTypeGlob, Description: "fine", Pattern: "*"}
				what += " node"
			case 2:
				fo.Custom = &customFilter{f: &FSpec{Kind: "custom", Mod: 2}, tree: w.Arg}
				what += " custom"
			}
			sp.Extra = append(sp.Extra, pref.WithFilter(fo))
		case "sample":
			defs := []core.SampleFilterDef{
				{Type: enums.FilterTypeRegex, Pattern: "("}, {Type: enums.FilterTypeGlob, Pattern: "[a-"}, {Type: enums.FilterTypePoly, Pattern: "*"},
				{Type: enums.FilterTypeGlobEx, Pattern: "*|*"}, {Type: enums.FilterTypeCustom, Pattern: "*"}, {Pattern: "*"}, {Type: 77, Pattern: "*"},
			}
			noOf := pref.EntryQuantities{Files: 2, Directories: 2}
			k := r.Scn.Intn(len(defs) + 4)
			what += fmt.Sprintf("#%d", k)
			def := &core.SampleFilterDef{Type: enums.FilterTypeGlob, Pattern: "*"}
			scope := []enums.FilterScope{enums.ScopeFile, enums.ScopeDirectory}[r.Scn.Intn(2)]
			switch {
			case k < len(defs):
				def = &defs[k]
			case k == len(defs):
				scope, noOf.Files = enums.ScopeFile, 0
			case k == len(defs)+1:
				scope, noOf.Directories = enums.ScopeDirectory, 0
			default:
				def = &core.SampleFilterDef{Type: enums.FilterTypeCustom, Custom: refusing{}}
			}
			def.Description, def.Scope = "broken", scope
			fo := &pref.FilterOptions{Sample: def}
			if r.Scn.Chance(30) {
				o.Sub = enums.SubscribeDirectoriesWithFiles
				fo.Child = &core.ChildFilterDef{Type: enums.FilterTypeGlob, Description: "fine", Pattern: "*"}
				what += " child"
			}
			sp.Extra = append(sp.Extra, pref.WithFilter(fo),
				pref.WithSamplingOptions(&pref.SamplingOptions{Type: enums.SampleTypeFilter, NoOf: noOf}))
		case "facade":
			sp.Wrong = 1
		case "nilfacade":
			sp.Wrong = 2
		}
		return what
	}
	what = spoil(what)
	also := ""
	if !prep && r.Scn.Chance(15) {
		// and something else besides
		also = spoil(kinds[r.Scn.Intn(len(kinds))])
	}
	r.NonTriv = true
	r.Faults["invalid-request"]++
	r.note("options: %v resume=%v request lacks %s and %q prepared=%v composite=%d", o, res, what, also, prep, sp.Composite)
	r.Cover[fmt.Sprintf("run=%v resume=%v %s", conc, res, what)]++
	before := r.writes()
	s := r.session(sp)
	var left []string
	out := r.sim(func() {
		s.run()
		settle(20e9)
		left = simrt.Active().LiveSystem()
	})
	tag := what
	if also != "" {
		tag += "+" + also
	}
	if f := ended(out, "a request with invalid "+what, r.Last); f != nil {
		f.Sig += ":" + tag
		return f
	}
	if s.Escaped != nil {
		return failf("panic-escapes:"+tag, "a request with invalid %s panics: %v [%s]", what, s.Escaped, s.EscStack)
	}
	if s.Err == nil {
		return failf("accepted:"+tag, "a request with invalid %s is accepted (%d callbacks)", what, len(s.Visits))
	}
	if len(s.Visits) > 0 || s.count("descend") > 0 {
		return failf("visits:"+tag, "a request with invalid %s visits %d nodes", what, len(s.Visits))
	}
	if n := r.writes(); n != before {
		return failf("writes:"+tag, "a request with invalid %s writes to storage", what)
	}
	if conc && !s.Waited {
		return failf("hang:"+tag, "a request with invalid %s: the wait group is not released", what)
	}
	if len(left) > 0 {
		return failf("leak:"+tag, "a request with invalid %s leaves behind %v", what, left)
	}
	if s.MetPanic != nil {
		return failf("result:"+tag, "reading the metrics of the result of a request with invalid %s panics: %v", what, s.MetPanic)
	}
	for k, n := range s.Met {
		if n != 0 {
			return failf("result:"+tag, "metric %v is %d after a request with invalid %s", k, n, what)
		}
	}
	// the documented errors
	for _, x := range []struct {
		what string
		err  error
	}{
		{"handler", locale.ErrUsageMissingHandler}, {"tree", locale.ErrUsageMissingTreePath},
		{"subscription", locale.ErrUsageMissingSubscription}, {"option", errOption},
		{"mismatch.T", locale.ErrCoreResumeFsMismatch}, {"mismatch.R", locale.ErrCoreResumeFsMismatch},
		{"forest", core.ErrNilForest},
	} {
		if x.what == what && also == "" && !errors.Is(s.Err, x.err) {
			return failf("which:"+tag, "a request with invalid %s is refused with %q instead of %q", what, s.Err, x.err)
		}
	}
	return nil
}
