package main

import (
	"context"
	"errors"
	"fmt"
	"io/fs"
	"log/slog"
	"path"
	"regexp"
	"strings"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"

	"simrt"
)

// FSpec is a filter, both as the definition given to the system and as a
// predicate of the model.
type FSpec struct {
	Kind      string // regex glob globex custom poly
	Pattern   string
	Scope     enums.FilterScope
	Negate    bool
	INA       enums.TriStateBool
	File, Dir *FSpec // poly
	Salt      string // custom
	Mod       uint64
	re        *regexp.Regexp
}

func (f *FSpec) String() string {
	if f == nil {
		return "-"
	}
	if f.Kind == "poly" {
		return fmt.Sprintf("poly(%v,%v)", f.File, f.Dir)
	}
	return fmt.Sprintf("%s(%q scope=%d neg=%v ina=%d)", f.Kind, f.Pattern, uint32(f.Scope), f.Negate, f.INA)
}

func (f *FSpec) def(desc string) *core.FilterDef {
	if f == nil {
		return nil
	}
	d := &core.FilterDef{
		Description: desc, Pattern: f.Pattern, Scope: f.Scope, Negate: f.Negate, IfNotApplicable: f.INA,
	}
	switch f.Kind {
	case "regex":
		d.Type = enums.FilterTypeRegex
	case "glob":
		d.Type = enums.FilterTypeGlob
	case "globex":
		d.Type = enums.FilterTypeGlobEx
	case "custom":
		d.Type = enums.FilterTypeCustom
	case "poly":
		d.Type = enums.FilterTypePoly
		d.Poly = &core.PolyFilterDef{File: *f.File.def(desc + "-file"), Directory: *f.Dir.def(desc + "-dir")}
	}
	return d
}

type customFilter struct {
	f    *FSpec
	tree string
}

func (c *customFilter) Description() string          { return "custom" }
func (c *customFilter) Validate() error              { return nil }
func (c *customFilter) Source() string               { return "custom" }
func (c *customFilter) IsMatch(n *core.Node) bool    { return c.f.custom(relOf(c.tree, n.Path)) }
func (c *customFilter) IsApplicable(*core.Node) bool { return true }
func (c *customFilter) Scope() enums.FilterScope     { return enums.ScopeAll }
func (f *FSpec) custom(rel string) bool              { return hash(f.Salt, rel)%f.Mod != 0 }
func (f *FSpec) usesCustom() bool                    { return f != nil && f.Kind == "custom" }

// relOf turns a path handed out by the system into the model's relative one.
func relOf(tree, p string) string {
	c := path.Clean(p)
	t := path.Clean(tree)
	if c == t {
		return ""
	}
	if t == "." {
		return c
	}
	if strings.HasPrefix(c, t+"/") {
		return c[len(t)+1:]
	}
	return "!" + p // outside the tree
}

func (f *FSpec) match(n *MNode) bool {
	ina := f.INA != enums.TriStateBoolFalse
	scope := f.Scope
	if scope == enums.ScopeUndefined {
		scope = enums.ScopeAll
	}
	inv := func(b bool) bool { return b != f.Negate }
	switch f.Kind {
	case "custom":
		return f.custom(n.Rel)
	case "regex":
		if scope&n.Scope == 0 {
			return ina
		}
		if f.re == nil {
			f.re = regexp.MustCompile(f.Pattern)
		}
		return inv(f.re.MatchString(n.Name))
	case "glob":
		if scope&n.Scope == 0 {
			return ina
		}
		m, _ := path.Match(f.Pattern, n.Name)
		return inv(m)
	case "globex":
		if n.Dir {
			return ina
		}
		parts := strings.SplitN(f.Pattern, "|", 2)
		glob, excl := strings.ToLower(parts[0]), ""
		if i := strings.Index(glob, "/"); i >= 0 {
			glob, excl = glob[:i], glob[i+1:]
		}
		if n.Up != nil {
			pn := strings.ToLower(n.Up.Name)
			if m, _ := path.Match(glob, pn); !m {
				return ina
			}
			if m, _ := path.Match(excl, pn); m {
				return ina
			}
		}
		for _, ext := range strings.Split(parts[1], ",") {
			ext = strings.ToLower(strings.TrimSpace(ext))
			if ext == "" || ext == "!" {
				continue
			}
			i := strings.LastIndex(ext, ".")
			base, excl := ext[:i], strings.HasPrefix(ext[i+1:], "!")
			if base == "" {
				base = "*"
			}
			m, _ := path.Match(base+"."+strings.TrimPrefix(ext[i+1:], "!"), strings.ToLower(n.Name))
			if m != excl {
				return inv(true)
			}
			if excl {
				return inv(false)
			}
		}
		return inv(false)
	case "poly":
		if n.Dir {
			return true
		}
		fs := *f.File
		fs.Scope = fs.Scope&^enums.ScopeDirectory | enums.ScopeFile
		ds := *f.Dir
		ds.Scope = ds.Scope&^enums.ScopeFile | enums.ScopeDirectory
		return (n.Up == nil || ds.match(n.Up)) && fs.match(n)
	}
	return true
}

var regexes = []string{".", "a", "^[a-mA-M]", `txt$`, `\.jpg$`, "^z", "[0-9]", "^d|e$", "o"}
var globs = []string{"*", "*.txt", "a*", "[a-m]*", "*.jpg", "?", "*o*", "d*"}
var globexes = []string{"*|*.txt", "*|*.txt,*.jpg", "a*|*.flac", "*/d*|*.txt", "*|a*.txt", "*/*a*|*.jpg,*.txt",
	"*|.txt", "*|", "*|*.!txt", "D*/*E*|K*.TXT", "*|*.jpg, *.txt", "*|,a*.Jpg,", "[A-M]*|[a-f]*.*", "*|*.flac,.!txt", "*|!,*.a.txt"}

func genFilter(s *simrt.Stream, kinds ...int) *FSpec {
	// weights: regex glob globex custom poly
	f := &FSpec{}
	switch s.Weighted(kinds...) {
	case 0:
		f.Kind = "regex"
		f.Pattern = regexes[s.Intn(len(regexes))]
	case 1:
		f.Kind = "glob"
		f.Pattern = globs[s.Intn(len(globs))]
	case 2:
		f.Kind = "globex"
		f.Pattern = globexes[s.Intn(len(globexes))]
		f.Negate = s.Chance(15)
		f.INA = enums.TriStateBool(s.Intn(3))
		f.Scope = enums.ScopeFile
		return f
	case 3:
		f.Kind = "custom"
		f.Salt = fmt.Sprint(s.Intn(1000))
		f.Mod = uint64(2 + s.Intn(4))
		return f
	case 4:
		f.Kind = "poly"
		f.File = genFilter(s, 3, 3)
		f.Dir = genFilter(s, 3, 3)
		f.File.Scope = enums.ScopeFile
		f.Dir.Scope = []enums.FilterScope{enums.ScopeDirectory, enums.ScopeDirectory | enums.ScopeLeaf, enums.ScopeDirectory | enums.ScopeTop}[s.Intn(3)]
		return f
	}
	f.Scope = []enums.FilterScope{
		enums.ScopeUndefined, enums.ScopeFile, enums.ScopeDirectory, enums.ScopeLeaf, enums.ScopeTop,
		enums.ScopeIntermediate, enums.ScopeTree, enums.ScopeFile | enums.ScopeDirectory,
	}[s.Weighted(6, 4, 4, 2, 2, 1, 1, 1)]
	f.Negate = s.Chance(25)
	f.INA = enums.TriStateBool(s.Intn(3))
	return f
}

type ChildSpec struct {
	Glob    bool
	Pattern string
	Negate  bool
	re      *regexp.Regexp
}

func (c *ChildSpec) match(name string) bool {
	var m bool
	if c.Glob {
		m, _ = path.Match(c.Pattern, name)
	} else {
		if c.re == nil {
			c.re = regexp.MustCompile(c.Pattern)
		}
		m = c.re.MatchString(name)
	}
	return m != c.Negate
}

type SampSpec struct {
	Files, Dirs uint
	Reverse     bool
	Filter      *SampFilter
}

// SampFilter decides which entries of one kind are eligible for a sample; those
// of the other kind are not concerned.
type SampFilter struct {
	Kind    string // regex glob custom
	Pattern string
	Dirs    bool // concerns directories, as opposed to files
	Negate  bool
	Salt    string
	re      *regexp.Regexp
}

func (s *SampSpec) String() string {
	if s.Filter == nil {
		return fmt.Sprintf("{files=%d dirs=%d reverse=%v}", s.Files, s.Dirs, s.Reverse)
	}
	f := s.Filter
	return fmt.Sprintf("{files=%d dirs=%d reverse=%v filter=%s(%q dirs=%v neg=%v)}", s.Files, s.Dirs, s.Reverse, f.Kind, f.Pattern, f.Dirs, f.Negate)
}

func (f *SampFilter) match(name string, dir bool) bool {
	if dir != f.Dirs {
		return true
	}
	m := false
	switch f.Kind {
	case "glob":
		m, _ = path.Match(f.Pattern, name)
	case "regex":
		if f.re == nil {
			f.re = regexp.MustCompile(f.Pattern)
		}
		m = f.re.MatchString(name)
	case "custom":
		return hash(f.Salt, name)%3 != 0
	}
	return m != f.Negate
}

func (f *SampFilter) def() *core.SampleFilterDef {
	d := &core.SampleFilterDef{
		Type: enums.FilterTypeRegex, Description: "sample filter", Pattern: f.Pattern, Scope: enums.ScopeFile, Negate: f.Negate,
	}
	if f.Dirs {
		d.Scope = enums.ScopeDirectory
	}
	switch f.Kind {
	case "glob":
		d.Type = enums.FilterTypeGlob
	case "custom":
		d.Type, d.Custom = enums.FilterTypeCustom, &customSample{f}
	}
	return d
}

// customSample is a client's own filter. Some clients build theirs upon what the
// library offers for this purpose.
type customSample struct{ f *SampFilter }

func (c *customSample) Description() string { return "custom sample" }
func (c *customSample) Validate() error     { return nil }
func (c *customSample) Matching(in []fs.DirEntry) []fs.DirEntry {
	if hash("base", c.f.Salt)%2 == 0 {
		scope := enums.ScopeFile
		if c.f.Dirs {
			scope = enums.ScopeDirectory
		}
		base := age.NewCustomSampleFilter(scope)
		return base.Matching(in, func(e fs.DirEntry, _ int) bool {
			return c.f.match(e.Name(), c.f.Dirs)
		})
	}
	var out []fs.DirEntry
	for _, e := range in {
		if c.f.match(e.Name(), e.IsDir()) {
			out = append(out, e)
		}
	}
	return out
}

func (o *Opts) sampFilter() *SampFilter {
	if o.Samp == nil {
		return nil
	}
	return o.Samp.Filter
}

// resupply says whether filters must be given again when resuming.
func (o *Opts) resupply() bool {
	f := o.sampFilter()
	return o.Filter.usesCustom() || (f != nil && f.Kind == "custom")
}

func (o *Opts) filters(tree string) pref.Option {
	fo := &pref.FilterOptions{}
	if o.Filter.usesCustom() {
		fo.Custom = &customFilter{o.Filter, tree}
	} else if o.Filter != nil {
		fo.Node = o.Filter.def("node filter")
	}
	if c := o.Child; c != nil {
		fo.Child = &core.ChildFilterDef{Type: enums.FilterTypeRegex, Description: "child filter", Pattern: c.Pattern, Negate: c.Negate}
		if c.Glob {
			fo.Child.Type = enums.FilterTypeGlob
		}
	}
	if f := o.sampFilter(); f != nil {
		fo.Sample = f.def()
	}
	if o.Alt&4 != 0 {
		fo.Sink = o.sink
	}
	return pref.WithFilter(fo)
}

type HibSpec struct {
	Wake, Sleep         *FSpec
	WakeIncl, SleepIncl bool
}

// OutSpec is how a concurrent run's outputs are configured and consumed.
type OutSpec struct {
	Size     uint
	Interval int64
	Timeout  int64
	Consumer string // "reads", "slow", "stops", "never"
	Slow     int64
	StopAt   int
}

// Opts is one configuration of a session.
type Opts struct {
	Sub        enums.Subscription
	Depth      uint
	NoRecurse  bool
	CaseHook   bool // case sensitive order by hook
	CaseBehav  bool // case sensitive order by behaviour
	FilesFirst bool
	KeepSep    bool
	Filter     *FSpec
	Child      *ChildSpec
	Samp       *SampSpec
	Hib        *HibSpec
	NoW        uint
	InSize     uint
	Out        *OutSpec
	Admin      string
	Hook       *HookSpec
	Alt        int // which of several ways of giving the same options: 1 behaviours, 2 hibernation, 4 sink
	Order      int // of the options given, 0: as they come
	sink       pref.FilteringSink
}

func (o *Opts) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "sub=%v depth=%d norec=%v caseHook=%v caseBehav=%v filesFirst=%v keepSep=%v", o.Sub, o.Depth, o.NoRecurse, o.CaseHook, o.CaseBehav, o.FilesFirst, o.KeepSep)
	if o.Filter != nil {
		fmt.Fprintf(&b, " filter=%v", o.Filter)
	}
	if o.Child != nil {
		fmt.Fprintf(&b, " child=%+v", *o.Child)
	}
	if o.Samp != nil {
		fmt.Fprintf(&b, " sampling=%v", o.Samp)
	}
	if o.Hib != nil {
		fmt.Fprintf(&b, " hib={wake=%v sleep=%v incl=%v/%v}", o.Hib.Wake, o.Hib.Sleep, o.Hib.WakeIncl, o.Hib.SleepIncl)
	}
	if o.Hook != nil {
		fmt.Fprintf(&b, " hooks=%v", o.Hook)
	}
	if o.NoW != 0 {
		fmt.Fprintf(&b, " now=%d in=%d", o.NoW, o.InSize)
	}
	if o.Out != nil {
		fmt.Fprintf(&b, " out=%+v", *o.Out)
	}
	return b.String()
}

// Feat says which features a generated configuration may use, as percentages.
type Feat struct {
	Depth, Filter, Samp, Hib, Case, Out int
	Hooks                               int
	Subs                                [4]int // files, dirs, dwf, universal
	NoCustom                            bool
	Wait                                bool
}

func (f Feat) subs() [4]int {
	if f.Subs == [4]int{} {
		return [4]int{3, 2, 2, 4}
	}
	return f.Subs
}

func genOpts(s *simrt.Stream, ft Feat) *Opts {
	o := &Opts{KeepSep: true}
	w := ft.subs()
	switch s.Weighted(w[3], w[0], w[1], w[2]) {
	case 0:
		o.Sub = enums.SubscribeUniversal
	case 1:
		o.Sub = enums.SubscribeFiles
	case 2:
		o.Sub = enums.SubscribeDirectories
	case 3:
		o.Sub = enums.SubscribeDirectoriesWithFiles
	}
	if s.Chance(ft.Depth) {
		if s.Chance(25) {
			o.NoRecurse = true
		} else {
			o.Depth = uint(1 + s.Intn(4))
		}
	}
	if s.Chance(ft.Case) {
		if s.Chance(50) {
			o.CaseHook = true
		} else {
			o.CaseBehav = true
		}
	}
	o.FilesFirst = s.Chance(30)
	o.KeepSep = !s.Chance(30)
	if s.Chance(ft.Filter) {
		cw := 3
		if ft.NoCustom {
			cw = 0
		}
		if o.Sub == enums.SubscribeDirectoriesWithFiles && s.Chance(60) {
			c := &ChildSpec{Glob: s.Chance(50), Negate: s.Chance(25)}
			if c.Glob {
				c.Pattern = globs[s.Intn(len(globs))]
			} else {
				c.Pattern = regexes[s.Intn(len(regexes))]
			}
			o.Child = c
			if s.Chance(50) {
				o.Filter = genFilter(s, 4, 4, 1, cw/3, 1)
			}
		} else {
			o.Filter = genFilter(s, 4, 4, 2, cw, 2)
		}
	}
	if s.Chance(ft.Samp) {
		o.Samp = &SampSpec{Files: uint(s.Intn(4)), Dirs: uint(s.Intn(4)), Reverse: s.Chance(40)}
		if o.Filter == nil && s.Chance(35) {
			f := &SampFilter{Dirs: s.Chance(50), Negate: s.Chance(25)}
			k := s.Weighted(4, 4, 2)
			switch {
			case k == 0:
				f.Kind, f.Pattern = "glob", globs[s.Intn(len(globs))]
			case k == 1:
				f.Kind, f.Pattern = "regex", regexes[s.Intn(len(regexes))]
			case ft.NoCustom:
				f.Kind, f.Pattern = "glob", "*[!e]"
			default:
				f.Kind, f.Salt = "custom", fmt.Sprint(s.Intn(1000))
			}
			o.Samp.Filter = f
			// the number of those it concerns must be given
			if f.Dirs {
				o.Samp.Dirs++
			} else {
				o.Samp.Files++
			}
		}
	}
	if s.Chance(ft.Hib) {
		o.Hib = genHib(s)
	}
	if ft.Hooks > 0 && s.Chance(ft.Hooks) {
		o.Hook = genHooks(s, o.CaseHook)
	}
	if s.Chance(30) {
		o.Alt = s.Intn(16)
	}
	if s.Chance(50) {
		o.Order = s.Intn(1 << 16)
	}
	return o
}

func genHib(s *simrt.Stream) *HibSpec {
	h := &HibSpec{}
	k := s.Weighted(4, 3, 2)
	if k != 2 {
		h.Wake = genFilter(s, 4, 4)
	}
	if k != 1 {
		h.Sleep = genFilter(s, 4, 4)
	}
	for _, f := range []*FSpec{h.Wake, h.Sleep} {
		if f != nil {
			// conditions which are not trivially true at once
			if f.INA != enums.TriStateBoolFalse && s.Chance(80) {
				f.INA = enums.TriStateBoolFalse
			}
			if s.Chance(70) {
				f.Negate = false
			}
		}
	}
	h.WakeIncl = !s.Chance(40)
	h.SleepIncl = s.Chance(40)
	return h
}

func genNoW(s *simrt.Stream, o *Opts) {
	o.NoW = uint([]int{2, 1, 3, 4, 8}[s.Weighted(4, 3, 3, 2, 1)])
	switch s.Weighted(5, 2, 2, 1) {
	case 1:
		o.InSize = 1
	case 2:
		o.InSize = uint(1 + s.Intn(6))
	case 3:
		o.InSize = 32
	}
}

// settings builds the option list for a prime session.
func (o *Opts) settings(tree string) []pref.Option {
	return o.mixed(append(each(o.saved(tree)), o.unsaved(tree, false)))
}

func each(list []pref.Option) [][]pref.Option {
	var out [][]pref.Option
	for _, f := range list {
		out = append(out, []pref.Option{f})
	}
	return out
}

// mixed puts options into the order the client gives them in. It means nothing,
// other than within a group.
func (o *Opts) mixed(groups [][]pref.Option) []pref.Option {
	var out []pref.Option
	if o.Order == 0 {
		for _, g := range groups {
			out = append(out, g...)
		}
		return out
	}
	n := 0
	left := make([][]pref.Option, 0, len(groups))
	for _, g := range groups {
		n += len(g)
		left = append(left, g)
	}
	for r := simrt.NewRand(uint64(o.Order)); n > 0; n-- {
		k, i := r.Intn(n), 0
		for ; k >= len(left[i]); i++ {
			k -= len(left[i])
		}
		out = append(out, left[i][0])
		left[i] = left[i][1:]
	}
	return out
}

// saved builds those options which a saved session carries.
func (o *Opts) saved(tree string) []pref.Option {
	var out []pref.Option
	sub := pref.SubPathBehaviour{KeepTrailingSep: o.KeepSep}
	sorting := pref.SortBehaviour{IsCaseSensitive: o.CaseBehav, SortFilesFirst: o.FilesFirst}
	if o.Alt&1 != 0 {
		out = append(out, pref.WithNavigationBehaviours(&pref.NavigationBehaviours{
			SubPath: sub, Sort: sorting, Cascade: pref.CascadeBehaviour{Depth: o.Depth, NoRecurse: o.NoRecurse},
		}))
	} else {
		out = append(out,
			pref.WithSubPathBehaviour(&sub), pref.WithSortBehaviour(&sorting),
			pref.IfOptionF(o.Depth > 0, func() pref.Option { return pref.WithDepth(o.Depth) }),
			pref.IfOption(o.NoRecurse, pref.WithNoRecurse()),
		)
	}
	if o.Filter != nil || o.Child != nil || o.sampFilter() != nil {
		out = append(out, o.filters(tree))
	}
	if o.Samp != nil {
		kind := enums.SampleTypeSlice
		if o.Samp.Filter != nil {
			kind = enums.SampleTypeFilter
		}
		out = append(out, pref.WithSamplingOptions(&pref.SamplingOptions{
			Type:      kind,
			InReverse: o.Samp.Reverse,
			NoOf:      pref.EntryQuantities{Files: o.Samp.Files, Directories: o.Samp.Dirs},
		}))
	}
	if h := o.Hib; h != nil && o.Alt&2 != 0 {
		// the defaults are an inclusive wake and an exclusive sleep
		out = append(out,
			pref.IfElseOptionF(h.Wake != nil,
				func() pref.Option { return pref.WithHibernationFilterWake(h.Wake.def("wake")) },
				func() pref.Option { return nil }),
			pref.IfOptionF(h.Sleep != nil, func() pref.Option { return pref.WithHibernationFilterSleep(h.Sleep.def("sleep")) }),
			pref.IfOption(!h.WakeIncl, pref.WithHibernationBehaviourExclusiveWake()),
			pref.IfOption(h.SleepIncl, pref.WithHibernationBehaviourInclusiveSleep()),
		)
	} else if h != nil {
		out = append(out, pref.WithHibernationOptions(&core.HibernateOptions{
			WakeAt:  h.Wake.def("wake"),
			SleepAt: h.Sleep.def("sleep"),
			Behaviour: core.HibernationBehaviour{
				InclusiveWake: h.WakeIncl, InclusiveSleep: h.SleepIncl,
			},
		}))
	}
	return out
}

// unsaved builds those options a saved session does not carry, which a client
// has to give again on resume.
func (o *Opts) unsaved(tree string, resuming bool) []pref.Option {
	var out []pref.Option
	if o.CaseHook {
		out = append(out, pref.WithHookCaseSensitiveSort())
	}
	if o.Hook != nil {
		out = append(out, o.Hook.options()...)
	}
	if resuming && o.resupply() {
		out = append(out, o.filters(tree))
	}
	if o.NoW > 0 {
		out = append(out, pref.WithNoW(o.NoW))
	}
	if o.InSize > 0 {
		n := o.InSize
		out = append(out, func(po *pref.Options) error {
			po.Concurrency.Input.Size = n
			return nil
		})
	}
	if o.Alt&8 != 0 {
		out = append(out, pref.WithLogger(slog.New(&journal{})))
	}
	if o.Admin != "" {
		out = append(out, pref.WithAdminPath(o.Admin))
	}
	return out
}

// journal is where a client's logger leads: a slow sink that refuses every
// other record, which is nothing a traversal may depend on.
type journal struct{ n int }

func (j *journal) Enabled(context.Context, slog.Level) bool { return true }
func (j *journal) WithAttrs([]slog.Attr) slog.Handler       { return j }
func (j *journal) WithGroup(string) slog.Handler            { return j }
func (j *journal) Handle(context.Context, slog.Record) error {
	simrt.Yield("log")
	if j.n++; j.n%2 == 0 {
		return errors.New("the log is full")
	}
	return nil
}

// hibSafe keeps hibernation conditions off the scopes which an unreadable
// directory leaves undefined.
func (o *Opts) hibSafe(w *World) {
	if o.Hib == nil || (len(w.ReadFail) == 0 && (o.Hook == nil || o.Hook.Refuse == "")) {
		return
	}
	for k := range w.ReadFail {
		w.ReadFail[k] = 0
	}
	for _, f := range []*FSpec{o.Hib.Wake, o.Hib.Sleep, o.Filter} {
		if f != nil && f.Scope&(enums.ScopeLeaf|enums.ScopeIntermediate|enums.ScopeTop) != 0 {
			f.Scope = enums.ScopeDirectory
		}
		if f != nil && f.Kind == "poly" {
			f.Dir.Scope = enums.ScopeDirectory
		}
	}
}
