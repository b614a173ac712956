package main

import (
	"errors"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"

	"simrt"
)

// HookSpec are the client's own hooks; each either replaces the default
// functionality or is chained after it. They are deterministic functions, so
// that the model can say what comes of them.
type HookSpec struct {
	Sort       string // salt of the order, "" = no hook
	SortChain  bool
	Hide       string // salt of the entries which aren't listed, "" = no hook
	HideChain  bool
	FileSub    bool
	DirSub     bool
	SubChain   bool
	Query      bool
	QueryChain bool
	Twice      bool   // what is chained, is chained a second time
	Refuse     string // salt of the directories that the hook refuses to read, "" = none
	Mend       bool   // the hook makes do with what can't be read
	Vouch      string // the name under which the hook answers for a tree that can't be examined
	Deny       bool   // the hook refuses to examine the tree
}

func (h *HookSpec) String() string {
	return fmt.Sprintf("{sort=%q/%v hide=%q/%v sub=%v,%v/%v query=%v/%v twice=%v refuse=%q mend=%v vouch=%q deny=%v}",
		h.Sort, h.SortChain, h.Hide, h.HideChain, h.FileSub, h.DirSub, h.SubChain, h.Query, h.QueryChain, h.Twice, h.Refuse, h.Mend, h.Vouch, h.Deny)
}

var errHook = errors.New("the client's hook refuses")

func genHooks(s *simrt.Stream, caseHook bool) *HookSpec {
	h := &HookSpec{}
	k := 1 + s.Intn(31) // which ones
	if k&1 != 0 && !caseHook {
		h.Sort, h.SortChain = fmt.Sprint(s.Intn(1000)), s.Chance(40)
	}
	if k&2 != 0 {
		h.Hide, h.HideChain = fmt.Sprint(s.Intn(1000)), s.Chance(40)
	}
	h.FileSub, h.DirSub, h.Query = k&4 != 0, k&8 != 0, k&16 != 0
	h.SubChain, h.QueryChain = s.Chance(40), s.Chance(40)
	h.Twice = s.Chance(25)
	return h
}

// faulty makes the reading hook one that has its own idea of what can be read.
func (h *HookSpec) faulty(s *simrt.Stream) {
	if h.Hide == "" {
		h.Hide, h.HideChain = fmt.Sprint(s.Intn(1000)), s.Chance(40)
	}
	if s.Chance(50) {
		h.Refuse = fmt.Sprint(s.Intn(1000))
	}
	h.Mend = s.Chance(50)
}

// refused says whether the hook refuses to read a directory, by its name.
func (h *HookSpec) refused(name string) bool {
	return h != nil && h.Refuse != "" && hash(h.Refuse, name)%6 == 0
}

// vouched is what is known of a tree that can't be examined.
type vouched struct{ name string }

func (v vouched) Name() string       { return v.name }
func (v vouched) Size() int64        { return 0 }
func (v vouched) Mode() fs.FileMode  { return fs.ModeDir | 0o755 }
func (v vouched) ModTime() time.Time { return time.Time{} }
func (v vouched) IsDir() bool        { return true }
func (v vouched) Sys() any           { return nil }

func (h *HookSpec) less(a, b string) bool {
	salt := h.Sort
	if h.SortChain && h.Twice {
		salt += "2"
	}
	return lessBy(salt, a, b)
}

func lessBy(salt, a, b string) bool {
	x, y := hash(salt, a), hash(salt, b)
	if x != y {
		return x < y
	}
	return a < b
}

func (h *HookSpec) hidden(name string) bool {
	return h.Hide != "" && (hash(h.Hide, name)%4 == 0 || (h.HideChain && h.Twice && hash(h.Hide+"2", name)%6 == 0))
}

// sub is what the sub path hook makes of a node.
func (h *HookSpec) sub(dir bool, tree, full string, depth int, keep bool) string {
	return fmt.Sprintf("<%v|%s|%s|%d|%v>//", dir, tree, full, depth, keep)
}

// marked is what the status hook answers.
type marked struct{ fs.FileInfo }

type mark struct{ n int }

func (m marked) Sys() any {
	if x, ok := m.FileInfo.(marked); ok {
		return mark{x.Sys().(mark).n + 1}
	}
	return mark{1}
}

func (h *HookSpec) times() int {
	if h.Twice {
		return 2
	}
	return 1
}

func (h *HookSpec) options() []pref.Option {
	var out []pref.Option
	if h.Sort != "" {
		by := func(salt string) core.SortHook {
			return func(es []fs.DirEntry, _ ...any) {
				sort.Slice(es, func(i, j int) bool { return lessBy(salt, es[i].Name(), es[j].Name()) })
			}
		}
		if h.SortChain {
			out = append(out, func(o *pref.Options) error { o.Hooks.Sort.Chain(core.ChainSortHook(by(h.Sort))); return nil })
			if h.Twice {
				out = append(out, func(o *pref.Options) error { o.Hooks.Sort.Chain(core.ChainSortHook(by(h.Sort + "2"))); return nil })
			}
		} else {
			out = append(out, pref.WithHookSort(by(h.Sort)))
		}
	}
	if h.Hide != "" {
		without := func(es []fs.DirEntry, salt string, mod uint64) []fs.DirEntry {
			var k []fs.DirEntry
			for _, e := range es {
				if hash(salt, e.Name())%mod != 0 {
					k = append(k, e)
				}
			}
			return k
		}
		if h.HideChain {
			out = append(out, func(o *pref.Options) error {
				o.Hooks.ReadDirectory.Chain(func(es []fs.DirEntry, err error, _ fs.ReadDirFS, dir string) ([]fs.DirEntry, error) {
					switch {
					case h.refused(path.Base(dir)):
						return nil, errHook
					case err != nil && h.Mend:
						return nil, nil
					}
					return without(es, h.Hide, 4), err
				})
				return nil
			})
			if h.Twice {
				out = append(out, func(o *pref.Options) error {
					o.Hooks.ReadDirectory.Chain(func(es []fs.DirEntry, err error, _ fs.ReadDirFS, _ string) ([]fs.DirEntry, error) {
						return without(es, h.Hide+"2", 6), err
					})
					return nil
				})
			}
		} else {
			out = append(out, pref.WithHookReadDirectory(func(sys fs.ReadDirFS, dir string) ([]fs.DirEntry, error) {
				if h.refused(path.Base(dir)) {
					return nil, errHook
				}
				es, err := sys.ReadDir(dir)
				if h.Mend {
					err = nil
				}
				return without(es, h.Hide, 4), err
			}))
		}
	}
	sub := func(dir bool) core.SubPathHook {
		return func(i *core.SubPathInfo) string {
			return h.sub(dir, i.Tree, i.Node.Path, i.Node.Extension.Depth, i.KeepTrailingSep)
		}
	}
	chain := func(dir bool) core.ChainSubPathHook {
		f := sub(dir)
		return func(res string, i *core.SubPathInfo) string { return res + f(i) }
	}
	if h.FileSub {
		if h.SubChain {
			for range h.times() {
				out = append(out, func(o *pref.Options) error { o.Hooks.FileSubPath.Chain(chain(false)); return nil })
			}
		} else {
			out = append(out, pref.WithHookFileSubPath(sub(false)))
		}
	}
	if h.DirSub {
		if h.SubChain {
			for range h.times() {
				out = append(out, func(o *pref.Options) error { o.Hooks.DirectorySubPath.Chain(chain(true)); return nil })
			}
		} else {
			out = append(out, pref.WithHookDirectorySubPath(sub(true)))
		}
	}
	if h.Query {
		if h.QueryChain {
			out = append(out, func(o *pref.Options) error {
				for range h.times() {
					o.Hooks.QueryStatus.Chain(func(i fs.FileInfo, err error, _ fs.StatFS, _ string) (fs.FileInfo, error) {
						switch {
						case h.Deny:
							return nil, errHook
						case err != nil && h.Vouch != "":
							return marked{vouched{h.Vouch}}, nil
						case err != nil:
							return i, err
						}
						return marked{i}, nil
					})
				}
				return nil
			})
		} else {
			out = append(out, pref.WithHookQueryStatus(func(sys fs.StatFS, p string) (fs.FileInfo, error) {
				if h.Deny {
					return nil, errHook
				}
				i, err := sys.Stat(p)
				switch {
				case err != nil && h.Vouch != "":
					return marked{vouched{h.Vouch}}, nil
				case err != nil:
					return i, err
				}
				return marked{i}, nil
			}))
		}
	}
	return out
}

// hooked is the sub path of a node after the client's hooks.
func (m *Model) hooked(n *MNode, sp string) string {
	h := m.O.Hook
	if h == nil || (n.Dir && !h.DirSub) || (!n.Dir && !h.FileSub) {
		return sp
	}
	x := h.sub(n.Dir, m.W.Arg, m.W.full(n.Rel), n.Depth, m.O.KeepSep)
	if h.SubChain {
		return sp + strings.Repeat(x, h.times())
	}
	return x
}

func init() {
	register(&Prop{ID: "C23", Quick: 400000, Thorough: 20000000, Exec: c23,
		Rule: "the client's hooks make a difference to the walk"})
}

// c23: hooks take effect wherever they concern and nothing else changes.
func c23(r *Run) *Fail {
	conc := r.Scn.Chance(25)
	r.strategy(conc)
	w := r.world(worldOpt{File: 2, ReadFail: 15, InfoFail: 10, Rel: 30, Listing: 40, DSStore: true, Wide: r.Scn.Chance(8), Partial: true})
	o := genOpts(r.Scn, Feat{Depth: 25, Filter: 30, Samp: 25, Hib: 15, Case: 25, Hooks: 100})
	if o.Samp != nil {
		for k := range w.ReadFail {
			w.ReadFail[k] = 0
		}
	}
	if r.Scn.Chance(25) {
		o.Hook.faulty(r.Scn)
	}
	o.hibSafe(w)
	if conc {
		genNoW(r.Scn, o)
	}
	r.note("options: %v", o)
	m := newModel(w, o)
	sp := &Spec{W: w, O: o, Run: conc, Reuse: 10, MaxDur: 1e6, DurSalt: "c23"}
	if ok, f := r.crashed(sp, m, 30); f != nil || !ok {
		return f
	}
	if o.Hook.Query && r.Flt.Chance(15) && w.Tree.Root.Dir {
		o.Hook.Vouch = path.Base(w.Base)
		r.Inject = func(op, name string, n int) (v vosVerdict, ok bool) {
			if op == "stat" && name == w.Base {
				return vosVerdict{Err: errInfo}, true
			}
			return v, false
		}
	}
	handler := sp.At == nil && o.Hib == nil && r.Scn.Chance(60)
	if handler {
		sp.Skip = func(string, bool, error) (enums.SkipTraversal, error) { return enums.SkipNoneTraversal, nil }
	}
	s := r.session(sp)
	out := r.sim(func() { s.run() })
	if f := ended(out, "session", r.Last); f != nil {
		return f
	}
	if f := quiet(s); f != nil {
		return f
	}
	want := sp.due(m)
	r.coverOpts(o, w)
	plain := *o
	plain.Hook = nil
	p := newModel(w, &plain)
	var was []string
	if ws := p.steps(); sp.At == nil {
		was = rels(ws)
	}
	h := o.Hook
	r.NonTriv = len(want) > 0 && (fmt.Sprint(was) != fmt.Sprint(rels(want)) || h.FileSub || h.DirSub || h.Query)
	if conc {
		if x := sameSet(want, s.order()); x != "" {
			return failf("sequence", "%s; handled %q, expected %q", x, s.order(), rels(want))
		}
	} else if x := follow(want, s.order()); x != "" {
		return failf("sequence", "%s; visited %q, expected %q", x, s.order(), rels(want))
	}
	for _, v := range s.Visits {
		if x := m.facts(v); x != "" {
			return failf("facts:"+factName(x), "%s", x)
		}
	}
	if handler {
		if f := s.asked(m, m.failing()); f != nil {
			return f
		}
	}
	return sinks(s)
}
