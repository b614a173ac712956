package main

import (
	"simrt"

	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"

	"github.com/snivilised/agenor/enums"
)

// World is the part of a scenario that exists before a session starts: the
// tree, where it is on the disk, how it is addressed and what is broken in it.
type World struct {
	Tree     *Tree
	Base     string         // where the tree's root is on the disk
	Arg      string         // the tree path of the session
	Spelt    string         // how the client specifies it
	Rel      bool           // traversed through a relative file system
	FSRoot   string         // root of the relative file system
	Linked   bool           // the root is a link to a directory
	Listing  string         // salt of the raw listing order, "" = by name
	ReadFail map[string]int // directory -> entries listed before the failure
	InfoFail map[string]bool
}

func (w *World) String() string {
	s := fmt.Sprintf("tree=%q rel=%v listing=%q nodes={%s}", w.Arg, w.Rel, w.Listing, w.Tree)
	if w.Spelt != "" && w.Spelt != w.Arg {
		s += fmt.Sprintf(" spelt=%q", w.Spelt)
	}
	if w.Linked {
		s += " linked"
	}
	if len(w.ReadFail) > 0 {
		s += fmt.Sprintf(" unreadable=%q", keys(w.ReadFail))
	}
	if len(w.InfoFail) > 0 {
		s += fmt.Sprintf(" noinfo=%q", keys(w.InfoFail))
	}
	return s
}

func keys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// inner is a directory within a tree, as a tree. It is nil when there is none.
func (w *World) inner(s *simrt.Stream) *World {
	if w.Listing != "" || w.Linked {
		return nil
	}
	var dirs []*TNode
	for _, n := range w.Tree.All {
		if n.Dir && n.Up != nil {
			dirs = append(dirs, n)
		}
	}
	if len(dirs) == 0 {
		return nil
	}
	d := dirs[s.Intn(len(dirs))]
	x := *w
	x.Base = path.Join(w.Base, d.Rel)
	x.Arg = path.Join(w.Arg, d.Rel)
	x.Spelt = x.Arg
	x.ReadFail, x.InfoFail = map[string]int{}, map[string]bool{}
	x.Tree = &Tree{ByRel: map[string]*TNode{}}
	var grow func(n, up *TNode) *TNode
	grow = func(n, up *TNode) *TNode {
		c := *n
		c.Up, c.Kids = up, nil
		c.Rel, c.Depth = "", 0
		if up != nil {
			c.Rel, c.Depth = path.Join(up.Rel, n.Name), up.Depth+1
		}
		if k, ok := w.ReadFail[n.Rel]; ok {
			x.ReadFail[c.Rel] = k
		}
		if up != nil && w.InfoFail[n.Rel] {
			x.InfoFail[c.Rel] = true
		}
		x.Tree.All = append(x.Tree.All, &c)
		x.Tree.ByRel[c.Rel] = &c
		for _, k := range n.Kids {
			c.Kids = append(c.Kids, grow(k, &c))
		}
		return &c
	}
	x.Tree.Root = grow(d, nil)
	return &x
}

// raw is the order in which the disk lists the children of dir.
func (w *World) raw(dir *TNode) []*TNode {
	ks := append([]*TNode(nil), dir.Kids...)
	sort.Slice(ks, func(i, j int) bool { return w.listed(dir.Rel, ks[i].Name, ks[j].Name) })
	return ks
}

func (w *World) listed(dirRel, a, b string) bool {
	if w.Listing == "" {
		return a < b
	}
	return hash(w.Listing, dirRel, a) < hash(w.Listing, dirRel, b)
}

// MNode is a node as the model sees it.
type MNode struct {
	T        *TNode
	Rel      string
	Name     string
	Dir      bool
	Up       *MNode
	Scope    enums.FilterScope
	Depth    int
	Leaf     bool
	Fail     bool // listing fails
	Refused  bool // because the client's hook says so
	NoInfo   bool
	Kids     []*MNode // in visiting order, all that the listing offers
	Files    []string // names of files among Kids in order
	Ambig    bool     // leaf flag unknown (unreadable directory)
	Selected bool     // subscription selects it
	Pass     bool     // filter lets it through
	Opt      bool     // may or may not be visited
	Shadow   bool     // beneath an unreadable directory
}

// Model is the reference for one configuration over one world.
type Model struct {
	W    *World
	O    *Opts
	Root *MNode
	By   map[string]*MNode
	All  []*MNode // pre-order, within the depth limit
}

func newModel(w *World, o *Opts) *Model {
	m := &Model{W: w, O: o, By: map[string]*MNode{}}
	m.Root = m.build(w.Tree.Root, nil, false)
	return m
}

func (m *Model) less(a, b string) bool {
	if h := m.O.Hook; h != nil && h.Sort != "" {
		return h.less(a, b)
	}
	if m.O.CaseHook || m.O.CaseBehav {
		return a < b
	}
	return strings.ToLower(a) < strings.ToLower(b)
}

func (m *Model) limit() int {
	switch {
	case m.O.NoRecurse:
		return 1
	case m.O.Depth > 0:
		return int(m.O.Depth)
	}
	return 1 << 30
}

func (m *Model) build(t *TNode, up *MNode, shadow bool) *MNode {
	n := &MNode{T: t, Rel: t.Rel, Name: t.Name, Dir: t.Dir, Up: up, Depth: t.Depth, NoInfo: m.W.InfoFail[t.Rel], Shadow: shadow, Opt: shadow}
	if up == nil {
		n.Name = path.Base(m.W.Arg)
	}
	m.By[n.Rel] = n
	m.All = append(m.All, n)
	var files, dirs []*TNode
	if t.Dir {
		raw := m.W.raw(t)
		partial, fail := m.W.ReadFail[t.Rel]
		h := m.O.Hook
		switch {
		case h.refused(path.Base(m.W.full(t.Rel))):
			raw, fail, n.Refused = nil, true, true
		case fail && h != nil && h.Mend && h.HideChain:
			raw, fail = nil, false
		case fail && partial < len(raw):
			raw = raw[:partial]
			fail = h == nil || !h.Mend
		case fail:
			fail = h == nil || !h.Mend
		}
		n.Fail, n.Ambig = fail, fail
		for _, k := range raw {
			f := m.O.sampFilter()
			switch {
			case k.Name == ".DS_Store" && !(h != nil && h.Hide != "" && !h.HideChain):
			case h != nil && h.hidden(k.Name):
			case f != nil && !f.match(k.Name, k.Dir):
			case k.Dir:
				dirs = append(dirs, k)
			default:
				files = append(files, k)
			}
		}
		if s := m.O.Samp; s != nil {
			files = sample(files, s.Files, s.Reverse)
			dirs = sample(dirs, s.Dirs, s.Reverse)
		}
		for _, g := range [][]*TNode{files, dirs} {
			sort.Slice(g, func(i, j int) bool { return m.less(g[i].Name, g[j].Name) })
		}
		for _, f := range files {
			n.Files = append(n.Files, f.Name)
		}
		n.Leaf = len(dirs) == 0
		n.Scope = enums.ScopeIntermediate
		switch {
		case n.Depth == 0:
			n.Scope = enums.ScopeTree
		case n.Depth == 1:
			n.Scope = enums.ScopeTop
		case n.Leaf:
			n.Scope = enums.ScopeLeaf
		}
		if n.Leaf {
			n.Scope |= enums.ScopeLeaf
		}
		n.Scope |= enums.ScopeDirectory
	} else {
		n.Scope = enums.ScopeLeaf | enums.ScopeFile
	}
	switch m.O.Sub {
	case enums.SubscribeUniversal:
		n.Selected = true
	case enums.SubscribeFiles:
		n.Selected = !n.Dir
	default:
		n.Selected = n.Dir
	}
	n.Pass = m.passes(n)
	if n.Depth+1 <= m.limit() {
		kids := append(append([]*TNode{}, dirs...), files...)
		if m.O.FilesFirst {
			kids = append(append([]*TNode{}, files...), dirs...)
		}
		for _, k := range kids {
			n.Kids = append(n.Kids, m.build(k, n, shadow || n.Fail))
		}
	}
	return n
}

// sampledOut says whether a node is withheld for not belonging to the sample,
// which isn't counted, as opposed to being filtered out.
func (m *Model) sampledOut(n *MNode) bool {
	return n.Up == nil && !n.Pass && m.O.Filter == nil
}

// passes evaluates the node filter; a filter whose answer depends on whether an
// unreadable directory is a leaf makes the node optional.
func (m *Model) passes(n *MNode) bool {
	f := m.O.Filter
	if f == nil {
		// the tree is subject to the sample's filter itself
		if f := m.O.sampFilter(); f != nil && n.Up == nil {
			if !n.Dir {
				n.Opt = true // there is nothing to sample
				return true
			}
			is := f.match(path.Base(m.W.Base), true)
			for _, alias := range []string{path.Base(m.W.Arg), path.Base(m.W.Spelt)} {
				if is != f.match(alias, true) {
					n.Opt = true // by which name isn't defined
					return true
				}
			}
			return is
		}
		return true
	}
	p := f.match(n)
	amb := func(x *MNode) bool { return x != nil && x.Ambig }
	if amb(n) || (f.Kind == "poly" && amb(n.Up)) {
		flip := func(x *MNode) *MNode {
			c := *x
			if x.Ambig {
				c.Scope ^= enums.ScopeLeaf
				if c.Depth > 1 {
					c.Scope ^= enums.ScopeIntermediate
				}
			}
			return &c
		}
		c := flip(n)
		if n.Up != nil {
			c.Up = flip(n.Up)
		}
		if f.match(c) != p {
			n.Opt = true
			return true
		}
	}
	return p
}

func sample(ents []*TNode, n uint, reverse bool) []*TNode {
	if n == 0 || int(n) >= len(ents) {
		return append([]*TNode(nil), ents...)
	}
	if reverse {
		return append([]*TNode(nil), ents[len(ents)-int(n):]...)
	}
	return append([]*TNode(nil), ents[:n]...)
}

// Step is one expected callback.
type Step struct {
	N   *MNode
	Opt bool
}

// base is the sequence without hibernation and directives.
func (m *Model) base() []Step {
	var out []Step
	for _, n := range m.All {
		if n.Selected && n.Pass {
			out = append(out, Step{n, n.Opt})
		}
	}
	return out
}

// Window describes what hibernation does to the walk.
type Window struct {
	Wake, Sleep *MNode // nodes at which the announcements are made
	Steps       []Step
}

// window applies hibernation, which sees nodes before the filter does.
func (m *Model) window() Window {
	h := m.O.Hib
	if h == nil {
		return Window{Steps: m.base()}
	}
	var w Window
	state := 0
	if h.Wake == nil {
		state = 1
	}
	for _, n := range m.All {
		if !n.Selected {
			continue
		}
		in := false
		switch state {
		case 0:
			if h.Wake.match(n) {
				w.Wake = n
				state = 1
				in = h.WakeIncl
			}
		case 1:
			in = true
			if h.Sleep != nil && h.Sleep.match(n) {
				w.Sleep = n
				state = 2
				in = h.SleepIncl
			}
		}
		if in && n.Pass {
			w.Steps = append(w.Steps, Step{n, n.Opt})
		}
	}
	return w
}

func (m *Model) steps() []Step { return m.window().Steps }

func rels(steps []Step) []string {
	out := make([]string, len(steps))
	for i, s := range steps {
		out[i] = s.N.Rel
	}
	return out
}

// full is the path the system should use for a node.
func (w *World) full(rel string) string {
	if rel == "" {
		return w.Arg
	}
	return path.Join(w.Arg, rel)
}

// facts compares what a callback was given with the truth; it returns "" when
// all is well.
func (m *Model) facts(v *Visit) string {
	n := m.By[v.Rel]
	if n == nil {
		return fmt.Sprintf("callback for %q, which is not a node of the walk", v.Path)
	}
	bad := func(what string, got, want any) string {
		return fmt.Sprintf("node %q: %s is %#v, should be %#v", n.Rel, what, got, want)
	}
	full := m.W.full(n.Rel)
	if v.Path != full {
		return bad("path", v.Path, full)
	}
	if v.Dir != n.Dir {
		return bad("IsDirectory", v.Dir, n.Dir)
	}
	if v.Ext.Name != n.Name {
		return bad("name", v.Ext.Name, n.Name)
	}
	pdir, _ := path.Split(full)
	if v.Ext.Parent != pdir {
		return bad("parent path", v.Ext.Parent, pdir)
	}
	if v.Ext.Depth != n.Depth {
		return bad("depth", v.Ext.Depth, n.Depth)
	}
	if n.Dir && !n.Ambig && v.Ext.IsLeaf != n.Leaf {
		return bad("leaf flag", v.Ext.IsLeaf, n.Leaf)
	}
	if !n.Dir && v.Ext.IsLeaf {
		return bad("leaf flag of a file", true, false)
	}
	if !n.Ambig && v.Ext.Scope != n.Scope {
		return bad("scope", v.Ext.Scope, n.Scope)
	}
	if sp := m.subPath(n); v.Ext.SubPath != sp {
		return bad("sub path", v.Ext.SubPath, sp)
	}
	if n.Up == nil {
		if v.Parent != nil {
			return bad("parent node", v.Parent.Path, nil)
		}
	} else {
		if v.Parent == nil {
			return bad("parent node", nil, m.W.full(n.Up.Rel))
		}
		if v.Parent.Path != m.W.full(n.Up.Rel) {
			return bad("parent node", v.Parent.Path, m.W.full(n.Up.Rel))
		}
		if !v.Parent.IsDirectory() || v.Parent.Extension.Depth != n.Depth-1 {
			return bad("parent node's depth", v.Parent.Extension.Depth, n.Depth-1)
		}
		if v.Entry == nil || v.Entry.Name() != n.Name || v.Entry.IsDir() != n.Dir {
			return bad("entry", entName(v.Entry), n.Name)
		}
	}
	if n.NoInfo {
		if v.NodeErr == nil {
			return bad("error", nil, "the failure to obtain its details")
		}
	} else {
		if v.NodeErr != nil {
			return bad("error", v.NodeErr.Error(), nil)
		}
		if v.Info == nil || v.Info.IsDir() != n.Dir || (v.Info.Name() != n.Name && n.Up != nil) {
			return bad("info", "wrong or missing", n.Name)
		}
		if !n.Dir && v.Info.Size() != int64(n.T.Size) {
			return bad("size", v.Info.Size(), n.T.Size)
		}
	}
	if h := m.O.Hook; h != nil && h.Query && n.Up == nil && v.NodeErr == nil {
		k := 1
		if h.QueryChain {
			k = h.times()
		}
		if x, ok := v.Info.Sys().(mark); !ok || x.n != k {
			return bad("status", "that of the file system", "what the status hook answered")
		}
	}
	if m.O.Sub == enums.SubscribeDirectoriesWithFiles && !n.Fail {
		want := n.Files
		// the plain behaviour is switched off by another filter
		active := m.O.Filter == nil && m.O.sampFilter() == nil
		if c := m.O.Child; c != nil {
			active = true
			var k []string
			for _, f := range n.Files {
				if c.match(f) {
					k = append(k, f)
				}
			}
			want = k
		}
		if active && strings.Join(v.Children, "\x00") != strings.Join(want, "\x00") {
			return bad("children", v.Children, want)
		}
	}
	return ""
}

func entName(e fs.DirEntry) string {
	if e == nil {
		return "<none>"
	}
	return e.Name()
}

func (m *Model) subPath(n *MNode) string {
	sp := ""
	if n.Up != nil {
		sp = "/"
		if n.Up.Rel != "" {
			sp = "/" + n.Up.Rel + "/"
		}
	}
	sp = m.hooked(n, sp)
	if !m.O.KeepSep {
		sp = strings.TrimSuffix(sp, "/")
	}
	return sp
}

// follow compares an actual sequence with an expected one which may contain
// optional steps.
func follow(want []Step, got []string) string {
	i := 0
	seen := map[string]bool{}
	for k, g := range got {
		if seen[g] {
			return fmt.Sprintf("node %q visited twice (visit %d)", g, k)
		}
		seen[g] = true
		j := i
		for j < len(want) && want[j].N.Rel != g && want[j].Opt {
			j++
		}
		if j == len(want) {
			return fmt.Sprintf("visit %d is %q, none further expected", k, g) + expl(want, i)
		}
		if want[j].N.Rel != g {
			return fmt.Sprintf("visit %d is %q, expected %q", k, g, want[j].N.Rel)
		}
		i = j + 1
	}
	for ; i < len(want); i++ {
		if !want[i].Opt {
			return fmt.Sprintf("node %q is never visited (walk ended after %d visits)", want[i].N.Rel, len(got))
		}
	}
	return ""
}

func expl(want []Step, i int) string {
	if i < len(want) {
		return fmt.Sprintf(" (next due %q)", want[i].N.Rel)
	}
	return ""
}

// same compares as sets, each exactly once.
func sameSet(want []Step, got []string) string {
	need := map[string]Step{}
	for _, w := range want {
		need[w.N.Rel] = w
	}
	seen := map[string]int{}
	for _, g := range got {
		if seen[g]++; seen[g] > 1 {
			return fmt.Sprintf("node %q handled %d times", g, seen[g])
		}
		if _, ok := need[g]; !ok {
			return fmt.Sprintf("node %q handled, which a sequential walk does not visit", g)
		}
	}
	for _, w := range want {
		if !w.Opt && seen[w.N.Rel] == 0 {
			return fmt.Sprintf("node %q is never handled (%d of %d are)", w.N.Rel, len(seen), len(want))
		}
	}
	return ""
}
