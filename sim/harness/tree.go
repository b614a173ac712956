package main

import (
	"io/fs"
	"path"
	"sort"
	"strings"

	"simrt"
	"simstd/vos"
)

// TNode is a node of the simulated tree. Rel is its path below the root, ""
// for the root itself.
type TNode struct {
	Name  string
	Rel   string
	Dir   bool
	Size  int
	Depth int
	Kids  []*TNode
	Up    *TNode
}

// special says what kind a file is that isn't a regular one.
func (n *TNode) special() int {
	if n.Dir || n.Up == nil || n.Size%11 != 10 {
		return 0
	}
	return 1 + n.Size/11%4
}

type Tree struct {
	Root  *TNode
	All   []*TNode
	ByRel map[string]*TNode
	Vast  bool
}

var fileNames = []string{
	"f.txt", "a.txt", "B.jpg", "c.flac", "Z.txt", "é.txt", "x", "a", "file10", "file9", "-d.txt",
	"b b.jpg", "_u.flac", "a.b.txt", "m", "ü.jpg", "K.TXT", "zz.flac", "README", "a!.txt", "日本.txt", "q.txt", "aa.jpg", "d", "01",
}

var dirNames = []string{
	"d", "a", "E", "root", "x", "b", "Music", "a.d", "sub", "é", "aB", "_t", "日本", "z", "10", "9", "b b", "A2", "n", "ad",
}

func (t *Tree) add(up *TNode, name string, dir bool, size int) *TNode {
	low := strings.ToLower(name)
	for _, k := range up.Kids {
		if strings.ToLower(k.Name) == low {
			return nil
		}
	}
	n := &TNode{Name: name, Dir: dir, Size: size, Depth: up.Depth + 1, Up: up, Rel: path.Join(up.Rel, name)}
	up.Kids = append(up.Kids, n)
	t.All = append(t.All, n)
	t.ByRel[n.Rel] = n
	return n
}

type TreeOpt struct {
	Max     int // most nodes below the root
	DirPct  int
	DSStore bool
	Wide    bool // larger flat groups
	Bytes   bool // names which are not text
	Small   bool // never vast
}

// genTree draws a tree; zero draws give the empty one.
func genTree(s *simrt.Stream, o TreeOpt) *Tree {
	t := &Tree{ByRel: map[string]*TNode{}}
	t.Root = &TNode{Name: "root", Dir: true}
	t.All = []*TNode{t.Root}
	t.ByRel[""] = t.Root
	dirs := []*TNode{t.Root}
	n := s.Intn(o.Max + 1)
	if o.DirPct == 0 {
		o.DirPct = 45
	}
	last := t.Root
	for i := 0; i < n; i++ {
		var up *TNode
		switch s.Weighted(5, 3, 2) {
		case 0:
			up = dirs[s.Intn(len(dirs))]
		case 1:
			up = dirs[len(dirs)-1]
		case 2:
			up = last
		}
		dir := s.Chance(o.DirPct)
		if dir {
			name := pickName(s, dirNames)
			if o.Bytes && s.Chance(20) {
				name += "\xfe"
			}
			if k := t.add(up, name, true, 0); k != nil {
				dirs = append(dirs, k)
				last = up
			}
		} else {
			name := ""
			if o.DSStore && s.Chance(3) {
				name = ".DS_Store"
			} else {
				name = pickName(s, fileNames)
			}
			if o.Bytes && s.Chance(20) {
				name = "\xff" + name
			}
			t.add(up, name, false, s.Intn(5000))
		}
	}
	if o.Wide && s.Chance(60) {
		// a run of similar names in one directory
		up := dirs[s.Intn(len(dirs))]
		k := s.Intn(o.Max)
		for i := 0; i < k; i++ {
			t.add(up, "w"+itoa3(i)+".txt", false, i)
		}
	}
	if !o.Small && s.Chance(1) {
		t.swell(s, dirs)
	}
	return t
}

// swell makes the tree large, in one way or another.
func (t *Tree) swell(s *simrt.Stream, dirs []*TNode) {
	t.Vast = true
	up := dirs[s.Intn(len(dirs))]
	put := func(up *TNode, name string, dir bool, size int) *TNode {
		if t.ByRel[path.Join(up.Rel, name)] != nil {
			return up
		}
		n := &TNode{Name: name, Dir: dir, Size: size, Depth: up.Depth + 1, Up: up, Rel: path.Join(up.Rel, name)}
		up.Kids = append(up.Kids, n)
		t.All = append(t.All, n)
		t.ByRel[n.Rel] = n
		return n
	}
	switch k := 30 + s.Intn(270); s.Intn(4) {
	case 0: // a directory of many files
		for i := 0; i < k; i++ {
			put(up, "v"+itoa3(i*7%k)+".txt", false, i)
		}
	case 1: // or directories, some of which aren't empty
		for i := 0; i < k; i++ {
			d := put(up, "v"+itoa3(i*7%k), true, 0)
			if i%5 == 0 {
				put(d, "f.txt", false, i)
			}
		}
	case 2: // a long way down
		for i := 0; i < k/3; i++ {
			d := put(up, "v"+itoa3(i), true, 0)
			if i%3 == 0 {
				put(up, "a.txt", false, i)
			}
			if i%4 == 1 {
				put(d, "z", true, 0)
			}
			up = d
		}
	case 3: // names as long as they get
		for i := 0; i < 3; i++ {
			name := strings.Repeat("v", 249) + itoa3(i)
			put(up, name, i > 0, i)
			if i > 0 {
				up = t.ByRel[path.Join(up.Rel, name)]
			}
		}
	}
}

// single makes the tree a file.
func (t *Tree) single(size int) {
	t.Root = &TNode{Name: t.Root.Name, Size: size}
	t.All = []*TNode{t.Root}
	t.ByRel = map[string]*TNode{"": t.Root}
}

func itoa3(i int) string {
	return string([]byte{byte('0' + i/100%10), byte('0' + i/10%10), byte('0' + i%10)})
}

// oddNames are awkward in one way or another, though perfectly good names.
var oddNames = []string{" lead", "trail ", "q\"uote", "back\\slash", "[x]", "a*b", "100%d", "new\nline", "..dots", ".hidden", "~", "$HOME",
	"<b>&", "...", "#1", "a,b;c", "C:", "null", "con.", "İ", "ß", "\u2028", "root", "ǅ.txt", "tab\t", "'", "-", "a|b", "{}", "?"}

func pickName(s *simrt.Stream, pool []string) string {
	if s.Chance(5) {
		return oddNames[s.Intn(len(oddNames))]
	}
	n := pool[s.Intn(len(pool))]
	if s.Chance(35) {
		n = string(rune('a'+s.Intn(26))) + n
	}
	return n
}

// put writes the tree onto the simulated disk below base.
func (t *Tree) put(f *vos.FS, base string) {
	for _, n := range t.All {
		p := path.Join(base, n.Rel)
		k := f.Put(p, n.Dir, nil)
		if !n.Dir {
			k.Size = int64(n.Size)
			switch n.special() {
			case 1:
				k.MakeLink(f.Lookup(base)) // back to the tree
			case 2:
				k.MakeLink(nil) // to nowhere
			case 3:
				k.Mode |= fs.ModeNamedPipe
			case 4:
				k.Mode |= fs.ModeDevice | fs.ModeCharDevice
			}
		}
	}
}

func (t *Tree) String() string {
	var out []string
	for _, n := range t.All {
		s := n.Rel
		if n.Dir {
			s += "/"
		}
		s += []string{"", "@", "@!", "|", "%"}[n.special()]
		out = append(out, s)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// under reports whether rel is dir or lies beneath it.
func under(rel, dir string) bool {
	return dir == "" || rel == dir || strings.HasPrefix(rel, dir+"/")
}

func hash(parts ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h = (h ^ uint64(p[i])) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	h ^= h >> 32
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	return h
}
