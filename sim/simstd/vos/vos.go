// Package vos is the simulated operating system's file system: one in-memory
// tree with a fault hook in front of every operation. It is what the code
// under test sees through package os while a simulation runs.
package vos

import (
	"errors"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"simrt"
)

// Inode is a file or a directory.
type Inode struct {
	Name string
	Dir  bool
	Data []byte
	Size int64 // reported size for files without data
	Mode fs.FileMode
	Mod  time.Time
	Kids map[string]*Inode
	Link *Inode // what a symbolic link leads to
	gone bool   // a directory that was removed
}

// end is what a name stands for once links have been followed.
func (n *Inode) end() *Inode {
	if n != nil && n.Link != nil {
		return n.Link
	}
	return n
}

// MakeLink turns a file into a link.
func (n *Inode) MakeLink(to *Inode) { n.Mode, n.Link = fs.ModeSymlink|0o777, to }

// Verdict is the hook's answer for one operation.
type Verdict struct {
	Err   error
	Short int  // for write: bytes that reach the disk before Err
	Kill  bool // the process dies here
}

// FS is one simulated disk.
type FS struct {
	Root *Inode
	Cwd  string
	Home string
	// Hook is called before every operation, n is the size for a write
	Hook  func(op, name string, n int) Verdict
	Ops   Tally
	Chunk int // write chunk size
	// Order permutes raw directory listings when not nil
	Order func(dir string, ents []fs.DirEntry)
	// OnWrite is told of every completed or failed mutation
	OnMutate func(op, name string)
	// Dead says that the process using this disk has died: nothing has an
	// effect any more
	Dead bool
}

// Tally counts by name. It isn't a map, since the race detector watches those
// wherever they are used.
type Tally struct {
	names []string
	n     []int
}

func (t *Tally) Add(name string) {
	for i, x := range t.names {
		if x == name {
			t.n[i]++
			return
		}
	}
	t.names = append(t.names, name)
	t.n = append(t.n, 1)
}

func (t *Tally) Of(name string) int {
	for i, x := range t.names {
		if x == name {
			return t.n[i]
		}
	}
	return 0
}

// Each calls f for every name.
func (t *Tally) Each(f func(name string, n int)) {
	for i, x := range t.names {
		f(x, t.n[i])
	}
}

// Cur is the disk of the running simulation.
var Cur *FS

func New() *FS {
	return &FS{
		Root:  &Inode{Name: "/", Dir: true, Mode: fs.ModeDir | 0o755, Kids: map[string]*Inode{}},
		Cwd:   "/work",
		Home:  "/home/user",
		Chunk: 512,
	}
}

func (f *FS) clean(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = f.Cwd + "/" + name
	}
	return path.Clean(name)
}

// Lookup finds an inode without faults or scheduling points.
func (f *FS) Lookup(name string) *Inode {
	n, _ := f.find(name)
	return n
}

func (f *FS) find(name string) (*Inode, error) {
	_, _, n, err := f.resolve(name)
	if err == nil && strings.HasSuffix(name, "/") && !n.end().Dir {
		return nil, syscall.ENOTDIR
	}
	return n, err
}

// resolve follows a name step by step. Should nothing but its last part be
// missing, then the directory is delivered in which that would be.
func (f *FS) resolve(name string) (par *Inode, base string, n *Inode, err error) {
	if name == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if strings.IndexByte(name, 0) >= 0 {
		return nil, "", nil, syscall.EINVAL
	}
	if len(name) > 4095 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	if !strings.HasPrefix(name, "/") {
		name = f.Cwd + "/" + name
	}
	stack, links := []*Inode{f.Root}, 0
	parts := strings.FieldsFunc(name, func(r rune) bool { return r == '/' })
	for i, part := range parts {
		n := stack[len(stack)-1]
		if n.Link != nil {
			if links++; links > 40 {
				return nil, "", nil, syscall.ELOOP
			}
		}
		if n = n.end(); !n.Dir {
			if n.Mode&fs.ModeSymlink != 0 {
				return nil, "", nil, syscall.ENOENT
			}
			return nil, "", nil, syscall.ENOTDIR
		}
		if !n.may(0o100) {
			return nil, "", nil, syscall.EACCES
		}
		switch part {
		case ".":
			continue
		case "..":
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			continue
		}
		if len(part) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		k := n.Kids[part]
		if k == nil {
			if i == len(parts)-1 {
				return n, part, nil, syscall.ENOENT
			}
			return nil, "", nil, syscall.ENOENT
		}
		stack = append(stack, k)
	}
	n = stack[len(stack)-1]
	if l := len(parts); l > 0 {
		base = parts[l-1]
	}
	if len(stack) > 1 {
		par = stack[len(stack)-2].end()
	}
	return par, base, n, nil
}

// may the owner, who isn't privileged, do this
func (n *Inode) may(perm fs.FileMode) bool { return n.Mode&perm == perm }

const umask = 0o022

func (f *FS) op(kind, name string, n int) Verdict {
	f.Ops.Add(kind)
	if simrt.InSim() {
		simrt.Yield("fs " + kind)
	}
	if f.Dead {
		return Verdict{Err: errDead}
	}
	if f.Hook != nil {
		v := f.Hook(kind, f.clean(name), n)
		if v.Kill {
			if kind == "write" && v.Short > 0 {
				v.Err = errDead
				return v // the caller completes the torn write
			}
			f.die()
		}
		return v
	}
	return Verdict{}
}

var errDead = errors.New("the process is dead")

func (f *FS) die() {
	f.Dead = true
	simrt.Abort("killed", "the process is killed")
}

func (f *FS) mutate(op, name string) {
	if f.OnMutate != nil {
		f.OnMutate(op, f.clean(name))
	}
}

func perr(op, name string, err error) error {
	return &fs.PathError{Op: op, Path: name, Err: err}
}

// Put creates a file or directory, with its parents, without faults.
func (f *FS) Put(name string, dir bool, data []byte) *Inode {
	p := f.clean(name)
	n := f.Root
	if p == "/" {
		return n
	}
	parts := strings.Split(p[1:], "/")
	for i, part := range parts {
		n = n.end()
		k := n.Kids[part]
		if k == nil {
			last := i == len(parts)-1
			k = &Inode{Name: part, Dir: !last || dir, Mode: 0o644, Mod: time.Unix(1735689600, 0).UTC()}
			if k.Dir {
				k.Kids = map[string]*Inode{}
				k.Mode = fs.ModeDir | 0o755
			} else {
				k.Data = data
				k.Size = int64(len(data))
			}
			n.Kids[part] = k
		}
		n = k
	}
	return n
}

// Delete removes a subtree, without faults.
func (f *FS) Delete(name string) bool {
	p := f.clean(name)
	par := f.Lookup(path.Dir(p)).end()
	if par == nil || par.Kids[path.Base(p)] == nil {
		return false
	}
	delete(par.Kids, path.Base(p))
	return true
}

// Files lists all the regular files below dir, sorted, without faults.
func (f *FS) Files(dir string) []string {
	var out []string
	var rec func(p string, n *Inode)
	rec = func(p string, n *Inode) {
		if !n.Dir {
			out = append(out, p)
			return
		}
		for _, k := range Names(n) {
			rec(path.Join(p, k), n.Kids[k])
		}
	}
	if n := f.Lookup(dir); n != nil {
		rec(f.clean(dir), n)
	}
	return out
}

func Names(n *Inode) []string {
	out := make([]string, 0, len(n.Kids))
	for k := range n.Kids {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type info struct {
	name string
	size int64
	mode fs.FileMode
	mod  time.Time
	dir  bool
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return i.mod }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() any           { return nil }

func infoOf(name string, n *Inode) info {
	return info{name, n.Size, n.Mode, n.Mod, n.Dir}
}

// basename is how a name given to stat is reported.
func basename(name string) string {
	for len(name) > 1 && name[len(name)-1] == '/' {
		name = name[:len(name)-1]
	}
	if i := strings.LastIndexByte(name, '/'); i >= 0 && name != "/" {
		name = name[i+1:]
	}
	return name
}

type entry struct {
	f    *FS
	path string
	i    info
}

func (e *entry) Name() string      { return e.i.name }
func (e *entry) IsDir() bool       { return e.i.dir }
func (e *entry) Type() fs.FileMode { return e.i.mode.Type() }
func (e *entry) Info() (fs.FileInfo, error) {
	if v := e.f.op("info", e.path, 0); v.Err != nil {
		return nil, perr("lstat", e.path, v.Err)
	}
	if _, err := e.f.find(e.path); err != nil {
		return nil, perr("lstat", e.path, err)
	}
	return e.i, nil
}

func (f *FS) Stat(op, name string) (fs.FileInfo, error) {
	if v := f.op("stat", name, 0); v.Err != nil {
		return nil, perr(op, name, v.Err)
	}
	n, err := f.find(name)
	if err != nil {
		return nil, perr(op, name, err)
	}
	if op != "lstat" {
		if n.Mode&fs.ModeSymlink != 0 && n.Link == nil {
			return nil, perr(op, name, syscall.ENOENT)
		}
		n = n.end()
	}
	return infoOf(basename(name), n), nil
}

func (f *FS) ReadDir(name string) ([]fs.DirEntry, error) {
	v := f.op("readdir", name, 0)
	if v.Err != nil && v.Short == 0 {
		return nil, perr("open", name, v.Err)
	}
	n, err := f.find(name)
	if err != nil {
		return nil, perr("open", name, err)
	}
	if n = n.end(); !n.Dir {
		return nil, perr("open", name, syscall.ENOTDIR)
	}
	if !n.may(0o400) {
		return nil, perr("open", name, syscall.EACCES)
	}
	return f.list(n, name, v)
}

// list delivers the entries of a directory.
func (f *FS) list(n *Inode, name string, v Verdict) ([]fs.DirEntry, error) {
	var out []fs.DirEntry
	for _, k := range Names(n) {
		kid := n.Kids[k]
		out = append(out, &entry{f, path.Join(f.clean(name), k), infoOf(k, kid)})
	}
	if f.Order != nil {
		f.Order(f.clean(name), out)
	}
	if v.Err != nil {
		// a listing that fails part way: the entries read so far and the error
		if v.Short < len(out) {
			out = out[:v.Short]
		}
		return out, perr("readdirent", name, v.Err)
	}
	return out, nil
}

func (f *FS) ReadFile(name string) ([]byte, error) {
	v := f.op("read", name, 0)
	if v.Err != nil && v.Short == 0 {
		return nil, perr("open", name, v.Err)
	}
	n, err := f.find(name)
	if err != nil {
		return nil, perr("open", name, err)
	}
	if n.Dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	if !n.may(0o400) {
		return nil, perr("open", name, syscall.EACCES)
	}
	if v.Err != nil {
		// the read fails part way, or only at the end of the file
		return append([]byte{}, n.Data[:min(v.Short, len(n.Data))]...), perr("read", name, v.Err)
	}
	return append([]byte{}, n.Data...), nil
}

// place finds the directory and the name in it of something to be made,
// removed or moved, and what is there.
func (f *FS) place(name string) (par *Inode, base string, n *Inode, err error) {
	par, base, n, err = f.resolve(name)
	if err != nil && par == nil {
		return nil, "", nil, err
	}
	if par == nil || base == "." || base == ".." {
		return nil, base, n, nil
	}
	if n != nil && !n.Dir && strings.HasSuffix(name, "/") {
		return nil, "", nil, syscall.ENOTDIR
	}
	return par, base, n, nil
}

func (f *FS) Mkdir(name string, mode fs.FileMode) error {
	if v := f.op("mkdir", name, 0); v.Err != nil {
		return perr("mkdir", name, v.Err)
	}
	par, base, n, err := f.place(name)
	if par, _, _, e := f.resolve(name); e == syscall.ENOTDIR && par == nil {
		err = e
	}
	switch {
	case err == syscall.ENOTDIR && n == nil && f.exists(name):
		err = syscall.EEXIST
	case err != nil:
	case n != nil || par == nil:
		err = syscall.EEXIST
	case !par.may(0o300):
		err = syscall.EACCES
	}
	if err != nil {
		return perr("mkdir", name, err)
	}
	par.Kids[base] = &Inode{Name: base, Dir: true, Mode: fs.ModeDir | mode.Perm()&^umask, Kids: map[string]*Inode{}}
	f.mutate("mkdir", name)
	return nil
}

func (f *FS) exists(name string) bool {
	_, _, n, err := f.resolve(strings.TrimRight(name, "/"))
	return err == nil && n != nil
}

func (f *FS) MkdirAll(name string, mode fs.FileMode) error {
	if n, err := f.find(name); err == nil {
		if n.end().Dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	// as the original does it, textually
	i := len(name)
	for i > 0 && name[i-1] == '/' {
		i--
	}
	for i > 0 && name[i-1] != '/' {
		i--
	}
	for i > 0 && name[i-1] == '/' {
		i--
	}
	if i > 0 {
		if err := f.MkdirAll(name[:i], mode); err != nil {
			return err
		}
	}
	err := f.Mkdir(name, mode)
	if err != nil {
		if n, e := f.find(name); e == nil && n.Dir {
			return nil
		}
	}
	return err
}

func (f *FS) Remove(name string) error {
	if v := f.op("remove", name, 0); v.Err != nil {
		return perr("remove", name, v.Err)
	}
	par, base, n, err := f.place(name)
	switch {
	case err != nil:
	case n == nil:
		err = syscall.ENOENT
	case par == nil && base == ".":
		err = syscall.EINVAL
	case par == nil:
		err = syscall.ENOTEMPTY
	case !par.may(0o300):
		err = syscall.EACCES
	case n.Dir && len(n.Kids) > 0:
		err = syscall.ENOTEMPTY
	}
	if err != nil {
		return perr("remove", name, err)
	}
	delete(par.Kids, base)
	n.lose()
	f.mutate("remove", name)
	return nil
}

func (f *FS) RemoveAll(name string) error {
	if name == "" {
		return nil
	}
	if strings.HasSuffix(name, ".") && (name == "." || strings.HasSuffix(name, "/.")) {
		return perr("RemoveAll", name, syscall.EINVAL)
	}
	if v := f.op("remove", name, 0); v.Err != nil {
		return perr("unlinkat", name, v.Err)
	}
	par, base, n, err := f.place(name)
	switch {
	case err == syscall.ENOENT || (err == nil && n == nil):
		return nil
	case err != nil:
	case par == nil:
		err = syscall.ENOTEMPTY
	case !par.may(0o300):
		err = syscall.EACCES
	}
	if err != nil {
		return perr("unlinkat", name, err)
	}
	delete(par.Kids, base)
	n.lose()
	f.mutate("remove", name)
	return nil
}

// lose marks directories as removed, for those who still have them open.
func (n *Inode) lose() {
	if n.gone = n.Dir; n.Dir {
		for _, k := range n.Kids {
			k.lose()
		}
	}
}

func (n *Inode) holds(k *Inode) bool {
	if n == k {
		return true
	}
	for _, c := range n.Kids {
		if c.Dir && c.holds(k) {
			return true
		}
	}
	return false
}

func (f *FS) Rename(from, to string) error {
	v := f.op("rename", to, 0)
	err := v.Err
	var (
		fp, tp, n, o *Inode
		fb, tb       string
	)
	if err == nil {
		// as the original: what is there and is no directory gives way
		if _, _, o, e := f.resolve(to); e == nil && o.Dir {
			if _, _, n, e := f.resolve(from); e != nil {
				err = e
			} else if to == from || n != o {
				err = syscall.EEXIST
			}
		}
	}
	if err == nil {
		fp, fb, n, err = f.place(from)
	}
	if err == nil {
		tp, tb, o, err = f.place(to)
	}
	switch {
	case err != nil:
	case fp == nil || tp == nil:
		err = syscall.EBUSY
	case n == nil:
		err = syscall.ENOENT
	case !fp.may(0o300) || !tp.may(0o300):
		err = syscall.EACCES
	case strings.HasSuffix(to, "/") && !n.Dir:
		err = syscall.ENOTDIR
	case n == o:
		return nil
	case n.Dir && n.holds(tp):
		err = syscall.EINVAL
	case o != nil && n.Dir && !o.Dir:
		err = syscall.ENOTDIR
	}
	if err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	delete(fp.Kids, fb)
	n.Name = tb
	tp.Kids[tb] = n
	f.mutate("rename", to)
	return nil
}

func (f *FS) Link(from, to string) error {
	v := f.op("link", to, 0)
	err := v.Err
	var (
		tp, n, o *Inode
		tb       string
	)
	if err == nil {
		n, err = f.find(from)
	}
	if err == nil {
		tp, tb, o, err = f.place(to)
	}
	switch {
	case err != nil:
	case tp == nil || o != nil:
		err = syscall.EEXIST
	case n.Dir:
		err = syscall.EPERM
	case !tp.may(0o300):
		err = syscall.EACCES
	case strings.HasSuffix(to, "/"):
		err = syscall.ENOENT
	}
	if err != nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: err}
	}
	tp.Kids[tb] = n
	f.mutate("link", to)
	return nil
}

// File is an open file or directory.
type File struct {
	f      *FS
	n      *Inode
	name   string
	off    int64
	wr     bool
	app    bool
	rd     bool
	closed bool
	ents   []fs.DirEntry
	read   bool
}

const (
	oRDONLY = 0
	oWRONLY = 1
	oRDWR   = 2
	oAPPEND = 0x400
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
)

func (f *FS) OpenFile(name string, flag int, mode fs.FileMode) (*File, error) {
	kind := "open"
	if flag&(oCREATE|oTRUNC) != 0 {
		kind = "create"
	}
	if v := f.op(kind, name, 0); v.Err != nil {
		return nil, perr("open", name, v.Err)
	}
	n, err := f.find(name)
	fresh := err != nil
	if err != nil {
		if flag&oCREATE == 0 || err != syscall.ENOENT {
			return nil, perr("open", name, err)
		}
		par, base, _, e := f.place(name)
		switch {
		case e != nil:
		case par == nil:
			e = syscall.ENOENT
		case strings.HasSuffix(name, "/"):
			e = syscall.EISDIR
		case !par.may(0o300):
			e = syscall.EACCES
		}
		if e != nil {
			return nil, perr("open", name, e)
		}
		n = &Inode{Name: base, Mode: mode.Perm() &^ umask, Mod: time.Unix(1735689600, 0).UTC()}
		par.Kids[base] = n
		f.mutate("create", name)
	} else if flag&(oCREATE|oEXCL) == oCREATE|oEXCL {
		return nil, perr("open", name, syscall.EEXIST)
	}
	wr := flag&(oWRONLY|oRDWR) != 0
	if (!fresh && wr && !n.may(0o200)) || (!fresh && flag&oWRONLY == 0 && !n.may(0o400)) {
		return nil, perr("open", name, syscall.EACCES)
	}
	if n.Dir && (wr || flag&oCREATE != 0) {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&oTRUNC != 0 && wr && !n.Dir {
		n.Data = nil
		n.Size = 0
		f.mutate("truncate", name)
	}
	return &File{f: f, n: n, name: name, wr: wr, app: flag&oAPPEND != 0, rd: flag&oWRONLY == 0}, nil
}

func (h *File) Name() string { return h.name }

func (h *File) Write(p []byte) (int, error) {
	if h.closed {
		return 0, perr("write", h.name, fs.ErrClosed)
	}
	if !h.wr {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	total := 0
	for {
		c := len(p) - total
		if c > h.f.Chunk {
			c = h.f.Chunk
		}
		v := h.f.op("write", h.name, c)
		take := c
		if v.Err != nil {
			take = v.Short
			if take > c {
				take = c
			}
		}
		if h.app && take > 0 {
			h.off = int64(len(h.n.Data))
		}
		end := h.off + int64(take)
		if take > 0 && int64(len(h.n.Data)) < end {
			h.n.Data = append(h.n.Data, make([]byte, end-int64(len(h.n.Data)))...)
		}
		if take > 0 {
			copy(h.n.Data[h.off:end], p[total:total+take])
			h.off = end
		}
		h.n.Size = int64(len(h.n.Data))
		total += take
		h.f.mutate("write", h.name)
		if v.Kill {
			h.f.die()
		}
		if v.Err != nil {
			return total, perr("write", h.name, v.Err)
		}
		if total >= len(p) {
			return total, nil
		}
	}
}

func (h *File) Read(p []byte) (int, error) {
	if h.closed {
		return 0, perr("read", h.name, fs.ErrClosed)
	}
	if !h.rd {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if h.n.Dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if v := h.f.op("read", h.name, 0); v.Err != nil {
		return 0, perr("read", h.name, v.Err)
	}
	if h.off >= int64(len(h.n.Data)) {
		return 0, eof
	}
	c := copy(p, h.n.Data[h.off:])
	h.off += int64(c)
	return c, nil
}

func (h *File) Seek(o int64, whence int) (int64, error) {
	if h.closed {
		return 0, perr("seek", h.name, fs.ErrClosed)
	}
	switch whence {
	case 1:
		o += h.off
	case 2:
		o += int64(len(h.n.Data))
	}
	if o < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.off = o
	return h.off, nil
}

func (h *File) Truncate(n int64) error {
	if h.closed {
		return perr("truncate", h.name, fs.ErrClosed)
	}
	if !h.wr || n < 0 {
		return perr("truncate", h.name, syscall.EINVAL)
	}
	h.n.resize(n)
	h.f.mutate("truncate", h.name)
	return nil
}

func (n *Inode) resize(size int64) {
	if d := int64(len(n.Data)); size < d {
		n.Data = n.Data[:size]
	} else {
		n.Data = append(n.Data, make([]byte, size-d)...)
	}
	n.Size = size
}

// WriteString is Write for a string.
func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

// WriteAt writes at an offset and leaves the file's own where it was.
func (h *File) WriteAt(p []byte, at int64) (int, error) {
	if h.app || at < 0 {
		return 0, perr("writeat", h.name, syscall.EINVAL)
	}
	was := h.off
	h.off = at
	n, err := h.Write(p)
	h.off = was
	return n, err
}

// ReadAt reads at an offset and leaves the file's own where it was.
func (h *File) ReadAt(p []byte, at int64) (int, error) {
	if at < 0 {
		return 0, perr("readat", h.name, syscall.EINVAL)
	}
	was := h.off
	h.off = at
	n, err := h.Read(p)
	h.off = was
	if err == nil && n < len(p) {
		err = eof
	}
	return n, err
}

// Readdir is the older form of ReadDir.
func (h *File) Readdir(n int) ([]fs.FileInfo, error) {
	ents, err := h.ReadDir(n)
	var out []fs.FileInfo
	for _, e := range ents {
		i, bad := e.Info()
		if errors.Is(bad, fs.ErrNotExist) {
			continue
		}
		if bad != nil {
			return out, bad
		}
		out = append(out, i)
	}
	return out, err
}

func (h *File) Readdirnames(n int) ([]string, error) {
	ents, err := h.ReadDir(n)
	var out []string
	for _, e := range ents {
		out = append(out, e.Name())
	}
	return out, err
}

func (h *File) Chmod(mode fs.FileMode) error {
	h.n.chmod(mode)
	return nil
}

func (n *Inode) chmod(mode fs.FileMode) { n.Mode = n.Mode.Type() | mode.Perm() }

// Chmod changes the permissions of what a name leads to.
func (f *FS) Chmod(name string, mode fs.FileMode) error {
	n, err := f.find(name)
	if err != nil {
		return perr("chmod", name, err)
	}
	n.end().chmod(mode)
	return nil
}

// Truncate changes the size of a file.
func (f *FS) Truncate(name string, size int64) error {
	h, err := f.OpenFile(name, oWRONLY, 0)
	if err == nil {
		err = h.Truncate(size)
		if e := h.Close(); err == nil {
			err = e
		}
	}
	var pe *fs.PathError
	if errors.As(err, &pe) {
		pe.Op = "truncate"
	}
	return err
}

// Chtimes sets the modification time.
func (f *FS) Chtimes(name string, mod time.Time) error {
	n, err := f.find(name)
	if err != nil {
		return perr("chtimes", name, err)
	}
	n.end().Mod = mod
	return nil
}

// Readlink fails for what is no link; a link's target isn't kept as text.
func (f *FS) Readlink(name string) (string, error) {
	n, err := f.find(name)
	if err != nil {
		return "", perr("readlink", name, err)
	}
	if n.Mode&fs.ModeSymlink == 0 {
		return "", perr("readlink", name, syscall.EINVAL)
	}
	if n.Link == nil {
		return "nowhere", nil
	}
	return n.Link.Name, nil
}

func (h *File) Sync() error {
	if h.closed {
		return perr("sync", h.name, fs.ErrClosed)
	}
	if v := h.f.op("sync", h.name, 0); v.Err != nil {
		return perr("sync", h.name, v.Err)
	}
	return nil
}

func (h *File) Close() error {
	if h.closed {
		return perr("close", h.name, fs.ErrClosed)
	}
	h.closed = true
	if !h.wr {
		return nil
	}
	if v := h.f.op("close", h.name, 0); v.Err != nil {
		return perr("close", h.name, v.Err)
	}
	return nil
}

func (h *File) Stat() (fs.FileInfo, error) {
	if h.closed {
		return nil, perr("stat", h.name, fs.ErrClosed)
	}
	return infoOf(basename(h.name), h.n), nil
}

func (h *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if h.closed {
		return nil, perr("readdirent", h.name, errors.New("use of closed file"))
	}
	if !h.n.Dir {
		return nil, perr("readdirent", h.name, syscall.ENOTDIR)
	}
	if h.n.gone {
		return nil, perr("readdirent", h.name, syscall.ENOENT)
	}
	if !h.read {
		v := h.f.op("readdir", h.name, 0)
		if v.Err != nil && v.Short == 0 {
			return nil, perr("readdirent", h.name, v.Err)
		}
		e, err := h.f.list(h.n, h.name, v)
		if err != nil {
			return e, err
		}
		h.ents, h.read = e, true
	}
	if n <= 0 {
		out := h.ents
		h.ents = nil
		return out, nil
	}
	if len(h.ents) == 0 {
		return nil, eof
	}
	if n > len(h.ents) {
		n = len(h.ents)
	}
	out := h.ents[:n]
	h.ents = h.ents[n:]
	return out, nil
}

func (f *FS) WriteFile(name string, data []byte, mode fs.FileMode) error {
	h, err := f.OpenFile(name, oWRONLY|oCREATE|oTRUNC, mode)
	if err != nil {
		return err
	}
	_, err = h.Write(data)
	if e := h.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

// sub is the io/fs view of a directory, what os.DirFS gives.
type sub struct {
	f   *FS
	dir string
}

func (f *FS) DirFS(dir string) fs.FS { return &sub{f, dir} }

func (s *sub) join(op, name string) (string, error) {
	if s.dir == "" {
		return "", perr(op, name, errors.New("os: DirFS with empty root"))
	}
	if !fs.ValidPath(name) {
		return "", perr(op, name, fs.ErrInvalid)
	}
	return s.dir + "/" + name, nil
}

func rename(err error, name string) error {
	var pe *fs.PathError
	if errors.As(err, &pe) {
		pe.Path = name
	}
	return err
}

func (s *sub) Open(name string) (fs.File, error) {
	p, err := s.join("open", name)
	if err != nil {
		return nil, err
	}
	h, err := s.f.OpenFile(p, oRDONLY, 0)
	if err != nil {
		return nil, rename(err, name)
	}
	return h, nil
}

func (s *sub) ReadFile(name string) ([]byte, error) {
	p, err := s.join("readfile", name)
	if err != nil {
		return nil, err
	}
	b, err := s.f.ReadFile(p)
	if err != nil {
		return nil, rename(err, name)
	}
	return b, nil
}

func (s *sub) ReadDir(name string) ([]fs.DirEntry, error) {
	p, err := s.join("readdir", name)
	if err != nil {
		return nil, err
	}
	e, err := s.f.ReadDir(p)
	if err != nil {
		return e, rename(err, name)
	}
	return e, nil
}

func (s *sub) Stat(name string) (fs.FileInfo, error) {
	p, err := s.join("stat", name)
	if err != nil {
		return nil, err
	}
	i, err := s.f.Stat("stat", p)
	if err != nil {
		return nil, rename(err, name)
	}
	return i, nil
}
