// diskcheck compares the simulated disk with a real one: the same operations,
// drawn from a seed, on a scratch directory and on the simulation.
package main

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	sfp "simstd/filepath"
	sos "simstd/os"
	"simstd/vos"
)

type file interface {
	io.ReadWriteSeeker
	io.Closer
	io.ReaderAt
	io.WriterAt
	Truncate(int64) error
	Sync() error
	Stat() (fs.FileInfo, error)
	ReadDir(int) ([]fs.DirEntry, error)
	Readdirnames(int) ([]string, error)
	WriteString(string) (int, error)
}

type system struct {
	base              string
	open              func(string, int, fs.FileMode) (file, error)
	read              func(string) ([]byte, error)
	write             func(string, []byte, fs.FileMode) error
	stat, lstat       func(string) (fs.FileInfo, error)
	readdir           func(string) ([]fs.DirEntry, error)
	mkdir, mkdirall   func(string, fs.FileMode) error
	remove, removeall func(string) error
	rename, link      func(string, string) error
	truncate          func(string, int64) error
	dirfs             func(string) fs.FS
	walk              func(string, fs.WalkDirFunc) error
	glob              func(string) ([]string, error)
	files             []file
}

func opener[F file](f func(string, int, fs.FileMode) (F, error)) func(string, int, fs.FileMode) (file, error) {
	return func(n string, flag int, m fs.FileMode) (file, error) {
		h, err := f(n, flag, m)
		if err != nil {
			return nil, err
		}
		return h, nil
	}
}

func (s *system) strip(t string) string { return strings.ReplaceAll(t, s.base, "") }

func (s *system) bad(err error) string {
	if err == nil {
		return "ok"
	}
	var (
		no syscall.Errno
		pe *fs.PathError
		le *os.LinkError
		at string
	)
	switch {
	case errors.As(err, &pe):
		at = pe.Op + " " + pe.Path
	case errors.As(err, &le):
		at = le.Op + " " + le.Old + " " + le.New
	}
	if errors.As(err, &no) {
		return s.strip(fmt.Sprintf("%d (%s)", int(no), at))
	}
	return s.strip(fmt.Sprintf("%v (%s)", err, at))
}

func (s *system) info(i fs.FileInfo, err error) string {
	if err != nil {
		return s.bad(err)
	}
	size := i.Size()
	if i.IsDir() {
		size = 0
	}
	return fmt.Sprint(i.Name(), size, i.Mode(), i.IsDir())
}

func (s *system) entries(l []fs.DirEntry, err error) string {
	var out []string
	for _, e := range l {
		i, ie := e.Info()
		out = append(out, fmt.Sprint(e.Name(), e.IsDir(), e.Type(), s.info(i, ie)))
	}
	sort.Strings(out)
	return strings.Join(out, ",") + s.bad(err)
}

func name(r *rand.Rand) string {
	var parts []string
	for i := r.Intn(4); i >= 0; i-- {
		parts = append(parts, []string{"a", "b", "c", "a", "b", ".", ".."}[r.Intn(7)])
	}
	n := strings.Join(parts, "/")
	if strings.HasPrefix(filepath.Clean("/q/w/"+n), "/q/w") {
		return n
	}
	return "a"
}

func (s *system) do(r *rand.Rand) string {
	rel := name(r)
	to := name(r)
	n, n2 := s.base+"/"+rel, s.base+"/"+to
	data := []byte(strings.Repeat("x", r.Intn(5)) + "yz"[:r.Intn(3)])
	switch k := r.Intn(30); k {
	case 0:
		return "write " + n + s.bad(s.write(n, data, 0o644))
	case 1, 2:
		b, err := s.read(n)
		return "read " + n + string(b) + s.bad(err)
	case 3:
		return "stat " + n + s.info(s.stat(n))
	case 4:
		return "lstat " + n + s.info(s.lstat(n))
	case 5, 6:
		return "readdir " + n + s.entries(s.readdir(n))
	case 7, 8:
		return "mkdir " + n + s.bad(s.mkdir(n, 0o755))
	case 9:
		return "mkdirall " + n + s.bad(s.mkdirall(n, 0o755))
	case 10, 11:
		return "remove " + n + s.bad(s.remove(n))
	case 12:
		if c := filepath.Clean(n); c == s.base || strings.HasSuffix(n, "..") {
			return "" // nobody does that
		}
		return "removeall " + n + strings.SplitN(s.bad(s.removeall(n)), " ", 2)[0] // where depends on how it is done
	case 13, 14:
		return "rename " + n + " " + n2 + s.bad(s.rename(n, n2))
	case 15:
		return "link " + n + " " + n2 + s.bad(s.link(n, n2))
	case 16, 17, 18:
		flags := []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR}[r.Intn(3)]
		for _, f := range []int{os.O_CREATE, os.O_EXCL, os.O_TRUNC, os.O_APPEND} {
			if r.Intn(3) == 0 {
				flags |= f
			}
		}
		if flags&3 == os.O_RDONLY {
			flags &^= os.O_TRUNC // what this does is undefined
		}
		if flags&os.O_CREATE == 0 {
			flags &^= os.O_EXCL // likewise
		}
		h, err := s.open(n, flags, 0o644)
		if err == nil {
			s.files = append(s.files, h)
		}
		return fmt.Sprintf("open %s %x ", n, flags) + s.bad(err)
	case 19:
		return "truncate " + n + s.bad(s.truncate(n, int64(r.Intn(6))))
	case 20:
		f := s.dirfs(n)
		switch r.Intn(4) {
		case 0:
			return "fs stat " + rel + to + s.info(fs.Stat(f, to))
		case 1:
			return "fs readdir " + rel + to + s.entries(fs.ReadDir(f, to))
		case 2:
			b, err := fs.ReadFile(f, to)
			return "fs read " + rel + to + string(b) + s.bad(err)
		case 3:
			h, err := f.Open(to)
			out := "fs open " + rel + to + s.bad(err)
			if err == nil {
				out += s.info(h.Stat()) + s.bad(h.Close())
			}
			return out
		}
	case 21:
		var out []string
		err := s.walk(n, func(p string, d fs.DirEntry, err error) error {
			out = append(out, s.strip(p)+fmt.Sprint(d != nil && d.IsDir())+s.bad(err))
			if d != nil && d.IsDir() && d.Name() == "b" && len(out) > 2 {
				return fs.SkipDir
			}
			return nil
		})
		return "walk " + rel + strings.Join(out, ",") + s.bad(err)
	case 22:
		l, err := s.glob(s.base + "/" + []string{"*", "a/*", "*/b", "[ab]*/?"}[r.Intn(4)])
		return "glob " + s.strip(strings.Join(l, ",")) + s.bad(err)
	}
	if len(s.files) == 0 {
		return ""
	}
	i := r.Intn(len(s.files))
	h := s.files[i]
	buf := make([]byte, r.Intn(5))
	at := int64(r.Intn(6))
	what := r.Intn(12)
	if i, err := h.Stat(); err == nil && (i.IsDir() && what < 8 || !i.IsDir() && what == 9) {
		return "" // what errors these are is the file system's own affair
	}
	switch what {
	case 0, 1:
		m, err := h.Write(data)
		if len(data) == 0 {
			return "" // nobody writes nothing
		}
		return fmt.Sprint("f write ", m, s.bad(err))
	case 2, 3:
		if len(buf) == 0 {
			return ""
		}
		m, err := h.Read(buf)
		return fmt.Sprint("f read ", string(buf[:m]), s.bad(err))
	case 4:
		if len(buf) == 0 {
			return ""
		}
		m, err := h.ReadAt(buf, at)
		return fmt.Sprint("f readat ", string(buf[:m]), s.bad(err))
	case 5:
		if len(data) == 0 {
			return ""
		}
		m, err := h.WriteAt(data, at)
		return fmt.Sprint("f writeat ", m, err != nil)
	case 6:
		m, err := h.Seek(at-2, r.Intn(3))
		return fmt.Sprint("f seek ", m, s.bad(err))
	case 7:
		return "f truncate" + s.bad(h.Truncate(at))
	case 8:
		i, err := h.Stat()
		return "f stat" + s.info(i, err)
	case 9:
		l, err := h.Readdirnames(-1)
		sort.Strings(l)
		return "f readdir" + strings.Join(l, ",") + s.bad(err)
	case 10:
		return "f sync" + s.bad(h.Sync())
	default:
		return "f close" + s.bad(h.Close())
	}
}

func main() {
	runs := flag.Int("runs", 3000, "sequences of operations")
	from := flag.Int64("seed", 1, "first seed")
	tell := flag.Bool("tell", false, "list the operations before")
	flag.Parse()
	top, err := os.MkdirTemp("", "diskcheck")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(top)
	differ := map[string]int{}
	for seed := *from; seed < *from+int64(*runs); seed++ {
		base := filepath.Join(top, fmt.Sprint(seed))
		_ = os.Mkdir(base, 0o755)
		vos.Cur = vos.New()
		vos.Cur.Put("/base", true, nil)
		real := &system{base, opener(os.OpenFile), os.ReadFile, os.WriteFile, os.Stat, os.Lstat, os.ReadDir, os.Mkdir, os.MkdirAll,
			os.Remove, os.RemoveAll, os.Rename, os.Link, os.Truncate, os.DirFS, filepath.WalkDir, filepath.Glob, nil}
		sim := &system{"/base", opener(sos.OpenFile), sos.ReadFile, sos.WriteFile, sos.Stat, sos.Lstat, sos.ReadDir, sos.Mkdir, sos.MkdirAll,
			sos.Remove, sos.RemoveAll, sos.Rename, sos.Link, sos.Truncate, sos.DirFS, sfp.WalkDir, sfp.Glob, nil}
		r1, r2 := rand.New(rand.NewSource(seed)), rand.New(rand.NewSource(seed))
		var before []string
		for i := range 60 {
			a, b := real.strip(real.do(r1)), sim.strip(sim.do(r2))
			before = append(before, a)
			if a != b {
				key := strings.Join(strings.Fields(a)[:1], " ")
				if differ[key]++; differ[key] <= 3 {
					fmt.Printf("seed %d op %d:\n   real %q\n   sim  %q\n", seed, i, a, b)
					if *tell {
						fmt.Println("   " + strings.Join(before, "\n   "))
					}
				}
				break
			}
		}
		for _, f := range real.files {
			_ = f.Close()
		}
		_ = os.RemoveAll(base)
	}
	fmt.Println(*runs, "sequences; differing:", differ)
	if len(differ) > 0 {
		os.Exit(1)
	}
}
