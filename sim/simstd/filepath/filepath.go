// Package filepath replaces the standard one inside the simulation: relative
// paths resolve against the simulated working directory.
package filepath

import (
	"io/fs"
	"path"
	gf "path/filepath"
	"sort"
	"strings"

	"simstd/os"
	"simstd/vos"
)

const (
	Separator     = gf.Separator
	ListSeparator = gf.ListSeparator
)

type WalkFunc = gf.WalkFunc

var (
	ErrBadPattern = gf.ErrBadPattern
	SkipDir       = fs.SkipDir
	SkipAll       = fs.SkipAll

	Base       = gf.Base
	Clean      = gf.Clean
	Dir        = gf.Dir
	Ext        = gf.Ext
	FromSlash  = gf.FromSlash
	IsAbs      = gf.IsAbs
	IsLocal    = gf.IsLocal
	Join       = gf.Join
	Localize   = gf.Localize
	Match      = gf.Match
	Rel        = gf.Rel
	Split      = gf.Split
	SplitList  = gf.SplitList
	ToSlash    = gf.ToSlash
	VolumeName = gf.VolumeName
)

func Abs(p string) (string, error) {
	if path.IsAbs(p) {
		return path.Clean(p), nil
	}
	return path.Join(vos.Cur.Cwd, p), nil
}

func EvalSymlinks(p string) (string, error) {
	if _, err := os.Lstat(p); err != nil {
		return "", err
	}
	return gf.Clean(p), nil
}

func WalkDir(root string, f fs.WalkDirFunc) error {
	i, err := os.Lstat(root)
	if err != nil {
		err = f(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(i), f)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fs.DirEntry, f fs.WalkDirFunc) error {
	if err := f(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	kids, err := os.ReadDir(p)
	if err != nil {
		if err = f(p, d, err); err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, k := range kids {
		if err := walk(Join(p, k.Name()), k, f); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Walk is the older form of WalkDir.
func Walk(root string, f WalkFunc) error {
	err := WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var i fs.FileInfo
		if d != nil {
			if info, e := d.Info(); e == nil {
				i = info
			} else if err == nil {
				err = e
			}
		}
		return f(p, i, err)
	})
	return err
}

// Glob lists the names which match.
func Glob(pattern string) (found []string, err error) {
	if _, err := Match(pattern, ""); err != nil {
		return nil, err
	}
	if !meta(pattern) {
		if _, err := os.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := Split(pattern)
	switch {
	case dir == "":
		dir = "."
	case dir != "/":
		dir = dir[:len(dir)-1]
	}
	dirs := []string{dir}
	if meta(dir) {
		if dir == pattern {
			return nil, ErrBadPattern
		}
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	for _, d := range dirs {
		if i, err := os.Stat(d); err != nil || !i.IsDir() {
			continue
		}
		h, err := os.Open(d)
		if err != nil {
			continue
		}
		names, _ := h.Readdirnames(-1)
		_ = h.Close()
		sort.Strings(names)
		for _, n := range names {
			if ok, err := Match(file, n); err != nil {
				return found, err
			} else if ok {
				found = append(found, Join(d, n))
			}
		}
	}
	return found, nil
}

func meta(p string) bool { return strings.ContainsAny(p, `*?[\`) }

func HasPrefix(p, prefix string) bool { return gf.HasPrefix(p, prefix) }
