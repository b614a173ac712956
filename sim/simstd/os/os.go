// Package os replaces the standard one inside the simulation: files live on
// the simulated disk, everything else is harmless or standard.
package os

import (
	"errors"
	"fmt"
	"io/fs"
	gos "os"
	"path"
	"strings"
	"syscall"
	"time"

	"simstd/vos"
)

type (
	File         = vos.File
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	LinkError    = gos.LinkError
	SyscallError = gos.SyscallError
	Signal       = gos.Signal
)

const (
	O_RDONLY = gos.O_RDONLY
	O_WRONLY = gos.O_WRONLY
	O_RDWR   = gos.O_RDWR
	O_APPEND = gos.O_APPEND
	O_CREATE = gos.O_CREATE
	O_EXCL   = gos.O_EXCL
	O_SYNC   = gos.O_SYNC
	O_TRUNC  = gos.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	ModeDir        = fs.ModeDir
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
	ModePerm       = fs.ModePerm

	PathSeparator     = gos.PathSeparator
	PathListSeparator = gos.PathListSeparator
	DevNull           = gos.DevNull
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrDeadlineExceeded = gos.ErrDeadlineExceeded
	ErrProcessDone      = gos.ErrProcessDone
	ErrNoDeadline       = gos.ErrNoDeadline

	Args      = []string{"sim"}
	Stdin     = gos.Stdin
	Stdout    = gos.Stdout
	Stderr    = gos.Stderr
	Interrupt = gos.Interrupt
	Kill      = gos.Kill
)

func d() *vos.FS { return vos.Cur }

func Open(name string) (*File, error) { return d().OpenFile(name, gos.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return d().OpenFile(name, gos.O_RDWR|gos.O_CREATE|gos.O_TRUNC, 0o666)
}
func OpenFile(name string, flag int, mode FileMode) (*File, error) {
	return d().OpenFile(name, flag, mode)
}
func ReadFile(name string) ([]byte, error) { return d().ReadFile(name) }
func WriteFile(name string, data []byte, mode FileMode) error {
	return d().WriteFile(name, data, mode)
}
func Stat(name string) (FileInfo, error)        { return d().Stat("stat", name) }
func Lstat(name string) (FileInfo, error)       { return d().Stat("lstat", name) }
func ReadDir(name string) ([]DirEntry, error)   { return d().ReadDir(name) }
func Mkdir(name string, mode FileMode) error    { return d().Mkdir(name, mode) }
func MkdirAll(name string, mode FileMode) error { return d().MkdirAll(name, mode) }
func Remove(name string) error                  { return d().Remove(name) }
func RemoveAll(name string) error               { return d().RemoveAll(name) }
func Rename(from, to string) error              { return d().Rename(from, to) }
func Link(from, to string) error                { return d().Link(from, to) }
func Chmod(name string, mode FileMode) error    { return d().Chmod(name, mode) }
func Truncate(name string, size int64) error    { return d().Truncate(name, size) }
func Readlink(name string) (string, error)      { return d().Readlink(name) }
func Executable() (string, error)               { return "/usr/bin/sim", nil }
func Getppid() int                              { return 1 }
func Geteuid() int                              { return 1000 }
func Getegid() int                              { return 1000 }
func Getgroups() ([]int, error)                 { return []int{1000}, nil }
func Getpagesize() int                          { return 4096 }
func Clearenv()                                 {}
func NewSyscallError(call string, err error) error {
	return gos.NewSyscallError(call, err)
}
func Chtimes(name string, _, mod time.Time) error { return d().Chtimes(name, mod) }
func Chown(name string, _, _ int) error           { return nil }
func Lchown(name string, _, _ int) error          { return nil }
func Chdir(dir string) error {
	i, err := Stat(dir)
	if err != nil {
		return err
	}
	if !i.IsDir() {
		return &PathError{Op: "chdir", Path: dir, Err: syscall.ENOTDIR}
	}
	if !path.IsAbs(dir) {
		dir = path.Join(d().Cwd, dir)
	}
	d().Cwd = path.Clean(dir)
	return nil
}
func DirFS(dir string) fs.FS         { return d().DirFS(dir) }
func Getwd() (string, error)         { return d().Cwd, nil }
func UserHomeDir() (string, error)   { return d().Home, nil }
func UserConfigDir() (string, error) { return d().Home + "/.config", nil }
func UserCacheDir() (string, error)  { return d().Home + "/.cache", nil }
func TempDir() string                { return "/tmp" }
func Hostname() (string, error)      { return "sim", nil }
func Getpid() int                    { return 4242 }
func Getuid() int                    { return 1000 }
func Getgid() int                    { return 1000 }
func Getenv(k string) string {
	if k == "HOME" {
		return d().Home
	}
	return ""
}
func LookupEnv(k string) (string, bool)             { v := Getenv(k); return v, v != "" }
func Setenv(k, v string) error                      { return nil }
func Unsetenv(k string) error                       { return nil }
func Environ() []string                             { return nil }
func ExpandEnv(s string) string                     { return gos.Expand(s, Getenv) }
func Expand(s string, f func(string) string) string { return gos.Expand(s, f) }
func IsExist(err error) bool                        { return gos.IsExist(err) }
func IsNotExist(err error) bool                     { return gos.IsNotExist(err) }
func IsPermission(err error) bool                   { return gos.IsPermission(err) }
func IsTimeout(err error) bool                      { return gos.IsTimeout(err) }
func IsPathSeparator(c uint8) bool                  { return gos.IsPathSeparator(c) }
func SameFile(a, b FileInfo) bool                   { return a.Name() == b.Name() && a.Size() == b.Size() }
func Exit(code int)                                 { panic(fmt.Sprintf("os.Exit(%d)", code)) }

var tempSeq int

func temp(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	tempSeq++
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return path.Join(dir, fmt.Sprintf("%s%d%s", pre, 100000+tempSeq, suf))
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(temp(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0o600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	n := temp(dir, pattern)
	return n, Mkdir(n, 0o700)
}

func CopyFS(dir string, fsys fs.FS) error {
	return fs.WalkDir(fsys, ".", func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		to := path.Join(dir, p)
		if e.IsDir() {
			return MkdirAll(to, 0o777)
		}
		b, err := fs.ReadFile(fsys, p)
		if err != nil {
			return err
		}
		if _, err := Stat(to); err == nil {
			return &PathError{Op: "CopyFS", Path: to, Err: ErrExist}
		} else if !errors.Is(err, ErrNotExist) {
			return err
		}
		return WriteFile(to, b, 0o666)
	})
}
