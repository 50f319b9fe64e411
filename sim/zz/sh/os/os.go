//go:build go1.24

package os

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/crimist/trakx/zz/rt"
)

var (
	Args   = []string{"trakx"}
	Stdin  = &File{std: 1, name: "/dev/stdin"}
	Stdout = &File{std: 2, name: "/dev/stdout"}
	Stderr = &File{std: 3, name: "/dev/stderr"}
)

func pe(op, p string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: p, Err: err}
}

type File struct {
	h    *rt.FFile
	name string
	std  int
}

type info struct {
	name string
	n    *rt.Inode
	size int64
	mode fs.FileMode
	mt   int64
}

func mkinfo(name string, n *rt.Inode) *info {
	return &info{path.Base(name), n, n.Size(), n.Mode(), n.Mtime()}
}
func (i *info) Name() string               { return i.name }
func (i *info) Size() int64                { return i.size }
func (i *info) Mode() fs.FileMode          { return i.mode }
func (i *info) ModTime() time.Time         { return time.Unix(0, i.mt) }
func (i *info) IsDir() bool                { return i.n.IsDir() }
func (i *info) Sys() any                   { return nil }
func (i *info) Type() fs.FileMode          { return i.mode.Type() }
func (i *info) Info() (fs.FileInfo, error) { return i, nil }

func SameFile(a, b fs.FileInfo) bool { return a.(*info).n == b.(*info).n }

func Stat(p string) (fs.FileInfo, error) {
	n, err := rt.S.FS.Stat(p)
	if err != nil {
		return nil, pe("stat", p, err)
	}
	return mkinfo(p, n), nil
}
func Lstat(p string) (fs.FileInfo, error) { return Stat(p) }

func OpenFile(p string, flag int, perm fs.FileMode) (*File, error) {
	h, err := rt.S.FS.Open(p, flag, perm)
	if err != nil {
		return nil, pe("open", p, err)
	}
	return &File{h: h, name: p}, nil
}
func Open(p string) (*File, error)   { return OpenFile(p, os.O_RDONLY, 0) }
func Create(p string) (*File, error) { return OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666) }

func ReadFile(p string) ([]byte, error) {
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func WriteFile(p string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.std == 0 && f.h.Closed() {
		return pe(op, f.name, fs.ErrClosed)
	}
	return nil
}
func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f.h == nil {
		return uintptr(f.std - 1)
	}
	return uintptr(rt.S.FS.Fd(f.h))
}
func (f *File) SyscallConn() (syscall.RawConn, error) { return nil, syscall.ENOTSUP }
func (f *File) Readdir(n int) (r []fs.FileInfo, err error) {
	l, err := ReadDir(f.name)
	for _, e := range l {
		r = append(r, e.(*info))
	}
	return r, err
}
func (f *File) Readdirnames(n int) ([]string, error)  { return rt.S.FS.List(f.name) }
func (f *File) ReadFrom(r io.Reader) (int64, error)   { return io.Copy(struct{ io.Writer }{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)    { return io.Copy(w, struct{ io.Reader }{f}) }
func (f *File) SetReadDeadline(time.Time) error      { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error     { return os.ErrNoDeadline }
func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		return 0, io.EOF
	}
	n, err := f.h.Read(b)
	if err != nil {
		return n, pe("read", f.name, err)
	}
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	save := f.h.Off
	defer func() { f.h.Off = save }()
	f.h.Off = int(off)
	n, err := f.h.Read(b)
	if err != nil {
		return n, pe("read", f.name, err)
	}
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}
func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		if q := rt.CurProc(); q != nil && len(q.Out) < 1<<16 {
			q.Out = append(q.Out, b...)
		}
		return len(b), nil
	}
	n, err := f.h.Write(b, -1)
	return n, pe("write", f.name, err)
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	n, err := f.h.Write(b, int(off))
	return n, pe("write", f.name, err)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += int64(f.h.Off)
	case 2:
		off += f.h.N.Size()
	}
	f.h.Off = int(off)
	return off, nil
}
func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.std != 0 {
		return nil
	}
	return pe("sync", f.name, f.h.Sync())
}
func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	if f.std != 0 {
		return nil
	}
	if rt.Dead() {
		return nil
	}
	return pe("close", f.name, f.h.Close())
}
func (f *File) Truncate(n int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	return pe("truncate", f.name, f.h.Truncate(int(n)))
}
func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	return mkinfo(f.name, f.h.N), nil
}
func (f *File) Chmod(m fs.FileMode) error { f.h.N.Chmod(m); return nil }
func (f *File) Chown(int, int) error      { return nil }
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) { return ReadDir(f.name) }
func (f *File) SetDeadline(time.Time) error          { return os.ErrNoDeadline }

func ReadDir(p string) ([]fs.DirEntry, error) {
	names, err := rt.S.FS.List(p)
	if err != nil {
		return nil, pe("open", p, err)
	}
	var out []fs.DirEntry
	for _, n := range names {
		if i, err := rt.S.FS.Stat(path.Join(p, n)); err == nil {
			out = append(out, mkinfo(n, i))
		}
	}
	return out, nil
}
func Mkdir(p string, m fs.FileMode) error    { return pe("mkdir", p, rt.S.FS.Mkdir(p, m)) }
func MkdirAll(p string, m fs.FileMode) error { return pe("mkdir", p, rt.S.FS.MkdirAll(p, m)) }
func Remove(p string) error                  { return pe("remove", p, rt.S.FS.Remove(p)) }
func RemoveAll(p string) error {
	n, err := rt.S.FS.Stat(p)
	if err != nil {
		return nil
	}
	if n.IsDir() {
		names, _ := rt.S.FS.List(p)
		for _, x := range names {
			if err := RemoveAll(path.Join(p, x)); err != nil {
				return err
			}
		}
	}
	return Remove(p)
}
func Rename(a, b string) error {
	if err := rt.S.FS.Rename(a, b); err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	return nil
}
func Truncate(p string, n int64) error { return pe("truncate", p, rt.S.FS.Truncate(p, int(n))) }
func Chmod(p string, m fs.FileMode) error {
	n, err := rt.S.FS.Stat(p)
	if err != nil {
		return pe("chmod", p, err)
	}
	n.Chmod(m)
	return nil
}
func Chown(p string, u, g int) error                 { return nil }
func Chtimes(p string, a, m time.Time) error         { return nil }
func Lchown(p string, u, g int) error                { return nil }

// Link adds a name to a file.
func Link(a, b string) error {
	if err := rt.S.FS.Link(a, b); err != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: err}
	}
	return nil
}

// Symlink fails as on file systems without symbolic links.
func Symlink(a, b string) error {
	return &os.LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EPERM}
}
func Readlink(p string) (string, error) { return "", pe("readlink", p, syscall.EINVAL) }
func ExpandEnv(s string) string         { return os.Expand(s, Getenv) }
func Chdir(p string) error              { return pe("chdir", p, syscall.EACCES) }
func Getgid() int                       { return 1000 }
func Getegid() int                      { return 1000 }
func Clearenv()                         { rt.CurProc().Env = map[string]string{} }
func Getpagesize() int                  { return 4096 }
func TempDir() string                                { return "/tmp" }

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for try := 0; ; try++ {
		p := path.Join(dir, pre+strconv.Itoa(int(rt.S.Misc.U64()%1_000_000_000))+suf)
		f, err := OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if errors.Is(err, fs.ErrExist) && try < 1000 {
			continue
		}
		return f, err
	}
}
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	p := path.Join(dir, strings.TrimSuffix(pattern, "*")+strconv.Itoa(int(rt.S.Misc.U64()%1_000_000_000)))
	return p, Mkdir(p, 0700)
}

// ---------------------------------------------------------------- process

func Exit(code int) { rt.Exit(code) }
func Getpid() int {
	if p := rt.CurProc(); p != nil {
		return p.Pid
	}
	return 1
}
func Getppid() int { return 1 }
func Getuid() int  { return 1000 }
func Geteuid() int { return 1000 }
func Getenv(k string) string {
	v, _ := LookupEnv(k)
	return v
}
func LookupEnv(k string) (string, bool) {
	if p := rt.CurProc(); p != nil {
		v, ok := p.Env[k]
		if !ok && k == "HOME" {
			return "/home/sim", true
		}
		return v, ok
	}
	return "", false
}
func Setenv(k, v string) error { rt.CurProc().Env[k] = v; return nil }
func Unsetenv(k string) error  { delete(rt.CurProc().Env, k); return nil }
func Environ() (r []string) {
	r = []string{"HOME=" + Getenv("HOME")}
	if p := rt.CurProc(); p != nil {
		for k, v := range p.Env {
			if k != "HOME" {
				r = append(r, k+"="+v)
			}
		}
	}
	sort.Strings(r)
	return
}
func UserHomeDir() (string, error) {
	v := Getenv("HOME")
	if v == "" {
		return "", errors.New("$HOME is not defined")
	}
	return v, nil
}
func UserCacheDir() (string, error)  { return "/home/sim/.cache", nil }
func UserConfigDir() (string, error) { return "/home/sim/.config", nil }
func Hostname() (string, error)      { return "sim", nil }
func Getwd() (string, error)         { return "/cwd", nil }
func Executable() (string, error)    { return "/usr/bin/trakx", nil }

type Process struct {
	Pid int
	P   *rt.Proc
}
type ProcessState struct{ p *rt.Proc }

func (s *ProcessState) ExitCode() int  { return s.p.ExitCode }
func (s *ProcessState) Exited() bool   { return true }
func (s *ProcessState) Success() bool  { return s.p.ExitCode == 0 }
func (s *ProcessState) Pid() int       { return s.p.Pid }
func (s *ProcessState) String() string { return "exit status" }

func FindProcess(pid int) (*Process, error) { return &Process{Pid: pid}, nil }
func (p *Process) Signal(sig os.Signal) error {
	rt.SyncOp()
	q := rt.S.FindProc(p.Pid)
	if p.Pid <= 0 {
		return errors.New("os: process not initialized")
	}
	if q == nil || !q.Alive {
		return os.ErrProcessDone
	}
	if q.Foreign {
		return syscall.EPERM
	}
	if s, ok := sig.(syscall.Signal); ok && s == 0 {
		return nil
	}
	q.Signal(sig.String())
	rt.SyncOp()
	return nil
}
func (p *Process) Kill() error    { return p.Signal(os.Kill) }
func (p *Process) Release() error { return nil }
func (p *Process) Wait() (*ProcessState, error) {
	rt.SyncOp()
	q := rt.S.FindProc(p.Pid)
	if q == nil {
		return nil, syscall.ECHILD
	}
	q.Wait(0)
	return &ProcessState{q}, nil
}
