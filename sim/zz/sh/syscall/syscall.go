//go:build go1.24

package syscall

import (
	"syscall"

	"github.com/crimist/trakx/zz/rt"
)

func Kill(pid int, sig syscall.Signal) error {
	rt.SyncOp()
	p := rt.S.FindProc(pid)
	if p == nil || !p.Alive {
		return syscall.ESRCH
	}
	if p.Foreign {
		return syscall.EPERM
	}
	if sig == 0 {
		return nil
	}
	p.Signal(sig.String())
	rt.SyncOp()
	return nil
}
func Umask(m int) int { return 022 }
func Getpid() int {
	if p := rt.CurProc(); p != nil {
		return p.Pid
	}
	return 1
}
func Exit(code int)                { rt.Exit(code) }
func Fsync(fd int) error {
	h := rt.S.FS.ByFd(fd)
	if h == nil {
		return syscall.EBADF
	}
	return h.Sync()
}
func Fdatasync(fd int) error { return Fsync(fd) }
func Sync()                  { rt.S.FS.SyncAll() }
func Getppid() int           { return 1 }
func Getuid() int            { return 1000 }
func Getrlimit(r int, l *syscall.Rlimit) error {
	l.Cur, l.Max = 1<<20, 1<<20
	return nil
}
func Flock(fd int, how int) error  { return nil }
func Setrlimit(r int, l *syscall.Rlimit) error { return nil }
