//go:build go1.24

package exec

import (
	"context"
	"errors"
	"io"
	"os/exec"
	"strings"
	"syscall"
	"time"

	"github.com/crimist/trakx/zz/rt"
	zcontext "github.com/crimist/trakx/zz/sh/context"
	zos "github.com/crimist/trakx/zz/sh/os"
)

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	SysProcAttr  *syscall.SysProcAttr
	Process      *zos.Process
	ProcessState *zos.ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration
	ExtraFiles   []*zos.File
	ctx          context.Context
}

func Command(name string, args ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, args...)}
}

// CommandContext kills the process when the context ends.
func CommandContext(ctx context.Context, name string, args ...string) *Cmd {
	c := Command(name, args...)
	c.ctx = ctx
	return c
}
func LookPath(file string) (string, error) { return file, nil }
func (c *Cmd) String() string              { return strings.Join(c.Args, " ") }
func (c *Cmd) Environ() []string {
	if c.Env != nil {
		return c.Env
	}
	return zos.Environ()
}
func (c *Cmd) Output() ([]byte, error)         { return nil, c.Run() }
func (c *Cmd) CombinedOutput() ([]byte, error) { return nil, c.Run() }

func (c *Cmd) Start() error {
	rt.SyncOp()
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	p, err := rt.S.ExecHook(c.Args)
	if err != nil {
		return &exec.Error{Name: c.Path, Err: err}
	}
	env := c.Env
	if env == nil {
		env = zos.Environ()
	}
	for _, kv := range env {
		if k, v, ok := strings.Cut(kv, "="); ok {
			p.Env[k] = v
		}
	}
	c.Process = &zos.Process{Pid: p.Pid, P: p}
	if c.ctx != nil {
		zcontext.AfterFunc(c.ctx, func() {
			if c.Cancel != nil {
				c.Cancel()
			} else {
				c.Process.Kill()
			}
		})
	}
	rt.SyncOp()
	return nil
}
func (c *Cmd) Wait() error {
	st, err := c.Process.Wait()
	if err != nil {
		return err
	}
	c.ProcessState = st
	if !st.Success() {
		return errors.New("exit status")
	}
	return nil
}
func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}
