//go:build go1.24

package signal

import (
	"context"
	"os"
	"syscall"

	"github.com/crimist/trakx/zz/rt"
	zcontext "github.com/crimist/trakx/zz/sh/context"
)

var byName = map[string]os.Signal{}

func init() {
	for i := 1; i < 65; i++ {
		s := syscall.Signal(i)
		byName[s.String()] = s
	}
}

// Notify relays signals without blocking, as os/signal does.
func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	rt.SyncOp()
	var names []string
	for _, s := range sigs {
		names = append(names, s.String())
	}
	rt.NotifyChan(c, names, func(n string) os.Signal { return byName[n] })
}
func Stop(c chan<- os.Signal) { rt.SyncOp(); rt.NotifyStop(rt.ChanKey(c)) }
func Ignore(sigs ...os.Signal) {
	var names []string
	for _, s := range sigs {
		names = append(names, s.String())
	}
	rt.Notify(nil, names, func(string) {})
}
func Reset(sigs ...os.Signal) {}

func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := zcontext.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sigs...)
	rt.Go("notifycontext", func() {
		if rt.Select(false, rt.MkRecv(ch), rt.MkRecv(ctx.Done())) == 0 {
			cancel()
		}
	})
	return ctx, func() { Stop(ch); cancel() }
}
