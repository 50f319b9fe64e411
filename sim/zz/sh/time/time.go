//go:build go1.24

package time

import (
	"time"

	"github.com/crimist/trakx/zz/rt"
)

func Now() time.Time                        { rt.SyncPoint(); return rt.TimeNow() }
func Since(t time.Time) time.Duration       { return rt.TimeNow().Sub(t) }
func Until(t time.Time) time.Duration       { return t.Sub(rt.TimeNow()) }
func Sleep(d time.Duration)                 { rt.SleepTask(int64(d)) }

type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	t  *rt.Timer
	p  *rt.Proc
}

func (t *Timer) arm(d time.Duration) {
	if d < 0 {
		d = 0
	}
	t.t = rt.S.After(int64(d), func() {
		if t.p != nil && !t.p.Alive {
			return
		}
		if t.f != nil {
			rt.S.Spawn(t.p, "afterfunc", t.f)
			return
		}
		rt.TrySend(t.c, rt.TimeNow())
	})
}

func NewTimer(d time.Duration) *Timer {
	rt.SyncOp()
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c, p: rt.CurProc()}
	t.arm(d)
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	rt.SyncOp()
	t := &Timer{f: f, p: rt.CurProc()}
	t.arm(d)
	return t
}
func (t *Timer) Stop() bool { rt.SyncOp(); return t.t.Stop() }
func (t *Timer) Reset(d time.Duration) bool {
	rt.SyncOp()
	r := t.t.Stop()
	t.arm(d)
	return r
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	t    *rt.Timer
	d    time.Duration
	p    *rt.Proc
	next int64
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	rt.SyncOp()
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d, p: rt.CurProc()}
	t.next = rt.S.Now() + int64(d)
	t.arm()
	return t
}
func (t *Ticker) arm() {
	t.t = rt.S.At(t.next, func() {
		if t.p != nil && !t.p.Alive {
			return
		}
		rt.TrySend(t.c, rt.TimeNow())
		t.next += int64(t.d)
		if t.next <= rt.S.Now() {
			t.next += (rt.S.Now()-t.next)/int64(t.d)*int64(t.d) + int64(t.d)
		}
		t.arm()
	})
}
func (t *Ticker) Stop() { rt.SyncOp(); t.t.Stop() }
func (t *Ticker) Reset(d time.Duration) {
	rt.SyncOp()
	t.t.Stop()
	t.d = d
	t.next = rt.S.Now() + int64(d)
	t.arm()
}
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
