//go:build go1.24

package rt

import (
	"unsafe"
)

type chanState struct {
	cap    int
	buf    []any
	last   []any // per element of buf, see carried
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	vc     VC
}

type waiter struct {
	t    *Task
	val  any  // to send / received
	ok   bool // received a value
	ix   int  // case index
	last any  // see carried
	done *int // shared by the cases of one select: -1 pending
	ch   *chanState
}

func st(p unsafe.Pointer, c int) *chanState {
	cs := S.chans[p]
	if cs == nil {
		cs = &chanState{cap: c}
		S.chans[p] = cs
	}
	return cs
}

func ptrOf[T any](ch T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// Case is one case of a select statement.
type Case interface{ base() *caseBase }

type caseBase struct {
	cs   *chanState
	send bool
	val  any
	ok   bool
	last any                      // see carried
	real func() (any, bool, bool) // poll the real channel (unknown to the simulator)
}

func (c *caseBase) base() *caseBase { return c }

// RecvCase is a receive case of element type T.
type RecvCase[T any] struct{ caseBase }

func (c *RecvCase[T]) Val() T {
	if c.val == nil {
		var z T
		return z
	}
	return c.val.(T)
}
func (c *RecvCase[T]) Val2() (T, bool) { return c.Val(), c.ok }

func MkRecv[T any](ch <-chan T) *RecvCase[T] {
	c := &RecvCase[T]{}
	if p := ptrOf(ch); p != nil {
		c.cs = st(p, cap(ch))
		if len(c.cs.buf) == 0 && !c.cs.closed {
			c.real = func() (any, bool, bool) {
				select {
				case v, ok := <-ch:
					return v, ok, true
				default:
					return nil, false, false
				}
			}
		}
	}
	return c
}

type SendCase[T any] struct{ caseBase }

func MkSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] {
		c := &SendCase[T]{}
		c.send = true
		c.val = v
		if p := ptrOf(ch); p != nil {
			c.cs = st(p, cap(ch))
		}
		return c
	}
}

func dequeue(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.t != nil && (w.t.killed || w.t.done) {
			continue
		}
		if w.done != nil && *w.done >= 0 {
			continue
		}
		return w
	}
	return nil
}

// carried is what the request its sender was handling is to the value: whoever receives a request read by another task
// goes on handling it. Tokens carry nothing.
func carried(v any) any {
	switch v.(type) {
	case nil, bool, int, error, struct{}, string:
		return nil
	}
	if cur == nil {
		return nil
	}
	return cur.Last
}

func (w *waiter) complete() {
	*w.done = w.ix
	Wake(w.t)
}

// try attempts the case without blocking.
func (c *caseBase) try() bool {
	cs := c.cs
	if cs == nil {
		return false
	}
	t := cur
	if c.send {
		if cs.closed {
			panic(plainError("send on closed channel"))
		}
		t.release(&cs.vc)
		if w := dequeue(&cs.recvq); w != nil {
			w.val, w.ok, w.last = c.val, true, carried(c.val)
			w.t.vc.Join(cs.vc)
			w.complete()
			return true
		}
		if len(cs.buf) < cs.cap {
			cs.buf, cs.last = append(cs.buf, c.val), append(cs.last, carried(c.val))
			return true
		}
		return false
	}
	if len(cs.buf) > 0 {
		c.val, c.ok, c.last = cs.buf[0], true, cs.last[0]
		cs.buf, cs.last = append([]any(nil), cs.buf[1:]...), append([]any(nil), cs.last[1:]...)
		if w := dequeue(&cs.sendq); w != nil {
			cs.buf, cs.last = append(cs.buf, w.val), append(cs.last, w.last)
			w.complete()
		}
		t.acquire(cs.vc)
		t.release(&cs.vc)
		return true
	}
	if w := dequeue(&cs.sendq); w != nil {
		c.val, c.ok, c.last = w.val, true, w.last
		t.acquire(cs.vc)
		t.release(&cs.vc)
		w.t.vc.Join(cs.vc)
		w.complete()
		return true
	}
	if cs.closed {
		c.val, c.ok = nil, false
		t.acquire(cs.vc)
		return true
	}
	if c.real != nil {
		if v, ok, got := c.real(); got {
			c.val, c.ok = v, ok
			return true
		}
	}
	return false
}

func (c *caseBase) carry() {
	if c.last != nil && cur != nil {
		cur.Last = c.last
	}
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (plainError) RuntimeError()   {}

func (t *Task) acquire(v VC) {
	if t != nil && t.vix >= 0 {
		t.vc.Join(v)
	}
}
func (t *Task) release(v *VC) {
	if t != nil && t.vix >= 0 {
		v.Join(t.vc)
		t.tick()
	}
}

// Acquire and Release are happens-before edges for the shims.
func Acquire(v VC)  { cur.acquire(v) }
func Release(v *VC) { cur.release(v) }

// Select runs a select statement and returns the chosen case, or len(cases) for the default.
func Select(hasDefault bool, cases ...Case) int {
	alive()
	SyncPoint()
	n := len(cases)
	if n > 0 {
		start := 0
		if n > 1 {
			start = S.Draw(SSched, n)
		}
		for i := 0; i < n; i++ {
			k := (start + i) % n
			if b := cases[k].base(); b.try() {
				b.carry()
				return k
			}
		}
	}
	if hasDefault {
		return n
	}
	done := -1
	ws := make([]*waiter, n)
	for i, c := range cases {
		b := c.base()
		if b.cs == nil {
			continue
		}
		w := &waiter{t: cur, val: b.val, ix: i, done: &done, ch: b.cs, last: carried(b.val)}
		ws[i] = w
		if b.send {
			b.cs.sendq = append(b.cs.sendq, w)
		} else {
			b.cs.recvq = append(b.cs.recvq, w)
		}
	}
	for done < 0 {
		park("channel")
	}
	for i, w := range ws {
		if w == nil {
			continue
		}
		b := cases[i].base()
		if b.send {
			w.ch.sendq = dropWaiter(w.ch.sendq, w)
		} else {
			w.ch.recvq = dropWaiter(w.ch.recvq, w)
		}
	}
	b := cases[done].base()
	if b.send {
		if !ws[done].ok && ws[done].val == closedMark {
			panic(plainError("send on closed channel"))
		}
	} else {
		b.val, b.ok, b.last = ws[done].val, ws[done].ok, ws[done].last
		b.carry()
		cur.acquire(b.cs.vc)
	}
	return done
}

var closedMark any = new(int)

func dropWaiter(q []*waiter, w *waiter) []*waiter {
	for i, x := range q {
		if x == w {
			return append(q[:i], q[i+1:]...)
		}
	}
	return q
}

// SendTo is the send statement.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, MkSend(ch)(v)) }
}

func Recv[T any](ch <-chan T) T {
	c := MkRecv(ch)
	Select(false, c)
	return c.Val()
}
func Recv2[T any](ch <-chan T) (T, bool) {
	c := MkRecv(ch)
	Select(false, c)
	return c.Val2()
}

func Close[T any](ch chan<- T) {
	alive()
	p := ptrOf(ch)
	if p == nil {
		panic(plainError("close of nil channel"))
	}
	cs := st(p, cap(ch))
	if cs.closed {
		panic(plainError("close of closed channel"))
	}
	SyncPoint()
	cs.closed = true
	cur.release(&cs.vc)
	for w := dequeue(&cs.recvq); w != nil; w = dequeue(&cs.recvq) {
		w.val, w.ok = nil, false
		w.complete()
	}
	for w := dequeue(&cs.sendq); w != nil; w = dequeue(&cs.sendq) {
		w.val = closedMark
		w.complete()
	}
}

func ChanLen[T any](ch <-chan T) int {
	if p := ptrOf(ch); p != nil {
		return len(st(p, cap(ch)).buf)
	}
	return 0
}

// TrySend is a non-blocking send from outside a task (timers, signals).
func TrySend[T any](ch chan T, v T) bool {
	cs := st(ptrOf(ch), cap(ch))
	if cs.closed {
		return false
	}
	if w := dequeue(&cs.recvq); w != nil {
		w.val, w.ok = v, true
		w.complete()
		return true
	}
	if len(cs.buf) < cs.cap {
		cs.buf, cs.last = append(cs.buf, v), append(cs.last, nil)
		return true
	}
	return false
}

// BlockForever is select{}.
func BlockForever() {
	for {
		park("forever")
	}
}

// ChanKey identifies a channel.
func ChanKey[T any](ch chan<- T) any { return ptrOf(ch) }

// NotifyChan registers a channel for signals.
func NotifyChan[T any](ch chan<- T, sigs []string, conv func(string) T) {
	p := ptrOf(ch)
	if p == nil {
		panic("os/signal: Notify using nil channel")
	}
	n := cap(ch)
	Notify(p, sigs, func(sig string) {
		cs := st(p, n)
		v := conv(sig)
		if w := dequeue(&cs.recvq); w != nil {
			w.val, w.ok = v, true
			w.complete()
			return
		}
		if len(cs.buf) < cs.cap {
			cs.buf, cs.last = append(cs.buf, v), append(cs.last, nil)
			return
		}
		S.Inc("signal_dropped")
	})
}

// CloseQuiet closes a channel without a scheduling point.
func CloseQuiet[T any](ch chan<- T) {
	cs := st(ptrOf(ch), cap(ch))
	cs.closed = true
	if cur != nil {
		cur.release(&cs.vc)
	}
	for w := dequeue(&cs.recvq); w != nil; w = dequeue(&cs.recvq) {
		w.val, w.ok = nil, false
		w.complete()
	}
}
