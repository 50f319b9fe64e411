//go:build go1.24

package sync

import (
	"unsafe"

	"github.com/crimist/trakx/zz/rt"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	q      rt.WaitQ
	vc     rt.VC
}

func (m *Mutex) Lock() {
	rt.SyncOp()
	for m.locked {
		m.q.Wait(0, "mutex")
	}
	m.locked = true
	rt.Acquire(m.vc)
}
func (m *Mutex) TryLock() bool {
	rt.SyncOp()
	if m.locked {
		return false
	}
	m.locked = true
	rt.Acquire(m.vc)
	return true
}
func (m *Mutex) Unlock() {
	if rt.Dead() {
		return
	}
	if !m.locked {
		rt.CrashCur("fatal error: sync: unlock of unlocked mutex")
	}
	rt.Release(&m.vc)
	m.locked = false
	m.q.WakeAll()
	rt.PausePoint()
}

// RWMutex follows Go's: a waiting writer keeps new readers out; when a writer leaves, the readers that waited get in
// before the next writer.
type RWMutex struct {
	w       Mutex // between writers
	pending bool  // a writer holds or waits
	readers int
	waiting int
	grants  int
	rq, wq  rt.WaitQ
	vc, rvc rt.VC
	held    bool
}

func (m *RWMutex) RLock() {
	rt.SyncOp()
	if m.pending {
		m.waiting++
		my := m.grants
		for m.grants == my {
			m.rq.Wait(0, "rwmutex read")
		}
	} else {
		m.readers++
	}
	rt.Acquire(m.vc)
}
func (m *RWMutex) TryRLock() bool {
	rt.SyncOp()
	if m.pending {
		return false
	}
	m.readers++
	rt.Acquire(m.vc)
	return true
}
func (m *RWMutex) RUnlock() {
	if rt.Dead() {
		return
	}
	if m.readers <= 0 {
		rt.CrashCur("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	rt.Release(&m.rvc)
	m.readers--
	if m.readers == 0 {
		m.wq.WakeAll()
	}
	rt.PausePoint()
}
func (m *RWMutex) Lock() {
	m.w.Lock()
	m.pending = true
	for m.readers > 0 {
		m.wq.Wait(0, "rwmutex write")
	}
	m.held = true
	rt.Acquire(m.vc)
	rt.Acquire(m.rvc)
}
func (m *RWMutex) TryLock() bool {
	rt.SyncOp()
	if m.pending || m.readers > 0 || m.w.locked {
		return false
	}
	m.w.locked = true
	m.pending, m.held = true, true
	rt.Acquire(m.vc)
	rt.Acquire(m.rvc)
	return true
}
func (m *RWMutex) Unlock() {
	if rt.Dead() {
		return
	}
	if !m.held {
		rt.CrashCur("fatal error: sync: Unlock of unlocked RWMutex")
	}
	rt.Release(&m.vc)
	m.held = false
	m.pending = false
	m.readers += m.waiting
	m.waiting = 0
	m.grants++
	m.rq.WakeAll()
	m.w.Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()          { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()        { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
	vc   rt.VC
}

func (o *Once) Do(f func()) {
	rt.SyncOp()
	if o.done {
		rt.Acquire(o.vc)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			rt.Release(&o.vc)
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

type WaitGroup struct {
	n  int
	q  rt.WaitQ
	vc rt.VC
}

func (g *WaitGroup) Add(d int) {
	if rt.Dead() {
		return
	}
	rt.SyncPoint()
	rt.Release(&g.vc)
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.q.WakeAll()
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	rt.SyncOp()
	for g.n > 0 {
		g.q.Wait(0, "waitgroup")
	}
	rt.Acquire(g.vc)
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.Go("wg", func() { defer g.Done(); f() })
}

type Cond struct {
	L  Locker
	q  rt.WaitQ
	vc rt.VC
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.L.Unlock()
	c.q.Wait(0, "cond")
	rt.Acquire(c.vc)
	c.L.Lock()
}
func (c *Cond) Signal()    { rt.SyncOp(); rt.Release(&c.vc); c.q.WakeOne() }
func (c *Cond) Broadcast() { rt.SyncOp(); rt.Release(&c.vc); c.q.WakeAll() }

// Pool hands objects back in the simulator's order: usually the most recent, sometimes any other, sometimes a new one.
type Pool struct {
	New   func() any
	items []poolItem
}
type poolItem struct {
	v  any
	vc rt.VC
}

func (p *Pool) Get() any {
	rt.SyncOp()
	if n := len(p.items); n > 0 {
		k := n - 1
		if rt.S != nil {
			switch d := rt.S.Draw(rt.SSched, 16); {
			case d == 1:
				k = -1
			case d < 5 && n > 1:
				k = rt.S.Draw(rt.SSched, n)
			}
		}
		if k >= 0 {
			it := p.items[k]
			p.items = append(p.items[:k], p.items[k+1:]...)
			rt.Acquire(it.vc)
			return it.v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if rt.Dead() || x == nil {
		return
	}
	rt.SyncPoint()
	it := poolItem{v: x}
	rt.Release(&it.vc)
	if len(p.items) < 4096 {
		p.items = append(p.items, it)
	}
	rt.PausePoint()
}

type Map struct {
	m  map[any]any
	ks []any
	vc rt.VC
}

func (m *Map) op() {
	rt.SyncOp()
	rt.Acquire(m.vc)
	rt.Release(&m.vc)
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) Load(k any) (any, bool) { m.op(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.op(); m.put(k, v) }
func (m *Map) put(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.ks = append(m.ks, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.ks {
		if x == k {
			m.ks = append(m.ks[:i:i], m.ks[i+1:]...)
			break
		}
	}
}
func (m *Map) Delete(k any) { m.op(); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.op()
	x, ok := m.m[k]
	m.put(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op()
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.op()
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.op()
	for _, k := range append([]any(nil), m.ks...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
			rt.SyncOp()
		}
	}
}
func (m *Map) Clear() { m.op(); m.m = nil; m.ks = nil }

var _ = unsafe.Pointer(nil)
