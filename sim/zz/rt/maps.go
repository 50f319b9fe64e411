//go:build go1.24

package rt

import (
	"bytes"
	"cmp"
	"fmt"
	"net/netip"
	"reflect"
	"slices"
	"strings"
	"unsafe"
)

type access struct {
	t    *Task
	tick uint32
	site int32
}

type mapShadow struct {
	w     access
	reads []access
}

func shadow(p unsafe.Pointer) *mapShadow {
	m := S.maps[p]
	if m == nil {
		m = &mapShadow{}
		S.maps[p] = m
	}
	return m
}

func hb(a access, t *Task) bool {
	return a.t == nil || a.t == t || a.t.Proc != t.Proc || (a.t.vix < len(t.vc) && t.vc[a.t.vix] >= a.tick)
}

func mapRead(p unsafe.Pointer) {
	t := cur
	if t == nil || t.vix < 0 || p == nil || t.killed || len(t.Proc.tasks) < 2 {
		return
	}
	m := shadow(p)
	if !hb(m.w, t) {
		mapRace("concurrent map read and map write", m.w, t)
	}
	a := access{t, t.vc[t.vix], t.site}
	for i := range m.reads {
		if m.reads[i].t == t {
			m.reads[i] = a
			return
		}
	}
	m.reads = append(m.reads, a)
}

func mapWrite(p unsafe.Pointer) {
	t := cur
	if t == nil || t.vix < 0 || p == nil || t.killed || len(t.Proc.tasks) < 2 {
		return
	}
	m := shadow(p)
	if !hb(m.w, t) {
		mapRace("concurrent map writes", m.w, t)
	}
	for _, r := range m.reads {
		if !hb(r, t) {
			mapRace("concurrent map read and map write", r, t)
		}
	}
	m.w = access{t, t.vc[t.vix], t.site}
	m.reads = m.reads[:0]
}

func mapRace(kind string, a access, t *Task) {
	CrashCur(fmt.Sprintf("fatal error: %s (unsynchronised accesses by %s at %s and by %s)", kind, a.t.Name, siteName(a.site), t.Name))
}

// MR marks a map read and returns the map.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	mapRead(*(*unsafe.Pointer)(unsafe.Pointer(&m)))
	return m
}

// MW marks a map write and returns the map.
func MW[M ~map[K]V, K comparable, V any](m M) M {
	mapWrite(*(*unsafe.Pointer)(unsafe.Pointer(&m)))
	return m
}

// MarkMapWrite is used by shims.
func MarkMapWrite(p unsafe.Pointer) { mapWrite(p) }
func MarkMapRead(p unsafe.Pointer)  { mapRead(p) }

// Hint caps preallocation.
func Hint[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	if n > 64 {
		return 64
	}
	return n
}

type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	pos  int
	more bool
}

// MapIter2 starts a range over a map in an order drawn by the simulator.
func MapIter2[M ~map[K]V, K comparable, V any](m M) *Iter[K, V] {
	it := &Iter[K, V]{m: m}
	mapRead(*(*unsafe.Pointer)(unsafe.Pointer(&m)))
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) > 1 {
		sortKeys(it.keys)
		if S != nil {
			if r := S.Draw(SSched, 1<<16); r != 0 {
				rng := Rng{uint64(r)}
				for i := len(it.keys) - 1; i > 0; i-- {
					j := rng.N(i + 1)
					it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
				}
			}
		}
	}
	return it
}

// Next yields the next entry.
func (it *Iter[K, V]) Next(k *K, v *V) bool {
	if it.m == nil {
		return false
	}
	for {
		if it.pos > 0 || it.more {
			m := it.m
			mapRead(*(*unsafe.Pointer)(unsafe.Pointer(&m)))
		}
		for it.pos < len(it.keys) {
			key := it.keys[it.pos]
			it.pos++
			val, ok := it.m[key]
			if !ok {
				continue
			}
			if k != nil {
				*k = key
			}
			if v != nil {
				*v = val
			}
			return true
		}
		if it.more || S == nil || it.pos == 0 {
			return false
		}
		it.more = true
		seen := make(map[K]bool, len(it.keys))
		for _, x := range it.keys {
			seen[x] = true
		}
		var add []K
		for x := range it.m {
			if !seen[x] {
				add = append(add, x)
			}
		}
		if len(add) == 0 || S.Draw(SSched, 2) == 0 {
			return false
		}
		sortKeys(add)
		it.keys = append(it.keys, add...)
	}
}

func sortKeys[K comparable](ks []K) {
	switch x := any(ks).(type) {
	case []string:
		slices.Sort(x)
		return
	case []int:
		slices.Sort(x)
		return
	case []netip.Addr:
		slices.SortFunc(x, netip.Addr.Compare)
		return
	case []netip.AddrPort:
		slices.SortFunc(x, func(a, b netip.AddrPort) int {
			if c := a.Addr().Compare(b.Addr()); c != 0 {
				return c
			}
			return cmp.Compare(a.Port(), b.Port())
		})
		return
	}
	var z K
	ty := reflect.TypeOf(&z).Elem()
	if plain(ty) {
		n := ty.Size()
		slices.SortFunc(ks, func(a, b K) int {
			return bytes.Compare(unsafe.Slice((*byte)(unsafe.Pointer(&a)), n), unsafe.Slice((*byte)(unsafe.Pointer(&b)), n))
		})
		return
	}
	if ty.Kind() == reflect.String {
		slices.SortFunc(ks, func(a, b K) int {
			return strings.Compare(reflect.ValueOf(a).String(), reflect.ValueOf(b).String())
		})
		return
	}
	slices.SortFunc(ks, func(a, b K) int { return strings.Compare(fmt.Sprintf("%#v", a), fmt.Sprintf("%#v", b)) })
}

func plain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return true
	case reflect.Array:
		return plain(t.Elem())
	}
	return false
}

// MapIter3 is MapIter2 for a range statement that declares its variables.
func MapIter3[M ~map[K]V, K comparable, V any](m M) (it *Iter[K, V], k K, v V) {
	return MapIter2(m), k, v
}

// Zero sets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}
