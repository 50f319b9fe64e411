//go:build go1.24

package expvar

import (
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"sort"
	"strconv"
	"unsafe"

	"github.com/crimist/trakx/zz/rt"
)

type Var interface{ String() string }

type KeyValue struct {
	Key   string
	Value Var
}

type Int struct{ i int64 }

func (v *Int) Value() int64   { rt.SyncOp(); return v.i }
func (v *Int) String() string { return strconv.FormatInt(v.Value(), 10) }
func (v *Int) Add(d int64)    { rt.SyncOp(); v.i += d }
func (v *Int) Set(x int64)    { rt.SyncOp(); v.i = x }

type Float struct{ f float64 }

func (v *Float) Value() float64 { rt.SyncOp(); return v.f }
func (v *Float) String() string { return string(strconv.AppendFloat(nil, v.Value(), 'g', -1, 64)) }
func (v *Float) Add(d float64)  { rt.SyncOp(); v.f += d }
func (v *Float) Set(x float64)  { rt.SyncOp(); v.f = x }

type String struct{ s string }

func (v *String) Value() string  { rt.SyncOp(); return v.s }
func (v *String) String() string { b, _ := json.Marshal(v.Value()); return string(b) }
func (v *String) Set(x string)   { rt.SyncOp(); v.s = x }

type Func func() any

func (f Func) Value() any     { return f() }
func (f Func) String() string { b, _ := json.Marshal(f()); return string(b) }

type Map struct {
	m    map[string]Var
	keys []string
}

func (v *Map) Init() *Map { v.m = map[string]Var{}; v.keys = nil; return v }
func (v *Map) Set(k string, x Var) {
	rt.SyncOp()
	if v.m == nil {
		v.Init()
	}
	if v.m[k] == nil {
		v.keys = append(v.keys, k)
		sort.Strings(v.keys)
	}
	v.m[k] = x
}
func (v *Map) Get(k string) Var { rt.SyncOp(); return v.m[k] }
func (v *Map) Add(k string, d int64) {
	if x, ok := v.Get(k).(*Int); ok {
		x.Add(d)
		return
	}
	i := new(Int)
	i.i = d
	v.Set(k, i)
}
func (v *Map) Do(f func(KeyValue)) {
	for _, k := range v.keys {
		f(KeyValue{k, v.m[k]})
	}
}
func (v *Map) String() string {
	s := "{"
	for i, k := range v.keys {
		if i > 0 {
			s += ", "
		}
		s += fmt.Sprintf("%q: %v", k, v.m[k])
	}
	return s + "}"
}

func Publish(name string, v Var) {
	rt.SyncOp()
	if !rt.ExpvarPublish(name, v) {
		panic("Reuse of exported var name: " + name)
	}
}
func Get(name string) Var {
	rt.SyncOp()
	v, _ := rt.ExpvarAll(rt.CurProc())[name].(Var)
	return v
}
func NewInt(name string) *Int       { v := new(Int); Publish(name, v); return v }
func NewFloat(name string) *Float   { v := new(Float); Publish(name, v); return v }
func NewString(name string) *String { v := new(String); Publish(name, v); return v }
func NewMap(name string) *Map       { v := new(Map).Init(); Publish(name, v); return v }

func Do(f func(KeyValue)) {
	all := rt.ExpvarAll(rt.CurProc())
	keys := []string{"cmdline", "memstats"}
	for k := range all {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		switch k {
		case "cmdline":
			f(KeyValue{k, Func(func() any { return []string{"trakx", "execute"} })})
		case "memstats":
			f(KeyValue{k, Func(func() any { return map[string]int{"Alloc": 1} })})
		default:
			f(KeyValue{k, all[k].(Var)})
		}
	}
}

type handler struct{}

// ServeHTTP does what the real handler does, in the same order, with a scheduling point at each step. The header map
// is written as http.Header.Set writes it, under the simulator's map access checks.
func (handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	rt.SyncOp()
	h := w.Header()
	rt.MarkMapWrite(*(*unsafe.Pointer)(unsafe.Pointer(&h)))
	h.Set("Content-Type", "application/json; charset=utf-8")
	rt.SyncOp()
	w.Write([]byte("{\n"))
	first := true
	Do(func(kv KeyValue) {
		if !first {
			fmt.Fprintf(w, ",\n")
		}
		first = false
		fmt.Fprintf(w, "%q: %s", kv.Key, kv.Value)
	})
	w.Write([]byte("\n}\n"))
}

func Handler() http.Handler { return handler{} }

var _ = math.Pi
