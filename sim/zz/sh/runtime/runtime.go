//go:build go1.24

package runtime

import "github.com/crimist/trakx/zz/rt"

func NumGoroutine() int    { return rt.LiveTasks() }
func Gosched()             { rt.Gosched() }
func GC()                  {}
func NumCPU() int          { return 4 }
func GOMAXPROCS(n int) int { return 4 }
func Goexit()              { panic("simulator: runtime.Goexit is not supported") }
