//go:build go1.24

package rt

import (
	"time"
	"unsafe"
)

type goTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	hasMonotonic   = 1 << 63
	nsecShift      = 30
	unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
)

// TimeNow is time.Now of the simulation: virtual wall clock plus virtual monotonic reading.
func TimeNow() time.Time {
	if S == nil {
		return time.Unix(0, 0).UTC()
	}
	w := S.Wall()
	sec, nsec := w/1e9, w%1e9
	if nsec < 0 {
		sec--
		nsec += 1e9
	}
	g := goTime{loc: time.Local}
	s := sec + unixToInternal - wallToInternal
	g.wall = hasMonotonic | uint64(s)<<nsecShift | uint64(nsec)
	g.ext = S.now + 1
	return *(*time.Time)(unsafe.Pointer(&g))
}

// TimeUntil is time.Until of the simulation.
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

func init() {
	var g goTime
	if unsafe.Sizeof(g) != unsafe.Sizeof(time.Time{}) {
		panic("time.Time has another layout")
	}
	time.Local = time.UTC
	s := New(Config{WallBase: 1_700_000_000_123_456_789})
	S = s
	a := TimeNow()
	s.now += 1_500_000_000
	s.wallOff = -3_000_000_000
	b := TimeNow()
	S = nil
	if a.UnixNano() != 1_700_000_000_123_456_789 || b.Sub(a) != 1500*time.Millisecond || b.Round(0).Sub(a.Round(0)) != -1500*time.Millisecond {
		panic("forged time.Time does not behave")
	}
}

// SleepTask is time.Sleep.
func SleepTask(d int64) {
	alive()
	if d <= 0 {
		SyncPoint()
		return
	}
	t := cur
	S.After(d, func() { S.ready(t) })
	park("sleep")
}

// Gosched yields.
func Gosched() {
	alive()
	S.ready(cur)
	park("gosched")
}
