//go:build go1.18

package zzsym

import (
	"fmt"
	"os"
	"runtime"
	"syscall"
	"time"
)

// Native replay of a schedule: the instrumented code calls Point before each
// visible operation and waits for its turn. The bookkeeping is deliberately
// free of synchronisation the race detector could see.

type SchedEv struct {
	T  int `json:"t"`
	C  int `json:"c"`
	P  int `json:"p"`
	PC int `json:"pc"`
	W  int `json:"w"`
}

const maxThr = 64

var (
	schedOn  bool
	evs      []SchedEv
	evPos    int
	nThr     int
	thrGid   [maxThr]int64
	thrTok   [maxThr]int64
	thrAt    [maxThr]int // 0 running, 1 at a point, 2 finished
	onResult func(kind, msg string)
)

//go:norace
func startSched(s []SchedEv) {
	evs, evPos, nThr = s, 0, 1
	thrGid = [maxThr]int64{}
	thrAt = [maxThr]int{}
	thrGid[0] = gid()
	schedOn = true
}

//go:norace
func gid() (n int64) {
	var b [40]byte
	runtime.Stack(b[:], false)
	for _, c := range b[len("goroutine "):] {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + int64(c-'0')
	}
	return
}

//go:norace
func me() int {
	g := gid()
	for i := 0; i < nThr; i++ {
		if thrGid[i] == g {
			return i
		}
	}
	return -1
}

//go:norace
func nap() {
	ts := syscall.Timespec{Nsec: 20000}
	syscall.RawSyscall(syscall.SYS_SCHED_YIELD, 0, 0, 0)
	rawNap(&ts)
}

// quiet: every thread but a and b is waiting at a point or finished.
//
//go:norace
func quiet(a, b int) bool {
	for i := 0; i < nThr; i++ {
		if i != a && i != b && thrAt[i] == 0 {
			return false
		}
	}
	return true
}

//go:norace
func point() int {
	if !schedOn {
		return -2
	}
	id := me()
	if id < 0 {
		return -2
	}
	hbRelease(id)
	thrAt[id] = 1
	for n := 0; ; n++ {
		if evPos >= len(evs) {
			thrAt[id] = 0
			return -2
		}
		e := &evs[evPos]
		if e.T == id && quiet(id, e.P) {
			if e.P >= 0 {
				// the partner must be about to go as well
				for n := 0; thrAt[e.P] != 0; n++ {
					nap()
					if n > 50000 {
						diverge("schedule: partner")
					}
				}
			}
			thrAt[id] = 0
			c := e.C
			evPos++
			return c
		}
		if e.P == id && quiet(id, e.T) && thrAt[e.T] == 1 {
			c := e.PC
			thrAt[id] = 0
			return c
		}
		if n > 50000 {
			diverge(fmt.Sprintf("schedule: thread %d waits at event %d of %d (%+v)", id, evPos, len(evs), *e))
		}
		nap()
	}
}

//go:norace
func diverge(msg string) {
	if onResult != nil {
		onResult("diverged", msg)
	}
	os.Exit(3)
}

// Point is a scheduling point.
func Point() { point() }

// P is a scheduling point inside an expression.
func P[T any](x T) T {
	point()
	return x
}

// Sel is the scheduling point of a select and yields the case to take, -1
// for default, -2 when no schedule is enforced.
func Sel() int { return point() }

func Sleep(d time.Duration) {
	if !schedOn {
		time.Sleep(d)
	}
}

// Go starts a goroutine.
//
//go:norace
func Go(f func()) {
	if !schedOn {
		go f()
		return
	}
	id := nThr
	thrAt[id] = 0
	thrGid[id] = -1
	nThr++
	go run(id, f)
}

//go:norace
func run(id int, f func()) {
	thrGid[id] = gid()
	defer func() {
		hbRelease(id)
		thrAt[id] = 2
		if x := recover(); x != nil {
			if s, ok := x.(Stop); ok && onResult != nil {
				onResult(s.Kind, s.Msg)
				os.Exit(3)
			}
			panic(x)
		}
	}()
	point()
	f()
}

func ticks(n int) chan time.Time {
	c := make(chan time.Time, n)
	for i := 0; i < n; i++ {
		c <- time.Time{}
	}
	return c
}

// NewTicker and its relatives have always elapsed when looked at.
func NewTicker(d time.Duration) *time.Ticker                      { return &time.Ticker{C: ticks(8)} }
func Tick(d time.Duration) <-chan time.Time                       { return ticks(8) }
func After(d time.Duration) <-chan time.Time                      { return ticks(1) }
func NewTimer(d time.Duration) *time.Timer                        { return &time.Timer{C: ticks(1)} }
func Model__time__NewTicker(d time.Duration) *time.Ticker         { return NewTicker(d) }
func Model__time__NewTimer(d time.Duration) *time.Timer           { return NewTimer(d) }
func Model__time__After(d time.Duration) <-chan time.Time         { return After(d) }
func Model__time__Tick(d time.Duration) <-chan time.Time          { return Tick(d) }
func Model__time__PTicker__Stop(t *time.Ticker)                   {}
func Model__time__PTicker__Reset(t *time.Ticker, d time.Duration) {}
func Model__time__PTimer__Stop(t *time.Timer) bool                { return false }

// Yield lets others run; Quiesce waits until no other goroutine can move.
func Yield() {}

//
//go:norace
func Quiesce() {
	if !schedOn {
		time.Sleep(100 * time.Millisecond)
		return
	}
	for i := 0; i < nThr; i++ {
		hbAcquire(i)
	}
}
