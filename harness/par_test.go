package verifharness

import (
	"context"
	"runtime"
	"sync/atomic"
	"syscall"
)

// -----------------------------------------------------------------------------
// Concurrent batches under a chosen schedule. Requests are stopped in front of
// every dependency call; the scheduler lets exactly one of them proceed to its
// next stop, in the order of the schedule.

type gate struct {
	parked atomic.Bool
	done   atomic.Bool
	free   atomic.Bool
	resume chan struct{}
}

var (
	settleLimit int64 = 20000
	enterGate         = func(*gate) func() { return func() {} }
)

type gateKey struct{}

func gateOf(ctx context.Context) *gate {
	g, _ := ctx.Value(gateKey{}).(*gate)
	return g
}

func (g *gate) pass(string) {
	if g.free.Load() {
		return
	}
	g.parked.Store(true)
	<-g.resume
}

// realNow is not affected by virtual time.
func realNow() int64 {
	var tv syscall.Timeval
	_ = syscall.Gettimeofday(&tv)
	return tv.Sec*1e6 + int64(tv.Usec)
}

// settle waits until the request is stopped or over; a request blocked on a
// lock held by another one is left alone after a short while.
func (g *gate) settle() bool {
	limit := realNow() + settleLimit
	for i := 0; ; i++ {
		if g.done.Load() || g.parked.Load() {
			return true
		}
		runtime.Gosched()
		if i%256 == 0 && realNow() > limit {
			return false
		}
	}
}

func (g *gate) release() {
	g.parked.Store(false)
	g.resume <- struct{}{}
}

func (s *system) runPar(c *Cmd) M {
	n := len(c.Par)
	evs := make([]M, n)
	gates := make([]*gate, n)
	start, end := make([]int, n), make([]int, n)
	clock := 0
	s.faults.arm(nil)
	for i := range c.Par {
		cmd := &c.Par[i]
		a, call := s.prepare(cmd)
		g := &gate{resume: make(chan struct{}, 1)}
		gates[i] = g
		go func(i int) {
			g.pass("start")
			defer enterGate(g)()
			r := call(context.WithValue(context.Background(), gateKey{}, g))
			evs[i] = M{"op": cmd.Op, "a": a, "r": r, "f": M{"at": "", "alter": ""}}
			g.done.Store(true)
		}(i)
	}
	for _, g := range gates {
		g.settle()
	}
	one := func(i int) {
		g := gates[i]
		if g.done.Load() || !g.parked.Load() {
			return
		}
		clock++
		if start[i] == 0 {
			start[i] = clock
		}
		g.release()
		g.settle()
		// Any request may have ended meanwhile
		clock++
		for k, h := range gates {
			if end[k] == 0 && h.done.Load() {
				end[k] = clock
			}
		}
	}
	for _, i := range c.Sched {
		if i >= 0 && i < n {
			one(i)
		}
	}
	// Let everybody finish, in order
	for {
		alive := false
		for i, g := range gates {
			for k := 0; k < 200 && !g.done.Load(); k++ {
				if !g.parked.Load() && !g.settle() {
					break
				}
				one(i)
			}
			if !g.done.Load() {
				alive = true
			}
		}
		if !alive {
			break
		}
	}
	prec := [][]int{}
	for i := range gates {
		for j := range gates {
			if i != j && end[i] != 0 && start[j] != 0 && end[i] < start[j] {
				prec = append(prec, []int{i + 1, j + 1})
			}
		}
	}
	for _, e := range evs {
		s.learn(e)
	}
	return M{"op": "par", "evs": evs, "prec": prec}
}
