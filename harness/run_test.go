package verifharness

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

func envInt(name string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return d
}

func seedOf(parts ...any) int64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return int64(h.Sum64() >> 1)
}

const workers = 8

var progress atomic.Int64

// watch ends the process, with all the stacks, when no request ends for a while.
func watch() (stop func()) {
	quit := make(chan struct{})
	limit := envInt("VERIF_HANG", 60)
	go func() {
		last, idle := int64(-1), 0
		tick := time.NewTicker(time.Second)
		defer tick.Stop()
		for {
			select {
			case <-quit:
				return
			case <-tick.C:
			}
			if n := progress.Load(); n != last {
				last, idle = n, 0
			} else if idle++; idle >= limit {
				buf := make([]byte, 1<<22)
				fmt.Fprintf(os.Stderr, "VERIF HANG: no request ended for %d seconds\n\n%s\n", limit, buf[:runtime.Stack(buf, true)])
				os.Exit(3)
			}
		}
	}()
	return func() { close(quit) }
}

// inBubbles runs n jobs under virtual time, each in its own bubble.
func inBubbles(t *testing.T, n int, job func(i int, st *stores)) {
	var next atomic.Int64
	t.Cleanup(watch())
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		t.Run(fmt.Sprintf("w%d", w), func(t *testing.T) {
			t.Parallel()
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				st := newStores()
				synctest.Test(t, func(*testing.T) { job(i, st) })
			}
		})
	}
}

// TestScripts executes the scripts of VERIF_IN and writes one trace each to VERIF_OUT.
func TestScripts(t *testing.T) {
	in, out := os.Getenv("VERIF_IN"), os.Getenv("VERIF_OUT")
	if in == "" {
		t.Skip()
	}
	scripts := readScripts(t, in)
	w := newWriter(t, out)
	seed := envInt("VERIF_SEED", 1)
	t.Run("all", func(t *testing.T) {
		inBubbles(t, len(scripts), func(i int, st *stores) {
			sc := &scripts[i]
			s := newSystem(st, sc.Kind, seedOf(seed, sc.ID))
			t0 := time.Now().Unix()
			for k := range sc.Cmds {
				s.step(&sc.Cmds[k])
			}
			w.put(s.trace(sc.ID, t0))
		})
	})
	w.close()
}
