//go:build verifdeep

package verifharness

import (
	"bytes"
	"runtime"
	"sync"

	cache "github.com/patrickmn/go-cache"
)

// Requests of a batch also stop in front of every operation of the caches
// behind the in-memory stores (bin/runner.py builds this variant against a copy
// of go-cache whose methods call Hook first).

var gates sync.Map

func gid() string {
	var buf [48]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	if i := bytes.IndexByte(b, ' '); i > 0 {
		b = b[:i]
	}
	return string(b)
}

func init() {
	settleLimit = 3000
	enterGate = func(g *gate) func() {
		id := gid()
		gates.Store(id, g)
		return func() { gates.Delete(id) }
	}
	cache.Hook = func() {
		if g, ok := gates.Load(gid()); ok {
			g.(*gate).pass("cache")
		}
	}
}
