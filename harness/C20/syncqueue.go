//overlay pkg/syncqueue
package syncqueue

import (
	"sync"
	"testing"
	"time"

	zz "github.com/levilutz/basiccoin/zzverif"
)

// every operation must leave the lock free
func verifUnlocked(t *testing.T, q *SyncQueue[int], op string) {
	if !q.mu.TryLock() {
		zz.Fail(t, "lock."+op, "the lock is still held after %s", op)
	}
	q.mu.Unlock()
}

func TestVerifSyncQueue(t *testing.T) {
	r := zz.Rng(t)
	n := zz.N(3000)
	for i := 0; i < n; i++ {
		next := 0
		var model []int
		closed := false
		mk := func(k int) []int {
			var xs []int
			for ; k > 0; k-- {
				next++
				xs = append(xs, next)
			}
			return xs
		}
		init := mk(r.Intn(3))
		model = append(model, init...)
		q := NewSyncQueue(init...)
		do := func(op string, f func()) {
			var p any
			if !zz.Within(20*time.Second, func() { p = zz.Panics(f) }) {
				zz.Fail(t, "hang."+op, "%s does not return", op)
			}
			if p != nil {
				zz.Fail(t, "panic."+op, "closed=%v items=%v: %v", closed, model, p)
			}
			verifUnlocked(t, q, op)
		}
		for s := 0; s < 40; s++ {
			switch op := r.Intn(40); {
			case op < 12:
				xs := mk(r.Intn(4))
				do("Push", func() { q.Push(xs...) })
				if !closed {
					model = append(model, xs...)
				}
			case op < 22:
				var k int
				var ok bool
				do("Pop", func() { k, ok = q.Pop() })
				if ok != (len(model) > 0) || (ok && k != model[0]) {
					zz.Fail(t, "SyncQueue.Pop", "got %v %v, items %v closed %v", k, ok, model, closed)
				}
				if ok {
					model = model[1:]
				}
			case op < 30:
				var k int
				var ok bool
				do("Peek", func() { k, ok = q.Peek() })
				if ok != (len(model) > 0) || (ok && k != model[0]) {
					zz.Fail(t, "SyncQueue.Peek", "got %v %v, items %v closed %v", k, ok, model, closed)
				}
			case op < 35:
				var k int
				do("Size", func() { k = q.Size() })
				if k != len(model) {
					zz.Fail(t, "SyncQueue.Size", "got %v, items %v closed %v", k, model, closed)
				}
			case op < 39:
				var k bool
				do("Closed", func() { k = q.Closed() })
				if k != closed {
					zz.Fail(t, "SyncQueue.Closed", "got %v want %v", k, closed)
				}
			default:
				do("Close", func() { q.Close() })
				closed = true
				model = nil
			}
		}
	}
	zz.Cases(n * 40)
}

// Concurrent pushers and poppers: every item arrives once, each pusher's items in order.
func TestVerifSyncQueueConcurrent(t *testing.T) {
	n := zz.N(60)
	for i := 0; i < n; i++ {
		q := NewSyncQueue[int]()
		const P, K = 4, 300
		var wg sync.WaitGroup
		for p := 0; p < P; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				for k := 0; k < K; k += 2 {
					q.Push(p*K+k, p*K+k+1)
				}
			}(p)
		}
		var mu sync.Mutex
		count := map[int]int{}
		bad := false
		done := make(chan struct{})
		var rg sync.WaitGroup
		for c := 0; c < 3; c++ {
			rg.Add(1)
			go func() {
				defer rg.Done()
				last := map[int]int{}
				for {
					v, ok := q.Pop()
					if !ok {
						select {
						case <-done:
							if q.Size() == 0 {
								return
							}
						default:
						}
						continue
					}
					mu.Lock()
					count[v]++
					if l, ok := last[v/K]; ok && l >= v {
						bad = true
					}
					mu.Unlock()
					last[v/K] = v
				}
			}()
		}
		var fin bool
		var p any
		fin = zz.Within(60*time.Second, func() { p = zz.Panics(func() { wg.Wait(); close(done); rg.Wait() }) })
		if !fin || p != nil {
			zz.Fail(t, "concurrent.stuck", "pushers or poppers do not finish: %v", p)
		}
		if bad {
			zz.Fail(t, "concurrent.order", "a popper saw one pusher's items out of order")
		}
		for v := 0; v < P*K; v++ {
			if count[v] != 1 {
				zz.Fail(t, "concurrent.once", "item %d delivered %d times", v, count[v])
			}
		}
	}
	zz.Cases(n)
}
