//overlay pkg/queue
package queue

import (
	"testing"

	zz "github.com/levilutz/basiccoin/zzverif"
)

func TestVerifQueue(t *testing.T) {
	r := zz.Rng(t)
	n := zz.N(3000)
	for i := 0; i < n; i++ {
		var model []int
		next := 0
		mk := func(k int) []int {
			var xs []int
			for ; k > 0; k-- {
				next++
				xs = append(xs, next)
			}
			return xs
		}
		init := mk(r.Intn(3))
		q := NewQueue(init...)
		model = append(model, init...)
		for s := 0; s < 60; s++ {
			switch r.Intn(5) {
			case 0, 1:
				xs := mk(r.Intn(5))
				cp := append([]int{}, xs...)
				q.Push(xs...)
				model = append(model, cp...)
				for j := range xs {
					xs[j] = -1 // the caller keeps its own slice
				}
				_ = cp
			case 2, 3:
				k, ok := q.Pop()
				if ok != (len(model) > 0) || (ok && k != model[0]) || (!ok && k != 0) {
					zz.Fail(t, "queue.Pop", "case %d step %d: got %v %v, items %v", i, s, k, ok, model)
				}
				if ok {
					model = model[1:]
				}
			case 4:
				k, ok := q.Peek()
				if ok != (len(model) > 0) || (ok && k != model[0]) || (!ok && k != 0) {
					zz.Fail(t, "queue.Peek", "case %d step %d: got %v %v, items %v", i, s, k, ok, model)
				}
			}
			if q.Size() != len(model) {
				zz.Fail(t, "queue.Size", "case %d step %d: %d, items %v", i, s, q.Size(), model)
			}
		}
	}
	zz.Cases(n * 60)
}
