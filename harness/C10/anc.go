//overlay internal/inv
package inv_test

import (
	"testing"
	"time"

	"github.com/levilutz/basiccoin/pkg/core"
	zz "github.com/levilutz/basiccoin/zzverif"
	"github.com/levilutz/basiccoin/zzverif/world"
)

func TestVerifAncestry(t *testing.T) {
	r := zz.Rng(t)
	for c := 0; c < zz.N(12); c++ {
		w := world.New(r, world.EasyParams(), 1)
		tip := core.HashT{}
		for i := 0; i < 25; i++ {
			p := tip
			if r.Intn(3) == 0 {
				p = w.Order[r.Intn(len(w.Order))]
			}
			n := w.MakeRaw(p, []core.Tx{w.Coinbase(w.Blocks[p].Height+1, w.P.BlockReward, w.Pkhs[0])})
			if err := w.Store(n); err != nil {
				t.Skip(err)
			}
			tip = n.Id
		}
		up := func(id core.HashT) []core.HashT { // id, parent, ..., root
			out := []core.HashT{id}
			for !id.EqZero() {
				id = w.Blocks[id].Parent
				out = append(out, id)
			}
			return out
		}
		var what string
		guard := func(f func()) {
			done := false
			var p any
			if !zz.Within(20*time.Second, func() { p = zz.Panics(f); done = true }) || !done {
				zz.Fail(t, "hang", "%s does not end", what)
			}
			if p != nil {
				zz.Fail(t, "panic", "%s panics: %v", what, p)
			}
		}
		for _, a := range w.Order {
			ua := up(a)
			pos := map[core.HashT]int{}
			for i, x := range ua {
				pos[x] = i
			}
			zz.Cases(1)
			what = "GetBlockHeight " + a.String()
			guard(func() {
				if w.Inv.GetBlockHeight(a) != uint64(len(ua)-1) {
					zz.Fail(t, "height", "%s", what)
				}
			})
			for _, m := range []int{0, 1, 2, r.Intn(10), len(ua) - 2, len(ua) - 1, len(ua), 1000} {
				if m < 0 {
					continue
				}
				what = "GetBlockSpecificAncestor"
				guard(func() {
					got := w.Inv.GetBlockSpecificAncestor(a, m)
					if want := ua[zz.Min(m, len(ua)-1)]; got != want {
						zz.Fail(t, "GetBlockSpecificAncestor", "block at height %d, depth %d: got %s, want %s", len(ua)-1, m, got, want)
					}
				})
				if a.EqZero() {
					continue
				}
				what = "GetBlockAncestors"
				guard(func() {
					got := w.Inv.GetBlockAncestors(a, m)
					want := ua[1 : 1+zz.Min(m, len(ua)-1)]
					if len(got) != len(want) {
						zz.Fail(t, "GetBlockAncestors", "block at height %d, maxLen %d: %d ancestors, want %d", len(ua)-1, m, len(got), len(want))
					}
					for i := range got {
						if got[i] != want[i] {
							zz.Fail(t, "GetBlockAncestors", "block at height %d, maxLen %d: item %d differs", len(ua)-1, m, i)
						}
					}
				})
			}
			if !a.EqZero() {
				what = "GetBlockParentId"
				guard(func() {
					if w.Inv.GetBlockParentId(a) != ua[1] {
						zz.Fail(t, "GetBlockParentId", "block at height %d", len(ua)-1)
					}
				})
			}
			for _, b := range append([]core.HashT{world.RandHash(r)}, w.Order...) {
				k, isAnc := pos[b]
				what = "GetBlockAncestorDepth"
				guard(func() {
					d, ok := w.Inv.GetBlockAncestorDepth(a, b)
					if ok != isAnc || d != uint64(k) {
						zz.Fail(t, "GetBlockAncestorDepth", "block %s, ancestor %s: got %d %v, want %d %v", a, b, d, ok, k, isAnc)
					}
				})
				if isAnc {
					what = "GetBlockAncestorsUntil"
					guard(func() {
						got := w.Inv.GetBlockAncestorsUntil(a, b)
						want := []core.HashT{}
						if k > 1 {
							want = ua[1:k]
						}
						if len(got) != len(want) {
							zz.Fail(t, "GetBlockAncestorsUntil", "%d hops: %d blocks, want %d", k, len(got), len(want))
						}
						for i := range got {
							if got[i] != want[i] {
								zz.Fail(t, "GetBlockAncestorsUntil", "%d hops: item %d differs", k, i)
							}
						}
					})
				}
				if w.Blocks[b] == nil {
					continue
				}
				want := core.HashT{}
				for _, x := range up(b) {
					if _, ok := pos[x]; ok {
						want = x
						break
					}
				}
				what = "GetBlockLCA"
				guard(func() {
					if got := w.Inv.GetBlockLCA(a, b); got != want {
						zz.Fail(t, "GetBlockLCA", "blocks at heights %d and %d: got height %d, want %d", w.Blocks[a].Height, w.Blocks[b].Height, w.Inv.GetBlockHeight(got), w.Blocks[want].Height)
					}
				})
			}
			ids := []core.HashT{}
			for i := r.Intn(4); i > 0; i-- {
				if r.Intn(2) == 0 {
					ids = append(ids, world.RandHash(r))
				} else {
					ids = append(ids, w.Order[r.Intn(len(w.Order))])
				}
			}
			var wantId core.HashT
			want := false
			for _, x := range ids {
				if w.Blocks[x] != nil {
					wantId, want = x, true
					break
				}
			}
			what = "HasAnyBlock"
			guard(func() {
				if got, ok := w.Inv.HasAnyBlock(ids); ok != want || got != wantId {
					zz.Fail(t, "HasAnyBlock", "%v: got %s %v", ids, got, ok)
				}
			})
		}
	}
}
