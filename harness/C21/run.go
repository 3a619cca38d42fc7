//overlay internal/peer
package peer

import (
	"math/big"
	"math/rand"
	"net"
	"testing"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/prot"
	zz "github.com/levilutz/basiccoin/zzverif"
	"github.com/levilutz/basiccoin/zzverif/world"
)

// zPair connects two nodes over the loopback.
func zPair(t *testing.T) (a, b *prot.Conn) {
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Skip("no loopback: " + err.Error())
	}
	defer l.Close()
	ch := make(chan *prot.Conn, 1)
	go func() {
		tc, err := l.AcceptTCP()
		if err != nil {
			ch <- nil
			return
		}
		ch <- prot.NewConn(prot.NewParams("a", false, false), tc)
	}()
	b, err = prot.ResolveConn(prot.NewParams("b", true, false), l.Addr().String())
	a = <-ch
	if err != nil || a == nil {
		t.Skip("no loopback")
	}
	return a, b
}

// zChain mines a chain of n blocks on lca, head first.
func zChain(r *rand.Rand, lca core.HashT, n int, targets []core.HashT) []core.Block {
	bs := make([]core.Block, n)
	prev := lca
	for i := n - 1; i >= 0; i-- {
		bs[i] = world.Mine(r, core.Block{PrevBlockId: prev, MerkleRoot: world.RandHash(r), Target: targets[r.Intn(len(targets))], MinedTime: 5})
		prev = bs[i].Hash()
	}
	return bs
}

func zMust(s string) core.HashT {
	h, err := core.NewHashTFromString(s)
	if err != nil {
		panic(err)
	}
	return h
}

var (
	zSmall = zMust("000000000000000000000000000000000000000000000000000000000000ffff")
	zHard  = zMust("0fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")
)

// zRight decides the property.
func zRight(w *world.World, cur, head, lca core.HashT, bs []core.Block) bool {
	if len(bs) == 0 || bs[0].Hash() != head || bs[len(bs)-1].PrevBlockId != lca {
		return false
	}
	work := new(big.Int).Set(w.Blocks[lca].Work)
	for i, b := range bs {
		if i+1 < len(bs) && b.PrevBlockId != bs[i+1].Hash() {
			return false
		}
		if world.Val(b.Hash()).Cmp(world.Val(b.Target)) >= 0 {
			return false
		}
		work.Add(work, world.WorkOf(b.Target))
	}
	return work.Cmp(w.Blocks[cur].Work) > 0
}

// zBreak spoils the chain in one place, keeping everything else right.
func zBreak(r *rand.Rand, w *world.World, lca core.HashT, bs []core.Block, how int) ([]core.Block, core.HashT, core.HashT) {
	head := bs[0].Hash()
	relink := func(k int) { // mine again from k up to the head
		for i := k; i >= 0; i-- {
			if i+1 < len(bs) {
				bs[i].PrevBlockId = bs[i+1].Hash()
			}
			bs[i] = world.Mine(r, bs[i])
		}
		head = bs[0].Hash()
	}
	k := r.Intn(len(bs))
	switch how {
	case 1:
		head = world.RandHash(r)
	case 2: // hole
		bs[k].PrevBlockId = world.RandHash(r)
		bs[k] = world.Mine(r, bs[k])
		if k > 0 {
			relink(k - 1)
		} else {
			head = bs[0].Hash()
		}
	case 3: // attaches elsewhere
		lca = w.Order[r.Intn(len(w.Order))]
	case 4, 5: // does not beat its target
		if how == 4 {
			bs[k].Target = zSmall
		} else {
			bs[k].Target = core.HashT{}
		}
		for i := k - 1; i >= 0; i-- {
			bs[i].PrevBlockId = bs[i+1].Hash()
			bs[i] = world.Mine(r, bs[i])
		}
		head = bs[0].Hash()
	}
	return bs, head, lca
}

func TestVerifQuickC21(t *testing.T) {
	r := zz.Rng(t)
	n := zz.N(250)
	for c := 0; c < n; c++ {
		w := world.New(r, world.EasyParams(), 1)
		cur := core.HashT{}
		for i := 0; i < 1+r.Intn(4); i++ {
			if b, err := w.Grow(cur); err == nil {
				cur = b.Id
			}
		}
		lca := w.Order[r.Intn(len(w.Order))]
		bs := zChain(r, lca, 1+r.Intn(4), []core.HashT{w.P.OriginalTarget, w.P.OriginalTarget, zHard})
		bs, head, lca := zBreak(r, w, lca, bs, r.Intn(7))
		given := append([]core.Block{}, bs...)
		p := NewPeer(bus.NewBus(), w.Inv, nil, cur)
		var err error
		if x := zz.Panics(func() { err = p.quickVerifyChain(head, lca, bs) }); x != nil {
			zz.Fail(t, "quick-panic", "quickVerifyChain panicked: %v", x)
			return
		}
		if right := zRight(w, cur, head, lca, given); right != (err == nil) {
			zz.Fail(t, "quick", "chain of %d blocks, right=%v, verdict %v", len(bs), right, err)
		}
	}
	zz.Cases(n)
}

func TestVerifSyncC21(t *testing.T) {
	r := zz.Rng(t)
	n := zz.N(40)
	for c := 0; c < n; c++ {
		w := world.New(r, world.EasyParams(), 1)
		cur := core.HashT{}
		for i := 0; i < 2; i++ {
			if b, err := w.Grow(cur); err == nil {
				cur = b.Id
			}
		}
		lca := w.Order[r.Intn(len(w.Order))]
		bs := zChain(r, lca, 1+r.Intn(4), []core.HashT{w.P.OriginalTarget})
		bs, _, lca = zBreak(r, w, lca, bs, r.Intn(6)+0)
		head := bs[0].Hash()
		ours, theirs := zPair(t)
		b := bus.NewBus()
		sub := b.CandidateHead.SubCh()
		p := NewPeer(b, w.Inv, ours, cur)
		verdict := make(chan int, 1)
		go func() {
			for _, x := range bs {
				theirs.WriteHashT(x.Hash())
				theirs.ReadBool()
			}
			theirs.WriteHashT(lca)
			theirs.ReadBool()
			for _, x := range bs {
				theirs.WriteBlock(x)
			}
			ok := theirs.ReadBool()
			switch {
			case theirs.HasErr():
				verdict <- -1
			case ok:
				verdict <- 1
			default:
				verdict <- 0
			}
			if ok { // serve nothing
				theirs.Close()
			}
		}()
		var err error
		done := make(chan any, 1)
		go func() { done <- zz.Panics(func() { err = p.handleInboundSyncChain() }) }()
		select {
		case x := <-done:
			if x != nil {
				zz.Fail(t, "sync-panic", "receiving a chain panicked: %v", x)
				ours.Close()
				theirs.Close()
				return
			}
		case <-time.After(10 * time.Second):
			ours.Close()
			theirs.Close()
			continue
		}
		ours.Close()
		v := <-verdict
		theirs.Close()
		right := zRight(w, cur, head, lca, bs)
		if right != (v == 1) || !right && (v != 0 || err == nil) {
			zz.Fail(t, "sync", "chain of %d blocks, right=%v, answered %d, error %v", len(bs), right, v, err)
		}
		select {
		case <-sub.C:
			zz.Fail(t, "announced", "an incomplete or refused chain was handed on")
		default:
		}
		sub.Close()
	}
	zz.Cases(n)
}
