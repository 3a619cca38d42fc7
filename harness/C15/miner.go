//overlay internal/miner
package miner

import (
	"testing"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/pkg/core"
	zz "github.com/levilutz/basiccoin/zzverif"
	"github.com/levilutz/basiccoin/zzverif/world"
)

// zLeaves lists the ids below root, in order.
func zLeaves(nodes map[core.HashT]core.MerkleNode, root core.HashT) []core.HashT {
	var out []core.HashT
	q := []core.HashT{root}
	for len(q) > 0 && len(out) < 1<<14 {
		id := q[0]
		q = q[1:]
		n, ok := nodes[id]
		if !ok {
			out = append(out, id)
			continue
		}
		q = append(q, n.LChild)
		if n.RChild != n.LChild {
			q = append(q, n.RChild)
		}
	}
	return out
}

func zSame(a, b []core.HashT) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Every list length up to the bound: the shape of the tree depends on nothing else.
func TestVerifTreeC15(t *testing.T) {
	defer func() {
		if p := recover(); p != nil {
			zz.Fail(t, "tree-panic", "MerkleFromTxIds panicked: %v", p)
		}
	}()
	n := zz.N(300)
	for k := 1; k <= n; k++ {
		ids := make([]core.HashT, k)
		for i := range ids {
			ids[i] = world.Hash(int64(1000 + i))
		}
		nodes, order := core.MerkleFromTxIds(ids)
		if len(order) == 0 {
			zz.Fail(t, "tree", "%d ids: no root", k)
			continue
		}
		got := map[core.HashT]bool{}
		for _, id := range order {
			m, ok := nodes[id]
			if !ok || m.Hash() != id {
				zz.Fail(t, "tree", "%d ids: node %s is listed but missing or wrong", k, id)
			}
			for _, c := range []core.HashT{m.LChild, m.RChild} { // children come first
				if _, isNode := nodes[c]; isNode && !got[c] {
					zz.Fail(t, "tree", "%d ids: node %s is listed before its child", k, id)
				}
			}
			got[id] = true
		}
		if !zSame(zLeaves(nodes, order[len(order)-1]), ids) {
			zz.Fail(t, "tree", "the tree over %d ids is not over exactly those, in order", k)
		}
	}
	zz.Cases(n)
}

func TestVerifTemplateC15(t *testing.T) {
	r := zz.Rng(t)
	n := zz.N(40)
	for c := 0; c < n; c++ {
		w := world.New(r, world.EasyParams(), 2)
		head := core.HashT{}
		for i := 0; i < 1+r.Intn(4); i++ {
			if b, err := w.Grow(head); err == nil {
				head = b.Id
			}
		}
		l := w.LedgerAt(head)
		var list []core.HashT
		fees := uint64(0)
		for i := 0; i < r.Intn(4); i++ {
			tx, ok := w.RandomTx(l, 0)
			if !ok || !tx.HasSurplus() || w.Inv.HasTx(tx.Hash()) || w.Inv.StoreTx(tx) != nil {
				continue
			}
			list = append(list, tx.Hash())
			fees += tx.InputsValue() - tx.OutputsValue()
		}
		shared := make([]core.HashT, len(list), len(list)+3)
		copy(shared, list)
		target := world.Hash(77)
		pkh := world.RandHash(r)
		m := NewMiner(NewParams(pkh), bus.NewBus(), w.Inv)
		if p := zz.Panics(func() { m.updateTemplate(head, target, shared) }); p != nil {
			zz.Fail(t, "template-panic", "updateTemplate panicked: %v", p)
			return
		}
		if !zSame(shared, list) {
			zz.Fail(t, "shared", "building a template changed the shared list of %d ids", len(list))
		}
		b, cb := m.template, m.outCoinbase
		if b == nil || cb == nil || b.PrevBlockId != head || b.Target != target {
			zz.Fail(t, "template", "template does not follow the offered head and target")
			return
		}
		if !cb.IsCoinbase || cb.MinBlock != w.Inv.GetBlockHeight(head)+1 || len(cb.Inputs) != 0 || len(cb.Outputs) != 1 ||
			cb.Outputs[0].Value != fees+w.Inv.GetCoreParams().BlockReward || cb.Outputs[0].PublicKeyHash != pkh {
			zz.Fail(t, "coinbase", "coinbase %+v for height %d, fees %d", *cb, w.Inv.GetBlockHeight(head)+1, fees)
		}
		nodes := map[core.HashT]core.MerkleNode{}
		for _, x := range m.outMerkles {
			nodes[x.Hash()] = x
		}
		if !zSame(zLeaves(nodes, b.MerkleRoot), append([]core.HashT{cb.Hash()}, list...)) {
			zz.Fail(t, "root", "template's tree is not over the coinbase and the %d offered transactions in order", len(list))
		}
		prev := *b
		sub := m.bus.CandidateHead.SubCh()
		zz.Panics(func() { m.mine(300) })
		prev.Nonce, prev.Noise = m.template.Nonce, m.template.Noise
		if prev != *m.template {
			zz.Fail(t, "mine", "mining changed more than nonce and noise")
		}
		for done := false; !done; {
			select {
			case e := <-sub.C:
				if len(e.Blocks) != 1 || e.Head != e.Blocks[0].Hash() || !e.Head.Lt(e.Blocks[0].Target) {
					zz.Fail(t, "publish", "published a head without the work or with another block")
				}
			default:
				done = true
			}
		}
		sub.Close()
	}
	zz.Cases(n)
}
