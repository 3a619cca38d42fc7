//overlay internal/chain
package chain

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
	zz "github.com/levilutz/basiccoin/zzverif"
	"github.com/levilutz/basiccoin/zzverif/world"
)

// zBlockMax is the block size limit to use, if not the easy one.
var zBlockMax uint64

type hset = map[core.HashT]bool

// zPool is the model: the pending pool beside the ledger at a head.
type zModel struct {
	head core.HashT
	pool hset
}

func (m *zModel) copy() *zModel {
	c := &zModel{head: m.head, pool: hset{}}
	for k := range m.pool {
		c.pool[k] = true
	}
	return c
}

// zLedger compares the unspent outputs and inclusion records with the chain.
func zLedger(w *world.World, s *State, m *zModel) string {
	if s.head != m.head {
		return fmt.Sprintf("head is %s, not %s", s.head, m.head)
	}
	l := w.LedgerAt(m.head)
	if l == nil {
		return "head is on a chain that does not apply"
	}
	for u := range l.U {
		if !s.utxos.Includes(u) {
			return fmt.Sprintf("unspent output %v missing", u)
		}
	}
	if s.utxos.Size() != len(l.U) {
		return fmt.Sprintf("%d unspent outputs, %d expected", s.utxos.Size(), len(l.U))
	}
	for t, b := range l.Inc {
		if s.includedTxBlocks[t] != b {
			return fmt.Sprintf("tx %s recorded in %s, is in %s", t, s.includedTxBlocks[t], b)
		}
	}
	if len(s.includedTxBlocks) != len(l.Inc) {
		return fmt.Sprintf("%d inclusion records, %d expected", len(s.includedTxBlocks), len(l.Inc))
	}
	return ""
}

// zOwners compares the owner index.
func zOwners(w *world.World, s *State, m *zModel) string {
	l := w.LedgerAt(m.head)
	if l == nil || s.head != m.head {
		return ""
	}
	n := 0
	for u, o := range l.U {
		if p, ok := s.pkhUtxos[o]; !ok || !p.Includes(u) {
			return fmt.Sprintf("owner %s lacks %v", o, u)
		}
	}
	for o, p := range s.pkhUtxos {
		n += p.Size()
		if p.Size() == 0 {
			return fmt.Sprintf("owner %s has an empty entry", o)
		}
	}
	if n != len(l.U) {
		return fmt.Sprintf("%d owned outputs, %d unspent", n, len(l.U))
	}
	return ""
}

// zPoolErr compares the pending pool and its spend index.
func zPoolErr(w *world.World, s *State, m *zModel) string {
	for t := range m.pool {
		if !s.mempool.Includes(t) {
			return fmt.Sprintf("pending tx %s missing", t)
		}
	}
	if s.mempool.Size() != len(m.pool) {
		return fmt.Sprintf("%d pending, %d expected", s.mempool.Size(), len(m.pool))
	}
	n := 0
	for t := range m.pool {
		for _, i := range w.Txs[t].Inputs {
			n++
			if p, ok := s.mempoolUtxoSpends[i.Utxo]; !ok || !p.Includes(t) {
				return fmt.Sprintf("spend index of %v lacks %s", i.Utxo, t)
			}
		}
	}
	for u, p := range s.mempoolUtxoSpends {
		n -= p.Size()
		if p.Size() == 0 {
			return fmt.Sprintf("spend index of %v is empty", u)
		}
	}
	if n != 0 {
		return "spend index lists more than the pending spends"
	}
	return ""
}

// zCheck names what each property looks at.
func zCheck(t *testing.T, prop string, w *world.World, s *State, m *zModel, when string) {
	t.Helper()
	e := ""
	switch prop {
	case "C01", "C06":
		e = zLedger(w, s, m)
	case "C07":
		if e = zLedger(w, s, m); e == "" {
			e = zOwners(w, s, m)
		}
		if e == "" {
			e = zPoolErr(w, s, m)
		}
	case "C08":
		e = zOwners(w, s, m)
	case "C22":
		e = zPoolErr(w, s, m)
	}
	if e != "" {
		zz.Fail(t, "state", "%s: %s", when, e)
	}
}

// zSloppy stores a block whose transactions need not apply: conflicting spends, repeated
// inclusion, wrong order, spends of other branches, minimum heights too high.
func zSloppy(w *world.World, parent core.HashT) (*world.Node, error) {
	l := w.LedgerAt(parent)
	if l == nil {
		l = world.NewLedger()
	}
	h := w.Blocks[parent].Height + 1
	cur := l.Copy()
	var txs []core.Tx
	have := hset{}
	for k := 1 + w.R.Intn(5); k > 0; k-- {
		var tx core.Tx
		ok := false
		switch w.R.Intn(4) {
		case 0: // anything known
			if len(w.TxIds) > 0 {
				tx = w.Txs[w.TxIds[w.R.Intn(len(w.TxIds))]]
				ok = !tx.IsCoinbase
			}
		case 1: // conflicting with what is already there
			tx, ok = w.RandomTx(l, uint64(w.R.Intn(int(h)+1)))
		case 2: // perhaps too high
			tx, ok = w.RandomTx(cur, uint64(w.R.Intn(int(h)+3)))
		default:
			tx, ok = w.RandomTx(cur, 0)
		}
		if !ok || have[tx.Hash()] && w.R.Intn(4) > 0 {
			continue
		}
		have[tx.Hash()] = true
		cur.Apply(&world.Node{Txs: []core.Tx{tx}, Ids: []core.HashT{tx.Hash()}, Height: 1 << 40})
		txs = append(txs, tx)
	}
	if w.R.Intn(3) == 0 {
		for i := len(txs) - 1; i > 0; i-- {
			j := w.R.Intn(i + 1)
			txs[i], txs[j] = txs[j], txs[i]
		}
	}
	// make them known first, sources before spenders
	for again := true; again; {
		again = false
		for _, tx := range txs {
			id := tx.Hash()
			if !w.Inv.HasTx(id) && w.Inv.StoreTx(tx) == nil {
				w.Note(tx)
				again = true
			}
		}
	}
	for _, tx := range txs {
		if !w.Inv.HasTx(tx.Hash()) {
			return nil, fmt.Errorf("tx not storable")
		}
	}
	n := w.Make(parent, txs, w.Pkhs[w.R.Intn(len(w.Pkhs))])
	return n, w.Store(n)
}

// zWorld makes a random tree of stored blocks, some of which do not apply.
func zWorld(r *rand.Rand, blocks, bad int) *world.World {
	params := world.EasyParams()
	if zBlockMax > 0 {
		params.MaxBlockVSize = zBlockMax
	}
	w := world.New(r, params, 1+r.Intn(3))
	tip := core.HashT{}
	for i := 0; i < blocks; i++ {
		p := tip
		if r.Intn(4) == 0 {
			p = w.Order[r.Intn(len(w.Order))]
		}
		var n *world.Node
		var err error
		if w.LedgerAt(p) == nil || i > 2 && r.Intn(100) < bad {
			n, err = zSloppy(w, p)
		} else {
			n, err = w.Grow(p)
		}
		if err == nil && n != nil {
			if w.LedgerAt(n.Id) != nil || r.Intn(3) == 0 {
				tip = n.Id
			} else {
				tip = p
			}
		}
	}
	return w
}

// zApplies tells what advancing from the model's head must do.
func zApplies(w *world.World, m *zModel, id core.HashT, auto bool) bool {
	n, ok := w.Blocks[id]
	if !ok || n.Parent != m.head || id.EqZero() {
		return false
	}
	l := w.LedgerAt(m.head)
	if l == nil || !l.Copy().Apply(n) {
		return false
	}
	for _, t := range n.Ids {
		if !auto && !m.pool[t] {
			return false
		}
	}
	return true
}

func (m *zModel) advance(w *world.World, id core.HashT) {
	for _, t := range w.Blocks[id].Ids {
		delete(m.pool, t)
	}
	m.head = id
}

func (m *zModel) rewind(w *world.World) {
	n := w.Blocks[m.head]
	for _, t := range n.Ids {
		m.pool[t] = true
	}
	m.head = n.Parent
}

// zWalk drives a state up and down a random tree.
func zWalk(t *testing.T, prop string, worlds, blocks, steps int) {
	r := zz.Rng(t)
	cases := 0
	defer func() { zz.Cases(cases) }()
	for wi := 0; wi < zz.N(worlds); wi++ {
		w := zWorld(r, blocks, 30)
		s := NewState(w.Inv)
		m := &zModel{pool: hset{}}
		zCheck(t, prop, w, s, m, "new state")
		kids := map[core.HashT][]core.HashT{}
		for _, id := range w.Order[1:] {
			kids[w.Blocks[id].Parent] = append(kids[w.Blocks[id].Parent], id)
		}
		for k := 0; k < steps; k++ {
			cases++
			switch op := r.Intn(10); {
			case op == 0 && len(w.TxIds) > 0: // a pending transaction
				id := w.TxIds[r.Intn(len(w.TxIds))]
				if l := w.LedgerAt(m.head); l.Inc[id].EqZero() {
					s.AddMempoolTx(id)
					m.pool[id] = true
					zCheck(t, prop, w, s, m, "after adding a pending tx")
				}
			case op <= 2 && !m.head.EqZero(): // back
				old := m.head
				if p := zz.Panics(s.Rewind); p != nil {
					if prop == "C07" {
						zz.Fail(t, "rewind", "rewinding block %s (%d txs) failed: %v", old, len(w.Blocks[old].Ids), p)
					}
					return
				}
				m.rewind(w)
				zCheck(t, prop, w, s, m, fmt.Sprintf("after rewinding a block of %d txs", len(w.Blocks[old].Ids)))
			case op == 3 && !m.head.EqZero(): // far back
				path := w.Path(m.head)
				to := core.HashT{}
				if i := r.Intn(len(path) + 1); i > 0 {
					to = path[i-1].Id
				}
				if p := zz.Panics(func() { s.RewindUntil(to) }); p != nil {
					if prop == "C07" {
						zz.Fail(t, "rewinduntil", "rewinding %d blocks failed: %v", len(path), p)
					}
					return
				}
				for m.head != to {
					m.rewind(w)
				}
				zCheck(t, prop, w, s, m, "after rewinding to an ancestor")
			default: // forward, on a copy as the node does
				if len(kids[m.head]) == 0 {
					continue
				}
				id := kids[m.head][r.Intn(len(kids[m.head]))]
				if r.Intn(10) == 0 {
					id = w.Order[r.Intn(len(w.Order))]
				}
				if id.EqZero() {
					continue
				}
				auto := r.Intn(3) == 0
				if !auto && r.Intn(6) > 0 {
					for _, x := range w.Blocks[id].Ids {
						if l := w.LedgerAt(m.head); l.Inc[x].EqZero() {
							s.AddMempoolTx(x)
							m.pool[x] = true
						}
					}
				}
				want := zApplies(w, m, id, auto)
				c := s.Copy()
				var err error
				if p := zz.Panics(func() { err = c.Advance(id, auto) }); p != nil {
					if prop == "C01" {
						zz.Fail(t, "advance-panic", "advancing over block %s panicked: %v", id, p)
					}
					return
				}
				if prop == "C01" && (err == nil) != want {
					zz.Fail(t, "advance", "block at height %d with %d txs: applies=%v but Advance says %v", w.Blocks[id].Height, len(w.Blocks[id].Ids), want, err)
				}
				zCheck(t, prop, w, s, m, "original after advancing a copy")
				if (err == nil) != want {
					return
				}
				if err == nil {
					m.advance(w, id)
					s = c
					zCheck(t, prop, w, s, m, fmt.Sprintf("after a block of %d txs", len(w.Blocks[id].Ids)))
				}
			}
		}
	}
}

// zRig is a chain with its announcements observed.
type zRig struct {
	c     *Chain
	heads topic.Sub[bus.ValidatedHeadEvent]
	txs   topic.Sub[bus.ValidatedTxEvent]
	jobs  topic.Sub[bus.MinerTargetEvent]
}

func zNewRig(w *world.World) *zRig {
	b := bus.NewBus()
	g := &zRig{heads: b.ValidatedHead.Sub(), txs: b.ValidatedTx.Sub(), jobs: b.MinerTarget.Sub()}
	g.c = NewChain(b, w.Inv, true, nil)
	return g
}

func zDrain[T any](s topic.Sub[T]) (out []T) {
	for {
		v, ok := s.Pop()
		if !ok {
			return out
		}
		out = append(out, v)
	}
}

type zSnap struct {
	u   map[core.Utxo]bool
	p   map[core.HashT]map[core.Utxo]bool
	inc map[core.HashT]core.HashT
	m   hset
	h   core.HashT
}

func zTake(s *State) *zSnap {
	n := &zSnap{u: map[core.Utxo]bool{}, p: map[core.HashT]map[core.Utxo]bool{}, inc: map[core.HashT]core.HashT{}, m: hset{}, h: s.head}
	for _, u := range s.utxos.ToList() {
		n.u[u] = true
	}
	for o, us := range s.pkhUtxos {
		n.p[o] = map[core.Utxo]bool{}
		for _, u := range us.ToList() {
			n.p[o][u] = true
		}
	}
	for t, b := range s.includedTxBlocks {
		n.inc[t] = b
	}
	for _, t := range s.mempool.ToList() {
		n.m[t] = true
	}
	return n
}

func (n *zSnap) sameLedger(o *zSnap) bool {
	return n.h == o.h && fmt.Sprint(n.u) == fmt.Sprint(o.u) && fmt.Sprint(n.p) == fmt.Sprint(o.p) && fmt.Sprint(n.inc) == fmt.Sprint(o.inc)
}

// zHeads feeds a chain candidate heads, in any order, good and bad.
func zHeads(t *testing.T, prop string, worlds, blocks, steps int) {
	r := zz.Rng(t)
	cases := 0
	defer func() { zz.Cases(cases) }()
	for wi := 0; wi < zz.N(worlds); wi++ {
		w := zWorld(r, blocks, 25)
		g := zNewRig(w)
		m := &zModel{pool: hset{}}
		for k := 0; k < steps; k++ {
			cases++
			zDrain(g.heads)
			zDrain(g.txs)
			event := bus.CandidateHeadEvent{AutoAddMempoolInsecure: r.Intn(2) == 0}
			event.Head = w.Order[r.Intn(len(w.Order))]
			var fresh *world.Node
			switch r.Intn(4) {
			case 0: // a new block of pending transactions, sent with its contents
				l := w.LedgerAt(m.head)
				h := w.Blocks[m.head].Height + 1
				cur := l.Copy()
				var txs []core.Tx
				for i := r.Intn(4); i > 0; i-- {
					if tx, ok := w.RandomTx(cur, 0); ok && cur.CanApply(tx, h) && !w.Inv.HasTx(tx.Hash()) {
						cur.Apply(&world.Node{Txs: []core.Tx{tx}, Ids: []core.HashT{tx.Hash()}, Height: h})
						txs = append(txs, tx)
					}
				}
				fresh = w.Make(m.head, txs, w.Pkhs[r.Intn(len(w.Pkhs))])
				if w.Inv.HasTx(fresh.Ids[0]) {
					fresh = nil // the same coinbase again
					break
				}
				event.Head = fresh.Id
				event.Txs, event.Merkles, event.Blocks = fresh.Txs, fresh.Merkles, []core.Block{fresh.B}
			case 1: // nothing to do with us
				if r.Intn(4) == 0 {
					event.Head = world.RandHash(r)
				}
			}
			want := ""
			n, known := w.Blocks[event.Head]
			if fresh != nil {
				n, known = fresh, true
			}
			next := m.copy()
			for _, tx := range event.Txs {
				next.pool[tx.Hash()] = true
			}
			if fresh != nil {
				for _, tx := range fresh.Txs {
					w.Note(tx)
				}
				w.NoteBlock(fresh)
			}
			pooled := next.copy()
			switch {
			case !known:
				want = "unknown"
			case n.Work.Cmp(w.Blocks[m.head].Work) <= 0:
				want = "not more work"
			default:
				a, b := w.Path(m.head), w.Path(event.Head)
				i := 0
				for i < len(a) && i < len(b) && a[i].Id == b[i].Id {
					i++
				}
				for j := len(a); j > i; j-- {
					next.rewind(w)
				}
				for _, x := range b[i:] {
					if !zApplies(w, next, x.Id, event.AutoAddMempoolInsecure) {
						want = fmt.Sprintf("block at height %d does not apply", x.Height)
						break
					}
					next.advance(w, x.Id)
				}
			}
			before := zTake(g.c.state)
			var err error
			if p := zz.Panics(func() { err = g.c.handleCandidateHead(event) }); p != nil {
				if prop == "C06" || prop == "C07" {
					zz.Fail(t, "head-panic", "candidate head at height %d panicked: %v", n.Height, p)
				}
				return
			}
			heads := zDrain(g.heads)
			if prop == "C06" {
				if (err == nil) != (want == "") {
					zz.Fail(t, "head", "candidate head: expected refusal %q, got error %v", want, err)
				}
				if err != nil && (!before.sameLedger(zTake(g.c.state)) || len(heads) > 0) {
					zz.Fail(t, "head-atomic", "refused candidate head (%v) changed the ledger or was announced %d times", err, len(heads))
				}
				if err == nil && (g.c.state.head != event.Head || len(heads) != 1 || heads[0].Head != event.Head) {
					zz.Fail(t, "head-moved", "accepted candidate head %s: head is %s, announced %v", event.Head, g.c.state.head, heads)
				}
			}
			if (err == nil) != (want == "") {
				return
			}
			if err == nil {
				m = next
			} else {
				m = pooled
			}
			zCheck(t, prop, w, g.c.state, m, "after a candidate head")
		}
	}
}

// zTxs feeds a chain candidate transactions.
func zTxs(t *testing.T, prop string, worlds, blocks, steps int) {
	r := zz.Rng(t)
	cases := 0
	defer func() { zz.Cases(cases) }()
	for wi := 0; wi < zz.N(worlds); wi++ {
		w := zWorld(r, blocks, 0)
		g := zNewRig(w)
		m := &zModel{pool: hset{}}
		for _, id := range w.Order { // the best head
			if w.LedgerAt(id) != nil && g.c.handleCandidateHead(bus.CandidateHeadEvent{Head: id, AutoAddMempoolInsecure: true}) == nil {
				m.head = id
			}
		}
		m.pool = hset{}
		for _, x := range g.c.state.mempool.ToList() {
			m.pool[x] = true
		}
		for k := 0; k < steps; k++ {
			cases++
			zDrain(g.txs)
			l := w.LedgerAt(m.head)
			tx, ok := w.RandomTx(l, uint64(r.Intn(4)))
			if !ok || len(tx.Outputs) == 0 {
				break
			}
			bad := false
			switch r.Intn(6) {
			case 0:
				tx.Inputs[0].Signature = append([]byte{}, tx.Inputs[0].Signature...)
				tx.Inputs[0].Signature[len(tx.Inputs[0].Signature)-1] ^= 1
				bad = true
			case 1:
				if len(tx.Outputs) > 0 {
					tx.Outputs[0].Value += 1 << 40
					bad = true
				}
			case 2:
				tx.MinBlock++
				bad = true
			case 3:
				if len(w.TxIds) > 0 {
					tx = w.Txs[w.TxIds[r.Intn(len(w.TxIds))]]
				}
			}
			id := tx.Hash()
			_, known := w.Txs[id]
			before := zTake(g.c.state)
			var err error
			if p := zz.Panics(func() { err = g.c.handleCandidateTx(bus.CandidateTxEvent{Tx: tx}) }); p != nil {
				if prop == "C22" {
					zz.Fail(t, "tx-panic", "candidate tx panicked: %v", p)
				}
				return
			}
			anns := zDrain(g.txs)
			if prop == "C22" {
				if bad != (err != nil) {
					zz.Fail(t, "tx", "candidate tx: invalid=%v, error %v", bad, err)
				}
				if (bad || known) && (len(anns) > 0 || fmt.Sprint(before) != fmt.Sprint(zTake(g.c.state))) && fmt.Sprint(before.m) != fmt.Sprint(zTake(g.c.state).m) {
					zz.Fail(t, "tx-quiet", "tx known=%v invalid=%v was announced %d times or changed the pool", known, bad, len(anns))
				}
				if (bad || known) && len(anns) > 0 {
					zz.Fail(t, "tx-quiet", "tx known=%v invalid=%v was announced", known, bad)
				}
				if !bad && !known && (len(anns) != 1 || anns[0].TxId != id || !w.Inv.HasTx(id)) {
					zz.Fail(t, "tx-once", "new tx announced %d times, stored %v", len(anns), w.Inv.HasTx(id))
				}
				if bad && w.Inv.HasTx(id) {
					zz.Fail(t, "tx-invalid", "invalid tx stored")
				}
			}
			if bad != (err != nil) {
				return
			}
			if !bad && !known {
				w.Note(tx)
				m.pool[id] = true
			}
			zCheck(t, prop, w, g.c.state, m, "after a candidate tx")
			if prop == "C08" {
				zQueries(t, w, g.c.state, m)
			}
			if prop == "C15" {
				zJobs(t, w, g, m)
			}
			// now and then a block of pending transactions
			if r.Intn(5) == 0 {
				var txs []core.Tx
				cur := l.Copy()
				h := w.Blocks[m.head].Height + 1
				size := core.CoinbaseVSize()
				for x := range m.pool {
					if tx := w.Txs[x]; !tx.IsCoinbase && cur.CanApply(tx, h) && size+tx.VSize() <= w.P.MaxBlockVSize {
						size += tx.VSize()
						cur.Apply(&world.Node{Txs: []core.Tx{tx}, Ids: []core.HashT{x}, Height: h})
						txs = append(txs, tx)
					}
				}
				n := w.Make(m.head, txs, w.Pkhs[0])
				if w.Inv.HasTx(n.Ids[0]) {
					continue
				}
				if g.c.handleCandidateHead(bus.CandidateHeadEvent{Head: n.Id, Txs: n.Txs, Merkles: n.Merkles, Blocks: []core.Block{n.B}}) != nil {
					return
				}
				w.NoteBlock(n)
				m.advance(w, n.Id)
				zCheck(t, prop, w, g.c.state, m, "after mining")
			}
		}
	}
}

// zQueries compares the answers about owners and confirmations.
func zQueries(t *testing.T, w *world.World, s *State, m *zModel) {
	t.Helper()
	l := w.LedgerAt(m.head)
	bal := map[core.HashT]uint64{}
	for u, o := range l.U {
		bal[o] += u.Value
	}
	spent := map[core.Utxo]bool{}
	for x := range m.pool {
		for _, i := range w.Txs[x].Inputs {
			spent[i.Utxo] = true
		}
	}
	pkhs := append(append([]core.HashT{}, w.Pkhs...), world.RandHash(w.R))
	bs := s.GetManyPkhBalances(pkhs)
	for _, p := range pkhs {
		if s.GetPkhBalance(p) != bal[p] || bs[p] != bal[p] {
			zz.Fail(t, "balance", "balance of %s is %d / %d, should be %d", p, s.GetPkhBalance(p), bs[p], bal[p])
		}
	}
	for _, ex := range []bool{true, false} {
		got := s.GetManyPkhUtxos(pkhs, ex)
		n := 0
		for u, o := range l.U {
			if ex && spent[u] || w.KeyOf(o) < 0 {
				continue
			}
			n++
			if got[u] != o {
				zz.Fail(t, "utxos", "output %v of %s answered as of %s (exclude pending %v)", u, o, got[u], ex)
			}
		}
		if len(got) != n {
			zz.Fail(t, "utxos", "%d outputs listed, %d expected (exclude pending %v)", len(got), n, ex)
		}
		for _, p := range pkhs {
			seen := map[core.Utxo]bool{}
			for _, u := range s.GetPkhUtxos(p, ex) {
				if seen[u] || l.U[u] != p || ex && spent[u] {
					zz.Fail(t, "pkhutxos", "output %v listed for %s (exclude pending %v, twice %v)", u, p, ex, seen[u])
				}
				seen[u] = true
			}
		}
	}
	for max := uint64(0); max < 5; max++ {
		rich := s.GetRichList(max)
		if len(rich) != zz.Min(int(max), len(bal)) {
			zz.Fail(t, "rich", "rich list of %d has %d entries, %d owners", max, len(rich), len(bal))
		}
		for p, v := range rich {
			if bal[p] != v {
				zz.Fail(t, "rich", "rich list gives %s %d, has %d", p, v, bal[p])
			}
			for q, b := range bal {
				if _, in := rich[q]; !in && b > v {
					zz.Fail(t, "rich", "rich list of %d has %d but not %d", max, v, b)
				}
			}
		}
	}
	ids := append(append([]core.HashT{}, w.TxIds...), world.RandHash(w.R))
	cs := s.GetTxConfirms(ids)
	ib := s.GetTxIncludedBlock(ids)
	for _, x := range ids {
		b, inc := l.Inc[x]
		_, known := w.Txs[x]
		c, has := cs[x]
		want := uint64(0)
		if inc {
			want = w.Blocks[m.head].Height - w.Blocks[b].Height + 1
		}
		if has != known || c != want {
			zz.Fail(t, "confirms", "tx known=%v included=%v: answer %v %d, should be %d", known, inc, has, c, want)
		}
		if g, has := ib[x]; has != inc || g != b {
			zz.Fail(t, "included", "tx included=%v in %s: answer %v %s", inc, b, has, g)
		}
	}
}

// zJobs checks what miners are offered.
func zJobs(t *testing.T, w *world.World, g *zRig, m *zModel) {
	t.Helper()
	zDrain(g.jobs)
	g.c.CreateMiningTarget()
	jobs := zDrain(g.jobs)
	if len(jobs) != 1 {
		zz.Fail(t, "jobs", "%d targets published", len(jobs))
	}
	j := jobs[0]
	if j.Head != m.head || j.Target != core.NextTarget(w.P, w.Inv, m.head) {
		zz.Fail(t, "job-head", "offered head %s target %s", j.Head, j.Target)
	}
	l := w.LedgerAt(m.head)
	size := core.CoinbaseVSize()
	seen := hset{}
	spent := map[core.Utxo]bool{}
	for _, x := range j.TxIds {
		tx := w.Txs[x]
		if seen[x] || !m.pool[x] || tx.IsCoinbase || !l.CanApply(tx, w.Blocks[m.head].Height+1) {
			zz.Fail(t, "job-tx", "offered tx %s: twice %v, pending %v, coinbase %v, includable %v", x, seen[x], m.pool[x], tx.IsCoinbase, l.CanApply(tx, w.Blocks[m.head].Height+1))
		}
		seen[x] = true
		for _, i := range tx.Inputs {
			if spent[i.Utxo] {
				zz.Fail(t, "job-double", "output %v spent twice in the offer", i.Utxo)
			}
			spent[i.Utxo] = true
		}
		size += tx.VSize()
	}
	if size > w.P.MaxBlockVSize {
		zz.Fail(t, "job-size", "offer of %d bytes", size)
	}
}
