package world

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"testing"
	"time"

	"github.com/levilutz/basiccoin/pkg/core"
	zz "github.com/levilutz/basiccoin/zzverif"
)

// Reference rules, written from the documentation and independent of the node's code. Each
// rule belongs to a property; a run for a property complains only about its own rules.

type rule struct {
	prop, name string
	ok         bool
}

func bi(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

type Rules struct {
	*World
	T       *testing.T
	Prop    string
	Merkles map[core.HashT]core.MerkleNode
	MIds    []core.HashT
	NowLo   uint64
}

func (w *World) TxSize(tx core.Tx) *big.Int {
	s := big.NewInt(72 + 40*int64(len(tx.Outputs)))
	for _, i := range tx.Inputs {
		s.Add(s, big.NewInt(48+int64(len(i.PublicKey))+int64(len(i.Signature))))
	}
	return s
}

func sums(tx core.Tx) (in, out *big.Int) {
	in, out = new(big.Int), new(big.Int)
	for _, i := range tx.Inputs {
		in.Add(in, bi(i.Utxo.Value))
	}
	for _, o := range tx.Outputs {
		out.Add(out, bi(o.Value))
	}
	return
}

func (q *Rules) TxRules(tx core.Tx) []rule {
	var rs []rule
	add := func(p, n string, ok bool) { rs = append(rs, rule{p, n, ok}) }
	in, out := sums(tx)
	h := core.TxHashPreSig(tx.MinBlock, tx.Outputs)
	seen := map[[2]any]bool{}
	for k, i := range tx.Inputs {
		if q.Prop == "C03" || q.Prop == "C09" {
			ok, err := core.EcdsaVerify(i.PublicKey, h, i.Signature)
			add("C03", fmt.Sprintf("signature of input %d", k), ok && err == nil)
		}
		o, known := q.Txs[i.Utxo.TxId]
		known = known && i.Utxo.Ind < uint64(len(o.Outputs))
		add("C02", fmt.Sprintf("input %d names an existing output", k), known)
		if known {
			add("C02", fmt.Sprintf("input %d has the output's value", k), o.Outputs[i.Utxo.Ind].Value == i.Utxo.Value)
			add("C03", fmt.Sprintf("key of input %d matches the output", k), core.DHashBytes(i.PublicKey) == o.Outputs[i.Utxo.Ind].PublicKeyHash)
		}
		add("C02", fmt.Sprintf("input %d named once", k), !seen[[2]any{i.Utxo.TxId, i.Utxo.Ind}])
		seen[[2]any{i.Utxo.TxId, i.Utxo.Ind}] = true
	}
	if tx.IsCoinbase {
		add("C02", "coinbase has no input and one output of at least the reward", len(tx.Inputs) == 0 && len(tx.Outputs) == 1 && out.Cmp(bi(q.P.BlockReward)) >= 0)
	} else {
		add("C02", "inputs are worth more than outputs", in.Cmp(out) > 0)
	}
	add("C11", "transaction size limit", q.TxSize(tx).Cmp(bi(q.P.MaxTxVSize)) <= 0)
	return rs
}

func (q *Rules) Below(id core.HashT) []core.HashT {
	var out []core.HashT
	for todo := []core.HashT{id}; len(todo) > 0; {
		x := todo[0]
		todo = todo[1:]
		if m, ok := q.Merkles[x]; ok {
			todo = append(todo, m.LChild)
			if m.RChild != m.LChild {
				todo = append(todo, m.RChild)
			}
		} else {
			out = append(out, x)
		}
	}
	return out
}

func (q *Rules) Size(id core.HashT) *big.Int {
	if m, ok := q.Merkles[id]; ok {
		s := q.Size(m.LChild)
		if m.RChild != m.LChild {
			s = new(big.Int).Add(s, q.Size(m.RChild))
		}
		return s
	}
	return q.TxSize(q.Txs[id])
}

func (q *Rules) known(id core.HashT) bool {
	_, a := q.Merkles[id]
	_, b := q.Txs[id]
	return a || b
}

func (q *Rules) MerkleRules(m core.MerkleNode) []rule {
	var rs []rule
	add := func(n string, ok bool) { rs = append(rs, rule{"C11", n, ok}) }
	ok := q.known(m.LChild) && q.known(m.RChild)
	add("children known", ok)
	if !ok {
		return rs
	}
	s := new(big.Int).Set(q.Size(m.LChild))
	if m.LChild != m.RChild {
		l := map[core.HashT]bool{}
		for _, x := range q.Below(m.LChild) {
			l[x] = true
		}
		for _, x := range q.Below(m.RChild) {
			if l[x] {
				add("different children share no transaction", false)
			}
		}
		s.Add(s, q.Size(m.RChild))
	}
	add("node size limit", s.Cmp(bi(q.P.MaxBlockVSize)) <= 0)
	return rs
}

// up lists the ancestors of a block, nearest first, root last.
func (q *Rules) up(id core.HashT) []core.HashT {
	var out []core.HashT
	for !id.EqZero() {
		id = q.Blocks[id].Parent
		out = append(out, id)
	}
	return out
}

func (q *Rules) median(parent core.HashT) *big.Int {
	var ts []uint64
	for _, x := range append([]core.HashT{parent}, q.up(parent)...) {
		if !x.EqZero() && len(ts) < 5 {
			ts = append(ts, q.Blocks[x].B.MinedTime)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	if n := len(ts); n%2 == 0 {
		return new(big.Int).Rsh(new(big.Int).Add(bi(ts[n/2-1]), bi(ts[n/2])), 1)
	} else {
		return bi(ts[n/2])
	}
}

// periodFirst is the first measured block of the period of the block at the given height on parent.
func (q *Rules) periodFirst(parent core.HashT, height uint64) core.HashT {
	first := height / q.P.DifficultyPeriod * q.P.DifficultyPeriod
	if first == 0 {
		first = 1
	}
	id := parent
	for q.Blocks[id].Height > first {
		id = q.Blocks[id].Parent
	}
	return id
}

func (q *Rules) bounds(parent core.HashT) (lo, hi *big.Int) {
	p := Val(q.Blocks[parent].B.Target)
	lo = new(big.Int).Rsh(p, 2)
	hi = new(big.Int).Lsh(p, 2)
	if m := Val(q.P.MaxTarget); hi.Cmp(m) > 0 {
		hi = m
	}
	return
}

// Next is the target for the block on parent.
func (q *Rules) Next(parent core.HashT) *big.Int {
	h := q.Blocks[parent].Height
	if h == 0 {
		return Val(q.P.OriginalTarget)
	}
	t := Val(q.Blocks[parent].B.Target)
	if (h+1)%q.P.DifficultyPeriod != 0 {
		return t
	}
	f := q.Blocks[q.periodFirst(parent, h)]
	x := new(big.Int).Mul(t, bi(q.Blocks[parent].B.MinedTime-f.B.MinedTime))
	x.Div(x, bi(q.P.BlockTargetTime*(h-f.Height)))
	lo, hi := q.bounds(parent)
	if x.Cmp(lo) < 0 {
		x = lo
	}
	if x.Cmp(hi) > 0 {
		x = hi
	}
	return x
}

func (q *Rules) BlockRules(b core.Block) []rule {
	var rs []rule
	add := func(p, n string, ok bool) { rs = append(rs, rule{p, n, ok}) }
	add("C04", "id below the target", Val(b.Hash()).Cmp(Val(b.Target)) < 0)
	_, rootKnown := q.Merkles[b.MerkleRoot]
	par, parKnown := q.Blocks[b.PrevBlockId]
	add("C11", "merkle root known", rootKnown)
	add("C11", "parent known", parKnown)
	add("C05", "at most an hour ahead", b.MinedTime <= uint64(time.Now().Unix())+3600)
	if rootKnown {
		ids := q.Below(b.MerkleRoot)
		in, out := bi(q.P.BlockReward), new(big.Int)
		for k, id := range ids {
			tx := q.Txs[id]
			i, o := sums(tx)
			in.Add(in, i)
			out.Add(out, o)
			add("C11", "first transaction is the only coinbase", tx.IsCoinbase == (k == 0))
		}
		add("C02", "reward and inputs equal outputs", in.Cmp(out) == 0)
		add("C11", "at least one transaction", len(ids) > 0)
		add("C11", "transaction count", len(ids) <= int((q.P.MaxBlockVSize-112)/211+2))
		add("C11", "block size limit", q.Size(b.MerkleRoot).Cmp(bi(q.P.MaxBlockVSize)) <= 0)
		if parKnown && len(ids) > 0 {
			add("C11", "coinbase carries the height", q.Txs[ids[0]].MinBlock == par.Height+1)
		}
	}
	if !parKnown {
		return rs
	}
	h := par.Height + 1
	t := Val(b.Target)
	if par.Height == 0 {
		add("C04", "first block has the original target", t.Cmp(Val(q.P.OriginalTarget)) == 0)
	} else {
		add("C05", "above the median", bi(b.MinedTime).Cmp(q.median(b.PrevBlockId)) > 0)
		if h%q.P.DifficultyPeriod != 0 {
			add("C04", "target unchanged inside a period", t.Cmp(Val(par.B.Target)) == 0)
		} else {
			lo, hi := q.bounds(b.PrevBlockId)
			add("C04", "target at most four times harder", t.Cmp(lo) >= 0)
			add("C04", "target at most four times easier and below the maximum", t.Cmp(hi) <= 0)
		}
		if (h+1)%q.P.DifficultyPeriod == 0 {
			add("C05", "last of a period above the first", b.MinedTime > q.Blocks[q.periodFirst(b.PrevBlockId, h)].B.MinedTime)
		}
	}
	return rs
}

func allOK(rs []rule) bool {
	for _, r := range rs {
		if !r.ok {
			return false
		}
	}
	return true
}

func (q *Rules) judge(what string, rs []rule, err error, detail string) {
	zz.Cases(1)
	if err != nil {
		return
	}
	for _, r := range rs {
		if !r.ok && (q.Prop == r.prop || q.Prop == "C09") {
			zz.Fail(q.T, what+": "+r.name, "%s accepted although it breaks: %s (%s)", what, r.name, detail)
		}
	}
}

func HashOf(x *big.Int) core.HashT {
	var b [32]byte
	x.FillBytes(b[:])
	return core.NewHashTFromBytes(b[:])
}

func RuleParams(r *rand.Rand) core.Params {
	p := core.Params{BlockReward: uint64(1 + r.Intn(1000)), DifficultyPeriod: uint64(4 + r.Intn(4)), BlockTargetTime: uint64(1 + r.Intn(20)), MaxBlockVSize: uint64(500 + r.Intn(1500)), MaxTxVSize: uint64(280 + r.Intn(500)), MaxTarget: hx(Easy)}
	p.OriginalTarget = HashOf(new(big.Int).Rsh(Val(p.MaxTarget), uint(r.Intn(4))))
	return p
}

func NewRules(t *testing.T, prop string, r *rand.Rand, p core.Params) *Rules {
	return &Rules{World: New(r, p, 3), T: t, Prop: prop, Merkles: map[core.HashT]core.MerkleNode{}}
}

func (q *Rules) storeTx(tx core.Tx) error {
	rs := q.TxRules(tx)
	id := tx.Hash()
	_, dup := q.Txs[id]
	err := q.Inv.StoreTx(tx)
	in, out := sums(tx)
	q.judge("transaction", rs, err, fmt.Sprintf("coinbase %v, %d inputs worth %v, %d outputs worth %v", tx.IsCoinbase, len(tx.Inputs), in, len(tx.Outputs), out))
	q.stored("transaction", dup, err, func() bool { return q.Inv.HasTx(id) }, func() bool {
		return q.Inv.GetTx(id).Hash() == id && q.Inv.GetTxVSize(id) == q.TxSize(tx).Uint64()
	})
	if err == nil {
		q.Note(tx)
	}
	return err
}

// stored checks C09's bookkeeping after a store request.
func (q *Rules) stored(what string, dup bool, err error, has, good func() bool) {
	if q.Prop != "C09" {
		return
	}
	switch {
	case dup && err == nil:
		zz.Fail(q.T, "dup "+what, "storing a known %s again reports no error", what)
	case (dup || err == nil) && !has():
		zz.Fail(q.T, "lost "+what, "stored %s is not found under its id", what)
	case err != nil && !dup && has():
		zz.Fail(q.T, "kept "+what, "%s refused (%v) but found under its id", what, err)
	case err == nil && !good():
		zz.Fail(q.T, "record "+what, "record of a stored %s is wrong", what)
	}
}

func (q *Rules) storeMerkle(m core.MerkleNode) error {
	rs := q.MerkleRules(m)
	id := m.Hash()
	_, dup := q.Merkles[id]
	err := q.Inv.StoreMerkle(m)
	q.judge("merkle node", rs, err, fmt.Sprintf("limit %d", q.P.MaxBlockVSize))
	q.stored("merkle node", dup, err, func() bool { return q.Inv.HasMerkle(id) }, func() bool {
		s := new(big.Int).Set(q.Size(m.LChild))
		if m.RChild != m.LChild {
			s.Add(s, q.Size(m.RChild))
		}
		return q.Inv.GetMerkle(id) == m && q.Inv.GetMerkleVSize(id) == s.Uint64()
	})
	if err == nil && !dup {
		q.Merkles[id] = m
		q.MIds = append(q.MIds, id)
	}
	return err
}

func (q *Rules) storeBlock(b core.Block) error {
	rs := q.BlockRules(b)
	id := b.Hash()
	_, dup := q.Blocks[id]
	var err error
	if p := zz.Panics(func() { err = q.Inv.StoreBlock(b) }); p != nil {
		if q.Prop == "C05" {
			zz.Fail(q.T, "panic", "StoreBlock panics: %v", p)
		}
		q.T.SkipNow()
	}
	q.judge("block", rs, err, fmt.Sprintf("height %d, period %d, time %d, target %s", q.Blocks[b.PrevBlockId].height()+1, q.P.DifficultyPeriod, b.MinedTime, b.Target))
	q.stored("block", dup, err, func() bool { return q.Inv.HasBlock(id) }, func() bool {
		p := q.Blocks[b.PrevBlockId]
		return q.Inv.GetBlock(id) == b && q.Inv.GetBlockHeight(id) == p.Height+1 && Val(q.Inv.GetBlockTotalWork(id)).Cmp(new(big.Int).Add(p.Work, WorkOf(b.Target))) == 0
	})
	if err == nil && !dup && q.Blocks[b.PrevBlockId] != nil {
		p := q.Blocks[b.PrevBlockId]
		n := &Node{Id: id, Parent: b.PrevBlockId, B: b, Height: p.Height + 1, Work: new(big.Int).Add(p.Work, WorkOf(b.Target))}
		q.NoteBlock(n)
	}
	return err
}

func (n *Node) height() uint64 {
	if n == nil {
		return 0
	}
	return n.Height
}

// someTx makes a transaction that obeys the rules or nearly does.
func (q *Rules) someTx() core.Tx {
	r := q.R
	if len(q.TxIds) == 0 || r.Intn(5) == 0 {
		v := q.P.BlockReward + uint64(r.Intn(100))
		switch r.Intn(6) {
		case 0:
			v = q.P.BlockReward
		case 1:
			v = q.P.BlockReward - 1
		case 2:
			v = ^uint64(0) - uint64(r.Intn(3))
		case 3:
			v = 1<<63 + uint64(r.Intn(3))
		}
		tx := q.Coinbase(uint64(r.Intn(8)), v, q.Pkhs[r.Intn(3)])
		if r.Intn(8) == 0 {
			tx.Outputs = append(tx.Outputs, core.TxOut{Value: uint64(r.Intn(3)), PublicKeyHash: q.Pkhs[0]})
		}
		if r.Intn(12) == 0 {
			tx.Outputs = nil
		}
		if r.Intn(12) == 0 {
			tx.Inputs = append(tx.Inputs, core.TxIn{PublicKey: q.Pubs[0], Signature: []byte{1}})
		}
		return tx
	}
	var us []core.Utxo
	var owners []int
	sum := new(big.Int)
	for n := 1 + r.Intn(3); n > 0; n-- {
		id := q.TxIds[r.Intn(len(q.TxIds))]
		tx := q.Txs[id]
		ind := r.Intn(len(tx.Outputs) + 1)
		if ind == len(tx.Outputs) && (r.Intn(10) > 0 || ind == 0) {
			ind = 0
		}
		u := core.Utxo{TxId: id, Ind: uint64(ind)}
		o := 0
		if ind < len(tx.Outputs) {
			u.Value = tx.Outputs[ind].Value
			o = q.KeyOf(tx.Outputs[ind].PublicKeyHash)
		}
		again := false
		for _, x := range us {
			again = again || x.TxId == u.TxId && x.Ind == u.Ind
		}
		if again && r.Intn(3) > 0 {
			continue
		}
		switch r.Intn(14) {
		case 0:
			u.Value++
		case 1:
			u.Value--
		case 2:
			u.Ind += uint64(1 + r.Intn(2))
		case 3:
			u.TxId = RandHash(r)
		}
		if o < 0 || r.Intn(14) == 0 {
			o = r.Intn(3)
		}
		us = append(us, u)
		owners = append(owners, o)
		sum.Add(sum, bi(u.Value))
	}
	// outputs: total a little below, equal or above the inputs, or congruent modulo 2^64
	total := new(big.Int).Sub(sum, big.NewInt(int64(r.Intn(4))))
	switch r.Intn(6) {
	case 0:
		total.Add(total, big.NewInt(2))
	case 1:
		total.Sub(total, two64)
	case 2:
		total.Add(total, two64)
	case 3:
		total.Set(big.NewInt(int64(r.Intn(5))))
	case 4:
		total.Mod(total, two64)
	}
	if total.Sign() < 0 {
		total.SetInt64(1)
	}
	var outs []core.TxOut
	maxOut := bi(^uint64(0))
	for n := 1 + r.Intn(3); n > 0 && len(outs) < 6; n-- {
		v := new(big.Int).Set(total)
		if n > 1 && total.Sign() > 0 {
			v.Rand(r, new(big.Int).Add(total, big.NewInt(1)))
		}
		if v.Cmp(maxOut) > 0 {
			v.Set(maxOut)
			n++
		}
		total.Sub(total, v)
		outs = append(outs, core.TxOut{Value: v.Uint64(), PublicKeyHash: q.Pkhs[r.Intn(3)]})
	}
	tx := q.Sign(us, owners, outs, uint64(r.Intn(8)))
	if len(tx.Inputs) > 0 {
		i := r.Intn(len(tx.Inputs))
		switch r.Intn(24) {
		case 0: // signature for another list of outputs
			tx.Outputs = append(append([]core.TxOut{}, tx.Outputs...), core.TxOut{Value: 0, PublicKeyHash: q.Pkhs[r.Intn(3)]})
		case 1:
			tx.MinBlock++
		case 2:
			j := r.Intn(len(tx.Inputs))
			tx.Inputs[i].Signature, tx.Inputs[j].Signature = tx.Inputs[j].Signature, tx.Inputs[i].Signature
		case 3:
			tx.Inputs[i].Signature = tx.Inputs[i].Signature[:len(tx.Inputs[i].Signature)-1]
		case 4:
			tx.Inputs[i].Signature = nil
		case 5:
			tx.Inputs[i].PublicKey = q.Pubs[r.Intn(3)]
		case 6:
			o := r.Intn(len(tx.Outputs))
			tx.Outputs = append([]core.TxOut{}, tx.Outputs...)
			tx.Outputs[o].PublicKeyHash = RandHash(r)
		case 7:
			o := r.Intn(len(tx.Outputs))
			tx.Outputs = append([]core.TxOut{}, tx.Outputs...)
			if tx.Outputs[o].Value > 0 {
				tx.Outputs[o].Value--
			}
		case 8:
			tx.Outputs = append([]core.TxOut{}, tx.Outputs...)
			r.Shuffle(len(tx.Outputs), func(a, b int) { tx.Outputs[a], tx.Outputs[b] = tx.Outputs[b], tx.Outputs[a] })
		case 9:
			tx.Outputs = tx.Outputs[:len(tx.Outputs)-1]
		case 10: // signed by one's own key
			k := r.Intn(3)
			tx.Inputs[i].PublicKey = q.Pubs[k]
			s, _ := core.EcdsaSign(q.Keys[k], core.TxHashPreSig(tx.MinBlock, tx.Outputs))
			tx.Inputs[i].Signature = s
		case 11:
			tx.IsCoinbase = true
		}
	}
	return tx
}

func (q *Rules) someId() core.HashT {
	r := q.R
	switch k := r.Intn(12); {
	case k == 0:
		return RandHash(r)
	case k < 6 && len(q.MIds) > 0:
		return q.MIds[len(q.MIds)-1-r.Intn(zz.Min(len(q.MIds), 6))]
	case len(q.TxIds) > 0:
		return q.TxIds[r.Intn(len(q.TxIds))]
	}
	return RandHash(r)
}

// pick an output to spend fully in a block on top of the world (ledger rules do not matter here).
func (q *Rules) plainTx() (core.Tx, bool) {
	r := q.R
	for k := 0; k < 20; k++ {
		id := q.TxIds[r.Intn(len(q.TxIds))]
		tx := q.Txs[id]
		if len(tx.Outputs) == 0 {
			continue
		}
		i := r.Intn(len(tx.Outputs))
		o := tx.Outputs[i]
		key := q.KeyOf(o.PublicKeyHash)
		if key < 0 || o.Value < 2 {
			continue
		}
		fee := uint64(1 + r.Intn(3))
		if fee > o.Value {
			fee = o.Value
		}
		if r.Intn(6) == 0 {
			fee = o.Value
		}
		return q.Sign([]core.Utxo{{TxId: id, Ind: uint64(i), Value: o.Value}}, []int{key}, []core.TxOut{{Value: o.Value - fee, PublicKeyHash: q.Pkhs[r.Intn(3)]}}, uint64(r.Intn(5))), true
	}
	return core.Tx{}, false
}

// someBlock makes a block on parent that obeys the rules or nearly does.
func (q *Rules) someBlock(parent core.HashT, clean bool) core.Block {
	r := q.R
	p := q.Blocks[parent]
	h := p.Height + 1
	odd := func(n int) bool { return !clean && r.Intn(n) == 0 }
	var txs []core.Tx
	fees := new(big.Int)
	for k := r.Intn(3); k > 0 && len(q.TxIds) > 0; k-- {
		tx, ok := q.plainTx()
		if !ok {
			continue
		}
		if q.storeTx(tx) != nil {
			continue
		}
		i, o := sums(tx)
		fees.Add(fees, i)
		fees.Sub(fees, o)
		txs = append(txs, tx)
	}
	cbH := h
	if odd(10) {
		cbH += uint64(r.Intn(3)) - 1
	}
	v := new(big.Int).Add(bi(q.P.BlockReward), fees)
	if odd(6) {
		v.Add(v, big.NewInt(int64(r.Intn(3)-1)))
	}
	v.Mod(v, two64)
	list := append([]core.Tx{q.Coinbase(cbH, v.Uint64(), q.Pkhs[r.Intn(3)])}, txs...)
	if odd(12) {
		list = append(list, q.Coinbase(h, q.P.BlockReward, RandHash(r)))
	}
	if odd(12) && len(list) > 1 {
		list[0], list[1] = list[1], list[0]
	}
	if odd(20) {
		list = list[1:]
	}
	if odd(20) { // outputs that only balance modulo 2^64
		if len(list) > 0 && list[0].IsCoinbase {
			list[0].Outputs[0].Value = ^uint64(0) - uint64(r.Intn(3))
			list = append(list, q.Coinbase(h, q.P.BlockReward+1, q.Pkhs[0]))
		}
	}
	var ids []core.HashT
	for _, tx := range list {
		q.storeTx(tx)
		ids = append(ids, tx.Hash())
	}
	root := RandHash(r)
	if len(ids) > 0 && !odd(30) {
		ms, rt := Tree(ids)
		for _, m := range ms {
			q.storeMerkle(m)
		}
		root = rt
		if odd(12) {
			root = q.someId()
		}
	}
	b := core.Block{PrevBlockId: parent, MerkleRoot: root, Target: HashOf(q.Next(parent))}
	if odd(30) {
		b.PrevBlockId = RandHash(r)
	}
	if !clean && r.Intn(3) == 0 {
		x := q.Next(parent)
		if h > 1 {
			lo, hi := q.bounds(parent)
			x = []*big.Int{lo, hi, q.Next(parent), Val(p.B.Target), Val(q.P.MaxTarget), Val(q.P.OriginalTarget), new(big.Int).Rsh(new(big.Int).Add(lo, hi), 1)}[r.Intn(7)]
		}
		x = new(big.Int).Add(x, big.NewInt(int64(r.Intn(3)-1)))
		if x.BitLen() > 256 || x.BitLen() < 246 {
			x = q.Next(parent)
		}
		b.Target = HashOf(x)
	}
	// time
	lo := int64(q.Base)
	if h > 1 {
		lo = q.median(parent).Int64()
	}
	t := lo + int64(1+r.Intn(2*int(q.P.BlockTargetTime)))
	if r.Intn(3) == 0 && h > 1 { // slow or fast period
		t = lo + int64(r.Intn(int(q.P.BlockTargetTime)*12)) + 1
	}
	if (h+1)%q.P.DifficultyPeriod == 0 && h > 1 {
		f := int64(q.Blocks[q.periodFirst(parent, h)].B.MinedTime)
		if clean && t <= f {
			t = f + 1 + int64(r.Intn(20))
		}
		if odd(2) {
			t = f + int64(r.Intn(3)) - 1
		}
	}
	if odd(4) {
		t = lo + int64(r.Intn(3)) - 1
	}
	if odd(12) {
		t = time.Now().Unix() + []int64{3600 + 30, 3600 + 7000, 1 << 40, 3500, 1<<62 + 5}[r.Intn(5)]
	}
	b.MinedTime = uint64(t)
	if odd(40) {
		b.MinedTime = ^uint64(0) - uint64(r.Intn(4000))
	}
	b.Noise = RandHash(r)
	tg := Val(b.Target)
	for n := uint64(0); n < 20000; n++ {
		b.Nonce = n
		if Val(b.Hash()).Cmp(tg) < 0 {
			break
		}
	}
	if odd(20) {
		for n := uint64(0); n < 50; n++ {
			b.Nonce = 100000 + n
			if Val(b.Hash()).Cmp(tg) >= 0 {
				break
			}
		}
	}
	return b
}

// checkNext compares the node's next target for a stored block with the reference.
func (q *Rules) checkNext(id core.HashT) {
	if q.Prop != "C04" && q.Prop != "C05" {
		return
	}
	var got core.HashT
	zz.Cases(1)
	if p := zz.Panics(func() { got = core.NextTarget(q.P, q.Inv, id) }); p != nil {
		if q.Prop == "C05" {
			zz.Fail(q.T, "NextTarget panics", "NextTarget on a stored block at height %d (period %d) panics: %v", q.Blocks[id].Height, q.P.DifficultyPeriod, p)
		}
		q.T.SkipNow()
	}
	if q.Prop == "C04" {
		if want := q.Next(id); Val(got).Cmp(want) != 0 {
			zz.Fail(q.T, "NextTarget", "next target on a block at height %d (period %d) is %s, want %s", q.Blocks[id].Height, q.P.DifficultyPeriod, got, HashOf(want))
		}
	}
}

// RunRules feeds an inventory with entities that obey the rules or nearly do.
func RunRules(t *testing.T, prop string, worlds, blocks, txs int) {
	r := zz.Rng(t)
	for c := 0; c < zz.N(worlds); c++ {
		q := NewRules(t, prop, r, RuleParams(r))
		q.storeTx(q.Coinbase(1, q.P.BlockReward, q.Pkhs[0]))
		q.storeTx(q.Coinbase(2, ^uint64(0)-uint64(r.Intn(5)), q.Pkhs[1]))
		q.storeTx(q.Coinbase(3, ^uint64(0)-uint64(r.Intn(5)), q.Pkhs[2]))
		for k := 0; k < txs; k++ {
			tx := q.someTx()
			if q.storeTx(tx) == nil && r.Intn(6) == 0 {
				q.storeTx(tx)
			}
			m := core.MerkleNode{LChild: q.someId(), RChild: q.someId()}
			if r.Intn(5) == 0 {
				m.RChild = m.LChild
			}
			if q.storeMerkle(m) == nil && r.Intn(6) == 0 {
				q.storeMerkle(m)
			}
		}
		tip := core.HashT{}
		for k := 0; k < blocks; k++ {
			p := tip
			if r.Intn(6) == 0 {
				p = q.Order[r.Intn(len(q.Order))]
			}
			clean := r.Intn(2) == 0
			b := q.someBlock(p, clean)
			if q.storeBlock(b) == nil {
				if q.Blocks[p].Height >= q.Blocks[tip].Height {
					tip = b.Hash()
				}
				q.checkNext(b.Hash())
				if r.Intn(6) == 0 {
					q.storeBlock(b)
				}
			}
		}
	}
}
