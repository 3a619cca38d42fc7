// Package world builds valid transactions, merkle trees and blocks through the public
// interfaces of the node, together with a reference ledger to compare with.
package world

import (
	"crypto/ecdsa"
	"fmt"
	"math/big"
	"math/rand"
	"time"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/pkg/core"
	zz "github.com/levilutz/basiccoin/zzverif"
)

type Node struct {
	Id, Parent core.HashT
	B          core.Block
	Merkles    []core.MerkleNode
	Txs        []core.Tx
	Ids        []core.HashT
	Height     uint64
	Work       *big.Int
}

type World struct {
	R      *rand.Rand
	P      core.Params
	Inv    *inv.Inv
	Keys   []*ecdsa.PrivateKey
	Pubs   [][]byte
	Pkhs   []core.HashT
	Base   uint64
	Blocks map[core.HashT]*Node
	Order  []core.HashT
	Txs    map[core.HashT]core.Tx
	TxIds  []core.HashT
}

func Hash(n int64) core.HashT {
	var b [32]byte
	for i := 0; i < 8; i++ {
		b[31-i] = byte(n >> (8 * i))
	}
	return core.NewHashTFromBytes(b[:])
}

func RandHash(r *rand.Rand) core.HashT {
	var b [32]byte
	r.Read(b[:])
	return core.NewHashTFromBytes(b[:])
}

func hx(s string) core.HashT {
	h, err := core.NewHashTFromString(s)
	if err != nil {
		panic(err)
	}
	return h
}

const Easy = "3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"

// EasyParams: every fourth hash is below the target.
func EasyParams() core.Params {
	return core.Params{BlockReward: 1000, DifficultyPeriod: 1 << 30, BlockTargetTime: 10, MaxBlockVSize: 1 << 20, MaxTxVSize: 1 << 14, MaxTarget: hx(Easy), OriginalTarget: hx(Easy)}
}

func New(r *rand.Rand, p core.Params, keys int) *World {
	w := &World{R: r, P: p, Inv: inv.NewInv(p, nil), Base: uint64(time.Now().Unix()) - 10000000, Blocks: map[core.HashT]*Node{}, Txs: map[core.HashT]core.Tx{}}
	for i := 0; i < keys; i++ {
		k, err := core.NewEcdsa()
		if err != nil {
			panic(err)
		}
		pub, err := core.MarshalEcdsaPublic(k)
		if err != nil {
			panic(err)
		}
		w.Keys = append(w.Keys, k)
		w.Pubs = append(w.Pubs, pub)
		w.Pkhs = append(w.Pkhs, core.DHashBytes(pub))
	}
	w.Blocks[core.HashT{}] = &Node{Work: new(big.Int)}
	w.Order = append(w.Order, core.HashT{})
	return w
}

func (w *World) KeyOf(pkh core.HashT) int {
	for i, h := range w.Pkhs {
		if h == pkh {
			return i
		}
	}
	return -1
}

// Coinbase makes a coinbase transaction.
func (w *World) Coinbase(height, value uint64, pkh core.HashT) core.Tx {
	return core.Tx{IsCoinbase: true, MinBlock: height, Inputs: []core.TxIn{}, Outputs: []core.TxOut{{Value: value, PublicKeyHash: pkh}}}
}

// Sign makes and signs a transaction; owners[i] is the key of utxos[i].
func (w *World) Sign(utxos []core.Utxo, owners []int, outs []core.TxOut, minBlock uint64) core.Tx {
	tx := core.Tx{MinBlock: minBlock, Inputs: []core.TxIn{}, Outputs: outs}
	h := core.TxHashPreSig(minBlock, outs)
	for i, u := range utxos {
		sig, err := core.EcdsaSign(w.Keys[owners[i]], h)
		if err != nil {
			panic(err)
		}
		tx.Inputs = append(tx.Inputs, core.TxIn{Utxo: u, PublicKey: w.Pubs[owners[i]], Signature: sig})
	}
	return tx
}

// Note records a transaction known to the inventory.
func (w *World) Note(tx core.Tx) core.HashT {
	id := tx.Hash()
	if _, ok := w.Txs[id]; !ok {
		w.Txs[id] = tx
		w.TxIds = append(w.TxIds, id)
	}
	return id
}

// Tree builds the merkle nodes above the ids, in insertion order, root last.
func Tree(ids []core.HashT) ([]core.MerkleNode, core.HashT) {
	var out []core.MerkleNode
	seen := map[core.HashT]bool{}
	cur := ids
	for first := true; first || len(cur) > 1; first = false {
		var next []core.HashT
		for i := 0; i < len(cur); i += 2 {
			n := core.MerkleNode{LChild: cur[i], RChild: cur[i]}
			if i+1 < len(cur) {
				n.RChild = cur[i+1]
			}
			h := n.Hash()
			if !seen[h] {
				out = append(out, n)
			}
			seen[h] = true
			next = append(next, h)
		}
		cur = next
	}
	return out, cur[0]
}

func Val(h core.HashT) *big.Int {
	d := h.Data()
	return new(big.Int).SetBytes(d[:])
}

var max256 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))

func WorkOf(target core.HashT) *big.Int { return new(big.Int).Div(max256, Val(target)) }

// Mine finds a nonce for the block.
func Mine(r *rand.Rand, b core.Block) core.Block {
	b.Noise = RandHash(r)
	for n := uint64(0); ; n++ {
		b.Nonce = n
		if Val(b.Hash()).Cmp(Val(b.Target)) < 0 {
			return b
		}
	}
}

// Make builds a block on a parent: the given transactions after a coinbase collecting
// the reward and all fees. Nothing is stored.
func (w *World) Make(parent core.HashT, txs []core.Tx, pkh core.HashT) *Node {
	p := w.Blocks[parent]
	fees := uint64(0)
	for _, tx := range txs {
		fees += tx.InputsValue() - tx.OutputsValue()
	}
	return w.MakeRaw(parent, append([]core.Tx{w.Coinbase(p.Height+1, w.P.BlockReward+fees, pkh)}, txs...))
}

func (w *World) MakeRaw(parent core.HashT, txs []core.Tx) *Node {
	p := w.Blocks[parent]
	n := &Node{Parent: parent, Txs: txs, Height: p.Height + 1}
	for _, tx := range txs {
		n.Ids = append(n.Ids, tx.Hash())
	}
	ms, root := Tree(n.Ids)
	n.Merkles = ms
	target := w.P.OriginalTarget
	if !parent.EqZero() {
		target = p.B.Target
	}
	n.B = Mine(w.R, core.Block{PrevBlockId: parent, MerkleRoot: root, Target: target, MinedTime: w.Base + n.Height*10 + uint64(w.R.Intn(5))})
	n.Id = n.B.Hash()
	n.Work = new(big.Int).Add(p.Work, WorkOf(n.B.Target))
	return n
}

// Note a block stored in the inventory by other means.
func (w *World) NoteBlock(n *Node) {
	for _, tx := range n.Txs {
		w.Note(tx)
	}
	if _, ok := w.Blocks[n.Id]; !ok {
		w.Blocks[n.Id] = n
		w.Order = append(w.Order, n.Id)
	}
}

// Store puts a block and everything below it in the inventory.
func (w *World) Store(n *Node) error {
	for i, tx := range n.Txs {
		if !w.Inv.HasTx(n.Ids[i]) {
			if err := w.Inv.StoreTx(tx); err != nil {
				return fmt.Errorf("tx: %w", err)
			}
		}
		w.Note(tx)
	}
	for _, m := range n.Merkles {
		if !w.Inv.HasMerkle(m.Hash()) {
			if err := w.Inv.StoreMerkle(m); err != nil {
				return fmt.Errorf("merkle: %w", err)
			}
		}
	}
	if err := w.Inv.StoreBlock(n.B); err != nil {
		return fmt.Errorf("block: %w", err)
	}
	w.NoteBlock(n)
	return nil
}

// Path lists the blocks from the root (exclusive) to id.
func (w *World) Path(id core.HashT) []*Node {
	var out []*Node
	for !id.EqZero() {
		n := w.Blocks[id]
		out = append([]*Node{n}, out...)
		id = n.Parent
	}
	return out
}

// Ledger is the reference: what the chain to a head says.
type Ledger struct {
	U   map[core.Utxo]core.HashT // unspent output -> owner
	Inc map[core.HashT]core.HashT // transaction -> block
}

func NewLedger() *Ledger {
	return &Ledger{U: map[core.Utxo]core.HashT{}, Inc: map[core.HashT]core.HashT{}}
}

func (l *Ledger) Copy() *Ledger {
	c := NewLedger()
	for k, v := range l.U {
		c.U[k] = v
	}
	for k, v := range l.Inc {
		c.Inc[k] = v
	}
	return c
}

// CanApply tells whether a transaction may come next in a block of the given height.
func (l *Ledger) CanApply(tx core.Tx, height uint64) bool {
	if _, ok := l.Inc[tx.Hash()]; ok || tx.MinBlock > height {
		return false
	}
	seen := map[core.Utxo]bool{}
	for _, i := range tx.Inputs {
		if _, ok := l.U[i.Utxo]; !ok || seen[i.Utxo] {
			return false
		}
		seen[i.Utxo] = true
	}
	return true
}

// Apply applies a block; false if some transaction does not apply.
func (l *Ledger) Apply(n *Node) bool {
	for k, tx := range n.Txs {
		if !l.CanApply(tx, n.Height) {
			return false
		}
		for _, i := range tx.Inputs {
			delete(l.U, i.Utxo)
		}
		for i, o := range tx.Outputs {
			l.U[core.Utxo{TxId: n.Ids[k], Ind: uint64(i), Value: o.Value}] = o.PublicKeyHash
		}
		l.Inc[n.Ids[k]] = n.Id
	}
	return true
}

// LedgerAt is the ledger after the chain to id; nil if some block does not apply.
func (w *World) LedgerAt(id core.HashT) *Ledger {
	l := NewLedger()
	for _, n := range w.Path(id) {
		if !l.Apply(n) {
			return nil
		}
	}
	return l
}

// RandomTx makes a transaction spending up to two of the outputs in l.
func (w *World) RandomTx(l *Ledger, minBlock uint64) (core.Tx, bool) {
	var us []core.Utxo
	for u, o := range l.U {
		if w.KeyOf(o) >= 0 && u.Value > 1 {
			us = append(us, u)
		}
	}
	if len(us) == 0 {
		return core.Tx{}, false
	}
	// map order is random; sort for reproducibility
	for i := range us {
		for j := i; j > 0 && less(us[j], us[j-1]); j-- {
			us[j], us[j-1] = us[j-1], us[j]
		}
	}
	w.R.Shuffle(len(us), func(i, j int) { us[i], us[j] = us[j], us[i] })
	us = us[:1+w.R.Intn(zz.Min(2, len(us)))]
	var owners []int
	sum := uint64(0)
	for _, u := range us {
		owners = append(owners, w.KeyOf(l.U[u]))
		sum += u.Value
	}
	fee := 1 + uint64(w.R.Int63n(int64(zz.Min(sum-1, 9))+1))
	if fee > sum {
		fee = sum
	}
	rest := sum - fee
	outs := []core.TxOut{}
	for n := 1 + w.R.Intn(3); n > 0 && rest > 0; n-- {
		v := rest
		if n > 1 {
			v = 1 + uint64(w.R.Int63n(int64(rest)))
		}
		outs = append(outs, core.TxOut{Value: v, PublicKeyHash: w.Pkhs[w.R.Intn(len(w.Pkhs))]})
		rest -= v
	}
	return w.Sign(us, owners, outs, minBlock), true
}

func less(a, b core.Utxo) bool {
	if a.TxId != b.TxId {
		return a.TxId.String() < b.TxId.String()
	}
	return a.Ind < b.Ind
}

// Grow stores a random valid block on parent: random spends, chained spends, occasionally
// transactions already on other branches.
func (w *World) Grow(parent core.HashT) (*Node, error) {
	l := w.LedgerAt(parent)
	h := w.Blocks[parent].Height + 1
	var txs []core.Tx
	cur := l.Copy()
	for k := w.R.Intn(5); k > 0; k-- {
		var tx core.Tx
		ok := false
		if len(w.TxIds) > 0 && w.R.Intn(3) == 0 {
			tx = w.Txs[w.TxIds[w.R.Intn(len(w.TxIds))]]
			ok = !tx.IsCoinbase
		} else {
			tx, ok = w.RandomTx(cur, uint64(w.R.Intn(int(h)+1)))
		}
		if !ok || !cur.CanApply(tx, h) {
			continue
		}
		cur.Apply(&Node{Txs: []core.Tx{tx}, Ids: []core.HashT{tx.Hash()}, Height: h})
		txs = append(txs, tx)
	}
	n := w.Make(parent, txs, w.Pkhs[w.R.Intn(len(w.Pkhs))])
	if _, dup := l.Inc[n.Ids[0]]; dup {
		return nil, fmt.Errorf("coinbase repeats")
	}
	return n, w.Store(n)
}
