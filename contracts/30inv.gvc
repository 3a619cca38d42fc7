// internal/inv: the inventory.
package internal/inv
singleton internal/inv.Inv
dispatch pkg/core.InvVerifier = internal/inv.Inv
dispatch pkg/core.InvTargeter = internal/inv.Inv
dispatch internal/inv.InvReader = internal/inv.Inv
model internal/inv.SomeSyncMap = map
prophecy internal/inv.Inv.blocks = blockRec
prophecy internal/inv.Inv.merkles = merkleRec
prophecy internal/inv.Inv.txs = txRec

// The record stored under an id. The maps are write-once (an obligation at every Store), so
// what is or will be stored under an id is a function of the id.
spec func blockRec(id HashT) BlockRecord
spec func merkleRec(id HashT) MerkleRecord
spec func txRec(id HashT) TxRecord

spec def hz() HashT = zeroof(HashT(bnum(0)))
spec def parent(id HashT) HashT = blockRec(id).Block.PrevBlockId
spec def height(id HashT) int = blockRec(id).Height
spec def work(id HashT) int = hval(blockRec(id).TotalWork)
// ancestor k steps up
spec func anc(id HashT, k int) HashT fold { base id step parent(acc) }

// assumption: no chain has 2^40 blocks, no size reaches 2^61
range internal/inv.BlockRecord.Height = 0 40
range internal/inv.TxRecord.VSize = 0 61
range internal/inv.MerkleRecord.VSize = 0 61
// assumption: network parameters as Params.verify and common sense demand
range pkg/core.Params.MaxBlockVSize = 112 61
range pkg/core.Params.MaxTxVSize = 0 61
range pkg/core.Params.BlockReward = 0 24
range pkg/core.Params.DifficultyPeriod = 4 40
range pkg/core.Params.BlockTargetTime = 1 20

// a set of blocks closed under parents, one height at a time down to the root
spec func chained(S arr[HashT]bool) bool
axiom chained_def: forall S arr[HashT]bool :: {chained(S)} chained(S) == (S[hz()] && (forall id HashT :: {S[id]} S[id] && id != hz() ==> height(id) > 0) && forall id HashT :: {S[parent(id)]} {S[id], blockRec(parent(id))} S[id] && id != hz() ==> S[parent(id)] && height(id) == height(parent(id)) + 1)
axiom root_record: blockRec(hz()) == zeroof(blockRec(hz()))

lemma anc_up [C10] (S arr[HashT]bool, id HashT, k int) induct k {
	requires chained(S) && S[id] && 0 <= k && k <= height(id)
	ensures S[anc(id, k)] && height(anc(id, k)) == height(id) - k && (k < height(id) ==> anc(id, k) != hz()) && (k == height(id) ==> anc(id, k) == hz())
	trigger { chained(S), anc(id, k) }
}

spec func anc2(id HashT, i int, j int) HashT
axiom anc2_def: forall id HashT, i int, j int :: {anc2(id, i, j)} anc2(id, i, j) == anc(anc(id, i), j)
hidden lemma anc_anc [C10] (id HashT, i int, j int) induct j {
	requires 0 <= i && 0 <= j
	ensures anc(anc(id, i), j) == anc(id, i + j)
	trigger { anc(anc(id, i), j) }
}
lemma anc_add [C10] (id HashT, i int, j int) {
	requires 0 <= i && 0 <= j
	ensures anc2(id, i, j) == anc(id, i + j)
	trigger { anc2(id, i, j) }
	uses anc_anc
}
hidden lemma anc_root [C10] (S arr[HashT]bool, id HashT) {
	requires chained(S) && S[id]
	ensures anc(id, height(id)) == hz()
	trigger { chained(S), S[id] }
	uses anc_up
}

global invariant [C09] "every block is stored one above its stored parent, down to the root" chained(Inv.blocks)

func Inv.HasBlock(inv, id)(r) { ensures r == Inv.blocks[id] }
func Inv.GetBlock(inv, id)(r) { requires Inv.blocks[id]  shares ensures r == blockRec(id).Block }
func Inv.GetBlockHeight(inv, id)(r) { requires Inv.blocks[id]  ensures r == height(id) }
func Inv.GetBlockTotalWork(inv, id)(r) { requires Inv.blocks[id]  ensures r == blockRec(id).TotalWork }
func Inv.HasAnyBlock(inv, ids)(r, ok) [C10] {
	ensures ok == (exists i int :: {ids[i]} 0 <= i && i < len(ids) && Inv.blocks[ids[i]])
	ensures ok ==> exists i int :: {ids[i]} 0 <= i && i < len(ids) && Inv.blocks[ids[i]] && r == ids[i] && forall j int :: {ids[j]} 0 <= j && j < i ==> !Inv.blocks[ids[j]]
	ensures !ok ==> r == hz()
}
func Inv.GetBlockParentId(inv, id)(r) [C10] {
	requires Inv.blocks[id] && id != hz()
	ensures r == parent(id) && Inv.blocks[r] && height(r) == height(id) - 1
}
func Inv.GetBlockAncestors(inv, id, maxLen)(r) [C10] {
	uses anc_root
	requires Inv.blocks[id] && id != hz()
	steps max(maxLen, 0)
	ensures len(r) == ite(maxLen < 0, 0, min(maxLen, height(id)))
	ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> i + 1 <= height(id)
	ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == anc(id, i + 1)
	ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> Inv.blocks[r[i]] && height(r[i]) == height(id) - i - 1
}
func Inv.GetBlockSpecificAncestor(inv, id, depth)(r) [C10] {
	requires Inv.blocks[id] && depth >= 0
	ensures r == anc(id, min(depth, height(id))) && Inv.blocks[r]
}
func Inv.GetBlockAncestorDepth(inv, id, a)(r, ok) [C10] {
	uses anc_root
	requires Inv.blocks[id]
	steps height(id)
	ensures ok ==> r <= height(id) && anc(id, r) == a && forall j int :: {anc(id, j)} 0 <= j && j < r ==> anc(id, j) != a
	ensures !ok ==> r == 0 && forall j int :: {anc(id, j)} 0 <= j && j <= height(id) ==> anc(id, j) != a
}
func Inv.GetBlockAncestorsUntil(inv, id, until)(r) [C10] {
	requires Inv.blocks[id]
	requires "until is the block or an ancestor" height(until) <= height(id) && anc(id, height(id) - height(until)) == until
	ensures len(r) == max(height(id) - height(until) - 1, 0)
	ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == anc(id, i + 1)
}
func Inv.GetBlockLCA(inv, a, b)(r) [C10] {
	uses anc_root
	requires Inv.blocks[a] && Inv.blocks[b]
	steps max(height(a), height(b))
	shows height(r) <= min(height(a), height(b)) && r == anc2(a, height(a) - min(height(a), height(b)), min(height(a), height(b)) - height(r)) && r == anc2(b, height(b) - min(height(a), height(b)), min(height(a), height(b)) - height(r))
	ensures "a common ancestor" Inv.blocks[r] && height(r) <= min(height(a), height(b)) && r == anc(a, height(a) - height(r)) && r == anc(b, height(b) - height(r))
	shows forall t int :: {anc(a, height(a) - t)} {anc(b, height(b) - t)} height(r) < t && t <= min(height(a), height(b)) ==> anc2(a, height(a) - min(height(a), height(b)), min(height(a), height(b)) - t) != anc2(b, height(b) - min(height(a), height(b)), min(height(a), height(b)) - t)
	ensures "the highest one" forall t int :: {anc(a, height(a) - t)} {anc(b, height(b) - t)} height(r) < t && t <= min(height(a), height(b)) ==> anc(a, height(a) - t) != anc(b, height(b) - t)
}

// ================= transactions =================
package internal/inv
spec def txOut(id HashT, ind u64) TxOut = txRec(id).Tx.Outputs[ind]
// the input names a stored output, its exact value, and the key it is locked to
spec def originOK(T arr[HashT]bool, in TxIn) bool = T[in.Utxo.TxId] && in.Utxo.Ind < len(txRec(in.Utxo.TxId).Tx.Outputs) && dh(in.PublicKey) == txOut(in.Utxo.TxId, in.Utxo.Ind).PublicKeyHash && in.Utxo.Value == txOut(in.Utxo.TxId, in.Utxo.Ind).Value
spec def originsOK(T arr[HashT]bool, tx Tx) bool = forall i int :: {tx.Inputs[i]} 0 <= i && i < len(tx.Inputs) ==> originOK(T, tx.Inputs[i])
// a fully verified transaction
spec func txOK(p Params, T arr[HashT]bool, tx Tx) bool
hidden axiom txOK_def: forall p Params, T arr[HashT]bool, tx Tx :: {txOK(p, T, tx)} txOK(p, T, tx) == (txAlone(p, tx) && originsOK(T, tx))
// every stored transaction was verified, has its own id and its exact size
spec func txsGood(p Params, T arr[HashT]bool) bool
hidden axiom txsGood_def: forall p Params, T arr[HashT]bool :: {txsGood(p, T)} txsGood(p, T) == (forall id HashT :: {T[id]} T[id] ==> id == txHash(txRec(id).Tx) && txRec(id).VSize == txSize(txRec(id).Tx) && txOK(p, T, txRec(id).Tx))

global invariant [C09] "the verifier works on this inventory's parameters" !isnil(Inv.verifier) && !isnil(deref(Inv.verifier).inv) && deref(Inv.verifier).params == Inv.coreParams
global invariant [C09] "every stored transaction was verified" txsGood(Inv.coreParams, Inv.txs)

spec def sane(p Params) bool = 0 < hval(p.MaxTarget) && hval(p.MaxTarget) * 4 < pow2(256) && 0 < hval(p.OriginalTarget) && hval(p.OriginalTarget) <= hval(p.MaxTarget)
global invariant [C09] "sane parameters" sane(Inv.coreParams)

func Inv.HasTx(inv, id)(r) { ensures r == Inv.txs[id] }
func Inv.GetTx(inv, id)(r) { requires Inv.txs[id]  shares ensures r == txRec(id).Tx }
func Inv.GetTxVSize(inv, id)(r) { requires Inv.txs[id]  ensures r == txRec(id).VSize }
func Inv.HasTxOut(inv, id, ind)(r) { ensures r == (Inv.txs[id] && ind < len(txRec(id).Tx.Outputs)) }
func Inv.GetTxOut(inv, id, ind)(r) { requires Inv.txs[id] && ind < len(txRec(id).Tx.Outputs)  ensures r == txOut(id, ind) }

package pkg/core
func Verifier.VerifyTx(v, tx)(err) [C02,C03,C11] {
	uses txOK_def
	shows (err == nil) == (txAlone(v.params, tx) && originsOK(Inv.txs, tx))
	ensures (err == nil) == txOK(v.params, Inv.txs, tx)
}
package internal/inv
hidden lemma txOK_more [C09] (p Params, T arr[HashT]bool, id HashT, tx Tx) {
	requires txOK(p, T, tx)
	ensures txOK(p, store(T, id, true), tx)
	uses txOK_def
	trigger { txOK(p, T, tx), store(T, id, true) }
}
hidden lemma merklesGood_more [C09] (p Params, M arr[HashT]bool, T arr[HashT]bool, id HashT) {
	requires merklesGood(p, M, T)
	ensures merklesGood(p, M, store(T, id, true))
	uses merklesGood_def
	trigger { merklesGood(p, M, T), store(T, id, true) }
}
func Inv.StoreTx(inv, tx)(err) [C09] {
	modifies Inv.txs
	uses txsGood_def, txOK_more, merklesGood_more
	ensures (err == nil) == (!old(Inv.txs)[txHash(tx)] && txOK(Inv.coreParams, old(Inv.txs), tx))
	ensures err == nil ==> Inv.txs == store(old(Inv.txs), txHash(tx), true) && txRec(txHash(tx)).Tx == tx && txRec(txHash(tx)).VSize == txSize(tx)
	ensures err != nil ==> Inv.txs == old(Inv.txs)
}

// ================= merkle nodes =================
package internal/inv
// assumption: no transaction and merkle node share an id (hash collision)
spec func isTxId(id HashT) bool
axiom tx_kind: forall t Tx :: {txHash(t)} isTxId(txHash(t))
axiom merkle_kind: forall n MerkleNode :: {merkleHash(n)} !isTxId(merkleHash(n))
spec def esize(id HashT) int = ite(isTxId(id), txRec(id).VSize, merkleRec(id).VSize)
spec def nodeSize(n MerkleNode) int = esize(n.LChild) + ite(n.LChild == n.RChild, 0, esize(n.RChild))
// the transactions below a list of nodes, breadth first, added to w (bstep: one unfolding)
spec func bfs(w []HashT, q []HashT) []HashT
spec func bstep(w []HashT, q []HashT) bool
axiom bfs_def: forall w []HashT, q []HashT :: {bstep(w, q)} bstep(w, q) && ite(len(q) == 0, bfs(w, q) == w, ite(isTxId(q[0]), bfs(w, q) == bfs(w + [q[0]], q[1:]), ite(merkleRec(q[0]).Merkle.LChild == merkleRec(q[0]).Merkle.RChild, bfs(w, q) == bfs(w, q[1:] + [merkleRec(q[0]).Merkle.LChild]), bfs(w, q) == bfs(w, q[1:] + [merkleRec(q[0]).Merkle.LChild, merkleRec(q[0]).Merkle.RChild]))))
spec def txIdsBelow(root HashT) []HashT = bfs(zeroof([root]), [root])
spec def disjointTxs(a []HashT, b []HashT) bool = forall i int, j int :: {a[i], b[j]} 0 <= i && i < len(a) && 0 <= j && j < len(b) ==> a[i] != b[j]
spec def merkleOK(p Params, M arr[HashT]bool, T arr[HashT]bool, n MerkleNode) bool = (M[n.LChild] || T[n.LChild]) && (M[n.RChild] || T[n.RChild]) && (n.LChild != n.RChild ==> disjointTxs(txIdsBelow(n.LChild), txIdsBelow(n.RChild))) && nodeSize(n) <= p.MaxBlockVSize
spec func merklesGood(p Params, M arr[HashT]bool, T arr[HashT]bool) bool
hidden axiom merklesGood_def: forall p Params, M arr[HashT]bool, T arr[HashT]bool :: {merklesGood(p, M, T)} merklesGood(p, M, T) == (forall id HashT :: {M[id]} M[id] ==> id == merkleHash(merkleRec(id).Merkle) && merkleRec(id).VSize == nodeSize(merkleRec(id).Merkle) && merkleOK(p, M, T, merkleRec(id).Merkle))
global invariant [C09] "every stored merkle node was verified" merklesGood(Inv.coreParams, Inv.merkles, Inv.txs)

func Inv.HasMerkle(inv, id)(r) { ensures r == Inv.merkles[id] }
func Inv.GetMerkle(inv, id)(r) { requires Inv.merkles[id]  ensures r == merkleRec(id).Merkle }
func Inv.GetMerkleVSize(inv, id)(r) { requires Inv.merkles[id]  ensures r == merkleRec(id).VSize }
func Inv.HasEntity(inv, id)(r) { ensures r == (Inv.merkles[id] || Inv.txs[id]) }
func Inv.GetEntityVSize(inv, id)(r) {
	requires Inv.merkles[id] || Inv.txs[id]
	uses merklesGood_def, txsGood_def
	ensures r == esize(id)
}
func Inv.GetMerkleTxIds(inv, root)(r) [C11] {
	requires Inv.merkles[root] || Inv.txs[root]
	uses merklesGood_def, txsGood_def
	ensures r == txIdsBelow(root)
	ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> Inv.txs[r[i]]
	loop 0 (v []HashT, w []HashT) {
		inv forall i int :: {v[i]} 0 <= i && i < len(v) ==> Inv.merkles[v[i]] || Inv.txs[v[i]]
		inv forall i int :: {w[i]} 0 <= i && i < len(w) ==> Inv.txs[w[i]]
		inv bstep(w, v) ==> bfs(w, v) == bfs(w0, v0)
	}
}
// transactions of a list of ids
spec func txsOf(ids []HashT) []Tx
axiom txsOf_def: forall ids []HashT :: {txsOf(ids)} len(txsOf(ids)) == len(ids) && forall i int :: {txsOf(ids)[i]} 0 <= i && i < len(ids) ==> txsOf(ids)[i] == txRec(ids[i]).Tx
spec def txsBelow(root HashT) []Tx = txsOf(txIdsBelow(root))
// every transaction of the list is the one recorded under its id
spec func recorded(xs []Tx) bool
hidden axiom recorded_def: forall xs []Tx :: {recorded(xs)} recorded(xs) == forall i int :: {xs[i]} 0 <= i && i < len(xs) ==> txRec(txHash(xs[i])).Tx == xs[i]
// every transaction of the list is in T
spec func stored(xs []Tx, T arr[HashT]bool) bool
hidden axiom stored_def: forall xs []Tx, T arr[HashT]bool :: {stored(xs, T)} stored(xs, T) == forall i int :: {xs[i]} 0 <= i && i < len(xs) ==> T[txHash(xs[i])]
func Inv.GetMerkleTxs(inv, root)(r) [C11] {
	requires Inv.merkles[root] || Inv.txs[root]
	uses txsGood_def, txOK_def, recorded_def, stored_def
	shows len(r) == len(txIdsBelow(root))
	shows forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == txRec(txIdsBelow(root)[i]).Tx
	ensures r == txsBelow(root)
	ensures forall i int :: {txIdsBelow(root)[i]} 0 <= i && i < len(r) ==> Inv.txs[txIdsBelow(root)[i]]
	ensures recorded(r)
	ensures stored(r, Inv.txs)
	ensures "no wrapping amounts" forall i int :: {r[i]} 0 <= i && i < len(r) ==> inVal(r[i]) < pow2(64) && outVal(r[i]) < pow2(64)
}
package pkg/core
func Verifier.VerifyMerkle(v, node)(err) [C11] {
	requires v.params == Inv.coreParams
	uses merklesGood_def, txsGood_def, txOK_def
	shows (Inv.merkles[node.LChild] || Inv.txs[node.LChild]) ==> 0 <= esize(node.LChild) && esize(node.LChild) < pow2(62)
	shows (Inv.merkles[node.RChild] || Inv.txs[node.RChild]) ==> 0 <= esize(node.RChild) && esize(node.RChild) < pow2(62)
	ensures (err == nil) == merkleOK(v.params, Inv.merkles, Inv.txs, node)
}
