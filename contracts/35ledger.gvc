// internal/chain/state.go: vocabulary for the ledger at a head.
package internal/chain
owns internal/chain.State.mempool
owns internal/chain.State.utxos
owns internal/chain.State.mempoolRates
owns internal/chain.State.mempoolUtxoSpends
owns internal/chain.State.pkhUtxos
owns internal/chain.State.includedTxBlocks

// ---- what a transaction does to the set of unspent outputs ----
spec func hasUtxo(us []Utxo, u Utxo, k int) bool fold { base false step acc || us[k] == u }
spec func allIn(us []Utxo, U arr[Utxo]bool, k int) bool fold { base true step acc && U[us[k]] }
// tx spends u
spec func spends(tx Tx, u Utxo) bool
hidden axiom spends_def: forall tx Tx, u Utxo :: {spends(tx, u)} spends(tx, u) == hasUtxo(consumed(tx), u, len(consumed(tx)))
// every output tx spends is in U
spec func inputsIn(tx Tx, U arr[Utxo]bool) bool
hidden axiom inputsIn_def: forall tx Tx, U arr[Utxo]bool :: {inputsIn(tx, U)} inputsIn(tx, U) == allIn(consumed(tx), U, len(consumed(tx)))
// the first k outputs of tx include u
spec def creates(tx Tx, u Utxo, k int) bool = u.TxId == txHash(tx) && u.Ind < k && tx.Outputs[u.Ind].Value == u.Value
spec func createdBy(t HashT, outs []TxOut, u Utxo, k int) bool fold { base false step acc || (u.TxId == t && u.Ind == k && u.Value == outs[k].Value) }
lemma createdBy_is [C01] (t HashT, outs []TxOut, u Utxo, k int) induct k {
	requires 0 <= k && k <= len(outs)
	ensures createdBy(t, outs, u, k) == (u.TxId == t && u.Ind < k && outs[u.Ind].Value == u.Value)
	trigger { createdBy(t, outs, u, k) }
}
// the set after tx
spec func uAfter(U arr[Utxo]bool, tx Tx) arr[Utxo]bool
axiom uAfter_def: forall U arr[Utxo]bool, tx Tx, u Utxo :: {uAfter(U, tx)[u]} uAfter(U, tx)[u] == ((U[u] && !spends(tx, u)) || creates(tx, u, len(tx.Outputs)))
// who may spend u: the owner recorded in the creating output
spec def owner(u Utxo) HashT = txOut(u.TxId, u.Ind).PublicKeyHash

// ---- the ledger along a block's transactions ----
spec func uSeq(xs []Tx, U arr[Utxo]bool, k int) arr[Utxo]bool fold { base U step uAfter(acc, xs[k]) }
spec func iDom(xs []Tx, D arr[HashT]bool, k int) arr[HashT]bool fold { base D step store(acc, txHash(xs[k]), true) }
spec func iVal(xs []Tx, V arr[HashT]HashT, b HashT, k int) arr[HashT]HashT fold { base V step store(acc, txHash(xs[k]), b) }
spec func mSeq(xs []Tx, M arr[HashT]bool, k int) arr[HashT]bool fold { base M step store(acc, txHash(xs[k]), false) }
// a transaction is spendable where it stands: not included before, every input unspent, high enough
spec func okTx(tx Tx, U arr[Utxo]bool, D arr[HashT]bool, h int) bool
hidden axiom okTx_def: forall tx Tx, U arr[Utxo]bool, D arr[HashT]bool, h int :: {okTx(tx, U, D, h)} okTx(tx, U, D, h) == (!D[txHash(tx)] && inputsIn(tx, U) && tx.MinBlock <= h)
spec func okTxs(xs []Tx, U arr[Utxo]bool, D arr[HashT]bool, h int, k int) bool fold { base true step acc && okTx(xs[k], uSeq(xs, U, k), iDom(xs, D, k), h) }
spec func pend(xs []Tx, M arr[HashT]bool, k int) bool fold { base true step acc && M[txHash(xs[k])] }
lemma okTxs_at [C01] (xs []Tx, U arr[Utxo]bool, D arr[HashT]bool, h int, k int, n int) induct n {
	requires 0 <= k && k < n && okTxs(xs, U, D, h, n)
	ensures okTx(xs[k], uSeq(xs, U, k), iDom(xs, D, k), h)
	trigger { okTxs(xs, U, D, h, n), uSeq(xs, U, k) }
}
lemma pend_at [C01] (xs []Tx, M arr[HashT]bool, k int, n int) induct n {
	requires 0 <= k && k < n && pend(xs, M, n)
	ensures M[txHash(xs[k])]
	trigger { pend(xs, M, n), mSeq(xs, M, k) }
}
lemma left_pool [C01] (xs []Tx, M arr[HashT]bool, D arr[HashT]bool, k int, t HashT) induct k {
	requires 0 <= k && M[t] && !mSeq(xs, M, k)[t]
	ensures iDom(xs, D, k)[t]
	trigger { mSeq(xs, M, k)[t], iDom(xs, D, k)[t] }
}
lemma used_consumed [C01] (tx Tx, u Utxo, k int) induct k {
	requires 0 <= k && k <= len(tx.Inputs)
	ensures usedBefore(tx.Inputs, u, k) == hasUtxo(consumed(tx), u, k)
	trigger { hasUtxo(consumed(tx), u, k) }
}
lemma distinct_at [C01] (xs []TxIn, k int, n int) induct n {
	requires 0 <= k && k < n && allDistinct(xs, n)
	ensures !usedBefore(xs, xs[k].Utxo, k)
	trigger { allDistinct(xs, n), usedBefore(xs, xs[k].Utxo, k) }
}

// ---- the indexes kept beside the ledger ----
// under each output exactly the pending transactions that spend it, and nothing empty
spec func spendsOK(S map[Utxo]*Set[HashT], M arr[HashT]bool) bool
hidden axiom spendsOK_def: forall S map[Utxo]*Set[HashT], M arr[HashT]bool :: {spendsOK(S, M)} spendsOK(S, M) == ((forall u Utxo, t HashT :: {u in S, t in S[u]} {spends(txRec(t).Tx, u)} (u in S && t in S[u]) == (M[t] && spends(txRec(t).Tx, u))) && forall u Utxo :: {u in S} u in S ==> !isnil(S[u]) && card(S[u]) > 0)
// under each owner exactly the unspent outputs it owns, and nothing empty
spec func pkhOK(P map[HashT]*Set[Utxo], U arr[Utxo]bool) bool
hidden axiom pkhOK_def: forall P map[HashT]*Set[Utxo], U arr[Utxo]bool :: {pkhOK(P, U)} pkhOK(P, U) == ((forall p HashT, u Utxo :: {p in P, u in P[p]} {U[u], p in P} (p in P && u in P[p]) == (U[u] && p == owner(u))) && forall p HashT :: {p in P} p in P ==> !isnil(P[p]) && card(P[p]) > 0)
// unspent outputs are outputs of included transactions
spec func utxosKnown(U arr[Utxo]bool, D arr[HashT]bool) bool
hidden axiom utxosKnown_def: forall U arr[Utxo]bool, D arr[HashT]bool :: {utxosKnown(U, D)} utxosKnown(U, D) == forall u Utxo :: {U[u]} U[u] ==> D[u.TxId] && u.Ind < len(txRec(u.TxId).Tx.Outputs) && txOut(u.TxId, u.Ind).Value == u.Value

spec def blockTxs(id HashT) []Tx = txsBelow(blockRec(id).Block.MerkleRoot)
spec def nTxs(id HashT) int = len(blockTxs(id))
// block id applies on top of the ledger U, D
spec def applies(id HashT, U arr[Utxo]bool, D arr[HashT]bool) bool = okTxs(blockTxs(id), U, D, height(id), nTxs(id))

// no owner entry is empty of a set
spec func pkhSets(P map[HashT]*Set[Utxo]) bool
hidden axiom pkhSets_def: forall P map[HashT]*Set[Utxo] :: {pkhSets(P)} pkhSets(P) == forall p HashT :: {p in P} p in P ==> !isnil(P[p])
spec func spendSets(S map[Utxo]*Set[HashT]) bool
hidden axiom spendSets_def: forall S map[Utxo]*Set[HashT] :: {spendSets(S)} spendSets(S) == forall u Utxo :: {u in S} u in S ==> !isnil(S[u])
lemma spend_sets [C08] (S map[Utxo]*Set[HashT], M arr[HashT]bool) {
	requires spendsOK(S, M)
	uses spendsOK_def, spendSets_def
	ensures spendSets(S)
	trigger { spendsOK(S, M) }
}
lemma pkh_sets [C08] (P map[HashT]*Set[Utxo], U arr[Utxo]bool) {
	requires pkhOK(P, U)
	uses pkhOK_def, pkhSets_def
	ensures pkhSets(P)
	trigger { pkhOK(P, U) }
}
lemma mSeq_sub [C01] (xs []Tx, M arr[HashT]bool, k int, t HashT) induct k {
	requires 0 <= k && k <= len(xs)
	ensures mSeq(xs, M, k)[t] ==> M[t]
	trigger { mSeq(xs, M, k)[t] }
}
lemma hasUtxo_at [C01] (us []Utxo, k int, n int) induct n {
	requires 0 <= k && k < n
	ensures hasUtxo(us, us[k], n)
	trigger { hasUtxo(us, us[k], n) }
}
lemma allIn_has [C07] (us []Utxo, U arr[Utxo]bool, u Utxo, n int) induct n {
	requires 0 <= n && allIn(us, U, n) && hasUtxo(us, u, n)
	ensures U[u]
	trigger { allIn(us, U, n), hasUtxo(us, u, n) }
}
lemma allIn_at [C01] (us []Utxo, U arr[Utxo]bool, k int, n int) induct n {
	requires 0 <= k && k < n && allIn(us, U, n)
	ensures U[us[k]]
	trigger { allIn(us, U, n), U[us[k]] }
}
hidden lemma allIn_all [C01] (us []Utxo, U arr[Utxo]bool, n int) induct n {
	requires forall i int :: {us[i]} 0 <= i && i < n ==> U[us[i]]
	ensures allIn(us, U, n)
	trigger { allIn(us, U, n) }
}

spec func inTxs(xs []Tx, t HashT, k int) bool fold { base false step acc || txHash(xs[k]) == t }
lemma inTxs_none [C07] (xs []Tx, t HashT, k int) {
	requires k <= 0
	ensures !inTxs(xs, t, k)
	trigger { inTxs(xs, t, k) }
}
lemma utxosKnown_seq [C07] (xs []Tx, U arr[Utxo]bool, D arr[HashT]bool, k int) induct k {
	requires 0 <= k && k <= len(xs) && recorded(xs) && utxosKnown(U, D)
	uses recorded_def, utxosKnown_def
	ensures utxosKnown(uSeq(xs, U, k), iDom(xs, D, k))
	trigger { recorded(xs), utxosKnown(U, D), uSeq(xs, U, k) }
}
// V and W name the same block for everything in D
spec func agree(D arr[HashT]bool, V arr[HashT]HashT, W arr[HashT]HashT) bool
hidden axiom agree_def: forall D arr[HashT]bool, V arr[HashT]HashT, W arr[HashT]HashT :: {agree(D, V, W)} agree(D, V, W) == forall t HashT :: {D[t]} D[t] ==> V[t] == W[t]
lemma agree_seq [C01] (xs []Tx, D arr[HashT]bool, V arr[HashT]HashT, W arr[HashT]HashT, b HashT, k int) induct k {
	requires 0 <= k && agree(D, V, W)
	uses agree_def
	ensures agree(iDom(xs, D, k), iVal(xs, V, b, k), iVal(xs, W, b, k))
	trigger { agree(D, V, W), iDom(xs, D, k), iVal(xs, V, b, k) }
}

// pending transactions are stored and not included; included ones are stored
spec func poolOK(M arr[HashT]bool, D arr[HashT]bool, T arr[HashT]bool) bool
hidden axiom poolOK_def: forall M arr[HashT]bool, D arr[HashT]bool, T arr[HashT]bool :: {poolOK(M, D, T)} poolOK(M, D, T) == (forall t HashT :: {M[t]} {D[t]} (M[t] ==> T[t] && !D[t]) && (D[t] ==> T[t]))
lemma poolOK_seq [C22] (xs []Tx, M arr[HashT]bool, D arr[HashT]bool, T arr[HashT]bool, k int) induct k {
	requires 0 <= k && k <= len(xs) && poolOK(M, D, T) && stored(xs, T)
	uses poolOK_def, stored_def
	ensures poolOK(mSeq(xs, M, k), iDom(xs, D, k), T)
	trigger { poolOK(M, D, T), mSeq(xs, M, k), iDom(xs, D, k) }
}
hidden lemma iDom_in [C22] (xs []Tx, D arr[HashT]bool, t HashT, n int) induct n {
	requires 0 <= n && inTxs(xs, t, n)
	ensures iDom(xs, D, n)[t]
	trigger { iDom(xs, D, n), inTxs(xs, t, n) }
}
hidden lemma iDom_kept [C22] (xs []Tx, D arr[HashT]bool, t HashT, n int) induct n {
	requires 0 <= n && D[t]
	ensures iDom(xs, D, n)[t]
	trigger { iDom(xs, D, n)[t] }
}
hidden lemma okTxs_new [C22] (xs []Tx, U arr[Utxo]bool, D arr[HashT]bool, h int, t HashT, n int) induct n {
	requires 0 <= n && okTxs(xs, U, D, h, n) && inTxs(xs, t, n)
	uses okTx_def, iDom_kept
	ensures !D[t]
	trigger { okTxs(xs, U, D, h, n), inTxs(xs, t, n) }
}
// taking the last block back keeps the mempool right
lemma pool_back [C22] (xs []Tx, U arr[Utxo]bool, D arr[HashT]bool, h int, M arr[HashT]bool, N arr[HashT]bool, T arr[HashT]bool, n int) {
	requires 0 <= n && okTxs(xs, U, D, h, n) && poolOK(M, iDom(xs, D, n), T)
	requires forall t HashT :: {N[t]} {M[t]} N[t] == (M[t] || inTxs(xs, t, n))
	uses poolOK_def, iDom_in, iDom_kept, okTxs_new
	ensures poolOK(N, D, T)
	trigger { okTxs(xs, U, D, h, n), poolOK(M, iDom(xs, D, n), T), poolOK(N, D, T) }
}

// ---- how much coin there is ----
// the sum of the values of a finite set of outputs; fin tells finite sets
spec func total(U arr[Utxo]bool) int
spec func fin(U arr[Utxo]bool) bool
hidden axiom total_add: forall U arr[Utxo]bool, u Utxo :: {total(store(U, u, true))} !U[u] ==> total(store(U, u, true)) == total(U) + u.Value
hidden axiom total_del: forall U arr[Utxo]bool, u Utxo :: {total(store(U, u, false))} U[u] ==> total(store(U, u, false)) == total(U) - u.Value
spec func sumUtxo(us []Utxo, k int) int fold { base 0 step acc + us[k].Value }
spec func distinctUtxos(us []Utxo, k int) bool fold { base true step acc && !hasUtxo(us, us[k], k) }
spec func rem(U arr[Utxo]bool, us []Utxo, k int) arr[Utxo]bool fold { base U step store(acc, us[k], false) }
hidden lemma rem_is [C08] (U arr[Utxo]bool, us []Utxo, u Utxo, k int) induct k {
	requires 0 <= k && k <= len(us)
	ensures rem(U, us, k)[u] == (U[u] && !hasUtxo(us, u, k))
	trigger { rem(U, us, k)[u] }
}
hidden lemma total_rem [C08] (U arr[Utxo]bool, us []Utxo, k int) induct k {
	requires 0 <= k && k <= len(us) && distinctUtxos(us, k) && allIn(us, U, k)
	uses rem_is, total_del
	ensures total(rem(U, us, k)) == total(U) - sumUtxo(us, k)
	trigger { total(rem(U, us, k)) }
}
spec func outAt(t HashT, i int, v int) Utxo
hidden axiom outAt_def: forall t HashT, i int, v int :: {outAt(t, i, v)} 0 <= i && i < pow2(64) && 0 <= v && v < pow2(64) ==> outAt(t, i, v).TxId == t && outAt(t, i, v).Ind == i && outAt(t, i, v).Value == v
spec func adds(U arr[Utxo]bool, t HashT, outs []TxOut, k int) arr[Utxo]bool fold { base U step store(acc, outAt(t, k, outs[k].Value), true) }
hidden lemma adds_is [C08] (U arr[Utxo]bool, t HashT, outs []TxOut, u Utxo, k int) induct k {
	requires 0 <= k && k <= len(outs)
	uses outAt_def
	ensures adds(U, t, outs, k)[u] == (U[u] || createdBy(t, outs, u, k))
	trigger { adds(U, t, outs, k)[u] }
}
// no output of t is in U
spec func noneOf(U arr[Utxo]bool, t HashT) bool
hidden axiom noneOf_def: forall U arr[Utxo]bool, t HashT :: {noneOf(U, t)} noneOf(U, t) == forall u Utxo :: {U[u]} U[u] ==> u.TxId != t
hidden lemma total_adds [C08] (U arr[Utxo]bool, t HashT, outs []TxOut, k int) induct k {
	requires 0 <= k && k <= len(outs) && noneOf(U, t)
	uses adds_is, total_add, outAt_def, noneOf_def
	ensures total(adds(U, t, outs, k)) == total(U) + sumOut(outs, k)
	trigger { total(adds(U, t, outs, k)) }
}

hidden lemma sum_consumed [C08] (tx Tx, k int) induct k {
	requires 0 <= k && k <= len(tx.Inputs)
	ensures sumUtxo(consumed(tx), k) == sumIn(tx.Inputs, k)
	trigger { sumUtxo(consumed(tx), k) }
}
hidden lemma distinct_consumed [C08] (tx Tx, k int) induct k {
	requires 0 <= k && k <= len(tx.Inputs) && allDistinct(tx.Inputs, k)
	ensures distinctUtxos(consumed(tx), k)
	trigger { distinctUtxos(consumed(tx), k) }
}
hidden lemma after_is [C08] (U arr[Utxo]bool, tx Tx) {
	uses rem_is, adds_is, spends_def
	ensures uAfter(U, tx) == adds(rem(U, consumed(tx), len(tx.Inputs)), txHash(tx), tx.Outputs, len(tx.Outputs))
	trigger { uAfter(U, tx) }
}
hidden lemma none_rem [C08] (U arr[Utxo]bool, us []Utxo, t HashT, k int) {
	requires 0 <= k && k <= len(us) && noneOf(U, t)
	uses rem_is, noneOf_def
	ensures noneOf(rem(U, us, k), t)
	trigger { noneOf(rem(U, us, k), t) }
}
hidden lemma total_after [C08] (U arr[Utxo]bool, tx Tx) {
	requires inputsIn(tx, U) && allDistinct(tx.Inputs, len(tx.Inputs)) && noneOf(U, txHash(tx))
	uses sum_consumed, distinct_consumed, after_is, total_rem, total_adds, none_rem, inputsIn_def
	ensures total(uAfter(U, tx)) == total(U) - inVal(tx) + outVal(tx)
	trigger { total(uAfter(U, tx)) }
}
hidden lemma none_new [C08] (U arr[Utxo]bool, D arr[HashT]bool, t HashT) {
	requires utxosKnown(U, D) && !D[t]
	uses utxosKnown_def, noneOf_def
	ensures noneOf(U, t)
	trigger { utxosKnown(U, D), noneOf(U, t) }
}
hidden lemma alone_at [C08] (p Params, T arr[HashT]bool, xs []Tx, i int) {
	requires txsGood(p, T) && recorded(xs) && stored(xs, T) && 0 <= i && i < len(xs)
	uses txsGood_def, txOK_def, recorded_def, stored_def
	ensures allDistinct(xs[i].Inputs, len(xs[i].Inputs))
	trigger { txsGood(p, T), recorded(xs), allDistinct(xs[i].Inputs, len(xs[i].Inputs)) }
}
hidden lemma total_seq [C08] (p Params, T arr[HashT]bool, xs []Tx, U arr[Utxo]bool, D arr[HashT]bool, h int, k int) induct k {
	requires 0 <= k && k <= len(xs) && txsGood(p, T) && recorded(xs) && stored(xs, T) && utxosKnown(U, D) && okTxs(xs, U, D, h, k)
	uses total_after, none_new, alone_at, okTx_def
	ensures total(uSeq(xs, U, k)) == total(U) - sumIns(xs, k) + sumOuts(xs, k)
	trigger { txsGood(p, T), stored(xs, T), okTxs(xs, U, D, h, k), total(uSeq(xs, U, k)) }
}

// ---- the ledger of the chain that ends in block id ----
spec func ledU(id HashT) arr[Utxo]bool
spec func ledI(id HashT) arr[HashT]bool
spec func ledV(id HashT) arr[HashT]HashT
axiom led_root: forall u Utxo :: {ledU(hz())[u]} !ledU(hz())[u]
axiom led_root2: forall t HashT :: {ledI(hz())[t]} !ledI(hz())[t]
axiom led_step: forall id HashT :: {uSeq(blockTxs(id), ledU(parent(id)), nTxs(id))} height(id) == height(parent(id)) + 1 ==> ledU(id) == uSeq(blockTxs(id), ledU(parent(id)), nTxs(id)) && ledI(id) == iDom(blockTxs(id), ledI(parent(id)), nTxs(id)) && ledV(id) == iVal(blockTxs(id), ledV(parent(id)), id, nTxs(id))
// block id applies to its parent's ledger
spec func validBlk(id HashT) bool
hidden axiom validBlk_def: forall id HashT :: {validBlk(id)} validBlk(id) == (applies(id, ledU(parent(id)), ledI(parent(id))) && utxosKnown(ledU(parent(id)), ledI(parent(id))))
// so do all its ancestors
spec func chainOK(id HashT) bool
axiom chainOK_root: chainOK(hz())
axiom chainOK_def: forall id HashT :: {validBlk(id)} height(id) == height(parent(id)) + 1 ==> chainOK(id) == (chainOK(parent(id)) && validBlk(id))

// all there is after the chain to id is the rewards of its blocks
spec func minted(r int, k int) int fold { base 0 step acc + r }
lemma minted_le [C08] (r int, k int) induct k {
	requires 0 <= k && 0 <= r && r < pow2(24)
	ensures 0 <= minted(r, k) && minted(r, k) <= 16777216 * k
	trigger { minted(r, k) }
}
spec func supply(p Params, id HashT) bool
hidden axiom supply_def: forall p Params, id HashT :: {supply(p, id)} supply(p, id) == (total(ledU(id)) == minted(p.BlockReward, height(id)))
hidden axiom total_root: total(ledU(hz())) == 0
// so it is after every block of the chain
spec func supplied(p Params, id HashT) bool
axiom supplied_root: forall p Params :: {supplied(p, hz())} supplied(p, hz())
axiom supplied_is: forall p Params, id HashT :: {supplied(p, id)} supplied(p, id) ==> supply(p, id)
axiom supplied_def: forall p Params, id HashT :: {supplied(p, id), validBlk(id)} height(id) == height(parent(id)) + 1 ==> supplied(p, id) == (supplied(p, parent(id)) && supply(p, id))
hidden lemma supply_seq [C08] (p Params, T arr[HashT]bool, id HashT) {
	requires validBlk(id) && txsGood(p, T) && recorded(blockTxs(id)) && stored(blockTxs(id), T) && balOK(p, blockRec(id).Block.MerkleRoot)
	uses total_seq, validBlk_def, balOK_def
	ensures total(uSeq(blockTxs(id), ledU(parent(id)), nTxs(id))) == total(ledU(parent(id))) + p.BlockReward
	trigger { validBlk(id), txsGood(p, T) }
}
hidden lemma minted_step [C08] (r int, j int, k int) {
	requires 0 <= j && k == j + 1
	ensures minted(r, k) == minted(r, j) + r
	trigger { minted(r, k), minted(r, j) }
}
hidden lemma supplied_step [C08] (p Params, T arr[HashT]bool, id HashT) {
	requires supplied(p, parent(id)) && validBlk(id) && height(id) == height(parent(id)) + 1
	requires txsGood(p, T) && recorded(blockTxs(id)) && stored(blockTxs(id), T) && balOK(p, blockRec(id).Block.MerkleRoot)
	uses supply_def, supply_seq, minted_step
	ensures supplied(p, id)
	trigger { supplied(p, parent(id)), validBlk(id), stored(blockTxs(id), T) }
}

// s is the exact ledger of the valid chain that ends at its head
spec def ledgerOK(s State) bool = !isnil(s.mempool) && !isnil(s.utxos) && Inv.blocks[s.head] && chainOK(s.head) && dom(deref(s.utxos).s) == ledU(s.head) && dom(s.includedTxBlocks) == ledI(s.head) && agree(dom(s.includedTxBlocks), vals(s.includedTxBlocks), ledV(s.head)) && spendsOK(s.mempoolUtxoSpends, dom(deref(s.mempool).s)) && pkhOK(s.pkhUtxos, dom(deref(s.utxos).s)) && utxosKnown(ledU(s.head), ledI(s.head)) && supplied(Inv.coreParams, s.head) && poolOK(dom(deref(s.mempool).s), dom(s.includedTxBlocks), Inv.txs)
// t is in one of the k blocks from id down
spec func inLast(id HashT, t HashT, k int) bool fold { base false step acc || inTxs(blockTxs(anc(id, k)), t, nTxs(anc(id, k))) }
lemma inLast_none [C07] (id HashT, t HashT, k int) {
	requires k <= 0
	ensures !inLast(id, t, k)
	trigger { inLast(id, t, k) }
}
