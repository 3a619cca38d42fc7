// internal/chain/chain.go, target.go: what the node does with candidate heads and transactions.
package internal/bus
ref internal/bus.Bus
ref pkg/topic.Topic
// how often each topic was published to, and the last message
ghost var $pubs arr[ref]int
ghost var $said arr[ref]any
package pkg/topic
trusted func Topic.Pub(t, msgs) {
	modifies $pubs, $said
	ensures $pubs == store(old($pubs), t, old($pubs)[t] + 1)
	ensures len(msgs) == 1 ==> $said == store(old($said), t, box(msgs[0]))
}
package internal/chain
owns internal/chain.Chain.state
extern os.WriteFile(name, data, perm)(err) { }
// the topics the chain publishes to
spec def wired(c Chain) bool = !isnil(c.inv) && c.bus != nil && c.bus.ValidatedHead != nil && c.bus.ValidatedTx != nil && c.bus.MinerTarget != nil && c.bus.ValidatedHead != c.bus.ValidatedTx && c.bus.ValidatedHead != c.bus.MinerTarget && c.bus.ValidatedTx != c.bus.MinerTarget
// ---- what miners are offered ----
spec func poolTx(s State, id HashT) bool
hidden axiom poolTx_def: forall s State, id HashT :: {poolTx(s, id)} poolTx(s, id) == (id in deref(s.mempool).s && txRec(id).Tx.MinBlock <= height(s.head) + 1 && inputsIn(txRec(id).Tx, dom(deref(s.utxos).s)))
func State.GetSortedIncludableMempool(s)(r) [C15] {
	requires ledgerOK(s)
	uses poolTx_def, poolOK_def
	ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> poolTx(s, r[i]) && Inv.txs[r[i]]
	ensures forall i int, j int :: {r[i], r[j]} 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
}
spec func sumSizes(ids []HashT, k int) int fold { base 0 step acc + txSize(txRec(ids[k]).Tx) }
lemma sumSizes_same [C15] (a []HashT, b []HashT, k int) induct k {
	requires forall i int :: {a[i]} {b[i]} 0 <= i && i < k ==> a[i] == b[i]
	ensures sumSizes(a, k) == sumSizes(b, k)
	trigger { sumSizes(a, k), sumSizes(b, k) }
}
// one of the first k transactions spends u
spec func spentBy(ids []HashT, u Utxo, k int) bool fold { base false step acc || spends(txRec(ids[k]).Tx, u) }
lemma spentBy_same [C15] (a []HashT, b []HashT, u Utxo, k int) induct k {
	requires forall i int :: {a[i]} {b[i]} 0 <= i && i < k ==> a[i] == b[i]
	ensures spentBy(a, u, k) == spentBy(b, u, k)
	trigger { spentBy(a, u, k), spentBy(b, u, k) }
}
lemma spentBy_none [C15] (ids []HashT, u Utxo, k int) {
	requires k <= 0
	ensures !spentBy(ids, u, k)
	trigger { spentBy(ids, u, k) }
}
lemma spentBy_at [C15] (ids []HashT, u Utxo, i int, k int) induct k {
	requires 0 <= i && i < k && spends(txRec(ids[i]).Tx, u)
	ensures spentBy(ids, u, k)
	trigger { spentBy(ids, u, k), spends(txRec(ids[i]).Tx, u) }
}
hidden lemma spends_has [C15] (tx Tx, u Utxo, i int) {
	requires 0 <= i && i < len(consumed(tx)) && consumed(tx)[i] == u
	uses spends_def
	ensures spends(tx, u)
	trigger { consumed(tx)[i], spends(tx, u) }
}
hidden lemma spends_which [C15] (tx Tx, u Utxo) {
	uses spends_def, has_at
	ensures spends(tx, u) ==> exists i int :: {consumed(tx)[i]} 0 <= i && i < len(consumed(tx)) && consumed(tx)[i] == u
	trigger { spends(tx, u) }
}
// v is a choice of transactions of total size n - 112, spending exactly S and nothing twice
spec func picked(v []HashT, S Set[Utxo], n int) bool
hidden axiom picked_def: forall v []HashT, S Set[Utxo], n int :: {picked(v, S, n)} picked(v, S, n) == (n == 112 + sumSizes(v, len(v)) && (forall u Utxo :: {u in S.s} (u in S.s) == spentBy(v, u, len(v))) && noTwice(v))
spec func noTwice(v []HashT) bool
hidden axiom noTwice_def: forall v []HashT :: {noTwice(v)} noTwice(v) == (forall i int, j int, u Utxo :: {spends(txRec(v[i]).Tx, u), spends(txRec(v[j]).Tx, u)} 0 <= i && i < j && j < len(v) ==> !(spends(txRec(v[i]).Tx, u) && spends(txRec(v[j]).Tx, u)))
// one more transaction
hidden lemma picked_sum [C15] (v []HashT, w []HashT) {
	requires len(w) == len(v) + 1 && forall i int :: {v[i]} {w[i]} 0 <= i && i < len(v) ==> v[i] == w[i]
	ensures sumSizes(w, len(w)) == sumSizes(v, len(v)) + txSize(txRec(w[len(v)]).Tx)
	trigger { sumSizes(w, len(w)), sumSizes(v, len(v)) }
}
hidden lemma picked_spent [C15] (v []HashT, w []HashT, u Utxo) {
	requires len(w) == len(v) + 1 && forall i int :: {v[i]} {w[i]} 0 <= i && i < len(v) ==> v[i] == w[i]
	ensures spentBy(w, u, len(w)) == (spentBy(v, u, len(v)) || spends(txRec(w[len(v)]).Tx, u))
	trigger { spentBy(w, u, len(w)), spentBy(v, u, len(v)) }
}
hidden lemma addall_spends [C15] (S Set[Utxo], T Set[Utxo], tx Tx, u Utxo) {
	requires T.s == addall(S.s, consumed(tx))
	uses spends_has, spends_which
	ensures (u in T.s) == (u in S.s || spends(tx, u))
	trigger { u in T.s, u in S.s, spends(tx, u) }
}
hidden lemma picked_in [C15] (v []HashT, S Set[Utxo], w []HashT, T Set[Utxo], u Utxo) {
	requires len(w) == len(v) + 1 && forall i int :: {v[i]} {w[i]} 0 <= i && i < len(v) ==> v[i] == w[i]
	requires T.s == addall(S.s, consumed(txRec(w[len(v)]).Tx)) && (u in S.s) == spentBy(v, u, len(v))
	uses picked_spent, addall_spends
	ensures (u in T.s) == spentBy(w, u, len(w))
	trigger { spentBy(v, u, len(v)), spentBy(w, u, len(w)), u in S.s, u in T.s }
	trigger { picked(v, S, 112 + sumSizes(v, len(v))), spentBy(w, u, len(w)), u in T.s }
}
hidden lemma picked_more [C15] (v []HashT, S Set[Utxo], n int, w []HashT, T Set[Utxo], m int) {
	requires len(w) == len(v) + 1 && forall i int :: {v[i]} {w[i]} 0 <= i && i < len(v) ==> v[i] == w[i]
	requires picked(v, S, n) && m == n + txSize(txRec(w[len(v)]).Tx) && T.s == addall(S.s, consumed(txRec(w[len(v)]).Tx))
	requires !(exists i int :: {consumed(txRec(w[len(v)]).Tx)[i]} 0 <= i && i < len(consumed(txRec(w[len(v)]).Tx)) && consumed(txRec(w[len(v)]).Tx)[i] in S.s)
	uses picked_def, noTwice_def, picked_sum, picked_in, spends_which
	ensures picked(w, T, m)
	trigger { picked(v, S, n), picked(w, T, m) }
}
hidden lemma picked_none [C15] (v []HashT, S Set[Utxo], n int) {
	requires len(v) == 0 && S.s == emptymap(S.s) && n == 112
	uses picked_def, noTwice_def
	ensures picked(v, S, n)
	trigger { picked(v, S, n) }
}
hidden lemma picked_is [C15] (v []HashT, S Set[Utxo], n int) {
	uses picked_def
	ensures picked(v, S, n) ==> n == 112 + sumSizes(v, len(v)) && noTwice(v)
	trigger { picked(v, S, n) }
}
// a list of distinct pending transactions that can all go in the next block, spending no output twice
spec func jobOK(s State, ids []HashT) bool
hidden axiom jobOK_def: forall s State, ids []HashT :: {jobOK(s, ids)} jobOK(s, ids) == ((forall i int :: {ids[i]} 0 <= i && i < len(ids) ==> poolTx(s, ids[i])) && (forall i int, j int :: {ids[i], ids[j]} 0 <= i && i < j && j < len(ids) ==> ids[i] != ids[j]) && noTwice(ids))
func Chain.CreateMiningTarget(c) [C15] {
	requires wired(c) && !isnil(c.state) && ledgerOK(deref(c.state))
	modifies $pubs, $said
	uses picked_more, picked_none, picked_is, jobOK_def
	infer none
	ensures "offered once" $pubs == store(old($pubs), c.bus.MinerTarget, old($pubs)[c.bus.MinerTarget] + 1)
	ensures "what is offered" exists e MinerTargetEvent :: {box(e)} $said == store(old($said), c.bus.MinerTarget, box(e)) && e.Head == deref(c.state).head && targetOK(Inv.coreParams, e.Head, hval(e.Target)) && jobOK(deref(c.state), e.TxIds) && 112 + sumSizes(e.TxIds, len(e.TxIds)) <= Inv.coreParams.MaxBlockVSize
	loop 1 (v []HashT, S Set[Utxo], n int) {
		inv picked(v, S, n) && 0 <= n && n <= Inv.coreParams.MaxBlockVSize
	}
	loop 1 (v []HashT) {
		inv forall i int :: {v[i]} 0 <= i && i < len(v) ==> exists j int :: {$xs[j]} 0 <= j && j < $k && $xs[j] == v[i]
		inv forall i int, j int :: {v[i], v[j]} 0 <= i && i < j && j < len(v) ==> v[i] != v[j]
	}
}

func Chain.handleCandidateHead(c, event)(err) [C06] {
	requires !isnil(c.state) && ledgerOK(deref(c.state)) && wired(c)
	modifies c, Inv.blocks, Inv.merkles, Inv.txs, $pubs, $said
	ensures !isnil(c.state) && ledgerOK(deref(c.state))
	ensures err == nil ==> deref(c.state).head == event.Head && work(event.Head) > work(old(deref(c.state).head))
	ensures "announced once" err == nil ==> $pubs[c.bus.ValidatedHead] == old($pubs[c.bus.ValidatedHead]) + 1 && exists e ValidatedHeadEvent :: $said[c.bus.ValidatedHead] == box(e) && e.Head == event.Head
	ensures err != nil ==> deref(c.state).head == old(deref(c.state).head) && deref(c.state).utxos == old(deref(c.state).utxos) && deref(c.state).pkhUtxos == old(deref(c.state).pkhUtxos) && deref(c.state).includedTxBlocks == old(deref(c.state).includedTxBlocks) && $pubs == old($pubs)
	uses poolOK_def
	infer none
	loop 1 {
		inv !isnil(c.state) && ledgerOK(deref(c.state))
		inv deref(c.state).head == old(deref(c.state).head) && deref(c.state).utxos == old(deref(c.state).utxos) && deref(c.state).pkhUtxos == old(deref(c.state).pkhUtxos) && deref(c.state).includedTxBlocks == old(deref(c.state).includedTxBlocks)
	}
	// on the way to the new head
	loop 1 (v State) {
		inv ledgerOK(v) && v.head == anc(event.Head, height(event.Head) - height(v0.head) - $k)
	}
}

func Chain.handleCandidateTx(c, event)(err) [C22] {
	requires !isnil(c.state) && ledgerOK(deref(c.state)) && wired(c)
	modifies c, Inv.txs, $pubs, $said
	uses poolOK_def
	ensures !isnil(c.state) && ledgerOK(deref(c.state))
	ensures "a known transaction is no news" old(Inv.txs)[txHash(event.Tx)] ==> err == nil && c.state == old(c.state) && Inv.txs == old(Inv.txs) && $pubs == old($pubs)
	ensures "an invalid one changes nothing" !old(Inv.txs)[txHash(event.Tx)] ==> (err == nil) == txOK(Inv.coreParams, old(Inv.txs), event.Tx)
	ensures err != nil ==> c.state == old(c.state) && Inv.txs == old(Inv.txs) && $pubs == old($pubs)
	ensures "stored, pooled and announced once" !old(Inv.txs)[txHash(event.Tx)] && err == nil ==> Inv.txs == store(old(Inv.txs), txHash(event.Tx), true) && dom(deref(deref(c.state).mempool).s) == store(old(dom(deref(deref(c.state).mempool).s)), txHash(event.Tx), true) && $pubs[c.bus.ValidatedTx] == old($pubs[c.bus.ValidatedTx]) + 1 && exists e ValidatedTxEvent :: $said[c.bus.ValidatedTx] == box(e) && e.TxId == txHash(event.Tx)
	ensures deref(c.state).head == old(deref(c.state).head) && deref(c.state).utxos == old(deref(c.state).utxos) && deref(c.state).pkhUtxos == old(deref(c.state).pkhUtxos) && deref(c.state).includedTxBlocks == old(deref(c.state).includedTxBlocks)
}

