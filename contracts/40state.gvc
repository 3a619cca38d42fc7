// internal/chain/state.go: the ledger at a head.
package internal/chain

func State.AddMempoolTx(s, txId) [C22] {
	requires !isnil(s.mempool) && Inv.txs[txId]
	requires spendsOK(s.mempoolUtxoSpends, dom(deref(s.mempool).s))
	modifies s
	uses spendsOK_def, spends_def
	ensures dom(deref(s.mempool).s) == store(old(dom(deref(s.mempool).s)), txId, true)
	ensures spendsOK(s.mempoolUtxoSpends, dom(deref(s.mempool).s))
	ensures s.head == old(s.head) && s.utxos == old(s.utxos) && s.pkhUtxos == old(s.pkhUtxos) && s.includedTxBlocks == old(s.includedTxBlocks) && !isnil(s.mempool)
	loop 0 (S map[Utxo]*Set[HashT], const t HashT) {
		inv forall u Utxo, x HashT :: {u in S, x in S[u]} {u in S0, x in S0[u]} (u in S && x in S[u]) == ((u in S0 && x in S0[u]) || (x == t && hasUtxo($xs, u, $k)))
		inv forall u Utxo :: {u in S} u in S ==> !isnil(S[u]) && card(S[u]) > 0
	}
}
func State.VerifyTxIncludable(s, txId, autoAddMempoolInsecure)(err) [C01,C15] {
	requires !isnil(s.mempool) && !isnil(s.utxos) && Inv.blocks[s.head]
	requires spendsOK(s.mempoolUtxoSpends, dom(deref(s.mempool).s))
	modifies s
	uses inputsIn_def, allIn_all
	ensures (err == nil) == (Inv.txs[txId] && txRec(txId).Tx.MinBlock <= height(s.head) + 1 && (autoAddMempoolInsecure || txId in old(deref(s.mempool).s)) && inputsIn(txRec(txId).Tx, dom(deref(s.utxos).s)))
	ensures !autoAddMempoolInsecure ==> s == old(s)
	ensures err == nil ==> dom(deref(s.mempool).s) == store(old(dom(deref(s.mempool).s)), txId, true)
	ensures spendsOK(s.mempoolUtxoSpends, dom(deref(s.mempool).s))
	ensures s.head == old(s.head) && s.utxos == old(s.utxos) && s.pkhUtxos == old(s.pkhUtxos) && s.includedTxBlocks == old(s.includedTxBlocks) && !isnil(s.mempool)
}

// the two steps that keep the per-owner index in step with the unspent outputs
optional func State.creditBalance(s, publicKeyHash, credit) [C08] {
	requires pkhSets(s.pkhUtxos)
	modifies s
	uses pkhOK_def, pkhSets_def
	ensures s.head == old(s.head) && s.utxos == old(s.utxos) && s.mempool == old(s.mempool) && s.mempoolUtxoSpends == old(s.mempoolUtxoSpends) && s.mempoolRates == old(s.mempoolRates) && s.includedTxBlocks == old(s.includedTxBlocks) && s.inv == old(s.inv)
	shows publicKeyHash in s.pkhUtxos && !isnil(s.pkhUtxos[publicKeyHash]) && credit in s.pkhUtxos[publicKeyHash] && card(s.pkhUtxos[publicKeyHash]) > 0
	ensures forall U arr[Utxo]bool :: {pkhOK(old(s.pkhUtxos), U)} pkhOK(old(s.pkhUtxos), U) && publicKeyHash == owner(credit) ==> pkhOK(s.pkhUtxos, store(U, credit, true))
}
optional func State.debitBalance(s, publicKeyHash, debit)(err) [C08] {
	requires pkhSets(s.pkhUtxos)
	modifies s
	uses pkhOK_def, pkhSets_def
	ensures s.head == old(s.head) && s.utxos == old(s.utxos) && s.mempool == old(s.mempool) && s.mempoolUtxoSpends == old(s.mempoolUtxoSpends) && s.mempoolRates == old(s.mempoolRates) && s.includedTxBlocks == old(s.includedTxBlocks) && s.inv == old(s.inv)
	ensures forall U arr[Utxo]bool :: {pkhOK(old(s.pkhUtxos), U)} pkhOK(old(s.pkhUtxos), U) && publicKeyHash == owner(debit) ==> (U[debit] ==> err == nil) && (err == nil ==> pkhOK(s.pkhUtxos, store(U, debit, false)))
}

func State.Advance(s, nextBlockId, autoAddMempoolInsecure)(err) [C01,C22,C08] {
	requires !isnil(s.mempool) && !isnil(s.utxos) && Inv.blocks[s.head] && nextBlockId != hz()
	requires spendsOK(s.mempoolUtxoSpends, dom(deref(s.mempool).s))
	requires pkhOK(s.pkhUtxos, dom(deref(s.utxos).s))
	requires utxosKnown(dom(deref(s.utxos).s), dom(s.includedTxBlocks))
	modifies s
	uses blocksGood_def, txsGood_def, txOK_def, spendsOK_def, spends_def, inputsIn_def, okTx_def, pkhOK_def, utxosKnown_def, validBlk_def, supplied_step
	ensures (err == nil) == (Inv.blocks[nextBlockId] && parent(nextBlockId) == old(s.head) && applies(nextBlockId, old(dom(deref(s.utxos).s)), old(dom(s.includedTxBlocks))) && (autoAddMempoolInsecure || pend(blockTxs(nextBlockId), old(dom(deref(s.mempool).s)), nTxs(nextBlockId))))
	ensures err == nil ==> s.head == nextBlockId && dom(deref(s.utxos).s) == uSeq(blockTxs(nextBlockId), old(dom(deref(s.utxos).s)), nTxs(nextBlockId))
	ensures err == nil ==> dom(s.includedTxBlocks) == iDom(blockTxs(nextBlockId), old(dom(s.includedTxBlocks)), nTxs(nextBlockId)) && vals(s.includedTxBlocks) == iVal(blockTxs(nextBlockId), old(vals(s.includedTxBlocks)), nextBlockId, nTxs(nextBlockId))
	ensures err == nil ==> dom(deref(s.mempool).s) == mSeq(blockTxs(nextBlockId), old(dom(deref(s.mempool).s)), nTxs(nextBlockId))
	ensures err == nil ==> spendsOK(s.mempoolUtxoSpends, dom(deref(s.mempool).s))
	ensures err == nil ==> pkhOK(s.pkhUtxos, dom(deref(s.utxos).s))
	ensures err == nil ==> utxosKnown(dom(deref(s.utxos).s), dom(s.includedTxBlocks))
	ensures err == nil ==> !isnil(s.mempool) && !isnil(s.utxos)
	ensures "the ledger of the chain to that block" err == nil && ledgerOK(old(s)) ==> validBlk(nextBlockId) && ledgerOK(s)
	infer none
	loop 1 {
		inv !isnil(s.mempool) && !isnil(s.utxos) && s.head == old(s.head)
		inv dom(deref(s.utxos).s) == uSeq($xs, old(dom(deref(s.utxos).s)), $k)
		inv dom(deref(s.mempool).s) == mSeq($xs, old(dom(deref(s.mempool).s)), $k)
		inv dom(s.includedTxBlocks) == iDom($xs, old(dom(s.includedTxBlocks)), $k)
		inv vals(s.includedTxBlocks) == iVal($xs, old(vals(s.includedTxBlocks)), nextBlockId, $k)
		inv spendsOK(s.mempoolUtxoSpends, dom(deref(s.mempool).s))
		inv pkhOK(s.pkhUtxos, dom(deref(s.utxos).s))
		inv utxosKnown(dom(deref(s.utxos).s), dom(s.includedTxBlocks))
		inv okTxs($xs, old(dom(deref(s.utxos).s)), old(dom(s.includedTxBlocks)), height(nextBlockId), $k)
		inv autoAddMempoolInsecure || pend($xs, old(dom(deref(s.mempool).s)), $k)
	}
	// the spend index loses the transaction
	loop 2 (const t HashT) {
		inv forall u Utxo, x HashT :: {u in s.mempoolUtxoSpends, x in s.mempoolUtxoSpends[u]} {u in entry(s.mempoolUtxoSpends), x in entry(s.mempoolUtxoSpends)[u]} (u in s.mempoolUtxoSpends && x in s.mempoolUtxoSpends[u]) == (u in entry(s.mempoolUtxoSpends) && x in entry(s.mempoolUtxoSpends)[u] && !(x == t && hasUtxo($xs, u, $k)))
		inv forall u Utxo :: {u in s.mempoolUtxoSpends} u in entry(s.mempoolUtxoSpends) && t in entry(s.mempoolUtxoSpends)[u] && !hasUtxo($xs, u, $k) ==> u in s.mempoolUtxoSpends && t in s.mempoolUtxoSpends[u]
		inv forall u Utxo :: {u in s.mempoolUtxoSpends} u in s.mempoolUtxoSpends ==> !isnil(s.mempoolUtxoSpends[u]) && card(s.mempoolUtxoSpends[u]) > 0
	}
	// the outputs the transaction spends go
	loop 2 {
		inv !isnil(s.utxos)
		inv forall u Utxo :: {u in deref(s.utxos).s} {u in entry(deref(s.utxos).s)} (u in deref(s.utxos).s) == (u in entry(deref(s.utxos).s) && !hasUtxo($xs, u, $k))
		inv pkhOK(s.pkhUtxos, dom(deref(s.utxos).s))
	}
	// its own outputs come
	loop 2 (const t HashT) {
		inv !isnil(s.utxos)
		inv forall u Utxo :: {u in deref(s.utxos).s} {u in entry(deref(s.utxos).s)} (u in deref(s.utxos).s) == (u in entry(deref(s.utxos).s) || createdBy(t, $xs, u, $k))
		inv pkhOK(s.pkhUtxos, dom(deref(s.utxos).s))
	}
	loop 2 {
		inv spendsOK(s.mempoolUtxoSpends, dom(deref(s.mempool).s))
	}
}

func State.Rewind(s) [C07,C22,C08] {
	requires s.head != hz() && Inv.blocks[s.head] && !isnil(s.mempool) && !isnil(s.utxos)
	requires spendsOK(s.mempoolUtxoSpends, dom(deref(s.mempool).s))
	requires pkhOK(s.pkhUtxos, dom(deref(s.utxos).s))
	requires validBlk(s.head)
	requires dom(deref(s.utxos).s) == uSeq(blockTxs(s.head), ledU(parent(s.head)), nTxs(s.head))
	requires dom(s.includedTxBlocks) == iDom(blockTxs(s.head), ledI(parent(s.head)), nTxs(s.head))
	requires agree(dom(s.includedTxBlocks), vals(s.includedTxBlocks), iVal(blockTxs(s.head), ledV(parent(s.head)), s.head, nTxs(s.head)))
	requires poolOK(dom(deref(s.mempool).s), dom(s.includedTxBlocks), Inv.txs)
	modifies s
	uses blocksGood_def, txsGood_def, txOK_def, spendsOK_def, spends_def, inputsIn_def, okTx_def, pkhOK_def, utxosKnown_def, agree_def, validBlk_def, recorded_def, stored_def
	ensures s.head == parent(old(s.head)) && !isnil(s.mempool) && !isnil(s.utxos)
	ensures dom(deref(s.utxos).s) == ledU(s.head)
	ensures dom(s.includedTxBlocks) == ledI(s.head)
	ensures agree(dom(s.includedTxBlocks), vals(s.includedTxBlocks), ledV(s.head))
	ensures forall t HashT :: {t in deref(s.mempool).s} (t in deref(s.mempool).s) == (t in old(deref(s.mempool).s) || inTxs(blockTxs(old(s.head)), t, nTxs(old(s.head))))
	ensures spendsOK(s.mempoolUtxoSpends, dom(deref(s.mempool).s))
	ensures pkhOK(s.pkhUtxos, dom(deref(s.utxos).s))
	ensures poolOK(dom(deref(s.mempool).s), dom(s.includedTxBlocks), Inv.txs)
	infer none
	loop 1 {
		inv !isnil(s.mempool) && !isnil(s.utxos) && s.head == old(s.head) && $k <= nTxs(old(s.head))
		inv dom(deref(s.utxos).s) == uSeq(blockTxs(old(s.head)), ledU(parent(old(s.head))), nTxs(old(s.head)) - $k)
		inv dom(s.includedTxBlocks) == iDom(blockTxs(old(s.head)), ledI(parent(old(s.head))), nTxs(old(s.head)) - $k)
		inv agree(dom(s.includedTxBlocks), vals(s.includedTxBlocks), iVal(blockTxs(old(s.head)), ledV(parent(old(s.head))), old(s.head), nTxs(old(s.head)) - $k))
		inv forall t HashT :: {t in deref(s.mempool).s} (t in deref(s.mempool).s || inTxs(blockTxs(old(s.head)), t, nTxs(old(s.head)) - $k)) == (t in old(deref(s.mempool).s) || inTxs(blockTxs(old(s.head)), t, nTxs(old(s.head))))
		inv spendsOK(s.mempoolUtxoSpends, dom(deref(s.mempool).s))
		inv pkhOK(s.pkhUtxos, dom(deref(s.utxos).s))
	}
	// the spend index gains the transaction
	loop 2 (const t HashT) {
		inv forall u Utxo, x HashT :: {u in s.mempoolUtxoSpends, x in s.mempoolUtxoSpends[u]} {u in entry(s.mempoolUtxoSpends), x in entry(s.mempoolUtxoSpends)[u]} (u in s.mempoolUtxoSpends && x in s.mempoolUtxoSpends[u]) == ((u in entry(s.mempoolUtxoSpends) && x in entry(s.mempoolUtxoSpends)[u]) || (x == t && hasUtxo($xs, u, $k)))
		inv forall u Utxo :: {u in s.mempoolUtxoSpends} u in s.mempoolUtxoSpends ==> !isnil(s.mempoolUtxoSpends[u]) && card(s.mempoolUtxoSpends[u]) > 0
	}
	// the outputs the transaction spent return
	loop 2 {
		inv !isnil(s.utxos)
		inv forall u Utxo :: {u in deref(s.utxos).s} {u in entry(deref(s.utxos).s)} (u in deref(s.utxos).s) == (u in entry(deref(s.utxos).s) || hasUtxo($xs, u, $k))
		inv pkhOK(s.pkhUtxos, dom(deref(s.utxos).s))
	}
	// its own outputs go
	loop 2 (const t HashT) {
		inv !isnil(s.utxos)
		inv forall u Utxo :: {u in deref(s.utxos).s} {u in entry(deref(s.utxos).s)} (u in deref(s.utxos).s) == (u in entry(deref(s.utxos).s) && !createdBy(t, $xs, u, $k))
		inv pkhOK(s.pkhUtxos, dom(deref(s.utxos).s))
	}
	loop 2 {
		inv spendsOK(s.mempoolUtxoSpends, dom(deref(s.mempool).s))
	}
}

func State.RewindUntil(s, blockId) [C07] {
	requires ledgerOK(s)
	requires height(blockId) <= height(s.head) && anc(s.head, height(s.head) - height(blockId)) == blockId
	modifies s
	uses validBlk_def
	ensures ledgerOK(s) && s.head == blockId
	ensures forall t HashT :: {t in deref(s.mempool).s} (t in deref(s.mempool).s) == (t in old(deref(s.mempool).s) || inLast(old(s.head), t, height(old(s.head)) - height(blockId)))
	infer none
	loop 1 {
		inv ledgerOK(s) && s.head == anc(old(s.head), $k)
		inv forall t HashT :: {t in deref(s.mempool).s} (t in deref(s.mempool).s) == (t in old(deref(s.mempool).s) || inLast(old(s.head), t, $k))
	}
}
func NewState(inv)(r) [C01] {
	uses spendsOK_def, pkhOK_def, agree_def, utxosKnown_def, poolOK_def
	shows Inv.blocks[hz()]
	shows utxosKnown(ledU(hz()), ledI(hz()))
	shows dom(deref(deref(r).utxos).s) == ledU(hz())
	shows dom(deref(r).includedTxBlocks) == ledI(hz())
	shows agree(ledI(hz()), vals(deref(r).includedTxBlocks), ledV(hz()))
	shows pkhOK(deref(r).pkhUtxos, ledU(hz()))
	shows spendsOK(deref(r).mempoolUtxoSpends, dom(deref(deref(r).mempool).s))
	ensures ledgerOK(deref(r)) && deref(r).head == hz() && deref(deref(r).mempool).s == emptymap(deref(deref(r).mempool).s)
}
func State.Copy(s)(r) [C07,C06] {
	requires !isnil(s.mempool) && !isnil(s.utxos) && spendSets(s.mempoolUtxoSpends) && pkhSets(s.pkhUtxos)
	uses spendsOK_def, pkhOK_def, spendSets_def, pkhSets_def
	ensures deref(r).head == s.head && deref(r).mempool == s.mempool && deref(r).utxos == s.utxos && deref(r).includedTxBlocks == s.includedTxBlocks && deref(r).mempoolRates == s.mempoolRates
	ensures forall M arr[HashT]bool :: {spendsOK(s.mempoolUtxoSpends, M)} spendsOK(s.mempoolUtxoSpends, M) ==> spendsOK(deref(r).mempoolUtxoSpends, M)
	ensures forall U arr[Utxo]bool :: {pkhOK(s.pkhUtxos, U)} pkhOK(s.pkhUtxos, U) ==> pkhOK(deref(r).pkhUtxos, U)
}
