// internal/chain/state.go: the answers about owners and confirmations.
package internal/chain

// xs lists, once each, the unspent outputs that p owns
spec func owned(xs []Utxo, U arr[Utxo]bool, p HashT) bool
hidden axiom owned_def: forall xs []Utxo, U arr[Utxo]bool, p HashT :: {owned(xs, U, p)} owned(xs, U, p) == ((forall i int :: {xs[i]} 0 <= i && i < len(xs) ==> U[xs[i]] && owner(xs[i]) == p) && (forall i int, j int :: {xs[i], xs[j]} 0 <= i && i < j && j < len(xs) ==> xs[i] != xs[j]) && forall u Utxo :: {U[u]} U[u] && owner(u) == p ==> exists i int :: {xs[i]} 0 <= i && i < len(xs) && xs[i] == u)
spec func emptyUtxos() []Utxo
axiom emptyUtxos_def: len(emptyUtxos()) == 0
// what p owns is worth: the sum over any such list
spec func bal(U arr[Utxo]bool, p HashT) int
axiom bal_def: forall xs []Utxo, U arr[Utxo]bool, p HashT :: {owned(xs, U, p)} owned(xs, U, p) ==> bal(U, p) == sumUtxo(xs, len(xs))
// no owner has more than there is
hidden axiom fin_pos: forall U arr[Utxo]bool :: {fin(U), total(U)} fin(U) ==> 0 <= total(U)
hidden axiom fin_del: forall U arr[Utxo]bool, u Utxo :: {store(U, u, false)} fin(U) ==> fin(store(U, u, false))
hidden lemma fin_rem [C08] (U arr[Utxo]bool, us []Utxo, k int) induct k {
	requires 0 <= k && k <= len(us) && fin(U)
	uses fin_del
	ensures fin(rem(U, us, k))
	trigger { fin(U), rem(U, us, k) }
}
hidden lemma has_at [C08] (us []Utxo, u Utxo, k int) induct k {
	requires 0 <= k && k <= len(us)
	ensures hasUtxo(us, u, k) ==> exists i int :: {us[i]} 0 <= i && i < k && us[i] == u
	trigger { hasUtxo(us, u, k) }
}
hidden lemma owned_distinct [C08] (xs []Utxo, U arr[Utxo]bool, p HashT, k int) induct k {
	requires 0 <= k && k <= len(xs) && owned(xs, U, p)
	uses owned_def, has_at
	ensures distinctUtxos(xs, k) && allIn(xs, U, k)
	trigger { owned(xs, U, p), distinctUtxos(xs, k) }
}
hidden lemma owned_total [C08] (xs []Utxo, U arr[Utxo]bool, p HashT) {
	requires owned(xs, U, p) && fin(U) && distinctUtxos(xs, len(xs)) == distinctUtxos(xs, len(xs))
	uses owned_distinct, total_rem, fin_rem, fin_pos
	ensures sumUtxo(xs, len(xs)) <= total(U) && 0 <= total(rem(U, xs, len(xs)))
	trigger { owned(xs, U, p), fin(U) }
}
// some pending transaction spends u
spec func pendingSpend(M arr[HashT]bool, u Utxo) bool
hidden axiom pendingSpend_def: forall M arr[HashT]bool, u Utxo :: {pendingSpend(M, u)} pendingSpend(M, u) == exists t HashT :: {M[t]} M[t] && spends(txRec(t).Tx, u)

hidden lemma pending_card [C08] (P map[Utxo]*Set[HashT], M arr[HashT]bool, u Utxo) {
	requires spendsOK(P, M)
	uses spendsOK_def
	ensures u in P ==> card(P[u]) > 0
	trigger { spendsOK(P, M), u in P }
	trigger { spendsOK(P, M), pendingSpend(M, u) }
}
hidden lemma pending_is [C08] (P map[Utxo]*Set[HashT], M arr[HashT]bool, u Utxo) {
	requires spendsOK(P, M) && (u in P ==> card(P[u]) > 0)
	uses spendsOK_def, pendingSpend_def
	ensures (u in P) == pendingSpend(M, u)
	trigger { spendsOK(P, M), u in P }
	trigger { spendsOK(P, M), pendingSpend(M, u) }
}
// all there is fits in 64 bits
spec func fits(U arr[Utxo]bool) bool
hidden axiom fits_def: forall U arr[Utxo]bool :: {fits(U)} fits(U) == (total(U) < pow2(64))
// and it does along every chain under the rules
lemma supply_fits [C08] (p Params, id HashT) {
	requires supplied(p, id) && 0 <= p.BlockReward && p.BlockReward < pow2(24) && 0 <= height(id) && height(id) <= pow2(40)
	uses fits_def, supply_def
	ensures fits(ledU(id))
	trigger { supplied(p, id), fits(ledU(id)) }
}
lemma sumUtxo_pos [C08] (xs []Utxo, k int) induct k {
	requires 0 <= k
	ensures 0 <= sumUtxo(xs, k)
	trigger { sumUtxo(xs, k) }
}
// the two ways an answer comes about: no entry for the owner, or a list of its entry
hidden lemma bal_absent [C08] (P map[HashT]*Set[Utxo], U arr[Utxo]bool, p HashT) {
	requires pkhOK(P, U) && !(p in P) && fin(U)
	uses pkhOK_def, owned_def, fin_pos
	ensures owned(emptyUtxos(), U, p) && bal(U, p) == 0 && 0 <= total(U)
	trigger { pkhOK(P, U), p in P, fin(U) }
}
hidden lemma bal_listed [C08] (P map[HashT]*Set[Utxo], U arr[Utxo]bool, p HashT, xs []Utxo, k int) {
	requires 0 <= k && pkhOK(P, U) && p in P && fin(U)
	requires forall i int :: {xs[i]} 0 <= i && i < len(xs) ==> xs[i] in P[p]
	requires forall i int, j int :: {xs[i], xs[j]} 0 <= i && i < j && j < len(xs) ==> xs[i] != xs[j]
	requires forall u Utxo :: {u in P[p]} u in P[p] ==> exists i int :: {xs[i]} 0 <= i && i < len(xs) && xs[i] == u
	uses pkhOK_def, owned_def, owned_total
	ensures owned(xs, U, p) && bal(U, p) == sumUtxo(xs, len(xs)) && sumUtxo(xs, len(xs)) <= total(U)
	trigger { pkhOK(P, U), p in P, sumUtxo(xs, k) }
}
func State.GetPkhBalance(s, publicKeyHash)(r) [C08] {
	free requires fin(dom(deref(s.utxos).s))
	requires !isnil(s.utxos) && pkhOK(s.pkhUtxos, dom(deref(s.utxos).s)) && fits(dom(deref(s.utxos).s))
	uses bal_absent, bal_listed, fits_def, pkhSets_def
	ensures "the sum of what it owns, which never wraps" r == bal(dom(deref(s.utxos).s), publicKeyHash) && r <= total(dom(deref(s.utxos).s))
}
func State.GetManyPkhBalances(s, publicKeyHashes)(r) [C08] {
	requires !isnil(s.utxos) && pkhOK(s.pkhUtxos, dom(deref(s.utxos).s)) && fits(dom(deref(s.utxos).s))
	ensures forall p HashT :: {p in r} (p in r) == (exists i int :: {publicKeyHashes[i]} 0 <= i && i < len(publicKeyHashes) && publicKeyHashes[i] == p)
	ensures forall p HashT :: {p in r} p in r ==> r[p] == bal(dom(deref(s.utxos).s), p)
	loop 1 (m map[HashT]u64) {
		inv forall p HashT :: {p in m} p in m ==> m[p] == bal(dom(deref(s.utxos).s), p)
	}
}
func State.GetPkhUtxos(s, publicKeyHash, excludeMempool)(r) [C08] {
	requires !isnil(s.utxos) && !isnil(s.mempool) && pkhOK(s.pkhUtxos, dom(deref(s.utxos).s)) && spendsOK(s.mempoolUtxoSpends, dom(deref(s.mempool).s))
	uses pkhOK_def, pending_is, pending_card
	ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] in deref(s.utxos).s && owner(r[i]) == publicKeyHash && !(excludeMempool && pendingSpend(dom(deref(s.mempool).s), r[i]))
	ensures forall i int, j int :: {r[i], r[j]} 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
	ensures forall u Utxo :: {u in deref(s.utxos).s} u in deref(s.utxos).s && owner(u) == publicKeyHash && !(excludeMempool && pendingSpend(dom(deref(s.mempool).s), u)) ==> exists i int :: {r[i]} 0 <= i && i < len(r) && r[i] == u
}
func State.GetManyPkhUtxos(s, publicKeyHashes, excludeMempool)(r) [C08] {
	requires !isnil(s.utxos) && !isnil(s.mempool) && pkhOK(s.pkhUtxos, dom(deref(s.utxos).s)) && spendsOK(s.mempoolUtxoSpends, dom(deref(s.mempool).s))
	ensures forall u Utxo :: {u in r} u in r ==> r[u] == owner(u)
	ensures forall u Utxo :: {u in r} (u in r) == (u in deref(s.utxos).s && !(excludeMempool && pendingSpend(dom(deref(s.mempool).s), u)) && exists i int :: {publicKeyHashes[i]} 0 <= i && i < len(publicKeyHashes) && publicKeyHashes[i] == owner(u))
	loop 0 (m map[Utxo]HashT) {
		inv forall u Utxo :: {u in m} u in m ==> m[u] == owner(u)
		inv forall u Utxo :: {u in m} {u in deref(s.utxos).s} (u in m) == (u in deref(s.utxos).s && !(excludeMempool && pendingSpend(dom(deref(s.mempool).s), u)) && exists i int :: {publicKeyHashes[i]} 0 <= i && i < $k && publicKeyHashes[i] == owner(u))
	}
}

// where the records of a chain point: to the block below its head that has the transaction
hidden lemma iVal_in [C08] (xs []Tx, V arr[HashT]HashT, b HashT, t HashT, k int) induct k {
	requires 0 <= k && k <= len(xs)
	ensures iVal(xs, V, b, k)[t] == ite(inTxs(xs, t, k), b, V[t])
	trigger { iVal(xs, V, b, k)[t] }
}
hidden lemma iDom_is [C08] (xs []Tx, D arr[HashT]bool, t HashT, k int) induct k {
	requires 0 <= k && k <= len(xs)
	ensures iDom(xs, D, k)[t] == (D[t] || inTxs(xs, t, k))
	trigger { iDom(xs, D, k)[t] }
}
spec func stepAt(id HashT) bool
axiom stepAt_def: forall id HashT :: {stepAt(id)} stepAt(id) && anc(id, 1) == parent(id) && (height(id) == height(parent(id)) + 1 ==> ledI(id) == iDom(blockTxs(id), ledI(parent(id)), nTxs(id)) && ledV(id) == iVal(blockTxs(id), ledV(parent(id)), id, nTxs(id)))
hidden lemma incl_step [C08] (S arr[HashT]bool, id HashT, t HashT) {
	requires chained(S) && S[id] && stepAt(id) && ledI(id)[t]
	uses iVal_in, iDom_is
	ensures id != hz() && S[parent(id)] && anc(parent(id), height(id) - 1) == hz() && height(id) == height(parent(id)) + 1 && (ledI(parent(id))[t] || inTxs(blockTxs(id), t, nTxs(id))) && ledV(id)[t] == ite(inTxs(blockTxs(id), t, nTxs(id)), id, ledV(parent(id))[t])
	trigger { chained(S), ledV(id)[t], stepAt(id) }
}
hidden lemma incl_ind [C08] (S arr[HashT]bool, id HashT, t HashT, n int) induct n {
	generalize
	requires chained(S) && S[id] && n == height(id) && stepAt(id) && anc(id, n) == hz() && ledI(id)[t]
	uses incl_step, anc_anc
	ensures S[ledV(id)[t]] && 0 < height(ledV(id)[t]) && height(ledV(id)[t]) <= n && anc(id, n - height(ledV(id)[t])) == ledV(id)[t] && inTxs(blockTxs(ledV(id)[t]), t, nTxs(ledV(id)[t]))
	trigger { chained(S), ledV(id)[t], anc(id, n) }
}
lemma incl_depth [C08] (S arr[HashT]bool, id HashT, t HashT) {
	requires chained(S) && S[id] && stepAt(id) && ledI(id)[t] && anc(id, height(id)) == hz()
	uses incl_ind
	ensures S[ledV(id)[t]] && 0 < height(ledV(id)[t]) && height(ledV(id)[t]) <= height(id) && anc(id, height(id) - height(ledV(id)[t])) == ledV(id)[t] && inTxs(blockTxs(ledV(id)[t]), t, nTxs(ledV(id)[t]))
	trigger { chained(S), ledV(id)[t] }
}

func State.GetTxConfirms(s, txIds)(r) [C08] {
	requires ledgerOK(s)
	uses agree_def, poolOK_def
	ensures "unknown transactions are left out" forall t HashT :: {t in r} (t in r) == (Inv.txs[t] && exists i int :: {txIds[i]} 0 <= i && i < len(txIds) && txIds[i] == t)
	ensures "not included: none" forall t HashT :: {t in r} t in r && !ledI(s.head)[t] ==> r[t] == 0
	shows forall t HashT :: {t in r} t in r && ledI(s.head)[t] ==> r[t] == height(s.head) - height(ledV(s.head)[t]) + 1
	ensures "included: depth below the head plus one" forall t HashT :: {t in r} t in r && ledI(s.head)[t] ==> 0 < r[t] && r[t] <= height(s.head) && anc(s.head, r[t] - 1) == ledV(s.head)[t] && inTxs(blockTxs(ledV(s.head)[t]), t, nTxs(ledV(s.head)[t]))
	loop 1 (m map[HashT]u64) {
		inv forall t HashT :: {t in m} t in m ==> Inv.txs[t]
		inv forall t HashT :: {t in m} t in m && !ledI(s.head)[t] ==> m[t] == 0
		inv forall t HashT :: {t in m} t in m && ledI(s.head)[t] ==> m[t] == height(s.head) - height(ledV(s.head)[t]) + 1
		inv forall t HashT :: {t in m} (t in m) == (Inv.txs[t] && exists i int :: {txIds[i]} 0 <= i && i < $k && txIds[i] == t)
	}
}
func State.GetTxIncludedBlock(s, txIds)(r) [C08] {
	requires ledgerOK(s)
	uses agree_def, poolOK_def
	ensures "exactly the included ones asked for" forall t HashT :: {t in r} (t in r) == (ledI(s.head)[t] && exists i int :: {txIds[i]} 0 <= i && i < len(txIds) && txIds[i] == t)
	ensures forall t HashT :: {t in r} t in r ==> r[t] == ledV(s.head)[t]
	ensures "the block has it" forall t HashT :: {t in r} t in r ==> inTxs(blockTxs(r[t]), t, nTxs(r[t])) && height(r[t]) <= height(s.head) && anc(s.head, height(s.head) - height(r[t])) == r[t]
	loop 1 (m map[HashT]HashT) {
		inv forall t HashT :: {t in m} t in m ==> m[t] == ledV(s.head)[t]
		inv forall t HashT :: {t in m} (t in m) == (ledI(s.head)[t] && exists i int :: {txIds[i]} 0 <= i && i < $k && txIds[i] == t)
	}
}
func State.GetRichList(s, maxLen)(r) [C08] {
	requires !isnil(s.utxos) && pkhOK(s.pkhUtxos, dom(deref(s.utxos).s)) && fits(dom(deref(s.utxos).s))
	uses pkhOK_def
	ensures "as many as asked for, or all" card(r) == min(maxLen, card(s.pkhUtxos))
	ensures forall p HashT :: {p in r} p in r ==> p in s.pkhUtxos && r[p] == bal(dom(deref(s.utxos).s), p)
	ensures "the highest" forall p HashT, q HashT :: {p in r, q in s.pkhUtxos} p in r && q in s.pkhUtxos && !(q in r) ==> bal(dom(deref(s.utxos).s), p) >= bal(dom(deref(s.utxos).s), q)
	loop 1 (m map[HashT]u64) {
		inv forall p HashT :: {p in m} p in m ==> m[p] == bal(dom(deref(s.utxos).s), p)
	}
}
