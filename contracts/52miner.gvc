// internal/miner: the block template built from what the node offers.
package pkg/util
func Prepend(ls, items)(r) [C15] {
	ensures len(items) == 1 ==> len(r) == len(ls) + 1 && r[0] == items[0]
	ensures len(items) == 1 ==> forall i int :: {r[i]} 1 <= i && i < len(r) ==> r[i] == ls[i - 1]
	loop 1 (v []K) {
		inv $k == 0 ==> v == ls
		inv $k == 1 ==> len(v) == len(ls) + 1 && v[0] == $xs[0]
		inv $k == 1 ==> forall i int :: {v[i]} 1 <= i && i < len(v) ==> v[i] == ls[i - 1]
	}
}
package pkg/core
trusted func NewHashTRand()(r) { }
// the root and the nodes of the tree over a list of ids; checked for every length up to a bound by the harness only
spec func treeRoot(ids []HashT) HashT
trusted func MerkleFromTxIds(txIds)(nodes, order) {
	requires len(txIds) > 0
	ensures len(order) > 0 && order[len(order) - 1] == treeRoot(txIds)
	ensures forall i int :: {order[i]} 0 <= i && i < len(order) ==> order[i] in nodes && merkleHash(nodes[order[i]]) == order[i]
}
package internal/miner
// what the transactions pay above what they spend
spec func feeSum(ids []HashT, k int) int fold { base 0 step acc + inVal(txRec(ids[k]).Tx) - outVal(txRec(ids[k]).Tx) }
spec def onTop(c HashT, ids []HashT, all []HashT) bool = len(all) == len(ids) + 1 && all[0] == c && forall i int :: {all[i]} 1 <= i && i < len(all) ==> all[i] == ids[i - 1]
func Miner.updateTemplate(m, head, target, txIds) [C15] {
	requires !isnil(m.inv) && Inv.blocks[head] && forall i int :: {txIds[i]} 0 <= i && i < len(txIds) ==> Inv.txs[txIds[i]] && !txRec(txIds[i]).Tx.IsCoinbase
	modifies m
	uses txsGood_def, txOK_def, txAlone_def
	ensures m.template != nil && m.outCoinbase != nil
	ensures "right parent and target" deref(m.template).PrevBlockId == head && deref(m.template).Target == target
	ensures "coinbase at the next height" deref(m.outCoinbase).IsCoinbase && deref(m.outCoinbase).MinBlock == height(head) + 1 && len(deref(m.outCoinbase).Inputs) == 0 && len(deref(m.outCoinbase).Outputs) == 1
	ensures "pays reward plus fees" deref(m.outCoinbase).Outputs[0].Value == wrap64(feeSum(txIds, len(txIds)) + Inv.coreParams.BlockReward) && deref(m.outCoinbase).Outputs[0].PublicKeyHash == m.params.PayoutPkh
	ensures "tree over coinbase and list" exists all []HashT :: {treeRoot(all)} deref(m.template).MerkleRoot == treeRoot(all) && onTop(txHash(deref(m.outCoinbase)), txIds, all)
	ensures "its nodes" len(m.outMerkles) > 0 && merkleHash(m.outMerkles[len(m.outMerkles) - 1]) == deref(m.template).MerkleRoot
	ensures m.params == old(m.params) && m.bus == old(m.bus) && m.inv == old(m.inv)
}

// only a header whose id is below its target may be published
func Miner.publishSolution(m) [C15] {
	requires m.template != nil && m.outCoinbase != nil && m.bus != nil && m.bus.CandidateHead != nil
	requires "has the work" hval(blockHash(deref(m.template))) < hval(deref(m.template).Target)
	modifies $pubs, $said
	ensures "announced once" $pubs == store(old($pubs), m.bus.CandidateHead, old($pubs)[m.bus.CandidateHead] + 1)
	ensures "the block with its parts" exists e CandidateHeadEvent :: {box(e)} $said == store(old($said), m.bus.CandidateHead, box(e)) && e.Head == blockHash(deref(m.template)) && len(e.Blocks) == 1 && e.Blocks[0] == deref(m.template) && e.Merkles == m.outMerkles && len(e.Txs) == 1 && e.Txs[0] == deref(m.outCoinbase)
}
// searching changes nothing but the nonce and the noise
func Miner.mine(m, rounds) [C15] {
	requires m.template != nil && m.outCoinbase != nil && m.bus != nil && m.bus.CandidateHead != nil
	modifies m, $pubs, $said
	ensures m.template != nil && m.outCoinbase == old(m.outCoinbase) && m.outMerkles == old(m.outMerkles) && m.bus == old(m.bus) && m.params == old(m.params) && m.inv == old(m.inv)
	ensures "same work" deref(m.template).PrevBlockId == old(deref(m.template).PrevBlockId) && deref(m.template).MerkleRoot == old(deref(m.template).MerkleRoot) && deref(m.template).Target == old(deref(m.template).Target) && deref(m.template).MinedTime == old(deref(m.template).MinedTime)
	loop 1 {
		inv m.template != nil && deref(m.template).PrevBlockId == old(deref(m.template).PrevBlockId) && deref(m.template).MerkleRoot == old(deref(m.template).MerkleRoot) && deref(m.template).Target == old(deref(m.template).Target) && deref(m.template).MinedTime == old(deref(m.template).MinedTime)
	}
}
