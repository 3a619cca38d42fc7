// internal/peer/sync.go: a chain received from a peer is checked before its contents are fetched.
package internal/peer
spec func newWork(bs []Block, k int) int fold { base 0 step acc + workOf(hval(bs[k].Target)) }
// bs is a chain from newHead (first) down to a child of lca (last), with the work it claims, and more than the head's
spec def chainGiven(bs []Block, newHead HashT, lca HashT) bool = len(bs) > 0 && blockHash(bs[0]) == newHead && bs[len(bs) - 1].PrevBlockId == lca && forall i int :: {bs[i]} 0 <= i && i < len(bs) - 1 ==> bs[i].PrevBlockId == blockHash(bs[i + 1])
spec def worked(bs []Block) bool = forall i int :: {bs[i]} 0 <= i && i < len(bs) ==> hval(blockHash(bs[i])) < hval(bs[i].Target)
hidden lemma newWork_part [C21] (bs []Block, k int, n int) induct n {
	requires 0 <= k && k <= n && n <= len(bs) && forall i int :: {bs[i]} 0 <= i && i < len(bs) ==> hval(bs[i].Target) > 0
	ensures newWork(bs, k) <= newWork(bs, n)
	trigger { newWork(bs, k), newWork(bs, n) }
}
func Peer.quickVerifyChain(p, newHead, lcaId, newBlocks)(err) [C21] {
	requires !isnil(p.inv) && Inv.blocks[lcaId] && Inv.blocks[p.curHead] && len(newBlocks) > 0
	free requires "total work below 2^256" worked(newBlocks) ==> work(lcaId) + newWork(newBlocks, len(newBlocks)) < pow2(256)
	uses newWork_part
	ensures "accepted only if it is one" err == nil ==> chainGiven(newBlocks, newHead, lcaId) && worked(newBlocks) && work(lcaId) + newWork(newBlocks, len(newBlocks)) > work(p.curHead)
	ensures "such a chain is accepted" chainGiven(newBlocks, newHead, lcaId) && worked(newBlocks) && work(lcaId) + newWork(newBlocks, len(newBlocks)) > work(p.curHead) ==> err == nil
	loop 1 (v HashT) {
		inv hval(v) == work(lcaId) + newWork($xs, $k)
	}
}
