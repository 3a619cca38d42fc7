// Block rules: pkg/core/verify.go VerifyBlock, difficulty.go, inv.StoreBlock
package base
ghost var $clock int
opaque time.Time = int
// assumption: the clock is sane and does not move within one verification
global invariant "clock" 0 <= $clock && $clock < pow2(62)
extern time.Now()(r) { ensures r == $clock }
extern time.Time.Unix(t)(r) { ensures r == t }

package internal/inv
spec def target(id HashT) int = hval(blockRec(id).Block.Target)
spec def mined(id HashT) int = blockRec(id).Block.MinedTime
spec def workOf(t int) int = (pow2(256) - 1) / t
spec func sumIns(xs []Tx, k int) int fold { base 0 step acc + inVal(xs[k]) }
spec func sumOuts(xs []Tx, k int) int fold { base 0 step acc + outVal(xs[k]) }
lemma sumIns_mono [C02] (xs []Tx, j int, k int) induct k {
	requires 0 <= j && j <= k
	ensures sumIns(xs, j) <= sumIns(xs, k)
	trigger { sumIns(xs, j), sumIns(xs, k) }
}
lemma sumOuts_mono [C02] (xs []Tx, j int, k int) induct k {
	requires 0 <= j && j <= k
	ensures sumOuts(xs, j) <= sumOuts(xs, k)
	trigger { sumOuts(xs, j), sumOuts(xs, k) }
}
// reward plus inputs equals outputs, as true sums
spec def balanced(p Params, xs []Tx) bool = p.BlockReward + sumIns(xs, len(xs)) == sumOuts(xs, len(xs)) && sumOuts(xs, len(xs)) < pow2(64)
// the only coinbase comes first and carries the height
spec def composed(p Params, xs []Tx, h int) bool = 0 < len(xs) && len(xs) <= (p.MaxBlockVSize - 112) / 211 + 2 && xs[0].MinBlock == h && forall i int :: {xs[i]} 0 <= i && i < len(xs) ==> xs[i].IsCoinbase == (i == 0)

// mined times of up to five blocks ending at id (not the root)
spec func lastTimes(id HashT) []u64
axiom lastTimes_def: forall id HashT :: {lastTimes(id)} len(lastTimes(id)) == ite(anc(id, min(4, height(id))) == hz(), min(4, height(id)), min(4, height(id)) + 1) && forall i int :: {lastTimes(id)[i]} 0 <= i && i < len(lastTimes(id)) ==> lastTimes(id)[i] == mined(anc(id, i))
hidden lemma lastTimes_len [C05] (S arr[HashT]bool, id HashT) {
	requires chained(S) && S[id] && id != hz()
	ensures len(lastTimes(id)) == min(5, height(id))
	trigger { chained(S), lastTimes(id) }
	uses anc_root
}
lemma lastTimes_first [C05] (id HashT) {
	ensures anc(id, 0) == id && 0 < len(lastTimes(id)) ==> lastTimes(id)[0] == mined(id)
	trigger { lastTimes(id) }
}
spec def median(xs []u64) int = ite(len(xs) % 2 == 0, (sortasc(xs)[len(xs) / 2 - 1] + sortasc(xs)[len(xs) / 2]) / 2, sortasc(xs)[(len(xs) - 1) / 2])
spec def aboveMedian(prev HashT, t int) bool = prev != hz() ==> t > median(lastTimes(prev))
// the first measured block of the period that the block on prev is the last of
spec def periodFirst(p Params, prev HashT) HashT = anc(prev, height(prev) - max(1, height(prev) + 2 - p.DifficultyPeriod))
spec func periodTimeOK(p Params, prev HashT, t int) bool
hidden axiom periodTimeOK_def: forall p Params, prev HashT, t int :: {periodTimeOK(p, prev, t)} periodTimeOK(p, prev, t) == ((height(prev) + 2) % p.DifficultyPeriod == 0 ==> t > mined(periodFirst(p, prev)))
spec def timeOK(p Params, prev HashT, t int) bool = aboveMedian(prev, t) && periodTimeOK(p, prev, t) && t <= $clock + 3600
// permitted targets
spec def targetOK(p Params, prev HashT, t int) bool = ite(prev == hz(), t == hval(p.OriginalTarget), ite((height(prev) + 1) % p.DifficultyPeriod == 0, target(prev) / 4 <= t && t <= min(target(prev) * 4, hval(p.MaxTarget)), t == target(prev)))
spec def powOK(b Block) bool = hval(blockHash(b)) < hval(b.Target)

// the block with that merkle root mints exactly the reward
spec func balOK(p Params, root HashT) bool
hidden axiom balOK_def: forall p Params, root HashT :: {balOK(p, root)} balOK(p, root) == balanced(p, txsBelow(root))
// stored blocks
spec func blocksGood(p Params, B arr[HashT]bool, M arr[HashT]bool) bool
hidden axiom blocksGood_def: forall p Params, B arr[HashT]bool, M arr[HashT]bool :: {blocksGood(p, B, M)} blocksGood(p, B, M) == ((forall id HashT :: {B[id]} B[id] && id != hz() ==> id == blockHash(blockRec(id).Block) && M[blockRec(id).Block.MerkleRoot] && powOK(blockRec(id).Block) && target(id) <= hval(p.MaxTarget) && mined(id) < pow2(63) && balOK(p, blockRec(id).Block.MerkleRoot)) && (forall id HashT :: {B[parent(id)]} {B[id], blockRec(parent(id))} B[id] && id != hz() ==> work(id) == work(parent(id)) + workOf(target(id)) && periodTimeOK(p, parent(id), mined(id))))
global invariant [C09] "every stored block was verified" blocksGood(Inv.coreParams, Inv.blocks, Inv.merkles)

package pkg/core
func Verifier.VerifyBlockIsolated(v, b)(err) [C04] { ensures (err == nil) == powOK(b) }
func Verifier.VerifyBlock(v, b)(err) [C02,C04,C05,C11] {
	requires v.params == Inv.coreParams
	uses blocksGood_def, periodTimeOK_def
	ensures [C04] "proof of work" err == nil ==> powOK(b)
	ensures [C11] "known parent and merkle root" err == nil ==> Inv.blocks[b.PrevBlockId] && Inv.merkles[b.MerkleRoot]
	ensures [C11] "composition" err == nil ==> composed(v.params, txsBelow(b.MerkleRoot), height(b.PrevBlockId) + 1)
	ensures [C02] "balance" err == nil ==> balanced(v.params, txsBelow(b.MerkleRoot))
	ensures [C11] "size" err == nil ==> merkleRec(b.MerkleRoot).VSize <= v.params.MaxBlockVSize
	ensures [C05] "above the median" err == nil ==> aboveMedian(b.PrevBlockId, b.MinedTime)
	ensures [C05] "last of a period" err == nil ==> periodTimeOK(v.params, b.PrevBlockId, b.MinedTime)
	ensures [C05] "not in the future" err == nil ==> b.MinedTime <= $clock + 3600
	ensures [C04] "target" err == nil ==> targetOK(v.params, b.PrevBlockId, hval(b.Target))
	loop 0 { inv sumIns($xs, $k) + v.params.BlockReward < pow2(64) && sumOuts($xs, $k) < pow2(64) }
}
package internal/inv
// assumption: accumulated work stays below 2^256 (every stored block beat its target by hashing)
axiom pow_feasible: forall b Block :: {blockHash(b)} powOK(b) ==> work(b.PrevBlockId) + workOf(hval(b.Target)) < pow2(256)
hidden lemma blocksGood_moreM [C09] (p Params, B arr[HashT]bool, M arr[HashT]bool, id HashT) {
	requires blocksGood(p, B, M)
	ensures blocksGood(p, B, store(M, id, true))
	uses blocksGood_def
	trigger { blocksGood(p, B, M), store(M, id, true) }
}
func Inv.StoreBlock(inv, b)(err) [C04,C09] {
	modifies Inv.blocks
	uses blocksGood_def, balOK_def
	ensures "stored once, under its id" err == nil ==> !old(Inv.blocks)[blockHash(b)] && Inv.blocks == store(old(Inv.blocks), blockHash(b), true) && blockRec(blockHash(b)).Block == b
	ensures "height and work" err == nil ==> height(blockHash(b)) == height(b.PrevBlockId) + 1 && work(blockHash(b)) == work(b.PrevBlockId) + workOf(hval(b.Target))
	ensures "only after full verification" err == nil ==> powOK(b) && old(Inv.blocks)[b.PrevBlockId] && Inv.merkles[b.MerkleRoot]
	ensures "nothing changes otherwise" err != nil ==> Inv.blocks == old(Inv.blocks)
}
package internal/inv
func Inv.StoreMerkle(inv, n)(err) [C09] {
	modifies Inv.merkles
	uses merklesGood_def, blocksGood_moreM
	ensures (err == nil) == (!old(Inv.merkles)[merkleHash(n)] && merkleOK(Inv.coreParams, old(Inv.merkles), Inv.txs, n))
	ensures err == nil ==> Inv.merkles == store(old(Inv.merkles), merkleHash(n), true) && merkleRec(merkleHash(n)).Merkle == n && merkleRec(merkleHash(n)).VSize == nodeSize(n)
	ensures err != nil ==> Inv.merkles == old(Inv.merkles)
}
// ---- difficulty ----
package pkg/core
// height of the first block measured in head's period
spec def firstHeight(p Params, head HashT) int = ite(height(head) < p.DifficultyPeriod, 1, height(head) - height(head) % p.DifficultyPeriod)
spec def measured(p Params, head HashT) int = height(head) - firstHeight(p, head)
spec def actualTime(p Params, head HashT) int = mined(head) - mined(anc(head, measured(p, head)))
spec def desiredTime(p Params, head HashT) int = p.BlockTargetTime * measured(p, head)
func ExpectedTargetAdjustment(params, inv, head)(actual, desired, err) [C05] {
	requires Inv.blocks[head] && !isnil(inv)
	uses imul_bound
	ensures (err == nil) == (height(head) >= 2 && height(head) % params.DifficultyPeriod != 0 && actualTime(params, head) > 0)
	ensures err == nil ==> actual == actualTime(params, head) && desired == desiredTime(params, head)
}
spec def scaled(p Params, prev HashT) int = min(target(prev) * actualTime(p, prev) / desiredTime(p, prev), pow2(256) - 1)
spec def maxNext(p Params, prev HashT) int = min(target(prev) * 4, hval(p.MaxTarget))
package internal/inv
// at the head of a finished period, the measured stretch is the one its mined time was checked against
hidden lemma period_index [C05] (p Params, S arr[HashT]bool, id HashT) {
	requires chained(S) && S[id] && id != hz() && (height(id) + 1) % p.DifficultyPeriod == 0
	ensures height(id) == height(parent(id)) + 1 && height(id) >= 3 && height(id) % p.DifficultyPeriod == p.DifficultyPeriod - 1
	ensures (height(parent(id)) + 2) % p.DifficultyPeriod == 0
	ensures measured(p, id) == 1 + (height(parent(id)) - max(1, height(parent(id)) + 2 - p.DifficultyPeriod)) && measured(p, id) >= 1
	trigger { chained(S), S[id], p.DifficultyPeriod }
	uses imod_succ
}
hidden lemma anc_shift [C10] (id HashT, k int) induct k {
	requires 0 <= k
	ensures anc(parent(id), k) == anc(id, k + 1)
	trigger { anc(parent(id), k) }
}
hidden lemma period_first [C05] (p Params, S arr[HashT]bool, id HashT) {
	requires chained(S) && S[id] && id != hz() && (height(id) + 1) % p.DifficultyPeriod == 0
	ensures periodFirst(p, parent(id)) == anc(id, measured(p, id))
	trigger { chained(S), S[id], p.DifficultyPeriod }
	uses period_index, anc_shift
}
hidden lemma period_time [C05] (p Params, S arr[HashT]bool, M arr[HashT]bool, id HashT) {
	requires chained(S) && blocksGood(p, S, M) && S[id] && id != hz() && (height(id) + 1) % p.DifficultyPeriod == 0
	ensures height(id) >= 3 && height(id) % p.DifficultyPeriod != 0 && actualTime(p, id) > 0 && measured(p, id) >= 1
	trigger { chained(S), blocksGood(p, S, M), S[id] }
	uses period_index, period_first, blocksGood_def, periodTimeOK_def
}
package pkg/core
func NextTarget(params, inv, prev)(r) [C04,C05] {
	requires Inv.blocks[prev] && !isnil(inv) && params == Inv.coreParams
	uses blocksGood_def, period_time
	ensures "permitted by the rules" targetOK(params, prev, hval(r))
	ensures "scaled by actual over desired time, clamped" prev != hz() && (height(prev) + 1) % params.DifficultyPeriod == 0 ==> hval(r) == min(max(scaled(params, prev), target(prev) / 4), maxNext(params, prev))
}
