// Hashing: ids commit to every field.
package pkg/core

// SHA-256 is an uninterpreted function; sha_collision() says that two
// different inputs with the same digest exist among those considered.
spec func sha(b bytes) B32
spec func sha_collision() bool
hidden axiom sha_injective: forall x bytes, y bytes :: {sha(x), sha(y)} sha(x) == sha(y) ==> x == y || sha_collision()
axiom b32bytes_len: forall b B32 :: {b32bytes(b)} len(b32bytes(b)) == 32 && b32of(b32bytes(b)) == b

extern crypto/sha256.Sum256(data)(r) { ensures r == sha(data) }

spec func be64(x u64) bytes
axiom be64_val: forall x u64 :: {be64(x)} len(be64(x)) == 8 && beval(be64(x)) == x
extern encoding/binary.bigEndian.PutUint64(e, b, v) {
	requires len(b) >= 8
	modifies b
	ensures len(old(b)) == 8 ==> b == be64(v)
}

spec def dh(b bytes) HashT = HashT(sha(b32bytes(sha(b))))
spec func hcat(hs []HashT, k int) bytes fold { base zerobytes(32 * len(hs)) step acc + b32bytes(hs[k].data) }
// hash of a list of hashes
spec func hlist(hs []HashT) HashT
hidden axiom hlist_def: forall hs []HashT :: {hcat(hs, len(hs))} hlist(hs) == dh(hcat(hs, len(hs)))

hidden lemma hcat_len [C23] (hs []HashT, k int) induct k {
	requires 0 <= k && k <= len(hs)
	ensures len(hcat(hs, k)) == 32 * len(hs) + 32 * k
	trigger { hcat(hs, k) }
}
hidden lemma hcat_at [C23] (hs []HashT, k int, j int, i int) induct k {
	requires 0 <= j && j < k && k <= len(hs) && 0 <= i && i < 32
	ensures hcat(hs, k)[32 * len(hs) + 32 * j + i] == b32bytes(hs[j].data)[i]
	uses hcat_len
}

func DHashBytes(content)(r) [C23] { ensures r == dh(content) }
func DHashUint64(content)(r) [C23] { ensures r == dh(be64(content)) }
func DHashHashes(items)(r) [C23] { uses hlist_def, hcat_len  free requires len(items) < pow2(40)  ensures r == hlist(items) }

hidden lemma hcat_injective [C23] (a []HashT, b []HashT) {
	requires len(a) == len(b) && hcat(a, len(a)) == hcat(b, len(b))
	ensures forall j int :: {a[j]} {b[j]} 0 <= j && j < len(a) ==> forall i int :: {b32bytes(a[j].data)[i]} {b32bytes(b[j].data)[i]} 0 <= i && i < 32 ==> b32bytes(a[j].data)[i] == b32bytes(b[j].data)[i]
	uses hcat_at, hcat_len
}
hidden lemma b32_pointwise [C23] (a B32, b B32) {
	requires forall i int :: {b32bytes(a)[i]} {b32bytes(b)[i]} 0 <= i && i < 32 ==> b32bytes(a)[i] == b32bytes(b)[i]
	ensures a == b
	trigger { b32bytes(a), b32bytes(b) }
}
hidden lemma hlist_injective [C23] (a []HashT, b []HashT) {
	requires hlist(a) == hlist(b) && len(hcat(a, len(a))) == 64 * len(a) && len(hcat(b, len(b))) == 64 * len(b)
	ensures a == b || sha_collision()
	trigger { hlist(a), hlist(b) }
	uses sha_injective, hlist_def, hcat_injective, hcat_len, b32_pointwise
}

// ---- ids ----
spec def dhu(x u64) HashT = dh(be64(x))
spec def dhbool(b bool) HashT = dh(ite(b, [0], [1]))
spec func merkleHash(n MerkleNode) HashT
hidden axiom merkleHash_def: forall n MerkleNode :: {merkleHash(n)} merkleHash(n) == hlist([n.LChild, n.RChild])
spec func blockHash(b Block) HashT
hidden axiom blockHash_def: forall b Block :: {blockHash(b)} blockHash(b) == hlist([b.PrevBlockId, b.MerkleRoot, b.Target, b.Noise, dhu(b.Nonce)])
spec func utxoHash(u Utxo) HashT
hidden axiom utxoHash_def: forall u Utxo :: {utxoHash(u)} utxoHash(u) == hlist([u.TxId, dhu(u.Ind), dhu(u.Value)])
spec func txInHash(i TxIn) HashT
hidden axiom txInHash_def: forall i TxIn :: {txInHash(i)} txInHash(i) == hlist([utxoHash(i.Utxo), dh(i.PublicKey), dh(i.Signature)])
spec func txOutHash(o TxOut) HashT
hidden axiom txOutHash_def: forall o TxOut :: {txOutHash(o)} txOutHash(o) == hlist([dhu(o.Value), o.PublicKeyHash])
spec func insHashes(xs []TxIn) []HashT
axiom insHashes_def: forall xs []TxIn :: {insHashes(xs)} len(insHashes(xs)) == len(xs) && forall i int :: {insHashes(xs)[i]} 0 <= i && i < len(xs) ==> insHashes(xs)[i] == txInHash(xs[i])
spec func outsHashes(xs []TxOut) []HashT
axiom outsHashes_def: forall xs []TxOut :: {outsHashes(xs)} len(outsHashes(xs)) == len(xs) && forall i int :: {outsHashes(xs)[i]} 0 <= i && i < len(xs) ==> outsHashes(xs)[i] == txOutHash(xs[i])
spec func txHash(t Tx) HashT
hidden axiom txHash_def: forall t Tx :: {txHash(t)} txHash(t) == hlist([dhbool(t.IsCoinbase), dhu(t.MinBlock), hlist(insHashes(t.Inputs)), hlist(outsHashes(t.Outputs))])
spec func preSigHash(minBlock u64, outs []TxOut) HashT
hidden axiom preSigHash_def: forall minBlock u64, outs []TxOut :: {preSigHash(minBlock, outs)} preSigHash(minBlock, outs) == hlist([dhu(minBlock), hlist(outsHashes(outs))])

inline func DHashBool(content)(r) {}
inline func DHashAny(content)(r) {}
inline func DHashVarious(items)(r) {}
inline func DHashList(items)(r) {}
func MerkleNode.Hash(n)(r) [C23] { uses merkleHash_def  ensures r == merkleHash(n) }
func Block.Hash(b)(r) [C23] { uses blockHash_def  ensures r == blockHash(b) }
func Utxo.Hash(u)(r) [C23] { uses utxoHash_def  ensures r == utxoHash(u) }
func TxIn.Hash(i)(r) [C23] { uses txInHash_def  ensures r == txInHash(i) }
func TxOut.Hash(o)(r) [C23] { uses txOutHash_def  ensures r == txOutHash(o) }
func Tx.Hash(t)(r) [C23] { uses txHash_def  shows r == hlist([dhbool(t.IsCoinbase), dhu(t.MinBlock), hlist(insHashes(t.Inputs)), hlist(outsHashes(t.Outputs))])  ensures r == txHash(t) }
func TxHashPreSig(m, outs)(r) [C03,C23] { uses preSigHash_def  shows r == hlist([dhu(m), hlist(outsHashes(outs))])  ensures r == preSigHash(m, outs) }

// equal ids mean equal content, for every kind of entity
hidden lemma be64_injective [C23] (x u64, y u64) {
	requires dhu(x) == dhu(y)
	ensures x == y || sha_collision()
	trigger { be64(x), be64(y) }
	uses sha_injective
}
hidden lemma merkle_id_commits [C23] (a MerkleNode, b MerkleNode) {
	requires merkleHash(a) == merkleHash(b)
	ensures a == b || sha_collision()
	uses merkleHash_def, hlist_injective, hcat_len
	trigger { merkleHash(a), merkleHash(b) }
}
hidden lemma utxo_id_commits [C23] (a Utxo, b Utxo) {
	requires utxoHash(a) == utxoHash(b)
	ensures a == b || sha_collision()
	uses utxoHash_def, hlist_injective, be64_injective, hcat_len
	trigger { utxoHash(a), utxoHash(b) }
}
hidden lemma txout_id_commits [C23] (a TxOut, b TxOut) {
	requires txOutHash(a) == txOutHash(b)
	ensures a == b || sha_collision()
	uses txOutHash_def, hlist_injective, be64_injective, hcat_len
	trigger { txOutHash(a), txOutHash(b) }
}
hidden lemma txin_id_commits [C23] (a TxIn, b TxIn) {
	requires txInHash(a) == txInHash(b)
	ensures a == b || sha_collision()
	uses txInHash_def, sha_injective, hlist_injective, hcat_len, utxo_id_commits
	trigger { txInHash(a), txInHash(b) }
}
hidden lemma ins_commit [C23] (a []TxIn, b []TxIn) {
	requires insHashes(a) == insHashes(b)
	ensures a == b || sha_collision()
	trigger { insHashes(a), insHashes(b) }
	uses txin_id_commits
}
hidden lemma outs_commit [C23] (a []TxOut, b []TxOut) {
	requires outsHashes(a) == outsHashes(b)
	ensures a == b || sha_collision()
	trigger { outsHashes(a), outsHashes(b) }
	uses txout_id_commits
}
hidden lemma tx_id_commits [C23] (a Tx, b Tx) {
	requires txHash(a) == txHash(b)
	ensures a == b || sha_collision()
	uses txHash_def, sha_injective, hlist_injective, be64_injective, hcat_len, ins_commit, outs_commit
	trigger { txHash(a), txHash(b) }
}
hidden lemma presig_commits [C03,C23] (m u64, a []TxOut, n u64, b []TxOut) {
	requires preSigHash(m, a) == preSigHash(n, b)
	ensures m == n && a == b || sha_collision()
	uses preSigHash_def, hlist_injective, be64_injective, hcat_len, outs_commit
}
// everything but MinedTime (see known_findings.txt)
hidden lemma block_id_commits [C23] (a Block, b Block) {
	requires blockHash(a) == blockHash(b)
	ensures a.PrevBlockId == b.PrevBlockId && a.MerkleRoot == b.MerkleRoot && a.Target == b.Target && a.Noise == b.Noise && a.Nonce == b.Nonce || sha_collision()
	uses blockHash_def, hlist_injective, be64_injective, hcat_len
	trigger { blockHash(a), blockHash(b) }
}
lemma finding_block_time_commits [C23] (a Block, b Block) {
	requires blockHash(a) == blockHash(b)
	ensures a.MinedTime == b.MinedTime || sha_collision()
	uses blockHash_def
}
