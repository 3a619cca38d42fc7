// pkg/prot: what goes over a connection.
// rdS(c) and wrS(c) name the byte streams in either direction, wire(s, p, n) their bytes p..p+n-1;
// positions only grow, so what a stream holds anywhere is one value for all time.
package pkg/prot
ref net.TCPConn
ref pkg/prot.Conn
spec func rdS(c ref) int
spec func wrS(c ref) int
spec func wire(s int, p int, n int) bytes
axiom wire_len: forall s int, p int, n int :: {wire(s, p, n)} 0 <= n && n < pow2(40) ==> len(wire(s, p, n)) == n
// how far each stream has been read and written, and whether the transport failed
ghost var $rpos arr[ref]int
ghost var $wpos arr[ref]int
ghost var $down arr[ref]bool
extern net.conn.SetReadDeadline(c, t)(err) { }
extern net.conn.SetWriteDeadline(c, t)(err) { }
extern time.Time.Add(t, d)(r) { }
extern io.ReadFull(r, buf)(n, err) {
	modifies buf, $rpos, $down
	ensures len(buf) == len(old(buf))
	ensures forall c ref :: {asiface(c, r)} {rdS(c)} {$down[c]} r == asiface(c, r) ==> ite(err == nil, buf == wire(rdS(c), old($rpos)[c], len(buf)) && $rpos == store(old($rpos), c, old($rpos)[c] + len(buf)) && $down == old($down), $down == store(old($down), c, true) && $rpos == old($rpos))
}
extern net.conn.Write(c, b)(n, err) {
	modifies $wpos, $down
	ensures ite(err == nil, wire(wrS(c), old($wpos)[c], len(b)) == b && $wpos == store(old($wpos), c, old($wpos)[c] + len(b)) && $down == old($down), $down == store(old($down), c, true) && $wpos == old($wpos))
}
extern encoding/binary.bigEndian.Uint64(e, b)(r) { requires len(b) >= 8  ensures len(b) == 8 ==> r == beval(b) }
extern encoding/binary.bigEndian.Uint16(e, b)(r) { requires len(b) >= 2  ensures len(b) == 2 ==> r == beval(b) }
spec func be16(x int) bytes
axiom be16_val: forall x int :: {be16(x)} 0 <= x && x < 65536 ==> len(be16(x)) == 2 && beval(be16(x)) == x
extern encoding/binary.bigEndian.PutUint16(e, b, v) {
	requires len(b) >= 2
	modifies b
	ensures len(old(b)) == 2 ==> b == be16(v)
}
// what the bytes at a position say
spec def u64At(s int, p int, v int) bool = beval(wire(s, p, 8)) == v
spec def hashAt(s int, p int, h HashT) bool = h.data == b32of(wire(s, p, 32))
spec def boolAt(s int, p int, b bool) bool = wire(s, p, 1)[0] == ite(b, 1, 0)
spec def bytesAt(s int, p int, b bytes) bool = beval(wire(s, p, 2)) == len(b) && wire(s, p + 2, len(b)) == b
spec def strAt(s int, p int, t str) bool = bytesAt(s, p, bytesOf(t))
spec def blockAt(s int, p int, b Block) bool = hashAt(s, p, b.PrevBlockId) && hashAt(s, p + 32, b.MerkleRoot) && hashAt(s, p + 64, b.Target) && hashAt(s, p + 96, b.Noise) && u64At(s, p + 128, b.Nonce) && u64At(s, p + 136, b.MinedTime)
spec def merkleAt(s int, p int, m MerkleNode) bool = hashAt(s, p, m.LChild) && hashAt(s, p + 32, m.RChild)
optional func Conn.readRawTimeout(c, numBytes, timeout)(r) [C12] {
	requires c.tc != nil
	modifies c.err, $rpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> len(r) == 0 && c.err == old(c.err) && $rpos == old($rpos) && $down == old($down)
	ensures "reads exactly what was sent" c.err == nil ==> old(c.err) == nil && r == wire(rdS(c.tc), old($rpos)[c.tc], numBytes) && $rpos == store(old($rpos), c.tc, old($rpos)[c.tc] + numBytes) && $down == old($down)
	ensures "nothing else fails, and then the result is empty" c.err != nil && old(c.err) == nil ==> len(r) == 0 && ($down[c.tc])
}
func Conn.ReadTimeout(c, timeout)(r) [C12] {
	requires c.tc != nil
	modifies c.err, $rpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> len(r) == 0 && c.err == old(c.err) && $rpos == old($rpos) && $down == old($down)
	ensures "reads exactly what was sent" c.err == nil ==> old(c.err) == nil && bytesAt(rdS(c.tc), old($rpos)[c.tc], r) && $rpos == store(old($rpos), c.tc, old($rpos)[c.tc] + 2 + len(r)) && $down == old($down)
	ensures "nothing else fails, and then the result is empty" c.err != nil && old(c.err) == nil ==> len(r) == 0 && ($down[c.tc])
}
func Conn.Read(c)(r) [C12] {
	requires c.tc != nil
	modifies c.err, $rpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> len(r) == 0 && c.err == old(c.err) && $rpos == old($rpos) && $down == old($down)
	ensures "reads exactly what was sent" c.err == nil ==> old(c.err) == nil && bytesAt(rdS(c.tc), old($rpos)[c.tc], r) && $rpos == store(old($rpos), c.tc, old($rpos)[c.tc] + 2 + len(r)) && $down == old($down)
	ensures "nothing else fails, and then the result is empty" c.err != nil && old(c.err) == nil ==> len(r) == 0 && ($down[c.tc])
}
func Conn.ReadString(c)(r) [C12] {
	requires c.tc != nil
	modifies c.err, $rpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> r == zeroof(r) && c.err == old(c.err) && $rpos == old($rpos) && $down == old($down)
	ensures "reads exactly what was sent" c.err == nil ==> old(c.err) == nil && strAt(rdS(c.tc), old($rpos)[c.tc], r) && $rpos == store(old($rpos), c.tc, old($rpos)[c.tc] + 2 + len(bytesOf(r))) && $down == old($down)
	ensures "nothing else fails, and then the result is empty" c.err != nil && old(c.err) == nil ==> r == zeroof(r) && ($down[c.tc])
}
func Conn.ReadUint64(c)(r) [C12] {
	requires c.tc != nil
	modifies c.err, $rpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> r == 0 && c.err == old(c.err) && $rpos == old($rpos) && $down == old($down)
	ensures "reads exactly what was sent" c.err == nil ==> old(c.err) == nil && u64At(rdS(c.tc), old($rpos)[c.tc], r) && $rpos == store(old($rpos), c.tc, old($rpos)[c.tc] + 8) && $down == old($down)
	ensures "nothing else fails, and then the result is empty" c.err != nil && old(c.err) == nil ==> r == 0 && ($down[c.tc])
}
func Conn.ReadBool(c)(r) [C12] {
	requires c.tc != nil
	modifies c.err, $rpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> !r && c.err == old(c.err) && $rpos == old($rpos) && $down == old($down)
	ensures "reads exactly what was sent" c.err == nil ==> old(c.err) == nil && boolAt(rdS(c.tc), old($rpos)[c.tc], r) && $rpos == store(old($rpos), c.tc, old($rpos)[c.tc] + 1) && $down == old($down)
	ensures "nothing else fails, and then the result is empty" c.err != nil && old(c.err) == nil ==> !r && ($down[c.tc] || !(boolAt(rdS(c.tc), old($rpos)[c.tc], true) || boolAt(rdS(c.tc), old($rpos)[c.tc], false)))
}
func Conn.ReadHashT(c)(r) [C12] {
	requires c.tc != nil
	modifies c.err, $rpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> r == hz() && c.err == old(c.err) && $rpos == old($rpos) && $down == old($down)
	ensures "reads exactly what was sent" c.err == nil ==> old(c.err) == nil && hashAt(rdS(c.tc), old($rpos)[c.tc], r) && $rpos == store(old($rpos), c.tc, old($rpos)[c.tc] + 32) && $down == old($down)
	ensures "nothing else fails, and then the result is empty" c.err != nil && old(c.err) == nil ==> r == hz() && ($down[c.tc])
}
func Conn.ReadBlock(c, expectId)(r) [C12] {
	requires c.tc != nil
	modifies c.err, $rpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> r == zeroof(r) && c.err == old(c.err) && $rpos == old($rpos) && $down == old($down)
	ensures "reads exactly what was sent" c.err == nil ==> old(c.err) == nil && blockAt(rdS(c.tc), old($rpos)[c.tc], r) && blockHash(r) == expectId && $rpos == store(old($rpos), c.tc, old($rpos)[c.tc] + 144) && $down == old($down)
	ensures "nothing else fails, and then the result is empty" c.err != nil && old(c.err) == nil ==> r == zeroof(r) && ($down[c.tc] || !(exists b Block :: {blockHash(b)} blockAt(rdS(c.tc), old($rpos)[c.tc], b) && blockHash(b) == expectId))
}
func Conn.ReadMerkle(c, expectId)(r) [C12] {
	requires c.tc != nil
	modifies c.err, $rpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> r == zeroof(r) && c.err == old(c.err) && $rpos == old($rpos) && $down == old($down)
	ensures "reads exactly what was sent" c.err == nil ==> old(c.err) == nil && merkleAt(rdS(c.tc), old($rpos)[c.tc], r) && merkleHash(r) == expectId && $rpos == store(old($rpos), c.tc, old($rpos)[c.tc] + 64) && $down == old($down)
	ensures "nothing else fails, and then the result is empty" c.err != nil && old(c.err) == nil ==> r == zeroof(r) && ($down[c.tc] || !(exists m MerkleNode :: {merkleHash(m)} merkleAt(rdS(c.tc), old($rpos)[c.tc], m) && merkleHash(m) == expectId))
}
optional func Conn.writeRawTimeout(c, data, timeout) [C12] {
	requires c.tc != nil
	modifies c.err, $wpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> c.err == old(c.err) && $wpos == old($wpos) && $down == old($down)
	ensures "writes exactly the encoding" c.err == nil ==> old(c.err) == nil && wire(wrS(c.tc), old($wpos)[c.tc], len(data)) == data && $wpos == store(old($wpos), c.tc, old($wpos)[c.tc] + len(data)) && $down == old($down)
	ensures "refuses only what is too long" c.err != nil && old(c.err) == nil ==> $down[c.tc] || !(len(data) <= 65536) && $wpos == old($wpos)
	ensures "refused, not cut" c.err == nil ==> len(data) <= 65536
}
func Conn.Write(c, data) [C12] {
	requires c.tc != nil
	modifies c.err, $wpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> c.err == old(c.err) && $wpos == old($wpos) && $down == old($down)
	ensures "writes exactly the encoding" c.err == nil ==> old(c.err) == nil && bytesAt(wrS(c.tc), old($wpos)[c.tc], data) && $wpos == store(old($wpos), c.tc, old($wpos)[c.tc] + 2 + len(data)) && $down == old($down)
	ensures "refuses only what is too long" c.err != nil && old(c.err) == nil ==> $down[c.tc] || !(len(data) <= 65535) && $wpos == old($wpos)
	ensures "refused, not cut" c.err == nil ==> len(data) <= 65535
}
func Conn.WriteString(c, data) [C12] {
	requires c.tc != nil
	modifies c.err, $wpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> c.err == old(c.err) && $wpos == old($wpos) && $down == old($down)
	ensures "writes exactly the encoding" c.err == nil ==> old(c.err) == nil && strAt(wrS(c.tc), old($wpos)[c.tc], data) && $wpos == store(old($wpos), c.tc, old($wpos)[c.tc] + 2 + len(bytesOf(data))) && $down == old($down)
	ensures "refuses only what is too long" c.err != nil && old(c.err) == nil ==> $down[c.tc] || !(len(bytesOf(data)) <= 65535) && $wpos == old($wpos)
	ensures "refused, not cut" c.err == nil ==> len(bytesOf(data)) <= 65535
}
func Conn.WriteUint64(c, data) [C12] {
	requires c.tc != nil
	modifies c.err, $wpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> c.err == old(c.err) && $wpos == old($wpos) && $down == old($down)
	ensures "writes exactly the encoding" c.err == nil ==> old(c.err) == nil && u64At(wrS(c.tc), old($wpos)[c.tc], data) && $wpos == store(old($wpos), c.tc, old($wpos)[c.tc] + 8) && $down == old($down)
	ensures "refuses only what is too long" c.err != nil && old(c.err) == nil ==> $down[c.tc]

}
func Conn.WriteBool(c, data) [C12] {
	requires c.tc != nil
	modifies c.err, $wpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> c.err == old(c.err) && $wpos == old($wpos) && $down == old($down)
	ensures "writes exactly the encoding" c.err == nil ==> old(c.err) == nil && boolAt(wrS(c.tc), old($wpos)[c.tc], data) && $wpos == store(old($wpos), c.tc, old($wpos)[c.tc] + 1) && $down == old($down)
	ensures "refuses only what is too long" c.err != nil && old(c.err) == nil ==> $down[c.tc]

}
func Conn.WriteHashT(c, data) [C12] {
	requires c.tc != nil
	modifies c.err, $wpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> c.err == old(c.err) && $wpos == old($wpos) && $down == old($down)
	ensures "writes exactly the encoding" c.err == nil ==> old(c.err) == nil && hashAt(wrS(c.tc), old($wpos)[c.tc], data) && $wpos == store(old($wpos), c.tc, old($wpos)[c.tc] + 32) && $down == old($down)
	ensures "refuses only what is too long" c.err != nil && old(c.err) == nil ==> $down[c.tc]

}
func Conn.WriteBlock(c, data) [C12] {
	requires c.tc != nil
	modifies c.err, $wpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> c.err == old(c.err) && $wpos == old($wpos) && $down == old($down)
	ensures "writes exactly the encoding" c.err == nil ==> old(c.err) == nil && blockAt(wrS(c.tc), old($wpos)[c.tc], data) && $wpos == store(old($wpos), c.tc, old($wpos)[c.tc] + 144) && $down == old($down)
	ensures "refuses only what is too long" c.err != nil && old(c.err) == nil ==> $down[c.tc]

}
func Conn.WriteMerkle(c, data) [C12] {
	requires c.tc != nil
	modifies c.err, $wpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> c.err == old(c.err) && $wpos == old($wpos) && $down == old($down)
	ensures "writes exactly the encoding" c.err == nil ==> old(c.err) == nil && merkleAt(wrS(c.tc), old($wpos)[c.tc], data) && $wpos == store(old($wpos), c.tc, old($wpos)[c.tc] + 64) && $down == old($down)
	ensures "refuses only what is too long" c.err != nil && old(c.err) == nil ==> $down[c.tc]

}
// transactions
spec func insLen(xs []TxIn, k int) int fold { base 0 step acc + 52 + len(xs[k].PublicKey) + len(xs[k].Signature) }
spec def txInAt(s int, p int, i TxIn) bool = hashAt(s, p, i.Utxo.TxId) && u64At(s, p + 32, i.Utxo.Ind) && u64At(s, p + 40, i.Utxo.Value) && bytesAt(s, p + 48, i.PublicKey) && bytesAt(s, p + 50 + len(i.PublicKey), i.Signature)
spec def txOutAt(s int, p int, o TxOut) bool = u64At(s, p, o.Value) && hashAt(s, p + 8, o.PublicKeyHash)
spec func insAt(s int, p int, xs []TxIn, k int) bool fold { base true step acc && txInAt(s, p + insLen(xs, k), xs[k]) }
spec func outsAt(s int, p int, xs []TxOut, k int) bool fold { base true step acc && txOutAt(s, p + 40 * k, xs[k]) }
spec def txLen(t Tx) int = 25 + insLen(t.Inputs, len(t.Inputs)) + 40 * len(t.Outputs)
spec def txHdrAt(s int, p int, t Tx) bool = boolAt(s, p, t.IsCoinbase) && u64At(s, p + 1, t.MinBlock) && u64At(s, p + 9, len(t.Inputs)) && u64At(s, p + 17, len(t.Outputs))
spec def txAt(s int, p int, t Tx) bool = txHdrAt(s, p, t) && insAt(s, p + 25, t.Inputs, len(t.Inputs)) && outsAt(s, p + 25 + insLen(t.Inputs, len(t.Inputs)), t.Outputs, len(t.Outputs))
lemma insLen_same [C12] (a []TxIn, b []TxIn, k int) induct k {
	requires forall i int :: {a[i]} {b[i]} 0 <= i && i < k ==> a[i] == b[i]
	ensures insLen(a, k) == insLen(b, k)
	trigger { insLen(a, k), insLen(b, k) }
}
lemma insAt_same [C12] (s int, p int, a []TxIn, b []TxIn, k int) induct k {
	requires forall i int :: {a[i]} {b[i]} 0 <= i && i < k ==> a[i] == b[i]
	ensures insAt(s, p, a, k) == insAt(s, p, b, k)
	trigger { insAt(s, p, a, k), insAt(s, p, b, k) }
}
lemma outsAt_same [C12] (s int, p int, a []TxOut, b []TxOut, k int) induct k {
	requires forall i int :: {a[i]} {b[i]} 0 <= i && i < k ==> a[i] == b[i]
	ensures outsAt(s, p, a, k) == outsAt(s, p, b, k)
	trigger { outsAt(s, p, a, k), outsAt(s, p, b, k) }
}
// no input takes more than two strings of 16-bit length
spec def shortIns(xs []TxIn) bool = forall i int :: {xs[i]} 0 <= i && i < len(xs) ==> len(xs[i].PublicKey) < 65536 && len(xs[i].Signature) < 65536
func Conn.ReadTx(c, expectId)(r) [C12] {
	requires c.tc != nil
	modifies c.err, $rpos, $down
	infer none
	ensures "an error is sticky" old(c.err) != nil ==> r == zeroof(r) && c.err == old(c.err) && $rpos == old($rpos) && $down == old($down)
	ensures "reads exactly what was sent" c.err == nil ==> old(c.err) == nil && txAt(rdS(c.tc), old($rpos)[c.tc], r) && txHash(r) == expectId && $rpos == store(old($rpos), c.tc, old($rpos)[c.tc] + txLen(r)) && $down == old($down)
	uses read_back_tx
	ensures "nothing else fails, and then the result is empty" c.err != nil && old(c.err) == nil ==> r == zeroof(r) && ($down[c.tc] || !(exists t Tx :: {txHash(t)} txAt(rdS(c.tc), old($rpos)[c.tc], t) && txHash(t) == expectId))
	loop 1 (v []TxIn) {
		inv c.err == nil ==> len(v) == $k
		inv c.err == nil ==> insAt(rdS(c.tc), old($rpos)[c.tc] + 25, v, $k)
		inv c.err == nil ==> $rpos == store(old($rpos), c.tc, old($rpos)[c.tc] + 25 + insLen(v, $k)) && $down == old($down)
		inv c.err != nil ==> $down[c.tc]
	}
	loop 1 (v []TxOut, const ins []TxIn) {
		inv c.err == nil ==> len(v) == $k && outsAt(rdS(c.tc), old($rpos)[c.tc] + 25 + insLen(ins, len(ins)), v, $k)
		inv c.err == nil ==> u64At(rdS(c.tc), old($rpos)[c.tc] + 9, len(ins)) && insAt(rdS(c.tc), old($rpos)[c.tc] + 25, ins, len(ins))
		inv c.err == nil ==> $rpos == store(old($rpos), c.tc, old($rpos)[c.tc] + 25 + insLen(ins, len(ins)) + 40 * $k) && $down == old($down)
		inv c.err != nil ==> $down[c.tc]
	}
}
func Conn.WriteTx(c, data) [C12] {
	requires c.tc != nil
	modifies c.err, $wpos, $down
	infer none
	ensures "an error is sticky" old(c.err) != nil ==> c.err == old(c.err) && $wpos == old($wpos) && $down == old($down)
	ensures "writes exactly the encoding" c.err == nil ==> old(c.err) == nil && txAt(wrS(c.tc), old($wpos)[c.tc], data) && $wpos == store(old($wpos), c.tc, old($wpos)[c.tc] + txLen(data)) && $down == old($down)
	ensures "refuses only what is too long" c.err != nil && old(c.err) == nil ==> $down[c.tc] || !shortIns(data.Inputs)
	ensures "refused, not cut" c.err == nil ==> shortIns(data.Inputs)
	loop 1 {
		inv c.err == nil ==> txHdrAt(wrS(c.tc), old($wpos)[c.tc], data)
		inv c.err == nil ==> insAt(wrS(c.tc), old($wpos)[c.tc] + 25, data.Inputs, $k) && $wpos == store(old($wpos), c.tc, old($wpos)[c.tc] + 25 + insLen(data.Inputs, $k)) && $down == old($down)
		inv c.err == nil ==> forall i int :: {data.Inputs[i]} 0 <= i && i < $k ==> len(data.Inputs[i].PublicKey) < 65536 && len(data.Inputs[i].Signature) < 65536
		inv c.err != nil ==> $down[c.tc] || !shortIns(data.Inputs)
	}
	loop 1 {
		inv c.err == nil ==> txHdrAt(wrS(c.tc), old($wpos)[c.tc], data) && insAt(wrS(c.tc), old($wpos)[c.tc] + 25, data.Inputs, len(data.Inputs)) && shortIns(data.Inputs)
		inv c.err == nil ==> outsAt(wrS(c.tc), old($wpos)[c.tc] + 25 + insLen(data.Inputs, len(data.Inputs)), data.Outputs, $k) && $wpos == store(old($wpos), c.tc, old($wpos)[c.tc] + 25 + insLen(data.Inputs, len(data.Inputs)) + 40 * $k) && $down == old($down)
		inv c.err != nil ==> $down[c.tc] || !shortIns(data.Inputs)
	}
}
func Conn.HasErr(c)(r) [C12,C17] { ensures r == (c.err != nil) }
func Conn.Err(c)(r) [C12] { modifies c.err  ensures "hands over the error" r == old(c.err) && c.err == nil }
func Conn.ReadStringExpected(c, expected) [C12,C17] {
	requires c.tc != nil
	modifies c.err, $rpos, $down
	ensures "an error is sticky" old(c.err) != nil ==> c.err == old(c.err) && $rpos == old($rpos) && $down == old($down)
	ensures "accepts only what is expected" c.err == nil ==> old(c.err) == nil && strAt(rdS(c.tc), old($rpos)[c.tc], expected) && $rpos == store(old($rpos), c.tc, old($rpos)[c.tc] + 2 + len(bytesOf(expected))) && $down == old($down)
	ensures "accepts what is expected" c.err != nil && old(c.err) == nil ==> $down[c.tc] || !strAt(rdS(c.tc), old($rpos)[c.tc], expected)
}
// what is written is what is read back: the bytes at a position say one thing at most
hidden lemma read_back_block [C12] (s int, p int, a Block, b Block) { requires blockAt(s, p, a) && blockAt(s, p, b)  ensures a == b }
hidden lemma read_back_merkle [C12] (s int, p int, a MerkleNode, b MerkleNode) { requires merkleAt(s, p, a) && merkleAt(s, p, b)  ensures a == b }
hidden lemma read_back_bytes [C12] (s int, p int, a bytes, b bytes) { requires bytesAt(s, p, a) && bytesAt(s, p, b)  ensures a == b }
hidden lemma read_back_string [C12] (s int, p int, a str, b str) { requires strAt(s, p, a) && strAt(s, p, b)  ensures a == b  trigger { strAt(s, p, a), strAt(s, p, b) } }
hidden lemma read_back_bool [C12] (s int, p int, a bool, b bool) { requires boolAt(s, p, a) && boolAt(s, p, b)  ensures a == b }
hidden lemma read_back_ins [C12] (s int, p int, a []TxIn, b []TxIn, k int) induct k {
	requires 0 <= k && k <= len(a) && k <= len(b) && insAt(s, p, a, k) && insAt(s, p, b, k)
	ensures insLen(a, k) == insLen(b, k) && forall i int :: {a[i]} {b[i]} 0 <= i && i < k ==> a[i] == b[i]
	trigger { insAt(s, p, a, k), insAt(s, p, b, k) }
}
hidden lemma read_back_outs [C12] (s int, p int, a []TxOut, b []TxOut, k int) induct k {
	requires 0 <= k && k <= len(a) && k <= len(b) && outsAt(s, p, a, k) && outsAt(s, p, b, k)
	ensures forall i int :: {a[i]} {b[i]} 0 <= i && i < k ==> a[i] == b[i]
	trigger { outsAt(s, p, a, k), outsAt(s, p, b, k) }
}
hidden lemma read_back_tx [C12] (s int, p int, a Tx, b Tx) { requires txAt(s, p, a) && txAt(s, p, b)  ensures a == b  trigger { txAt(s, p, a), txAt(s, p, b) } uses read_back_ins, read_back_outs }
extern net.conn.Close(c)(err) { }
extern os.IsTimeout(err)(r) { }
spec def strLen(t str) int = 2 + len(bytesOf(t))
// the other side speaks this protocol, is not us, and agreed to go on
spec def greeted(s int, p int, us str, them str) bool = strAt(s, p, "levilutz/basiccoin") && strAt(s, p + strLen("levilutz/basiccoin"), "v0.0.0") && strAt(s, p + strLen("levilutz/basiccoin") + strLen("v0.0.0"), them) && them != us && strAt(s, p + strLen("levilutz/basiccoin") + strLen("v0.0.0") + strLen(them), "continue")
optional func Conn.handshake(c) [C17] {
	requires c.tc != nil
	uses read_back_string
	modifies c.err, c.peerRuntimeId, $rpos, $wpos, $down
	ensures "usable only when greeted" c.err == nil ==> old(c.err) == nil && greeted(rdS(c.tc), old($rpos)[c.tc], c.params.RuntimeID, c.peerRuntimeId)
	ensures "usable when greeted" c.err != nil && old(c.err) == nil ==> $down[c.tc] || len(bytesOf(c.params.RuntimeID)) > 65535 || forall t str :: {bytesOf(t)} !greeted(rdS(c.tc), old($rpos)[c.tc], c.params.RuntimeID, t)
}
func NewConn(params, tcpConn)(r) [C17] {
	allocates
	modifies $rpos, $wpos, $down
	ensures "usable only when greeted" r != nil && (r.err == nil ==> greeted(rdS(tcpConn), old($rpos)[tcpConn], params.RuntimeID, r.peerRuntimeId)) && r.params == params && r.tc == tcpConn
}
func Conn.PeerRuntimeId(c)(r) [C17] { ensures r == c.peerRuntimeId }
func Conn.WeAreInitiator(c)(r) [C17] { ensures r == c.params.WeAreInitiator }
