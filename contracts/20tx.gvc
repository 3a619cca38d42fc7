// pkg/core/transaction.go, crypto.go and the transaction rules of verify.go
package pkg/core

// ---- sizes and sums, as mathematical integers ----
spec func insSize(xs []TxIn, k int) int fold { base 0 step acc + 48 + len(xs[k].PublicKey) + len(xs[k].Signature) }
spec def txSize(t Tx) int = 72 + insSize(t.Inputs, len(t.Inputs)) + 40 * len(t.Outputs)
spec func sumIn(xs []TxIn, k int) int fold { base 0 step acc + xs[k].Utxo.Value }
spec func sumOut(xs []TxOut, k int) int fold { base 0 step acc + xs[k].Value }
spec def inVal(t Tx) int = sumIn(t.Inputs, len(t.Inputs))
spec def outVal(t Tx) int = sumOut(t.Outputs, len(t.Outputs))
spec def wrap64(x int) int = x % pow2(64)

lemma sumIn_pos [C02] (xs []TxIn, k int) induct k {
	ensures 0 <= sumIn(xs, k)
	trigger { sumIn(xs, k) }
}
lemma sumIn_mono [C02] (xs []TxIn, j int, k int) induct k {
	requires 0 <= j && j <= k && k <= len(xs)
	ensures sumIn(xs, j) <= sumIn(xs, k)
	trigger { sumIn(xs, j), sumIn(xs, k) }
}
lemma sumOut_pos [C02] (xs []TxOut, k int) induct k {
	ensures 0 <= sumOut(xs, k)
	trigger { sumOut(xs, k) }
}
lemma sumOut_mono [C02] (xs []TxOut, j int, k int) induct k {
	requires 0 <= j && j <= k && k <= len(xs)
	ensures sumOut(xs, j) <= sumOut(xs, k)
	trigger { sumOut(xs, j), sumOut(xs, k) }
}

func Utxo.VSize(u)(r) [C11] { ensures r == 48 }
func TxOut.VSize(o)(r) [C11] { ensures r == 40 }
func TxIn.VSize(i)(r) [C11] { ensures r == wrap64(48 + len(i.PublicKey) + len(i.Signature)) }
func Tx.VSize(t)(r) [C11] { ensures r == wrap64(txSize(t))  free ensures 0 < txSize(t) && txSize(t) < pow2(62) }
func Tx.InputsValue(t)(r) [C02] { ensures r == wrap64(inVal(t)) }
func Tx.OutputsValue(t)(r) [C02] { ensures r == wrap64(outVal(t)) }
func Tx.ValuesOverflow(t)(r) [C02] { ensures r == (inVal(t) >= pow2(64) || outVal(t) >= pow2(64)) }
func Tx.HasSurplus(t)(r) [C02] { ensures r == (wrap64(inVal(t)) > wrap64(outVal(t))) }
// the outputs named by the inputs, in order
spec func consumed(tx Tx) []Utxo
axiom consumed_def: forall tx Tx :: {consumed(tx)} len(consumed(tx)) == len(tx.Inputs) && forall i int :: {consumed(tx)[i]} {tx.Inputs[i]} 0 <= i && i < len(tx.Inputs) ==> consumed(tx)[i] == tx.Inputs[i].Utxo
func Tx.GetConsumedUtxos(t)(r) [C01,C02] {
	shows len(r) == len(t.Inputs)
	shows forall i int :: {r[i]} {t.Inputs[i]} 0 <= i && i < len(r) ==> r[i] == t.Inputs[i].Utxo
	ensures r == consumed(t)
}
func ExamplePubDer()(r) [C11,C14] { ensures len(r) == 91 }
func ExampleMaxSigAsn()(r) [C14] { ensures len(r) == 72 }
func MinNonCoinbaseVSize()(r) [C11,C15] { ensures r == 211 }
func CoinbaseVSize()(r) [C11,C15] { ensures r == 112 }
func BlockMaxTxs(params)(r) [C11] { requires params.MaxBlockVSize >= 112  ensures r == (params.MaxBlockVSize - 112) / 211 + 2 }

// ---- signatures ----
spec func pkixok(der bytes) bool
spec func pkixkey(der bytes) any
spec func ecdsaVerifies(key any, hash bytes, sig bytes) bool
spec func isEcdsaKey(k any) bool
// sig is a valid signature over h under the key encoded by pub
spec func sigOK(pub bytes, h HashT, sig bytes) bool

trusted func EcdsaVerify(pub, h, sig)(r, err) { ensures (r && err == nil) == sigOK(pub, h, sig) }

// ---- transaction rules ----
spec func usedBefore(xs []TxIn, u Utxo, k int) bool fold { base false step acc || xs[k].Utxo == u }
spec func allDistinct(xs []TxIn, k int) bool fold { base true step acc && !usedBefore(xs, xs[k].Utxo, k) }
lemma distinct_down [C02] (xs []TxIn, j int, k int) induct k {
	requires 0 <= j && j <= k && allDistinct(xs, k)
	ensures allDistinct(xs, j)
	trigger { allDistinct(xs, j), allDistinct(xs, k) }
}
spec def signed(tx Tx) bool = forall i int :: {tx.Inputs[i]} 0 <= i && i < len(tx.Inputs) ==> sigOK(tx.Inputs[i].PublicKey, preSigHash(tx.MinBlock, tx.Outputs), tx.Inputs[i].Signature)
spec def coinbaseOK(p Params, tx Tx) bool = len(tx.Inputs) == 0 && len(tx.Outputs) == 1 && tx.Outputs[0].Value >= p.BlockReward
spec def txAlone(p Params, tx Tx) bool = signed(tx) && allDistinct(tx.Inputs, len(tx.Inputs)) && txSize(tx) <= p.MaxTxVSize && inVal(tx) < pow2(64) && outVal(tx) < pow2(64) && ite(tx.IsCoinbase, coinbaseOK(p, tx), inVal(tx) > outVal(tx))

func Verifier.VerifyTxIsolated(v, tx)(err) [C02,C03,C11] {
	shows err == nil ==> signed(tx)
	shows err == nil ==> allDistinct(tx.Inputs, len(tx.Inputs))
	shows err == nil ==> txSize(tx) <= v.params.MaxTxVSize
	shows err == nil ==> inVal(tx) < pow2(64) && outVal(tx) < pow2(64)
	shows err == nil ==> ite(tx.IsCoinbase, coinbaseOK(v.params, tx), inVal(tx) > outVal(tx))
	ensures (err == nil) == txAlone(v.params, tx)
	loop 0 {
		inv forall j int :: {$xs[j]} 0 <= j && j < $k ==> sigOK($xs[j].PublicKey, preSigHash(tx.MinBlock, tx.Outputs), $xs[j].Signature)
		inv allDistinct($xs, $k)
	}
}
