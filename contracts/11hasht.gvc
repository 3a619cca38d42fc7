// pkg/core/hasht.go: 256-bit values
package pkg/core

spec def hval(h HashT) int = bval(h.data)

func HashT.Data(h)(r) [C16] { ensures r == h.data }
func HashT.String(h)(s) [C16] { ensures s == hexenc(b32bytes(h.data)) }
func HashT.Eq(h, other)(r) [C16] { ensures r == (h == other)  ensures r == (hval(h) == hval(other)) }
func HashT.EqZero(h)(r) [C16] { ensures r == (hval(h) == 0) }
func HashT.Lt(h, other)(r) [C16] { ensures r == (hval(h) < hval(other)) }
func HashT.BigInt(h)(r) [C16] { ensures deref(r) == hval(h) }
func NewHashTFromBigInt(data)(r) [C16] {
	requires "value fits" 0 <= deref(data) && deref(data) < pow2(256)
	ensures hval(r) == deref(data)
}
func NewHashTFromBytes(data)(r) [C16] {
	requires len(data) == 32
	ensures b32bytes(r.data) == data
	ensures hval(r) == beval(data)
}
func NewHashTFromString(data)(r, err) [C16] {
	ensures (err == nil) == (len(data) == 64 && ishex(data))
	ensures r == ite(len(data) == 64 && ishex(data), hashOfHex(data), zeroof(r))
	shows err == nil ==> b32bytes(r.data) == hexdec(data)
}
func NewHashTFromStringAssert(data)(r) [C16] {
	requires len(data) == 64 && ishex(data)
	ensures r == hashOfHex(data)
}
func HashT.TargetToWork(h)(r) [C16] {
	requires hval(h) != 0
	ensures deref(r) == (pow2(256) - 1) / hval(h)
}
func HashT.WorkAppendTarget(h, newTarget)(r) [C16] {
	requires hval(newTarget) != 0
	requires "total work below 2^256" hval(h) + (pow2(256) - 1) / hval(newTarget) < pow2(256)
	ensures hval(r) == hval(h) + (pow2(256) - 1) / hval(newTarget)
}
func HashT.MaxNextTarget(h, params)(r) [C16] {
	requires "maximum target leaves room for the factor four" hval(params.MaxTarget) * 4 < pow2(256)
	ensures hval(r) == min(hval(h) * 4, hval(params.MaxTarget))
}
func HashT.MinNextTarget(h)(r) [C16] { ensures hval(r) == hval(h) / 4 }

spec def hashOfHex(s str) HashT = HashT(b32of(hexdec(s)))
spec func workSum(ts []HashT, k int) int fold { base 0 step acc + (pow2(256) - 1) / hval(ts[k]) }
func TargetsToTotalWork(targets)(r) [C16] {
	requires forall i int :: {targets[i]} 0 <= i && i < len(targets) ==> hval(targets[i]) != 0
	ensures deref(r) == workSum(targets, len(targets))
}

// slices and maps of hashes in text form
func MarshalHashTSlice(in_)(r) [C16] {
	ensures len(r) == len(in_)
	ensures forall i int :: {r[i]} 0 <= i && i < len(in_) ==> r[i] == hexenc(b32bytes(in_[i].data))
}
func UnmarshalHashTSlice(in_)(r, err) [C16] {
	ensures (err == nil) == (forall i int :: {in_[i]} 0 <= i && i < len(in_) ==> len(in_[i]) == 64 && ishex(in_[i]))
	ensures err == nil ==> len(r) == len(in_)
	ensures err == nil ==> forall i int :: {r[i]} 0 <= i && i < len(in_) ==> r[i] == hashOfHex(in_[i])
}
