// Contracts assumed about the standard library and the mathematical
// vocabulary shared by all contract files.

package base

opaque math/big.Int = int

// ---- 32-byte values ----

spec func b32at(b B32, i int) u8
spec func b32of(s bytes) B32
spec func b32bytes(b B32) bytes
spec func bval(b B32) int
spec func bnum(x int) B32
spec func beval(s bytes) int

// a 32-byte array is determined by its big-endian value, and every value below 2^256 has one
axiom bval_range: forall b B32 :: {bval(b)} 0 <= bval(b) && bval(b) < pow2(256) && bnum(bval(b)) == b
axiom bnum_val: forall x int :: {bnum(x)} 0 <= x && x < pow2(256) ==> bval(bnum(x)) == x
axiom bval_bytes: forall b B32 :: {bval(b), b32at(b, 0)} bval(b) == b32at(b, 0) * pow2(248) + b32at(b, 1) * pow2(240) + b32at(b, 2) * pow2(232) + b32at(b, 3) * pow2(224) + b32at(b, 4) * pow2(216) + b32at(b, 5) * pow2(208) + b32at(b, 6) * pow2(200) + b32at(b, 7) * pow2(192) + b32at(b, 8) * pow2(184) + b32at(b, 9) * pow2(176) + b32at(b, 10) * pow2(168) + b32at(b, 11) * pow2(160) + b32at(b, 12) * pow2(152) + b32at(b, 13) * pow2(144) + b32at(b, 14) * pow2(136) + b32at(b, 15) * pow2(128) + b32at(b, 16) * pow2(120) + b32at(b, 17) * pow2(112) + b32at(b, 18) * pow2(104) + b32at(b, 19) * pow2(96) + b32at(b, 20) * pow2(88) + b32at(b, 21) * pow2(80) + b32at(b, 22) * pow2(72) + b32at(b, 23) * pow2(64) + b32at(b, 24) * pow2(56) + b32at(b, 25) * pow2(48) + b32at(b, 26) * pow2(40) + b32at(b, 27) * pow2(32) + b32at(b, 28) * pow2(24) + b32at(b, 29) * pow2(16) + b32at(b, 30) * pow2(8) + b32at(b, 31)
axiom b32of_at: forall s bytes, i int :: {b32at(b32of(s), i)} len(s) == 32 && 0 <= i && i < 32 ==> b32at(b32of(s), i) == s[i]
axiom b32of_bytes: forall s bytes :: {b32of(s)} len(s) == 32 ==> b32bytes(b32of(s)) == s
axiom beval_b32: forall b B32 :: {b32bytes(b)} beval(b32bytes(b)) == bval(b)
axiom bval_zero: bval(zeroof(bnum(0))) == 0

// ---- strings, bytes, hex ----

spec func bytesOf(s str) bytes
spec func strOf(b bytes) str
axiom bytesOf_strOf: forall b bytes :: {strOf(b)} bytesOf(strOf(b)) == b

spec func ishex(s str) bool
spec func hexdec(s str) bytes
spec func hexenc(b bytes) str
axiom hex_enc: forall b bytes :: {hexenc(b)} ishex(hexenc(b)) && hexdec(hexenc(b)) == b && slen(hexenc(b)) == 2 * len(b)
axiom hex_dec: forall s str :: {hexdec(s)} ishex(s) ==> slen(s) == 2 * len(hexdec(s))
spec def slen(s str) int = len(s)

spec func fmt_Sprintf_Str_B32(f str, b B32) str
axiom sprintf_x_b32: forall b B32 :: {fmt_Sprintf_Str_B32("%x", b)} fmt_Sprintf_Str_B32("%x", b) == hexenc(b32bytes(b))

extern encoding/hex.DecodeString(s)(b, err) {
	ensures (err == nil) == ishex(s)
	ensures err == nil ==> b == hexdec(s)
}
extern encoding/hex.EncodeToString(b)(s) {
	ensures s == hexenc(b)
}
extern encoding/hex.EncodedLen(n)(r) {
	ensures r == 2 * n
}

// ---- math/big ----

spec func parseint(s str, b int) int
spec func parseok(s str, b int) bool
axiom parse_f64: parseok("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", 16) && parseint("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", 16) == pow2(256) - 1

extern math/big.NewInt(n)(r) {
	ensures deref(r) == n
}
extern math/big.Int.SetBytes(z, buf)(r) {
	modifies z
	returns_receiver
	ensures deref(z) == beval(buf)
}
extern math/big.Int.SetUint64(z, v)(r) {
	modifies z
	returns_receiver
	ensures deref(z) == v
}
extern math/big.Int.SetInt64(z, v)(r) {
	modifies z
	returns_receiver
	ensures deref(z) == v
}
extern math/big.Int.Set(z, v)(r) {
	modifies z
	returns_receiver
	ensures deref(z) == old(deref(v))
}
extern math/big.Int.SetString(z, s, b)(r, ok) {
	modifies z
	returns_receiver
	ensures ok == parseok(s, b)
	ensures ok ==> deref(z) == parseint(s, b)
}
extern math/big.Int.Add(z, x, y)(r) {
	modifies z
	returns_receiver
	ensures deref(z) == old(deref(x)) + old(deref(y))
}
extern math/big.Int.Sub(z, x, y)(r) {
	modifies z
	returns_receiver
	ensures deref(z) == old(deref(x)) - old(deref(y))
}
extern math/big.Int.Mul(z, x, y)(r) {
	modifies z
	returns_receiver
	ensures deref(z) == old(deref(x)) * old(deref(y))
}
extern math/big.Int.Div(z, x, y)(r) {
	requires deref(y) != 0
	modifies z
	returns_receiver
	ensures deref(z) == old(deref(x)) / old(deref(y))
}
extern math/big.Int.Quo(z, x, y)(r) {
	requires deref(y) != 0
	modifies z
	returns_receiver
	ensures old(deref(x)) >= 0 && old(deref(y)) > 0 ==> deref(z) == old(deref(x)) / old(deref(y))
}
extern math/big.Int.Lsh(z, x, n)(r) {
	modifies z
	returns_receiver
	ensures n == 1 ==> deref(z) == old(deref(x)) * 2
	ensures n == 2 ==> deref(z) == old(deref(x)) * 4
	ensures n == 256 ==> deref(z) == old(deref(x)) * pow2(256)
}
extern math/big.Int.Rsh(z, x, n)(r) {
	modifies z
	returns_receiver
	ensures n == 1 ==> deref(z) == old(deref(x)) / 2
	ensures n == 2 ==> deref(z) == old(deref(x)) / 4
}
extern math/big.Int.Cmp(x, y)(r) {
	ensures r == ite(deref(x) < deref(y), 0 - 1, ite(deref(x) == deref(y), 0, 1))
}
extern math/big.Int.Sign(x)(r) {
	ensures r == ite(deref(x) < 0, 0 - 1, ite(deref(x) == 0, 0, 1))
}
extern math/big.Int.Uint64(x)(r) {
	ensures 0 <= deref(x) && deref(x) < pow2(64) ==> r == deref(x)
}
extern math/big.Int.IsUint64(x)(r) {
	ensures r == (0 <= deref(x) && deref(x) < pow2(64))
}
// panics when the value does not fit
extern math/big.Int.FillBytes(x, buf)(r) {
	requires "value fits in 32 bytes" 0 <= deref(x) && deref(x) < pow2(256)
	modifies buf
	shares
	ensures buf == bnum(deref(x))
}

// ---- products and quotients of unknowns ----
// The verifier keeps them symbolic; these facts of integer arithmetic are all it uses.
spec func imul(a int, b int) int
spec func idiv(a int, b int) int
spec func imod(a int, b int) int
axiom idiv_range: forall a int, b int :: {idiv(a, b)} 0 <= a && 0 < b ==> 0 <= idiv(a, b) && idiv(a, b) <= a && (a < b ==> idiv(a, b) == 0) && (b <= a ==> 1 <= idiv(a, b)) && (a == 0 ==> idiv(a, b) == 0)
axiom imod_range: forall a int, b int :: {imod(a, b)} 0 < b ==> 0 <= imod(a, b) && imod(a, b) < b && (0 <= a && a < b ==> imod(a, b) == a) && (a == b ==> imod(a, b) == 0)
axiom imul_sign: forall a int, b int :: {imul(a, b)} (0 <= a && 0 <= b ==> 0 <= imul(a, b)) && (a == 0 || b == 0 ==> imul(a, b) == 0) && (a == 1 ==> imul(a, b) == b) && (b == 1 ==> imul(a, b) == a) && (1 <= a && 0 <= b ==> b <= imul(a, b)) && (0 <= a && 1 <= b ==> a <= imul(a, b))
axiom divmod_l: forall a int, b int :: {imul(idiv(a, b), b), imod(a, b)} 0 < b ==> a == imul(idiv(a, b), b) + imod(a, b)
axiom divmod_r: forall a int, b int :: {imul(b, idiv(a, b)), imod(a, b)} 0 < b ==> a == imul(b, idiv(a, b)) + imod(a, b)
hidden axiom imod_succ: forall a int, b int, c int :: {imod(a, b), imod(c, b)} 0 <= a && 0 < b && c == a + 1 ==> imod(c, b) == ite(imod(a, b) == b - 1, 0, imod(a, b) + 1)
hidden axiom imul_bound: forall a int, b int :: {imul(a, b)} 0 <= a && a <= pow2(20) && 0 <= b && b <= pow2(40) ==> imul(a, b) <= pow2(60)
// logging only
opaque math/big.Float = f64
extern math/big.Float.SetInt(z, x)(r) { modifies z  returns_receiver }
extern math/big.Float.Float64(z)(r, acc) {}
