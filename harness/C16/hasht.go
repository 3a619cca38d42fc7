//overlay pkg/core
package core

import (
	"bytes"
	"math/big"
	"math/rand"
	"strings"
	"testing"

	zz "github.com/levilutz/basiccoin/zzverif"
)

func verifH(b []byte) HashT {
	var d [32]byte
	copy(d[32-len(b):], b)
	return NewHashTFromBytes(d[:])
}

func verifRandH(r *rand.Rand) HashT {
	switch r.Intn(6) {
	case 0: // one bit
		return verifH(new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(256))).Bytes())
	case 1: // few bits below one bit
		x := new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(256)))
		x.Sub(x, big.NewInt(int64(r.Intn(3))))
		return verifH(x.Bytes())
	case 2: // short
		b := make([]byte, r.Intn(5))
		r.Read(b)
		return verifH(b)
	case 3: // sparse
		var d [32]byte
		for i := 0; i < 3; i++ {
			d[r.Intn(32)] = byte(r.Intn(256))
		}
		return NewHashTFromBytes(d[:])
	}
	var d [32]byte
	r.Read(d[:])
	if r.Intn(3) == 0 {
		for i := 0; i < r.Intn(33); i++ {
			d[i] = 0xff
		}
	}
	return NewHashTFromBytes(d[:])
}

func TestVerifHashArithmetic(t *testing.T) {
	r := zz.Rng(t)
	n := zz.N(40000)
	all := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	for i := 0; i < n; i++ {
		a, b := verifRandH(r), verifRandH(r)
		if r.Intn(4) == 0 {
			d := a.Data()
			k := r.Intn(32)
			d[k] ^= byte(1 << r.Intn(8))
			b = NewHashTFromBytes(d[:])
		}
		da, db := a.Data(), b.Data()
		ia, ib := new(big.Int).SetBytes(da[:]), new(big.Int).SetBytes(db[:])
		if a.BigInt().Cmp(ia) != 0 {
			zz.Fail(t, "BigInt", "BigInt of %x is %s", da, a.BigInt())
		}
		if a.Lt(b) != (ia.Cmp(ib) < 0) {
			zz.Fail(t, "Lt", "%s < %s is %v", a, b, a.Lt(b))
		}
		if a.Lt(a) || !a.Eq(a) {
			zz.Fail(t, "Lt", "%s compared with itself", a)
		}
		if a.Eq(b) != (ia.Cmp(ib) == 0) {
			zz.Fail(t, "Eq", "%s = %s is %v", a, b, a.Eq(b))
		}
		if a.EqZero() != (ia.Sign() == 0) {
			zz.Fail(t, "EqZero", "%s", a)
		}
		if c := NewHashTFromBigInt(ia); c != a {
			zz.Fail(t, "FromBigInt", "%s becomes %s", a, c)
		}
		if c, err := NewHashTFromString(a.String()); err != nil || c != a {
			zz.Fail(t, "FromString", "%s becomes %s (%v)", a, c, err)
		}
		if ia.Sign() > 0 {
			w := new(big.Int).Quo(all, ia)
			if a.TargetToWork().Cmp(w) != 0 {
				zz.Fail(t, "TargetToWork", "work of %s is %s, not %s", a, a.TargetToWork(), w)
			}
			sum := new(big.Int).Add(ib, w)
			if sum.Cmp(all) <= 0 {
				if c := b.WorkAppendTarget(a); c.BigInt().Cmp(sum) != 0 {
					zz.Fail(t, "WorkAppendTarget", "%s and target %s give %s", b, a, c)
				}
				if b.Data() != db || a.Data() != da {
					zz.Fail(t, "WorkAppendTarget", "argument changed")
				}
			}
		}
		if c := a.MinNextTarget(); c.BigInt().Cmp(new(big.Int).Rsh(ia, 2)) != 0 {
			zz.Fail(t, "MinNextTarget", "of %s is %s", a, c)
		}
		var p Params
		pm := new(big.Int).Rsh(ib, 2)
		p.MaxTarget = verifH(pm.Bytes())
		want := new(big.Int).Lsh(ia, 2)
		if want.Cmp(pm) > 0 {
			want = pm
		}
		if ia.Cmp(pm) <= 0 {
			if c := a.MaxNextTarget(p); c.BigInt().Cmp(want) != 0 {
				zz.Fail(t, "MaxNextTarget", "of %s with maximum %s is %s", a, p.MaxTarget, c)
			}
		}
	}
	zz.Cases(n)
}

func TestVerifTotalWork(t *testing.T) {
	r := zz.Rng(t)
	n := zz.N(2000)
	all := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	for i := 0; i < n; i++ {
		var ts []HashT
		sum := new(big.Int)
		for k := r.Intn(6); k > 0; k-- {
			h := verifRandH(r)
			if h.BigInt().Sign() == 0 {
				continue
			}
			ts = append(ts, h)
			sum.Add(sum, new(big.Int).Quo(all, h.BigInt()))
		}
		if w := TargetsToTotalWork(ts); w.Cmp(sum) != 0 {
			zz.Fail(t, "TargetsToTotalWork", "of %v is %s, not %s", ts, w, sum)
		}
		back, err := UnmarshalHashTSlice(MarshalHashTSlice(ts))
		if err != nil || len(back) != len(ts) {
			zz.Fail(t, "MarshalHashTSlice", "%v -> %v (%v)", ts, back, err)
		}
		for k := range ts {
			if back[k] != ts[k] {
				zz.Fail(t, "MarshalHashTSlice", "%v -> %v", ts, back)
			}
		}
	}
	zz.Cases(n)
}

func TestVerifHashText(t *testing.T) {
	r := zz.Rng(t)
	n := zz.N(20000)
	const good = "0123456789abcdefABCDEF"
	const odd = "gG-+ xX_/:@`\x00\xff"
	for i := 0; i < n; i++ {
		l := 64
		if r.Intn(3) == 0 {
			l = 56 + r.Intn(16)
		}
		if r.Intn(50) == 0 {
			l = r.Intn(200)
		}
		b := make([]byte, l)
		for k := range b {
			b[k] = good[r.Intn(len(good))]
		}
		bad := l != 64
		if r.Intn(2) == 0 && l > 0 {
			b[r.Intn(l)] = odd[r.Intn(len(odd))]
			bad = true
		}
		s := string(b)
		h, err := NewHashTFromString(s)
		if (err != nil) != bad {
			zz.Fail(t, "NewHashTFromString", "%q gives %v, %v", s, h, err)
		}
		if err == nil && h.String() != strings.ToLower(s) {
			zz.Fail(t, "NewHashTFromString", "%q gives %v", s, h)
		}
		_, err = UnmarshalHashTSlice([]string{h.String(), s})
		if (err != nil) != bad {
			zz.Fail(t, "UnmarshalHashTSlice", "%q gives %v", s, err)
		}
		js := append(append([]byte{'"'}, []byte(strings.ToLower(s))...), '"')
		if !bytes.ContainsAny(b, odd) {
			var g HashT
			err := g.UnmarshalJSON(js)
			if (err != nil) != bad {
				zz.Fail(t, "UnmarshalJSON", "%s gives %v, %v", js, g, err)
			}
			if err == nil {
				out, err := g.MarshalJSON()
				if err != nil || !bytes.Equal(out, js) {
					zz.Fail(t, "MarshalJSON", "%s gives %s", js, out)
				}
			}
		}
	}
	zz.Cases(n)
}
