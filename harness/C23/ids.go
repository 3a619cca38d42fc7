//overlay pkg/core
package core

import (
	"math/rand"
	"reflect"
	"testing"

	zz "github.com/levilutz/basiccoin/zzverif"
)

func verifBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func verifHash(r *rand.Rand) HashT {
	var d [32]byte
	if r.Intn(8) > 0 {
		r.Read(d[:])
	}
	return NewHashTFromBytes(d[:])
}

func verifU(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return uint64(r.Intn(3))
	case 1:
		return uint64(1) << r.Intn(64)
	}
	return r.Uint64()
}

func verifTxIn(r *rand.Rand) TxIn {
	return TxIn{Utxo: Utxo{verifHash(r), verifU(r), verifU(r)}, PublicKey: verifBytes(r, r.Intn(100)), Signature: verifBytes(r, r.Intn(80))}
}

func verifTxOut(r *rand.Rand) TxOut { return TxOut{verifU(r), verifHash(r)} }

func verifTx(r *rand.Rand) Tx {
	tx := Tx{IsCoinbase: r.Intn(2) == 0, MinBlock: verifU(r), Inputs: []TxIn{}, Outputs: []TxOut{}}
	for i := r.Intn(4); i > 0; i-- {
		tx.Inputs = append(tx.Inputs, verifTxIn(r))
	}
	for i := r.Intn(4); i > 0; i-- {
		tx.Outputs = append(tx.Outputs, verifTxOut(r))
	}
	return tx
}

// verifEdits returns copies of v with one leaf changed, by field path.
func verifEdits(r *rand.Rand, v reflect.Value, path string, emit func(path string, set func(), undo func())) {
	switch v.Kind() {
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(HashT{}) {
			h := v.Addr().Interface().(*HashT)
			o := *h
			k, b := r.Intn(32), byte(1<<r.Intn(8))
			emit(path, func() { h.data[k] ^= b }, func() { *h = o })
			return
		}
		for i := 0; i < v.NumField(); i++ { // content moved between two fields
			for j := 0; j < i; j++ {
				a, b := v.Field(i), v.Field(j)
				if a.Type() != b.Type() {
					continue
				}
				x, y := reflect.ValueOf(a.Interface()), reflect.ValueOf(b.Interface())
				undo := func() { a.Set(x); b.Set(y) }
				if !reflect.DeepEqual(a.Interface(), b.Interface()) {
					emit(path+"[swap fields]", func() { a.Set(y); b.Set(x) }, undo)
				}
				if a.Kind() == reflect.Slice && y.Len() > 0 {
					k := y.Len() - 1
					emit(path+"[move last]", func() {
						b.Set(y.Slice(0, k))
						a.Set(reflect.AppendSlice(reflect.Append(reflect.MakeSlice(a.Type(), 0, 0), y.Index(k)), x))
					}, undo)
				}
				if a.Kind() == reflect.Slice && x.Len() > 0 {
					emit(path+"[move first]", func() {
						a.Set(x.Slice(1, x.Len()))
						b.Set(reflect.AppendSlice(reflect.MakeSlice(a.Type(), 0, 0), reflect.Append(y.Slice3(0, y.Len(), y.Len()), x.Index(0))))
					}, undo)
				}
			}
		}
		for i := 0; i < v.NumField(); i++ {
			verifEdits(r, v.Field(i), path+"."+v.Type().Field(i).Name, emit)
		}
	case reflect.Uint64:
		o := v.Uint()
		k := r.Intn(64)
		emit(path, func() { v.SetUint(o ^ 1<<k) }, func() { v.SetUint(o) })
	case reflect.Bool:
		o := v.Bool()
		emit(path, func() { v.SetBool(!o) }, func() { v.SetBool(o) })
	case reflect.Slice:
		o := reflect.ValueOf(v.Interface())
		n := v.Len()
		if n > 0 {
			// drop the last, drop the first, swap two
			emit(path+"[drop last]", func() { v.Set(o.Slice(0, n-1)) }, func() { v.Set(o) })
			emit(path+"[drop first]", func() { v.Set(o.Slice(1, n)) }, func() { v.Set(o) })
			if n > 1 {
				i, j := r.Intn(n), r.Intn(n)
				if !reflect.DeepEqual(v.Index(i).Interface(), v.Index(j).Interface()) {
					sw := reflect.Swapper(v.Interface())
					emit(path+"[swap]", func() { sw(i, j) }, func() { sw(i, j) })
				}
			}
		}
		z := reflect.New(v.Type().Elem()).Elem()
		emit(path+"[append]", func() { v.Set(reflect.Append(o.Slice3(0, n, n), z)) }, func() { v.Set(o) })
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if n > 0 {
				i, b := r.Intn(n), uint64(1<<r.Intn(8))
				e := v.Index(i)
				x := e.Uint()
				emit(path+"[byte]", func() { e.SetUint(x ^ b) }, func() { e.SetUint(x) })
			}
			return
		}
		for i := 0; i < n; i++ {
			verifEdits(r, v.Index(i), path, emit)
		}
	}
}

func verifIds(t *testing.T, r *rand.Rand, name string, p any, id func() HashT) int {
	n := 0
	h := id()
	if id() != h {
		zz.Fail(t, name, "hashing twice gives different ids")
	}
	verifEdits(r, reflect.ValueOf(p).Elem(), name, func(path string, set, undo func()) {
		n++
		set()
		if id() == h {
			zz.Fail(t, path, "the id does not change when %s does: %+v", path, reflect.ValueOf(p).Elem().Interface())
		}
		undo()
		if id() != h {
			zz.Fail(t, path, "the id is not a function of the content")
		}
	})
	return n
}

func TestVerifIds(t *testing.T) {
	r := zz.Rng(t)
	n := 0
	for i := zz.N(1500); i > 0; i-- {
		tx := verifTx(r)
		n += verifIds(t, r, "Tx", &tx, func() HashT { return tx.Hash() })
		in := verifTxIn(r)
		n += verifIds(t, r, "TxIn", &in, func() HashT { return in.Hash() })
		u := in.Utxo
		n += verifIds(t, r, "Utxo", &u, func() HashT { return u.Hash() })
		o := verifTxOut(r)
		n += verifIds(t, r, "TxOut", &o, func() HashT { return o.Hash() })
		m := MerkleNode{verifHash(r), verifHash(r)}
		n += verifIds(t, r, "MerkleNode", &m, func() HashT { return m.Hash() })
		pre := struct {
			MinBlock uint64
			Outputs  []TxOut
		}{tx.MinBlock, tx.Outputs}
		n += verifIds(t, r, "preSig", &pre, func() HashT { return TxHashPreSig(pre.MinBlock, pre.Outputs) })
		b := Block{verifHash(r), verifHash(r), verifHash(r), verifHash(r), verifU(r), 0}
		c := struct {
			PrevBlockId, MerkleRoot, Target, Noise HashT
			Nonce                                  uint64
		}{b.PrevBlockId, b.MerkleRoot, b.Target, b.Noise, b.Nonce}
		n += verifIds(t, r, "Block", &c, func() HashT {
			return Block{c.PrevBlockId, c.MerkleRoot, c.Target, c.Noise, c.Nonce, b.MinedTime}.Hash()
		})
	}
	zz.Cases(n)
}

// known finding: MinedTime is not part of the id
func TestVerifBlockTime(t *testing.T) {
	r := zz.Rng(t)
	b := Block{verifHash(r), verifHash(r), verifHash(r), verifHash(r), verifU(r), 5}
	c := b
	c.MinedTime++
	if b.Hash() == c.Hash() {
		zz.Fail(t, "Block.MinedTime", "two blocks that differ only in MinedTime have one id")
	}
}

func TestVerifHashPrimitives(t *testing.T) {
	r := zz.Rng(t)
	seen := map[HashT]string{}
	n := zz.N(20000)
	put := func(h HashT, k string) {
		if o, ok := seen[h]; ok && o != k {
			zz.Fail(t, "primitive", "%s and %s share a digest", o, k)
		}
		seen[h] = k
	}
	for i := 0; i < n; i++ {
		b := verifBytes(r, r.Intn(70))
		put(DHashBytes(b), "bytes "+string(b))
		m := r.Intn(5)
		hs := make([]HashT, m)
		k := "bytes "
		if m > 0 {
			k = "hashes "
		}
		for j := range hs {
			hs[j] = verifHash(r)
			k += hs[j].String()
		}
		put(DHashHashes(hs), k)
	}
	zz.Cases(2 * n)
}
