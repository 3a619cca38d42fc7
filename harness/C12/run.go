//overlay pkg/prot
package prot

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"reflect"
	"testing"
	"time"

	"github.com/levilutz/basiccoin/pkg/core"
	zz "github.com/levilutz/basiccoin/zzverif"
)

func zTCP(t *testing.T) (a, b *net.TCPConn) {
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Skip("no loopback: " + err.Error())
	}
	defer l.Close()
	ch := make(chan *net.TCPConn, 1)
	go func() {
		tc, _ := l.AcceptTCP()
		ch <- tc
	}()
	b, err = net.DialTCP("tcp", nil, l.Addr().(*net.TCPAddr))
	a = <-ch
	if err != nil || a == nil {
		t.Skip("no loopback")
	}
	return a, b
}

// zPair shakes hands over the loopback.
func zPair(t *testing.T) (a, b *Conn) {
	x, y := zTCP(t)
	ch := make(chan *Conn, 1)
	go func() { ch <- NewConn(NewParams("a", false, false), x) }()
	b = NewConn(NewParams("b", true, false), y)
	a = <-ch
	if a.HasErr() || b.HasErr() {
		zz.Fail(t, "two honest nodes do not connect", "%v %v", a.Err(), b.Err())
	}
	return a, b
}

// zRaw is a node whose peer is a script.
func zRaw(t *testing.T) (c *Conn, raw *net.TCPConn) {
	x, y := zTCP(t)
	ch := make(chan *Conn, 1)
	go func() { ch <- NewConn(NewParams("a", false, false), x) }()
	for _, s := range []string{"levilutz/basiccoin", "v0.0.0", "zz", "continue"} {
		y.Write(zStr([]byte(s)))
	}
	y.SetReadDeadline(time.Now().Add(10 * time.Second))
	io.ReadFull(y, make([]byte, 2+18+2+6+2+1+2+8))
	c = <-ch
	if c.HasErr() {
		zz.Fail(t, "a right handshake is refused", "%v", c.Err())
	}
	return c, y
}

func zStr(s []byte) []byte {
	return append(binary.BigEndian.AppendUint16(nil, uint16(len(s))), s...)
}

func zBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func zHash(r *rand.Rand) core.HashT { return core.NewHashTFromBytes(zBytes(r, 32)) }

func zNum(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return uint64(r.Intn(300))
	case 1:
		return ^uint64(r.Intn(300))
	}
	return r.Uint64()
}

func zLen(r *rand.Rand) int {
	return []int{0, 1, 2, 255, 256, 257, 65534, 65535, r.Intn(65536), r.Intn(100)}[r.Intn(10)]
}

func zTx(r *rand.Rand, big bool) core.Tx {
	tx := core.Tx{IsCoinbase: r.Intn(2) == 0, MinBlock: zNum(r), Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
	for n := r.Intn(4); n > 0; n-- {
		k, s := r.Intn(90), r.Intn(90)
		if big {
			k, s = zLen(r), zLen(r)
		}
		tx.Inputs = append(tx.Inputs, core.TxIn{
			Utxo:      core.Utxo{TxId: zHash(r), Ind: zNum(r), Value: zNum(r)},
			PublicKey: zBytes(r, k), Signature: zBytes(r, s),
		})
	}
	n := r.Intn(4)
	if r.Intn(10) == 0 {
		n = 250 + r.Intn(20)
	}
	for ; n > 0; n-- {
		tx.Outputs = append(tx.Outputs, core.TxOut{Value: zNum(r), PublicKeyHash: zHash(r)})
	}
	return tx
}

// An item is one value with its writer, its reader and its form on the wire.
type zItem struct {
	name  string
	write func(*Conn)
	read  func(*Conn) any
	want  any
	empty any
	form  []byte
	// other reads it expecting another id
	other func(*Conn) any
}

func zU64(x uint64) []byte { return binary.BigEndian.AppendUint64(nil, x) }

func zHB(h core.HashT) []byte { d := h.Data(); return append([]byte{}, d[:]...) }

func zFormTx(tx core.Tx) []byte {
	out := []byte{0}
	if tx.IsCoinbase {
		out[0] = 1
	}
	out = append(out, zU64(tx.MinBlock)...)
	out = append(out, zU64(uint64(len(tx.Inputs)))...)
	out = append(out, zU64(uint64(len(tx.Outputs)))...)
	for _, in := range tx.Inputs {
		out = append(out, zHB(in.Utxo.TxId)...)
		out = append(out, zU64(in.Utxo.Ind)...)
		out = append(out, zU64(in.Utxo.Value)...)
		out = append(out, zStr(in.PublicKey)...)
		out = append(out, zStr(in.Signature)...)
	}
	for _, o := range tx.Outputs {
		out = append(out, zU64(o.Value)...)
		out = append(out, zHB(o.PublicKeyHash)...)
	}
	return out
}

func zRandItem(r *rand.Rand, big bool) zItem {
	size := func() int {
		if big {
			return zLen(r)
		}
		return r.Intn(100)
	}
	switch r.Intn(8) {
	case 0:
		x := zNum(r)
		return zItem{"number", func(c *Conn) { c.WriteUint64(x) }, func(c *Conn) any { return c.ReadUint64() }, x, uint64(0), zU64(x), nil}
	case 1:
		x := r.Intn(2) == 0
		f := []byte{0}
		if x {
			f[0] = 1
		}
		return zItem{"flag", func(c *Conn) { c.WriteBool(x) }, func(c *Conn) any { return c.ReadBool() }, x, false, f, nil}
	case 2:
		x := zHash(r)
		return zItem{"hash", func(c *Conn) { c.WriteHashT(x) }, func(c *Conn) any { return c.ReadHashT() }, x, core.HashT{}, zHB(x), nil}
	case 3:
		x := string(zBytes(r, size()))
		return zItem{"string", func(c *Conn) { c.WriteString(x) }, func(c *Conn) any { return c.ReadString() }, x, "", zStr([]byte(x)), nil}
	case 4:
		x := zBytes(r, size())
		return zItem{"byte string", func(c *Conn) { c.Write(x) }, func(c *Conn) any { return string(c.Read()) }, string(x), "", zStr(x), nil}
	case 5:
		x := core.MerkleNode{LChild: zHash(r), RChild: zHash(r)}
		return zItem{"merkle node", func(c *Conn) { c.WriteMerkle(x) }, func(c *Conn) any { return c.ReadMerkle(x.Hash()) }, x, core.MerkleNode{},
			append(zHB(x.LChild), zHB(x.RChild)...), func(c *Conn) any { return c.ReadMerkle(zHash(r)) }}
	case 6:
		x := core.Block{PrevBlockId: zHash(r), MerkleRoot: zHash(r), Target: zHash(r), Noise: zHash(r), Nonce: zNum(r), MinedTime: zNum(r)}
		f := []byte{}
		for _, h := range []core.HashT{x.PrevBlockId, x.MerkleRoot, x.Target, x.Noise} {
			f = append(f, zHB(h)...)
		}
		f = append(append(f, zU64(x.Nonce)...), zU64(x.MinedTime)...)
		return zItem{"block", func(c *Conn) { c.WriteBlock(x) }, func(c *Conn) any { return c.ReadBlock(x.Hash()) }, x, core.Block{}, f,
			func(c *Conn) any { return c.ReadBlock(zHash(r)) }}
	}
	x := zTx(r, big)
	return zItem{"transaction", func(c *Conn) { c.WriteTx(x) }, func(c *Conn) any { return c.ReadTx(x.Hash()) }, x, core.Tx{}, zFormTx(x),
		func(c *Conn) any { return c.ReadTx(zHash(r)) }}
}

const zLong = 20 * time.Second

// zDo reads in time, without a crash.
func zDo(t *testing.T, it string, f func() any) (v any) {
	var p any
	if !zz.Within(zLong, func() { p = zz.Panics(func() { v = f() }) }) {
		zz.Fail(t, "reading does not end", "%s", it)
	}
	if p != nil {
		zz.Fail(t, "reading crashes", "%s: %v", it, p)
	}
	return v
}

// Long runs of values between two nodes.
func TestVerifRoundTrip(t *testing.T) {
	r := zz.Rng(t)
	for i := 0; i < zz.N(20); i++ {
		a, b := zPair(t)
		items := make([]zItem, 60)
		for k := range items {
			items[k] = zRandItem(r, i%2 == 1)
		}
		go func() {
			for _, it := range items {
				it.write(a)
			}
			a.WriteString("end")
		}()
		for k, it := range items {
			got := zDo(t, it.name, func() any { return it.read(b) })
			if err := b.Err(); err != nil {
				zz.Fail(t, "a written value is not read back", "%s, number %d: %v", it.name, k, err)
			}
			if !reflect.DeepEqual(got, it.want) {
				zz.Fail(t, "a value is read back changed", "%s, number %d: %.200v is not %.200v", it.name, k, got, it.want)
			}
		}
		if s := b.ReadString(); s != "end" {
			zz.Fail(t, "bytes are left over", "%q %v", s, b.Err())
		}
		if a.HasErr() {
			zz.Fail(t, "a writer fails", "%v", a.Err())
		}
		a.Close()
		b.Close()
		zz.Cases(len(items))
	}
}

// The limit on lengths.
func TestVerifLength(t *testing.T) {
	r := zz.Rng(t)
	for _, n := range []int{65535, 65536, 65537, 65538, 70000, 131071, 131072, 1 << 18, 65536 + r.Intn(1<<17)} {
		for how := 0; how < 4; how++ {
			c, raw := zRaw(t)
			got := make(chan []byte, 1)
			go func() {
				b, _ := io.ReadAll(raw)
				got <- b
			}()
			data := zBytes(r, n)
			var want []byte
			switch how {
			case 0:
				c.Write(data)
				want = zStr(data)
			case 1:
				c.WriteString(string(data))
				want = zStr(data)
			case 2, 3:
				in := core.TxIn{PublicKey: data, Signature: data[:3]}
				if how == 3 {
					in.PublicKey, in.Signature = in.Signature, in.PublicKey
				}
				tx := core.Tx{Inputs: []core.TxIn{in}, Outputs: []core.TxOut{{}}}
				c.WriteTx(tx)
				want = zFormTx(tx)
			}
			failed := c.HasErr()
			// nothing goes out after an error
			for _, it := range []zItem{zRandItem(r, false), zRandItem(r, false)} {
				it.write(c)
				if !failed {
					want = append(want, it.form...)
				}
			}
			c.Close()
			b := <-got
			if failed != (n > 65535) {
				zz.Fail(t, "the length limit", "%d bytes written, way %d: error %v", n, how, c.Err())
			}
			if !failed && !bytes.Equal(b, want) {
				zz.Fail(t, "the bytes written", "%d bytes, way %d", n, how)
			}
			if failed {
				max := 0
				if how >= 2 {
					max = 25 + 48
				}
				if how == 3 {
					max += 2 + 3
				}
				if len(b) > max {
					zz.Fail(t, "bytes go out after an error", "%d bytes, way %d: %d bytes sent", n, how, len(b))
				}
			}
			raw.Close()
			zz.Cases(1)
		}
	}
}

// zSticky checks that a connection with an error does nothing more.
func zSticky(t *testing.T, r *rand.Rand, c *Conn, raw *net.TCPConn, what string, pending int) {
	for k := 0; k < 6; k++ {
		it := zRandItem(r, false)
		err := c.err
		if got := zDo(t, it.name, func() any { return it.read(c) }); !reflect.DeepEqual(got, it.empty) {
			zz.Fail(t, "a result after an error", "%s, then %s: %.100v", what, it.name, got)
		}
		it.write(c)
		c.ReadStringExpected("x")
		if c.err == nil || c.err != err {
			zz.Fail(t, "the error is not kept", "%s, then %s", what, it.name)
		}
	}
	// what the peer sent meanwhile is still there, and it received nothing
	if pending > 0 {
		c.tc.SetReadDeadline(time.Now().Add(zLong))
		if _, err := io.ReadFull(c.tc, make([]byte, pending)); err != nil {
			zz.Fail(t, "bytes are taken after an error", "%s: %v", what, err)
		}
	}
	c.tc.CloseWrite()
	raw.SetReadDeadline(time.Now().Add(zLong))
	if b, _ := io.ReadAll(raw); len(b) != 0 {
		zz.Fail(t, "bytes go out after an error", "%s: %d", what, len(b))
	}
}

// Streams that break off, and wrong ids.
func TestVerifBroken(t *testing.T) {
	r := zz.Rng(t)
	for i := 0; i < zz.N(1500); i++ {
		it := zRandItem(r, i%20 == 0)
		c, raw := zRaw(t)
		switch {
		case i%3 == 0 && it.other != nil: // another id
			raw.Write(append(append([]byte{}, it.form...), make([]byte, 500)...))
			got := zDo(t, it.name, func() any { return it.other(c) })
			if !c.HasErr() {
				zz.Fail(t, "a wrong id is accepted", "%s", it.name)
			}
			if !reflect.DeepEqual(got, it.empty) {
				zz.Fail(t, "a result with an error", "%s, wrong id: %.100v", it.name, got)
			}
			zSticky(t, r, c, raw, it.name+" of another id", 500)
		case i%3 == 1 && it.other != nil && len(it.form) > 64: // one byte changed
			f := append([]byte{}, it.form...)
			k := r.Intn(len(f))
			if it.name == "block" && k >= 128 {
				k = r.Intn(128) // that the mined time is not in the hash is a known finding of C23
			}
			if it.name == "transaction" && k >= 1 && (k >= 9 && k < 25 || len(it.form) > 25) {
				k = r.Intn(9) // keep the counts and lengths
			}
			f[k] ^= byte(1 + r.Intn(255))
			raw.Write(f)
			raw.CloseWrite()
			got := zDo(t, it.name, func() any { return it.read(c) })
			if !c.HasErr() || !reflect.DeepEqual(got, it.empty) {
				zz.Fail(t, "a changed entity is accepted", "%s, byte %d", it.name, k)
			}
			zSticky(t, r, c, raw, it.name+" changed", 0)
		default: // truncated
			raw.Write(it.form[:r.Intn(len(it.form))])
			raw.CloseWrite()
			got := zDo(t, it.name, func() any { return it.read(c) })
			if !c.HasErr() {
				zz.Fail(t, "truncated input is accepted", "%s", it.name)
			}
			if !reflect.DeepEqual(got, it.empty) {
				zz.Fail(t, "a result with an error", "%s, truncated: %.100v", it.name, got)
			}
			zSticky(t, r, c, raw, it.name+" truncated", 0)
		}
		c.Close()
		raw.Close()
		zz.Cases(1)
	}
}

// Flags other than 0 and 1, wrong expected strings, huge counts, noise.
func TestVerifHostile(t *testing.T) {
	r := zz.Rng(t)
	for x := 2; x < 256; x++ {
		c, raw := zRaw(t)
		raw.Write([]byte{byte(x), 7, 7, 7})
		if got := c.ReadBool(); got || !c.HasErr() {
			zz.Fail(t, "a malformed flag is accepted", "%d", x)
		}
		if x%16 == 0 {
			zSticky(t, r, c, raw, fmt.Sprint("flag ", x), 3)
		}
		c.Close()
		raw.Close()
		zz.Cases(1)
	}
	for _, p := range [][2]string{{"a", "b"}, {"abc", "ab"}, {"", "x"}, {"x", ""}, {"abc", "abC"}, {"ok", "ok"}, {"", ""}} {
		c, raw := zRaw(t)
		raw.Write(zStr([]byte(p[0])))
		c.ReadStringExpected(p[1])
		if c.HasErr() != (p[0] != p[1]) {
			zz.Fail(t, "an expected string", "%q for %q: %v", p[0], p[1], c.Err())
		}
		c.Close()
		raw.Close()
		zz.Cases(1)
	}
	for i := 0; i < zz.N(600); i++ {
		c, raw := zRaw(t)
		b := []byte{byte(r.Intn(2))}
		for k := 0; k < 3; k++ {
			n := zNum(r)
			if r.Intn(2) == 0 {
				n = uint64(1) << r.Intn(64)
			}
			b = append(b, zU64(n)...)
		}
		b = append(b, zBytes(r, r.Intn(400))...)
		raw.Write(b)
		raw.CloseWrite()
		what := "noise"
		var got any
		var empty any = core.Tx{}
		switch i % 5 {
		case 0, 1, 2:
			got = zDo(t, what, func() any { return c.ReadTx(zHash(r)) })
		case 3:
			got, empty = zDo(t, what, func() any { return c.ReadBlock(zHash(r)) }), core.Block{}
		case 4:
			got, empty = zDo(t, what, func() any { return c.ReadMerkle(zHash(r)) }), core.MerkleNode{}
		}
		if !c.HasErr() || !reflect.DeepEqual(got, empty) {
			zz.Fail(t, "noise is accepted", "%x: %.100v", b, got)
		}
		c.Close()
		raw.Close()
		zz.Cases(1)
	}
}
