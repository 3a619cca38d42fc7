//overlay internal/peerfactory
package peerfactory

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/prot"
	zz "github.com/levilutz/basiccoin/zzverif"
)

const zLong = 15 * time.Second

func zTCP(t *testing.T) (a, b *net.TCPConn) {
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Skip("no loopback: " + err.Error())
	}
	defer l.Close()
	ch := make(chan *net.TCPConn, 1)
	go func() {
		tc, _ := l.AcceptTCP()
		ch <- tc
	}()
	b, err = net.DialTCP("tcp", nil, l.Addr().(*net.TCPAddr))
	a = <-ch
	if err != nil || a == nil {
		t.Skip("no loopback")
	}
	return a, b
}

func zPut(c *net.TCPConn, s string) {
	c.Write(append(binary.BigEndian.AppendUint16(nil, uint16(len(s))), s...))
}

func zGet(c *net.TCPConn) (string, error) {
	c.SetReadDeadline(time.Now().Add(zLong))
	n := make([]byte, 2)
	if _, err := io.ReadFull(c, n); err != nil {
		return "", err
	}
	b := make([]byte, binary.BigEndian.Uint16(n))
	_, err := io.ReadFull(c, b)
	return string(b), err
}

// zConn makes a connection to a peer that says the four strings.
func zConn(t *testing.T, me string, says [4]string, initiator bool) (*prot.Conn, *net.TCPConn) {
	x, y := zTCP(t)
	for _, s := range says {
		if s != "(end)" {
			zPut(y, s)
		} else {
			y.CloseWrite()
			break
		}
	}
	var c *prot.Conn
	if !zz.Within(zLong, func() { c = prot.NewConn(prot.NewParams(me, initiator, false), x) }) {
		zz.Fail(t, "the handshake does not end", "%q", says)
	}
	return c, y
}

func zRight(id string) [4]string {
	return [4]string{"levilutz/basiccoin", "v0.0.0", id, "continue"}
}

// zServed tells whether a peer answers on the connection.
func zServed(t *testing.T, raw *net.TCPConn) bool {
	zPut(raw, "cmd:ping")
	for {
		s, err := zGet(raw)
		if s == "ack:ping" {
			return true
		}
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			zz.Fail(t, "a connection is neither served nor closed", "")
		}
		if err != nil {
			return false
		}
	}
}

// What makes a connection usable.
func TestVerifHandshake(t *testing.T) {
	r := zz.Rng(t)
	const me = "our own id"
	for i := 0; i < zz.N(400); i++ {
		id := fmt.Sprint("peer ", r.Intn(1000))
		says := zRight(id)
		why := ""
		switch i % 8 {
		case 0:
			bad := []string{"", "levilutz/basiccoi", "levilutz/basiccoin ", "Levilutz/basiccoin", "v0.0.0", "bitcoin"}
			says[0], why = bad[r.Intn(len(bad))], "another protocol"
		case 1:
			bad := []string{"", "v0.0", "v0.0.1", "v0.0.00", "V0.0.0", "v1.0.0", "v0.0.0\x00", " v0.0.0"}
			says[1], why = bad[r.Intn(len(bad))], "another version"
		case 2:
			says[2], why = me, "ourselves"
		case 3:
			bad := []string{"", "cancel", "continu", "continue ", "Continue", "cmd:ping"}
			says[3], why = bad[r.Intn(len(bad))], "the peer does not continue"
		case 4:
			says[r.Intn(4)], why = "(end)", "the peer is gone"
		case 5:
			says[0], says[1], why = says[1], says[0], "another order"
		}
		init := r.Intn(2) == 0
		c, raw := zConn(t, me, says, init)
		if bad := c.HasErr(); bad != (why != "") {
			zz.Fail(t, "the handshake", "%q: error %v (%s)", says, c.Err(), why)
		}
		if why == "" && (c.PeerRuntimeId() != id || c.WeAreInitiator() != init) {
			zz.Fail(t, "the peer's identity", "%q, not %q", c.PeerRuntimeId(), id)
		}
		c.Close()
		raw.Close()
		zz.Cases(1)
	}
	// two nodes; the same node twice
	for i := 0; i < 20; i++ {
		x, y := zTCP(t)
		a, b := "a", []string{"a", "b"}[i%2]
		var ca, cb *prot.Conn
		if !zz.Within(zLong, func() {
			var w sync.WaitGroup
			w.Add(1)
			go func() { defer w.Done(); ca = prot.NewConn(prot.NewParams(a, true, false), x) }()
			cb = prot.NewConn(prot.NewParams(b, false, false), y)
			w.Wait()
		}) {
			zz.Fail(t, "the handshake does not end", "%q %q", a, b)
		}
		if (ca.HasErr() || cb.HasErr()) != (a == b) || ca.HasErr() != cb.HasErr() {
			zz.Fail(t, "the handshake of two nodes", "%q %q: %v %v", a, b, ca.Err(), cb.Err())
		}
		ca.Close()
		cb.Close()
		zz.Cases(1)
	}
}

type zNode struct {
	pf   *PeerFactory
	bus  *bus.Bus
	open map[string]*net.TCPConn
}

func zFactory(max int) *zNode {
	b := bus.NewBus()
	v := inv.NewInv(core.DevNetParams(), nil)
	return &zNode{NewPeerFactory(Params{MaxPeers: max, MinPeers: 1, RuntimeId: "me", SeekNewPeersFreq: time.Hour}, b, v), b, map[string]*net.TCPConn{}}
}

// Attempts one after another.
func TestVerifAddConn(t *testing.T) {
	r := zz.Rng(t)
	for i := 0; i < zz.N(8); i++ {
		z := zFactory(r.Intn(6))
		type late struct {
			raw  *net.TCPConn
			want bool
			what string
		}
		var lates []late
		for k := 0; k < 30; k++ {
			id := fmt.Sprint("p", r.Intn(9))
			if r.Intn(12) == 0 {
				id = ""
			}
			says := zRight(id)
			broken := r.Intn(5) == 0
			if broken {
				says[r.Intn(2)+1] = "me"
			}
			c, raw := zConn(t, "me", says, false)
			_, dup := z.open[id]
			want := !broken && !dup && len(z.open) < z.pf.params.MaxPeers
			what := fmt.Sprintf("%d of %d peers, broken %v, known %v", len(z.open), z.pf.params.MaxPeers, broken, dup)
			if p := zz.Panics(func() { z.pf.addConn(c) }); p != nil {
				zz.Fail(t, "addConn crashes", "%s: %v", what, p)
			}
			if want {
				z.open[id] = raw
			}
			if r.Intn(6) == 0 && len(z.open) > 0 { // one leaves
				for id, raw := range z.open {
					z.pf.knownPeers.Remove(id)
					delete(z.open, id)
					_ = raw
					break
				}
			}
			if z.pf.knownPeers.Size() != len(z.open) || z.pf.knownPeers.Size() > z.pf.params.MaxPeers {
				zz.Fail(t, "the number of peers", "%d, not %d: %s", z.pf.knownPeers.Size(), len(z.open), what)
			}
			for id := range z.open {
				if !z.pf.knownPeers.Includes(id) {
					zz.Fail(t, "the known peers", "%q: %s", id, what)
				}
			}
			lates = append(lates, late{raw, want, what})
			zz.Cases(1)
		}
		var w sync.WaitGroup
		for _, l := range lates {
			l := l
			w.Add(1)
			go func() {
				defer w.Done()
				if zServed(t, l.raw) != l.want {
					zz.Fail(t, "who becomes a peer", "%s: wanted %v", l.what, l.want)
				}
				l.raw.Close()
			}()
		}
		w.Wait()
	}
}

// The factory's own loop: many come at once, some leave, some lie.
func TestVerifLoop(t *testing.T) {
	r := zz.Rng(t)
	for i := 0; i < zz.N(3); i++ {
		max := 1 + r.Intn(4)
		z := zFactory(max)
		reply := z.bus.SendPeers.SubCh()
		go z.pf.Loop()
		settle := func() { // everything sent so far is handled
			for idle := false; !idle; {
				time.Sleep(20 * time.Millisecond)
				// what was taken off before the request is handled before it
				idle = len(z.pf.newConns) == 0 && len(z.pf.subs.PeerClosing.C) == 0
				z.bus.PeersRequested.Pub(bus.PeersRequestedEvent{PeerRuntimeId: "zz"})
				select {
				case <-reply.C:
				case <-time.After(zLong):
					zz.Fail(t, "the factory's loop hangs", "")
				}
			}
		}
		for k := 0; k < 25; k++ {
			id := fmt.Sprint("p", r.Intn(7))
			if r.Intn(4) == 0 && len(z.open) > 0 {
				for id, raw := range z.open {
					raw.Close()
					delete(z.open, id)
					break
				}
				for end := time.Now().Add(zLong); z.pf.knownPeers.Size() != len(z.open) && time.Now().Before(end); {
					time.Sleep(20 * time.Millisecond)
					settle()
				}
			} else if _, dup := z.open[id]; !dup && len(z.open) < max {
				c, raw := zConn(t, "me", zRight(id), false)
				z.pf.newConns <- c
				settle()
				if !zServed(t, raw) {
					zz.Fail(t, "who becomes a peer", "%q is refused with %d of %d peers", id, len(z.open), max)
				}
				z.open[id] = raw
			} else {
				c, raw := zConn(t, "me", zRight(id), false)
				z.pf.newConns <- c
				settle()
				zDropped(t, raw, fmt.Sprintf("%q with %d of %d peers, known %v", id, len(z.open), max, dup))
			}
			settle()
			if z.pf.knownPeers.Size() != len(z.open) {
				zz.Fail(t, "the number of peers", "%d, not %d", z.pf.knownPeers.Size(), len(z.open))
			}
			zz.Cases(1)
		}
		for _, raw := range z.open {
			raw.Close()
		}
	}
}

// zDropped sees that nobody serves it; the end comes a second later.
func zDropped(t *testing.T, raw *net.TCPConn, what string) {
	zPut(raw, "cmd:ping")
	go func() {
		time.Sleep(5 * time.Second)
		raw.Close()
	}()
	raw.SetReadDeadline(time.Now().Add(zLong))
	for {
		s, err := zGet(raw)
		if s == "ack:ping" {
			zz.Fail(t, "who becomes a peer", "%s", what)
		}
		if s == "cmd:close" || err != nil {
			return
		}
	}
}
