// internal/peerfactory: which connections become peers
package pkg/prot
// the connections a peer loop was started for, and those being closed
ghost var $upgraded arr[ref]bool
ghost var $closing arr[ref]bool
trusted func Conn.CloseIfPossible(c, alternatives) { modifies $closing  ensures $closing == store(old($closing), c, true) }
ref net.TCPAddr
extern net.IP.String(ip)(r) { }
trusted func Conn.LocalAddr(c)(r) { ensures r != nil }
package internal/peer
trusted func NewPeer(b, i, conn, curHead)(r) { ensures r.conn == conn }
trusted func Peer.Loop(p) { async  modifies $upgraded  ensures $upgraded == store(old($upgraded), p.conn, true) }
package internal/peerfactory
trusted func PeerFactory.listen(pf) { async }
func PeerFactory.addConn(pf, conn) [C17] {
	requires !isnil(pf.knownPeers) && !isnil(pf.bus) && pf.bus.ShouldAnnounceAddr != nil
	modifies pf, $upgraded, $closing, $pubs, $said
	ensures "taken exactly when there is room" conn.err == nil && card(old(deref(pf.knownPeers).s)) < pf.params.MaxPeers && !(conn.peerRuntimeId in old(deref(pf.knownPeers).s)) ==> $upgraded == store(old($upgraded), conn, true) && $closing == old($closing) && forall id str :: {id in deref(pf.knownPeers).s} (id in deref(pf.knownPeers).s) == (id in old(deref(pf.knownPeers).s) || id == conn.peerRuntimeId)
	ensures "otherwise closed" !(conn.err == nil && card(old(deref(pf.knownPeers).s)) < pf.params.MaxPeers && !(conn.peerRuntimeId in old(deref(pf.knownPeers).s))) ==> $upgraded == old($upgraded) && $closing == store(old($closing), conn, true) && deref(pf.knownPeers).s == old(deref(pf.knownPeers).s)
	ensures "never more than the limit" card(old(deref(pf.knownPeers).s)) <= pf.params.MaxPeers ==> card(deref(pf.knownPeers).s) <= pf.params.MaxPeers
	ensures pf.params.MaxPeers == old(pf.params.MaxPeers) && pf.params.RuntimeId == old(pf.params.RuntimeId)
}
