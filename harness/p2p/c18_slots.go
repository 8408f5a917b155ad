package p2p

import (
	"errors"
	"net"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/verifnd"
)

// c18Net is what is at the other end of dialled addresses.
type c18Net struct {
	kind   map[string]int // what happens to who dials
	conns  map[string]*vConn
	banned map[string]bool
	dials  int
}

const (
	c18Good = iota
	c18Refuses
	c18OtherChain
	c18Silent
	c18HangsUp
)

func (n *c18Net) dial(addr string) (net.Conn, error) {
	n.dials++
	verifnd.Assert(!n.banned[addr], "banned peers aren't dialled")
	if old := n.conns[addr]; old != nil {
		verifnd.Assert(old.isClosed(), "who is connected isn't dialled again")
	}
	var c *vConn
	switch n.kind[addr] {
	case c18Good:
		c = vNewConn(addr, vGoodShake(9))
	case c18Refuses:
		return nil, errors.New("connection refused")
	case c18OtherChain:
		g := make([]byte, 32)
		c = vNewConn(addr, vFrame(consensus.MsgTypeShake, vShake(1, 15, 9, nil, g)))
	case c18Silent:
		c = vNewConn(addr)
		c.silent = true
	case c18HangsUp:
		c = vNewConn(addr)
		close(c.in)
	}
	n.conns[addr] = c
	return c, nil
}

func (n *c18Net) check(s *Syncer, max int, all []string) (open int) {
	for _, a := range all {
		c := n.conns[a]
		up := c != nil && !c.isClosed()
		if up {
			open++
			verifnd.Assert(n.kind[a] == c18Good, "who didn't shake hands isn't kept connected")
		}
		i := s.Pool.PeerInfo(a)
		if i == nil {
			verifnd.Assert(!up, "who isn't a peer isn't connected")
			continue
		}
		i.Lock()
		verifnd.Assert((i.Status == psConnected) == up, "peers are known as connected while they are")
		if i.Status == psFailedConn {
			verifnd.Assert(n.kind[a] != c18Good, "only peers that can't be connected are known as such")
		}
		if up {
			verifnd.Assert(i.ProtocolVersion == 1 && i.TotalDifficulty == 9 && i.Peer != nil && i.Peer.Addr == a, "a connected peer is known as it introduced itself")
			verifnd.Assert(i.LastConn.Unix() > 1000000, "the time of the connection is known")
		}
		i.Unlock()
	}
	verifnd.Assert(open <= max, "no more connections than allowed")
	return open
}

// VerifSlots: connections are made to who can be connected, up to the limit,
// whatever the other peers do, and made again when they end.
//
//verif:harness property=C18 delays=0 shards=5 cost=60 timeout=240
//verif:bound three addresses, one of them added later, each one {good, refusing, of another chain, silent, hanging up}; at most one or two connections; one connected peer hangs up or is banned at some time; ten seconds
func VerifSlots() { c18Slots(verifnd.Shard(5), 5) }

// VerifSlotsOrder: the same under other orders of events.
//
//verif:harness property=C18 tier=thorough delays=1 shards=5 timeout=700
//verif:bound as before with the second and third address only good or refusing, and one delay of a goroutine at any point
func VerifSlotsOrder() { c18Slots(verifnd.Shard(5), 2) }

func c18Slots(first, kinds int) {
	all := []string{"10.0.0.1:3414", "10.0.0.2:3414", "10.0.0.3:3414"}
	n := &c18Net{kind: map[string]int{}, conns: map[string]*vConn{}, banned: map[string]bool{}}
	good := 0
	for i, a := range all {
		var k int
		if i == 0 {
			k = first
		} else {
			k = verifnd.Choose("kind", kinds)
		}
		n.kind[a] = k
		if k == c18Good {
			good++
		}
	}
	verifnd.Dialer = n.dial
	max := 1 + verifnd.Choose("connections", 2)
	maxOnlineConnections = max
	s := NewSyncer(all[:2], nil, nil)
	verifnd.Baseline()
	go s.Run()
	verifnd.WaitIdle()
	late, event := 1+verifnd.Choose("late", 2), verifnd.Choose("event", 3)
	for i := 0; i < 4; i++ {
		n.check(s, max, all)
		if i == late {
			s.Pool.Add(all[2])
		}
		vRound()
	}
	want := good
	if want > max {
		want = max
	}
	verifnd.Assert(n.check(s, max, all) == want, "connections are made while there are peers and places")
	if want < good {
		verifnd.Cover("full")
	}
	// one of them goes away
	for _, a := range all {
		c := n.conns[a]
		if event == 0 || c == nil || c.isClosed() {
			continue
		}
		if event == 1 {
			close(c.in)
			verifnd.WaitIdle()
			verifnd.Assert(c.isClosed(), "who hung up is let go")
			verifnd.Cover("hung up")
		} else {
			n.banned[a] = true
			good--
			s.Pool.Ban(a)
			verifnd.WaitIdle()
			verifnd.Cover("banned")
		}
		break
	}
	n.check(s, max, all)
	for i := 0; i < 3; i++ {
		vRound()
		n.check(s, max, all)
	}
	want = good
	if want > max {
		want = max
	}
	verifnd.Assert(n.check(s, max, all) == want, "connections are made again")
	s.Stop()
	vRound()
	for _, a := range all {
		if c := n.conns[a]; c != nil {
			verifnd.Assert(c.isClosed(), "stopping ends all connections")
		}
	}
	verifnd.Assert(verifnd.Blocked() == 0, "stopping ends everything")
	d := n.dials
	vRound()
	verifnd.Assert(n.dials == d, "nobody is dialled after the stop")
	verifnd.Cover("end")
}

// VerifDialing: a connection attempt that hangs holds nobody up, and a ban
// meanwhile counts.
//
//verif:harness property=C18 preempt=1 delays=1 t.preempt=2 t.delays=2 t.timeout=600
//verif:bound one peer whose connection is made while the pool is asked for peers, another peer and the same is added and the peer is banned, or not, at the first attempt or after one that failed, with one (thorough: two) preemptions and delays
func VerifDialing() {
	const a = "10.0.0.1:3414"
	conn := vNewConn(a, vGoodShake(9))
	gate, dialled := make(chan struct{}), make(chan struct{}, 9)
	again := verifnd.Bool("again")
	failed := !again
	dials := 0
	verifnd.Dialer = func(to string) (net.Conn, error) {
		if to != a {
			return vNewConn(to, vGoodShake(9)), nil
		}
		if !failed {
			failed = true
			return nil, errors.New("connection refused")
		}
		dials++
		verifnd.Assert(dials == 1 || conn.isClosed(), "who is connected isn't dialled again")
		dialled <- struct{}{}
		<-gate
		return conn, nil
	}
	s := NewSyncer([]string{a}, nil, nil)
	verifnd.Baseline()
	go s.Run()
	<-dialled
	i := s.Pool.PeerInfo(a)
	i.Lock()
	verifnd.Assert(i.Status != psConnected, "a peer isn't known as connected before it is")
	i.Unlock()
	verifnd.Assert(again || len(s.Pool.Peers(consensus.CapUnknown).peers) == 1, "peers are told while another is being connected")
	s.Pool.Add("10.0.0.2:3414")
	s.Pool.Add(a)
	ban := verifnd.Bool("ban")
	if ban {
		s.Pool.Ban(a)
	}
	close(gate)
	verifnd.WaitIdle()
	verifnd.Assert(conn.isClosed() == ban, "who was banned meanwhile isn't kept connected")
	now := s.Pool.PeerInfo(a)
	i.Lock()
	if ban {
		verifnd.Assert(i.Status == psBanned && now == nil, "who was banned stays banned")
		verifnd.Cover("banned")
	} else {
		verifnd.Assert(i.Status == psConnected, "who is connected is known as such")
		verifnd.Assert(now == i, "who is connected is a peer")
		verifnd.Cover("connected")
	}
	i.Unlock()
	vRound()
	vRound()
	s.Stop()
	vRound()
	verifnd.Assert(conn.isClosed(), "stopping ends all connections")
	verifnd.Assert(verifnd.Blocked() == 0, "stopping ends everything")
}

// VerifSlotsGone: a peer that is gone right after the handshake takes no place.
//
//verif:harness property=C18 preempt=1 delays=1 shards=4 t.preempt=2 t.timeout=600
//verif:bound at most one connection; a peer that shakes hands and right then hangs up, sends garbage, sends half a message and hangs up, or fails on write; another one that is good; one (thorough: two) preemptions and one delay
func VerifSlotsGone() {
	const a, b = "10.0.0.1:3414", "10.0.0.2:3414"
	k := verifnd.Shard(4)
	conns := map[string]*vConn{}
	verifnd.Dialer = func(to string) (net.Conn, error) {
		if conns[to] != nil {
			return nil, errors.New("connection refused")
		}
		var c *vConn
		if to == b {
			c = vNewConn(b, vGoodShake(9))
		} else if k == 3 {
			c = vNewConn(a, vGoodShake(9))
			c.limited = 1
		} else {
			c = vNewConn(a, vCat(vGoodShake(9), [][]byte{nil, []byte("garbage garbage"), vFrame(consensus.MsgTypePing, make([]byte, 16))[:13]}[k]))
			close(c.in)
		}
		conns[to] = c
		return c, nil
	}
	maxOnlineConnections = 1
	s := NewSyncer([]string{a}, nil, nil)
	verifnd.Baseline()
	go s.Run()
	verifnd.WaitIdle()
	i := s.Pool.PeerInfo(a)
	s.Pool.Add(b)
	vRound()
	vRound()
	verifnd.Assert(conns[a] != nil && conns[a].isClosed(), "who is gone is let go of")
	i.Lock()
	verifnd.Assert(i.Status != psConnected, "who is gone isn't known as connected")
	i.Unlock()
	vRound()
	vRound()
	verifnd.Assert(conns[b] != nil && !conns[b].isClosed(), "another peer gets the place")
	s.Stop()
	vRound()
	vRound()
	verifnd.Assert(verifnd.Blocked() == 0, "stopping ends everything")
	verifnd.Cover("end")
}
