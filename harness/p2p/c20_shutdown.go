package p2p

import (
	"net"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/verifnd"
)

// VerifPeerEnd: however a connection ends, it is closed, whoever sends on it
// or waits for its end goes on, and nothing of it stays behind.
//
//verif:harness property=C20 preempt=2 shards=9 states=3000000 cost=30 t.preempt=3 t.timeout=800
//verif:bound one connected peer with a goroutine sending, one waiting for the end and two ends at once out of {remote hangs up between, within the head or within the body of a message, writes fail, garbage arrives, closed locally}; every schedule with at most two (thorough: three) preemptions
func VerifPeerEnd() {
	conn := vNewConn(vPeer, vGoodShake(1))
	verifnd.Dialer = func(string) (net.Conn, error) { return conn, nil }
	s := NewSyncer(nil, vNewChain(1, 1), nil)
	p, err := NewPeer(s, vPeer)
	if err != nil {
		verifnd.Assert(false, "a good peer is accepted")
		return
	}
	verifnd.Baseline()
	p.Start()
	ends := [][]int{{0, 3}, {0, 1}, {1, 3}, {2, 3}, {3, 3}, {1, 2}, {4}, {5}, {2}}[verifnd.Shard(9)]
	waited, sent := false, 0
	go func() {
		p.WaitForDisconnect()
		waited = true
	}()
	go func() {
		p.SendPing()
		sent++
		p.SendPing()
		sent++
	}()
	for _, e := range ends {
		switch e {
		case 0:
			close(conn.in)
		case 1:
			conn.fail()
		case 2:
			conn.in <- vFrame(200, nil)
		case 3:
			p.Close()
		case 4:
			conn.in <- vFrame(consensus.MsgTypePing, make([]byte, 16))[:13]
			close(conn.in)
		case 5:
			conn.in <- vFrame(consensus.MsgTypePing, nil)[:5]
			close(conn.in)
		}
	}
	verifnd.WaitIdle()
	verifnd.Assert(conn.isClosed(), "the connection is closed")
	verifnd.Assert(waited, "who waits for the end goes on")
	verifnd.Assert(sent == 2, "who sends goes on")
	verifnd.Assert(verifnd.Blocked() == 0, "nothing stays behind")
	p.Close()
	p.WaitForDisconnect()
	verifnd.Cover("end")
}

// VerifBanEnd: a peer banned for what it sent ends as any other, also if the
// pool is stopped or somebody else bans it meanwhile.
//
//verif:harness property=C20 preempt=2 delays=2 shards=5 states=3000000 cost=30 t.preempt=3 t.delays=2 t.timeout=800
//verif:bound one connected peer that sends an invalid block while {nothing, the pool is stopped, the peer is banned, it hangs up, a block is propagated}; every schedule with at most two (thorough: three) preemptions and two delays
func VerifBanEnd() {
	chn := vNewChain(1, 1)
	chn.refuse = true
	s, conns := vConnected(chn, nil, vPeer)
	c := conns[vPeer]
	i := s.Pool.PeerInfo(vPeer)
	c.in <- vFrame(consensus.MsgTypeBlock, vBody(vBlock(5, 5)))
	k := verifnd.Shard(5)
	switch k {
	case 1:
		s.Stop()
	case 2:
		s.Pool.Ban(vPeer)
	case 3:
		close(c.in)
	case 4:
		s.Pool.PropagateBlock(vBlock(7, 7))
	}
	verifnd.WaitIdle()
	verifnd.Assert(c.isClosed(), "the connection is closed")
	if k != 1 {
		s.Stop()
	}
	vRound()
	vRound()
	verifnd.Assert(verifnd.Blocked() == 0, "nothing stays behind")
	now := s.Pool.PeerInfo(vPeer)
	i.Lock()
	if len(chn.blocks) > 0 {
		verifnd.Assert(i.Status == psBanned || k == 1, "who was banned stays so")
		verifnd.Assert(now == nil, "who was banned isn't a peer")
	}
	verifnd.Assert(i.Status != psConnected, "who was let go isn't connected")
	i.Unlock()
	verifnd.Cover("end")
}
