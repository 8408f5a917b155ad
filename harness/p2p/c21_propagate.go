package p2p

import (
	"net"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/verifnd"
)

// VerifPropagate: a block is sent to exactly those connected peers that are
// behind it, as far as they have told, once.
//
//verif:harness property=C21 delays=0 t.delays=1 t.timeout=600
//verif:bound two connected peers that have told every height and difficulty, in a ping or pong; blocks of every height and difficulty; twice the same block or one block
func VerifPropagate() {
	s, conns := vConnected(vNewChain(1, 1), nil, vPeer, vOther)
	b := vBlock(verifnd.U64("height"), verifnd.U64("difficulty"))
	body := vBody(b)
	type told struct{ h, td uint64 }
	ts := map[string]told{}
	for _, a := range []string{vPeer, vOther} {
		t := told{verifnd.U64("peer height"), verifnd.U64("peer difficulty")}
		ts[a] = t
		typ := consensus.MsgTypePong
		if verifnd.Bool("ping") {
			typ = consensus.MsgTypePing
		}
		conns[a].in <- vFrame(uint8(typ), vCat(c03Be(8, t.td), c03Be(8, t.h)))
		verifnd.WaitIdle()
		conns[a].out = nil
	}
	times := 1 + verifnd.Choose("again", 2)
	for k := 0; k < times; k++ {
		s.Pool.PropagateBlock(b)
		verifnd.WaitIdle()
	}
	for _, a := range []string{vPeer, vOther} {
		types, bodies := vFrames(conns[a].out)
		if t := ts[a]; t.h < b.Header.Height || t.td < uint64(b.Header.TotalDifficulty) {
			// a peer that was sent a block may be known to have it
			verifnd.Assert(len(types) == 1 || len(types) == times, "a block reaches who is behind it, once")
			for k := range types {
				verifnd.Assert(types[k] == consensus.MsgTypeBlock && string(bodies[k]) == string(body), "the block arrives as it is")
			}
			verifnd.Cover("behind")
		} else {
			verifnd.Assert(len(types) == 0, "a block isn't sent to who has it")
			verifnd.Cover("not behind")
		}
		verifnd.Assert(!conns[a].isClosed(), "peers stay connected")
	}
}

// VerifPropagateGone: blocks don't reach peers that aren't connected any more
// or never were, and these hold nobody up.
//
//verif:harness property=C21 delays=1 preempt=1 shards=6 cost=30 t.delays=2 t.timeout=800
//verif:bound two connected peers, one of which {is there, hung up, is banned, reads nothing more, fails on write, hangs up right then}, and one that can't be connected; two blocks one after the other; every schedule with at most one preemption and one (thorough: two) delays
func VerifPropagateGone() {
	s, conns := vConnected(vNewChain(1, 1), nil, vPeer, vOther)
	c, o := conns[vPeer], conns[vOther]
	verifnd.Dialer = func(string) (net.Conn, error) { return nil, errVClosed }
	k := verifnd.Shard(6)
	switch k {
	case 1:
		close(c.in)
		verifnd.WaitIdle()
	case 2:
		s.Pool.Ban(vPeer)
		verifnd.WaitIdle()
	case 3:
		c.hang()
	case 4:
		c.fail()
	case 5:
		close(c.in)
	}
	b1, b2 := vBlock(5, 5), vBlock(6, 6)
	want := []string{string(vBody(b1)), string(vBody(b2))}
	s.Pool.PropagateBlock(b1)
	s.Pool.PropagateBlock(b2)
	verifnd.WaitIdle()
	for _, a := range []string{vPeer, vOther} {
		types, bodies := vFrames(conns[a].out)
		got := map[string]int{}
		for i, t := range types {
			verifnd.Assert(t == consensus.MsgTypeBlock, "only the blocks are sent")
			got[string(bodies[i])]++
		}
		n := 0
		for _, w := range want {
			verifnd.Assert(got[w] <= 1, "a block is sent once")
			n += got[w]
		}
		verifnd.Assert(n == len(types), "the blocks arrive as they are")
		if a == vOther || k == 0 {
			verifnd.Assert(n == 2, "a peer gets the blocks whatever the others do")
		} else if k != 5 {
			verifnd.Assert(n == 0, "who is gone gets nothing")
		}
	}
	verifnd.Assert(!o.isClosed(), "the other peer stays connected")
	if k == 3 {
		// a peer that hangs can still be banned, and is let go of
		s.Pool.Ban(vPeer)
		verifnd.WaitIdle()
	}
	verifnd.Assert(k == 0 || c.isClosed(), "who is gone is let go of")
	verifnd.Cover("end")
	s.Stop()
	vRound()
	vRound()
	verifnd.Assert(verifnd.Blocked() == 0, "nothing stays behind")
}

// VerifPropagateChain: a block that came from a peer and was accepted goes to
// the peers behind it, and not back; neither do others' blocks.
//
//verif:harness property=C21 delays=0 t.delays=1 t.timeout=600
//verif:bound three connected peers at every height and difficulty; one of them sends a block of every height and difficulty, another sends it as well, or not; a chain at every height
func VerifPropagateChain() {
	const third = "10.1.2.5:13414"
	all := []string{vPeer, vOther, third}
	h := verifnd.U64("height")
	chn := vNewChain(h, h)
	s, conns := vConnected(chn, nil, all...)
	b := vBlock(verifnd.U64("block height"), verifnd.U64("block difficulty"))
	body := vBody(b)
	behind := map[string]bool{}
	for _, a := range all {
		ph, ptd := verifnd.U64("peer height"), verifnd.U64("peer difficulty")
		behind[a] = ph < b.Header.Height || ptd < uint64(b.Header.TotalDifficulty)
		i := s.Pool.PeerInfo(a)
		i.Lock()
		i.Height, i.TotalDifficulty = ph, consensus.Difficulty(ptd)
		i.Unlock()
	}
	senders := 1 + verifnd.Choose("senders", 2)
	for _, a := range all[:senders] {
		conns[a].in <- vFrame(consensus.MsgTypeBlock, body)
		verifnd.WaitIdle()
	}
	for k, a := range all {
		types, bodies := vFrames(conns[a].out)
		if k == 0 {
			verifnd.Assert(len(types) == 0, "a block isn't sent back")
			continue
		}
		if b.Header.Height > h && behind[a] {
			verifnd.Assert(len(types) >= 1 && len(types) <= senders, "a new top of the chain reaches who is behind it")
			for i := range types {
				verifnd.Assert(types[i] == consensus.MsgTypeBlock && string(bodies[i]) == string(body), "the block arrives as it is")
			}
			verifnd.Cover("passed on")
		} else if b.Header.Height != h || !behind[a] {
			verifnd.Assert(len(types) == 0, "a block isn't sent to who has it, nor one below the top of the chain")
			verifnd.Cover("kept")
		}
	}
}
