package p2p

import (
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/verifnd"
)

// VerifRaceMessages: messages from two peers at once, while the node is used.
//
//verif:harness property=C22 race=on delays=0 preempt=1 shards=7 cost=30 t.delays=1 t.timeout=800
//verif:bound two connected peers that send {ping, pong, question for peers, peers, block, headers, transaction} each, while the pool is asked for peers and told one; every schedule with at most one preemption
func VerifRaceMessages() {
	chn := vNewChain(5, 5)
	chn.quiet = true
	s, conns := vConnected(chn, &vMempool{quiet: true}, vPeer, vOther)
	msg := func(k int) []byte {
		switch k {
		case 0:
			return vFrame(consensus.MsgTypePing, make([]byte, 16))
		case 1:
			return vFrame(consensus.MsgTypePong, make([]byte, 16))
		case 2:
			return vFrame(consensus.MsgTypeGetPeerAddrs, make([]byte, 4))
		case 3:
			return vFrame(consensus.MsgTypePeerAddrs, []byte{0, 0, 0, 1, 0, 9, 9, 9, 9, 1, 1})
		case 4:
			return vFrame(consensus.MsgTypeBlock, vBody(vBlock(5, 5)))
		case 5:
			return vFrame(consensus.MsgTypeHeaders, vBody(&BlockHeaders{}))
		}
		return vFrame(consensus.MsgTypeTransaction, vBody(&consensus.Transaction{}))
	}
	conns[vPeer].in <- msg(verifnd.Shard(7))
	conns[vOther].in <- msg(verifnd.Choose("other", 7))
	s.Pool.Peers(consensus.CapUnknown)
	s.Pool.Add("10.9.9.9:1")
	verifnd.WaitIdle()
	verifnd.Assert(!conns[vPeer].isClosed() && !conns[vOther].isClosed(), "peers stay connected")
	verifnd.Cover("end")
}

// VerifRaceEnd: connections end while the node is used.
//
//verif:harness property=C22 race=on delays=1 preempt=1 shards=4 cost=30 t.preempt=2 t.timeout=800
//verif:bound one connected peer and one that can't be connected; the peer {hangs up, is banned, sends an invalid block, is closed by the stop of the pool} while the pool is asked for peers and propagates a block; every schedule with at most one preemption and delay
func VerifRaceEnd() {
	chn := vNewChain(5, 5)
	chn.quiet = true
	chn.refuse = true
	s, conns := vConnected(chn, nil, vPeer)
	s.Pool.Add(vOther)
	c := conns[vPeer]
	verifnd.Dialer = nil
	switch verifnd.Shard(4) {
	case 0:
		close(c.in)
	case 1:
		s.Pool.Ban(vPeer)
	case 2:
		c.in <- vFrame(consensus.MsgTypeBlock, vBody(vBlock(5, 5)))
	case 3:
		s.Stop()
	}
	s.Pool.PropagateBlock(vBlock(7, 7))
	s.Pool.Peers(consensus.CapUnknown)
	vRound()
	verifnd.Assert(c.isClosed(), "the connection ended")
	verifnd.Cover("end")
}

// VerifRacePropagate: one block is sent to several peers at once.
//
//verif:harness property=C22 race=on delays=1 preempt=1 shards=2 cost=30 t.delays=2 t.timeout=800
//verif:bound a block with two inputs, propagated to two peers; every schedule with at most one preemption and delay (thorough: two delays)
func VerifRacePropagate() {
	chn := vNewChain(5, 5)
	chn.quiet = true
	s, conns := vConnected(chn, nil, vPeer, vOther)
	b := vBlock(5, 5)
	b.Inputs = consensus.InputList{{Commit: make([]byte, 33)}, {Commit: make([]byte, 33)}}
	b.Inputs[0].Commit[5], b.Inputs[1].Commit[5] = 1, 2
	if verifnd.Shard(2) == 1 {
		b.Inputs[0], b.Inputs[1] = b.Inputs[1], b.Inputs[0]
	}
	s.Pool.PropagateBlock(b)
	verifnd.WaitIdle()
	want := vBody(b)
	vExpect(conns[vPeer], consensus.MsgTypeBlock, want, "propagated block")
	vExpect(conns[vOther], consensus.MsgTypeBlock, want, "propagated block")
	verifnd.Cover("end")
}

// VerifRaceServe: one known block is asked for by several peers at once.
//
//verif:harness property=C22 race=on delays=1 preempt=1 shards=2 cost=30 t.delays=2 t.timeout=800
//verif:bound a block with two inputs, asked for by two peers at once; every schedule with at most one preemption and delay (thorough: two delays)
func VerifRaceServe() {
	chn := vNewChain(5, 5)
	chn.quiet = true
	b := vBlock(5, 5)
	b.Inputs = consensus.InputList{{Commit: make([]byte, 33)}, {Commit: make([]byte, 33)}}
	b.Inputs[0].Commit[5], b.Inputs[1].Commit[5] = 1, 2
	if verifnd.Shard(2) == 1 {
		b.Inputs[0], b.Inputs[1] = b.Inputs[1], b.Inputs[0]
	}
	chn.known = b
	_, conns := vConnected(chn, nil, vPeer, vOther)
	conns[vPeer].in <- vFrame(consensus.MsgTypeGetBlock, make([]byte, 32))
	conns[vOther].in <- vFrame(consensus.MsgTypeGetBlock, make([]byte, 32))
	verifnd.WaitIdle()
	want := vBody(b)
	vExpect(conns[vPeer], consensus.MsgTypeBlock, want, "block asked for")
	vExpect(conns[vOther], consensus.MsgTypeBlock, want, "block asked for")
	verifnd.Cover("end")
}
