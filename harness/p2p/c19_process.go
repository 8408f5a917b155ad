package p2p

import (
	"bytes"
	"net"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/verifnd"
)

// VerifProcessPing: a ping is answered with the state of the chain, and pings
// and pongs tell the state of the peer's.
//
//verif:harness property=C19 delays=0
//verif:bound two messages, each a ping or pong with every height and difficulty, on chains of every height and difficulty
func VerifProcessPing() {
	h, td := verifnd.U64("height"), verifnd.U64("difficulty")
	s, conns := vConnected(vNewChain(h, td), nil, vPeer)
	c := conns[vPeer]
	for k := 0; k < 2; k++ {
		ph, ptd := verifnd.U64("peer height"), verifnd.U64("peer difficulty")
		body := vCat(c03Be(8, ptd), c03Be(8, ph))
		c.out = nil
		if verifnd.Bool("ping") {
			c.in <- vFrame(consensus.MsgTypePing, body)
			verifnd.WaitIdle()
			vExpect(c, consensus.MsgTypePong, vCat(c03Be(8, td), c03Be(8, h)), "ping")
			verifnd.Cover("ping")
		} else {
			c.in <- vFrame(consensus.MsgTypePong, body)
			verifnd.WaitIdle()
			vExpect(c, 255, nil, "pong")
			verifnd.Cover("pong")
		}
		verifnd.Assert(!c.isClosed(), "the peer stays connected")
		i := s.Pool.PeerInfo(vPeer)
		verifnd.Assert(i != nil && i.Height == ph && uint64(i.TotalDifficulty) == ptd, "the peer's chain is known as told")
	}
}

// VerifProcessAddrs: questions for peers are answered with the peers that have
// the capabilities asked for, and peers told are taken up.
//
//verif:harness property=C19 delays=0
//verif:bound every capability set of the peer and asked for; lists of up to 2 addresses of every IPv4 address and port
func VerifProcessAddrs() {
	s, conns := vConnected(vNewChain(1, 1), nil, vPeer)
	c := conns[vPeer]
	if verifnd.Bool("asked") {
		caps, asked := verifnd.U32("capabilities"), verifnd.U32("asked for")
		i := s.Pool.PeerInfo(vPeer)
		i.Lock()
		i.Capabilities = consensus.Capabilities(caps)
		i.Unlock()
		c.in <- vFrame(consensus.MsgTypeGetPeerAddrs, c03Be(4, uint64(asked)))
		verifnd.WaitIdle()
		if caps&asked == asked {
			vExpect(c, consensus.MsgTypePeerAddrs, []byte{0, 0, 0, 1, 0, 10, 1, 2, 3, 0x34, 0x66}, "question for peers")
			verifnd.Cover("peers")
		} else {
			vExpect(c, consensus.MsgTypePeerAddrs, []byte{0, 0, 0, 0}, "question for peers")
			verifnd.Cover("no peers")
		}
		verifnd.Assert(!c.isClosed(), "the peer stays connected")
		return
	}
	n := verifnd.Choose("n", 3)
	b := c03Be(4, uint64(n))
	var ips [][]byte
	for k := 0; k < n; k++ {
		// the rest stays symbolic: addresses become text
		ip := []byte{[]byte{9, 224}[verifnd.Choose("first", 2)], 0, 0, byte(1 + verifnd.Choose("last", 2))}
		ip = append(ip, 0, byte(verifnd.Choose("port", 2)))
		ips = append(ips, ip)
		b = vCat(b, []byte{0}, ip)
	}
	c.in <- vFrame(consensus.MsgTypePeerAddrs, b)
	verifnd.WaitIdle()
	vExpect(c, 255, nil, "peers")
	verifnd.Assert(!c.isClosed(), "the peer stays connected")
	want := map[string]bool{vPeer: true}
	for _, ip := range ips {
		a := (&net.TCPAddr{IP: ip[:4], Port: int(ip[5])}).String()
		ok := ip[0] != 224 && ip[5] != 0
		if ok {
			want[a] = true
		}
		verifnd.Assert((s.Pool.PeerInfo(a) != nil) == ok, "peers told are taken up")
	}
	verifnd.Assert(len(s.Pool.Peers(consensus.CapUnknown).peers) == len(want), "only peers told are taken up")
	verifnd.Cover("told")
}

// VerifProcessHeaders: headers reach the chain; who sends invalid ones is
// banned, questions for headers are answered.
//
//verif:harness property=C19 delays=0
//verif:bound lists of 0..2 headers, one header message, a question with 0..2 hashes; a chain that accepts or refuses
func VerifProcessHeaders() {
	chn := vNewChain(1, 1)
	chn.refuse = verifnd.Bool("refuse")
	s, conns := vConnected(chn, nil, vPeer)
	c := conns[vPeer]
	var hs []consensus.BlockHeader
	for k, n := 0, verifnd.Choose("headers", 3); k < n; k++ {
		h := vHeader(uint64(k + 7))
		hs = append(hs, h)
	}
	kind := verifnd.Choose("kind", 3)
	banned := false
	switch kind {
	case 0:
		m := BlockHeaders{Headers: hs}
		c.in <- vFrame(consensus.MsgTypeHeaders, vBody(&m))
		verifnd.WaitIdle()
		banned = chn.refuse
		verifnd.Assert(len(chn.got) == 1 && len(chn.got[0]) == len(hs), "headers reach the chain")
		if len(chn.got) == 1 && len(chn.got[0]) == len(hs) {
			for k := range hs {
				verifnd.Assert(bytes.Equal(chn.got[0][k].Hash(), hs[k].Hash()), "headers reach the chain as they were sent")
			}
		}
		verifnd.Cover("headers")
	case 1:
		h := vHeader(9)
		m := BlockHeader{Header: h}
		c.in <- vFrame(consensus.MsgTypeHeader, vBody(&m))
		verifnd.WaitIdle()
		verifnd.Assert(len(chn.got) == 1 && len(chn.got[0]) == 1 && bytes.Equal(chn.got[0][0].Hash(), h.Hash()), "a header reaches the chain")
		banned = c.isClosed() // left open
		verifnd.Assert(!banned || chn.refuse, "who sends a valid header isn't banned")
		verifnd.Cover("header")
	case 2:
		chn.headers = hs
		var loc consensus.Locator
		for k, n := 0, verifnd.Choose("hashes", 3); k < n; k++ {
			loc.Hashes = append(loc.Hashes, verifnd.Bytes("hash", 32))
		}
		q := GetBlockHeaders{Locator: loc}
		c.in <- vFrame(consensus.MsgTypeGetHeaders, vBody(&q))
		verifnd.WaitIdle()
		verifnd.Assert(len(chn.loc) == 1 && len(chn.loc[0].Hashes) == len(loc.Hashes), "the chain is asked")
		for k := range loc.Hashes {
			verifnd.Assert(bytes.Equal(chn.loc[0].Hashes[k], loc.Hashes[k]), "the chain is asked what the peer asked")
		}
		m := BlockHeaders{Headers: hs}
		vExpect(c, consensus.MsgTypeHeaders, vBody(&m), "question for headers")
		verifnd.Cover("asked")
	}
	if kind != 2 {
		vExpect(c, 255, nil, "headers")
	}
	verifnd.Assert(c.isClosed() == banned, "who sends invalid headers, and nobody else, is let go")
	verifnd.Assert((s.Pool.PeerInfo(vPeer) == nil) == banned, "who sends invalid headers, and nobody else, is banned")
	if banned {
		verifnd.Cover("banned")
	}
}

// VerifProcessBlock: blocks reach the chain; who sends an invalid one is
// banned and it goes nowhere; a new top of the chain is passed on. Questions
// for a block are answered if it is known.
//
//verif:harness property=C19 delays=0
//verif:bound blocks of every height and difficulty, peers and chains of every height and difficulty; a chain that accepts or refuses
func VerifProcessBlock() {
	h, td := verifnd.U64("height"), verifnd.U64("difficulty")
	chn := vNewChain(h, td)
	b := vBlock(verifnd.U64("block height"), verifnd.U64("block difficulty"))
	if verifnd.Bool("asked") {
		_, conns := vConnected(chn, nil, vPeer)
		c := conns[vPeer]
		hash := verifnd.Bytes("hash", 32)
		known := verifnd.Bool("known")
		if known {
			chn.known = b
		}
		c.in <- vFrame(consensus.MsgTypeGetBlock, append([]byte(nil), hash...))
		verifnd.WaitIdle()
		verifnd.Assert(len(chn.asked) == 1 && bytes.Equal(chn.asked[0], hash), "the chain is asked for the block")
		if known {
			vExpect(c, consensus.MsgTypeBlock, vBody(b), "question for a block")
			verifnd.Cover("block known")
		} else {
			vExpect(c, 255, nil, "question for a block")
			verifnd.Cover("block unknown")
		}
		verifnd.Assert(!c.isClosed(), "the peer stays connected")
		return
	}
	chn.refuse = verifnd.Bool("refuse")
	s, conns := vConnected(chn, nil, vPeer, vOther)
	c, o := conns[vPeer], conns[vOther]
	i, j := s.Pool.PeerInfo(vPeer), s.Pool.PeerInfo(vOther)
	ph, ptd := verifnd.U64("peer height"), verifnd.U64("peer difficulty")
	oh, otd := verifnd.U64("other height"), verifnd.U64("other difficulty")
	i.Lock()
	i.Height, i.TotalDifficulty = ph, consensus.Difficulty(ptd)
	i.Unlock()
	j.Lock()
	j.Height, j.TotalDifficulty = oh, consensus.Difficulty(otd)
	j.Unlock()
	body := vBody(b)
	bh, btd := b.Header.Height, uint64(b.Header.TotalDifficulty)
	c.in <- vFrame(consensus.MsgTypeBlock, body)
	verifnd.WaitIdle()
	verifnd.Assert(len(chn.blocks) == 1 && chn.blocks[0].Header.Height == bh, "blocks reach the chain, once")
	if chn.refuse {
		verifnd.Assert(c.isClosed() && s.Pool.PeerInfo(vPeer) == nil, "who sends an invalid block is banned")
		vExpect(o, 255, nil, "invalid block")
		verifnd.Assert(!o.isClosed() && s.Pool.PeerInfo(vOther) == j, "nobody else is banned")
		verifnd.Cover("refused")
		return
	}
	verifnd.Assert(!c.isClosed() && !o.isClosed(), "who sends a valid block stays connected")
	verifnd.Assert((ptd >= btd && ph >= bh || i.Height >= bh && uint64(i.TotalDifficulty) >= btd) &&
		(i.Height == ph || i.Height == bh) && (uint64(i.TotalDifficulty) == ptd || uint64(i.TotalDifficulty) == btd), "who sends a block has it")
	verifnd.Assert(j.Height == oh && uint64(j.TotalDifficulty) == otd, "who didn't send it isn't known to have it")
	vExpect(c, 255, nil, "block")
	if behind := oh < bh || otd < btd; bh == h && behind {
		// a block beside the top of the chain, left open
		verifnd.Cover("beside")
	} else if bh > h && behind {
		vExpect(o, consensus.MsgTypeBlock, body, "new block at the other peer")
		verifnd.Cover("passed on")
	} else {
		vExpect(o, 255, nil, "block not for the other peer")
		verifnd.Cover("kept")
	}
}

// VerifProcessTx: transactions reach the mempool, if there is one; who sends
// an invalid one is banned.
//
//verif:harness property=C19 delays=0
//verif:bound an empty transaction and one with a kernel; a mempool that accepts or refuses, or none
func VerifProcessTx() {
	var m *vMempool
	var mp Mempool
	k := verifnd.Choose("mempool", 3)
	if k > 0 {
		m = &vMempool{refuse: k == 2}
		mp = m
	}
	s, conns := vConnected(vNewChain(1, 1), mp, vPeer)
	c := conns[vPeer]
	var tx consensus.Transaction
	c.in <- vFrame(consensus.MsgTypeTransaction, vBody(&tx))
	verifnd.WaitIdle()
	vExpect(c, 255, nil, "transaction")
	verifnd.Assert(c.isClosed() == (k == 2) && (s.Pool.PeerInfo(vPeer) == nil) == (k == 2), "who sends an invalid transaction, and nobody else, is banned")
	if m != nil {
		verifnd.Assert(len(m.got) == 1, "transactions reach the mempool")
	}
	verifnd.Cover([]string{"none", "accepted", "refused"}[k])
}

// VerifProcessBad: who sends something that isn't a message is let go, and
// nothing reaches the chain.
//
//verif:harness property=C19 delays=0
//verif:bound frames with every magic, of every type that has no meaning after the handshake, with every length of 0..2 or above the limit; pings that are too short
func VerifProcessBad() {
	chn := vNewChain(1, 1)
	s, conns := vConnected(chn, nil, vPeer)
	c := conns[vPeer]
	var f []byte
	switch verifnd.Choose("kind", 4) {
	case 0: // magic
		f = vFrame(consensus.MsgTypePing, make([]byte, 16))
		f[0], f[1] = verifnd.U8("magic"), verifnd.U8("magic")
		verifnd.Assume(f[0] != 0x54 || f[1] != 0x34)
		verifnd.Cover("magic")
	case 1: // type
		t := verifnd.U8("type")
		verifnd.Assume(t <= consensus.MsgTypeShake || t > consensus.MsgTypeTransactionKernel)
		f = vFrame(t, verifnd.Bytes("body", verifnd.Choose("n", 3)))
		verifnd.Cover("type")
	case 2: // length
		n := verifnd.U64("length")
		verifnd.Assume(n > consensus.MaxMsgLen)
		f = append(vFrame(consensus.MsgTypePing, nil)[:3], c03Be(8, n)...)
		f = append(f, make([]byte, 16)...)
		verifnd.Cover("length")
	case 3: // body
		f = vFrame(consensus.MsgTypePing, make([]byte, verifnd.Choose("n", 16)))
		verifnd.Cover("body")
	}
	c.in <- f
	verifnd.WaitIdle()
	verifnd.Assert(c.isClosed(), "who sends something else than messages is let go")
	verifnd.Assert(len(chn.blocks) == 0 && len(chn.got) == 0 && len(chn.asked) == 0 && len(chn.loc) == 0, "nothing reaches the chain")
	i := s.Pool.PeerInfo(vPeer)
	verifnd.Assert(i == nil || i.Height == 0, "nothing is learnt of the peer")
}

// VerifProcessLate: a message of a peer that isn't known any more changes
// nothing.
//
//verif:harness property=C19 delays=0
//verif:bound one message of each kind handed over after the ban of its sender
func VerifProcessLate() {
	chn := vNewChain(1, 1)
	s, conns := vConnected(chn, nil, vPeer)
	p := s.Pool.PeerInfo(vPeer).Peer
	s.Pool.Ban(vPeer)
	verifnd.WaitIdle()
	msgs := []Message{&Ping{}, &Pong{}, &GetPeerAddrs{}, &PeerAddrs{}, &GetBlockHeaders{}, &BlockHeader{}, &BlockHeaders{}, &GetBlock{}, vBlock(3, 3), &consensus.Transaction{}}
	s.ProcessMessage(p, msgs[verifnd.Choose("message", len(msgs))])
	verifnd.WaitIdle()
	verifnd.Assert(len(chn.blocks) == 0 && len(chn.got) == 0, "nothing of a banned peer reaches the chain")
	vExpect(conns[vPeer], 255, nil, "banned peer")
	verifnd.Cover("end")
}
