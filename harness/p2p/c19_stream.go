package p2p

import (
	"bytes"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/verifnd"
)

// VerifProcessStream: messages are taken in order and answered in order,
// however the stream is cut into pieces.
//
//verif:harness property=C19 delays=0 t.delays=1 t.timeout=800
//verif:bound three messages {ping, question for a block, for peers, for headers, block} in a row of ten orders, in two pieces cut at every place or in pieces of 1..3 bytes, with something behind the last message or not
func VerifProcessStream() {
	chn := vNewChain(7, 8)
	b := vBlock(2, 2)
	chn.known = b
	_, conns := vConnected(chn, nil, vPeer)
	c := conns[vPeer]
	hs := BlockHeaders{}
	orders := [][3]int{{0, 1, 2}, {0, 0, 1}, {1, 0, 0}, {2, 0, 1}, {3, 0, 2}, {4, 0, 1}, {0, 4, 0}, {1, 3, 4}, {2, 2, 2}, {0, 1, 4}}
	order := orders[verifnd.Choose("order", len(orders))]
	var stream []byte
	var types []uint8
	var bodies [][]byte
	blocks := 0
	for _, k := range order {
		switch k {
		case 0:
			stream = append(stream, vFrame(consensus.MsgTypePing, make([]byte, 16))...)
			types, bodies = append(types, consensus.MsgTypePong), append(bodies, vCat(c03Be(8, 8), c03Be(8, 7)))
		case 1:
			stream = append(stream, vFrame(consensus.MsgTypeGetBlock, make([]byte, 32))...)
			types, bodies = append(types, consensus.MsgTypeBlock), append(bodies, vBody(b))
		case 2:
			stream = append(stream, vFrame(consensus.MsgTypeGetPeerAddrs, []byte{0, 0, 0x80, 0})...)
			types, bodies = append(types, consensus.MsgTypePeerAddrs), append(bodies, []byte{0, 0, 0, 0})
		case 3:
			var q GetBlockHeaders
			stream = append(stream, vFrame(consensus.MsgTypeGetHeaders, vBody(&q))...)
			types, bodies = append(types, consensus.MsgTypeHeaders), append(bodies, vBody(&hs))
		case 4:
			stream = append(stream, vFrame(consensus.MsgTypeBlock, vBody(b))...)
			blocks++
		}
	}
	if verifnd.Bool("more") {
		stream = append(stream, 0x54, 0x34, consensus.MsgTypePing)
	}
	if k := verifnd.Choose("pieces", 4); k > 0 {
		c.piece = k
		c.in <- stream
	} else {
		cut := 1 + verifnd.Choose("cut", len(stream)-1)
		c.in <- stream[:cut]
		verifnd.WaitIdle()
		c.in <- stream[cut:]
	}
	verifnd.WaitIdle()
	gt, gb := vFrames(c.out)
	verifnd.Assert(bytes.Equal(gt, types), "questions are answered in order")
	if len(gb) == len(bodies) {
		for i := range gb {
			verifnd.Assert(bytes.Equal(gb[i], bodies[i]), "every question gets its answer")
		}
	}
	verifnd.Assert(len(chn.blocks) == blocks, "every block reaches the chain")
	verifnd.Assert(!c.isClosed(), "the peer stays connected")
	close(c.in)
	verifnd.WaitIdle()
	verifnd.Assert(c.isClosed(), "who hangs up is let go")
	verifnd.Cover("end")
}
