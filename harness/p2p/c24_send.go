package p2p

import (
	"bytes"
	"io"
	"net"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/verifnd"
)

// vSender is a connected peer, greeted already.
func vSender(sent ...[]byte) (*Peer, *vConn, *Syncer) {
	conn := vNewConn(vPeer, append([][]byte{vGoodShake(1)}, sent...)...)
	verifnd.Dialer = func(string) (net.Conn, error) { return conn, nil }
	s := NewSyncer([]string{vPeer}, vNewChain(7, 9), nil)
	p, err := NewPeer(s, vPeer)
	if err != nil {
		verifnd.Assert(false, "a good peer is accepted")
		return nil, nil, nil
	}
	conn.out = nil
	verifnd.Baseline()
	return p, conn, s
}

// vLongBlock is a block that's longer than the buffers on its way.
func vLongBlock() *consensus.Block {
	b := vBlock(5, 5)
	for i := 0; i < 125; i++ {
		c := make([]byte, 33)
		c[0], c[7] = 8, byte(i)
		b.Inputs = append(b.Inputs, consensus.Input{Commit: c})
	}
	return b
}

// vLong is a message that's longer than the buffers on its way.
type vLong struct{}

var vLongBody = make([]byte, 5000)

func (vLong) Bytes() []byte        { return vLongBody }
func (vLong) Type() uint8          { return 77 }
func (vLong) Read(io.Reader) error { return nil }
func (vLong) String() string       { return "" }

// vSend sends a message of a kind, and tells how it has to arrive.
func vSend(p *Peer, kind int, name string) (uint8, []byte) {
	switch kind {
	case 0:
		p.SendPing()
		return consensus.MsgTypePing, nil
	case 1:
		caps := verifnd.U32(name + " capabilities")
		p.SendPeerRequest(consensus.Capabilities(caps))
		return consensus.MsgTypeGetPeerAddrs, c03Be(4, uint64(caps))
	case 2:
		hash := verifnd.Bytes(name+" hash", 32)
		p.SendBlockRequest(append(consensus.Hash(nil), hash...))
		return consensus.MsgTypeGetBlock, hash
	case 3, 8:
		n := []int{0, 1, 14}[verifnd.Choose(name+" hashes", 3)]
		var loc consensus.Locator
		body := []byte{byte(n)}
		for i := 0; i < n; i++ {
			h := verifnd.Bytes(name+" hash", 32)
			loc.Hashes = append(loc.Hashes, append(consensus.Hash(nil), h...))
			body = append(body, h...)
		}
		p.SendHeaderRequest(loc)
		return consensus.MsgTypeGetHeaders, body
	case 4:
		b := vBlock(verifnd.U64(name+" height"), verifnd.U64(name+" difficulty"))
		p.SendBlock(b)
		return consensus.MsgTypeBlock, vBody(b)
	case 5:
		var tx consensus.Transaction
		if verifnd.Bool(name + " input") {
			tx.Inputs = consensus.InputList{{Commit: verifnd.Bytes(name+" commit", 33)}}
		}
		body := vBody(&tx)
		p.SendTransaction(tx)
		return consensus.MsgTypeTransaction, body
	}
	if kind == 6 {
		b := vLongBlock()
		p.SendBlock(b)
		return consensus.MsgTypeBlock, vBody(b)
	}
	p.WriteMessage(vLong{})
	return 77, vLongBody
}

// VerifSendEach: messages of any kind arrive in the order they were sent.
//
//verif:harness property=C24 delays=0 shards=7 cost=20
//verif:bound three messages one after the other, each any of ping, question for peers, block, headers ({0, 1, 14} hashes) or transaction, block and (the first only) long block (over 4 KB), with arbitrary capabilities, hashes, heights, difficulties and commitments
func VerifSendEach() {
	p, conn, _ := vSender()
	if p == nil {
		return
	}
	p.Start()
	var types []uint8
	var bodies [][]byte
	for i, k := range []int{verifnd.Shard(7), verifnd.Choose("second", 6), verifnd.Choose("third", 6)} {
		t, b := vSend(p, k, []string{"first", "second", "third"}[i])
		types, bodies = append(types, t), append(bodies, b)
	}
	verifnd.WaitIdle()
	vArrived(conn, types, bodies)
	verifnd.Assert(!conn.isClosed(), "the peer stays connected")
	verifnd.Cover("end")
}

func vArrived(conn *vConn, types []uint8, bodies [][]byte) {
	ts, bs := vFrames(conn.out)
	verifnd.Assert(len(ts) == len(types), "what is sent arrives once")
	if len(ts) != len(types) {
		return
	}
	for i := range ts {
		verifnd.Assert(ts[i] == types[i], "what is sent arrives in order")
		if types[i] == consensus.MsgTypePing {
			verifnd.Assert(len(bs[i]) == 16, "a ping tells difficulty and height")
		} else {
			verifnd.Assert(bytes.Equal(bs[i], bodies[i]), "what is sent arrives whole")
		}
	}
}

// VerifSendMany: messages of several senders, and answers, don't mix.
//
//verif:harness property=C24 preempt=1 delays=1 shards=3 states=3000000 cost=30 t.preempt=2 t.timeout=800
//verif:bound two goroutines that send {a ping and a block request, a long message (over 4 KB) and a block, a long message and a question for peers} and {a header request, a transaction, a long message} while a ping of the remote is answered; every schedule with at most one preemption (thorough: two) and one delay
func VerifSendMany() {
	p, conn, _ := vSender()
	if p == nil {
		return
	}
	p.Start()
	var types [2][]uint8
	var bodies [2][][]byte
	send := func(who int, kinds ...int) {
		for _, k := range kinds {
			t, b := vSend(p, k, "message")
			types[who], bodies[who] = append(types[who], t), append(bodies[who], b)
		}
	}
	k := verifnd.Shard(3)
	go send(0, [][]int{{0, 2}, {7, 4}, {7, 1}}[k]...)
	go send(1, []int{3, 5, 7}[verifnd.Choose("other", 3)])
	conn.in <- vFrame(consensus.MsgTypePing, make([]byte, 16))
	verifnd.WaitIdle()
	ts, bs := vFrames(conn.out)
	verifnd.Assert(len(ts) == 4, "what is sent arrives once")
	pongs := 0
	at := [2]int{}
	for i := range ts {
		switch {
		case ts[i] == consensus.MsgTypePong:
			pongs++
			verifnd.Assert(bytes.Equal(bs[i], vCat(c03Be(8, 9), c03Be(8, 7))), "the answer arrives whole")
		case at[0] < len(types[0]) && vIs(ts[i], bs[i], types[0][at[0]], bodies[0][at[0]]):
			at[0]++
		case at[1] < len(types[1]) && vIs(ts[i], bs[i], types[1][at[1]], bodies[1][at[1]]):
			at[1]++
		default:
			verifnd.Assert(false, "what is sent arrives whole and in order")
		}
	}
	verifnd.Assert(pongs == 1, "the answer arrives once")
	verifnd.Assert(!conn.isClosed(), "the peer stays connected")
	verifnd.Cover("end")
}

func vIs(t uint8, b []byte, typ uint8, body []byte) bool {
	return t == typ && (t == consensus.MsgTypePing && len(b) == 16 || bytes.Equal(b, body))
}

// VerifSendCut: what arrives of a connection that fails is a beginning of
// what was sent, and then the connection is closed.
//
//verif:harness property=C24 preempt=1 delays=0 shards=6 states=3000000 cost=30 t.preempt=2 t.timeout=800
//verif:bound a sender of three messages, short ones, a short between long ones (over 4 KB) and a long between short ones; any of the connection's writes fails once, having taken {nothing, 5, 15, 4000 bytes}, or none; it is {not, also} closed locally before the last message; every schedule with at most one (thorough: two) preemptions
func VerifSendCut() {
	p, conn, _ := vSender()
	if p == nil {
		return
	}
	conn.cutAt = verifnd.Choose("write that fails", 6)
	conn.cutPart = []int{0, 5, 15, 4000}[verifnd.Choose("part", 4)]
	p.Start()
	sh := verifnd.Shard(6)
	hash := make(consensus.Hash, 32)
	hash[3] = 3
	long := vFrame(77, vLongBody)
	short := vFrame(consensus.MsgTypeGetBlock, hash)
	kinds := [][]bool{{false, false, false}, {true, false, true}, {false, true, false}}[sh%3]
	sent, gone := 0, false
	go func() {
		for i, k := range kinds {
			if i == 2 && sh >= 3 {
				p.Close()
			}
			if k {
				p.WriteMessage(vLong{})
			} else {
				p.SendBlockRequest(hash)
			}
			sent++
		}
	}()
	go func() {
		p.WaitForDisconnect()
		gone = true
	}()
	verifnd.WaitIdle()
	verifnd.Assert(sent == len(kinds), "who sends goes on")
	var whole []byte
	for _, k := range kinds {
		if k {
			whole = append(whole, long...)
		} else {
			whole = append(whole, short...)
		}
	}
	verifnd.Assert(len(conn.out) <= len(whole) && bytes.Equal(conn.out, whole[:len(conn.out)]), "what arrives is what was sent, up to the failure")
	verifnd.Assert(conn.isClosed() || len(conn.out) == len(whole), "a connection that lost something is closed")
	verifnd.Assert(gone == conn.isClosed(), "who waits for the end goes on")
	if sh < 3 && conn.cutAt > 0 || sh < 3 && len(conn.out) == len(whole) {
		verifnd.Assert(!conn.isClosed(), "the peer stays connected")
	}
	verifnd.Cover("end")
}
