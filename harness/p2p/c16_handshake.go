package p2p

import (
	"bytes"
	"net"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/verifnd"
)

// c16Hand checks a hand message of ours and returns its nonce.
func c16Hand(b []byte, to *net.TCPAddr) (nonce []byte) {
	types, bodies := vFrames(b)
	verifnd.Assert(len(types) == 1 && types[0] == consensus.MsgTypeHand, "who dials sends one hand message")
	if len(bodies) != 1 || len(bodies[0]) < 32+8+24 {
		verifnd.Assert(false, "the hand message is whole")
		return make([]byte, 8)
	}
	h := bodies[0]
	var enc bytes.Buffer
	serializeTCPAddr(&enc, to)
	r := enc.Bytes()
	verifnd.Assert(bytes.Equal(h[:4], c03Be(4, uint64(consensus.ProtocolVersion))), "the hand message tells our version")
	verifnd.Assert(bytes.Equal(h[len(h)-32:], chain.Testnet4.Hash()), "the hand message tells our chain")
	verifnd.Assert(bytes.Contains(h[24:len(h)-32], r), "the hand message tells the address dialled")
	return h[8:16]
}

// VerifHandshakeOut: whom we dial is our peer exactly if it answers in our
// protocol version and on our chain; who isn't is let go.
//
//verif:harness property=C16
//verif:bound shakes of every version, capability set, difficulty and genesis hash with a user agent of 0..3 arbitrary bytes, cut off anywhere or not at all, of every message type
func VerifHandshakeOut() {
	v, c, td := verifnd.U32("version"), verifnd.U32("capabilities"), verifnd.U64("difficulty")
	agent, genesis := verifnd.Bytes("agent", verifnd.Choose("n", 4)), verifnd.Bytes("genesis", 32)
	typ := verifnd.U8("type")
	f := vFrame(typ, vShake(v, c, td, agent, genesis))
	whole := verifnd.Bool("whole")
	if !whole {
		f = f[:verifnd.Choose("cut", len(f))]
	}
	conn := vNewConn("10.1.2.3:13414", f)
	close(conn.in)
	verifnd.Dialer = func(addr string) (net.Conn, error) {
		verifnd.Assert(addr == "10.1.2.3:13414", "the address asked for is dialled")
		return conn, nil
	}
	p, err := NewPeer(&Syncer{}, "10.1.2.3:13414")
	c16Hand(conn.out, conn.addr)
	good := whole && typ == consensus.MsgTypeShake && v == 1 && bytes.Equal(genesis, chain.Testnet4.Hash())
	if err != nil {
		verifnd.Assert(!good, "a peer on our chain and of our version is accepted")
		verifnd.Assert(conn.isClosed(), "who isn't accepted is let go")
		verifnd.Cover("refused")
		return
	}
	verifnd.Assert(good, "only a peer on our chain and of our version is accepted")
	verifnd.Assert(!conn.isClosed() && !conn.limit, "the connection of a peer stays open")
	verifnd.Assert(p.Addr == "10.1.2.3:13414" && p.Info.Version == v && uint32(p.Info.Capabilities) == c &&
		uint64(p.Info.TotalDifficulty) == td && p.Info.UserAgent == string(agent), "the peer is known as it introduced itself")
	verifnd.Cover("accepted")
}

// VerifHandshakeSilent: somebody who never answers doesn't hold up who dialled.
//
//verif:harness property=C16
//verif:bound an answer that stops anywhere
func VerifHandshakeSilent() {
	f := vGoodShake(7)
	conn := vNewConn("10.1.2.3:13414")
	if n := verifnd.Choose("bytes", len(f)); n > 0 {
		conn.in <- f[:n]
	}
	conn.silent = true
	verifnd.Dialer = func(addr string) (net.Conn, error) { return conn, nil }
	done := make(chan error, 1)
	go func() {
		_, err := NewPeer(&Syncer{}, "10.1.2.3:13414")
		done <- err
	}()
	time.Sleep(time.Minute)
	verifnd.WaitIdle()
	select {
	case err := <-done:
		verifnd.Assert(err != nil, "who doesn't answer isn't a peer")
		verifnd.Assert(conn.isClosed(), "who doesn't answer is let go")
		verifnd.Cover("given up")
	default:
		verifnd.Assert(false, "who doesn't answer is given up")
	}
}

// VerifHandshakeSelf: we don't become our own peer, whichever hand of ours comes back.
//
//verif:harness property=C16 steps=60000000 shards=6
//verif:bound {1, 2, 3, 100, 101, 130} connections made by us, any one of the last hundred comes back to us
func VerifHandshakeSelf() {
	n := []int{1, 2, 3, 100, 101, 130}[verifnd.Shard(6)]
	var own [][]byte
	for i := 0; i < n; i++ {
		out := vNewConn("10.1.2.3:13414", vGoodShake(1))
		verifnd.Dialer = func(addr string) (net.Conn, error) { return out, nil }
		_, err := NewPeer(&Syncer{}, "10.1.2.3:13414")
		verifnd.Assert(err == nil, "a good peer is accepted")
		own = append(own, c16Hand(out.out, out.addr))
	}
	if n > 100 {
		own = own[n-100:]
	}
	addr := []byte{0, 10, 1, 2, 4, 1, 1}
	back := own[verifnd.Choose("which", len(own))]
	f := vFrame(consensus.MsgTypeHand, vCat(c03Be(4, 1), c03Be(4, 15), back, c03Be(8, 1), addr, addr, c03Be(8, 0), chain.Testnet4.Hash()))
	conn := vNewConn("10.1.2.4:5000", f)
	_, err := AcceptNewPeer(conn)
	verifnd.Assert(err != nil && len(conn.out) == 0, "we aren't our own peer")
	verifnd.Cover("own")
}

// VerifHandshakeIn: who dials us becomes a peer exactly if it has our protocol
// version, is on our chain and isn't ourselves.
//
//verif:harness property=C16
//verif:bound hands of every version, capability set, nonce, difficulty, IPv4 addresses and genesis hash with a user agent of 0..2 arbitrary bytes, cut off anywhere or not at all, of every message type, after a hand of our own
func VerifHandshakeIn() {
	out := vNewConn("10.1.2.3:13414", vGoodShake(1))
	verifnd.Dialer = func(addr string) (net.Conn, error) { return out, nil }
	_, err := NewPeer(&Syncer{}, "10.1.2.3:13414")
	verifnd.Assert(err == nil, "a good peer is accepted")
	own := c16Hand(out.out, out.addr)

	v, c, nonce, td := verifnd.U32("version"), verifnd.U32("capabilities"), verifnd.Bytes("nonce", 8), verifnd.U64("difficulty")
	agent, genesis := verifnd.Bytes("agent", verifnd.Choose("n", 3)), verifnd.Bytes("genesis", 32)
	typ := verifnd.U8("type")
	addr := vCat([]byte{0}, verifnd.Bytes("addr", 6))
	f := vFrame(typ, vCat(c03Be(4, uint64(v)), c03Be(4, uint64(c)), nonce, c03Be(8, td), addr, addr,
		c03Be(8, uint64(len(agent))), agent, genesis))
	whole := verifnd.Bool("whole")
	if !whole {
		f = f[:verifnd.Choose("cut", len(f))]
	}
	conn := vNewConn("10.1.2.4:5000", f)
	close(conn.in)
	p, err := AcceptNewPeer(conn)
	good := whole && typ == consensus.MsgTypeHand && v == 1 && bytes.Equal(genesis, chain.Testnet4.Hash())
	self := bytes.Equal(nonce, own)
	if err != nil {
		if good {
			var n uint64
			for _, b := range nonce {
				n = n<<8 | uint64(b)
			}
			verifnd.Assert(serverNonces.Consist(n), "a peer on our chain and of our version is accepted")
			verifnd.Cover("ourselves")
		}
		verifnd.Assert(len(conn.out) == 0, "who isn't accepted isn't answered")
		verifnd.Cover("refused")
		return
	}
	verifnd.Assert(good, "only a peer on our chain and of our version is accepted")
	verifnd.Assert(!self, "we aren't our own peer")
	verifnd.Assert(!conn.isClosed(), "the connection of a peer stays open")
	types, bodies := vFrames(conn.out)
	verifnd.Assert(len(types) == 1 && types[0] == consensus.MsgTypeShake, "a hand is answered by one shake")
	if len(bodies) == 1 && len(bodies[0]) >= 56 {
		s := bodies[0]
		verifnd.Assert(bytes.Equal(s[:4], c03Be(4, 1)), "the shake tells our version")
		verifnd.Assert(bytes.Equal(s[len(s)-32:], chain.Testnet4.Hash()), "the shake tells our chain")
	} else {
		verifnd.Assert(false, "the shake is whole")
	}
	verifnd.Assert(p.Info.Version == v && uint32(p.Info.Capabilities) == c && uint64(p.Info.TotalDifficulty) == td &&
		p.Info.UserAgent == string(agent), "the peer is known as it introduced itself")
	verifnd.Cover("accepted")
}
