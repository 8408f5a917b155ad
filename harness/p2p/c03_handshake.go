package p2p

import (
	"bytes"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/verifnd"
)

// VerifControlHand: the first handshake message.
//
//verif:harness property=C03
//verif:bound every capability set, nonce, difficulty, genesis hash and pair of IPv4/IPv6 addresses; user agents of 0..8 arbitrary bytes
func VerifControlHand() {
	c, n, d := verifnd.U32("capabilities"), verifnd.U64("nonce"), verifnd.U64("difficulty")
	ua := verifnd.Bytes("agent", verifnd.Choose("n", 9))
	g := verifnd.Bytes("genesis", 32)
	s, se := c03Addr("sender")
	r, re := c03Addr("receiver")
	p := hand{Version: consensus.ProtocolVersion, Capabilities: consensus.Capabilities(c), Nonce: n,
		TotalDifficulty: consensus.Difficulty(d), SenderAddr: s, ReceiverAddr: r, UserAgent: string(ua), Genesis: consensus.Hash(g)}
	body := append(c03Be(4, 1), c03Be(4, uint64(c))...)
	body = append(append(body, c03Be(8, n)...), c03Be(8, d)...)
	body = append(append(append(append(append(body, se...), re...), c03Be(8, uint64(len(ua)))...), ua...), g...)
	var q hand
	c03Same(&p, &q, body, "hand")
	verifnd.Assert(q.Version == 1 && uint32(q.Capabilities) == c && q.Nonce == n && uint64(q.TotalDifficulty) == d, "hand keeps its numbers")
	verifnd.Assert(q.UserAgent == string(ua), "hand keeps its user agent")
	verifnd.Assert(bytes.Equal(q.Genesis, g), "hand keeps its genesis")
	c03SameAddr(s, q.SenderAddr, "hand")
	c03SameAddr(r, q.ReceiverAddr, "hand")
}

// VerifControlShake: the second handshake message.
//
//verif:harness property=C03
//verif:bound every capability set, difficulty and genesis hash; user agents of 0..16 arbitrary bytes
func VerifControlShake() {
	c, d := verifnd.U32("capabilities"), verifnd.U64("difficulty")
	ua := verifnd.Bytes("agent", verifnd.Choose("n", 17))
	g := verifnd.Bytes("genesis", 32)
	p := shake{Version: consensus.ProtocolVersion, Capabilities: consensus.Capabilities(c),
		TotalDifficulty: consensus.Difficulty(d), UserAgent: string(ua), Genesis: consensus.Hash(g)}
	body := append(append(c03Be(4, 1), c03Be(4, uint64(c))...), c03Be(8, d)...)
	body = append(append(append(body, c03Be(8, uint64(len(ua)))...), ua...), g...)
	var q shake
	c03Same(&p, &q, body, "shake")
	verifnd.Assert(q.Version == 1 && uint32(q.Capabilities) == c && uint64(q.TotalDifficulty) == d, "shake keeps its numbers")
	verifnd.Assert(q.UserAgent == string(ua), "shake keeps its user agent")
	verifnd.Assert(bytes.Equal(q.Genesis, g), "shake keeps its genesis")
}
