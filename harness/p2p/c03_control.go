package p2p

import (
	"bytes"
	"net"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/verifnd"
)

// VerifControlPing: ping and pong.
//
//verif:harness property=C03
//verif:bound every difficulty and height
func VerifControlPing() {
	d, h := verifnd.U64("difficulty"), verifnd.U64("height")
	body := append(c03Be(8, d), c03Be(8, h)...)
	var p, p2 Ping
	p.TotalDifficulty, p.Height = consensus.Difficulty(d), h
	c03Same(&p, &p2, body, "ping")
	verifnd.Assert(uint64(p2.TotalDifficulty) == d && p2.Height == h, "ping keeps its fields")
	var q, q2 Pong
	q.TotalDifficulty, q.Height = consensus.Difficulty(d), h
	c03Same(&q, &q2, body, "pong")
	verifnd.Assert(uint64(q2.TotalDifficulty) == d && q2.Height == h, "pong keeps its fields")
}

// VerifControlGet: address and block requests.
//
//verif:harness property=C03
//verif:bound every capability set, every hash
func VerifControlGet() {
	c := verifnd.U32("capabilities")
	var p, p2 GetPeerAddrs
	p.Capabilities = consensus.Capabilities(c)
	c03Same(&p, &p2, c03Be(4, uint64(c)), "address request")
	verifnd.Assert(uint32(p2.Capabilities) == c, "address request keeps its capabilities")
	h := verifnd.Bytes("hash", 32)
	var g, g2 GetBlock
	g.Hash = consensus.Hash(append([]byte{}, h...))
	c03Same(&g, &g2, h, "block request")
	verifnd.Assert(bytes.Equal(g2.Hash, h), "block request keeps its hash")
}

// VerifControlError: error messages.
//
//verif:harness property=C03
//verif:bound every code, texts of 0..16 arbitrary bytes (thorough: 0..48)
func VerifControlError() {
	max := 17
	if verifnd.Thorough() {
		max = 49
	}
	b := verifnd.Bytes("text", verifnd.Choose("n", max))
	c := verifnd.U32("code")
	var p, p2 PeerError
	p.Code, p.Message = c, string(b)
	c03Same(&p, &p2, append(append(c03Be(4, uint64(c)), c03Be(8, uint64(len(b)))...), b...), "error")
	verifnd.Assert(p2.Code == c && p2.Message == string(b), "error keeps its code and text")
}

// VerifControlLocator: header requests.
//
//verif:harness property=C03
//verif:bound 0..14 arbitrary hashes
func VerifControlLocator() {
	n := verifnd.Choose("n", 15)
	body := []byte{byte(n)}
	var p, p2 GetBlockHeaders
	var hs [][]byte
	for i := 0; i < n; i++ {
		h := verifnd.Bytes("hash", 32)
		hs = append(hs, h)
		body = append(body, h...)
		p.Locator.Hashes = append(p.Locator.Hashes, consensus.Hash(append([]byte{}, h...)))
	}
	c03Same(&p, &p2, body, "header request")
	verifnd.Assert(len(p2.Locator.Hashes) == n, "header request keeps its number of hashes")
	for i := range hs {
		verifnd.Assert(bytes.Equal(p2.Locator.Hashes[i], hs[i]), "header request keeps its hashes in order")
	}
}

// VerifControlAddrs: peer address lists.
//
//verif:harness property=C03
//verif:bound 0..3 arbitrary IPv4, IPv4-in-16-bytes and IPv6 addresses with any port (thorough: 0..4); 256 addresses of arbitrary ports
func VerifControlAddrs() {
	max := 5
	if verifnd.Thorough() {
		max = 6
	}
	n := verifnd.Choose("n", max)
	if n == max-1 {
		n = 256
	}
	body := c03Be(4, uint64(n))
	var p, p2 PeerAddrs
	for i := 0; i < n; i++ {
		if n == 256 {
			port := verifnd.U16("port")
			p.peers = append(p.peers, &net.TCPAddr{IP: net.IP{10, 1, byte(i), 7}, Port: int(port)})
			body = append(append(body, 0, 10, 1, byte(i), 7), c03Be(2, uint64(port))...)
			continue
		}
		a, enc := c03Addr("addr")
		p.peers = append(p.peers, a)
		body = append(body, enc...)
	}
	c03Same(&p, &p2, body, "address list")
	verifnd.Assert(len(p2.peers) == n, "address list keeps its length")
	for i := range p.peers {
		c03SameAddr(p.peers[i], p2.peers[i], "address list")
	}
}
