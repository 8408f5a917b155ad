package p2p

import (
	"bytes"
	"io"

	"github.com/dblokhin/gringo/verifnd"
)

type c02Reader interface{ Read(r io.Reader) error }

const c02Limit = 512 << 20

// c02Decode feeds n arbitrary bytes to a decoder: no panic, no exit, no
// unbounded allocation, and no success on a message that is cut short.
func c02Decode(m c02Reader, b []byte, what string) bool {
	verifnd.MaxAlloc(c02Limit)
	r := bytes.NewReader(b)
	err := m.Read(r)
	if err != nil {
		verifnd.Cover(what + " rejected")
		return false
	}
	verifnd.Cover(what + " decoded")
	return true
}

// VerifHostileSmall: arbitrary bytes as ping, pong, address request, block
// request and locator.
//
//verif:harness property=C02
//verif:bound every byte string of 0..20 bytes (ping, pong, get peer addrs), 0..40 (get block), lengths 0..96 and 440..452 (get headers)
func VerifHostileSmall() {
	switch verifnd.Choose("kind", 5) {
	case 0:
		var m Ping
		ok := c02Decode(&m, verifnd.Bytes("b", verifnd.Choose("n", 21)), "ping")
		if ok {
			verifnd.Assert(len(m.Bytes()) == 16, "ping re-encodes")
		}
		verifnd.Cover("ping")
	case 1:
		var m Pong
		ok := c02Decode(&m, verifnd.Bytes("b", verifnd.Choose("n", 21)), "pong")
		if ok {
			verifnd.Assert(len(m.Bytes()) == 16, "pong re-encodes")
		}
		verifnd.Cover("pong")
	case 2:
		var m GetPeerAddrs
		c02Decode(&m, verifnd.Bytes("b", verifnd.Choose("n", 21)), "getpeers")
		verifnd.Cover("getpeers")
	case 3:
		var m GetBlock
		if c02Decode(&m, verifnd.Bytes("b", verifnd.Choose("n", 41)), "getblock") {
			verifnd.Assert(len(m.Bytes()) == 32, "block request re-encodes")
		}
		verifnd.Cover("getblock")
	case 4:
		n := verifnd.Choose("n", 110)
		if n > 96 {
			n += 440 - 97
		}
		b := verifnd.Bytes("b", n)
		var m GetBlockHeaders
		if c02Decode(&m, b, "locator") {
			verifnd.Assert(len(m.Locator.Hashes) <= 14, "at most 14 locator hashes")
			m.Bytes()
		}
		verifnd.Cover("locator")
	}
}

// VerifHostileError: arbitrary bytes as an error message.
//
//verif:harness property=C02
//verif:bound every byte string of 0..32 bytes
func VerifHostileError() {
	var m PeerError
	b := verifnd.Bytes("b", verifnd.Choose("n", 33))
	if c02Decode(&m, b, "error") {
		verifnd.Assert(len(m.Message) <= len(b), "message comes from the input")
		m.Bytes()
		verifnd.Cover("error message")
	}
}

// VerifHostileAddrs: arbitrary bytes as an address list.
//
//verif:harness property=C02
//verif:bound every byte string of 0..48 bytes
func VerifHostileAddrs() {
	var m PeerAddrs
	b := verifnd.Bytes("b", verifnd.Choose("n", 49))
	if c02Decode(&m, b, "addrs") {
		verifnd.Assert(len(m.peers) <= 256, "at most 256 addresses")
		for _, a := range m.peers {
			verifnd.Assert(len(a.IP) == 4 || len(a.IP) == 16, "address is IPv4 or IPv6")
			verifnd.Assert(a.Port >= 0 && a.Port < 65536, "port is 16 bit")
		}
		m.Bytes()
		verifnd.Cover("address list")
	}
}

// VerifHostileHand: arbitrary bytes as the two handshake messages.
//
//verif:harness property=C02 thorough=1
//verif:bound every byte string of 0..100 bytes (hand) and 0..72 bytes (shake)
func VerifHostileHand() {
	if verifnd.Choose("kind", 2) == 0 {
		var m hand
		b := verifnd.Bytes("b", verifnd.Choose("n", 101))
		if c02Decode(&m, b, "hand") {
			verifnd.Assert(m.Version == 1, "only protocol version 1 is accepted")
			verifnd.Assert(len(m.Genesis) == 32, "genesis hash is complete")
			m.Bytes()
			verifnd.Cover("hand")
		}
		return
	}
	var m shake
	b := verifnd.Bytes("b", verifnd.Choose("n", 73))
	if c02Decode(&m, b, "shake") {
		verifnd.Assert(m.Version == 1, "only protocol version 1 is accepted")
		verifnd.Assert(len(m.Genesis) == 32, "genesis hash is complete")
		m.Bytes()
		verifnd.Cover("shake")
	}
}
