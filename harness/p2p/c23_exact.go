package p2p

import (
	"bytes"
	"io"

	"github.com/dblokhin/gringo/verifnd"
)

type c23Message interface {
	Read(r io.Reader) error
	Bytes() []byte
}

// c23Exact reads arbitrary bytes: what is accepted is written as it was read.
func c23Exact(m c23Message, max int, what string) {
	b := verifnd.Bytes("b", verifnd.Choose("n", max+1))
	r := bytes.NewReader(b)
	if m.Read(r) != nil {
		verifnd.Cover(what + " refused")
		return
	}
	verifnd.Assert(bytes.Equal(m.Bytes(), b[:len(b)-r.Len()]), what+" is kept whole")
	verifnd.Cover(what + " kept")
}

// VerifExactControl: a control message that is accepted is kept whole.
//
//verif:harness property=C23
//verif:bound every byte string of 0..20 bytes (ping, pong, address request, error), 0..40 (block request), 0..70 (header request)
func VerifExactControl() {
	switch verifnd.Choose("kind", 6) {
	case 0:
		c23Exact(&Ping{}, 20, "a ping")
	case 1:
		c23Exact(&Pong{}, 20, "a pong")
	case 2:
		c23Exact(&GetPeerAddrs{}, 20, "an address request")
	case 3:
		c23Exact(&PeerError{}, 20, "an error")
	case 4:
		c23Exact(&GetBlock{}, 40, "a block request")
	case 5:
		c23Exact(&GetBlockHeaders{}, 70, "a header request")
	}
}

// VerifExactHandshake: a handshake message that is accepted is kept whole.
//
//verif:harness property=C23
//verif:bound every byte string of 0..100 bytes (hand) and 0..72 bytes (shake) with addresses that aren't IPv4 in 16 bytes
func VerifExactHandshake() {
	if verifnd.Choose("kind", 2) == 0 {
		b := verifnd.Bytes("b", verifnd.Choose("n", 101))
		var m hand
		r := bytes.NewReader(b)
		if m.Read(r) != nil {
			verifnd.Cover("a hand refused")
			return
		}
		verifnd.Assume(len(m.SenderAddr.IP) == 4 || m.SenderAddr.IP.To4() == nil)
		verifnd.Assume(len(m.ReceiverAddr.IP) == 4 || m.ReceiverAddr.IP.To4() == nil)
		verifnd.Assert(bytes.Equal(m.Bytes(), b[:len(b)-r.Len()]), "a hand is kept whole")
		verifnd.Cover("a hand kept")
		return
	}
	c23Exact(&shake{}, 72, "a shake")
}

// VerifExactAddrs: an address list that is accepted is kept whole.
//
//verif:harness property=C23
//verif:bound every byte string of 0..44 bytes with addresses that aren't IPv4 in 16 bytes
func VerifExactAddrs() {
	b := verifnd.Bytes("b", verifnd.Choose("n", 45))
	var m PeerAddrs
	r := bytes.NewReader(b)
	if m.Read(r) != nil {
		verifnd.Cover("refused")
		return
	}
	o := 4
	for o < len(b)-r.Len() {
		// address by address
		if b[o] == 0 {
			o += 7
			continue
		}
		var z byte
		for i := 0; i < 10; i++ {
			z |= b[o+1+i]
		}
		verifnd.Assume(!(z == 0 && b[o+11] == 0xff && b[o+12] == 0xff))
		o += 19
	}
	verifnd.Assert(bytes.Equal(m.Bytes(), b[:len(b)-r.Len()]), "an address list is kept whole")
	verifnd.Cover("kept")
}

// VerifExactHeaders: a list of headers that is accepted is kept whole.
//
//verif:harness property=C23 merge=on
//verif:bound a count, then up to 2 headers of any content (proofs of one bit per nonce), cut anywhere in the last 2 bytes or not
func VerifExactHeaders() {
	n := verifnd.Choose("n", 3)
	count := verifnd.Bytes("count", 2)
	body := append([]byte{}, count...)
	for i := 0; i < n; i++ {
		h := verifnd.Bytes("header", 253)
		h[10], h[11], h[12] = 0, 0, 0
		h[246] = 1
		h[252] &= 3
		body = append(body, h...)
	}
	if n > 0 {
		body = body[:len(body)-verifnd.Choose("cut", 3)]
	}
	var m BlockHeaders
	r := bytes.NewReader(body)
	if m.Read(r) != nil {
		verifnd.Cover("refused")
		return
	}
	verifnd.Assert(len(m.Headers) == int(count[0])<<8|int(count[1]), "a list has the headers its count tells")
	verifnd.Assert(bytes.Equal(m.Bytes(), body[:len(body)-r.Len()]), "a header list is kept whole")
	verifnd.Cover("kept")
}

// c23Repeat is a count with any number of the same header.
type c23Repeat struct {
	head, body []byte
	at, took   int
}

func (r *c23Repeat) Read(b []byte) (int, error) {
	var n int
	if len(r.head) > 0 {
		n = copy(b, r.head)
		r.head = r.head[n:]
	} else {
		n = copy(b, r.body[r.at:])
		r.at = (r.at + n) % len(r.body)
	}
	r.took += n
	return n, nil
}

// VerifExactLong: long messages that are accepted are kept whole, none is cut
// to a limit.
//
//verif:harness property=C23 shards=3 loop=70000 cost=20
//verif:bound header requests of 13, 14, 15, 16 and 255 hashes; address lists of 255, 256, 257 and 300 addresses; header lists of 512, 513 and 4096 headers; user agents of hands and shakes, and error messages, of 127, 128, 255, 256, 257, 1024, 10001 and 65536 bytes; one of the elements (header lists are of one header) and the rest of the message arbitrary
func VerifExactLong() {
	var m c23Message
	var body []byte
	// elements of the same size, one of them arbitrary
	many := func(n, size int, elem func(i int) []byte) {
		at := [...]int{0, n / 2, n - 1}[verifnd.Choose("where", 3)]
		for i := 0; i < n; i++ {
			e := elem(i)
			if i == at {
				copy(e[1:size], verifnd.Bytes("element", size-1))
			}
			body = append(body, e...)
		}
	}
	fill := func(size int) func(i int) []byte {
		return func(i int) []byte {
			e := make([]byte, size)
			e[size-1], e[size-2] = byte(i), byte(i>>8)
			return e
		}
	}
	kind := verifnd.Shard(3)
	switch kind {
	case 0:
		switch verifnd.Choose("list", 2) {
		case 0:
			n := [...]int{13, 14, 15, 16, 255}[verifnd.Choose("n", 5)]
			m, body = &GetBlockHeaders{}, []byte{byte(n)}
			many(n, 32, fill(32))
		case 1:
			n := [...]int{255, 256, 257, 300}[verifnd.Choose("n", 4)]
			m, body = &PeerAddrs{}, c03Be(4, uint64(n))
			many(n, 7, fill(7))
		}
	case 1:
		n := [...]int{512, 513, 4096}[verifnd.Choose("n", 3)]
		h := make([]byte, 253)
		h[246], h[252] = 1, 1
		src := &c23Repeat{head: c03Be(2, uint64(n)), body: h}
		var l BlockHeaders
		if l.Read(src) != nil {
			return
		}
		verifnd.Assert(len(l.Headers) == n, "a list has the headers its count tells")
		verifnd.Assert(src.took == 2+253*n, "a header list is read whole")
		verifnd.Cover("kept")
		return
	case 2:
		n := [...]int{127, 128, 255, 256, 257, 1024, 10001, 65536}[verifnd.Choose("n", 8)]
		text := make([]byte, n)
		text[1] = 1
		copy(text[n-8:], verifnd.Bytes("end", 8))
		switch verifnd.Choose("kind", 3) {
		case 0:
			m = &hand{}
			body = vCat(verifnd.Bytes("numbers", 24), []byte{0}, verifnd.Bytes("from", 6), []byte{0}, verifnd.Bytes("to", 6))
		case 1:
			m = &shake{}
			body = verifnd.Bytes("numbers", 16)
		case 2:
			m = &PeerError{}
			body = verifnd.Bytes("code", 4)
		}
		body = vCat(body, c03Be(8, uint64(n)), text)
		if _, ok := m.(*PeerError); !ok {
			body = append(body, verifnd.Bytes("genesis", 32)...)
		}
	}
	r := bytes.NewReader(body)
	if m.Read(r) != nil {
		return
	}
	verifnd.Assert(bytes.Equal(m.Bytes(), body[:len(body)-r.Len()]), "a long message is kept whole")
	verifnd.Assert(r.Len() == 0, "a long message is read whole")
	verifnd.Cover("kept")
}
