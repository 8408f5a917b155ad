package p2p

import (
	"bytes"
	"errors"
	"io"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/verifnd"
)

// rawMsg is a message with an arbitrary type and body.
type c01Raw struct {
	typ    uint8
	body   []byte
	called bool
	take   int // bytes the decoder takes; -1: all of them
}

func (m *c01Raw) Bytes() []byte { return m.body }
func (m *c01Raw) Type() uint8   { return m.typ }
func (m *c01Raw) Read(r io.Reader) error {
	m.called = true
	if m.take >= 0 {
		b := make([]byte, m.take)
		_, err := io.ReadFull(r, b)
		m.body = b
		return err
	}
	var one [1]byte
	for {
		n, err := r.Read(one[:])
		if n == 1 {
			m.body = append(m.body, one[0])
		}
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
	}
}

// VerifFrameRoundTrip: a written frame has the specified layout and is read
// back whole, without touching what follows it.
//
//verif:harness property=C01
//verif:bound bodies of 0..16 arbitrary bytes (thorough: 0..64), any message type, 3 following bytes
func VerifFrameRoundTrip() {
	max := 17
	if verifnd.Thorough() {
		max = 65
	}
	n := verifnd.Choose("n", max)
	m := c01Raw{typ: verifnd.U8("type"), body: verifnd.Bytes("body", n)}
	want := append([]byte{}, m.body...)
	var buf bytes.Buffer
	k, err := WriteMessage(&buf, &m)
	verifnd.Assert(err == nil, "frame is written")
	verifnd.Assert(k == uint64(11+n), "bytes written are counted")
	w := buf.Bytes()
	verifnd.Assert(len(w) == 11+n, "frame is header plus body")
	if len(w) != 11+n {
		return
	}
	verifnd.Assert(w[0] == 0x54 && w[1] == 0x34, "frame starts with the magic code")
	verifnd.Assert(w[2] == m.typ, "frame carries the message type")
	for i := 3; i < 10; i++ {
		verifnd.Assert(w[i] == 0, "length is 64-bit big endian")
	}
	verifnd.Assert(w[10] == byte(n), "length is the body length")
	verifnd.Assert(bytes.Equal(w[11:], want), "frame carries the body")
	tail := verifnd.Bytes("tail", 3)
	buf.Write(tail)
	got := c01Raw{typ: m.typ, take: -1}
	k, err = ReadMessage(&buf, &got)
	verifnd.Assert(err == nil, "frame is read")
	verifnd.Assert(k == uint64(11+n), "bytes read are counted")
	verifnd.Assert(bytes.Equal(got.body, want), "body survives the round trip")
	verifnd.Assert(bytes.Equal(buf.Bytes(), tail), "nothing beyond the frame is consumed")
	verifnd.Cover("framed")
}

// VerifFrameReject: a frame is accepted exactly when magic, type and length
// are right, and the decoder sees only the declared body.
//
//verif:harness property=C01
//verif:bound streams of 0..19 arbitrary bytes
func VerifFrameReject() {
	n := verifnd.Choose("n", 20)
	in := verifnd.Bytes("in", n)
	want := verifnd.U8("type")
	m := c01Raw{typ: want, take: -1}
	k, err := ReadMessage(bytes.NewReader(in), &m)
	if n < 11 {
		verifnd.Assert(err != nil && !m.called, "truncated header is rejected")
		verifnd.Cover("truncated")
		return
	}
	var l uint64
	for i := 3; i < 11; i++ {
		l = l<<8 | uint64(in[i])
	}
	ok := in[0] == 0x54 && in[1] == 0x34 && in[2] == want && l <= 20000000
	if !ok {
		verifnd.Assert(err != nil, "wrong magic, type or length is rejected")
		verifnd.Assert(!m.called, "a rejected frame is not decoded")
		verifnd.Cover("rejected")
		return
	}
	verifnd.Assert(err == nil && m.called, "a well-formed frame is decoded")
	verifnd.Assert(k == 11+l, "the frame size is reported")
	max := uint64(n - 11)
	if l < max {
		max = l
	}
	verifnd.Assert(uint64(len(m.body)) == max, "the decoder sees exactly the declared body")
	for i := 0; i < len(m.body) && 11+i < n; i++ {
		verifnd.Assert(m.body[i] == in[11+i], "the decoder sees the body bytes")
	}
	verifnd.Cover("accepted")
}

// VerifFrameShortDecoder: a body longer than its decoder needs does not leak
// into the next frame.
//
//verif:harness property=C01
//verif:bound bodies of 0..12 and of 513, 2100 and 8200 bytes, of which any number up to 12 (of the long ones 0 or 1) are used by the decoder, followed by a second frame
func VerifFrameShortDecoder() {
	n := verifnd.Choose("n", 16)
	lim := n
	if n > 12 {
		n = [...]int{513, 2100, 8200}[n-13]
		lim = 1
	}
	used := verifnd.Choose("used", lim+1)
	body := append(make([]byte, n-lim), verifnd.Bytes("body", lim)...)
	var buf bytes.Buffer
	WriteMessage(&buf, &c01Raw{typ: 9, body: body})
	second := verifnd.Bytes("second", 2)
	WriteMessage(&buf, &c01Raw{typ: 5, body: second})
	a := c01Raw{typ: 9, take: used}
	_, err := ReadMessage(&buf, &a)
	verifnd.Assert(err == nil, "first frame is read")
	b := c01Raw{typ: 5, take: -1}
	_, err = ReadMessage(&buf, &b)
	verifnd.Assert(err == nil, "second frame is read")
	verifnd.Assert(bytes.Equal(b.body, second), "second frame is intact")
	verifnd.Cover("two frames")
}

type c01Writer struct {
	left int
	got  []byte
}

func (w *c01Writer) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.got = append(w.got, p[:n]...)
		w.left = 0
		return n, errors.New("connection lost")
	}
	w.left -= len(p)
	w.got = append(w.got, p...)
	return len(p), nil
}

// VerifFrameWriteError: a lost connection is reported, and what was sent is a
// prefix of the frame.
//
//verif:harness property=C01
//verif:bound bodies of 0..6 bytes, connection lost after 0..17 bytes
func VerifFrameWriteError() {
	n := verifnd.Choose("n", 7)
	left := verifnd.Choose("left", 18)
	m := c01Raw{typ: verifnd.U8("type"), body: verifnd.Bytes("body", n)}
	w := c01Writer{left: left}
	_, err := WriteMessage(&w, &m)
	verifnd.Assert((err == nil) == (left >= 11+n), "write error is reported exactly when bytes are lost")
	if err == nil {
		verifnd.Cover("sent")
		verifnd.Assert(len(w.got) == 11+n, "whole frame is sent")
	} else {
		verifnd.Cover("lost")
	}
}

// VerifTypeCodes: every message uses its protocol type code.
//
//verif:harness property=C01
//verif:bound every message type of the protocol that the node sends or parses
func VerifTypeCodes() {
	check := func(m Message, code uint8, what string) {
		verifnd.Assert(m.Type() == code, what)
	}
	check(&PeerError{}, 0, "type code of error")
	check(&hand{}, 1, "type code of hand")
	check(&shake{}, 2, "type code of shake")
	check(&Ping{}, 3, "type code of ping")
	check(&Pong{}, 4, "type code of pong")
	check(&GetPeerAddrs{}, 5, "type code of get peer addrs")
	check(&PeerAddrs{}, 6, "type code of peer addrs")
	check(&GetBlockHeaders{}, 7, "type code of get headers")
	check(&BlockHeader{}, 8, "type code of header")
	check(&BlockHeaders{}, 9, "type code of headers")
	check(&GetBlock{}, 10, "type code of get block")
	check(&consensus.Block{}, 11, "type code of block")
	check(&consensus.CompactBlock{}, 13, "type code of compact block")
	check(&consensus.Transaction{}, 15, "type code of transaction")
	var h Header
	h.magic = [2]byte{verifnd.U8("m0"), verifnd.U8("m1")}
	h.Type, h.Len = verifnd.U8("t"), verifnd.U64("l")
	b := h.Bytes()
	var g Header
	err := g.Read(bytes.NewReader(b))
	if h.magic[0] == 0x54 && h.magic[1] == 0x34 {
		verifnd.Assert(err == nil && g == h, "header round trip")
		verifnd.Cover("header")
	} else {
		verifnd.Assert(err != nil, "foreign magic is rejected")
		verifnd.Cover("foreign")
	}
}
