package p2p

import (
	"bytes"

	"github.com/dblokhin/gringo/verifnd"
)

// c04Header is a well-formed header encoding of arbitrary content: a time of
// six significant bytes, and a proof of one bit per nonce.
func c04Header() []byte {
	b := verifnd.Bytes("header", 253)
	b[10], b[11], b[12] = 0, 0, 0
	b[246] = 1
	b[252] &= 3
	return b
}

// VerifDataHeaderMsg: header notifications and header lists.
//
//verif:harness property=C04 merge=on
//verif:bound one header, and lists of 0..3 headers of any content (proofs of graph size 1)
func VerifDataHeaderMsg() {
	if verifnd.Bool("single") {
		b := c04Header()
		var m, m2 BlockHeader
		verifnd.Assert(m.Read(bytes.NewReader(b)) == nil, "a header notification is read")
		c03Same(&m, &m2, b, "header notification")
		verifnd.Assert(bytes.Equal(m2.Bytes(), b), "header notification keeps its header")
		return
	}
	n := verifnd.Choose("n", 4)
	body := []byte{0, byte(n)}
	for i := 0; i < n; i++ {
		body = append(body, c04Header()...)
	}
	var m, m2 BlockHeaders
	verifnd.Assert(m.Read(bytes.NewReader(body)) == nil && len(m.Headers) == n, "a header list is read")
	c03Same(&m, &m2, body, "header list")
	verifnd.Assert(len(m2.Headers) == n && bytes.Equal(m2.Bytes(), body), "header list keeps its headers")
}
