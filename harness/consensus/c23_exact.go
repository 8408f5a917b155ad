package consensus

import (
	"bytes"
	"io"

	"github.com/dblokhin/gringo/verifnd"
)

// c23Proof compares encodings of proofs of work: the spare bits of the last
// byte mean nothing.
func c23Proof(a, b []byte) bool {
	if len(a) != len(b) || a[0] != b[0] {
		return false
	}
	used := 42 * int(a[0]) % 8
	mask := byte(0xff)
	if used > 0 {
		mask = 1<<uint(used) - 1
	}
	n := len(a) - 1
	return bytes.Equal(a[:n], b[:n]) && a[n]&mask == b[n]&mask
}

// c23Output compares encodings of outputs: the spare sign bits of a range
// proof mean nothing.
func c23Output(a, b []byte) bool {
	const p = 1 + 33 + 8
	if len(a) != len(b) || len(a) != p+675 {
		return false
	}
	s1, s2 := p+64, p+64+1+128+160+1
	return bytes.Equal(a[:s1], b[:s1]) && a[s1]&15 == b[s1]&15 && bytes.Equal(a[s1+1:s2], b[s1+1:s2]) &&
		a[s2]&3 == b[s2]&3 && bytes.Equal(a[s2+1:], b[s2+1:])
}

// VerifExactProof: a proof of work that is accepted is kept whole.
//
//verif:harness property=C23 merge=on shards=4 cost=50
//verif:bound every byte string of the length of its proof; graph sizes quick: 1, 7, 8, 29..33, 40, 63, 64; thorough: all of 1..64
func VerifExactProof() {
	var eb int
	if verifnd.Thorough() {
		eb = 1 + verifnd.Shard(4)*16 + verifnd.Choose("size", 16)
	} else {
		sizes := [...]int{1, 29, 30, 31, 7, 32, 33, 40, 8, 63, 64}
		i := verifnd.Shard(4) + 4*verifnd.Choose("size", 3)
		if i >= len(sizes) {
			return
		}
		eb = sizes[i]
	}
	b := append([]byte{byte(eb)}, verifnd.Bytes("b", (42*eb+7)/8)...)
	var p Proof
	r := bytes.NewReader(b)
	if p.Read(r) != nil {
		verifnd.Assert(eb > 32, "proofs of graphs up to size 32 can be read")
		return
	}
	verifnd.Assert(c23Proof(p.Bytes(), b), "a proof that is accepted is kept whole")
	verifnd.Cover("proof")
}

// VerifExactElement: an input, output or kernel that is accepted is kept whole.
//
//verif:harness property=C23
//verif:bound every byte string of 33..35, 716..760 and 113..115 bytes as input, output and kernel
func VerifExactElement() {
	var e interface {
		Read(r io.Reader) error
		Bytes() []byte
	}
	var n int
	kind := verifnd.Choose("kind", 3)
	switch kind {
	case 0:
		e, n = &Input{}, 33+verifnd.Choose("n", 3)
	case 1:
		e, n = &Output{}, 716+verifnd.Choose("n", 45)
	case 2:
		e, n = &TxKernel{}, 113+verifnd.Choose("n", 3)
	}
	b := verifnd.Bytes("b", n)
	r := bytes.NewReader(b)
	if e.Read(r) != nil {
		verifnd.Cover("refused")
		return
	}
	took := b[:n-r.Len()]
	got := e.Bytes()
	if kind == 1 {
		verifnd.Assert(c23Output(got, took), "an output that is accepted is kept whole")
	} else {
		verifnd.Assert(bytes.Equal(got, took), "an input or kernel that is accepted is kept whole")
	}
	verifnd.Cover("kept")
}

// VerifExactHeader: a header that is accepted is kept whole.
//
//verif:harness property=C23 merge=on
//verif:bound every header of graph size 1 and 7
func VerifExactHeader() {
	eb := []int{1, 7}[verifnd.Choose("size", 2)]
	b := append(verifnd.Bytes("header", 246), byte(eb))
	b = append(b, verifnd.Bytes("proof", (42*eb+7)/8)...)
	var h BlockHeader
	if h.Read(bytes.NewReader(b)) != nil {
		verifnd.Cover("refused")
		return
	}
	got := h.Bytes()
	verifnd.Assert(len(got) == len(b) && bytes.Equal(got[:246], b[:246]) && c23Proof(got[246:], b[246:]), "a header that is accepted is kept whole")
	verifnd.Cover("kept")
}

// c23Lists compares encodings that end with lists of inputs, outputs and
// kernels of the given counts.
func c23Lists(a, b []byte, ni, no, nk int) bool {
	if len(a) != len(b) {
		return false
	}
	start := len(a) - 114*nk - 717*no
	if start < 0 || !bytes.Equal(a[:start], b[:start]) {
		return false
	}
	for i := 0; i < no; i++ {
		o := start + 717*i
		if !c23Output(a[o:o+717], b[o:o+717]) {
			return false
		}
	}
	return bytes.Equal(a[start+717*no:], b[start+717*no:])
}

func c23Split(b []byte, size int, n byte) (l [][]byte) {
	for ; n > 0; n-- {
		l, b = append(l, b[:size]), b[size:]
	}
	return
}

var c23Sizes = [...]int{0, 33, 34, 35, 68, 113, 114, 148, 228, 262, 716, 717, 718, 751, 831, 865, 1434, 1548}

// VerifExactLists: a block, compact block or transaction that is accepted is kept whole.
//
//verif:harness property=C23 cost=20 shards=3
//verif:bound well-formed header or kernel offset, then the counts and every byte string of 18 lengths up to 1548 bytes (two outputs and a kernel); lists in order, of no more than 2 elements of each kind
func VerifExactLists() {
	kind := verifnd.Shard(3)
	n := c23Sizes[verifnd.Choose("n", len(c23Sizes))]
	var counts [3]byte
	small := byte(3)
	for i := range counts {
		counts[i] = byte(verifnd.Choose("count", int(small)))
	}
	body := verifnd.Bytes("b", n)
	be := func(x byte) []byte { return []byte{0, 0, 0, 0, 0, 0, 0, x} }
	switch kind {
	case 0, 1:
		hb := verifnd.Bytes("header", 246)
		hb = append(hb[:246:246], 1, 0, 0, 0, 0, 0, 0)
		hb[10], hb[11], hb[12] = 0, 0, 0
		var ok bool
		var got, took []byte
		if kind == 0 {
			b := vCat(hb, be(counts[0]), be(counts[1]), be(counts[2]), body)
			r := bytes.NewReader(b)
			var m Block
			ok = m.Read(r) == nil
			if ok {
				verifnd.Assert(len(m.Inputs) == int(counts[0]) && len(m.Outputs) == int(counts[1]) && len(m.Kernels) == int(counts[2]), "a block has the elements its counts tell")
				verifnd.Assume(vOrdered(0, c23Split(body, 34, counts[0])) && vOrdered(34, c23Split(body[34*int(counts[0]):], 717, counts[1])) &&
					vOrdered(0, c23Split(body[34*int(counts[0])+717*int(counts[1]):], 114, counts[2])))
				got, took = m.Bytes(), b[:len(b)-r.Len()]
				verifnd.Assert(c23Lists(got, took, int(counts[0]), int(counts[1]), int(counts[2])), "a block that is accepted is kept whole")
				verifnd.Cover("block")
			}
			return
		}
		b := vCat(hb, []byte{counts[1], counts[2]}, be(counts[0]), body)
		r := bytes.NewReader(b)
		var m CompactBlock
		if m.Read(r) == nil {
			verifnd.Assert(len(m.KernelIDs) == int(counts[0]) && len(m.Outputs) == int(counts[1]) && len(m.Kernels) == int(counts[2]), "a compact block has the elements its counts tell")
			if counts[0] < 2 && counts[1] < 2 && counts[2] < 2 {
				took := b[:len(b)-r.Len()]
				got := m.Bytes()
				ids := 6 * int(counts[0])
				verifnd.Assert(len(got) == len(took) && bytes.Equal(got[len(got)-ids:], took[len(took)-ids:]) &&
					c23Lists(got[:len(got)-ids], took[:len(took)-ids], 0, int(counts[1]), int(counts[2])), "a compact block that is accepted is kept whole")
				verifnd.Cover("compact block")
			}
		}
	case 2:
		b := vCat(verifnd.Bytes("offset", 32), be(counts[0]), be(counts[1]), be(counts[2]), body)
		r := bytes.NewReader(b)
		var m Transaction
		if m.Read(r) == nil {
			verifnd.Assert(len(m.Inputs) == int(counts[0]) && len(m.Outputs) == int(counts[1]) && len(m.Kernels) == int(counts[2]), "a transaction has the elements its counts tell")
			verifnd.Assert(c23Lists(m.Bytes(), b[:len(b)-r.Len()], int(counts[0]), int(counts[1]), int(counts[2])), "a transaction that is accepted is kept whole")
			verifnd.Cover("transaction")
		}
	}
}
