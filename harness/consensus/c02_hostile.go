package consensus

import (
	"bytes"
	"io"

	"github.com/dblokhin/gringo/verifnd"
)

type c02Reader interface{ Read(r io.Reader) error }

const c02Limit = 512 << 20

// c02Header is a well-formed header of arbitrary content with the smallest
// proof (1 bit per nonce).
func c02Header() []byte {
	b := verifnd.Bytes("header", 246)
	return append(append(b[:246:246], 1), make([]byte, 6)...)
}

// VerifHostileHeader: arbitrary bytes as a block header.
//
//verif:harness property=C02 merge=on
//verif:bound every byte string of 0..260 bytes
func VerifHostileHeader() {
	b := verifnd.Bytes("b", verifnd.Choose("n", 261))
	verifnd.MaxAlloc(c02Limit)
	var h BlockHeader
	if h.Read(bytes.NewReader(b)) == nil {
		verifnd.Assert(len(h.POW.Nonces) == 42, "a proof has 42 nonces")
		h.Bytes()
		h.Hash()
		verifnd.Cover("decoded")
	} else {
		verifnd.Cover("rejected")
	}
}

// VerifHostileProof: arbitrary bytes as a proof of work.
//
//verif:harness property=C02 merge=on shards=4 cost=50
//verif:bound every byte string cut before, at and after the proof's end; quick: graph sizes 0, 1, 7, 8, 29..33, 63..65, 255; thorough: all 256 size bytes
func VerifHostileProof() {
	var eb int
	if verifnd.Thorough() {
		eb = verifnd.Shard(4)*64 + verifnd.Choose("size", 64)
	} else {
		sizes := [...]int{0, 1, 7, 8, 29, 30, 31, 32, 33, 63, 64, 65, 255}
		i := verifnd.Shard(4) + 4*verifnd.Choose("size", 4)
		if i >= len(sizes) {
			return
		}
		eb = sizes[i]
	}
	n := (eb*42+7)/8 + verifnd.Choose("n", 3) - 1
	if n < 0 {
		n = 0
	}
	b := append([]byte{byte(eb)}, verifnd.Bytes("b", n)...)
	var p Proof
	r := bytes.NewReader(b)
	if p.Read(r) == nil {
		verifnd.Assert(len(p.Nonces) == 42, "a proof has 42 nonces")
		verifnd.Assert(eb >= 1 && eb <= 64, "graph size is in range")
		verifnd.Assert(len(p.Bytes()) == 1+(eb*42+7)/8, "a proof is re-encoded at its size")
		verifnd.Assert(r.Len() == len(b)-1-(eb*42+7)/8, "a proof takes its own bytes only")
		p.ToDifficulty()
		verifnd.Cover("decoded")
	} else {
		verifnd.Cover("rejected")
	}
}

var c02Lens = [...]int{24, 25, 57, 58, 92, 100, 137, 138, 172, 252, 741, 743, 776, 855, 890, 1458}

// c02Few keeps long inputs from being read as many short elements: beyond
// 180 bytes the last count is 0..3.
func c02Few(b []byte, n, to int) {
	if n <= 180 {
		return
	}
	if to == 10 {
		for i := 2; i < 9; i++ {
			verifnd.Assume(b[i] == 0)
		}
		verifnd.Assume(b[9] < 4)
		return
	}
	for i := 0; i < 7; i++ {
		verifnd.Assume(b[i] == 0 && b[16+i] == 0)
	}
	verifnd.Assume(b[7] < 4 && b[23] < 4)
}

// VerifHostileBlock: a header followed by arbitrary bytes, as a block.
//
//verif:harness property=C02 cost=20
//verif:bound well-formed header, then every byte string of 0..23 bytes and of 16 lengths up to 1458 bytes (fits two outputs, or one of each kind)
func VerifHostileBlock() {
	n := verifnd.Choose("n", 24+len(c02Lens))
	if n >= 24 {
		n = c02Lens[n-24]
	}
	b := append(c02Header(), verifnd.Bytes("b", n)...)
	c02Few(b[253:], n, 24)
	verifnd.MaxAlloc(c02Limit)
	var m Block
	if m.Read(bytes.NewReader(b)) == nil {
		verifnd.Assert(34*len(m.Inputs)+50*len(m.Outputs)+114*len(m.Kernels) <= n, "elements come from the input")
		if len(m.Outputs) <= 2 && len(m.Kernels) <= 2 && len(m.Inputs) <= 2 {
			m.Bytes()
		}
		m.Hash()
		verifnd.Cover("decoded")
	} else {
		verifnd.Cover("rejected")
	}
}

// VerifHostileCompact: a header followed by arbitrary bytes, as a compact block.
//
//verif:harness property=C02 cost=20
//verif:bound well-formed header, then every byte string of 0..23 bytes and of 16 lengths up to 1458 bytes
func VerifHostileCompact() {
	n := verifnd.Choose("n", 24+len(c02Lens))
	if n >= 24 {
		n = c02Lens[n-24]
	}
	b := append(c02Header(), verifnd.Bytes("b", n)...)
	c02Few(b[253:], n, 10)
	verifnd.MaxAlloc(c02Limit)
	var m CompactBlock
	if m.Read(bytes.NewReader(b)) == nil {
		verifnd.Assert(6*len(m.KernelIDs)+50*len(m.Outputs)+114*len(m.Kernels) <= n, "elements come from the input")
		if len(m.Outputs) <= 2 && len(m.Kernels) <= 2 && len(m.KernelIDs) <= 2 {
			m.Bytes()
		}
		m.Hash()
		verifnd.Cover("decoded")
	} else {
		verifnd.Cover("rejected")
	}
}

// VerifHostileTx: arbitrary bytes as a transaction.
//
//verif:harness property=C02 cost=20
//verif:bound every byte string of 0..55 bytes and of 16 lengths up to 1490 bytes
func VerifHostileTx() {
	n := verifnd.Choose("n", 56+len(c02Lens))
	if n >= 56 {
		n = c02Lens[n-56] + 32
	}
	b := verifnd.Bytes("b", n)
	if n > 32 {
		c02Few(b[32:], n-32, 24)
	}
	verifnd.MaxAlloc(c02Limit)
	var m Transaction
	if m.Read(bytes.NewReader(b)) == nil {
		verifnd.Assert(34*len(m.Inputs)+50*len(m.Outputs)+114*len(m.Kernels) <= n, "elements come from the input")
		if len(m.Outputs) <= 2 && len(m.Kernels) <= 2 && len(m.Inputs) <= 2 {
			m.Bytes()
		}
		verifnd.Cover("decoded")
	} else {
		verifnd.Cover("rejected")
	}
}
