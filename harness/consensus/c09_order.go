package consensus

import (
	"bytes"

	"github.com/dblokhin/gringo/verifnd"
	"golang.org/x/crypto/blake2b"
)

// c09Tx encodes the parts of a transaction with the given counts.
func c09Tx(ni, no, nk uint64, parts ...[]byte) []byte {
	return vCat(append([][]byte{verifnd.Bytes("kernel offset", 32), vBe(8, ni), vBe(8, no), vBe(8, nk)}, parts...)...)
}

// VerifOrderTx: a transaction is read exactly if its lists are in the order of their hashes.
//
//verif:harness property=C09 cost=20 shards=4
//verif:bound up to 3 inputs, outputs or kernels of any content in any order (2 at most when several kinds occur)
func VerifOrderTx() {
	s := verifnd.Shard(4)
	ni, no, nk := verifnd.Choose("inputs", 4), verifnd.Choose("outputs", 4), verifnd.Choose("kernels", 4)
	if (ni+no+nk)%4 != s || ni+no+nk > 3 && (ni > 2 || no > 2 || nk > 2) {
		return
	}
	_, ei := vInputs(ni)
	_, eo := vOutputs(no)
	_, ek := vKernels(nk)
	enc := c09Tx(uint64(ni), uint64(no), uint64(nk), vCat(ei...), vCat(eo...), vCat(ek...))
	var t Transaction
	err := t.Read(bytes.NewReader(enc))
	if vOrdered(0, ei) && vOrdered(34, eo) && vOrdered(0, ek) {
		verifnd.Assert(err == nil, "a transaction in canonical order is read")
		verifnd.Assert(len(t.Inputs) == ni && len(t.Outputs) == no && len(t.Kernels) == nk, "a transaction keeps its lists")
		verifnd.Cover("ordered")
	} else {
		verifnd.Assert(err != nil, "a transaction with a list out of order is refused")
		verifnd.Cover("unordered")
	}
}

// VerifOrderCounts: lists that announce more than 1,000,000 elements are refused before anything of them is read.
//
//verif:harness property=C09
//verif:bound every count above 1,000,000 of each list of transactions, blocks and compact blocks (short ids)
func VerifOrderCounts() {
	var n [3]uint64
	which := verifnd.Choose("list", 3)
	n[which] = verifnd.U64("count")
	verifnd.Assume(n[which] > 1000000)
	verifnd.MaxAlloc(1 << 20)
	tail := make([]byte, 64)
	enc := vCat(vBe(8, n[0]), vBe(8, n[1]), vBe(8, n[2]), tail)
	var t Transaction
	r := bytes.NewReader(vCat(make([]byte, 32), enc))
	verifnd.Assert(t.Read(r) != nil, "a transaction with too many elements is refused")
	verifnd.Assert(r.Len() == len(tail), "a transaction with too many elements is refused before they are read")
	h, head := vHeader()
	h.POW = Proof{EdgeBits: 1, Nonces: make([]uint32, 42)}
	head = vCat(head, h.POW.Bytes())
	var b Block
	r = bytes.NewReader(vCat(head, enc))
	verifnd.Assert(b.Read(r) != nil, "a block with too many elements is refused")
	verifnd.Assert(r.Len() == len(tail), "a block with too many elements is refused before they are read")
	var c CompactBlock
	r = bytes.NewReader(vCat(head, []byte{0, 0}, vBe(8, n[which]), tail))
	verifnd.Assert(c.Read(r) != nil, "a compact block with too many short ids is refused")
	verifnd.Cover("refused")
}

// c09Differ assumes that the elements' hashes (of their first n bytes) differ.
func c09Differ(n int, enc [][]byte) {
	for i := range enc {
		for j := range enc[:i] {
			x, y := blake2b.Sum256(vCut(n, enc[i])), blake2b.Sum256(vCut(n, enc[j]))
			verifnd.Assume(!bytes.Equal(x[:], y[:]))
		}
	}
}

// VerifOrderCanonical: the encoding does not depend on the order in which the lists were put together.
//
//verif:harness property=C09
//verif:bound two inputs, two outputs, two kernels, two short ids or three inputs, of any content but with different hashes, in both orders
func VerifOrderCanonical() {
	h, _ := vHeader()
	h.POW = Proof{EdgeBits: 1, Nonces: make([]uint32, 42)}
	var t, u Transaction
	var b, d Block
	var c, e CompactBlock
	b.Header, d.Header, c.Header, e.Header = h, h, h, h
	switch verifnd.Choose("kind", 5) {
	case 0:
		l, enc := vInputs(2)
		c09Differ(0, enc)
		t.Inputs, u.Inputs = InputList{l[0], l[1]}, InputList{l[1], l[0]}
	case 1:
		l, enc := vOutputs(2)
		c09Differ(34, enc)
		t.Outputs, u.Outputs = OutputList{l[0], l[1]}, OutputList{l[1], l[0]}
	case 2:
		l, enc := vKernels(2)
		c09Differ(0, enc)
		t.Kernels, u.Kernels = TxKernelList{l[0], l[1]}, TxKernelList{l[1], l[0]}
	case 3:
		x, y := ShortID(verifnd.Bytes("short id", 6)), ShortID(verifnd.Bytes("short id", 6))
		c.KernelIDs, e.KernelIDs = ShortIDList{x, y}, ShortIDList{y, x}
	case 4:
		l, enc := vInputs(3)
		c09Differ(0, enc)
		t.Inputs, u.Inputs = InputList{l[0], l[1], l[2]}, InputList{l[2], l[0], l[1]}
	}
	b.Inputs, b.Outputs, b.Kernels = append(InputList{}, t.Inputs...), append(OutputList{}, t.Outputs...), append(TxKernelList{}, t.Kernels...)
	d.Inputs, d.Outputs, d.Kernels = append(InputList{}, u.Inputs...), append(OutputList{}, u.Outputs...), append(TxKernelList{}, u.Kernels...)
	c.Outputs, c.Kernels = append(OutputList{}, t.Outputs...), append(TxKernelList{}, t.Kernels...)
	e.Outputs, e.Kernels = append(OutputList{}, u.Outputs...), append(TxKernelList{}, u.Kernels...)
	x := t.Bytes()
	verifnd.Assert(bytes.Equal(x, u.Bytes()), "a transaction's encoding does not depend on the order of its lists")
	verifnd.Assert(bytes.Equal(b.Bytes(), d.Bytes()), "a block's encoding does not depend on the order of its lists")
	verifnd.Assert(bytes.Equal(c.Bytes(), e.Bytes()), "a compact block's encoding does not depend on the order of its lists")
	var v Transaction
	verifnd.Assert(v.Read(bytes.NewReader(x)) == nil, "an encoded transaction is read back")
	verifnd.Cover("canonical")
}
