package consensus

import (
	"bytes"

	"github.com/dblokhin/gringo/verifnd"
)

// VerifDataProof: proofs of work.
//
//verif:harness property=C04 merge=on shards=4 cost=30
//verif:bound every 42 nonces of the graph's size; graph sizes quick: 1, 8, 12, 29, 30, 31, 32, 33, 64; thorough: all of 1..64
func VerifDataProof() {
	var eb int
	if verifnd.Thorough() {
		eb = 1 + verifnd.Shard(4)*16 + verifnd.Choose("size", 16)
	} else {
		sizes := [...]int{1, 29, 30, 31, 8, 32, 33, 12, 64}
		i := verifnd.Shard(4) + 4*verifnd.Choose("size", 3)
		if i >= len(sizes) {
			return
		}
		eb = sizes[i]
	}
	p := vProof(uint8(eb), 42)
	b := p.Bytes()
	verifnd.Assert(len(b) == 1+(42*eb+7)/8 && b[0] == byte(eb), "a proof is written as its size and 42 nonces")
	want := make([]byte, (42*eb+7)/8)
	for i, v := range p.Nonces {
		for j := 0; j < eb && j < 32; j++ {
			o := i*eb + j
			want[o/8] |= byte(v>>uint(j)&1) << uint(o%8)
		}
	}
	for i := range want {
		verifnd.Assert(b[1+i] == want[i], "nonces are packed in order, low bits first")
	}
	var q Proof
	r := bytes.NewReader(append(append([]byte{}, b...), 0x55))
	verifnd.Assert(q.Read(r) == nil && r.Len() == 1, "a proof is read back whole")
	verifnd.Assert(q.EdgeBits == p.EdgeBits && len(q.Nonces) == 42, "a proof keeps its size")
	for i := range p.Nonces {
		verifnd.Assert(q.Nonces[i] == p.Nonces[i], "a proof keeps its nonces")
	}
	verifnd.Cover("proof")
}

// VerifDataHeader: block headers.
//
//verif:harness property=C04 merge=on
//verif:bound every header (times of the years -262144 to 262143); proofs of graph size 1 and 7
func VerifDataHeader() {
	h, enc := vHeader()
	eb := uint8(1)
	if verifnd.Bool("big") {
		eb = 7
	}
	h.POW = vProof(eb, 42)
	b := h.Bytes()
	verifnd.Assert(len(b) == 246+1+(42*int(eb)+7)/8, "a header has the protocol's length")
	verifnd.Assert(bytes.Equal(b[:246], enc), "a header has the protocol's layout")
	var g BlockHeader
	r := bytes.NewReader(b)
	verifnd.Assert(g.Read(r) == nil && r.Len() == 0, "a header is read back whole")
	vSameHeader(&h, &g, "a header")
	verifnd.Assert(bytes.Equal(h.Hash(), g.Hash()), "a header keeps its hash")
	verifnd.Cover("header")
}

// VerifDataElements: inputs, outputs and kernels.
//
//verif:harness property=C04
//verif:bound every input, output (range proof of 675 bytes) and kernel
func VerifDataElements() {
	switch verifnd.Choose("kind", 3) {
	case 0:
		l, enc := vInputs(1)
		verifnd.Assert(byte(l[0].Features) == enc[0][0] && bytes.Equal(l[0].Commit, enc[0][1:]), "an input keeps its fields")
		verifnd.Assert(bytes.Equal(l[0].Bytes(), enc[0]), "an input is written as it was read")
		verifnd.Cover("input")
	case 1:
		l, enc := vOutputs(1)
		verifnd.Assert(byte(l[0].Features) == enc[0][0], "an output keeps its features")
		verifnd.Assert(bytes.Equal(l[0].Commit.Bytes(), enc[0][1:34]), "an output keeps its commitment")
		verifnd.Assert(bytes.Equal(l[0].RangeProof.Bytes(), enc[0][42:]), "an output keeps its range proof")
		verifnd.Assert(bytes.Equal(l[0].Bytes(), enc[0]), "an output is written as it was read")
		verifnd.Cover("output")
	case 2:
		l, enc := vKernels(1)
		k := &l[0]
		verifnd.Assert(byte(k.Features) == enc[0][0], "a kernel keeps its features")
		verifnd.Assert(bytes.Equal(vBe(8, k.Fee), enc[0][1:9]) && bytes.Equal(vBe(8, k.LockHeight), enc[0][9:17]), "a kernel keeps its fee and lock height")
		verifnd.Assert(bytes.Equal(k.Excess.Bytes(), enc[0][17:50]) && bytes.Equal(k.ExcessSig[:], enc[0][50:]), "a kernel keeps its excess and signature")
		verifnd.Assert(bytes.Equal(k.Bytes(), enc[0]), "a kernel is written as it was read")
		verifnd.Cover("kernel")
	}
}

// c04Counts chooses list lengths: up to two of one kind, or one of each;
// thorough also three of one kind.
func c04Counts() (i, o, k int) {
	n := 8
	if verifnd.Thorough() {
		n = 11
	}
	switch verifnd.Choose("counts", n) {
	case 8:
		i = 3
	case 9:
		o = 3
	case 10:
		k = 3
	case 0:
	case 1:
		i = 1
	case 2:
		o = 1
	case 3:
		k = 1
	case 4:
		i, o, k = 1, 1, 1
	case 5:
		i = 2
	case 6:
		o = 2
	case 7:
		k = 2
	}
	return
}

// VerifDataBlock: blocks.
//
//verif:harness property=C04
//verif:bound any header, up to 2 (thorough: 3) inputs, outputs or kernels, or one of each, of any content in any order
func VerifDataBlock() {
	ni, no, nk := c04Counts()
	var b Block
	var enc []byte
	b.Header, enc = vHeader()
	b.Header.POW = Proof{EdgeBits: 1, Nonces: make([]uint32, 42)}
	in, ie := vInputs(ni)
	out, oe := vOutputs(no)
	ker, ke := vKernels(nk)
	want := vCat(enc, []byte{1, 0, 0, 0, 0, 0, 0}, vBe(8, uint64(ni)), vBe(8, uint64(no)), vBe(8, uint64(nk)),
		vSorted(0, ie), vSorted(34, oe), vSorted(0, ke))
	b.Inputs, b.Outputs, b.Kernels = in, out, ker
	got := b.Bytes()
	verifnd.Assert(bytes.Equal(got, want), "a block is written with its lists in hash order")
	var c Block
	r := bytes.NewReader(got)
	verifnd.Assert(c.Read(r) == nil && r.Len() == 0, "a block is read back whole")
	vSameHeader(&b.Header, &c.Header, "a block")
	verifnd.Assert(len(c.Inputs) == ni && len(c.Outputs) == no && len(c.Kernels) == nk, "a block keeps its lists")
	verifnd.Assert(bytes.Equal(c.Bytes(), want), "a block read back is the same")
	verifnd.Assert(bytes.Equal(c.Hash(), b.Hash()), "a block keeps its hash")
	verifnd.Cover("block")
}

// VerifDataCompact: compact blocks.
//
//verif:harness property=C04
//verif:bound any header, up to 2 (thorough: 3) outputs, kernels or short ids, or one of each, of any content in any order
func VerifDataCompact() {
	ni, no, nk := c04Counts()
	var b CompactBlock
	var enc []byte
	b.Header, enc = vHeader()
	b.Header.POW = Proof{EdgeBits: 1, Nonces: make([]uint32, 42)}
	out, oe := vOutputs(no)
	ker, ke := vKernels(nk)
	var ids ShortIDList
	var ide [][]byte
	for i := 0; i < ni; i++ {
		id := verifnd.Bytes("id", 6)
		ids, ide = append(ids, ShortID(append([]byte{}, id...))), append(ide, id)
	}
	want := vCat(enc, []byte{1, 0, 0, 0, 0, 0, 0}, []byte{byte(no), byte(nk)}, vBe(8, uint64(ni)),
		vSorted(34, oe), vSorted(0, ke), vSorted(-1, ide))
	b.Outputs, b.Kernels, b.KernelIDs = out, ker, ids
	got := b.Bytes()
	verifnd.Assert(bytes.Equal(got, want), "a compact block is written with its lists in order")
	var c CompactBlock
	r := bytes.NewReader(got)
	verifnd.Assert(c.Read(r) == nil && r.Len() == 0, "a compact block is read back whole")
	vSameHeader(&b.Header, &c.Header, "a compact block")
	verifnd.Assert(len(c.KernelIDs) == ni && len(c.Outputs) == no && len(c.Kernels) == nk, "a compact block keeps its lists")
	verifnd.Assert(bytes.Equal(c.Bytes(), want), "a compact block read back is the same")
	verifnd.Assert(bytes.Equal(c.Hash(), b.Hash()), "a compact block keeps its hash")
	verifnd.Cover("compact block")
}

// VerifDataCompactMany: compact blocks with as many elements as their counts
// can tell.
//
//verif:harness property=C04 cost=10 steps=20000000
//verif:bound 3 to 6 short ids, 128 and 255 kernels, 128 outputs; all but one of them fixed
func VerifDataCompactMany() {
	kind := verifnd.Choose("kind", 7)
	var b CompactBlock
	var enc []byte
	b.Header, enc = vHeader()
	b.Header.POW = Proof{EdgeBits: 1, Nonces: make([]uint32, 42)}
	var l [][]byte
	ni, no, nk, cut := 0, 0, 0, 0
	switch {
	case kind < 4:
		ni, cut = 3+kind, -1
		for i := 0; i < ni; i++ {
			c := []byte{byte(i * 3 % 7), 0, 0, 0, 0, 0}
			if i == ni/2 {
				c = verifnd.Bytes("id", 6)
			}
			b.KernelIDs, l = append(b.KernelIDs, append(ShortID{}, c...)), append(l, c)
		}
	case kind < 6:
		nk = []int{128, 255}[kind-4]
		for i := 0; i < nk; i++ {
			c := vCat(make([]byte, 16), []byte{byte(i), 8}, make([]byte, 96))
			var e TxKernel
			verifnd.Assert(e.Read(bytes.NewReader(c)) == nil, "a kernel is read")
			b.Kernels, l = append(b.Kernels, e), append(l, c)
		}
	default:
		no, cut = 128, 34
		for i := 0; i < no; i++ {
			c := vCat([]byte{0, 8}, make([]byte, 31), []byte{byte(i)}, vBe(8, 675), make([]byte, 675))
			if i == 0 {
				c[50] = verifnd.U8("proof")
			}
			var e Output
			verifnd.Assert(e.Read(bytes.NewReader(c)) == nil, "an output is read")
			b.Outputs, l = append(b.Outputs, e), append(l, c)
		}
	}
	want := vCat(enc, []byte{1, 0, 0, 0, 0, 0, 0}, []byte{byte(no), byte(nk)}, vBe(8, uint64(ni)), vSorted(cut, l))
	got := b.Bytes()
	verifnd.Assert(bytes.Equal(got, want), "a long compact block is written with its lists in order")
	var c CompactBlock
	r := bytes.NewReader(got)
	verifnd.Assert(c.Read(r) == nil && r.Len() == 0, "a long compact block is read back whole")
	verifnd.Assert(len(c.KernelIDs) == ni && len(c.Outputs) == no && len(c.Kernels) == nk, "a long compact block keeps its lists")
	verifnd.Assert(bytes.Equal(c.Bytes(), want), "a long compact block read back is the same")
	verifnd.Cover("long compact block")
}

// VerifDataTx: transactions.
//
//verif:harness property=C04
//verif:bound any kernel offset, up to 2 (thorough: 3) inputs, outputs or kernels, or one of each, of any content in any order
func VerifDataTx() {
	ni, no, nk := c04Counts()
	var t Transaction
	copy(t.KernelOffset[:], verifnd.Bytes("offset", 32))
	in, ie := vInputs(ni)
	out, oe := vOutputs(no)
	ker, ke := vKernels(nk)
	want := vCat(t.KernelOffset[:], vBe(8, uint64(ni)), vBe(8, uint64(no)), vBe(8, uint64(nk)),
		vSorted(0, ie), vSorted(34, oe), vSorted(0, ke))
	t.Inputs, t.Outputs, t.Kernels = in, out, ker
	got := t.Bytes()
	verifnd.Assert(bytes.Equal(got, want), "a transaction is written with its lists in hash order")
	var c Transaction
	r := bytes.NewReader(got)
	verifnd.Assert(c.Read(r) == nil && r.Len() == 0, "a transaction is read back whole")
	verifnd.Assert(c.KernelOffset == t.KernelOffset, "a transaction keeps its kernel offset")
	verifnd.Assert(len(c.Inputs) == ni && len(c.Outputs) == no && len(c.Kernels) == nk, "a transaction keeps its lists")
	verifnd.Assert(bytes.Equal(c.Bytes(), want), "a transaction read back is the same")
	verifnd.Cover("transaction")
}
