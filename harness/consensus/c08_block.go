package consensus

import (
	"bytes"
	"time"

	"github.com/dblokhin/gringo/verifnd"
	"github.com/yoss22/bulletproofs"
)

// VerifBlockRules: a block is accepted exactly if it follows the rules.
//
//verif:harness property=C08 uf=github.com/dblokhin/gringo/cuckoo.siphashBlock;github.com/dblokhin/gringo/cuckoo.findCycleLength cost=20 shards=4
//verif:bound every block of up to 2 inputs, 2 outputs and 2 kernels (thorough: 3 of each kind, 5 together); range proofs and curve points uninterpreted
func VerifBlockRules() {
	max, sum := 3, 6
	if verifnd.Thorough() {
		max, sum = 4, 5
	}
	s := verifnd.Shard(4)
	ni := verifnd.Choose("inputs", max)
	no := verifnd.Choose("outputs", max)
	nk := verifnd.Choose("kernels", max)
	if (ni+no+no+nk)%4 != s || ni+no+nk > sum {
		return
	}
	h, _ := vHeader()
	h.Version, h.Height, h.ScalingDifficulty = 1, 1000, 1
	h.Timestamp = time.Unix(1600000000, 0).UTC()
	h.POW.EdgeBits = 29 + verifnd.U8("size")&1
	for i := 0; i < 42; i++ {
		h.POW.Nonces = append(h.POW.Nonces, uint32(i))
	}
	b := Block{Header: h}
	var ei, eo, ek [][]byte
	b.Inputs, ei = vInputs(ni)
	b.Outputs, eo = vOutputs(no)
	b.Kernels, ek = vKernels(nk)

	header := b.Header.Validate() == nil
	sorted := vOrdered(0, ei) && vOrdered(34, eo) && vOrdered(0, ek)
	coins, coinKernels, proofs, signed := 0, 0, true, true
	p := bulletproofs.NewProver(64)
	for i := range b.Outputs {
		coins += int(eo[i][0] & 1)
		if !p.Verify(b.Outputs[i].Commit, b.Outputs[i].RangeProof) {
			proofs = false
		}
	}
	for i := range b.Kernels {
		coinKernels += int(ek[i][0] & 1)
		if b.Kernels[i].Validate() != nil {
			signed = false
		}
	}
	err := b.Validate()
	switch {
	case !header:
		verifnd.Assert(err != nil, "a block with an invalid header is refused")
		verifnd.Cover("header")
	case no == 0 || nk == 0:
		verifnd.Assert(err != nil, "a block without outputs or kernels is refused")
		verifnd.Cover("empty")
	case !sorted:
		verifnd.Assert(err != nil, "a block with lists out of order is refused")
		verifnd.Cover("unsorted")
	case coins > 1 || coinKernels > 1:
		verifnd.Assert(err != nil, "a block with several coinbase outputs or kernels is refused")
		verifnd.Cover("coinbase")
	case !proofs:
		verifnd.Assert(err != nil, "a block with an output without valid range proof is refused")
		verifnd.Cover("range proof")
	case !signed:
		verifnd.Assert(err != nil, "a block with a kernel without valid signature is refused")
		verifnd.Cover("signature")
	default:
		verifnd.Assert(err == nil, "a block that follows the rules is accepted")
		verifnd.Cover("accepted")
	}
}

// VerifBlockMany: the rules hold for every element of longer lists.
//
//verif:harness property=C08 uf=github.com/dblokhin/gringo/cuckoo.siphashBlock;github.com/dblokhin/gringo/cuckoo.findCycleLength
//verif:bound 3 to 5 (thorough: 7) outputs or kernels of fixed commitments, any one or two of them coinbase or any neighbours swapped, any one without a valid range proof or signature
func VerifBlockMany() {
	max := 3
	if verifnd.Thorough() {
		max = 5
	}
	n := 3 + verifnd.Choose("n", max)
	h, _ := vHeader()
	h.Version, h.Height, h.ScalingDifficulty = 1, 1000, 1
	h.Timestamp = time.Unix(1600000000, 0).UTC()
	h.POW.EdgeBits = 29
	for i := 0; i < 42; i++ {
		h.POW.Nonces = append(h.POW.Nonces, uint32(i))
	}
	b := Block{Header: h}
	verifnd.Assume(b.Header.Validate() == nil)
	outs := verifnd.Bool("outputs")
	one, two := verifnd.Choose("coin", n+1), verifnd.Choose("other coin", n+1)
	if one > two || one == two && one < n {
		return
	}
	at, swap := 0, 0
	if two == n {
		at = verifnd.Choose("at", n)
	}
	if one == n {
		swap = verifnd.Choose("swap", n)
	}
	element := func(out bool, i int, coin bool) []byte {
		f, tail := byte(0), make([]byte, 64)
		if coin {
			f = 1
		}
		if out {
			tail = make([]byte, 675)
			return vCat([]byte{f, 8, byte(i)}, make([]byte, 31), vBe(8, 675), tail)
		}
		return vCat([]byte{f}, make([]byte, 16), []byte{8, byte(i)}, make([]byte, 31), tail)
	}
	// the lists are put in order, but for the swapped neighbours
	var l [][]byte
	for i := 0; i < n; i++ {
		l = append(l, element(outs, i, i == one || i == two))
	}
	cut, size := 0, 114
	if outs {
		cut, size = 34, 34+8+675
	}
	all := vSorted(cut, l)
	l = nil
	for len(all) > 0 {
		l, all = append(l, all[:size]), all[size:]
	}
	if swap > 0 {
		l[swap-1], l[swap] = l[swap], l[swap-1]
	}
	other := element(!outs, 0, false)
	for i := range l {
		e := l[i]
		if outs {
			var o Output
			verifnd.Assert(o.Read(bytes.NewReader(e)) == nil, "an output is read")
			b.Outputs = append(b.Outputs, o)
		} else {
			var k TxKernel
			verifnd.Assert(k.Read(bytes.NewReader(e)) == nil, "a kernel is read")
			b.Kernels = append(b.Kernels, k)
		}
	}
	if outs {
		var k TxKernel
		verifnd.Assert(k.Read(bytes.NewReader(other)) == nil, "a kernel is read")
		b.Kernels = TxKernelList{k}
	} else {
		var o Output
		verifnd.Assert(o.Read(bytes.NewReader(other)) == nil, "an output is read")
		b.Outputs = OutputList{o}
	}
	// all but one are valid
	right := true
	p := bulletproofs.NewProver(64)
	for i := range b.Outputs {
		v := p.Verify(b.Outputs[i].Commit, b.Outputs[i].RangeProof)
		verifnd.Assume(v || outs && i == at)
		right = right && v
	}
	for i := range b.Kernels {
		v := b.Kernels[i].Validate() == nil
		verifnd.Assume(v || !outs && i == at)
		right = right && v
	}
	err := b.Validate()
	switch {
	case !vOrdered(cut, l):
		verifnd.Assert(err != nil, "a block with two elements out of order is refused")
		verifnd.Cover("swapped")
	case one < n && two < n:
		verifnd.Assert(err != nil, "a block with two coinbase elements is refused")
		verifnd.Cover("two coins")
	case !right:
		verifnd.Assert(err != nil, "a block with one invalid element is refused")
		verifnd.Cover("invalid")
	default:
		verifnd.Assert(err == nil, "a block of many valid elements is accepted")
		verifnd.Cover("valid")
	}
}
