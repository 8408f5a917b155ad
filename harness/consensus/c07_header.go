package consensus

import (
	"bytes"
	"time"

	"github.com/dblokhin/gringo/cuckoo"
	"github.com/dblokhin/gringo/verifnd"
)

// c07Rules are the rules besides time and proof of work.
func c07Rules(h *BlockHeader) bool {
	var version bool
	switch {
	case h.Height < 95000:
		version = h.Version == 1
	case h.Height < 250000:
		version = h.Version == 2
	case h.Height < 500000:
		version = h.Version == 3
	}
	size := h.POW.EdgeBits == 29 || h.POW.EdgeBits >= 30 && h.ScalingDifficulty == 1
	return version && size
}

// VerifHeaderRules: a header is accepted exactly if it follows the rules.
//
//verif:harness property=C07 merge=on uf=github.com/dblokhin/gringo/cuckoo.siphashBlock;github.com/dblokhin/gringo/cuckoo.findCycleLength cost=20
//verif:bound every header with times within 34000 years of now and 42 arbitrary nonces; the graph search is uninterpreted (C05, C06 decide it); clock differences of 720 to 725 s are left open
func VerifHeaderRules() {
	h, _ := vHeader()
	now := time.Now()
	delta := verifnd.I64("age")
	verifnd.Assume(delta >= -1<<40 && delta <= 1<<40)
	ts := now.Unix() + delta
	h.Timestamp = time.Unix(ts, 0).UTC()
	h.POW.EdgeBits = verifnd.U8("size")
	for i := 0; i < 42; i++ {
		h.POW.Nonces = append(h.POW.Nonces, verifnd.U32("nonce"))
	}
	enc := vCat(vBe(2, uint64(h.Version)), vBe(8, h.Height), vBe(8, uint64(ts)), h.Previous, h.PreviousRoot, h.UTXORoot, h.RangeProofRoot,
		h.KernelRoot, h.TotalKernelOffset, vBe(8, h.OutputMmrSize), vBe(8, h.KernelMmrSize), vBe(8, uint64(h.TotalDifficulty)),
		vBe(4, uint64(h.ScalingDifficulty)), vBe(8, h.Nonce))
	work := cuckoo.NewCuckaroo(enc).Verify(append([]uint32{}, h.POW.Nonces...), h.POW.EdgeBits)
	rules := c07Rules(&h)
	err := h.Validate()
	switch {
	case !work:
		verifnd.Assert(err != nil, "a header without proof of work over its content is refused")
		verifnd.Cover("no work")
	case !rules:
		verifnd.Assert(err != nil, "a header with a wrong version, graph size or scaling is refused")
		verifnd.Cover("wrong")
	case delta > 725:
		verifnd.Assert(err != nil, "a header more than 12 minutes ahead is refused")
		verifnd.Cover("ahead")
	case delta <= 720:
		verifnd.Assert(err == nil, "a header that follows the rules is accepted")
		verifnd.Cover("accepted")
	}
}

// VerifHeaderTime: no time a peer can send passes as present.
//
//verif:harness property=C07 merge=on uf=github.com/dblokhin/gringo/cuckoo.siphashBlock;github.com/dblokhin/gringo/cuckoo.findCycleLength
//verif:bound every 64-bit time on the wire; the rest of the header valid
func VerifHeaderTime() {
	h, enc := vHeader()
	verifnd.Assume(h.Height == 1000 && h.Version == 1)
	ts := verifnd.I64("wire time")
	copy(enc[10:18], vBe(8, uint64(ts)))
	b := vCat(enc, []byte{29})
	bits := make([]byte, 153) // nonces 0, 1, 2, ..
	for i := uint(0); i < 42; i++ {
		for j := uint(0); j < 6; j++ {
			bits[(29*i+j)/8] |= byte(i>>j&1) << ((29*i + j) % 8)
		}
	}
	var g BlockHeader
	err := g.Read(bytes.NewReader(append(b, bits...)))
	now := time.Now().Unix()
	if err != nil {
		verifnd.Assert(ts < -1<<40 || ts > 1<<40, "a time near ours is read")
		verifnd.Cover("unreadable")
		return
	}
	if g.Validate() == nil {
		verifnd.Assert(ts <= now+725, "a header more than 12 minutes ahead is refused")
		verifnd.Cover("accepted")
	} else {
		verifnd.Cover("refused")
	}
}

// VerifHeaderVersions: the version schedule.
//
//verif:harness property=C07
//verif:bound every height and version
func VerifHeaderVersions() {
	h, v := verifnd.U64("height"), verifnd.U16("version")
	want := h < 95000 && v == 1 || h >= 95000 && h < 250000 && v == 2 || h >= 250000 && h < 500000 && v == 3
	verifnd.Assert(ValidateBlockVersion(h, v) == want, "versions follow the hard fork schedule")
	verifnd.Cover("version")
}
