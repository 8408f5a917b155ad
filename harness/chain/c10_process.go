package chain

import (
	"time"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/verifnd"
)

// VerifProcessLink: a block is accepted exactly if it is valid and follows its predecessor.
//
//verif:harness property=C10 uf=github.com/dblokhin/gringo/cuckoo.siphashBlock;github.com/dblokhin/gringo/cuckoo.findCycleLength
//verif:bound chains of 1 to 3 blocks; a new block of any content, time and difficulties, at heights 0 to 4, on top of any of them, of unknown blocks or the head itself
func VerifProcessLink() {
	n := 1 + verifnd.Choose("blocks", 3)
	s := vChain(n)
	for i := range s.blocks {
		s.blocks[i].Header.TotalDifficulty = consensus.Difficulty(verifnd.U64("total"))
		t := verifnd.I64("time")
		verifnd.Assume(t >= 0 && t < 1600000000)
		s.blocks[i].Header.Timestamp = time.Unix(t, 0).UTC()
	}
	c := New(&s.blocks[0], s)
	if verifnd.Choose("again", 2) == 1 {
		b := *s.last
		verifnd.Assert(c.ProcessBlock(&b) == nil, "the head of the chain is already there")
		vState(c, s.last, "offering the head")
		verifnd.Assert(s.changes == 0, "offering the head leaves the storage alone")
		verifnd.Cover("head")
		return
	}
	height, on := verifnd.Choose("height", 5), verifnd.Choose("on", n+1)
	b := vBlock(100)
	b.Header.Height = uint64(height)
	t := verifnd.I64("time")
	verifnd.Assume(t >= 0 && t < 1600000000)
	b.Header.Timestamp = time.Unix(t, 0).UTC()
	b.Header.TotalDifficulty = consensus.Difficulty(verifnd.U64("total"))
	b.Header.Difficulty = consensus.Difficulty(verifnd.U64("difficulty"))
	b.Header.Previous = verifnd.Bytes("unknown", 32)
	for _, h := range s.hashes {
		verifnd.Assume(string(h) != string(b.Header.Previous))
	}
	if on < n {
		b.Header.Previous = s.hashes[on]
	}
	vFill(&b)
	valid := b.Validate() == nil
	err := c.ProcessBlock(&b)
	vState(c, s.last, "offering a block")
	if !valid {
		verifnd.Assert(err != nil, "an invalid block is refused")
		verifnd.Assert(s.changes == 0, "an invalid block leaves the storage alone")
		verifnd.Cover("invalid")
		return
	}
	if on == n || height != on+1 {
		verifnd.Assert(err == nil && s.changes == 0, "a block of an unknown chain is passed over")
		verifnd.Cover("unknown")
		return
	}
	p := &s.blocks[on].Header
	if t <= p.Timestamp.Unix() || b.Header.TotalDifficulty != p.TotalDifficulty+p.POW.ToDifficulty() || b.Header.Difficulty < 1 {
		verifnd.Assert(err != nil, "a block with a time before its predecessor's or a wrong difficulty is refused")
		verifnd.Assert(s.changes == 0, "a refused block leaves the storage alone")
		verifnd.Cover("refused")
	} else {
		verifnd.Assert(err == nil, "a valid block that follows its predecessor is accepted")
		verifnd.Cover("accepted")
	}
}

// VerifProcessDifficulty: a block needs the difficulty computed from the 71 blocks before it.
//
//verif:harness property=C10 uf=github.com/dblokhin/gringo/cuckoo.siphashBlock;github.com/dblokhin/gringo/cuckoo.findCycleLength
//verif:bound chains of 70, 71, 72, 73 and 80 blocks of different times and difficulties, one of them arbitrary; a valid block of any difficulty on top of the last, or on top of the one 3 before
func VerifProcessDifficulty() {
	n := []int{70, 71, 72, 73, 80}[verifnd.Choose("blocks", 5)]
	s := vChain(n)
	for i := range s.blocks {
		s.blocks[i].Header.Timestamp = time.Unix(1500000000+60*int64(i)+int64(i*i%7), 0).UTC()
		s.blocks[i].Header.Difficulty = consensus.Difficulty(1000 + 37*i*i)
	}
	height := n - 3*verifnd.Choose("earlier", 2)
	any := verifnd.Choose("any", 8)
	x := verifnd.U64("difficulty of one")
	verifnd.Assume(x < 1<<50)
	if i := []int{0, height - 72, height - 71, height - 61, height - 60, height - 59, height - 1, height}[any]; i >= 0 && i < n {
		s.blocks[i].Header.Difficulty = consensus.Difficulty(x)
	}
	c := New(&s.blocks[0], s)
	p := &s.blocks[height-1].Header
	b := vBlock(100)
	b.Header.Height = uint64(height)
	b.Header.Previous = s.hashes[height-1]
	b.Header.Timestamp = time.Unix(1550000000, 0).UTC()
	b.Header.TotalDifficulty = p.TotalDifficulty + p.POW.ToDifficulty()
	d := verifnd.U64("difficulty")
	b.Header.Difficulty = consensus.Difficulty(d)
	vFill(&b)
	verifnd.Assume(b.Validate() == nil)
	var before consensus.BlockList
	for i := height - 1; i >= 0 && i >= height-71; i-- {
		before = append(before, s.blocks[i])
	}
	err := c.ProcessBlock(&b)
	vState(c, s.last, "offering a block")
	if need := uint64(consensus.NextDifficulty(before)); d < need {
		verifnd.Assert(err != nil, "a block of too low difficulty is refused")
		verifnd.Assert(s.changes == 0, "a refused block leaves the storage alone")
		verifnd.Cover("low")
	} else {
		verifnd.Assert(err == nil, "a block of enough difficulty is accepted")
		verifnd.Cover("enough")
	}
}

// VerifProcessHeaders: headers are accepted exactly if each is valid.
//
//verif:harness property=C10 uf=github.com/dblokhin/gringo/cuckoo.siphashBlock;github.com/dblokhin/gringo/cuckoo.findCycleLength
//verif:bound 0 to 3 headers of any height, version, graph size and content
func VerifProcessHeaders() {
	n := verifnd.Choose("headers", 4)
	s := vChain(2)
	c := New(&s.blocks[0], s)
	var l []consensus.BlockHeader
	valid := true
	for i := 0; i < n; i++ {
		b := vBlock(100 + i)
		b.Header.Height, b.Header.Version = verifnd.U64("height"), verifnd.U16("version")
		b.Header.Previous, b.Header.Nonce = verifnd.Bytes("previous", 32), verifnd.U64("nonce")
		b.Header.POW.EdgeBits = 28 + verifnd.U8("size")&3
		l = append(l, b.Header)
		valid = valid && b.Header.Validate() == nil
	}
	err := c.ProcessHeaders(l)
	vState(c, s.last, "offering headers")
	verifnd.Assert(s.changes == 0, "offering headers leaves the storage alone")
	verifnd.Assert((err == nil) == valid, "headers are accepted exactly if each is valid")
	if valid {
		verifnd.Cover("valid")
	} else {
		verifnd.Cover("invalid")
	}
}
