package chain

import (
	"bytes"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/verifnd"
)

// c11Unknown is an arbitrary hash of no stored block.
func c11Unknown(s *vStore) consensus.Hash {
	h := consensus.Hash(verifnd.Bytes("unknown", 32))
	for _, k := range s.hashes {
		verifnd.Assume(!bytes.Equal(h, k))
	}
	return h
}

// c11Same checks that headers follow block i of the chain.
func c11Same(s *vStore, l []consensus.BlockHeader, i, n int) {
	verifnd.Assert(len(l) == n, "a peer gets all headers after the block it knows, up to the limit")
	for j := range l {
		h := &s.blocks[i+1+j].Header
		verifnd.Assert(l[j].Height == h.Height && l[j].TotalDifficulty == h.TotalDifficulty && bytes.Equal(l[j].Previous, h.Previous),
			"a peer gets the headers in the order of the chain")
	}
	if len(l) > 0 {
		verifnd.Assert(bytes.Equal(l[len(l)-1].Hash(), s.hashes[i+n]), "a peer gets whole headers")
	}
}

// VerifHeadersLocate: the headers after the first known block of a locator are served.
//
//verif:harness property=C11
//verif:bound chains of 1 to 4 blocks; locators of up to 3 hashes, each unknown or of any block
func VerifHeadersLocate() {
	n, m := 1+verifnd.Choose("blocks", 4), verifnd.Choose("hashes", 4)
	s := vChain(n)
	c := New(&s.blocks[0], s)
	var loc consensus.Locator
	first := -1
	for i := 0; i < m; i++ {
		k := verifnd.Choose("hash", n+1)
		if k == n {
			loc.Hashes = append(loc.Hashes, c11Unknown(s))
			continue
		}
		loc.Hashes = append(loc.Hashes, append(consensus.Hash{}, s.hashes[k]...))
		if first < 0 {
			first = k
		}
	}
	got := c.GetBlockHeaders(loc)
	vState(c, s.last, "serving headers")
	verifnd.Assert(s.changes == 0, "serving headers leaves the storage alone")
	if first < 0 {
		verifnd.Assert(len(got) == 0, "a locator without a known block gets nothing")
		verifnd.Cover("unknown")
		return
	}
	c11Same(s, got, first, n-1-first)
	verifnd.Cover("known")
	if first == n-1 {
		verifnd.Cover("head")
	}
}

// VerifHeadersLimit: no more headers than the limit are served, and no more hashes than the limit looked at.
//
//verif:harness property=C11 steps=40000000
//verif:bound chains of 512 to 516 blocks from the first or fourth; locators of 13 to 17 hashes of which the last is known
func VerifHeadersLimit() {
	if verifnd.Choose("what", 2) == 0 {
		n, k := 512+verifnd.Choose("blocks", 5), 3*verifnd.Choose("known", 2)
		s := vChainOf(n, vSmallPow)
		c := New(&s.blocks[0], s)
		want := n - 1 - k
		if want > 512 {
			want = 512
			verifnd.Cover("limited")
		}
		c11Same(s, c.GetBlockHeaders(consensus.Locator{Hashes: []consensus.Hash{s.hashes[k]}}), k, want)
		return
	}
	s := vChain(3)
	c := New(&s.blocks[0], s)
	m := 13 + verifnd.Choose("hashes", 5)
	var loc consensus.Locator
	for i := 0; i < m-1; i++ {
		loc.Hashes = append(loc.Hashes, c11Unknown(s))
	}
	loc.Hashes = append(loc.Hashes, s.hashes[0])
	got := c.GetBlockHeaders(loc)
	if m <= 14 {
		c11Same(s, got, 0, 2)
		verifnd.Cover("last hash")
	} else {
		verifnd.Assert(len(got) == 0, "hashes beyond the limit are not looked at")
		verifnd.Cover("beyond")
	}
}

// VerifChainState: a chain starts from its storage, or from genesis, and finds blocks by hash.
//
//verif:harness property=C11
//verif:bound chains of 1 to 4 blocks with any heights and difficulties, with an empty storage or not; every hash
func VerifChainState() {
	n := 1 + verifnd.Choose("blocks", 4)
	s := vChain(n)
	for i := range s.blocks {
		s.blocks[i].Header.Height = verifnd.U64("height")
		s.blocks[i].Header.TotalDifficulty = consensus.Difficulty(verifnd.U64("total"))
	}
	genesis := vBlock(0)
	genesis.Header.TotalDifficulty = consensus.Difficulty(verifnd.U64("genesis total"))
	head := s.last
	if verifnd.Choose("empty", 2) == 1 {
		*s = vStore{}
		head = &genesis
		n = 0
	}
	c := New(&genesis, s)
	vState(c, head, "a new chain")
	g := c.Genesis()
	verifnd.Assert(bytes.Equal(g.Hash(), genesis.Hash()) && g.Header.TotalDifficulty == genesis.Header.TotalDifficulty, "a chain knows its genesis block")
	verifnd.Assert(c.GetBlock(nil) == nil, "no hash is no block")
	for i := 0; i < n; i++ {
		b := c.GetBlock(append(consensus.Hash{}, s.hashes[i]...))
		verifnd.Assert(b != nil && bytes.Equal(b.Hash(), s.hashes[i]) && b.Header.Height == s.blocks[i].Header.Height, "a block is found by its hash")
		h := s.blocks[i].Header.Height
		b = c.GetBlockID(consensus.BlockID{Hash: s.hashes[i], Height: &h})
		verifnd.Assert(b != nil && bytes.Equal(b.Hash(), s.hashes[i]), "a block is found by hash and height")
	}
	verifnd.Assert(c.GetBlock(c11Unknown(s)) == nil, "an unknown hash is no block")
	verifnd.Cover("state")
}

// VerifServeGenesis: the genesis block can be served as any other.
//
//verif:harness property=C11
//verif:bound the genesis blocks of all networks, in a storage with one more block of any height, asked for by hash or every other hash
func VerifServeGenesis() {
	k := verifnd.Choose("network", 5)
	g := []*consensus.Block{&Testnet4, &Testnet3, &Testnet2, &Testnet1, &Mainnet}[k]
	next := vBlock(1)
	next.Header.Height = verifnd.U64("height")
	next.Header.Previous = g.Hash()
	s := &vStore{blocks: []consensus.Block{*g, next}, hashes: []consensus.Hash{g.Hash(), next.Hash()}}
	s.last = &s.blocks[1]
	c := New(g, s)
	hash := append(consensus.Hash{}, g.Hash()...)
	if verifnd.Bool("other") {
		hash = verifnd.Bytes("hash", 32)
	}
	b := c.GetBlock(hash)
	if b == nil {
		verifnd.Assert(!bytes.Equal(hash, g.Hash()), "the genesis block is found")
		verifnd.Cover("other")
		return
	}
	enc := b.Bytes()
	if k < 2 { // the older networks' proofs have no graph size
		var r consensus.Block
		verifnd.Assert(r.Read(bytes.NewReader(enc)) == nil && bytes.Equal(r.Hash(), hash), "a block served is read as the block asked for")
	}
	verifnd.Cover("served")
}
