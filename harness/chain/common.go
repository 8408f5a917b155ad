package chain

import (
	"bytes"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/verifnd"
)

func vBe(n int, v uint64) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(v >> uint(8*(n-1-i)))
	}
	return r
}

func vCat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

// vStore is a storage that holds the blocks of one chain, from genesis on.
type vStore struct {
	blocks  []consensus.Block
	hashes  []consensus.Hash
	last    *consensus.Block
	changes int
}

func (s *vStore) AddBlock(block *consensus.Block) { s.changes++ }
func (s *vStore) DelBlock(id consensus.BlockID)   { s.changes++ }
func (s *vStore) GetLastBlock() *consensus.Block  { return s.last }
func (s *vStore) find(id consensus.BlockID) int {
	for i := range s.blocks {
		if id.Height != nil && s.blocks[i].Header.Height != *id.Height {
			continue
		}
		if id.Hash != nil && !bytes.Equal(s.hashes[i], id.Hash) {
			continue
		}
		return i
	}
	return -1
}

func (s *vStore) GetBlock(id consensus.BlockID) *consensus.Block {
	if i := s.find(id); i >= 0 {
		return &s.blocks[i]
	}
	return nil
}

func (s *vStore) From(id consensus.BlockID, limit int) consensus.BlockList {
	i := s.find(id)
	if i < 0 || limit <= 0 {
		return nil
	}
	end := i + limit
	if end > len(s.blocks) {
		end = len(s.blocks)
	}
	return append(consensus.BlockList{}, s.blocks[i:end]...)
}

// vPow is a proof of work of its own for each i.
func vPow(i int) consensus.Proof {
	p := consensus.Proof{EdgeBits: 30, Nonces: make([]uint32, 42)}
	for j := range p.Nonces {
		p.Nonces[j] = uint32(i*64 + j)
	}
	return p
}

// vSmallPow is the same with one bit per nonce.
func vSmallPow(i int) consensus.Proof {
	p := consensus.Proof{EdgeBits: 1, Nonces: make([]uint32, 42)}
	for j := 0; j < 16; j++ {
		p.Nonces[j] = uint32(i >> uint(j) & 1)
	}
	return p
}

// vBlock is a stored block of the given height.
func vBlock(i int) consensus.Block {
	return consensus.Block{Header: consensus.BlockHeader{
		Version:           1,
		Height:            uint64(i),
		Previous:          make([]byte, 32),
		PreviousRoot:      make([]byte, 32),
		Timestamp:         time.Unix(1500000000+60*int64(i), 0).UTC(),
		UTXORoot:          make([]byte, 32),
		RangeProofRoot:    make([]byte, 32),
		KernelRoot:        make([]byte, 32),
		TotalKernelOffset: make([]byte, 32),
		POW:               vPow(i),
		TotalDifficulty:   consensus.Difficulty(1000 * i),
		ScalingDifficulty: 1,
	}}
}

// vChain is a storage with n linked blocks.
func vChain(n int) *vStore {
	return vChainOf(n, vPow)
}

func vChainOf(n int, pow func(i int) consensus.Proof) *vStore {
	s := &vStore{}
	for i := 0; i < n; i++ {
		b := vBlock(i)
		b.Header.POW = pow(i)
		if i > 0 {
			b.Header.Previous = s.hashes[i-1]
		}
		s.blocks = append(s.blocks, b)
		s.hashes = append(s.hashes, b.Hash())
	}
	s.last = &s.blocks[n-1]
	return s
}

func vPointBytes(name string) []byte {
	return vCat([]byte{8 + verifnd.U8(name+" sign")&1}, verifnd.Bytes(name, 32))
}

// vFill gives a block an output and a kernel of arbitrary content.
func vFill(b *consensus.Block) {
	proof := vCat(verifnd.Bytes("proof scalars", 64), []byte{verifnd.U8("signs") & 15}, verifnd.Bytes("proof points", 128), verifnd.Bytes("proof scalars", 160),
		[]byte{verifnd.U8("signs"), verifnd.U8("signs") & 3}, verifnd.Bytes("proof points", 320))
	var o consensus.Output
	verifnd.Assert(o.Read(bytes.NewReader(vCat([]byte{verifnd.U8("output features")}, vPointBytes("output commitment"), vBe(8, 675), proof))) == nil, "an output is read")
	var k consensus.TxKernel
	verifnd.Assert(k.Read(bytes.NewReader(vCat([]byte{verifnd.U8("kernel features")}, verifnd.Bytes("fee", 8), verifnd.Bytes("lock", 8), vPointBytes("excess"), verifnd.Bytes("signature", 64)))) == nil, "a kernel is read")
	b.Outputs, b.Kernels = consensus.OutputList{o}, consensus.TxKernelList{k}
}

// vState checks that a chain is where it was, and not locked.
func vState(c *Chain, head *consensus.Block, what string) {
	h := c.Head()
	verifnd.Assert(bytes.Equal(h.Hash(), head.Hash()), what+" keeps the head")
	verifnd.Assert(c.Height() == head.Header.Height && c.TotalDifficulty() == head.Header.TotalDifficulty, what+" keeps height and difficulty")
	c.Lock()
	c.Unlock()
}
