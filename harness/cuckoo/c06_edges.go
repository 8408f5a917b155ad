package cuckoo

import "github.com/dblokhin/gringo/verifnd"

// c06State is SipHash-2-4 over 8-byte messages without the length byte, as
// Cuckoo Cycle uses it, written from its definition.
type c06State struct{ a, b, c, d uint64 }

func c06Rot(x uint64, n uint) uint64 { return x<<n | x>>(64-n) }

func (s *c06State) round() {
	s.a += s.b
	s.c += s.d
	s.b = c06Rot(s.b, 13) ^ s.a
	s.d = c06Rot(s.d, 16) ^ s.c
	s.a = c06Rot(s.a, 32)
	s.c += s.b
	s.a += s.d
	s.b = c06Rot(s.b, 17) ^ s.c
	s.d = c06Rot(s.d, 21) ^ s.a
	s.c = c06Rot(s.c, 32)
}

func (s *c06State) add(m uint64) uint64 {
	s.d ^= m
	s.round()
	s.round()
	s.a ^= m
	s.c ^= 0xff
	for i := 0; i < 4; i++ {
		s.round()
	}
	return s.a ^ s.b ^ s.c ^ s.d
}

func c06Key() [4]uint64 {
	return [4]uint64{verifnd.U64("k0"), verifnd.U64("k1"), verifnd.U64("k2"), verifnd.U64("k3")}
}

// c06Block is the output for the i-th of the 64 nonces of a block.
func c06Block(k [4]uint64, start uint64, i int) uint64 {
	s := c06State{k[0], k[1], k[2], k[3]}
	var own, last uint64
	for j := 0; j < 64; j++ {
		last = s.add(start + uint64(j))
		if j == i {
			own = last
		}
	}
	if i == 63 {
		return last
	}
	return own ^ last
}

// VerifEdgeCuckaroo: both ends of an edge come from the 64-nonce SipHash block.
//
//verif:harness property=C06 shards=4
//verif:bound every key, every 32-bit nonce, every mask of 1 to 32 bits
func VerifEdgeCuckaroo() {
	k := c06Key()
	c := NewFromKeys(k)
	lo := verifnd.Shard(4)*16 + verifnd.Choose("low", 16)
	start := uint64(verifnd.U32("block")) &^ 63
	eb := verifnd.U8("size")
	verifnd.Assume(eb >= 1 && eb <= 32)
	mask := uint64(1)<<eb - 1
	e := c.NewEdge(uint32(start)|uint32(lo), mask)
	h := c06Block(k, start, lo)
	verifnd.Assert(e.U == h&mask, "the first end is the low half of the block's hash")
	verifnd.Assert(e.V == h>>32&mask, "the second end is the high half of the block's hash")
	verifnd.Cover("edge")
}

// VerifEdgeCuckoo: the ends of a Cuckoo edge are the hashes of 2n and 2n+1.
//
//verif:harness property=C06
//verif:bound every 32-bit nonce, every key data of 0..8 bytes, graph sizes 1..64
func VerifEdgeCuckoo() {
	data := verifnd.Bytes("data", verifnd.Choose("len", 9))
	sz := verifnd.Choose("size", 64) + 1
	c := New(data, uint8(sz))
	n := verifnd.U32("nonce")
	e := c.NewEdge(n)
	k := vKeys(data)
	var end [2]uint64
	for i := range end {
		s := c06State{k[0], k[1], k[2], k[3]}
		end[i] = s.add(2*uint64(n)+uint64(i))<<(65-uint(sz))>>(65-uint(sz))<<1 | uint64(i)
	}
	verifnd.Assert(e.U == end[0], "the first end is the hash of twice the nonce")
	verifnd.Assert(e.V == end[1], "the second end is the hash of twice the nonce plus one")
	verifnd.Cover("edge")
}

// VerifEdgeKeys: the keys are the BLAKE2b hash of the given data.
//
//verif:harness property=C06
//verif:bound key data of 0, 1, 32, 238 and 300 bytes
func VerifEdgeKeys() {
	data := verifnd.Bytes("data", [...]int{0, 1, 32, 238, 300}[verifnd.Choose("len", 5)])
	n := verifnd.U32("nonce") &^ 63
	e := NewCuckaroo(append([]byte{}, data...)).NewEdge(n, 1<<29-1)
	h := c06Block(vKeys(data), uint64(n), 0)
	verifnd.Assert(e.U == h&(1<<29-1) && e.V == h>>32&(1<<29-1), "the keys are the words of the data's hash")
	verifnd.Cover("keys")
}

// VerifSiphash: the hash itself.
//
//verif:harness property=C06
//verif:bound every key, every 64-bit nonce
func VerifSiphash() {
	k, n := c06Key(), verifnd.U64("nonce")
	s := c06State{k[0], k[1], k[2], k[3]}
	verifnd.Assert(siphash24(k, n) == s.add(n), "siphash24 is SipHash-2-4 of the nonce")
	verifnd.Cover("hash")
}
