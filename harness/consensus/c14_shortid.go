package consensus

import (
	"bytes"

	"github.com/dblokhin/gringo/verifnd"
)

// c14Sip is SipHash-2-4 of a message whose length is a multiple of 8 bytes,
// written from its definition.
func c14Sip(k0, k1 uint64, msg []byte) uint64 {
	a, b, c, d := k0^0x736f6d6570736575, k1^0x646f72616e646f6d, k0^0x6c7967656e657261, k1^0x7465646279746573
	rot := func(x uint64, n uint) uint64 { return x<<n | x>>(64-n) }
	round := func() {
		a += b
		c += d
		b = rot(b, 13) ^ a
		d = rot(d, 16) ^ c
		a = rot(a, 32)
		c += b
		a += d
		b = rot(b, 17) ^ c
		d = rot(d, 21) ^ a
		c = rot(c, 32)
	}
	add := func(m uint64) {
		d ^= m
		round()
		round()
		a ^= m
	}
	for i := 0; i < len(msg); i += 8 {
		add(c14Le(msg[i : i+8]))
	}
	add(uint64(len(msg)) << 56)
	c ^= 0xff
	for i := 0; i < 4; i++ {
		round()
	}
	return a ^ b ^ c ^ d
}

func c14Le(b []byte) (v uint64) {
	for i, x := range b {
		v |= uint64(x) << uint(8*i)
	}
	return
}

// VerifShortID: a short id is the first 6 bytes of SipHash-2-4 keyed by the block hash.
//
//verif:harness property=C14
//verif:bound every 32-byte hash and block hash
func VerifShortID() {
	h, block := verifnd.Bytes("hash", 32), verifnd.Bytes("block", 32)
	h0, block0 := append([]byte{}, h...), append([]byte{}, block...)
	id := Hash(h).ShortID(block)
	v := c14Sip(c14Le(block0[:8]), c14Le(block0[8:16]), h0)
	verifnd.Assert(len(id) == 6, "a short id has 6 bytes")
	verifnd.Assert(c14Le(id) == v&(1<<48-1), "a short id is the start of the keyed hash")
	verifnd.Assert(bytes.Equal(h, h0) && bytes.Equal(block, block0), "short ids leave the hashes alone")
	again := Hash(h).ShortID(block)
	id[0]++
	verifnd.Assert(c14Le(again) == v&(1<<48-1), "short ids don't share memory")
	verifnd.Cover("id")
}

// VerifShortIDOrder: short ids are ordered by their bytes.
//
//verif:harness property=C14
//verif:bound every pair of short ids
func VerifShortIDOrder() {
	x, y := verifnd.Bytes("id", 6), verifnd.Bytes("id", 6)
	l := ShortIDList{x, y}
	be := func(b []byte) (v uint64) {
		for _, c := range b {
			v = v<<8 | uint64(c)
		}
		return
	}
	vx, vy := be(x), be(y)
	verifnd.Assert(l.Less(0, 1) == (vx < vy) && l.Less(1, 0) == (vy < vx), "short ids are ordered by their bytes")
	l.Swap(0, 1)
	verifnd.Assert(l.Len() == 2 && be(l[0]) == vy && be(l[1]) == vx, "swapping short ids swaps them")
	verifnd.Cover("order")
}
