package cuckoo

import "github.com/dblokhin/gringo/verifnd"

// c05Nonces are n arbitrary nonces; in tells whether they are strictly
// ascending and below limit.
func c05Nonces(n int, limit uint64) (l []uint32, in bool) {
	in = true
	for i := 0; i < n; i++ {
		v := verifnd.U32("nonce")
		if uint64(v) >= limit || i > 0 && v <= l[i-1] {
			in = false
		}
		l = append(l, v)
	}
	return
}

// c05Count gives the large counts a shard each.
func c05Count() int {
	s := 3
	if verifnd.Thorough() {
		s = 5
	}
	if k := verifnd.Shard(s); k > 0 {
		return 4 + k
	}
	return verifnd.Choose("n", 5)
}

// VerifCycleCuckaroo: the verdict on a proof of up to 6 (thorough: 8) edges.
//
//verif:harness property=C05 uf=siphashBlock merge=on cost=30 shards=3 t.shards=5 t.timeout=800
//verif:bound 0..6 (thorough: 0..8) arbitrary nonces, arbitrary edge function, any key, graph size 29, and 1, 8, 19, 31, 32, 33 for up to 4 edges
func VerifCycleCuckaroo() {
	n, eb := c05Count(), uint8(29)
	if n <= 4 {
		eb = [...]uint8{29, 1, 8, 19, 31, 32, 33}[verifnd.Choose("size", 7)]
	}
	mask := uint64(1)<<eb - 1
	key := [4]uint64{verifnd.U64("k0"), verifnd.U64("k1"), verifnd.U64("k2"), verifnd.U64("k3")}
	c := NewFromKeys(key)
	l, in := c05Nonces(n, mask+1)
	got := c.Verify(l, eb)
	if !in || n == 0 {
		verifnd.Assert(!got, "a proof whose nonces are not ascending or out of range is refused")
		verifnd.Cover("refused order")
		return
	}
	u, v := make([]uint64, n), make([]uint64, n)
	for i, x := range l {
		e := siphashBlock(key, uint64(x))
		u[i], v[i] = e&mask, e>>32&mask
	}
	want := vCycle(u, v)
	verifnd.Assert(got == want, "a proof is accepted exactly if its edges form one cycle")
	if want {
		verifnd.Cover("accepted")
	} else {
		verifnd.Cover("refused graph")
	}
}

// VerifCycleCuckoo: the same for the older variant.
//
//verif:harness property=C05 uf=siphash24 merge=on cost=30 shards=3 t.shards=5 t.timeout=800
//verif:bound 0..6 (thorough: 0..8) arbitrary nonces, arbitrary edge function, graph size 20 with easiness 75, and 4, 31 and easiness 50 for up to 4 edges
func VerifCycleCuckoo() {
	n, sz, ease := c05Count(), uint8(20), uint64(75)
	if n <= 4 {
		sz = [...]uint8{20, 4, 31}[verifnd.Choose("size", 3)]
		ease = [...]uint64{75, 50}[verifnd.Choose("ease", 2)]
	}
	c, key := New([]byte{byte(49)}, sz), vKeys([]byte{byte(49)})
	size := uint64(1) << sz
	l, in := c05Nonces(n, ease*size/100)
	got := c.Verify(l, ease)
	if !in || n == 0 {
		verifnd.Assert(!got, "a proof whose nonces are not ascending or not easy enough is refused")
		verifnd.Cover("refused order")
		return
	}
	u, v := make([]uint64, n), make([]uint64, n)
	for i, x := range l {
		u[i] = siphash24(key, 2*uint64(x)) & (size/2 - 1)
		v[i] = siphash24(key, 2*uint64(x)+1) & (size/2 - 1)
	}
	want := vCycle(u, v)
	verifnd.Assert(got == want, "a proof is accepted exactly if its edges form one cycle")
	if want {
		verifnd.Cover("accepted")
	} else {
		verifnd.Cover("refused graph")
	}
}
