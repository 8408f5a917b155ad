package cuckoo

import "github.com/dblokhin/gringo/verifnd"

// VerifCycleRing: 42 edges of a ring of which some ends are replaced.
//
//verif:harness property=C05 merge=on shards=8 t.shards=16 t.timeout=800
//verif:bound a ring of 42 edges listed in a scattered order, with the ends of any 1 edge, or of 2 edges at most 2 apart (thorough: any 2), replaced by arbitrary nodes
func VerifCycleRing() {
	const n = 42
	u, v, pos := make([]uint64, n), make([]uint64, n), make([]int, n)
	for i := 0; i < n; i++ {
		p := i * 11 % n
		pos[i] = p
		// the ring is V0 -0- U0 -1- V1 -2- U1 -3- V2 ...
		u[i], v[i] = uint64(p/2), uint64((p+1)/2%(n/2))
	}
	shards := 8
	if verifnd.Thorough() {
		shards = 16
	}
	a := verifnd.Shard(shards) + shards*verifnd.Choose("edge", (n+shards-1)/shards)
	if a >= n {
		return
	}
	ua, va := uint64(verifnd.U8("u")), uint64(verifnd.U8("v"))
	var want bool
	if verifnd.Bool("two") {
		var b int
		if verifnd.Thorough() {
			b = a + 1 + verifnd.Choose("edge2", n-1)
			if b >= n {
				return
			}
		} else {
			b = (pos[a] + 1 + verifnd.Choose("edge2", 2)) * 23 % n // 23*11 = 1 mod 42
		}
		ub, vb := uint64(verifnd.U8("u")), uint64(verifnd.U8("v"))
		keep := vEq(ua, u[a]) & vEq(va, v[a]) & vEq(ub, u[b]) & vEq(vb, v[b])
		swap := vEq(ua, u[b]) & vEq(va, v[b]) & vEq(ub, u[a]) & vEq(vb, v[a])
		var cross uint64
		if pos[a]%2 != pos[b]%2 {
			cross = vEq(ua, u[a])&vEq(va, v[b])&vEq(ub, u[b])&vEq(vb, v[a]) | vEq(ua, u[b])&vEq(va, v[a])&vEq(ub, u[a])&vEq(vb, v[b])
		}
		// the node two neighbours share may be any that is not in the ring
		if pos[b] == (pos[a]+1)%n || pos[a] == (pos[b]+1)%n {
			free := uint64(1)
			for i := range u {
				if i != a && i != b {
					if u[a] == u[b] {
						free &^= vEq(ua, u[i])
					} else {
						free &^= vEq(va, v[i])
					}
				}
			}
			if u[a] == u[b] {
				free &= vEq(ua, ub) & (vEq(va, v[a])&vEq(vb, v[b]) | vEq(va, v[b])&vEq(vb, v[a]))
			} else {
				free &= vEq(va, vb) & (vEq(ua, u[a])&vEq(ub, u[b]) | vEq(ua, u[b])&vEq(ub, u[a]))
			}
			cross |= free
		}
		want = keep|swap|cross == 1
		u[b], v[b] = ub, vb
	} else {
		want = vEq(ua, u[a])&vEq(va, v[a]) == 1
	}
	u[a], v[a] = ua, va
	edges := make([]*Edge, n)
	for i := range edges {
		edges[i] = &Edge{U: u[i], V: v[i]}
	}
	got := findCycleLength(edges) == n
	verifnd.Assert(got == want, "42 edges are accepted exactly if they form one cycle")
	if got {
		verifnd.Cover("cycle")
	} else {
		verifnd.Cover("no cycle")
	}
}
