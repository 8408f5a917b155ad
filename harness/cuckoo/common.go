package cuckoo

import "golang.org/x/crypto/blake2b"

// vKeys is the key schedule: the 32 bytes of BLAKE2b of the data as four
// little-endian words.
func vKeys(data []byte) (k [4]uint64) {
	h := blake2b.Sum256(data)
	for i, b := range h {
		k[i/8] |= uint64(b) << uint(8*(i%8))
	}
	return
}

// vEq is 1 if a == b, without branching.
func vEq(a, b uint64) uint64 {
	d := a ^ b
	return 1 ^ (d|-d)>>63
}

// vCycle decides, without branching on the edges, whether they form exactly
// one cycle alternating between the two sides: every edge has exactly one
// partner at each end, and all edges are connected.
func vCycle(u, v []uint64) bool {
	n := len(u)
	ok := uint64(1)
	adj := make([][]uint64, n)
	for i := range adj {
		adj[i] = make([]uint64, n)
		var du, dv uint64
		for j := range u {
			if j != i {
				a, b := vEq(u[i], u[j]), vEq(v[i], v[j])
				du, dv = du+a, dv+b
				adj[i][j] = a | b
			}
		}
		ok &= vEq(du, 1) & vEq(dv, 1)
	}
	// edges reached from the first one
	reach := make([]uint64, n)
	reach[0] = 1
	for s := 0; s < n/2; s++ {
		next := append([]uint64{}, reach...)
		for i := range adj {
			for j := range adj {
				next[i] |= reach[j] & adj[i][j]
			}
		}
		reach = next
	}
	for _, r := range reach {
		ok &= r
	}
	return ok == 1
}
