package consensus

import (
	"bytes"
	"time"

	"github.com/dblokhin/gringo/verifnd"
	"golang.org/x/crypto/blake2b"
)

func vBe(n int, v uint64) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(v >> uint(8*(n-1-i)))
	}
	return r
}

func vCat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

// vProof is an arbitrary proof of the given size with its encoding.
func vProof(eb uint8, n int) Proof {
	p := Proof{EdgeBits: eb}
	for i := 0; i < n; i++ {
		v := verifnd.U32("nonce")
		if eb < 32 {
			v &= 1<<eb - 1
		}
		p.Nonces = append(p.Nonces, v)
	}
	return p
}

// vHeader is an arbitrary header (proof with one bit per nonce) and the
// expected encoding of everything before the proof.
func vHeader() (BlockHeader, []byte) {
	ts := verifnd.I64("time")
	verifnd.Assume(ts >= -8334632851200 && ts <= 8210298326400)
	h := BlockHeader{
		Version:           verifnd.U16("version"),
		Height:            verifnd.U64("height"),
		Timestamp:         time.Unix(ts, 0).UTC(),
		Previous:          verifnd.Bytes("previous", 32),
		PreviousRoot:      verifnd.Bytes("prevroot", 32),
		UTXORoot:          verifnd.Bytes("utxo", 32),
		RangeProofRoot:    verifnd.Bytes("rproot", 32),
		KernelRoot:        verifnd.Bytes("kroot", 32),
		TotalKernelOffset: verifnd.Bytes("offset", 32),
		OutputMmrSize:     verifnd.U64("outputs"),
		KernelMmrSize:     verifnd.U64("kernels"),
		TotalDifficulty:   Difficulty(verifnd.U64("total")),
		ScalingDifficulty: verifnd.U32("scaling"),
		Nonce:             verifnd.U64("nonce"),
	}
	enc := vCat(vBe(2, uint64(h.Version)), vBe(8, h.Height), vBe(8, uint64(ts)), h.Previous, h.PreviousRoot, h.UTXORoot, h.RangeProofRoot,
		h.KernelRoot, h.TotalKernelOffset, vBe(8, h.OutputMmrSize), vBe(8, h.KernelMmrSize), vBe(8, uint64(h.TotalDifficulty)),
		vBe(4, uint64(h.ScalingDifficulty)), vBe(8, h.Nonce))
	return h, enc
}

// vSameHeader compares everything a header carries on the wire.
func vSameHeader(a, b *BlockHeader, what string) {
	verifnd.Assert(a.Version == b.Version && a.Height == b.Height, what+" keeps version and height")
	verifnd.Assert(a.Timestamp.Equal(b.Timestamp), what+" keeps its time")
	verifnd.Assert(bytes.Equal(a.Previous, b.Previous) && bytes.Equal(a.PreviousRoot, b.PreviousRoot), what+" keeps the previous block")
	verifnd.Assert(bytes.Equal(a.UTXORoot, b.UTXORoot) && bytes.Equal(a.RangeProofRoot, b.RangeProofRoot) && bytes.Equal(a.KernelRoot, b.KernelRoot), what+" keeps its roots")
	verifnd.Assert(bytes.Equal(a.TotalKernelOffset, b.TotalKernelOffset), what+" keeps its kernel offset")
	verifnd.Assert(a.OutputMmrSize == b.OutputMmrSize && a.KernelMmrSize == b.KernelMmrSize, what+" keeps its sizes")
	verifnd.Assert(a.TotalDifficulty == b.TotalDifficulty && a.ScalingDifficulty == b.ScalingDifficulty, what+" keeps its difficulty")
	verifnd.Assert(a.Nonce == b.Nonce, what+" keeps its nonce")
	verifnd.Assert(a.POW.EdgeBits == b.POW.EdgeBits && len(a.POW.Nonces) == len(b.POW.Nonces), what+" keeps its graph size")
	for i := range a.POW.Nonces {
		verifnd.Assert(a.POW.Nonces[i] == b.POW.Nonces[i], what+" keeps its proof")
	}
}

// vInputBytes, vOutputBytes and vKernelBytes are well-formed encodings with
// arbitrary content.
func vInputBytes() []byte {
	return vCat([]byte{verifnd.U8("input features")}, verifnd.Bytes("input commitment", 33))
}

func vPointBytes(name string) []byte {
	return vCat([]byte{8 + verifnd.U8(name+" sign")&1}, verifnd.Bytes(name, 32))
}

func vOutputBytes() []byte {
	proof := vCat(verifnd.Bytes("proof scalars", 64), []byte{verifnd.U8("signs") & 15}, verifnd.Bytes("proof points", 128), verifnd.Bytes("proof scalars", 160),
		[]byte{verifnd.U8("signs"), verifnd.U8("signs") & 3}, verifnd.Bytes("proof points", 320))
	return vCat([]byte{verifnd.U8("output features")}, vPointBytes("output commitment"), vBe(8, 675), proof)
}

func vKernelBytes() []byte {
	return vCat([]byte{verifnd.U8("kernel features")}, verifnd.Bytes("fee", 8), verifnd.Bytes("lock", 8), vPointBytes("excess"), verifnd.Bytes("signature", 64))
}

// vInputs, vOutputs and vKernels read elements from their encodings.
func vInputs(n int) (l InputList, enc [][]byte) {
	for i := 0; i < n; i++ {
		b := vInputBytes()
		var e Input
		verifnd.Assert(e.Read(bytes.NewReader(b)) == nil, "an input is read")
		l, enc = append(l, e), append(enc, b)
	}
	return
}

func vOutputs(n int) (l OutputList, enc [][]byte) {
	for i := 0; i < n; i++ {
		b := vOutputBytes()
		var e Output
		verifnd.Assert(e.Read(bytes.NewReader(b)) == nil, "an output is read")
		l, enc = append(l, e), append(enc, b)
	}
	return
}

func vKernels(n int) (l TxKernelList, enc [][]byte) {
	for i := 0; i < n; i++ {
		b := vKernelBytes()
		var e TxKernel
		verifnd.Assert(e.Read(bytes.NewReader(b)) == nil, "a kernel is read")
		l, enc = append(l, e), append(enc, b)
	}
	return
}

// vSorted lists encodings in the order of the BLAKE2b hashes of their first n
// bytes (n = 0: of the whole), or of the encodings themselves (n < 0).
func vSorted(n int, enc [][]byte) []byte {
	var keys [][]byte
	for _, e := range enc {
		if n < 0 {
			keys = append(keys, e)
		} else {
			h := blake2b.Sum256(vCut(n, e))
			keys = append(keys, h[:])
		}
	}
	var order func(lo, hi int) []int
	order = func(lo, hi int) []int {
		if hi-lo < 2 {
			return []int{lo}[:hi-lo]
		}
		a, b := order(lo, (lo+hi)/2), order((lo+hi)/2, hi)
		var r []int
		for len(a) > 0 && len(b) > 0 {
			if bytes.Compare(keys[b[0]], keys[a[0]]) < 0 {
				r, b = append(r, b[0]), b[1:]
			} else {
				r, a = append(r, a[0]), a[1:]
			}
		}
		return append(append(r, a...), b...)
	}
	var r []byte
	for _, i := range order(0, len(enc)) {
		r = append(r, enc[i]...)
	}
	return r
}

// vOrdered tells whether the hashes of the first n bytes (0: all) of the
// encodings do not descend.
func vOrdered(n int, enc [][]byte) bool {
	var last []byte
	for _, e := range enc {
		h := blake2b.Sum256(vCut(n, e))
		if last != nil && bytes.Compare(h[:], last) < 0 {
			return false
		}
		last = h[:]
	}
	return true
}

func vCut(n int, b []byte) []byte {
	if n > 0 {
		return b[:n]
	}
	return b
}
