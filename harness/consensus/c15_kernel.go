package consensus

import (
	"crypto/sha256"
	"math/big"

	"github.com/dblokhin/gringo/secp256k1zkp"
	"github.com/dblokhin/gringo/verifnd"
	"github.com/yoss22/bulletproofs"
)

// VerifSigKernel: a kernel is valid exactly if its signature holds for its excess, fee and lock height.
//
//verif:harness property=C15
//verif:bound every kernel; point arithmetic and SHA-256 uninterpreted
func VerifSigKernel() {
	l, enc := vKernels(1)
	k := &l[0]
	p, b := k.Excess, enc[0]
	sig := b[50:]
	x := new(big.Int).SetBytes(sig[:32])
	x3 := new(big.Int).Mul(x, x)
	x3.Mul(x3, x)
	x3.Add(x3, big.NewInt(7))
	r := bulletproofs.Point{X: x, Y: bulletproofs.ModSqrtFast(x3)}
	py := bulletproofs.GetB32(p.Y)
	// nonce, key (parity of y, x), 16 zeros, fee and lock height
	e := sha256.Sum256(vCat(sig[:32], []byte{2 + py[31]&1}, b[18:50], make([]byte, 16), b[1:9], b[9:17]))
	lhs := bulletproofs.ScalarMulPoint(&secp256k1zkp.G, new(big.Int).SetBytes(sig[32:]))
	rhs := bulletproofs.SumPoints(&r, bulletproofs.ScalarMulPoint(&p, new(big.Int).SetBytes(e[:])))
	want := lhs.X.Cmp(rhs.X) == 0 && lhs.Y.Cmp(rhs.Y) == 0
	err := k.Validate()
	if want {
		verifnd.Assert(err == nil, "a kernel with a signature of its fee and lock height is valid")
		verifnd.Cover("valid")
	} else {
		verifnd.Assert(err != nil, "a kernel with another signature is invalid")
		verifnd.Cover("invalid")
	}
}
