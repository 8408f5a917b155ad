package secp256k1zkp

import (
	"bytes"
	"crypto/sha256"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
	"github.com/dblokhin/gringo/verifnd"
	. "github.com/yoss22/bulletproofs"
)

func c15Int(name string) (*big.Int, []byte) {
	b := verifnd.Bytes(name, 32)
	return new(big.Int).SetBytes(b), b
}

func c15Point(name string) (Point, []byte, []byte) {
	bx := verifnd.Bytes(name+" x", 32)
	var p Point
	verifnd.Assert(p.Read(bytes.NewReader(append([]byte{8 + verifnd.U8(name+" sign")&1}, bx...))) == nil, "a point is read")
	by := GetB32(p.Y)
	return p, bx, by[:]
}

// c15Challenge is the specified challenge: it commits to nonce, key and message.
func c15Challenge(rx, px, py []byte, msg [32]byte) *big.Int {
	data := append(append([]byte{}, rx...), 2+py[31]&1)
	data = append(append(data, px...), msg[:]...)
	e := sha256.Sum256(data)
	return new(big.Int).SetBytes(e[:])
}

func c15Msg() (m [32]byte) {
	copy(m[:], verifnd.Bytes("message", 32))
	return
}

// VerifSigEquation: a signature is accepted exactly if s*G = R + e*P.
//
//verif:harness property=C15
//verif:bound every key, message, nonce point and response; point arithmetic and SHA-256 uninterpreted
func VerifSigEquation() {
	p, px, py := c15Point("key")
	r, rx, _ := c15Point("nonce")
	s, _ := c15Int("response")
	msg := c15Msg()
	e := c15Challenge(rx, px, py, msg)
	lhs, rhs := ScalarMulPoint(&G, s), SumPoints(&r, ScalarMulPoint(&p, e))
	want := lhs.X.Cmp(rhs.X) == 0 && lhs.Y.Cmp(rhs.Y) == 0
	got := VerifySignature(p, msg, Signature{S: *s, R: r})
	if want {
		verifnd.Assert(got, "a signature that satisfies the equation is accepted")
		verifnd.Cover("valid")
	} else {
		verifnd.Assert(!got, "a signature that doesn't satisfy the equation is refused")
		verifnd.Cover("invalid")
	}
}

// VerifSigCodec: a signature is the nonce's x coordinate and the response, 32 bytes each.
//
//verif:harness property=C15
//verif:bound every nonce coordinate and response, every pair of fee and lock height, every point
func VerifSigCodec() {
	var enc [64]byte
	copy(enc[:], verifnd.Bytes("signature", 64))
	sig := DecodeSignature(enc)
	x := new(big.Int).SetBytes(enc[:32])
	verifnd.Assert(sig.R.X.Cmp(x) == 0 && sig.S.Cmp(new(big.Int).SetBytes(enc[32:])) == 0, "a signature is read from its two halves")
	x3 := new(big.Int).Mul(x, x)
	x3.Mul(x3, x)
	x3.Add(x3, big.NewInt(7))
	verifnd.Assert(sig.R.Y.Cmp(ModSqrtFast(x3)) == 0, "the nonce of a signature is the point whose y coordinate is a square")
	verifnd.Assert(sig.Bytes() == enc, "a signature is written as it was read")

	fee, lock := verifnd.U64("fee"), verifnd.U64("lock")
	m := ComputeMessage(fee, lock)
	for i := 0; i < 8; i++ {
		verifnd.Assert(m[i] == 0 && m[8+i] == 0, "the message starts with zeros")
		verifnd.Assert(m[16+i] == byte(fee>>uint(56-8*i)) && m[24+i] == byte(lock>>uint(56-8*i)), "the message holds fee and lock height")
	}
	p, px, py := c15Point("key")
	c := CompressPubkey(p)
	verifnd.Assert(c[0] == 2+py[31]&1 && string(c[1:]) == string(px), "a compressed key is the parity of y and x")
	verifnd.Cover("codec")
}

// VerifSigSign: signing answers the challenge for a fresh nonce that survives its encoding.
//
//verif:harness property=C15 draws=1
//verif:bound every key, message and random nonce (the first draw being one); point arithmetic and SHA-256 uninterpreted
func VerifSigSign() {
	p, px, py := c15Point("key")
	x, _ := c15Int("private key")
	n := btcec.S256().N
	verifnd.Assume(x.Cmp(n) < 0)
	msg := c15Msg()
	sig := SignMessage(p, *x, msg)
	k := new(big.Int).SetBytes(verifnd.Random(32))
	verifnd.Assert(k.Cmp(n) < 0, "the nonce is a scalar")
	r := ScalarMulPoint(&G, k)
	verifnd.Assert(sig.R.X.Cmp(r.X) == 0, "the nonce point belongs to the random nonce")
	if IsQuadraticResidue(r.Y) {
		verifnd.Assert(sig.R.Y.Cmp(r.Y) == 0, "the nonce point is the encoded one")
		verifnd.Cover("square")
	} else {
		k = new(big.Int).Sub(n, k)
		k.Mod(k, n)
		verifnd.Assert(sig.R.Y.Cmp(new(big.Int).Sub(btcec.S256().P, r.Y)) == 0, "the nonce point is the encoded one")
		verifnd.Cover("negated")
	}
	rx := GetB32(sig.R.X)
	e := c15Challenge(rx[:], px, py, msg)
	verifnd.Assert(sig.S.Cmp(Sum(k, Mul(e, x))) == 0, "the response is nonce + challenge * key")
}

// VerifSigRandom: random scalars are below the group order, whatever the random source gives.
//
//verif:harness property=C15 draws=3
//verif:bound up to 3 random draws of any 32 bytes
func VerifSigRandom() {
	k := RandomInt()
	verifnd.Assert(k.Cmp(btcec.S256().N) < 0 && k.Sign() >= 0, "random scalars are below the group order")
	verifnd.Cover("random")
}
