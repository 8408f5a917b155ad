package verifshim

import (
	"crypto/elliptic"
	"errors"
	"io"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
	"github.com/yoss22/bulletproofs"
)

func PointRead(p *bulletproofs.Point, r io.Reader) error {
	buf := make([]byte, 32+1)
	if _, err := io.ReadFull(r, buf); err != nil {
		return err
	}
	sign := buf[0]
	if (sign & 0xfe) != 8 {
		return errors.New("point is not serialized correctly")
	}
	p.X = new(big.Int).SetBytes(buf[1:])
	p.Y = new(big.Int)
	liftX(p.Y, p.X, sign)
	return nil
}

func DeserializePoints(buf []byte, num uint) ([]*bulletproofs.Point, error) {
	bitvecSize := (num + 7) / 8
	isNonResidue := buf[0:bitvecSize]
	xcoords := buf[bitvecSize:]
	points := make([]*bulletproofs.Point, num)
	for i := uint(0); i < num; i++ {
		p := new(bulletproofs.Point)
		p.X = new(big.Int).SetBytes(xcoords[i*32 : (i+1)*32])
		p.Y = new(big.Int)
		liftX(p.Y, p.X, (isNonResidue[i/8]>>(i%8))&1)
		points[i] = p
	}
	return points, nil
}

func PointBytes(p *bulletproofs.Point) []byte {
	x := bulletproofs.GetB32(p.X)
	return append([]byte{8 + nonResidue(p.Y)}, x[:]...)
}

func SerializePoints(points []*bulletproofs.Point) []byte {
	r := make([]byte, (len(points)+7)/8)
	for i, p := range points {
		r[i/8] |= nonResidue(p.Y) << (uint(i) % 8)
	}
	for _, p := range points {
		x := bulletproofs.GetB32(p.X)
		r = append(r, x[:]...)
	}
	return r
}

// bulletProofSize is the serialised size of a range proof.
const bulletProofSize = 675

// BulletProofRead decides first whether a length limit cuts the proof short,
// in which case the proof is not read at all.
func BulletProofRead(p *bulletproofs.BulletProof, r io.Reader) error {
	if l, ok := r.(*io.LimitedReader); ok && l.N < bulletProofSize {
		return io.ErrUnexpectedEOF
	}
	return p.Read(r)
}

var s256 *btcec.KoblitzCurve

func S256() *btcec.KoblitzCurve {
	if s256 == nil {
		h := func(s string) *big.Int {
			v, _ := new(big.Int).SetString(s, 16)
			return v
		}
		c := &elliptic.CurveParams{}
		c.P = h("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
		c.N = h("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
		c.B = big.NewInt(7)
		c.Gx = h("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
		c.Gy = h("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
		c.BitSize = 256
		s256 = &btcec.KoblitzCurve{CurveParams: c}
	}
	return s256
}
