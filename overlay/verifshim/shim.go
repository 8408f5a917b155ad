// Package verifshim holds the Go bodies the checker interprets in place of
// reflection-heavy library functions.
package verifshim

import (
	"encoding/binary"
	"errors"
	"hash"
	"io"
	"math/big"
	"sync"
)

// The following are implemented by the checker.
func DataSize(data interface{}) int                             { panic("model") }
func ReadSize(data interface{}) int                             { panic("model") }
func Encode(order binary.ByteOrder, data interface{}) []byte    { panic("model") }
func Decode(order binary.ByteOrder, data interface{}, b []byte) { panic("model") }
func Sha256(b []byte) [32]byte                                  { panic("model") }
func liftX(dst, x *big.Int, sign byte)                          { panic("model") }

// nonResidue returns 1 if y is not a quadratic residue.
func nonResidue(y *big.Int) byte { panic("model") }

func BinaryRead(r io.Reader, order binary.ByteOrder, data interface{}) error {
	n := ReadSize(data)
	if n < 0 {
		return errors.New("binary.Read: invalid type")
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	Decode(order, data, b)
	return nil
}

func BinaryWrite(w io.Writer, order binary.ByteOrder, data interface{}) error {
	n := DataSize(data)
	if n < 0 {
		return errors.New("binary.Write: some values are not fixed-sized")
	}
	_, err := w.Write(Encode(order, data))
	return err
}

func BinarySize(data interface{}) int { return DataSize(data) }

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

func Errorf(format string, a ...interface{}) error {
	var w error
	for _, x := range a {
		if e, ok := x.(error); ok {
			w = e
		}
	}
	return &wrapError{format, w}
}

type sha struct{ b []byte }

func (s *sha) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}
func (s *sha) Sum(in []byte) []byte {
	d := Sha256(s.b)
	return append(in, d[:]...)
}
func (s *sha) Reset()         { s.b = nil }
func (s *sha) Size() int      { return 32 }
func (s *sha) BlockSize() int { return 64 }

func NewSha256() hash.Hash { return &sha{} }

func PoolGet(p *sync.Pool) interface{} {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func PoolPut(p *sync.Pool, x interface{}) {}
