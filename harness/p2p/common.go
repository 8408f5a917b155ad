package p2p

import (
	"bytes"
	"net"

	"github.com/dblokhin/gringo/verifnd"
)

func c03Be(n int, v uint64) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(v >> uint(8*(n-1-i)))
	}
	return r
}

// c03Same sends m in a frame, checks the body's bytes on the wire and reads
// the frame into got.
func c03Same(m, got Message, body []byte, what string) {
	var buf bytes.Buffer
	_, err := WriteMessage(&buf, m)
	verifnd.Assert(err == nil, what+" is sent")
	verifnd.Assert(buf.Len() >= 11 && bytes.Equal(buf.Bytes()[11:], body), what+" has the protocol's layout")
	_, err = ReadMessage(&buf, got)
	verifnd.Assert(err == nil, what+" is read back")
	verifnd.Assert(buf.Len() == 0, what+" is read whole")
	verifnd.Cover(what)
}

// c03Addr is an arbitrary address with its encoding.
func c03Addr(name string) (*net.TCPAddr, []byte) {
	port := verifnd.U16(name + " port")
	var ip, enc []byte
	switch verifnd.Choose(name+" kind", 3) {
	case 0:
		ip = verifnd.Bytes(name+" ip", 4)
		enc = append([]byte{0}, ip...)
	case 1: // the same in 16 bytes
		v4 := verifnd.Bytes(name+" ip", 4)
		ip = append([]byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}, v4...)
		enc = append([]byte{0}, v4...)
	case 2:
		ip = verifnd.Bytes(name+" ip", 16)
		var z byte
		for i := 0; i < 10; i++ {
			z |= ip[i]
		}
		verifnd.Assume(!(z == 0 && ip[10] == 0xff && ip[11] == 0xff))
		enc = append([]byte{1}, ip...)
	}
	enc = append(enc, c03Be(2, uint64(port))...)
	return &net.TCPAddr{IP: net.IP(append([]byte{}, ip...)), Port: int(port)}, enc
}

func c03SameAddr(a, b *net.TCPAddr, what string) {
	verifnd.Assert(b != nil && a.Port == b.Port, what+" keeps ports")
	x, y := a.IP.To16(), b.IP.To16()
	verifnd.Assert(len(y) == 16 && bytes.Equal(x, y), what+" keeps IP addresses")
}
