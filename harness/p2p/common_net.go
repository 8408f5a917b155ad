package p2p

import (
	"bytes"
	"errors"
	"io"
	"net"
	"sync/atomic"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/verifnd"
)

// vConn is one end of a connection; the harness is the other.
type vConn struct {
	addr    *net.TCPAddr
	in      chan []byte // what the remote sends; closed when it hangs up
	cur     []byte
	silent  bool  // the remote sends nothing before it's hung up on
	wfail   int32 // writes fail
	stall   int32 // writes hang: the remote reads nothing any more
	limited int   // writes but the first so many fail, if set
	piece   int   // no more than so many bytes are read at once, if set
	cutAt   int   // this write fails, if set, after a part of
	cutPart int   // so many bytes
	out     []byte
	closed  chan struct{}
	closes  int32
	limit   bool // a deadline is set
}

func vNewConn(addr string, sent ...[]byte) *vConn {
	a, err := net.ResolveTCPAddr("tcp", addr)
	if err != nil {
		panic(err)
	}
	c := &vConn{addr: a, in: make(chan []byte, 16), closed: make(chan struct{})}
	for _, b := range sent {
		c.in <- b
	}
	return c
}

type vTimeout struct{}

func (vTimeout) Error() string   { return "i/o timeout" }
func (vTimeout) Timeout() bool   { return true }
func (vTimeout) Temporary() bool { return true }

var errVClosed = errors.New("use of closed network connection")

func (c *vConn) Read(b []byte) (int, error) {
	if len(c.cur) == 0 {
		if c.silent && c.limit {
			return 0, vTimeout{}
		}
		select {
		case <-c.closed:
			return 0, errVClosed
		case d, ok := <-c.in:
			if !ok {
				return 0, io.EOF
			}
			c.cur = d
		}
	}
	if c.piece > 0 && len(b) > c.piece {
		b = b[:c.piece]
	}
	n := copy(b, c.cur)
	c.cur = c.cur[n:]
	return n, nil
}

func (c *vConn) Write(b []byte) (int, error) {
	select {
	case <-c.closed:
		return 0, errVClosed
	default:
	}
	if atomic.LoadInt32(&c.wfail) != 0 {
		return 0, errors.New("connection reset by peer")
	}
	if c.limited > 0 {
		if c.limited++; c.limited > 2 {
			return 0, errors.New("connection reset by peer")
		}
	}
	if c.cutAt > 0 {
		if c.cutAt--; c.cutAt == 0 {
			n := c.cutPart
			if n >= len(b) {
				n = len(b) - 1
			}
			c.out = append(c.out, b[:n]...)
			return n, vTimeout{}
		}
	}
	if atomic.LoadInt32(&c.stall) != 0 {
		<-c.closed
		return 0, errVClosed
	}
	c.out = append(c.out, b...)
	return len(b), nil
}

func (c *vConn) Close() error {
	if atomic.AddInt32(&c.closes, 1) == 1 {
		close(c.closed)
	}
	return nil
}

func (c *vConn) fail()          { atomic.StoreInt32(&c.wfail, 1) }
func (c *vConn) hang()          { atomic.StoreInt32(&c.stall, 1) }
func (c *vConn) isClosed() bool { return atomic.LoadInt32(&c.closes) > 0 }

func (c *vConn) LocalAddr() net.Addr  { return c.addr }
func (c *vConn) RemoteAddr() net.Addr { return c.addr }

func (c *vConn) SetDeadline(t time.Time) error      { c.limit = !t.IsZero(); return nil }
func (c *vConn) SetReadDeadline(t time.Time) error  { c.limit = !t.IsZero(); return nil }
func (c *vConn) SetWriteDeadline(t time.Time) error { return nil }

// vFrame is a message as it is on the wire.
func vFrame(typ uint8, body []byte) []byte {
	n := uint64(len(body))
	b := []byte{0x54, 0x34, typ}
	for i := 0; i < 8; i++ {
		b = append(b, byte(n>>uint(56-8*i)))
	}
	return append(b, body...)
}

func vCat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

// vShake is the body of a shake message.
func vShake(version, caps uint32, td uint64, agent, genesis []byte) []byte {
	return vCat(c03Be(4, uint64(version)), c03Be(4, uint64(caps)), c03Be(8, td), c03Be(8, uint64(len(agent))), agent, genesis)
}

// vGoodShake is the answer of a peer on our chain.
func vGoodShake(td uint64) []byte {
	return vFrame(consensus.MsgTypeShake, vShake(consensus.ProtocolVersion, uint32(consensus.CapFullNode), td, []byte("x"), chain.Testnet4.Hash()))
}

// vFrames takes the messages apart that were written to a connection.
func vFrames(b []byte) (types []uint8, bodies [][]byte) {
	for len(b) > 0 {
		verifnd.Assert(len(b) >= 11 && b[0] == 0x54 && b[1] == 0x34, "messages on the wire are framed")
		if len(b) < 11 {
			return
		}
		n := 0
		for _, v := range b[3:11] {
			n = n<<8 | int(v)
		}
		verifnd.Assert(n <= len(b)-11, "messages on the wire are whole")
		if n > len(b)-11 {
			return
		}
		types = append(types, b[2])
		bodies = append(bodies, b[11:11+n])
		b = b[11+n:]
	}
	return
}

func vRound() {
	time.Sleep(time.Second)
	verifnd.WaitIdle()
}

// vChain is a chain that says what the harness wants and looks after its lock.
type vChain struct {
	mu      chan struct{}
	readers int
	height  uint64
	td      uint64

	known   *consensus.Block // told by GetBlock
	asked   []consensus.Hash
	loc     []consensus.Locator
	headers []consensus.BlockHeader // told by GetBlockHeaders

	refuse bool
	quiet  bool // keeps no record, and orders nothing
	blocks []*consensus.Block
	got    [][]consensus.BlockHeader
}

func vNewChain(height, td uint64) *vChain {
	return &vChain{mu: make(chan struct{}, 1), height: height, td: td}
}

func (c *vChain) Lock()   { c.mu <- struct{}{} }
func (c *vChain) Unlock() { <-c.mu }
func (c *vChain) RLock() {
	if !c.quiet {
		c.mu <- struct{}{}
		c.readers++
	}
}
func (c *vChain) RUnlock() {
	if !c.quiet {
		c.readers--
		<-c.mu
	}
}

func (c *vChain) Genesis() consensus.Block { return consensus.Block{} }
func (c *vChain) TotalDifficulty() consensus.Difficulty {
	verifnd.Assert(c.quiet || c.readers > 0, "the chain's state is read under its lock")
	return consensus.Difficulty(c.td)
}
func (c *vChain) Height() uint64 {
	verifnd.Assert(c.quiet || c.readers > 0, "the chain's state is read under its lock")
	return c.height
}
func (c *vChain) GetBlockHeaders(loc consensus.Locator) []consensus.BlockHeader {
	if !c.quiet {
		c.loc = append(c.loc, loc)
	}
	return c.headers
}
func (c *vChain) GetBlock(hash consensus.Hash) *consensus.Block {
	if !c.quiet {
		c.asked = append(c.asked, hash)
	}
	return c.known
}
func (c *vChain) ProcessHeaders(headers []consensus.BlockHeader) error {
	verifnd.Assert(c.quiet || c.readers == 0, "the chain isn't locked by who hands it something")
	if !c.quiet {
		c.got = append(c.got, headers)
	}
	if c.refuse {
		return errors.New("invalid headers")
	}
	return nil
}
func (c *vChain) ProcessBlock(block *consensus.Block) error {
	verifnd.Assert(c.quiet || c.readers == 0, "the chain isn't locked by who hands it something")
	if !c.quiet {
		c.blocks = append(c.blocks, block)
	}
	if c.refuse {
		return errors.New("invalid block")
	}
	if !c.quiet && block.Header.Height > c.height {
		c.height = block.Header.Height
	}
	return nil
}

type vMempool struct {
	refuse bool
	quiet  bool
	got    []*consensus.Transaction
}

func (m *vMempool) ProcessTx(tx *consensus.Transaction) error {
	if !m.quiet {
		m.got = append(m.got, tx)
	}
	if m.refuse {
		return errors.New("invalid transaction")
	}
	return nil
}

const vPeer, vOther = "10.1.2.3:13414", "10.1.2.4:13414"

// vHeader is a well-formed header.
func vHeader(height uint64) consensus.BlockHeader {
	b := make([]byte, 253)
	b[246], b[252] = 1, 1
	var h consensus.BlockHeader
	verifnd.Assert(h.Read(bytes.NewReader(b)) == nil, "a header is read")
	h.Height = height
	return h
}

func vBlock(height, td uint64) *consensus.Block {
	b := &consensus.Block{Header: vHeader(height)}
	b.Header.TotalDifficulty = consensus.Difficulty(td)
	return b
}

// vConnected is a node with a connected peer (and another one, if asked for).
func vConnected(c *vChain, m Mempool, addrs ...string) (*Syncer, map[string]*vConn) {
	conns := map[string]*vConn{}
	verifnd.Dialer = func(a string) (net.Conn, error) {
		conns[a] = vNewConn(a, vGoodShake(0))
		return conns[a], nil
	}
	s := NewSyncer(addrs, c, m)
	verifnd.Baseline()
	go s.Run()
	for range addrs {
		verifnd.WaitIdle()
		vRound()
	}
	for _, a := range addrs {
		k := conns[a]
		verifnd.Assert(k != nil, "peers are connected")
		types, bodies := vFrames(k.out)
		verifnd.Assert(len(types) == 3 && types[0] == consensus.MsgTypeHand && types[1] == consensus.MsgTypePing &&
			types[2] == consensus.MsgTypeGetPeerAddrs && bytes.Equal(bodies[2], c03Be(4, uint64(consensus.CapFullNode))),
			"a new peer is greeted, pinged and asked for peers")
		k.out = nil
	}
	return s, conns
}

// vExpect checks what came back over a connection and that it is still there.
func vExpect(c *vConn, typ uint8, body []byte, what string) {
	types, bodies := vFrames(c.out)
	if typ == 255 {
		verifnd.Assert(len(types) == 0, what+": no answer")
	} else {
		verifnd.Assert(len(types) == 1 && types[0] == typ && bytes.Equal(bodies[0], body), what+": the answer")
	}
}

func vBody(m Message) []byte {
	var b bytes.Buffer
	_, err := WriteMessage(&b, m)
	verifnd.Assert(err == nil, "messages can be sent")
	return append([]byte(nil), b.Bytes()[11:]...)
}
