package p2p

import (
	"net"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/verifnd"
)

// c17Addrs checks what a node tells about its peers.
func c17Addrs(s *Syncer, caps uint32, all []string, want []bool, what string) {
	got := s.Pool.Peers(consensus.Capabilities(caps))
	verifnd.Assert(got != nil, "there is an answer")
	seen := make([]int, len(all))
	for _, a := range got.peers {
		found := false
		for i, b := range all {
			if a.String() == b {
				seen[i]++
				found = true
			}
		}
		verifnd.Assert(found, what+": only addresses that were added")
	}
	for i := range all {
		if want[i] {
			verifnd.Assert(seen[i] == 1, what+": every suitable peer, once")
		} else {
			verifnd.Assert(seen[i] == 0, what+": no other peer")
		}
	}
}

// VerifPeerTable: sequences of additions, bans, changes of status and
// questions about peers, against a model.
//
//verif:harness property=C17 steps=4000000 t.loop=64
//verif:bound every sequence of 4 (thorough: 5) operations {add, ban, change of status and capabilities, question} on three addresses (IPv4 and IPv6), every status, every capability set known and asked for; a table of at most two peers
func VerifPeerTable() {
	all := []string{"10.0.0.1:3414", "10.0.0.2:3414", "[2001:db8::1]:13414"}
	maxPeersTableSize = 2
	s := NewSyncer(nil, nil, nil)
	known, banned := make([]bool, 3), make([]bool, 3)
	status, caps := make([]peerStatus, 3), make([]uint32, 3)
	steps := 4
	if verifnd.Thorough() {
		steps = 5
	}
	n := 0
	for k := 0; k < steps; k++ {
		op := verifnd.Choose("op", 4)
		if op == 3 {
			c := verifnd.U32("asked")
			want := make([]bool, 3)
			for i := range all {
				want[i] = known[i] && status[i] != psBanned && status[i] != psFailedConn && caps[i]&c == c
				if want[i] {
					verifnd.Cover("told")
				}
			}
			c17Addrs(s, c, all, want, "answer")
			continue
		}
		i := verifnd.Choose("peer", 3)
		switch op {
		case 0:
			s.Pool.Add(all[i])
			if !known[i] && !banned[i] && n < 2 {
				known[i], status[i], caps[i] = true, psNew, uint32(consensus.CapUnknown)
				n++
			} else if banned[i] {
				verifnd.Cover("banned stays away")
			} else if !known[i] {
				verifnd.Cover("full")
			}
		case 1:
			if !known[i] { // a ban of nobody
				continue
			}
			s.Pool.Ban(all[i])
			known[i], banned[i] = false, true
			n--
		case 2:
			p := s.Pool.PeerInfo(all[i])
			if p == nil {
				break
			}
			st, c := peerStatus(verifnd.Choose("status", 5)), verifnd.U32("capabilities")
			p.Lock()
			p.Status, p.Capabilities = st, consensus.Capabilities(c)
			p.Unlock()
			status[i], caps[i] = st, c
		}
		for i := range all {
			p := s.Pool.PeerInfo(all[i])
			verifnd.Assert((p != nil) == known[i], "the table has the peers that were added and not banned, up to its limit")
			if p != nil {
				verifnd.Assert(p.Status == status[i] && uint32(p.Capabilities) == caps[i], "peers stay as they are known")
			}
		}
	}
	verifnd.Cover("end")
}

// VerifPeerAddrsLimit: an answer lists at most as many addresses as the
// protocol allows.
//
//verif:harness property=C17 steps=20000000
//verif:bound tables of 255 to 258 peers
func VerifPeerAddrsLimit() {
	n := 255 + verifnd.Choose("n", 4)
	s := NewSyncer(nil, nil, nil)
	var all []string
	for i := 0; i < n; i++ {
		a := (&net.TCPAddr{IP: net.IP{10, 0, byte(i / 250), byte(i%250 + 1)}, Port: 3414}).String()
		all = append(all, a)
		s.Pool.Add(a)
	}
	got := s.Pool.Peers(consensus.CapUnknown)
	want := n
	if want > 256 {
		want = 256
	}
	verifnd.Assert(len(got.peers) == want, "an answer lists all peers, but at most 256")
	seen := map[string]bool{}
	for _, a := range got.peers {
		verifnd.Assert(!seen[a.String()], "an answer lists nobody twice")
		seen[a.String()] = true
	}
	for a := range seen {
		verifnd.Assert(s.Pool.PeerInfo(a) != nil, "an answer lists peers")
	}
	verifnd.Cover("end")
}

// VerifPeerAddrKinds: only addresses one can connect to are taken up.
//
//verif:harness property=C17
//verif:bound thirteen kinds of addresses; every IPv4 address and port told by a peer
func VerifPeerAddrKinds() {
	s := NewSyncer(nil, nil, nil)
	if verifnd.Bool("listed") {
		bad := []string{"", "nonsense", "10.0.0.1", "10.0.0.1:", "10.0.0.1:0", "10.0.0.1:65536", ":3414", "224.0.0.1:3414", "239.255.255.255:1",
			"[ff02::1]:3414", "[2001:db8::1]:0", "[2001:db8::1]", "10.0.0.1:3414:1"}
		a := bad[verifnd.Choose("bad", len(bad))]
		s.Pool.Add(a)
		verifnd.Assert(s.Pool.PeerInfo(a) == nil, "nobody can be reached there")
		verifnd.Assert(len(s.Pool.Peers(consensus.CapUnknown).peers) == 0, "nobody is told")
		verifnd.Cover("refused")
		return
	}
	good := []string{"10.0.0.1:1", "223.255.255.255:65535", "240.0.0.1:3414", "[::1]:3414", "[fe80::1]:13414", "127.0.0.1:13414"}
	a := good[verifnd.Choose("good", len(good))]
	s = NewSyncer([]string{a}, nil, nil)
	verifnd.Assert(s.Pool.PeerInfo(a) != nil, "initial addresses are taken up")
	p := s.Pool.Peers(consensus.CapUnknown).peers
	verifnd.Assert(len(p) == 1 && p[0].String() == a, "initial addresses are told")
	verifnd.Cover("added")
}

// VerifBanCloses: a ban ends the connection.
//
//verif:harness property=C17
//verif:bound one connected peer
func VerifBanCloses() {
	const a = "10.1.2.3:13414"
	conn := vNewConn(a, vGoodShake(5))
	verifnd.Dialer = func(string) (net.Conn, error) { return conn, nil }
	s := NewSyncer([]string{a}, nil, nil)
	verifnd.Baseline()
	p, err := NewPeer(s, a)
	if err != nil {
		verifnd.Assert(false, "a good peer is accepted")
		return
	}
	info := s.Pool.PeerInfo(a)
	info.Lock()
	info.Peer, info.Status = p, psConnected
	info.Unlock()
	p.Start()
	s.Pool.Ban(a)
	verifnd.WaitIdle()
	verifnd.Assert(conn.isClosed(), "a ban ends the connection")
	verifnd.Assert(verifnd.Blocked() == 0, "a ban ends the handlers")
	s.Pool.Add(a)
	verifnd.Assert(s.Pool.PeerInfo(a) == nil, "a banned peer isn't added again")
	verifnd.Assert(info.Status == psBanned, "a banned peer is known as banned")
	verifnd.Cover("end")
}
