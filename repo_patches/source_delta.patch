From ed9974c874876c871eb1523d0c6f24cef9b76884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:52 +0000
Subject: [PATCH 01/40] fix: ReadMessage skips the part of a body its message
 did not use

---
 p2p/protocol.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/p2p/protocol.go b/p2p/protocol.go
index ba25bf0..4941026 100644
--- a/p2p/protocol.go
+++ b/p2p/protocol.go
@@ -9,6 +9,7 @@ import (
 	"errors"
 	"github.com/dblokhin/gringo/consensus"
 	"io"
+	"io/ioutil"
 )
 
 const (
@@ -71,5 +72,11 @@ func ReadMessage(r io.Reader, msg Message) (uint64, error) {
 	}
 
 	rb := io.LimitReader(r, int64(header.Len))
-	return uint64(consensus.HeaderLen) + uint64(header.Len), msg.Read(rb)
+	if err := msg.Read(rb); err != nil {
+		return uint64(consensus.HeaderLen) + uint64(header.Len), err
+	}
+
+	// skip what the message didn't use, the next message starts after it
+	_, err := io.Copy(ioutil.Discard, rb)
+	return uint64(consensus.HeaderLen) + uint64(header.Len), err
 }
-- 
2.43.0


From 2ed69d029d08c6d2837ede7494ed609c41a347fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:31 +0000
Subject: [PATCH 02/40] fix: bound the lengths of error messages and user
 agents read from peers

---
 p2p/handshake.go | 10 ++++++++++
 p2p/messages.go  |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index b6f9acc..4e9288d 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -123,6 +123,11 @@ func (h *hand) Read(r io.Reader) error {
 		return err
 	}
 
+	// no message is longer than MaxMsgLen
+	if userAgentLen > consensus.MaxMsgLen {
+		return errors.New("too big user agent len")
+	}
+
 	buff := make([]byte, userAgentLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
@@ -210,6 +215,11 @@ func (h *shake) Read(r io.Reader) error {
 		return err
 	}
 
+	// no message is longer than MaxMsgLen
+	if userAgentLen > consensus.MaxMsgLen {
+		return errors.New("too big user agent len")
+	}
+
 	buff := make([]byte, userAgentLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
diff --git a/p2p/messages.go b/p2p/messages.go
index 62a2d90..7f3918e 100644
--- a/p2p/messages.go
+++ b/p2p/messages.go
@@ -207,6 +207,11 @@ func (p *PeerError) Read(r io.Reader) error {
 		return err
 	}
 
+	// no message is longer than MaxMsgLen
+	if messageLen > consensus.MaxMsgLen {
+		return errors.New("too big error message len")
+	}
+
 	buff := make([]byte, messageLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
-- 
2.43.0


From 04bc38d19cad4a47bf9dca0520ac26939d00fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:26 +0000
Subject: [PATCH 03/40] fix: the difficulty of a hash that starts with eight
 zero bytes no longer divides by zero

---
 consensus/difficulty.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index bd545ad..8f88cb1 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -31,6 +31,9 @@ func (d Difficulty) FromHash(hash Hash) Difficulty {
 
 	// Use the first 64 bits of the given hash
 	num := binary.BigEndian.Uint64(hash[:8])
+	if num == 0 {
+		num = 1
+	}
 
 	return Difficulty(maxTarget / num)
 }
-- 
2.43.0


From c60adbc63b732a0f0c240c2b94c776ce03beb8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:26 +0000
Subject: [PATCH 04/40] fix: bound the number of kernel ids of a compact block
 before allocating them

---
 consensus/block.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/consensus/block.go b/consensus/block.go
index 853eab7..a88e94b 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -420,6 +420,11 @@ func (b *CompactBlock) Read(r io.Reader) error {
 		return err
 	}
 
+	// Sanity check the lengths.
+	if kernelIDs > 1000000 {
+		return errors.New("compact block contains too many kernel ids")
+	}
+
 	// Read outputs
 	b.Outputs = make(OutputList, outputs)
 	for i := uint8(0); i < outputs; i++ {
-- 
2.43.0


From 92d9959bf78f241c298defdf28dbcb0f512d4a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:34 +0000
Subject: [PATCH 05/40] fix: send and read all 16 bytes of an IPv6 address

---
 p2p/helpers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/helpers.go b/p2p/helpers.go
index 51e850f..de1e7a6 100644
--- a/p2p/helpers.go
+++ b/p2p/helpers.go
@@ -36,7 +36,7 @@ func serializeTCPAddr(buff io.Writer, addr *net.TCPAddr) {
 				logrus.Fatal(err)
 			}
 
-			for i := 0; i < 8; i += 2 {
+			for i := 0; i < net.IPv6len; i += 2 {
 				segment := (uint16(IP[i]) << 8) + uint16(IP[i+1])
 
 				if err := binary.Write(buff, binary.BigEndian, segment); err != nil {
@@ -73,10 +73,10 @@ func deserializeTCPAddr(r io.Reader) (*net.TCPAddr, error) {
 	case 1: // for ipv6 addr
 		ipAddr = make([]byte, net.IPv6len)
 
-		for i := 0; i < 8; i += 2 {
+		for i := 0; i < net.IPv6len; i += 2 {
 			var segment uint16
 
-			if err := binary.Read(r, binary.BigEndian, segment); err != nil {
+			if err := binary.Read(r, binary.BigEndian, &segment); err != nil {
 				return nil, err
 			}
 
-- 
2.43.0


From 721d7916aca80b8d9e56d43148ecaae6f29e5856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:58 +0000
Subject: [PATCH 06/40] fix: write the features of a transaction's inputs

---
 consensus/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/transaction.go b/consensus/transaction.go
index ee0efbd..f2a14ee 100644
--- a/consensus/transaction.go
+++ b/consensus/transaction.go
@@ -55,7 +55,7 @@ func (t *Transaction) Bytes() []byte {
 
 	// Write inputs
 	for _, input := range t.Inputs {
-		if _, err := buff.Write(input.Commit); err != nil {
+		if _, err := buff.Write(input.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
-- 
2.43.0


From 34451f970f0593de61920c754d8db99136544acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 07/40] fix: a proof of work whose edges branch is not a cycle

---
 cuckoo/cuckoo.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/cuckoo/cuckoo.go b/cuckoo/cuckoo.go
index 347b5fb..f3505eb 100644
--- a/cuckoo/cuckoo.go
+++ b/cuckoo/cuckoo.go
@@ -19,9 +19,35 @@ type Edge struct {
 	usedV bool
 }
 
+// hasBranch returns true if more than two of the given edges meet in a vertex.
+func hasBranch(edges []*Edge) bool {
+	for i := range edges {
+		sameU, sameV := 0, 0
+		for j := range edges {
+			if edges[i].U == edges[j].U {
+				sameU++
+			}
+			if edges[i].V == edges[j].V {
+				sameV++
+			}
+		}
+
+		if sameU > 2 || sameV > 2 {
+			return true
+		}
+	}
+
+	return false
+}
+
 // findCycleLength attempts to walk the given edges and returns the length of
 // the cycle.
 func findCycleLength(edges []*Edge) int {
+	// A cycle passes through each of its vertices once.
+	if hasBranch(edges) {
+		return 0
+	}
+
 	i := 0     // first node
 	cycle := 0 // the current length of the cycle
 
-- 
2.43.0


From c862b9be6ac57f1071a44f782e22c8d748919349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:47 +0000
Subject: [PATCH 08/40] fix: refuse block times that do not fit in time.Time

---
 consensus/block.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/consensus/block.go b/consensus/block.go
index a88e94b..949dde3 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -776,6 +776,13 @@ func (m TxKernelList) Swap(i, j int) {
 	m[i], m[j] = m[j], m[i]
 }
 
+// The range of block timestamps, in seconds since 1970 (as in the reference
+// implementation, the years -262144 to 262143).
+const (
+	minTimestamp int64 = -8334632851200
+	maxTimestamp int64 = 8210298326400
+)
+
 // BlockHeader header of the grin-blocks
 type BlockHeader struct {
 	// Version of the block
@@ -935,7 +942,11 @@ func (b *BlockHeader) Read(r io.Reader) error {
 		return err
 	}
 
-	// FIXME: Check timestamp is in correct range.
+	// Times out of this range don't fit in time.Time.
+	if ts < minTimestamp || ts > maxTimestamp {
+		return fmt.Errorf("invalid block timestamp: %d", ts)
+	}
+
 	b.Timestamp = time.Unix(ts, 0).UTC()
 
 	// Read prev blockhash
-- 
2.43.0


From 9d3665035afb440d319a86d8bb3ce2ab38b4ef9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:48 +0000
Subject: [PATCH 09/40] fix: verify the signatures of all kernels of a block,
 not only the coinbase kernel's

---
 consensus/block.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/consensus/block.go b/consensus/block.go
index 949dde3..ca36b40 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -279,11 +279,11 @@ func (b *Block) verifyKernels() error {
 			if coinbase > MaxBlockCoinbaseKernels {
 				return errors.New("invalid block with few coinbase kernels")
 			}
+		}
 
-			// Validate kernel
-			if err := kernel.Validate(); err != nil {
-				return err
-			}
+		// Validate kernel
+		if err := kernel.Validate(); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From 26a91eb4412c6e644f59cbc2ddade61271ca3635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:22 +0000
Subject: [PATCH 10/40] fix: the lower bound of the difficulty window is half
 of it, as the upper bound is twice

---
 consensus/consensus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/consensus.go b/consensus/consensus.go
index 9cf9d3e..9be3713 100644
--- a/consensus/consensus.go
+++ b/consensus/consensus.go
@@ -109,5 +109,5 @@ const (
 	UpperTimeBound time.Duration = BlockTimeWindow * 2
 
 	// Minimum size time window used for difficulty adjustments
-	LowerTimeBound time.Duration = BlockTimeWindow * 2
+	LowerTimeBound time.Duration = BlockTimeWindow / 2
 )
-- 
2.43.0


From 4c5493f36dca913eff7251a2f01e69e2aadc9f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:22 +0000
Subject: [PATCH 11/40] fix: the difficulty adjustment takes the time between
 blocks in seconds, like its window

---
 consensus/difficulty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index 8f88cb1..9d7d58a 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -103,7 +103,7 @@ func NextDifficulty(blist BlockList) Difficulty {
 
 	// Average difficulty and dampened average time
 	diffAvg := sumDiff / MinimumDifficulty.FromNum(uint64(DifficultyAdjustWindow))
-	ts := (3*BlockTimeWindow + beginTime.Sub(endTime)) / 4
+	ts := (3*BlockTimeWindow + beginTime.Sub(endTime)/time.Second) / 4
 
 	// Apply time bounds
 	if ts < LowerTimeBound {
-- 
2.43.0


From cd32839e20725f8437451cf64e1417991b37426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:22 +0000
Subject: [PATCH 12/40] fix: blocks older than the difficulty window no longer
 hide the whole window

---
 consensus/difficulty.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index 9d7d58a..c17c6c4 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -79,8 +79,6 @@ func NextDifficulty(blist BlockList) Difficulty {
 		} else {
 			if i < DifficultyAdjustWindow+MedianTimeWindow {
 				windowEnd = append(windowEnd, blist[i].Header.Timestamp)
-			} else {
-				break
 			}
 		}
 	}
-- 
2.43.0


From 123e93f09a04af43f9b5b518b33a222000f5661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:22 +0000
Subject: [PATCH 13/40] fix: the difficulty of a block is computed from its
 latest predecessors first

---
 chain/chain.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/chain/chain.go b/chain/chain.go
index 3758eb4..1578739 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -346,7 +346,14 @@ func (c *Chain) ProcessBlock(block *consensus.Block) error {
 		Height: &fromHeight,
 	}
 
-	diffAvg := consensus.NextDifficulty(c.storage.From(blockID, limit))
+	// the storage lists from the oldest block, NextDifficulty from the latest
+	window := c.storage.From(blockID, limit)
+	latest := make(consensus.BlockList, 0, len(window))
+	for i := len(window) - 1; i >= 0; i-- {
+		latest = append(latest, window[i])
+	}
+
+	diffAvg := consensus.NextDifficulty(latest)
 	if block.Header.Difficulty < diffAvg {
 		return errors.New("difficulty is too low")
 	}
-- 
2.43.0


From 3bc0be99e28b32cf33778bfc07ef1538ab896a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:22 +0000
Subject: [PATCH 14/40] fix: validating the chain reports invalid blocks and
 checks the first one after genesis

---
 chain/chain.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/chain/chain.go b/chain/chain.go
index 1578739..ab116cb 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -377,9 +377,8 @@ func (c *Chain) Validate() error {
 
 	// go from head to genesis
 	// TODO: MUST check all consensus rules
-	for bytes.Compare(block.Header.Previous, c.genesis.Hash()) != 0 {
-		err := block.Validate()
-		if err == nil {
+	for bytes.Compare(block.Hash(), c.genesis.Hash()) != 0 {
+		if err := block.Validate(); err != nil {
 			return err
 		}
 
-- 
2.43.0


From e37b54cb733c171fe70278177f87235964c957bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:37 +0000
Subject: [PATCH 15/40] fix: the difficulty of an early block does not depend
 on blocks at or above its height

---
 chain/chain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chain/chain.go b/chain/chain.go
index ab116cb..4ee2d48 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -339,6 +339,9 @@ func (c *Chain) ProcessBlock(block *consensus.Block) error {
 	fromHeight := uint64(0)
 	if block.Header.Height > uint64(limit) {
 		fromHeight = block.Header.Height - uint64(limit)
+	} else {
+		// only the blocks before this one
+		limit = int(block.Header.Height)
 	}
 
 	blockID := consensus.BlockID{
-- 
2.43.0


From adeb21dbe9ef3138d772787b96a36551e524b625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 16/40] fix: a signature with the negated response is not a
 second valid signature

---
 secp256k1zkp/schnorr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index 046b115..5636964 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -110,7 +110,7 @@ func VerifySignature(publicKey Point, message [32]byte, signature Signature) boo
 	lhs := ScalarMulPoint(&G, &signature.S)
 	rhs := SumPoints(&signature.R, ScalarMulPoint(&publicKey, e))
 
-	return lhs.X.Cmp(rhs.X) == 0
+	return lhs.Equals(rhs)
 }
 
 // CommitValue returns the Pedersen commitment to the value v with blinding
-- 
2.43.0


From 3151e35f6f2a28f88dcfe395325d3950167965fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:42 +0000
Subject: [PATCH 17/40] fix: signatures made here can be verified after they
 were encoded

---
 secp256k1zkp/schnorr.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index 5636964..ed14b3e 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -79,6 +79,13 @@ func SignMessage(publicKey Point, privateKey big.Int, message [32]byte) Signatur
 	// R is the public key for k.
 	R := ScalarMulPoint(&G, k)
 
+	// Only the x coordinate of R is encoded and the y coordinate that is a
+	// quadratic residue is implied, so use the nonce that belongs to it.
+	if !IsQuadraticResidue(R.Y) {
+		k = Neg(k)
+		R.Y = new(big.Int).Sub(btcec.S256().P, R.Y)
+	}
+
 	// Compute a non-interactive challenge.
 	Rx := GetB32(R.X)
 	compressedPubkey := CompressPubkey(publicKey)
-- 
2.43.0


From 2248a2d255c8dd58f499ab1388085988fcaf52a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:44 +0000
Subject: [PATCH 18/40] fix: random scalars are less than the group order

---
 secp256k1zkp/schnorr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index ed14b3e..1ef90cc 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -38,7 +38,7 @@ retry:
 	r := &big.Int{}
 	r.SetBytes(buf[:])
 
-	if r.Cmp(btcec.S256().N) == 1 {
+	if r.Cmp(btcec.S256().N) >= 0 {
 		goto retry
 	}
 
-- 
2.43.0


From 52c710d72083c4c16f45202992b500a09fbe6e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:17 +0000
Subject: [PATCH 19/40] fix: the handshake tells our genesis and refuses peers
 on another chain

---
 p2p/handshake.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index 4e9288d..a0854c0 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -270,6 +270,11 @@ func shakeByHand(conn net.Conn) (*shake, error) {
 		return nil, err
 	}
 
+	// Only connect to peers on the same chain
+	if !bytes.Equal(sh.Genesis, msg.Genesis) {
+		return nil, errors.New("peer has another genesis block")
+	}
+
 	return sh, nil
 }
 
@@ -294,7 +299,14 @@ func handByShake(conn net.Conn) (*hand, error) {
 		Capabilities:    consensus.CapFullNode,
 		TotalDifficulty: consensus.Difficulty(1),
 		UserAgent:       userAgent,
+		Genesis:         chain.Testnet4.Hash(),
 	}
+
+	// Only accept peers on the same chain
+	if !bytes.Equal(h.Genesis, msg.Genesis) {
+		return nil, errors.New("peer has another genesis block")
+	}
+
 	if _, err := WriteMessage(conn, &msg); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 4a68ea6eaf47e8e9ab2f6e23abc39be86cc09249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:17 +0000
Subject: [PATCH 20/40] fix: a peer that fails or doesn't answer the handshake
 is let go

---
 p2p/peer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index cf56a0b..ea66ee2 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -16,8 +16,12 @@ import (
 	"net"
 	"sync"
 	"sync/atomic"
+	"time"
 )
 
+// handshakeTimeout limits the time a new peer has to answer the handshake.
+const handshakeTimeout = 10 * time.Second
+
 // Peer is a participant of p2p network
 type Peer struct {
 	conn net.Conn
@@ -71,10 +75,14 @@ func NewPeer(sync *Syncer, addr string) (*Peer, error) {
 	}
 
 	logrus.Infof("connected to peer (%s)", addr)
+	// A peer that doesn't answer must not hold up the others
+	conn.SetDeadline(time.Now().Add(handshakeTimeout))
 	shake, err := shakeByHand(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
+	conn.SetDeadline(time.Time{})
 
 	p := new(Peer)
 	p.conn = conn
-- 
2.43.0


From b9cc6f6aad42e14bd58bdb9bad33ad8cd171d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:17 +0000
Subject: [PATCH 21/40] fix: a handler that disconnects its own peer doesn't
 wait for itself

---
 p2p/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index ea66ee2..e72cb17 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -356,9 +356,9 @@ func (p *Peer) Disconnect(reason error) {
 
 	logrus.Info("Disconnect peer: ", reason)
 
+	// The caller may be one of the handlers, so don't wait for them here
 	close(p.quit)
 	p.conn.Close()
-	p.wg.Wait()
 }
 
 // Close the connection to the remote peer
-- 
2.43.0


From ce632ffbf5b64d3fde60e4933fe987ea27953345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:45 +0000
Subject: [PATCH 22/40] fix: banning a peer doesn't crash and takes effect
 before its connection ends

---
 p2p/pool.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 27ceaa1..b32cb20 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -30,6 +30,7 @@ func newPeersPool(sync *Syncer) *peersPool {
 		quit:           make(chan int),
 		PeersTable:     make(map[string]*peerInfo),
 		ConnectedPeers: make(map[string]*peerInfo),
+		BannedPeers:    make(map[string]struct{}),
 	}
 
 	return pp
@@ -61,25 +62,29 @@ type peersPool struct {
 func (pp *peersPool) Ban(addr string) {
 	pp.ptmu.Lock()
 	peerInfo, ok := pp.PeersTable[addr]
-	pp.ptmu.Unlock()
-
 	if !ok {
+		pp.ptmu.Unlock()
 		return
 	}
 
-	// Mark banned & Close connection
-	peerInfo.Status = psBanned
-	peerInfo.Peer.Close()
-
 	// Add to ban list
 	pp.bnmu.Lock()
 	pp.BannedPeers[addr] = struct{}{}
 	pp.bnmu.Unlock()
 
 	// Clear the peers table
-	pp.ptmu.Lock()
 	delete(pp.PeersTable, addr)
 	pp.ptmu.Unlock()
+
+	// Mark banned & Close connection
+	peerInfo.Lock()
+	peerInfo.Status = psBanned
+	peer := peerInfo.Peer
+	peerInfo.Unlock()
+
+	if peer != nil {
+		peer.Close()
+	}
 }
 
 // IsBan returns true if addr is banned
-- 
2.43.0


From 9b70e315478d1d55fadfbabf4fbe0527636b1501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:45 +0000
Subject: [PATCH 23/40] fix: banned peers are not added again and the peers
 table keeps its limit

---
 p2p/pool.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index b32cb20..cd134f6 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -116,8 +116,13 @@ func (pp *peersPool) Add(addr string) {
 	pp.ptmu.Lock()
 	defer pp.ptmu.Unlock()
 
+	// Banned peers don't come back
+	if pp.IsBan(addr) {
+		return
+	}
+
 	// Don't add if big peer table
-	if len(pp.PeersTable) > maxPeersTableSize {
+	if len(pp.PeersTable) >= maxPeersTableSize {
 		return
 	}
 
-- 
2.43.0


From d7d6b5c4d62b53df59d8a40f3d07d45249e06950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:46 +0000
Subject: [PATCH 24/40] fix: a peer being connected can be looked at and banned

---
 p2p/pool.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/p2p/pool.go b/p2p/pool.go
index cd134f6..525ad0a 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -233,7 +233,18 @@ func (pp *peersPool) connectPeer(addr string) error {
 		return nil
 	}
 
+	// others may look at the peer (or ban it) while it is being connected
+	peerInfo.Unlock()
 	peerConn, err := NewPeer(pp.sync, addr)
+	peerInfo.Lock()
+
+	if peerInfo.Status == psBanned {
+		if err == nil {
+			peerConn.Close()
+		}
+		return errors.New("peer was banned while connecting")
+	}
+
 	if err != nil {
 		peerInfo.Status = psFailedConn
 		return err
-- 
2.43.0


From 1f9ed0baeaadd1847813ad27cb7506b8893d9b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:46 +0000
Subject: [PATCH 25/40] fix: a peer that connects again at once is not dropped
 from the connected ones

---
 p2p/pool.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 525ad0a..73b3d94 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -282,17 +282,19 @@ func (pp *peersPool) connectPeer(addr string) error {
 		peerConn.WaitForDisconnect()
 		logrus.Infof("closed peer connection (%s)", addr)
 
-		// update peers & connected peers tables
-		peerInfo.Lock()
-		peerInfo.Status = psDisconnected
-		peerInfo.Unlock()
-
 		// clean connected peers
 		pp.connected--
 		pp.cpmu.Lock()
 		delete(pp.ConnectedPeers, addr)
 		pp.cpmu.Unlock()
 
+		// update peers table, from here on the peer may be connected again
+		peerInfo.Lock()
+		if peerInfo.Status != psBanned {
+			peerInfo.Status = psDisconnected
+		}
+		peerInfo.Unlock()
+
 		<-pp.pool
 	}()
 
-- 
2.43.0


From 9a93dd98ae599bf16e708ed8f61d5cc4d0001697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:47 +0000
Subject: [PATCH 26/40] fix: a pool without peers to connect keeps its places
 for those to come

---
 p2p/pool.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 73b3d94..6855fde 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -207,14 +207,15 @@ func (pp *peersPool) PropagateBlock(block *consensus.Block) {
 }
 
 // connectPeer connects peer from peerTable
-func (pp *peersPool) connectPeer(addr string) error {
+// and tells whether it did (which takes a place in the pool until it disconnects)
+func (pp *peersPool) connectPeer(addr string) (bool, error) {
 	// for empty string nonerror exit
 	if len(addr) == 0 {
-		return nil
+		return false, nil
 	}
 
 	if pp.connected > int32(maxOnlineConnections) {
-		return errors.New("too big online peers connections")
+		return false, errors.New("too big online peers connections")
 	}
 
 	pp.ptmu.Lock()
@@ -222,7 +223,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 	pp.ptmu.Unlock()
 
 	if !ok {
-		return errors.New("peer doesn't exists at peersTable")
+		return false, errors.New("peer doesn't exists at peersTable")
 	}
 
 	peerInfo.Lock()
@@ -230,7 +231,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 
 	if peerInfo.Status == psBanned || peerInfo.Status == psConnected {
 		logrus.Debug("dont connect to banned host (or already connected)")
-		return nil
+		return false, nil
 	}
 
 	// others may look at the peer (or ban it) while it is being connected
@@ -242,17 +243,17 @@ func (pp *peersPool) connectPeer(addr string) error {
 		if err == nil {
 			peerConn.Close()
 		}
-		return errors.New("peer was banned while connecting")
+		return false, errors.New("peer was banned while connecting")
 	}
 
 	if err != nil {
 		peerInfo.Status = psFailedConn
-		return err
+		return false, err
 	}
 
 	// Check the Protocol version
 	if peerConn.Info.Version != consensus.ProtocolVersion {
-		return fmt.Errorf("unexpected protocolVersion: %d", peerConn.Info.Version)
+		return false, fmt.Errorf("unexpected protocolVersion: %d", peerConn.Info.Version)
 	}
 
 	pp.connected++
@@ -298,7 +299,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 		<-pp.pool
 	}()
 
-	return nil
+	return true, nil
 }
 
 // Run starts network activity
@@ -311,8 +312,13 @@ out:
 			break out
 
 		case pp.pool <- struct{}{}:
-			if err := pp.connectPeer(pp.notConnected()); err != nil {
+			connected, err := pp.connectPeer(pp.notConnected())
+			if err != nil {
 				logrus.Error(err)
+			}
+
+			// nothing connected, free the place
+			if !connected {
 				<-pp.pool
 			}
 
-- 
2.43.0


From 93061f5a2fc4fadb2f3cab1ba50b8a982d2778d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:48 +0000
Subject: [PATCH 27/40] fix: stopping doesn't crash because of peers that never
 were connected

---
 p2p/pool.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 6855fde..aeec088 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -333,8 +333,10 @@ out:
 	for _, pi := range pp.PeersTable {
 		go func(peerInfo *peerInfo) {
 			peerInfo.Lock()
-			peerInfo.Peer.Close()
-			peerInfo.Status = psDisconnected
+			if peerInfo.Peer != nil {
+				peerInfo.Peer.Close()
+				peerInfo.Status = psDisconnected
+			}
 			peerInfo.Unlock()
 		}(pi)
 
-- 
2.43.0


From a06beb5469ec5fb0dd3f6c27a339bd47a8002bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:22 +0000
Subject: [PATCH 28/40] fix: concurrent disconnects don't lose count of the
 connected peers

---
 p2p/pool.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index aeec088..5f28251 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -11,6 +11,7 @@ import (
 	"github.com/sirupsen/logrus"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -42,7 +43,7 @@ type peersPool struct {
 	cpmu sync.Mutex // mutex for ConnectedPeers
 	bnmu sync.Mutex // mutex for BannedPeers
 
-	connected int32
+	connected int32 // only meant to be used atomically
 	sync      *Syncer
 
 	pool chan struct{}
@@ -214,7 +215,7 @@ func (pp *peersPool) connectPeer(addr string) (bool, error) {
 		return false, nil
 	}
 
-	if pp.connected > int32(maxOnlineConnections) {
+	if atomic.LoadInt32(&pp.connected) > int32(maxOnlineConnections) {
 		return false, errors.New("too big online peers connections")
 	}
 
@@ -256,7 +257,7 @@ func (pp *peersPool) connectPeer(addr string) (bool, error) {
 		return false, fmt.Errorf("unexpected protocolVersion: %d", peerConn.Info.Version)
 	}
 
-	pp.connected++
+	atomic.AddInt32(&pp.connected, 1)
 
 	// update peers table
 	peerInfo.Peer = peerConn
@@ -284,7 +285,7 @@ func (pp *peersPool) connectPeer(addr string) (bool, error) {
 		logrus.Infof("closed peer connection (%s)", addr)
 
 		// clean connected peers
-		pp.connected--
+		atomic.AddInt32(&pp.connected, -1)
 		pp.cpmu.Lock()
 		delete(pp.ConnectedPeers, addr)
 		pp.cpmu.Unlock()
-- 
2.43.0


From 3aa4a16d1f43cd6faaae6c51e63d1bbcdb3945cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:22 +0000
Subject: [PATCH 29/40] fix: peers are not read while other goroutines change
 them

---
 p2p/pool.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 5f28251..cde49cf 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -153,12 +153,16 @@ func (pp *peersPool) Peers(capabilities consensus.Capabilities) *PeerAddrs {
 	defer pp.ptmu.Unlock()
 
 	for addr, peerInfo := range pp.PeersTable {
-		if peerInfo.Status == psBanned || peerInfo.Status == psFailedConn {
+		peerInfo.Lock()
+		status, peerCaps := peerInfo.Status, peerInfo.Capabilities
+		peerInfo.Unlock()
+
+		if status == psBanned || status == psFailedConn {
 			continue
 		}
 
 		// filter by capabilities
-		if (peerInfo.Capabilities & capabilities) != capabilities {
+		if (peerCaps & capabilities) != capabilities {
 			continue
 		}
 
@@ -197,9 +201,13 @@ func (pp *peersPool) PropagateBlock(block *consensus.Block) {
 
 	for _, pi := range pp.ConnectedPeers {
 		go func(peerInfo *peerInfo) {
+			peerInfo.Lock()
+			height, totalDifficulty, peer := peerInfo.Height, peerInfo.TotalDifficulty, peerInfo.Peer
+			peerInfo.Unlock()
+
 			// propagate if peer height or totalDiff less than newest block
-			if peerInfo.Height < block.Header.Height || peerInfo.TotalDifficulty < block.Header.TotalDifficulty {
-				if peer := peerInfo.Peer; peer != nil {
+			if height < block.Header.Height || totalDifficulty < block.Header.TotalDifficulty {
+				if peer != nil {
 					peer.SendBlock(block)
 				}
 			}
@@ -356,14 +364,14 @@ func (pp *peersPool) notConnected() string {
 
 	// first, find good peers
 	for addr, peerInfo := range pp.PeersTable {
-		if peerInfo.Status == psNew || peerInfo.Status == psDisconnected {
+		if status := peerInfo.status(); status == psNew || status == psDisconnected {
 			return addr
 		}
 	}
 
 	// second, try to open conn with failed nodes
 	for addr, peer := range pp.PeersTable {
-		if peer.Status == psFailedConn {
+		if peer.status() == psFailedConn {
 			return addr
 		}
 	}
@@ -385,6 +393,14 @@ type peerInfo struct {
 	LastConn time.Time
 }
 
+// status returns the peer's status, which other goroutines may be changing
+func (pi *peerInfo) status() peerStatus {
+	pi.Lock()
+	defer pi.Unlock()
+
+	return pi.Status
+}
+
 type peerStatus int
 
 const (
-- 
2.43.0


From 79809a621e19459ae25fcc0e5b7cd29d6f9ab544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:23 +0000
Subject: [PATCH 30/40] fix: a message of a peer that was just banned doesn't
 end the node

---
 p2p/sync.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index 284d6fd..4673223 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -104,8 +104,9 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 
 	peerInfo := s.Pool.PeerInfo(peer.Addr)
 	if peerInfo == nil {
-		// should never rich
-		logrus.Fatal("unexpected error")
+		// banned while its message was on the way
+		logrus.Debugf("message from unknown peer %s", peer.Addr)
+		return
 	}
 
 	switch msg := message.(type) {
-- 
2.43.0


From bd679f59693a2caff7e4647e306782c851e4608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:24 +0000
Subject: [PATCH 31/40] fix: peers known by another name than their remote
 address are banned too

---
 p2p/sync.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index 4673223..f97f3ec 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -177,7 +177,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 	case *BlockHeaders:
 		if err := s.Chain.ProcessHeaders(msg.Headers); err != nil {
 			// ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 	case *GetBlock:
@@ -193,7 +193,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		if err := s.Chain.ProcessBlock(msg); err != nil {
 			logrus.Info(err)
 			// TODO: maybe smarter ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 		// update peer info
@@ -214,7 +214,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 	case *consensus.Transaction:
 		if err := s.Mempool.ProcessTx(msg); err != nil {
 			// ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 		// TODO: propagate tx?
-- 
2.43.0


From ae57098cc0e7b7c663a192014fec44bd5fc45c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:24 +0000
Subject: [PATCH 32/40] fix: refused blocks are not passed on to other peers

---
 p2p/sync.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/sync.go b/p2p/sync.go
index f97f3ec..a7a6e25 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -194,6 +194,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 			logrus.Info(err)
 			// TODO: maybe smarter ban peer ?
 			s.Pool.Ban(peer.Addr)
+			return
 		}
 
 		// update peer info
-- 
2.43.0


From 36ac5cc2c2011fa29e786c3bfa963bca2aaa2fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:25 +0000
Subject: [PATCH 33/40] fix: the chain's height is not read while a block is
 processed

---
 p2p/sync.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index a7a6e25..3ced17f 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -208,7 +208,11 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		peerInfo.Unlock()
 
 		// propagate if it is top block
-		if msg.Header.Height == s.Chain.Height() {
+		s.Chain.RLock()
+		height := s.Chain.Height()
+		s.Chain.RUnlock()
+
+		if msg.Header.Height == height {
 			s.Pool.PropagateBlock(msg)
 		}
 
-- 
2.43.0


From 9b08ea00173412413c72df0a8df0d73b7c8b1c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:26 +0000
Subject: [PATCH 34/40] fix: a transaction doesn't crash a node without mempool

---
 p2p/sync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/sync.go b/p2p/sync.go
index 3ced17f..9aec5f9 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -217,6 +217,11 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		}
 
 	case *consensus.Transaction:
+		// nodes without a mempool ignore transactions
+		if s.Mempool == nil {
+			return
+		}
+
 		if err := s.Mempool.ProcessTx(msg); err != nil {
 			// ban peer ?
 			s.Pool.Ban(peer.Addr)
-- 
2.43.0


From b8dec03ca7675fa59a0c80a8e3a80b57ea6635a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:26 +0000
Subject: [PATCH 35/40] fix: addresses without a host are not added, they
 cannot be told to peers

---
 p2p/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index cde49cf..57b2c4e 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -106,7 +106,7 @@ func (pp *peersPool) Add(addr string) {
 	}
 
 	// FIXME: discard another IPs
-	if netAddr.IP.IsMulticast() {
+	if netAddr.IP == nil || netAddr.IP.IsMulticast() {
 		return
 	}
 
-- 
2.43.0


From 93a20ff45bdc98953eaa40dcebb4acaf04eafcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:55 +0000
Subject: [PATCH 36/40] fix: a stopped pool doesn't go on connecting to peers

---
 p2p/pool.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/p2p/pool.go b/p2p/pool.go
index 57b2c4e..24a6862 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -316,6 +316,13 @@ func (pp *peersPool) Run() {
 
 out:
 	for {
+		// once stopped, connect to nobody even if there are free places
+		select {
+		case <-pp.quit:
+			break out
+		default:
+		}
+
 		select {
 		case <-pp.quit:
 			break out
-- 
2.43.0


From da3d6bce97f95f9ec79b1c2409c8566fd8624a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:07 +0000
Subject: [PATCH 37/40] fix: sending a block to several peers doesn't reorder
 it under their hands

---
 consensus/block.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/consensus/block.go b/consensus/block.go
index ca36b40..5e7a1ed 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -99,26 +99,30 @@ func (b *Block) Bytes() []byte {
 	}
 
 	// consensus rule: input, output, kernels MUST BE sorted!
-	sort.Sort(b.Inputs)
-	sort.Sort(b.Outputs)
-	sort.Sort(b.Kernels)
+	// (copies are sorted, a block may be sent to several peers at once)
+	inputs := append(InputList(nil), b.Inputs...)
+	outputs := append(OutputList(nil), b.Outputs...)
+	kernels := append(TxKernelList(nil), b.Kernels...)
+	sort.Sort(inputs)
+	sort.Sort(outputs)
+	sort.Sort(kernels)
 
 	// Write inputs
-	for _, input := range b.Inputs {
+	for _, input := range inputs {
 		if _, err := buff.Write(input.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
 
 	// Write outputs
-	for _, output := range b.Outputs {
+	for _, output := range outputs {
 		if _, err := buff.Write(output.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
 
 	// Write kernels
-	for _, txKernel := range b.Kernels {
+	for _, txKernel := range kernels {
 		if _, err := buff.Write(txKernel.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
-- 
2.43.0


From 7cf7cd4a51e3222f7aa01e552a21d321ffba2fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:56 +0000
Subject: [PATCH 38/40] fix: genesis blocks can be sent, encoding them ended
 the process

---
 chain/chain.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/chain/chain.go b/chain/chain.go
index 4ee2d48..14be4d7 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -19,6 +19,7 @@ var Testnet1 = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
 		Timestamp:       time.Date(2017, 11, 16, 20, 0, 0, 0, time.UTC),
 		TotalDifficulty: 10,
 
@@ -26,6 +27,9 @@ var Testnet1 = consensus.Block{
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+		TotalKernelSum:    bytes.Repeat([]byte{0x00}, 33),
+
 		Nonce: 28205,
 		POW: consensus.Proof{
 			Nonces: []uint32{
@@ -44,10 +48,11 @@ var Testnet1 = consensus.Block{
 // Testnet2 genesis block
 var Testnet2 = consensus.Block{
 	Header: consensus.BlockHeader{
-		Version:   1,
-		Height:    0,
-		Previous:  bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
-		Timestamp: time.Date(2017, 11, 16, 20, 0, 0, 0, time.UTC),
+		Version:      1,
+		Height:       0,
+		Previous:     bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot: bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
+		Timestamp:    time.Date(2017, 11, 16, 20, 0, 0, 0, time.UTC),
 		//Difficulty:      10,
 		//TotalDifficulty: 10,
 
@@ -55,6 +60,9 @@ var Testnet2 = consensus.Block{
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+		TotalKernelSum:    bytes.Repeat([]byte{0x00}, 33),
+
 		Nonce: 70081,
 		POW: consensus.Proof{
 			Nonces: []uint32{
@@ -79,6 +87,7 @@ var Testnet3 = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
 		Timestamp:       time.Date(2018, 7, 8, 18, 0, 0, 0, time.UTC),
 		TotalDifficulty: TESTNET3_INITIAL_DIFFICULTY,
 
@@ -115,6 +124,7 @@ var Testnet4 = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
 		Timestamp:       time.Date(2018, 10, 17, 20, 0, 0, 0, time.UTC),
 		TotalDifficulty: testnet4InitialDifficulty,
 
@@ -146,6 +156,7 @@ var Mainnet = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
 		Timestamp:       time.Date(2018, 8, 14, 0, 0, 0, 0, time.UTC),
 		TotalDifficulty: 1000,
 
@@ -153,6 +164,9 @@ var Mainnet = consensus.Block{
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+		TotalKernelSum:    bytes.Repeat([]byte{0x00}, 33),
+
 		Nonce: 28205,
 		POW: consensus.Proof{
 			Nonces: []uint32{
-- 
2.43.0


From 8c4e6652d418c1f8227fad5dd2c245211391fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:29 +0000
Subject: [PATCH 39/40] fix: proofs of work with nonces that don't fit are
 refused, not read as other proofs

---
 consensus/proof.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/consensus/proof.go b/consensus/proof.go
index 2f76a9d..b75a4eb 100644
--- a/consensus/proof.go
+++ b/consensus/proof.go
@@ -13,6 +13,7 @@ import (
 	"github.com/sirupsen/logrus"
 	"golang.org/x/crypto/blake2b"
 	"io"
+	"math"
 )
 
 // RangeProof of work
@@ -120,7 +121,7 @@ func (p *Proof) Read(r io.Reader) error {
 	}
 
 	for i := 0; i < ProofSize; i++ {
-		var nonce uint32
+		var nonce uint64
 
 		// Read this nonce from the packed bitstream.
 		for bit := uint(0); bit < nonceLengthBits; bit++ {
@@ -132,7 +133,12 @@ func (p *Proof) Read(r io.Reader) error {
 			}
 		}
 
-		p.Nonces[i] = nonce
+		// Don't take a nonce that doesn't fit for another one.
+		if nonce > math.MaxUint32 {
+			return fmt.Errorf("too big cuckoo nonce: %d", nonce)
+		}
+
+		p.Nonces[i] = uint32(nonce)
 	}
 
 	return nil
-- 
2.43.0


From bfa477cf5783c8970c0adb1caa98c37407401250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:31 +0000
Subject: [PATCH 40/40] fix: an output whose range proof is shorter than its
 length is refused, the rest was read as the next element

---
 consensus/block.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/consensus/block.go b/consensus/block.go
index 5e7a1ed..19a44cc 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -609,10 +609,15 @@ func (o *Output) Read(r io.Reader) error {
 	}
 
 	proof := new(bulletproofs.BulletProof)
-	err := proof.Read(io.LimitReader(r, int64(proofLen)))
+	limited := &io.LimitedReader{R: r, N: int64(proofLen)}
+	err := proof.Read(limited)
 	if err != nil {
 		return errors.New("failed to deserialize range proof")
 	}
+	// What follows belongs to the proof too, not to the next element.
+	if limited.N != 0 {
+		return fmt.Errorf("invalid range proof length: %d", proofLen)
+	}
 	o.RangeProof = *proof
 
 	return nil
-- 
2.43.0

