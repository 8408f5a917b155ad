BASE = ("Holds for every value within the bounds printed by each harness (verif:bound lines); hash functions and "
        "curve operations are uninterpreted on symbolic input; trusted: the engine's Go semantics, its library shims, z3. ")

PROPS = [
    dict(id="C01", title="Message framing: every frame is read back exactly, nothing else is accepted",
         statement="Writing a message puts exactly one frame on the connection (magic, type, body length, body), and reading it back gives the same message and leaves the stream at the start of the next frame, whatever follows and however the bytes arrive. A frame with a wrong magic, a different type, a body over the size limit, or that is cut short is refused with an error. A failing connection makes sending return an error.",
         over=["inputs", "fault_sequences"],
         quant="every type, body content and size within the bounds, every split of the stream into reads, every byte position of truncation or write failure",
         why="The tests encode and decode one frame from one buffer; they do not try other types, sizes, short reads, bodies longer than the decoder needs, or failing writers.",
         files=["p2p/protocol.go", "p2p/messages.go", "consensus/network.go"],
         mech=[("frame writer and reader with length limit", "p2p/protocol.go"), ("frame header codec and magic check", "p2p/messages.go")],
         note=BASE + "Bodies up to 8 bytes symbolic, lengths in the header unrestricted."),
    dict(id="C02", title="No bytes from a peer can crash the node or make it allocate without limit",
         statement="Decoding any byte string as any protocol message either fails with an error or yields a message that can be re-encoded and hashed; it never panics, never stops the process, and never allocates memory out of proportion to the protocol's size limits.",
         over=["inputs"],
         quant="every byte string within the stated lengths, for each message type a peer can send",
         why="The tests decode a few well-formed recordings; a crash needs particular length fields, sizes or all-zero hashes that samples do not hit.",
         files=["p2p/messages.go", "p2p/handshake.go", "p2p/helpers.go", "consensus/block.go", "consensus/transaction.go", "consensus/proof.go", "consensus/locator.go", "consensus/difficulty.go"],
         mech=[("length limits before allocation", "consensus/block.go Block.Read, CompactBlock.Read, Output.Read; consensus/transaction.go Read; p2p/messages.go Read"), ("graph size limit", "consensus/proof.go Proof.Read")],
         note=BASE + "Single allocations limited to 512 MiB; inputs bounded per message type."),
    dict(id="C03", title="Control messages and peer addresses survive the wire unchanged",
         statement="Every ping, pong, address request, header request, block request, error, hand, shake and address list that a node can send is written in the documented layout (big-endian fields, length-prefixed texts and lists, 4 or 16 address bytes and a port), and reading it back gives the same values; lists are bounded by the protocol's limits.",
         over=["inputs"],
         quant="every field value; texts, locators and address lists of the stated lengths; every IPv4 and IPv6 address and port",
         why="The tests read a shake message and an address list recorded from one peer; they never write, use no IPv6 address, and try no other values.",
         files=["p2p/messages.go", "p2p/handshake.go", "p2p/helpers.go", "consensus/locator.go"],
         mech=[("message codecs", "p2p/messages.go"), ("hand and shake codecs", "p2p/handshake.go"), ("address codec", "p2p/helpers.go")],
         note=BASE + "Texts up to 16 bytes (48 thorough), lists up to a few entries plus the limits."),
    dict(id="C04", title="Blocks, headers, proofs and transactions survive the wire unchanged",
         statement="Encoding a block, compact block, header, proof of work or transaction gives the documented layout (fixed-width big-endian fields, nonces packed little-endian with the graph size's number of bits, lists in the order of their hashes), and decoding that gives the same object with the same hash; two proofs that differ have different encodings, and so different block hashes but for hash collisions.",
         over=["inputs"],
         quant="every field value and every nonce for each graph size; lists of inputs, outputs, kernels and short ids of up to a few elements in any order",
         why="The tests round-trip one recorded block and transaction; other graph sizes, nonce bits, list orders and field values are not tried.",
         files=["consensus/block.go", "consensus/proof.go", "consensus/transaction.go", "consensus/id.go", "p2p/messages.go"],
         mech=[("nonce bit packing", "consensus/proof.go ProofBytes, Read"), ("canonical list order on the wire", "consensus/block.go Bytes, consensus/transaction.go Bytes")],
         note=BASE + "Up to 3 list elements; blake2b is uninterpreted."),
    dict(id="C05", title="A proof of work is accepted exactly if its edges form one 42-cycle",
         statement="Verifying a Cuckoo or Cuckaroo proof accepts exactly the lists of 42 strictly ascending nonces within the graph whose edges form one single cycle through all 42: no repeated, descending, missing or surplus nonces, no shorter cycles side by side, no branching edges, no dead ends; and it always terminates.",
         over=["inputs"],
         quant="every list of edges within the stated node bounds, every permutation and one or two arbitrary edges away from a 42-cycle, every nonce list of any order and length near 42",
         why="The tests verify a handful of recorded proofs and one changed nonce; only an adversarial arrangement of edges (branching, two cycles, dead ends) shows a walk that accepts too much.",
         files=["cuckoo/cuckoo.go"],
         mech=[("cycle walk", "cuckoo/cuckoo.go findCycleLength"), ("nonce order and range checks", "cuckoo/cuckoo.go Verify")],
         note=BASE + "Edges are replaced by arbitrary hash outputs; full 42-edge rings with up to two arbitrary edges, smaller shapes in full."),
    dict(id="C06", title="Proof-of-work edges are derived from the header by the specified hash",
         statement="The edge of every nonce comes from SipHash-2-4 keyed with the BLAKE2b hash of the header (Cuckoo: two single hashes of 2n and 2n+1; Cuckaroo: the block of 64 hashes XORed with its last), masked to the graph size, with the two ends in separate halves of the graph; changing the keys, the nonce or the graph size changes it accordingly.",
         over=["inputs"],
         quant="every key, every nonce, every graph size",
         why="The tests compare a few hash values; a slip at block borders, for high nonces or for particular graph sizes is not sampled.",
         files=["cuckoo/cuckoo.go", "cuckoo/siphash24.go"],
         mech=[("siphash rounds and block hashing", "cuckoo/siphash24.go"), ("key derivation and edge masks", "cuckoo/cuckoo.go")],
         note=BASE + "The oracle is an independent SipHash-2-4 written in the harness."),
    dict(id="C07", title="A header is accepted exactly if it follows the header rules",
         statement="A header is accepted exactly if its version is the one of its height, its time is at most 12 minutes ahead of the clock, its graph size is 29 or at least 30, a size other than 29 comes with a scaling factor of 1, and its proof of work is valid for its own content; no time a peer can send wraps around into the accepted range.",
         over=["inputs", "configurations"],
         quant="every height, version, time, graph size, scaling factor and content, every clock reading",
         why="The tests validate one recorded block; limits of the version schedule, the time window and the graph size are values no test tries.",
         files=["consensus/block.go", "consensus/proof.go"],
         mech=[("header rules", "consensus/block.go BlockHeader.Validate, ValidateBlockVersion"), ("proof bound to header content", "consensus/proof.go Validate")],
         note=BASE + "The graph search is uninterpreted here (C05 and C06 decide it)."),
    dict(id="C08", title="A block is accepted exactly if it follows the block rules",
         statement="Validating a block succeeds exactly if its header is valid, it has outputs and kernels, its inputs, outputs and kernels are sorted by hash, it has at most one coinbase output and one coinbase kernel, every output's range proof is valid for its commitment, and every kernel's signature is valid.",
         over=["inputs"],
         quant="every block of up to 2 inputs, 2 outputs and 2 kernels (3 thorough) with arbitrary content",
         why="The tests validate one recorded block; that any single bad element in any position is refused is not sampled.",
         files=["consensus/block.go"],
         mech=[("block rules", "consensus/block.go Validate, verifySorted, verifyCoinbase, verifyRangeProofs, verifyKernels")],
         note=BASE + "Range proof and curve arithmetic are uninterpreted predicates of the exact values given to them."),
    dict(id="C09", title="Transactions and lists have one canonical order and bounded lengths",
         statement="A transaction is read exactly if its inputs, outputs and kernels are each in ascending order of their hashes, whatever their content; the encoding of a transaction, block or compact block does not depend on the order in which its lists were put together; a list that announces more elements than the consensus limit is refused before any of it is read.",
         over=["inputs"],
         quant="every content and every order of lists of up to 3 elements, every announced count",
         why="The tests read one recorded block and one transaction whose lists have one or two elements in order; no wrong order and no excessive count is tried.",
         files=["consensus/block.go", "consensus/transaction.go", "consensus/id.go"],
         mech=[("order of lists while reading", "consensus/transaction.go Transaction.Read"), ("order by hash when writing", "consensus/transaction.go, consensus/block.go Bytes"), ("count limits", "consensus/transaction.go Read; consensus/block.go Read")],
         note=BASE + "Hash collisions are assumed away."),
    dict(id="C10", title="Blocks and headers from peers are accepted exactly if they follow the chain",
         statement="A block offered to the chain is accepted exactly if it is the head already, or is valid by the block rules and either continues a chain this node does not know, or has a time after its predecessor's, a total difficulty of its predecessor's plus that of the predecessor's proof of work, and at least the difficulty computed from the (up to 71) blocks that precede it. Headers are accepted exactly if each is valid. Refused blocks change neither the chain's state nor its storage, and the chain is never left locked.",
         over=["inputs", "histories"],
         quant="every content, time, height and difficulty of the block, every predecessor of chains of up to 3 blocks, chains around the length of the difficulty window with one arbitrary difficulty",
         why="No test offers a block to a chain; window limits, equal times, forks below the head and wrapping difficulties need particular histories.",
         files=["chain/chain.go", "consensus/difficulty.go", "consensus/block.go"],
         mech=[("checks against the predecessor", "chain/chain.go ProcessBlock"), ("headers", "chain/chain.go ProcessHeaders")],
         note=BASE + "The storage is a model that finds blocks by hash, height or both. A block's own difficulty field is not on the wire (a TODO of the project)."),
    dict(id="C11", title="Peers get the headers after the first block they know, in order and limited",
         statement="A header request is answered with the headers that follow the first hash of the locator the chain knows, in chain order, at most 512; the head or no known hash gives none, hashes beyond the 14th are not looked at. A chain starts from its storage's last block or else from genesis, and finds blocks by hash, or hash and height.",
         over=["inputs", "histories"],
         quant="every locator of up to 3 known or arbitrary unknown hashes on chains of up to 4 blocks, the limits, every height and difficulty",
         why="No test asks a chain for headers; order, limits and the head case depend on where the known hash is.",
         files=["chain/chain.go", "consensus/network.go"],
         mech=[("serving headers", "chain/chain.go GetBlockHeaders"), ("state", "chain/chain.go New, Head, Height, GetBlock")],
         note=BASE + "The storage is a model that finds blocks by hash, height or both."),
    dict(id="C12", title="Validating the chain succeeds exactly if every block down to genesis is valid",
         statement="Validating a chain succeeds exactly if every block from the head back to, but not including, genesis is stored and valid by the block rules; it changes nothing and leaves the chain unlocked.",
         over=["inputs", "histories"],
         quant="every content of blocks of chains of up to 3 blocks above genesis, every broken or skipping link",
         why="No test validates a chain; a check that skips the first or last block or takes the wrong result shows only for particular blocks being invalid.",
         files=["chain/chain.go", "consensus/block.go"],
         mech=[("walk from head to genesis", "chain/chain.go Validate")],
         note=BASE + "The storage is a model that finds blocks by hash, height or both."),
    dict(id="C13", title="Difficulty of hashes and of the next block follow the consensus rule",
         statement="The difficulty of a hash is the maximum target divided by its first 64 bits and never grows with the hash. The difficulty required of the next block is 1 for a chain shorter than the window, and else the average difficulty of the last 60 blocks times the ideal window time divided by the damped distance (a quarter of the deviation) of the median times at both ends of the window, which is limited to half and twice the ideal; out-of-order times within the median windows cannot shift it beyond the medians.",
         over=["inputs", "histories"],
         quant="every hash; every distance between blocks; one arbitrary time anywhere in either median window and arbitrary difficulties",
         why="The tests convert a few numbers; no history of 71 blocks, no time distance and no limit of the adjustment is tried.",
         files=["consensus/difficulty.go", "consensus/proof.go", "consensus/consensus.go"],
         mech=[("difficulty window", "consensus/difficulty.go NextDifficulty"), ("difficulty of hashes", "consensus/difficulty.go FromHash; consensus/proof.go ToDifficulty")],
         note=BASE + "Times between 2001 and 2033; 71 and 73 blocks."),
    dict(id="C14", title="Short ids are the specified keyed hash of block and element",
         statement="The short id of an element's hash in a block is the first 6 bytes of SipHash-2-4 of it, little-endian, keyed with the first 16 bytes of the block's hash; it depends on nothing else and leaves the hashes alone, and short ids are ordered as byte strings.",
         over=["inputs"],
         quant="every block hash and element hash, every pair of short ids",
         why="The tests compare two recorded ids; a wrong byte order, key half or truncation that shows for other values is not sampled.",
         files=["consensus/id.go", "consensus/block.go"],
         mech=[("short ids", "consensus/id.go ShortID"), ("order of short ids", "consensus/id.go ShortIDList")],
         note=BASE + "The oracle is an independent SipHash-2-4 written in the harness."),
    dict(id="C15", title="Kernel signatures are accepted exactly if they satisfy the Schnorr equation",
         statement="A signature is valid for a key and message exactly if response*G = R + challenge*key, the challenge being the SHA-256 of R's x coordinate, the compressed key and the message; a kernel is valid exactly if its signature is valid for its excess and the message of its fee and lock height. The encoding of a signature is lossless, a signature made here answers the challenge for a fresh random nonce below the group order and still verifies after it was encoded.",
         over=["inputs"],
         quant="every key, nonce, response, message, fee, lock height and random draw",
         why="The tests verify two recorded signatures; truncated messages, half of all nonces (the ones with a non-square coordinate) and malleated signatures are not sampled.",
         files=["secp256k1zkp/schnorr.go", "consensus/block.go"],
         mech=[("signatures", "secp256k1zkp/schnorr.go SignMessage, VerifySignature, DecodeSignature, ComputeMessage"), ("kernels", "consensus/block.go TxKernel.Validate")],
         note=BASE + "Curve arithmetic and hashes are uninterpreted."),
    dict(id="C16", title="A handshake connects to peers of our chain and version, and to nobody else",
         statement="Making a connection sends one hand with our version, capabilities, genesis block, both addresses and a fresh nonce, and takes the peer exactly if it answers with a shake of our protocol version and genesis block; what the peer said of itself is then known. A peer that answers anything else, something malformed, nothing in time, or that is ourselves, is refused and its connection is closed. Accepting a connection refuses our own nonces, other versions and other genesis blocks likewise and answers a good hand with one shake.",
         over=["inputs", "fault_sequences"],
         quant="every version, capability set, difficulty, genesis hash, nonce and text of the stated lengths; answers cut short at every byte; peers that stay silent",
         why="The tests decode one recorded shake; no test makes a handshake, and none with a wrong version, another genesis, a failing or a silent peer.",
         files=["p2p/handshake.go", "p2p/peer.go"],
         mech=[("hand and shake exchange", "p2p/handshake.go shakeByHand, handByShake"), ("own nonces", "p2p/handshake.go nonceList"), ("time limit and close on failure", "p2p/peer.go NewPeer")],
         note=BASE + "Connections are an in-memory model; time is a model clock."),
    dict(id="C17", title="The peer table keeps valid, unbanned addresses only, bounded, and tells them",
         statement="An address is taken up exactly if it resolves to a host and port, isn't multicast, isn't banned, isn't known already and the table has room; it then stays until it is banned. A banned peer is removed, its connection is closed, it is never taken up or told again, and banning unknown or unconnected peers is harmless. Asking for peers gives those known that aren't banned or failing and have all the capabilities asked for, each once and at most 256.",
         over=["histories", "inputs", "schedules"],
         quant="every sequence of a few operations over a few addresses, every kind of address, tables at and around their limit, every capability set",
         why="No test adds, bans or asks for a peer; the bugs are in sequences (ban before connecting, add after ban, add at the limit).",
         files=["p2p/pool.go", "p2p/peer.go", "consensus/network.go"],
         mech=[("table", "p2p/pool.go Add, PeerInfo, Peers"), ("bans", "p2p/pool.go Ban, IsBan")],
         note=BASE + "Name resolution is limited to literal addresses."),
    dict(id="C18", title="Connections are made while there are peers and places, never more, never twice",
         statement="While the pool runs it connects to known peers until all are connected or the limit of connections is reached, whatever the other peers do: peers that refuse, are of another chain, stay silent or hang up hold nobody up and take no place. There are never more connections than allowed, never two to one peer, none to banned peers; a peer is known as connected exactly while it is; places freed by ended connections are used again; nothing is dialled after the stop, which ends every connection and goroutine.",
         over=["schedules", "fault_sequences", "histories"],
         quant="every combination of behaviours of three peers, limits of one or two connections, an end or ban of a connection, a late peer, every schedule within the stated delays and preemptions",
         why="No test runs the pool; losing one place per failed attempt, or a status overwritten by a late goroutine, shows only after particular failures and orders.",
         files=["p2p/pool.go", "p2p/peer.go"],
         mech=[("places", "p2p/pool.go Run, connectPeer"), ("choice of peers", "p2p/pool.go notConnected"), ("stop", "p2p/pool.go Stop, Run")],
         note=BASE + "Connections are an in-memory model; time is a model clock; map iteration order is part of the schedule only where stated."),
    dict(id="C19", title="Messages of a peer have their specified effect, in order, and no other",
         statement="A ping is answered with a pong of the chain's height and difficulty, questions for peers, headers and known blocks with the respective message, unknown blocks not at all; pings, pongs and accepted blocks tell the peer's height and difficulty; headers, blocks and transactions reach the chain and the mempool once and unchanged, and told addresses the table. Answers come in the order of the questions, however the stream is cut into pieces. Who sends an invalid block, header list or transaction is banned; who sends anything that isn't a message is let go of without effect; messages of a banned peer change nothing; the chain's state is read under its lock.",
         over=["inputs", "histories"],
         quant="every message kind with every height, difficulty, capability set, hash, magic, type and length; accepting and refusing chains and mempools; streams cut at every place",
         why="No test hands a message to a running node; the effects depend on the state of chain, peer and table and on how the stream is cut.",
         files=["p2p/sync.go", "p2p/peer.go", "p2p/pool.go"],
         mech=[("reading messages", "p2p/peer.go readHandler"), ("effects", "p2p/sync.go ProcessMessage"), ("answers", "p2p/peer.go writeHandler, WriteMessage")],
         note=BASE + "Chain and mempool are models that accept or refuse; headers and blocks are minimal."),
    dict(id="C20", title="However a connection ends, everything that waits for it goes on",
         statement="When a connection ends, because the remote hangs up, a write fails, garbage arrives, the peer is closed locally, banned (also by its own handler) or the pool stops, in any combination and order, then the connection is closed, every goroutine that sends on it or waits for its end goes on, both of its goroutines end, nothing deadlocks or panics, and closing again is harmless. A peer banned meanwhile stays banned.",
         over=["schedules", "fault_sequences"],
         quant="every pair of ends at once with a sender and a waiter, every schedule within the stated preemptions and delays",
         why="No test ends a connection; the deadlocks and leaks need two ends at once in a particular order.",
         files=["p2p/peer.go", "p2p/pool.go"],
         mech=[("end of a connection", "p2p/peer.go Disconnect, Close, WaitForDisconnect, readHandler, writeHandler"), ("ban of one's own sender", "p2p/pool.go Ban; p2p/sync.go ProcessMessage")],
         note=BASE + "Schedules with at most two preemptions (thorough: three); connections are an in-memory model."),
    dict(id="C21", title="A new block reaches exactly the connected peers that are behind it",
         statement="Propagating a block sends it, as it is and once, to every connected peer whose told height or difficulty is below the block's, and to nobody else: not to peers that have it, aren't connected any more, are banned or never were connected. A peer that hangs or fails holds up neither the other peers nor later blocks. A block from a peer is passed on if it becomes the top of the chain, never back to who sent it, and not if the chain refuses it.",
         over=["inputs", "schedules", "fault_sequences"],
         quant="every height and difficulty of block, chain and peers; every kind of gone peer; every schedule within the stated preemptions and delays",
         why="No test propagates a block; a wrong comparison shows for equal heights or mixed height and difficulty, a held lock only with a hanging peer.",
         files=["p2p/pool.go", "p2p/sync.go", "p2p/peer.go"],
         mech=[("who is sent a block", "p2p/pool.go PropagateBlock"), ("top of the chain", "p2p/sync.go ProcessMessage")],
         note=BASE + "Two or three peers; connections are an in-memory model."),
    dict(id="C22", title="The network code has no data races",
         statement="While messages of several peers are processed, connections are made and end, peers are added, banned and asked for, blocks are propagated and served and the pool is stopped, no two goroutines access the same memory without synchronisation, one of them writing; blocks sent to several peers at once arrive whole at each.",
         over=["schedules"],
         quant="every pair of messages from two peers, every kind of end of a connection during use, one block sent to two peers; every schedule within the stated preemptions and delays",
         why="The tests have no concurrency; races are between connection goroutines that tests would have to hit in the same microsecond.",
         files=["p2p/pool.go", "p2p/peer.go", "p2p/sync.go", "consensus/block.go", "consensus/transaction.go"],
         mech=[("locks of table and peers", "p2p/pool.go"), ("peer counters and flags", "p2p/peer.go"), ("encoding of shared blocks", "consensus/block.go Block.Bytes")],
         note=BASE + "Happens-before detection over the memory of the packages under test, replayed with the Go race detector."),
    dict(id="C23", title="What is accepted from the wire is kept whole",
         statement="Every message, header, proof of work, input, output, kernel and list that is accepted is kept as it was sent: its encoding is again the bytes it was read from, no field dropped, cut, clamped or shifted, and nothing of an element read as part of the next. Only bits that mean nothing may differ: the spare bits after the nonces of a proof of work and in the sign bytes of a range proof, and the form of an IPv4 address.",
         over=["inputs"],
         quant="every byte string of the stated lengths for every message kind and element; every graph size",
         why="The tests read what they wrote themselves, so fields that are lost or misread for other bytes don't show; two nodes that read the same bytes differently split the chain.",
         files=["consensus/block.go", "consensus/transaction.go", "consensus/proof.go", "consensus/locator.go", "p2p/messages.go", "p2p/handshake.go", "p2p/helpers.go"],
         mech=[("elements and lists", "consensus/block.go, transaction.go Read"), ("packed nonces", "consensus/proof.go Proof.Read"), ("messages", "p2p/messages.go, handshake.go, helpers.go Read")],
         note=BASE + "Lists of at most two elements of a kind, in order."),
    dict(id="C24", title="What the node sends to a peer arrives whole and in order, or the connection ends",
         statement="Pings, questions for peers, headers and blocks, blocks, transactions and answers that are handed to a connected peer arrive on its connection once, in the form the protocol gives them, in the order each sender sent them, never mixed into one another, however many senders there are and however long the messages are. If a write fails, also after a part and also if only for a moment, what arrived is a beginning of what was sent and the connection is closed; senders go on.",
         over=["inputs", "schedules", "fault_sequences"],
         quant="every kind of message with every content, two senders and an answer, a failure of any write after any of several parts; every schedule within the stated preemptions and delays",
         why="No test sends on a connection; mixed frames need a long message and a second sender at once, lost ones a failing write.",
         files=["p2p/peer.go", "p2p/protocol.go", "p2p/sync.go"],
         mech=[("one writer", "p2p/peer.go writeHandler, WriteMessage"), ("requests", "p2p/peer.go SendPing, SendPeerRequest, SendHeaderRequest, SendBlockRequest, SendBlock, SendTransaction"), ("frames", "p2p/protocol.go WriteMessage")],
         note=BASE + "Connections are an in-memory model."),
]

NOT_APPLICABLE = []
