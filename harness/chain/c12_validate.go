package chain

import (
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/verifnd"
)

// VerifChainValidate: a chain is valid exactly if every block from its head down to genesis is there and valid.
//
//verif:harness property=C12 uf=github.com/dblokhin/gringo/cuckoo.siphashBlock;github.com/dblokhin/gringo/cuckoo.findCycleLength shards=4 cost=20 t.timeout=800
//verif:bound chains of 0 to 3 blocks above genesis, one of them (thorough: each) of arbitrary content, and at height 0 or its own, the others valid; one link (thorough: each) may skip to any earlier block or to an unknown one
func VerifChainValidate() {
	s4 := verifnd.Shard(4)
	n := verifnd.Choose("blocks", 4)
	s := vChain(n + 1)
	// all are valid and linked but for one arbitrary block and one arbitrary link
	any, link := 0, 0
	if n > 0 && !verifnd.Thorough() {
		any, link = 1+verifnd.Choose("any", n), 1+verifnd.Choose("link", n)
	}
	if (n+any+link)%4 != s4 {
		return
	}
	var to []int
	for i := 1; i <= n; i++ {
		k := i - 1
		if link == 0 || link == i {
			k -= verifnd.Choose("skip", i+1)
		}
		to = append(to, k)
		if k < 0 {
			s.blocks[i].Header.Previous = verifnd.Bytes("unknown", 32)
			for _, h := range s.hashes {
				verifnd.Assume(string(h) != string(s.blocks[i].Header.Previous))
			}
		} else {
			s.blocks[i].Header.Previous = s.hashes[k]
		}
		if any == i && verifnd.Choose("low", 2) == 1 {
			s.blocks[i].Header.Height = 0
		}
		vFill(&s.blocks[i])
		if any != 0 && any != i { // plain ones
			s.blocks[i].Outputs[0].Features, s.blocks[i].Kernels[0].Features = 0, 0
		}
		if any != 0 && any != i {
			verifnd.Assume(s.blocks[i].Validate() == nil)
		}
	}
	empty := n == 0 && verifnd.Choose("empty", 2) == 1
	genesis := vBlock(0)
	if empty {
		*s = vStore{}
	}
	c := New(&genesis, s)
	want, i := true, n
	for i > 0 && want {
		if s.blocks[i].Validate() != nil {
			want = false
			verifnd.Cover("invalid")
		}
		if i = to[i-1]; i < 0 {
			want = false
			verifnd.Cover("broken")
		}
	}
	got := c.Validate()
	verifnd.Assert((got == nil) == want, "a chain is valid exactly if its blocks down to genesis are there and valid")
	if want {
		verifnd.Cover("valid")
	}
	c.Lock()
	c.Unlock()
	var head *consensus.Block = &genesis
	if !empty {
		head = s.last
	}
	vState(c, head, "validating")
	verifnd.Assert(s.changes == 0, "validating leaves the storage alone")
}
