package consensus

import (
	"time"

	"github.com/dblokhin/gringo/verifnd"
	"golang.org/x/crypto/blake2b"
)

// VerifDifficultyTarget: the difficulty of a hash is the maximum target divided by its first 8 bytes.
//
//verif:harness property=C13
//verif:bound every 32-byte hash; proofs of graph size 29 with any nonces
func VerifDifficultyTarget() {
	b := verifnd.Bytes("hash", 32)
	var n uint64
	for _, x := range b[:8] {
		n = n<<8 | uint64(x)
	}
	d := uint64(MinimumDifficulty.FromHash(b))
	if n == 0 {
		verifnd.Assert(d == 0x0fffffffffffffff, "a hash of zero has the highest difficulty")
		verifnd.Cover("zero")
		return
	}
	verifnd.Assert(d == 0x0fffffffffffffff/n, "the difficulty of a hash is the maximum target divided by it")
	verifnd.Cover("target")
}

// VerifDifficultyOrder: a lower hash never has a lower difficulty.
//
//verif:harness property=C13
//verif:bound every pair of hashes whose first 8 bytes are at least 2^40 apart from zero on 24 bits
func VerifDifficultyOrder() {
	// 24 significant bits keep the division within the solver's reach
	x, y := verifnd.U64("low")&0xffffff0000000000, verifnd.U64("high")&0xffffff0000000000
	verifnd.Assume(x <= y)
	dx, dy := MinimumDifficulty.FromHash(vCat(vBe(8, x), make([]byte, 24))), MinimumDifficulty.FromHash(vCat(vBe(8, y), make([]byte, 24)))
	verifnd.Assert(dx >= dy, "a lower hash never has a lower difficulty")
	verifnd.Cover("order")
}

// VerifDifficultyProof: a proof's difficulty is the one of the hash of its encoding.
//
//verif:harness property=C13 merge=on
//verif:bound proofs of graph sizes 1, 29 and 31 with any nonces
func VerifDifficultyProof() {
	p := vProof([]uint8{1, 29, 31}[verifnd.Choose("size", 3)], 42)
	h := blake2b.Sum256(p.Bytes())
	verifnd.Assert(p.ToDifficulty() == MinimumDifficulty.FromHash(h[:]), "a proof's difficulty comes from the hash of its encoding")
	verifnd.Cover("proof")
}

// c13Median is the middle one of ten descending times and t.
func c13Median(o []int64, t int64) int64 {
	if t > o[4] {
		return o[4]
	}
	if t < o[5] {
		return o[5]
	}
	return t
}

func c13Blocks(n int, t func(i int) int64, d func(i int) uint64) BlockList {
	l := make(BlockList, n)
	for i := range l {
		l[i].Header.Timestamp = time.Unix(t(i), 0).UTC()
		l[i].Header.Difficulty = Difficulty(d(i))
	}
	return l
}

// c13Next is the specified difficulty: the average over 60 blocks, scaled by
// the damped time between the medians, within a factor of two.
func c13Next(sum uint64, begin, end int64) uint64 {
	ts := (3*3600 + int64(time.Unix(begin, 0).Sub(time.Unix(end, 0))/time.Second)) / 4
	if ts < 1800 {
		ts = 1800
	}
	if ts > 7200 {
		ts = 7200
	}
	d := sum / 60 * 3600 / uint64(ts)
	if d < 1 {
		d = 1
	}
	return d
}

// VerifDifficultyNext: the next difficulty after 71 or more blocks.
//
//verif:harness property=C13 cost=20
//verif:bound 71 and 73 blocks, latest first; block times 60 s apart but for one time in or next to the window's ends, which is equal to another or anywhere within 30 years; any difficulties with a sum below 2^50
func VerifDifficultyNext() {
	n := 71 + 2*verifnd.Choose("more", 2)
	at := verifnd.Choose("where", 28)
	if at > 12 {
		at += 45
	}
	if at >= n {
		return
	}
	times := make([]int64, n)
	for i := range times {
		times[i] = 1500000000 - 60*int64(i)
	}
	var t int64
	if same := verifnd.Choose("same", 3); same > 0 {
		t = times[(at+2)/60*60+same+3] // the same time as one of the middle blocks'
	} else {
		t = verifnd.I64("time")
		verifnd.Assume(t >= 1000000000 && t < 2000000000)
		for _, o := range times {
			verifnd.Assume(t != o)
		}
	}
	times[at] = t
	x, y := verifnd.U64("newest"), verifnd.U64("oldest")
	verifnd.Assume(x < 1<<49 && y < 1<<49)
	l := c13Blocks(n, func(i int) int64 { return times[i] }, func(i int) uint64 {
		switch i {
		case 0:
			return x
		case 59:
			return y
		case 60:
			return 1 << 60 // outside the window
		}
		return 1000 + uint64(i)
	})
	sum := x + y
	for i := 1; i < 59; i++ {
		sum += 1000 + uint64(i)
	}
	begin, end := times[5], times[65]
	if at < 11 {
		begin = c13Median(append(append([]int64{}, times[:at]...), times[at+1:11]...), t)
	} else if at >= 60 && at < 71 {
		end = c13Median(append(append([]int64{}, times[60:at]...), times[at+1:71]...), t)
	}
	want := c13Next(sum, begin, end)
	got := uint64(NextDifficulty(l))
	verifnd.Assert(got == want, "the next difficulty follows from the window's average and its median times")
	verifnd.Cover("next")
}

// VerifDifficultySpan: how the next difficulty follows the speed of the chain.
//
//verif:harness property=C13
//verif:bound 71 blocks at any even distance of 0 to 1000 s, any difficulties with a sum below 2^50
func VerifDifficultySpan() {
	step := verifnd.I64("step")
	verifnd.Assume(step >= 0 && step <= 1000)
	x := verifnd.U64("difficulty")
	verifnd.Assume(x < 1<<50)
	l := c13Blocks(71, func(i int) int64 { return 1600000000 - step*int64(i) }, func(i int) uint64 {
		if i == 30 {
			return x
		}
		return 0
	})
	got := uint64(NextDifficulty(l))
	verifnd.Assert(got == c13Next(x, 0, -60*step), "the next difficulty follows the time between blocks")
	verifnd.Cover("span")
}

// VerifDifficultyFew: a chain shorter than the window.
//
//verif:harness property=C13
//verif:bound 0..70 blocks with one arbitrary time and difficulty
func VerifDifficultyFew() {
	n := verifnd.Choose("blocks", 71)
	t := verifnd.I64("time")
	verifnd.Assume(t >= 1000000000 && t < 2000000000)
	d := verifnd.U64("difficulty")
	l := c13Blocks(n, func(i int) int64 {
		if i == n/2 {
			return t
		}
		return 1500000000 - 60*int64(i)
	}, func(i int) uint64 { return d })
	want := Difficulty(1)
	if n == 0 {
		want = 0
	}
	verifnd.Assert(NextDifficulty(l) == want, "a chain shorter than the window needs the minimum difficulty")
	verifnd.Cover("few")
}

// VerifDifficultyDamp: the time between the medians is damped and bounded, to the second.
//
//verif:harness property=C13
//verif:bound 71 blocks of one fixed difficulty (60000 or 7), the latest 11 and the last 11 at two times up to 40000 s apart in either order
func VerifDifficultyDamp() {
	gap := verifnd.I64("gap")
	verifnd.Assume(gap >= -40000 && gap <= 40000)
	d := []uint64{60000, 7}[verifnd.Choose("difficulty", 2)]
	l := c13Blocks(71, func(i int) int64 {
		if i < 11 {
			return 1600000000 + gap
		}
		return 1600000000
	}, func(i int) uint64 { return d })
	got := uint64(NextDifficulty(l))
	verifnd.Assert(got == c13Next(60*d, gap, 0), "the next difficulty follows the damped time between the medians")
	verifnd.Cover("damp")
}
