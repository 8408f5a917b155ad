package main

import (
	"math/big"
	"math/rand"
	"testing"
)

// Differential test: every constructor against direct evaluation.
func TestTermSimplifier(t *testing.T) {
	widths := []int{1, 8, 16, 32, 64, 128, 256}
	for seed := int64(0); seed < 60000; seed++ {
		r := rand.New(rand.NewSource(seed))
		c := NewTermCtx()
		m := NewModel()
		type pair struct {
			t *Term
			v *big.Int
		}
		pool := map[int][]pair{}
		for _, w := range widths {
			for i := 0; i < 2; i++ {
				v := c.Var(string(rune('a'+i))+string(rune('0'+w%10))+string(rune('A'+w/10)), w)
				x := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(w)))
				if r.Intn(4) == 0 {
					x = new(big.Int).And(x, big.NewInt(int64(r.Intn(4))))
				}
				m.v[v.id] = x
				pool[w] = append(pool[w], pair{v, x})
			}
			k := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(w)))
			if r.Intn(2) == 0 {
				k = big.NewInt(int64(r.Intn(70)) & (1<<uint(min(w, 20)) - 1))
			}
			pool[w] = append(pool[w], pair{c.ConstBig(w, k), k})
		}
		pool[0] = []pair{{c.True, big.NewInt(1)}, {c.False, big.NewInt(0)}}
		pick := func(w int) pair { l := pool[w]; return l[r.Intn(len(l))] }
		ev := c.evaluator(m)
		n := 5 + r.Intn(40)
		for i := 0; i < n; i++ {
			w := widths[r.Intn(len(widths))]
			a, b := pick(w), pick(w)
			mk := func(op Op, args ...pair) *big.Int {
				w2 := w
				switch op {
				case OpEq, OpUlt, OpUle, OpSlt, OpSle, OpNot, OpAnd, OpOr:
					w2 = 0
				}
				// evaluate through a raw node over constants
				c2 := NewTermCtx()
				var as []*Term
				for _, p := range args {
					if p.t.w == 0 {
						as = append(as, c2.Bool(p.v.Sign() != 0))
					} else {
						as = append(as, c2.ConstBig(p.t.w, p.v))
					}
				}
				return c2.evaluator(NewModel()).Big(c2.mk(&Term{op: op, w: w2, args: as}))
			}
			var res pair
			rw := w
			switch op := r.Intn(22); op {
			case 0:
				res = pair{c.Add(a.t, b.t), mk(OpAdd, a, b)}
			case 1:
				v := new(big.Int).Sub(a.v, b.v)
				res = pair{c.Sub(a.t, b.t), v.And(v, bigMask(w))}
			case 2:
				if w > 64 {
					continue
				}
				res = pair{c.Mul(a.t, b.t), mk(OpMul, a, b)}
			case 3:
				res = pair{c.Band(a.t, b.t), mk(OpBand, a, b)}
			case 4:
				res = pair{c.Bor(a.t, b.t), mk(OpBor, a, b)}
			case 5:
				res = pair{c.Bxor(a.t, b.t), mk(OpBxor, a, b)}
			case 6:
				res = pair{c.Shl(a.t, b.t), mk(OpShl, a, b)}
			case 7:
				res = pair{c.Lshr(a.t, b.t), mk(OpLshr, a, b)}
			case 8:
				if w > 64 {
					continue
				}
				res = pair{c.Ashr(a.t, b.t), mk(OpAshr, a, b)}
			case 9:
				k := r.Intn(w)
				res = pair{c.ShlK(a.t, k), mk(OpShl, a, pair{c.ConstBig(w, big.NewInt(int64(k))), new(big.Int).And(big.NewInt(int64(k)), bigMask(w))})}
				if w == 1 && k == 0 {
				}
			case 10:
				k := r.Intn(w)
				res = pair{c.LshrK(a.t, k), new(big.Int).Rsh(a.v, uint(k))}
			case 11:
				lo := r.Intn(w)
				hi := lo + r.Intn(w-lo)
				rw = hi - lo + 1
				v := new(big.Int).Rsh(a.v, uint(lo))
				res = pair{c.Extract(a.t, hi, lo), v.And(v, bigMask(rw))}
			case 12:
				w2 := widths[r.Intn(len(widths))]
				d := pick(w2)
				rw = w + w2
				res = pair{c.Concat(a.t, d.t), new(big.Int).Or(new(big.Int).Lsh(a.v, uint(w2)), d.v)}
			case 13:
				cd := pick(0)
				v := b.v
				if cd.v.Sign() != 0 {
					v = a.v
				}
				res = pair{c.Ite(cd.t, a.t, b.t), v}
			case 14:
				rw = 0
				res = pair{c.Eq(a.t, b.t), mk(OpEq, a, b)}
			case 15:
				rw = 0
				res = pair{c.Ult(a.t, b.t), mk(OpUlt, a, b)}
			case 16:
				rw = 0
				res = pair{c.Ule(a.t, b.t), mk(OpUle, a, b)}
			case 17:
				rw = 0
				res = pair{c.Slt(a.t, b.t), mk(OpSlt, a, b)}
			case 18:
				rw = 0
				res = pair{c.Sle(a.t, b.t), mk(OpSle, a, b)}
			case 19:
				x, y := pick(0), pick(0)
				rw = 0
				switch r.Intn(3) {
				case 0:
					res = pair{c.And(x.t, y.t), new(big.Int).And(x.v, y.v)}
				case 1:
					res = pair{c.Or(x.t, y.t), new(big.Int).Or(x.v, y.v)}
				default:
					res = pair{c.Not(x.t), new(big.Int).Xor(x.v, big.NewInt(1))}
				}
			case 20:
				if w > 64 {
					continue
				}
				switch r.Intn(4) {
				case 0:
					res = pair{c.Udiv(a.t, b.t), mk(OpUdiv, a, b)}
				case 1:
					res = pair{c.Urem(a.t, b.t), mk(OpUrem, a, b)}
				case 2:
					res = pair{c.Sdiv(a.t, b.t), mk(OpSdiv, a, b)}
				default:
					res = pair{c.Srem(a.t, b.t), mk(OpSrem, a, b)}
				}
			case 21:
				w2 := 0
				for _, x := range widths {
					if x > w && r.Intn(2) == 0 {
						w2 = x
					}
				}
				if w2 == 0 {
					continue
				}
				rw = w2
				if r.Intn(2) == 0 {
					res = pair{c.Zext(a.t, w2), a.v}
				} else {
					res = pair{c.Sext(a.t, w2), new(big.Int).And(sgn(a.v, w), bigMask(w2))}
				}
			}
			if res.t.w != rw {
				t.Fatalf("seed %d: width %d want %d: %s", seed, res.t.w, rw, res.t)
			}
			got := ev.Big(res.t)
			if got.Cmp(res.v) != 0 {
				t.Fatalf("seed %d: got %x want %x w=%d term %s (args %s , %s)", seed, got, res.v, w, res.t, a.t, b.t)
			}
			if res.t.rok && rw > 0 && rw <= 64 {
				if u := got.Uint64(); u < res.t.rlo || u > res.t.rhi {
					t.Fatalf("seed %d: range", seed)
				}
			}
			pool[rw] = append(pool[rw], pair{res.t, res.v})
		}
	}
}

// Comparisons and divisions of c0 + k*sext(x).
func TestScaled(t *testing.T) {
	c := NewTermCtx()
	r := rand.New(rand.NewSource(3))
	vars := map[int]*Term{8: c.Var("p", 8), 33: c.Var("q", 33), 20: c.Var("r", 20)}
	for i := 0; i < 200000; i++ {
		w := []int{8, 33, 20}[r.Intn(3)]
		x := vars[w]
		m := NewModel()
		v := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(w)))
		m.v[x.id] = v
		sv := sgn(v, w).Int64()
		k := []int64{3, 1000000000, 60, int64(r.Uint32()), 7}[r.Intn(5)] | 1
		c0 := []int64{0, int64(r.Uint64()), -5, 10800000000000}[r.Intn(4)]
		s := c.Add(c.Const(64, uint64(c0)), c.Mul(c.Const(64, uint64(k)), c.Sext(x, 64)))
		val := c0 + k*sv
		cv := []int64{val, val + 1, val - 1, int64(r.Uint64()), 0, -1 << 63, 1<<63 - 1, val + int64(r.Intn(1000)) - 500}[r.Intn(8)]
		ct := c.Const(64, uint64(cv))
		ev := c.evaluator(m)
		for j, p := range []struct {
			t *Term
			v bool
		}{{c.Slt(ct, s), cv < val}, {c.Slt(s, ct), val < cv}, {c.Sle(ct, s), cv <= val}, {c.Sle(s, ct), val <= cv}} {
			if (ev.U(p.t) == 1) != p.v {
				t.Fatalf("case %d: c0=%d k=%d s=%d c=%d: %s", j, c0, k, sv, cv, p.t)
			}
		}
		if q := c.Sdiv(s, c.Const(64, uint64(k))); int64(ev.U(q)) != val/k {
			t.Fatalf("div c0=%d k=%d s=%d", c0, k, sv)
		}
	}
}
