package main

import (
	"math/rand"
	"testing"
)

// The simplifying constructors must agree with a direct evaluation.
func TestTerms(t *testing.T) {
	for seed := int64(0); seed < 60000; seed++ {
		r := rand.New(rand.NewSource(seed))
		s := NewTermStore()
		var vars []*Term
		for i := 0; i < 6; i++ {
			vars = append(vars, s.Var("v", []uint8{8, 8, 8, 8, 16, 32}[i]))
		}
		m := &Model{vals: make([]uint64, 6)}
		type tv struct {
			t *Term
			v uint64
			d string
		}
		var pool []tv
		var conds []tv
		for i, v := range vars {
			x := r.Uint64() & mask(v.w)
			if r.Intn(2) == 0 {
				x = uint64(r.Intn(4)) & mask(v.w)
			}
			if r.Intn(5) == 0 {
				x = mask(v.w) - uint64(r.Intn(3))
			}
			m.vals[i] = x
			pool = append(pool, tv{v, x, ""})
		}
		kc := func(w uint8) tv {
			c := r.Uint64()
			switch r.Intn(4) {
			case 0:
				c = uint64(r.Intn(5))
			case 1:
				c = mask(w) - uint64(r.Intn(4))
			case 2:
				c = 1 << uint(r.Intn(int(w)))
			}
			return tv{s.Const(w, c&mask(w)), c & mask(w), "c"}
		}
		pick := func(w uint8) tv {
			if r.Intn(4) == 0 {
				return kc(w)
			}
			var l []tv
			for _, p := range pool {
				if p.t.w == w {
					l = append(l, p)
				}
			}
			if len(l) == 0 {
				return kc(w)
			}
			return l[r.Intn(len(l))]
		}
		for k := 0; k < 30; k++ {
			a := pool[r.Intn(len(pool))]
			w := a.t.w
			b := pick(w)
			if r.Intn(3) == 0 {
				a, b = b, a
			}
			var n tv
			op := r.Intn(24)
			switch op {
			case 0:
				n = tv{s.Add(a.t, b.t), (a.v + b.v) & mask(w), "add"}
			case 1:
				n = tv{s.Sub(a.t, b.t), (a.v - b.v) & mask(w), "sub"}
			case 2:
				n = tv{s.Mul(a.t, b.t), (a.v * b.v) & mask(w), "mul"}
			case 3:
				n = tv{s.BAnd(a.t, b.t), a.v & b.v, "and"}
			case 4:
				n = tv{s.BOr(a.t, b.t), a.v | b.v, "or"}
			case 5:
				n = tv{s.BXor(a.t, b.t), a.v ^ b.v, "xor"}
			case 6, 7, 8:
				if int(w)+int(b.t.w) > 64 {
					continue
				}
				n = tv{s.Concat(a.t, b.t), a.v<<b.t.w | b.v, "concat"}
			case 9, 10:
				hi := uint8(r.Intn(int(w)))
				lo := uint8(r.Intn(int(hi) + 1))
				n = tv{s.Extract(a.t, hi, lo), a.v >> lo & mask(hi-lo+1), "extract"}
			case 11:
				nw := w + uint8(r.Intn(int(65-w)))
				n = tv{s.Zext(a.t, nw), a.v, "zext"}
			case 12:
				nw := w + uint8(r.Intn(int(65-w)))
				n = tv{s.Sext(a.t, nw), uint64(signed(a.v, w)) & mask(nw), "sext"}
			case 13:
				sh := uint64(r.Intn(int(w) + 1))
				v := a.v << sh & mask(w)
				n = tv{s.Shl(a.t, s.Const(w, sh)), v, "shl"}
				if sh > mask(w) {
					continue
				}
			case 14:
				sh := uint64(r.Intn(int(w) + 1))
				if sh > mask(w) {
					continue
				}
				n = tv{s.Lshr(a.t, s.Const(w, sh)), a.v >> sh, "lshr"}
			case 15:
				if len(conds) == 0 {
					continue
				}
				c := conds[r.Intn(len(conds))]
				v := b.v
				if c.v != 0 {
					v = a.v
				}
				n = tv{s.Ite(c.t, a.t, b.t), v, "ite"}
			case 16:
				if len(conds) < 2 {
					continue
				}
				c, d := conds[r.Intn(len(conds))], conds[r.Intn(len(conds))]
				if r.Intn(2) == 0 {
					n = tv{s.And(c.t, d.t), c.v & d.v, "And"}
				} else {
					n = tv{s.Or(c.t, d.t), c.v | d.v, "Or"}
				}
			case 17:
				if len(conds) == 0 {
					continue
				}
				c := conds[r.Intn(len(conds))]
				n = tv{s.Not(c.t), 1 - c.v, "Not"}
			case 18:
				if r.Intn(2) == 0 || len(conds) == 0 {
					n = tv{s.UDiv(a.t, b.t), 0, "udiv"}
					if b.v == 0 {
						continue
					}
					n.v = a.v / b.v
				} else {
					n = tv{s.BoolToBV(conds[0].t, w), conds[0].v, "b2bv"}
				}
			case 19:
				n = tv{s.Eq(a.t, b.t), b2u(a.v == b.v), "eq"}
			case 20:
				n = tv{s.Ult(a.t, b.t), b2u(a.v < b.v), "ult"}
			case 21:
				n = tv{s.Ule(a.t, b.t), b2u(a.v <= b.v), "ule"}
			case 22:
				n = tv{s.Slt(a.t, b.t), b2u(signed(a.v, w) < signed(b.v, w)), "slt"}
			case 23:
				n = tv{s.Sle(a.t, b.t), b2u(signed(a.v, w) <= signed(b.v, w)), "sle"}
			}
			m.memo = nil
			if g := m.Eval(n.t); g != n.v {
				t.Fatalf("seed %d step %d %s: %d, want %d (a %s %d b %s %d w %d)", seed, k, n.d, g, n.v, a.d, a.v, b.d, b.v, w)
			}
			if n.t.w > 0 && (n.v < n.t.lo || n.v > n.t.hi) {
				t.Fatalf("seed %d step %d %s: interval [%d,%d], value %d (a %d b %d w %d)", seed, k, n.d, n.t.lo, n.t.hi, n.v, a.v, b.v, w)
			}
			if n.t.w == 0 {
				conds = append(conds, n)
			} else {
				pool = append(pool, n)
			}
		}
	}
}
