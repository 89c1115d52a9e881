package checks

import (
	"fmt"
	"math/bits"

	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark/frontend"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() {
	Registry["R01"] = checkR01
	Registry["R02"] = checkR02
	Registry["R05"] = checkR05
}

func boolInt(b *sym.B, c *T) *T { return b.Ite(c, b.I(1), b.I(0)) }

func checkR01(c *hk.Check) {
	c.Bound("Equal, LessThan: all pairs of BN254 field elements, either operand also as constants 0, 1, 63, 4346, p-1")
	c.Bound("ArrayEqual: maxLength 1..6, 16 (thorough 64, 66), arbitrary field entries, arbitrary field targetLength; slices equal to and longer than maxLength")
	c.Bound("ShiftLeft / ShiftRight / SubArray: the (size, range) configurations listed as cases, among them the ones the MPT and RLP gadgets use; arbitrary field contents and shifts")
	c.Case("Equal", func(k *hk.Case) {
		b := k.B
		in := fieldVars(b, "x", 2)
		k.Gadget(hk.Gadget{Name: "rlp.Equal", In: in, Outs: []*T{boolInt(b, b.IEq(in[0], in[1]))},
			Run: func(api frontend.API, v []V) []V { return []V{rlp.Equal(api, v[0], v[1])} }})
	})
	c.Case("LessThan", func(k *hk.Case) {
		b := k.B
		in := fieldVars(b, "x", 2)
		k.Gadget(hk.Gadget{Name: "rlp.LessThan", In: in, Outs: []*T{boolInt(b, b.ILt(in[0], in[1]))},
			Run: func(api frontend.API, v []V) []V { return []V{rlp.LessThan(api, v[0], v[1])} }})
	})
	for _, cst := range []int64{0, 1, 63, 4346, -1} {
		cst := cst
		c.Case(fmt.Sprintf("LessThan-const%d", cst), func(k *hk.Case) {
			b := k.B
			x := b.FieldVar("x")
			kc := b.I(cst)
			if cst < 0 {
				kc = b.AddK(b.Const(b.P), cst)
			}
			k.Gadget(hk.Gadget{Name: "rlp.LessThan.const", In: []*T{x}, Outs: []*T{boolInt(b, b.ILt(x, kc)), boolInt(b, b.ILt(kc, x)), boolInt(b, b.IEq(x, kc))},
				Run: func(api frontend.API, v []V) []V {
					return []V{rlp.LessThan(api, v[0], cst), rlp.LessThan(api, cst, v[0]), rlp.Equal(api, cst, v[0])}
				}})
		})
	}
	ml := []int{1, 2, 3, 4, 5, 6, 16}
	if c.Thorough {
		ml = append(ml, 64, 66)
	}
	for _, n := range ml {
		for _, extra := range []int{0, 2} {
			n, extra := n, extra
			c.Case(fmt.Sprintf("ArrayEqual-%d+%d", n, extra), func(k *hk.Case) {
				b := k.B
				x, y := fieldVars(b, "x", n+extra), fieldVars(b, "y", n)
				t := b.FieldVar("t")
				eq := b.T
				spec := b.T
				for i := 0; i < n; i++ {
					eq = b.And(eq, b.IEq(x[i], y[i]))
					spec = b.And(spec, b.Implies(b.ILt(b.I(int64(i)), t), b.IEq(x[i], y[i])))
				}
				k.Gadget(hk.Gadget{Name: "rlp.ArrayEqual", In: join(x, y, []*T{t}), Accept: b.ILe(t, b.I(int64(n))), Outs: []*T{boolInt(b, spec)},
					Run: func(api frontend.API, v []V) []V {
						return []V{rlp.ArrayEqual(api, v[:n+extra], v[n+extra:2*n+extra], n, v[2*n+extra])}
					}})
			})
		}
	}
	// rotation of in by s, s < smax
	rot := func(b *sym.B, in []*T, s *T, lo, hi int) []*T {
		n := len(in)
		out := make([]*T, n)
		for j := range out {
			r := in[(j+hi)%n]
			for v := hi - 1; v >= lo; v-- {
				r = b.Ite(b.IEq(s, b.I(int64(v))), in[(j+v)%n], r)
			}
			out[j] = r
		}
		return out
	}
	type sl struct{ n, lo, hi int }
	sls := []sl{{5, 0, 4}, {8, 0, 2}, {8, 3, 7}, {9, 2, 20}, {16, 0, 10}, {24, 0, 6}, {66, 0, 2}, {20, 4, 4}, {7, 0, 1}, {12, 5, 13}}
	if c.Thorough {
		sls = append(sls, sl{66, 0, 66}, sl{142, 0, 66}, sl{142, 0, 10}, sl{142, 2, 66})
	}
	for _, s := range sls {
		s := s
		c.Case(fmt.Sprintf("ShiftLeft-%d-%d-%d", s.n, s.lo, s.hi), func(k *hk.Case) {
			b := k.B
			in := fieldVars(b, "x", s.n)
			sh := b.FieldVar("s")
			run := func(api frontend.API, v []V) []V { return rlp.ShiftLeft(api, s.n, s.lo, s.hi, v[:s.n], v[s.n]) }
			lim := s.lo + 1<<bits.Len(uint(s.hi-s.lo)) - 1
			k.Gadget(hk.Gadget{Name: "rlp.ShiftLeft.complete", In: append(append([]*T{}, in...), sh), CompleteOnly: true,
				Pre:  []*T{b.ILe(b.I(int64(s.lo)), sh), b.ILe(sh, b.I(int64(s.hi)))},
				Outs: rot(b, in, sh, s.lo, s.hi), Run: run, Batch: 8})
			if s.lo < s.hi {
				// whatever else is accepted is still a rotation by the given amount
				k.Gadget(hk.Gadget{Name: "rlp.ShiftLeft.sound", In: append(append([]*T{}, in...), sh), SoundOnly: true,
					Accept: b.And(b.ILe(b.I(int64(s.lo)), sh), b.ILe(sh, b.I(int64(lim)))),
					Outs:   rot(b, in, sh, s.lo, lim), Run: run, Batch: 8})
			}
		})
	}
	type sr struct{ n, bits int }
	srs := []sr{{8, 3}, {4, 3}, {5, 2}, {12, 4}, {3, 1}, {20, 5}}
	if c.Thorough {
		srs = append(srs, sr{64, 6}, sr{64, 7}, sr{33, 6})
	}
	for _, s := range srs {
		s := s
		c.Case(fmt.Sprintf("ShiftRight-%d-%d", s.n, s.bits), func(k *hk.Case) {
			b := k.B
			in := fieldVars(b, "x", s.n)
			sh := b.FieldVar("s")
			outs := make([]*T, s.n)
			for j := range outs {
				r := b.I(0)
				for v := 0; v <= j && v < 1<<s.bits; v++ {
					r = b.Ite(b.IEq(sh, b.I(int64(v))), in[j-v], r)
				}
				outs[j] = r
			}
			k.Gadget(hk.Gadget{Name: "rlp.ShiftRight", In: append(append([]*T{}, in...), sh), Accept: b.ILt(sh, b.I(int64(1)<<s.bits)), Outs: outs, Batch: 8,
				Run: func(api frontend.API, v []V) []V { return rlp.ShiftRight(api, s.n, s.bits, v[:s.n], v[s.n]) }})
		})
	}
	type sa struct{ n, sel, bits, from int }
	sas := []sa{{8, 8, 4, -1}, {6, 6, 3, -1}, {5, 3, 3, -1}, {16, 7, 5, -1}, {3, 1, 2, -1}}
	for _, f := range []int{0, 1, 2, 3, 31, 62, 63, 64} {
		sas = append(sas, sa{64, 64, 7, f})
	}
	if c.Thorough {
		sas = append(sas, sa{64, 64, 7, -1}, sa{64, 20, 7, -1})
	}
	for _, s := range sas {
		s := s
		c.Case(fmt.Sprintf("SubArray-%d-%d-%d-%d", s.n, s.sel, s.bits, s.from), func(k *hk.Case) {
			b := k.B
			in := fieldVars(b, "x", s.n)
			from, end := b.FieldVar("from"), b.FieldVar("end")
			if s.from >= 0 {
				from = b.I(int64(s.from))
			}
			acc := b.And(b.ILe(from, end), b.ILe(end, b.I(int64(s.n))), b.ILe(b.Sub(end, from), b.I(int64(s.sel))))
			outs := append(rot(b, in, from, 0, s.n)[:s.sel], b.Sub(end, from))
			k.Gadget(hk.Gadget{Name: "rlp.SubArray", In: append(append([]*T{}, in...), from, end), Accept: acc, Outs: outs, Batch: 8,
				Run: func(api frontend.API, v []V) []V {
					o, l := rlp.NewSubArray(s.n, s.sel, s.bits).SubArray(api, v[:s.n], v[s.n], v[s.n+1])
					return append(append([]V{}, o...), l)
				}})
		})
	}
}

func checkR02(c *hk.Check) {
	c.Bound("all 256 values of the two prefix nibbles")
	c.OutOf("wires that are not nibbles (they are range-checked by the callers' hash binding)")
	pre := func(b *sym.B) ([]*T, *T) {
		in := bitsVars(b, "n", 2, 4)
		return in, beVal(b, in, 4)
	}
	k2 := func(b *sym.B, p *T, off int64) *T { return b.Scale(b.AddK(p, -off), big2(1)) }
	c.Case("RlpArrayPrefix", func(k *hk.Case) {
		b := k.B
		in, p := pre(b)
		valid := b.ILe(b.I(0xc0), p)
		big := b.ILe(b.I(0xf8), p)
		ln := b.Ite(big, k2(b, p, 0xf7), b.Ite(valid, k2(b, p, 0xc0), b.I(0)))
		k.Gadget(hk.Gadget{Name: "rlp.RlpArrayPrefix", In: in, Outs: []*T{boolInt(b, big), ln, boolInt(b, valid)},
			Run: func(api frontend.API, v []V) []V {
				x, y, z := rlp.RlpArrayPrefix(api, [2]V{v[0], v[1]})
				return []V{x, y, z}
			}})
	})
	c.Case("RlpFieldPrefix", func(k *hk.Case) {
		b := k.B
		in, p := pre(b)
		lit := b.ILt(p, b.I(0x80))
		arr := b.ILe(b.I(0xc0), p)
		big := b.Or(b.And(b.ILe(b.I(0xb8), p), b.Not(arr)), b.ILe(b.I(0xf8), p))
		empty := b.IEq(p, b.I(0xc0))
		ln := b.Ite(lit, b.I(0), b.Ite(arr, b.Ite(big, k2(b, p, 0xf7), k2(b, p, 0xc0)), b.Ite(big, k2(b, p, 0xb7), k2(b, p, 0x80))))
		k.Gadget(hk.Gadget{Name: "rlp.RlpFieldPrefix", In: in,
			Outs: []*T{boolInt(b, big), boolInt(b, lit), ln, b.I(1), boolInt(b, arr), boolInt(b, empty), boolInt(b, b.IEq(p, b.I(0)))},
			Run: func(api frontend.API, v []V) []V {
				a0, a1, a2, a3, a4, a5, a6 := rlp.RlpFieldPrefix(api, [2]V{v[0], v[1]})
				return []V{a0, a1, a2, a3, a4, a5, a6}
			}})
	})
}

func checkR05(c *hk.Check) {
	c.Bound("HexToDecimal: maxLen 2..5, 16, 32, 62 (thorough 64), every nibble content, every realLen 0..maxLen; Hex64To2Fr: every nibble content, every realLen 0..64")
	c.OutOf("realLen > maxLen")
	// value of the first l of the nibbles, for l in lo..hi
	val := func(b *sym.B, in []*T, l *T, lo, hi int) *T {
		r := beVal(b, in[:hi], 4)
		for v := hi - 1; v >= lo; v-- {
			x := b.I(0)
			if v > 0 {
				x = beVal(b, in[:v], 4)
			}
			r = b.Ite(b.IEq(l, b.I(int64(v))), x, r)
		}
		return r
	}
	ns := []int{2, 3, 4, 5}
	if c.Thorough {
		ns = append(ns, 6, 7)
	}
	ns2 := []int{2, 16, 32, 62}
	if c.Thorough {
		ns2 = append(ns2, 24, 64)
	}
	for _, n := range ns2 {
		for l := 0; l <= n; l++ {
			if !c.Thorough && l%3 != 0 && l > 4 && l < n-2 {
				continue
			}
			n, l := n, l
			c.Case(fmt.Sprintf("HexToDecimal-%d-len%d", n, l), func(k *hk.Case) {
				b := k.B
				in := bitsVars(b, "n", n+1, 4)
				w := b.I(0)
				if l > 0 {
					w = beVal(b, in[:l], 4)
				}
				k.Gadget(hk.Gadget{Name: "rlp.HexToDecimal", In: append(append([]*T{}, in...), b.I(int64(l))), CompleteOnly: true, Outs: []*T{w},
					Run: func(api frontend.API, v []V) []V { return []V{rlp.HexToDecimal(api, v[:n+1], n, v[n+1])} }})
			})
		}
	}
	for _, n := range ns {
		n := n
		c.Case(fmt.Sprintf("HexToDecimal-%d", n), func(k *hk.Case) {
			b := k.B
			in := bitsVars(b, "n", n+1, 4)
			l := b.Var("len", big2(0).SetInt64(0), big2(0).SetInt64(int64(n)))
			k.Gadget(hk.Gadget{Name: "rlp.HexToDecimal", In: append(append([]*T{}, in...), l), CompleteOnly: true, Outs: []*T{val(b, in, l, 0, n)},
				Run: func(api frontend.API, v []V) []V { return []V{rlp.HexToDecimal(api, v[:n+1], n, v[n+1])} }})
		})
	}
	step := 4
	if c.Thorough {
		step = 1
	}
	for lo := 0; lo <= 64; lo++ {
		if lo%step != 0 && lo != 1 && lo != 2 && lo < 60 {
			continue
		}
		lo := lo
		c.Case(fmt.Sprintf("Hex64To2Fr-len%d", lo), func(k *hk.Case) {
			b := k.B
			in := bitsVars(b, "n", 64, 4)
			var l2, h2 *T
			if lo >= 63 {
				h2 = beVal(b, in[:2], 4)
				l2 = beVal(b, in[2:lo], 4)
			} else {
				h2, l2 = b.I(0), b.I(0)
				if lo > 0 {
					l2 = beVal(b, in[:lo], 4)
				}
			}
			k.Gadget(hk.Gadget{Name: "rlp.Hex64To2Fr", In: append(append([]*T{}, in...), b.I(int64(lo))), CompleteOnly: true, Outs: []*T{l2, h2},
				Run: func(api frontend.API, v []V) []V {
					r := rlp.Hex64To2Fr(api, v[:64], v[64])
					return []V{r[0], r[1]}
				}})
		})
	}
}
