//go:build overlay

package checks

import (
	"fmt"
	"math/big"

	pair "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
	"verif/engine/hk"
	"verif/engine/sha256stub"
	"verif/engine/sym"
)

func init() { Registry["P05"] = checkP05 }

func bytesIn(b *sym.B, name string, n int) []*T {
	r := make([]*T, n)
	for i := range r {
		r[i] = b.BitsVar(fmt.Sprintf("%s%d", name, i), 8)
	}
	return r
}

func constBytes(b *sym.B, s []byte) []*T {
	var r []*T
	for _, x := range s {
		r = append(r, b.I(int64(x)))
	}
	return r
}

func checkP05(c *hk.Check) {
	c.Bound("ExpandMsgXmd: 32-byte messages, 1 and 2 field elements (quick), up to 4 = the count used by hash_to_field for two points (thorough 8); all message bytes and all digests")
	c.Bound("zero, equality and sign tests: every 384-bit limb representation with the overflow-free limb sizes 6 x 64 bits (the top limb as narrow as gnark enforces)")
	c.Stub("SHA-256 (H01): every digest is an arbitrary 32-byte string; the messages handed to it are compared with RFC 9380's")
	c.OutOf("elements with overflowed limbs: gnark's own Reduce turns them into an overflow-free representation, not necessarily a canonical one, which is where the stated range starts")
	dst := []byte("BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_")
	dstPrime := append(append([]byte{}, dst...), byte(len(dst)))
	counts := []int{1, 2, 4}
	if c.Thorough {
		counts = []int{1, 2, 3, 4, 5, 6, 7, 8}
	}
	for _, n := range counts {
		n := n
		c.Case(fmt.Sprintf("ExpandMsgXmd-%d", n), func(k *hk.Case) {
			b := k.B
			ell := 2 * n
			msg := bytesIn(b, "m", 32)
			in := append([]*T{}, msg...)
			var dig [][]*T
			for i := 0; i <= ell; i++ {
				d := bytesIn(b, fmt.Sprintf("d%d_", i), 32)
				dig = append(dig, d)
				in = append(in, d...)
			}
			// RFC 9380 5.3.1
			var outs []*T
			m0 := append(constBytes(b, make([]byte, 64)), msg...)
			m0 = append(m0, constBytes(b, []byte{byte(64 * n >> 8), byte(64 * n), 0})...)
			outs = append(append(outs, m0...), constBytes(b, dstPrime)...)
			for i := 1; i <= ell; i++ {
				for j := 0; j < 32; j++ {
					x := dig[0][j]
					if i > 1 {
						var xb []*T
						for t := 0; t < 8; t++ {
							p, q := b.AsBool(b.Bit(dig[0][j], t)), b.AsBool(b.Bit(dig[i-1][j], t))
							xb = append(xb, b.Ite(b.Not(b.Iff(p, q)), b.I(1), b.I(0)))
						}
						x = b.FromBits(xb)
					}
					outs = append(outs, x)
				}
				outs = append(outs, b.I(int64(i)))
				outs = append(outs, constBytes(b, dstPrime)...)
			}
			for i := 1; i <= ell; i++ {
				outs = append(outs, dig[i]...)
			}
			k.Gadget(hk.Gadget{Name: "ExpandMsgXmd", In: in, Outs: outs, Run: func(api frontend.API, v []V) []V {
				var m [32]V
				copy(m[:], v)
				var all []V
				q := 0
				sha256stub.Hooks.Store(api, func(msg []V) []V {
					all = append(all, msg...)
					q++
					return append([]V{}, v[32*q:32*q+32]...)
				})
				defer sha256stub.Hooks.Delete(api)
				r := pair.ExpandMsgXmd(api, m, n)
				if q != ell+1 {
					panic(fmt.Sprintf("%d hash queries instead of %d", q, ell+1))
				}
				return append(all, r...)
			}})
		})
	}
	// octets to 64-bit words
	c.Case("GetUint64From8Bytes", func(k *hk.Case) {
		b := k.B
		run := func(api frontend.API, v []V) []V {
			var m [8]V
			copy(m[:], v)
			return []V{pair.GetUint64From8Bytes(api, m)}
		}
		in := bytesIn(b, "v", 8)
		k.Gadget(hk.Gadget{Name: "value", In: in, Outs: []*T{beVal(b, in, 8)}, Run: run})
		for i := range in {
			bad := append([]*T{}, in...)
			bad[i] = b.FieldVar(fmt.Sprintf("w%d", i))
			k.Gadget(hk.Gadget{Name: fmt.Sprintf("range%d", i), In: bad, Pre: []*T{b.Not(b.ILe(bad[i], b.I(255)))}, Accept: b.F, Never: true, SoundOnly: true, Run: func(api frontend.API, v []V) []V { run(api, v); return nil }})
		}
	})
	c.Case("Get64BitsFrom8Bytes", func(k *hk.Case) {
		b := k.B
		in := bytesIn(b, "v", 8)
		var outs []*T
		for i := 7; i >= 0; i-- {
			for t := 0; t < 8; t++ {
				outs = append(outs, b.Bit(in[i], t))
			}
		}
		k.Gadget(hk.Gadget{Name: "Get64BitsFrom8Bytes", In: in, Outs: outs, Run: func(api frontend.API, v []V) []V {
			var m [8]V
			copy(m[:], v)
			return pair.Get64BitsFrom8Bytes(api, m)
		}})
	})
	// predicates on elements
	type el = emulated.Element[pair.BLS12381Fp]
	p := ecc.BLS12_381.BaseField()
	pred := func(name string, n int, spec func(b *sym.B, bits [][]*T) *T, run func(api frontend.API, e []el) V) {
		c.Case(name, func(k *hk.Case) {
			b := k.B
			var in []*T
			var bits [][]*T // least significant first
			acc := b.T
			for i := 0; i < n; i++ {
				var lsb []*T
				for j := 0; j < 6; j++ {
					w := 64
					if j == 5 {
						w = p.BitLen() - 320
					}
					v := b.BitsVar(fmt.Sprintf("e%dl%d", i, j), w)
					in = append(in, v)
					for t := 0; t < w; t++ {
						lsb = append(lsb, b.AsBool(b.Bit(v, t)))
					}
				}
				bits = append(bits, lsb)
				acc = b.And(acc, ltConst(b, lsb, p))
			}
			k.Gadget(hk.Gadget{Name: name, In: in, Accept: acc, Outs: []*T{b.Ite(spec(b, bits), b.I(1), b.I(0))}, Run: func(api frontend.API, v []V) []V {
				f, err := emulated.NewField[pair.BLS12381Fp](api)
				if err != nil {
					panic(err)
				}
				var e []el
				for i := 0; i < n; i++ {
					e = append(e, *f.NewInternalElement(append([]V{}, v[6*i:6*i+6]...), 0))
				}
				return []V{run(api, e)}
			}})
		})
	}
	neq := func(b *sym.B, x, y []*T) *T {
		r := b.F
		for i := range x {
			r = b.Or(r, b.Not(b.Iff(x[i], y[i])))
		}
		return r
	}
	konst := func(b *sym.B, v int64, n int) []*T {
		r := make([]*T, n)
		for i := range r {
			r[i] = b.F
			if v>>uint(min(i, 62))&1 == 1 {
				r[i] = b.T
			}
		}
		return r
	}
	pred("G1NotZero", 1, func(b *sym.B, x [][]*T) *T { return neq(b, x[0], konst(b, 0, len(x[0]))) },
		func(api frontend.API, e []el) V { return pair.G1NotZero(api, e[0]) })
	pred("G1NotEqualOne", 1, func(b *sym.B, x [][]*T) *T { return neq(b, x[0], konst(b, 1, len(x[0]))) },
		func(api frontend.API, e []el) V { return pair.G1NotEqualOne(api, e[0]) })
	pred("G1NotEqual", 2, func(b *sym.B, x [][]*T) *T { return neq(b, x[0], x[1]) },
		func(api frontend.API, e []el) V { return pair.G1NotEqual(api, e[0], e[1]) })
	pred("E2NotZero", 2, func(b *sym.B, x [][]*T) *T {
		return b.Or(neq(b, x[0], konst(b, 0, len(x[0]))), neq(b, x[1], konst(b, 0, len(x[1]))))
	}, func(api frontend.API, e []el) V { return pair.E2NotZero(api, pair.E2{A0: e[0], A1: e[1]}) })
	pred("E2NotOne", 2, func(b *sym.B, x [][]*T) *T {
		return b.Or(neq(b, x[0], konst(b, 1, len(x[0]))), neq(b, x[1], konst(b, 0, len(x[1]))))
	}, func(api frontend.API, e []el) V { return pair.E2NotOne(api, pair.E2{A0: e[0], A1: e[1]}) })
	pred("E2NotEqual", 4, func(b *sym.B, x [][]*T) *T { return b.Or(neq(b, x[0], x[2]), neq(b, x[1], x[3])) },
		func(api frontend.API, e []el) V {
			return pair.E2NotEqual(api, pair.E2{A0: e[0], A1: e[1]}, pair.E2{A0: e[2], A1: e[3]})
		})
	pred("g2Sgn0", 2, func(b *sym.B, x [][]*T) *T {
		return b.Or(x[0][0], b.And(b.Not(neq(b, x[0], konst(b, 0, len(x[0])))), x[1][0]))
	}, func(api frontend.API, e []el) V { return pair.VerifSgn0(api, &pair.E2{A0: e[0], A1: e[1]}) })
}

// ltConst: the number with these bits (least significant first) is below m
func ltConst(b *sym.B, lsb []*T, m *big.Int) *T {
	lt := b.F
	for i := range lsb {
		if m.Bit(i) == 1 {
			lt = b.Or(b.Not(lsb[i]), lt)
		} else {
			lt = b.And(b.Not(lsb[i]), lt)
		}
	}
	return lt
}
