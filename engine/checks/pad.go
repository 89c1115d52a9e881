package checks

import (
	"fmt"

	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/consensys/gnark/frontend"
	"verif/engine/hk"
	"verif/engine/sym"
)

// pad101 appends keccak's pad10*1 to message bits (least significant bit of a byte first) and zeros up to n bits.
func pad101(b *sym.B, msg []*T, n int) []*T {
	r := append([]*T{}, msg...)
	end := (len(msg)/1088 + 1) * 1088
	r = append(r, b.T)
	for len(r) < end-1 {
		r = append(r, b.F)
	}
	r = append(r, b.T)
	for len(r) < n {
		r = append(r, b.F)
	}
	return r
}

// CheckK02Circuits decides the in-circuit part of K02.
func CheckK02Circuits(c *hk.Check) {
	// PadBits101: bits are least significant first within a byte
	for _, by := range []int{0, 1, 2, 64, 133, 134, 135, 136, 137, 200, 270, 271, 272, 407} {
		for extra := 0; extra <= 1; extra++ {
			by, max := by, by/136+1+extra
			c.Case(fmt.Sprintf("PadBits101-%dbytes-%drounds", by, max), func(k *hk.Case) {
				b := k.B
				in := boolVars(b, "d", by*8)
				k.Gadget(hk.Gadget{Name: "PadBits101", In: in, Outs: pad101(b, in, max*1088), Run: func(api frontend.API, v []V) []V {
					return keccak.PadBits101(api, v, max)
				}})
			})
		}
	}
	type rg struct{ bits, lo, hi int } // in bytes
	rs := []rg{{4, 134, 138}, {8, 133, 137}, {1, 134, 137}, {2, 135, 136}, {4, 135, 135}, {4, 0, 3}, {8, 270, 273}, {4, 100, 103}, {4, 136, 140}, {8, 133, 135}, {4, 64, 64}}
	if c.Thorough {
		rs = append(rs, rg{4, 0, 20}, rg{8, 120, 150}, rg{4, 260, 280}, rg{1, 400, 412}, rg{4, 500, 560})
	}
	for _, r := range rs {
		r := r
		c.Case(fmt.Sprintf("Pad101Bits-%dbit-%dto%dbytes", r.bits, r.lo, r.hi), func(k *hk.Case) {
			b := k.B
			per := 8 / r.bits
			in := bitsVars(b, "d", r.hi*per, r.bits)
			n := b.FieldVar("inLen")
			out := ((r.hi*8+8)/1088 + 1) * 1088
			var msg []*T
			for i := 0; i < r.hi; i++ {
				for j := per - 1; j >= 0; j-- {
					for t := 0; t < r.bits; t++ {
						msg = append(msg, b.Bit(in[i*per+j], t))
					}
				}
			}
			accept := b.F
			outs := make([]*T, out)
			for i := range outs {
				outs[i] = b.F
			}
			for by := r.lo; by <= r.hi; by++ {
				hit := b.IEq(n, b.I(int64(by*per)))
				accept = b.Or(accept, hit)
				for i, x := range pad101(b, msg[:by*8], out) {
					outs[i] = b.Ite(hit, x, outs[i])
				}
			}
			k.Gadget(hk.Gadget{Name: "Pad101Bits", In: append([]*T{n}, in...), Accept: accept, Outs: outs, Batch: 600, Run: func(api frontend.API, v []V) []V {
				return keccak.Pad101Bits(api, r.bits, r.lo*per, r.hi*per, v[1:], v[0])
			}})
		})
	}
}

// CheckK04Circuits decides the in-circuit part of K04.
func CheckK04Circuits(c *hk.Check) {
	spec := func(b *sym.B, in []*T, lanes int) (accept *T, outs []*T) {
		accept = b.T
		for _, x := range in {
			accept = b.And(accept, b.ILt(x, b.I(16)))
		}
		for i := 0; i < lanes; i++ {
			if 16*i+16 > len(in) {
				outs = append(outs, b.I(0))
				continue
			}
			var bits []*T
			for j := 0; j < 8; j++ {
				for _, x := range []*T{in[16*i+2*j+1], in[16*i+2*j]} {
					for t := 0; t < 4; t++ {
						bits = append(bits, b.Bit(x, t))
					}
				}
			}
			outs = append(outs, b.FromBits(bits))
		}
		return
	}
	type fn struct {
		name  string
		lanes int
		f     func(api frontend.API, in []V) []V
	}
	flat := func(x [][17]V) []V {
		var r []V
		for i := range x {
			r = append(r, x[i][:]...)
		}
		return r
	}
	fns := []fn{
		{"NibblesToU64Array", keccak.MAX_ROUNDS * 17, func(api frontend.API, in []V) []V { r := keccak.NibblesToU64Array(api, in); return flat(r[:]) }},
		{"NibblesToU64ArrayForNormalTransactionLeafValue", keccak.NORMAL_TRANSACTION_LEAF_ROUNDS * 17, func(api frontend.API, in []V) []V {
			r := keccak.NibblesToU64ArrayForNormalTransactionLeafValue(api, in)
			return flat(r[:])
		}},
		{"NibblesToU64ArrayForMaxTransactionLeafValue", keccak.MAX_TRANSACTION_LEAF_ROUNDS * 17, func(api frontend.API, in []V) []V {
			r := keccak.NibblesToU64ArrayForMaxTransactionLeafValue(api, in)
			return flat(r[:])
		}},
		{"RecomposeHexToKeccakU64s-2", 34, func(api frontend.API, in []V) []V { return flat(keccak.RecomposeHexToKeccakU64s(api, in, 2)) }},
		{"RecomposeHexToKeccakU64s-13", 13 * 17, func(api frontend.API, in []V) []V { return flat(keccak.RecomposeHexToKeccakU64s(api, in, 13)) }},
	}
	for _, f := range fns {
		f := f
		for _, n := range []int{16, 272, 544, f.lanes * 16} {
			n := n
			if n > f.lanes*16 || (n == 544 && !c.Thorough) {
				continue
			}
			c.Case(fmt.Sprintf("%s-%dnibbles", f.name, n), func(k *hk.Case) {
				b := k.B
				in := fieldVars(b, "n", n)
				accept, outs := spec(b, in, f.lanes)
				k.Gadget(hk.Gadget{Name: f.name, In: in, Accept: accept, Outs: outs, Batch: 40, Run: f.f})
			})
		}
	}
}
