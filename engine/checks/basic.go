package checks

import (
	"fmt"

	"github.com/brevis-network/zk-utils/circuits/gadgets/conv"
	"github.com/brevis-network/zk-utils/circuits/gadgets/index-proof/core"
	"github.com/brevis-network/zk-utils/circuits/gadgets/mux"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	gutils "github.com/brevis-network/zk-utils/circuits/gadgets/utils"
	cutils "github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark/frontend"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() {
	Registry["M01"] = checkM01
	Registry["C01"] = checkC01
	Registry["X01"] = checkX01
}

func checkM01(c *hk.Check) {
	sizes := []int{1, 2, 3, 4, 5, 8, 16, 17}
	if c.Thorough {
		sizes = append(sizes, 31, 32, 33, 65)
	}
	c.Bound("number of entries nIn in %v, rows wIn in 1..3; entries and selector: all field elements of BN254", sizes)
	c.OutOf("other sizes")
	type muxFn func(frontend.API, V, int, int, [][]V) []V
	for name, f := range map[string]muxFn{"mux.Multiplex": mux.Multiplex, "rlp.Multiplexer": rlp.Multiplexer} {
		for _, n := range sizes {
			for w := 1; w <= 3; w++ {
				if n > 8 && w > 1 && !c.Thorough {
					continue
				}
				name, f, n, w := name, f, n, w
				c.Case(fmt.Sprintf("%s-n%d-w%d", name, n, w), func(k *hk.Case) {
					b := k.B
					sel := b.FieldVar("sel")
					in := []*T{sel}
					var rows [][]*T
					for i := 0; i < w; i++ {
						r := fieldVars(b, fmt.Sprintf("e%d_", i), n)
						rows = append(rows, r)
						in = append(in, r...)
					}
					var outs []*T
					for i := 0; i < w; i++ {
						outs = append(outs, selectAt(b, rows[i], sel))
					}
					k.Gadget(hk.Gadget{Name: name, In: in, Accept: b.ILt(sel, b.I(int64(n))), Outs: outs,
						Run: func(api frontend.API, v []V) []V {
							var rs [][]V
							for i := 0; i < w; i++ {
								rs = append(rs, v[1+i*n:1+(i+1)*n])
							}
							return f(api, v[0], w, n, rs)
						}})
				})
			}
		}
	}
}

func checkX01(c *hk.Check) {
	c.Bound("index: every BN254 field element (acceptance), every value 0..65535 (result)")
	c.Case("CalTxOrReceiptIndexRlp", func(k *hk.Case) {
		b := k.B
		x := b.FieldVar("index")
		nib := func(i int) *T { // i-th nibble from the least significant
			return b.FromBits([]*T{b.Bit(x, 4*i), b.Bit(x, 4*i+1), b.Bit(x, 4*i+2), b.Bit(x, 4*i+3)})
		}
		z := b.I(0)
		r0 := []*T{b.I(8), z, z, z, z, z, z}
		r1 := []*T{nib(1), nib(0), z, z, z, z, z}
		r2 := []*T{b.I(8), b.I(1), nib(1), nib(0), z, z, z}
		r3 := []*T{b.I(8), b.I(2), nib(3), nib(2), nib(1), nib(0), z}
		var outs []*T
		for i := 0; i < 7; i++ {
			outs = append(outs, b.Ite(b.IEq(x, z), r0[i], b.Ite(b.ILt(x, b.I(128)), r1[i], b.Ite(b.ILt(x, b.I(256)), r2[i], r3[i]))))
		}
		k.Gadget(hk.Gadget{Name: "CalTxOrReceiptIndexRlp", In: []*T{x}, Accept: b.ILt(x, b.I(65536)), Outs: outs,
			Run: func(api frontend.API, v []V) []V {
				r := core.CalTxOrReceiptIndexRlp(api, v[0])
				return r[:]
			}})
	})
	c.Case("IndexCheckCircuit", func(k *hk.Case) {
		b := k.B
		x := b.BitsVar("index", 16)
		rs := bitsVars(b, "r", 7, 4)
		val := beVal(b, rs[:6], 4) // 6 nibbles
		cases := b.Or(
			b.And(b.IEq(x, b.I(0)), b.IEq(val, b.I(0x800000))),
			b.And(b.ILt(b.I(0), x), b.ILt(x, b.I(128)), b.IEq(val, b.Scale(x, big2(16)))),
			b.And(b.ILe(b.I(128), x), b.ILt(x, b.I(256)), b.IEq(val, b.AddK(b.Scale(x, big2(8)), 0x810000))),
			b.And(b.ILe(b.I(256), x), b.IEq(val, b.AddK(x, 0x820000))))
		k.Gadget(hk.Gadget{Name: "IndexCheckCircuit", In: append([]*T{x}, rs...), Accept: b.And(cases, b.IEq(rs[6], b.I(0))),
			Run: func(api frontend.API, v []V) []V {
				cc := &core.IndexCheckCircuit{Index: v[0]}
				copy(cc.RlpString[:], v[1:])
				if err := cc.Define(api); err != nil {
					panic(err)
				}
				return nil
			}})
	})
}

func rev(x []*T) []*T {
	out := make([]*T, len(x))
	for i := range x {
		out[len(x)-1-i] = x[i]
	}
	return out
}

func checkC01(c *hk.Check) {
	type bf = func(frontend.API, []V) []V
	c.Bound("bit inputs: all boolean vectors of 8..512 bits (multiples of the group size); wide inputs: every BN254 field element, i.e. including values that do not fit the stated width")
	lens := []int{8, 16, 24, 64, 256}
	if c.Thorough {
		lens = append(lens, 32, 40, 128, 512, 1088)
	}
	// expected grouping of bits into numbers
	group := func(b *sym.B, x []*T, g int, be bool) []*T {
		var out []*T
		for i := 0; i < len(x); i += g {
			s := x[i : i+g]
			if be {
				s = rev(s)
			}
			out = append(out, b.FromBits(s))
		}
		return out
	}
	bitsCase := func(name string, f bf, g int, be, revOut bool) {
		for _, n := range lens {
			n := n
			c.Case(fmt.Sprintf("%s-%d", name, n), func(k *hk.Case) {
				b := k.B
				// inputs as arbitrary field elements: the gadget must reject non-bits
				in := boolVars(b, "b", n)
				spec := group(b, in, g, be)
				if revOut {
					spec = rev(spec)
				}
				k.Gadget(hk.Gadget{Name: name, In: in, Outs: spec, Run: f})
				if n <= 16 {
					fin := fieldVars(b, "f", n)
					acc := b.T
					for _, x := range fin {
						acc = b.And(acc, b.ILe(x, b.I(1)))
					}
					fs := group(b, fin, g, be)
					if revOut {
						fs = rev(fs)
					}
					k.Gadget(hk.Gadget{Name: name + "-wires", In: fin, Outs: fs, Accept: acc, Run: f})
				}
			})
		}
	}
	bitsCase("conv.Bits2Bytes", conv.Bits2Bytes, 8, false, false)
	bitsCase("conv.Bits2Bytes2", conv.Bits2Bytes2, 8, true, false)
	bitsCase("conv.Bits2BytesArray", conv.Bits2BytesArray, 8, false, true)
	bitsCase("conv.Bits2Nibbles", conv.Bits2Nibbles, 4, false, false)

	c.Case("conv.Bits2Uint128s", func(k *hk.Case) {
		b := k.B
		in := boolVars(b, "b", 256)
		// bytes little-endian in bits; each half is the big-endian number of its 16 bytes
		var outs []*T
		for h := 0; h < 2; h++ {
			bytes := group(b, in[h*128:(h+1)*128], 8, false)
			outs = append(outs, beVal(b, bytes, 8))
		}
		k.Gadget(hk.Gadget{Name: "conv.Bits2Uint128s", In: in, Outs: outs, Run: func(api frontend.API, v []V) []V {
			var a [256]V
			copy(a[:], v)
			r := conv.Bits2Uint128s(api, a)
			return r[:]
		}})
	})
	// pure wire permutations
	for _, n := range []int{0, 1, 2, 3, 7, 8, 16, 24} {
		n := n
		c.Case(fmt.Sprintf("Flip-%d", n), func(k *hk.Case) {
			in := fieldVars(k.B, "x", n)
			for name, f := range map[string]func([]V) []V{"gadgets/utils.Flip": gutils.Flip[V], "common/utils.Flip": cutils.Flip[V]} {
				f := f
				k.Gadget(hk.Gadget{Name: name, In: in, Outs: rev(in), Run: func(api frontend.API, v []V) []V {
					cp := append([]V{}, v...)
					r := f(v)
					for i := range cp { // the argument must not be modified
						if cp[i] != v[i] {
							r = append(r, v[i])
						}
					}
					return r
				}})
			}
			for _, g := range []int{1, 2, 4, 8} {
				if n%g != 0 || n == 0 {
					continue
				}
				g := g
				var sub, grp []*T
				for i := 0; i < n; i += g {
					sub = append(sub, rev(in[i:i+g])...)
					grp = append(append([]*T{}, in[i:i+g]...), grp...)
				}
				k.Gadget(hk.Gadget{Name: fmt.Sprintf("FlipSubSlice/%d", g), In: in, Outs: sub, Run: func(api frontend.API, v []V) []V { return gutils.FlipSubSlice(v, g) }})
				k.Gadget(hk.Gadget{Name: fmt.Sprintf("FlipByGroups/%d", g), In: in, Outs: grp, Run: func(api frontend.API, v []V) []V { return cutils.FlipByGroups(v, g) }})
			}
			k.Gadget(hk.Gadget{Name: "Slice2FVs", In: in, Outs: in, Run: func(api frontend.API, v []V) []V { return gutils.Slice2FVs(v) }})
		})
	}
	for _, n := range []int{8, 64, 128, 248} {
		n := n
		c.Case(fmt.Sprintf("FlipKeccakFvBits-%d", n), func(k *hk.Case) {
			b := k.B
			x := b.FieldVar("x")
			var bits []*T
			for i := 0; i < n; i++ {
				bits = append(bits, b.Bit(x, i))
			}
			var outs []*T
			r := rev(bits) // most significant first
			for i := 0; i < n; i += 8 {
				outs = append(outs, rev(r[i:i+8])...)
			}
			k.Gadget(hk.Gadget{Name: "utils.FlipKeccakFvBits", In: []*T{x}, Accept: b.ILt(x, b.Const(big2(n))), Outs: outs,
				Run: func(api frontend.API, v []V) []V { return gutils.FlipKeccakFvBits(api, v[0], n) }})
		})
	}
	// wide -> nibbles; chunk i of n (most significant first)
	for _, n := range []int{2, 4, 8, 16, 32, 64} {
		n := n
		c.Case(fmt.Sprintf("Recompose32ByteToNibbles-%d", n), func(k *hk.Case) {
			b := k.B
			in := fieldVars(b, "x", n)
			w := 256 / n
			acc := b.T
			var outs []*T
			for _, x := range in {
				acc = b.And(acc, b.ILt(x, b.Const(big2(w))))
				for i := w/4 - 1; i >= 0; i-- {
					outs = append(outs, b.FromBits([]*T{b.Bit(x, 4*i), b.Bit(x, 4*i+1), b.Bit(x, 4*i+2), b.Bit(x, 4*i+3)}))
				}
			}
			k.Gadget(hk.Gadget{Name: "utils.Recompose32ByteToNibbles", In: in, Accept: acc, Outs: outs,
				Run: func(api frontend.API, v []V) []V {
					r := cutils.Recompose32ByteToNibbles(api, v)
					return r[:]
				}})
		})
	}
	nibsOf := func(b *sym.B, x *T, n int) []*T { // n nibbles, most significant first
		var out []*T
		for i := n - 1; i >= 0; i-- {
			out = append(out, b.FromBits([]*T{b.Bit(x, 4*i), b.Bit(x, 4*i+1), b.Bit(x, 4*i+2), b.Bit(x, 4*i+3)}))
		}
		return out
	}
	c.Case("RecomposeSDKByte32ToNibble", func(k *hk.Case) {
		b := k.B
		lo, hi := b.FieldVar("lo"), b.FieldVar("hi")
		acc := b.And(b.ILt(lo, b.Const(big2(248))), b.ILt(hi, b.I(256)))
		k.Gadget(hk.Gadget{Name: "RecomposeSDKByte32ToNibble", In: []*T{lo, hi}, Accept: acc,
			Outs: append(nibsOf(b, hi, 2), nibsOf(b, lo, 62)...),
			Run: func(api frontend.API, v []V) []V {
				r := cutils.RecomposeSDKByte32ToNibble(api, cutils.Bytes32{Val: [2]V{v[0], v[1]}})
				return r[:]
			}})
	})
	c.Case("RecomposeSDKByte32To2Fr", func(k *hk.Case) {
		b := k.B
		lo, hi := b.FieldVar("lo"), b.FieldVar("hi")
		acc := b.And(b.ILt(lo, b.Const(big2(248))), b.ILt(hi, b.I(256)))
		var hb, lb []*T
		for i := 0; i < 128; i++ {
			lb = append(lb, b.Bit(lo, i))
		}
		for i := 128; i < 248; i++ {
			hb = append(hb, b.Bit(lo, i))
		}
		for i := 0; i < 8; i++ {
			hb = append(hb, b.Bit(hi, i))
		}
		k.Gadget(hk.Gadget{Name: "RecomposeSDKByte32To2Fr", In: []*T{lo, hi}, Accept: acc,
			Outs: []*T{b.FromBits(hb), b.FromBits(lb)},
			Run: func(api frontend.API, v []V) []V {
				r := cutils.RecomposeSDKByte32To2Fr(api, cutils.Bytes32{Val: [2]V{v[0], v[1]}})
				return r[:]
			}})
	})
	c.Case("Recompose6BytesToNibbles", func(k *hk.Case) {
		b := k.B
		x := b.FieldVar("x")
		k.Gadget(hk.Gadget{Name: "Recompose6BytesToNibbles", In: []*T{x}, Accept: b.ILt(x, b.Const(big2(48))), Outs: nibsOf(b, x, 12),
			Run: func(api frontend.API, v []V) []V {
				r := cutils.Recompose6BytesToNibbles(api, v[0])
				return r[:]
			}})
	})
	for _, n := range []int{1, 252, 253, 254, 300, 506, 507, 600} {
		n := n
		c.Case(fmt.Sprintf("PackBitsToFr-%d", n), func(k *hk.Case) {
			b := k.B
			in := boolVars(b, "b", n)
			var outs []*T
			for i := 0; i < n; i += 253 {
				e := i + 253
				if e > n {
					e = n
				}
				outs = append(outs, b.FromBits(in[i:e]))
			}
			k.Gadget(hk.Gadget{Name: "PackBitsToFr", In: in, Outs: outs, Run: func(api frontend.API, v []V) []V { return cutils.PackBitsToFr(api, v) }})
		})
	}
	for _, n := range []int{248, 128, 253, 8} {
		n := n
		c.Case(fmt.Sprintf("Byte32ToBits-%d", n), func(k *hk.Case) {
			b := k.B
			lo, hi := b.FieldVar("lo"), b.FieldVar("hi")
			acc := b.And(b.ILt(lo, b.Const(big2(n))), b.ILt(hi, b.Const(big2(256-n))))
			var outs []*T
			for i := 0; i < n; i++ {
				outs = append(outs, b.Bit(lo, i))
			}
			for i := 0; i < 256-n; i++ {
				outs = append(outs, b.Bit(hi, i))
			}
			k.Gadget(hk.Gadget{Name: "Byte32ToBits", In: []*T{lo, hi}, Accept: acc, Outs: outs,
				Run: func(api frontend.API, v []V) []V {
					return cutils.Byte32ToBits(api, cutils.Bytes32{Val: [2]V{v[0], v[1]}}, n)
				}})
		})
	}
}
