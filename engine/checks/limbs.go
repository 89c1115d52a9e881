package checks

import (
	"fmt"
	"strings"

	emu "github.com/brevis-network/zk-utils/circuits/gadgets/emulated"
	"github.com/brevis-network/zk-utils/circuits/gadgets/limbs"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() {
	Registry["L01"] = checkL01
	Registry["E01"] = checkE01
}

// limbIn: limbs of the given sizes (most significant first) and all their bits, most significant first.
func limbIn(b *sym.B, sizes []int) (vals, bits []*T) {
	for i, s := range sizes {
		v := b.BitsVar(fmt.Sprintf("l%d", i), s)
		vals = append(vals, v)
		for j := s - 1; j >= 0; j-- {
			bits = append(bits, b.Bit(v, j))
		}
	}
	return
}

func revOf[X any](x []X) []X {
	r := make([]X, len(x))
	for i := range x {
		r[len(x)-1-i] = x[i]
	}
	return r
}

// chunk: values of consecutive groups of bits (most significant first); the last one may be shorter.
func chunk(b *sym.B, bits []*T, size int) []*T {
	var r []*T
	for i := 0; i < len(bits); i += size {
		r = append(r, b.FromBits(rev(bits[i:min(i+size, len(bits))])))
	}
	return r
}

func honestSplit(b *sym.B) func(name string, nb int, in []*T) []*T {
	return func(name string, nb int, in []*T) []*T {
		if !strings.HasSuffix(name, "limbs.SplitHint") {
			return nil
		}
		var c [4]int
		for i := 1; i < 4; i++ {
			v, ok := b.ConstVal(in[i])
			if !ok {
				panic("sym: split sizes are not constant")
			}
			c[i] = int(v.Int64())
		}
		var out []*T
		hi := c[1]
		for i := 0; i < nb; i++ {
			lo := hi - c[2]
			if i >= c[3] || lo < 0 {
				lo = 0
			}
			var bs []*T
			for j := lo; j < hi; j++ {
				bs = append(bs, b.Bit(in[0], j))
			}
			out = append(out, b.FromBits(bs))
			hi = lo
		}
		return out
	}
}

// limbCase: outputs forced for every hint value, and the honest hint values satisfy the constraints.
func limbCase(c *hk.Check, name string, sizes []int, spec func(b *sym.B, vals, bits []*T) []*T, run hk.RunFn) {
	c.Case(name, func(k *hk.Case) {
		b := k.B
		vals, bits := limbIn(b, sizes)
		outs := spec(b, vals, bits)
		k.Gadget(hk.Gadget{Name: "honest", In: vals, CompleteOnly: true, Outs: outs, HintHook: honestSplit(b), Run: run})
		k.Gadget(hk.Gadget{Name: "forced", In: vals, SoundOnly: true, Outs: outs, Run: run, Batch: 8})
	})
}

func checkL01(c *hk.Check) {
	c.Bound("limb sizes 1..253 bits as listed per case, up to 8 limbs; Resplit above 254 bits in total through the bit path; Split with and without an explicit limb count; rotation amounts 0..total; all limb values and all hint outputs")
	c.OutOf("single limbs of 254 bits or more and merges above 253 bits (the value does not fit a BN254 wire), limb values outside their declared size")
	mk := func(v []V, sizes []int) limbs.Limbs {
		var ls limbs.Limbs
		for i := range v {
			ls = append(ls, limbs.Limb{Val: v[i], Size: sizes[i]})
		}
		return ls
	}
	flat := func(ls limbs.Limbs) []V {
		o := ls.Values()
		for _, l := range ls {
			o = append(o, l.Size)
		}
		return o
	}
	withSizes := func(b *sym.B, outs []*T, total, size int) []*T {
		n := len(outs)
		for i := 0; i < n; i++ {
			outs = append(outs, b.I(int64(min(size, total-i*size))))
		}
		return outs
	}
	split := func(size, ns, nb int) {
		name := fmt.Sprintf("Split-%d-by-%d-x%d", size, ns, nb)
		limbCase(c, name, []int{size}, func(b *sym.B, vals, bits []*T) []*T {
			if nb == 0 {
				return withSizes(b, chunk(b, bits, ns), size, ns)
			}
			head, tail := chunk(b, bits[:nb*ns], ns), bits[nb*ns:]
			var szs []*T
			for range head {
				szs = append(szs, b.I(int64(ns)))
			}
			if len(tail) > 0 {
				head = append(head, b.FromBits(rev(tail)))
				szs = append(szs, b.I(int64(len(tail))))
			}
			return append(head, szs...)
		}, func(api frontend.API, v []V) []V {
			la := limbs.NewAPI(api)
			if nb == 0 {
				return flat(la.Split(limbs.Limb{Val: v[0], Size: size}, ns))
			}
			return flat(la.Split(limbs.Limb{Val: v[0], Size: size}, ns, nb))
		})
	}
	for _, s := range [][2]int{{8, 8}, {8, 4}, {8, 3}, {8, 1}, {64, 8}, {64, 32}, {64, 24}, {64, 1}, {128, 64}, {128, 88}, {253, 128}, {253, 64}, {2, 1}, {13, 5}} {
		split(s[0], s[1], 0)
	}
	for _, s := range [][3]int{{8, 2, 2}, {8, 1, 1}, {8, 2, 4}, {64, 8, 3}, {24, 5, 1}, {24, 5, 4}, {200, 100, 1}, {253, 1, 1}} {
		split(s[0], s[1], s[2])
	}
	resplit := func(size int, sizes ...int) {
		total := 0
		for _, s := range sizes {
			total += s
		}
		limbCase(c, fmt.Sprintf("Resplit-%v-by-%d", sizes, size), sizes, func(b *sym.B, vals, bits []*T) []*T {
			return withSizes(b, chunk(b, bits, size), total, size)
		}, func(api frontend.API, v []V) []V { return flat(limbs.NewAPI(api).Resplit(mk(v, sizes), size)) })
	}
	resplit(12, 8, 8, 8)
	resplit(8, 12, 12)
	resplit(8, 3, 5, 8)
	resplit(5, 8, 8)
	resplit(16, 8, 8)
	resplit(8, 8)
	resplit(4, 8)
	resplit(16, 8)
	resplit(128, 64, 64)
	resplit(100, 64, 64, 64)
	resplit(127, 64, 64, 64, 61)
	resplit(127, 64, 64, 64, 62)
	resplit(128, 64, 64, 64, 64)
	resplit(64, 128, 128)
	resplit(100, 64, 64, 64, 64)
	resplit(32, 64, 64, 64, 64)
	resplit(200, 128, 128, 64)
	if c.Thorough {
		resplit(64, 8, 8, 8, 8, 8, 8, 8, 8)
		resplit(96, 64, 64, 64, 64, 64, 64)
		resplit(8, 64, 64, 64, 64)
		resplit(1, 64, 64, 64, 64)
	}
	merge := func(sizes ...int) {
		limbCase(c, fmt.Sprintf("Merge-%v", sizes), sizes, func(b *sym.B, vals, bits []*T) []*T {
			return []*T{b.FromBits(rev(bits)), b.I(int64(len(bits)))}
		}, func(api frontend.API, v []V) []V {
			l := limbs.NewAPI(api).Merge(mk(v, sizes))
			return []V{l.Val, l.Size}
		})
	}
	merge(8)
	merge(8, 8, 8)
	merge(3, 5, 1)
	merge(64, 64, 64, 61)
	merge(1, 252)
	lrot := func(amount, size int, sizes ...int) {
		total := 0
		for _, s := range sizes {
			total += s
		}
		rot := func(bits []*T) []*T { return append(append([]*T{}, bits[amount:]...), bits[:amount]...) }
		if size == 0 {
			limbCase(c, fmt.Sprintf("LrotMerge-%v-%d", sizes, amount), sizes, func(b *sym.B, vals, bits []*T) []*T {
				return []*T{b.FromBits(rev(rot(bits))), b.I(int64(total))}
			}, func(api frontend.API, v []V) []V {
				l := limbs.NewAPI(api).LrotMerge(mk(v, sizes), amount)
				return []V{l.Val, l.Size}
			})
			return
		}
		limbCase(c, fmt.Sprintf("Lrot-%v-%d-by-%d", sizes, amount, size), sizes, func(b *sym.B, vals, bits []*T) []*T {
			return withSizes(b, chunk(b, rot(bits), size), total, size)
		}, func(api frontend.API, v []V) []V { return flat(limbs.NewAPI(api).Lrot(mk(v, sizes), amount, size)) })
	}
	for a := 0; a <= 24; a++ {
		lrot(a, 0, 8, 8, 8)
		if a%3 == 1 || a%8 == 0 {
			lrot(a, 8, 8, 8, 8)
			lrot(a, 12, 8, 8, 8)
		}
	}
	for _, a := range []int{0, 1, 3, 4, 7, 8, 9} {
		lrot(a, 0, 3, 1, 5)
	}
	for _, a := range []int{0, 1, 36, 63, 64} {
		lrot(a, 0, 64)
		lrot(a, 0, 32, 32)
		lrot(a, 32, 32, 32)
	}
	lrot(1, 64, 64, 64)
	lrot(100, 64, 64, 64, 64)
}

// elementOf: limbs (least significant first, 64 bits) of the big-endian bits.
func elementOf(b *sym.B, bits []*T, n int) []*T {
	l := rev(bits)
	var r []*T
	for i := 0; i < n; i++ {
		r = append(r, b.FromBits(l[64*i:64*i+64]))
	}
	return r
}

func e01[F emulated.FieldParams](c *hk.Check, field string, sizes []int) {
	var p F
	nb, w := int(p.NbLimbs()), int(p.BitsPerLimb())
	top := (p.Modulus().BitLen()-1)%w + 1
	total := nb * w
	rep := func(n, s int) []int {
		r := make([]int, n)
		for i := range r {
			r[i] = s
		}
		return r
	}
	for _, s := range sizes {
		s := s
		if total%s != 0 {
			continue
		}
		limbW := make([]int, nb)
		for i := range limbW {
			limbW[i] = w
		}
		// packed variables to elements: the bits above the modulus width are zero in the input
		topZero := func(b *sym.B, bits []*T) []*T {
			var pre []*T
			for i := 0; i < w-top; i++ {
				pre = append(pre, b.Not(b.AsBool(bits[i])))
			}
			return pre
		}
		c.Case(fmt.Sprintf("ToElement-%s-%d", field, s), func(k *hk.Case) {
			b := k.B
			vals, bits := limbIn(b, rep(total/s, s))
			outs := elementOf(b, bits, nb)
			run := func(api frontend.API, v []V) []V { return emu.ToElement[F](api, v, s).Limbs }
			k.Gadget(hk.Gadget{Name: "honest", In: vals, Pre: topZero(b, bits), CompleteOnly: true, Outs: outs, HintHook: honestSplit(b), Run: run})
			k.Gadget(hk.Gadget{Name: "forced", In: vals, Pre: topZero(b, bits), SoundOnly: true, Outs: outs, Run: run, Batch: 1})
		})
		if w%s == 0 {
			for m := 1; m <= 2; m++ {
				m := m
				c.Case(fmt.Sprintf("ToElements-%s-%d-x%d", field, s, m), func(k *hk.Case) {
					b := k.B
					vals, bits := limbIn(b, rep(m*total/s, s))
					var outs, pre []*T
					for i := 0; i < m; i++ {
						bs := bits[i*total : (i+1)*total]
						outs = append(outs, elementOf(b, bs, nb)...)
						pre = append(pre, topZero(b, bs)...)
					}
					run := func(api frontend.API, v []V) []V {
						var o []V
						for _, e := range emu.ToElements[F](api, v, s) {
							o = append(o, e.Limbs...)
						}
						return o
					}
					k.Gadget(hk.Gadget{Name: "ToElements", In: vals, Pre: pre, Outs: outs, Run: run})
				})
			}
		}
		c.Case(fmt.Sprintf("FromElement-%s-%d", field, s), func(k *hk.Case) {
			b := k.B
			vals, bits := limbIn(b, rep(nb, w))
			outs := chunk(b, bits, s)
			run := func(api frontend.API, v []V) []V {
				return emu.FromElement[F](api, &emulated.Element[F]{Limbs: revOf(v)}, s)
			}
			k.Gadget(hk.Gadget{Name: "honest", In: vals, CompleteOnly: true, Outs: outs, HintHook: honestSplit(b), Run: run})
			k.Gadget(hk.Gadget{Name: "forced", In: vals, SoundOnly: true, Outs: outs, Run: run, Batch: 8})
		})
	}
}

func checkE01(c *hk.Check) {
	c.Bound("fields BLS12377Fr, BN254Fr, BLS12381Fp (thorough: also Secp256k1Fp, BLS12377Fp, Goldilocks); variable sizes 8, 16, 32, 64, 128 bits where they divide the element; one element (ToElements: one and two); all values, all hint outputs")
	c.OutOf("elements with unreduced (overflowed) limbs; packed inputs wider than the modulus (rejected by gnark's own width check)")
	sz := []int{8, 64, 128}
	if c.Thorough {
		sz = []int{1, 2, 4, 8, 16, 32, 64, 128}
	}
	e01[emulated.BLS12377Fr](c, "BLS12377Fr", sz)
	e01[emulated.BN254Fr](c, "BN254Fr", []int{16, 128})
	e01[emulated.BLS12381Fp](c, "BLS12381Fp", []int{32, 128})
	if c.Thorough {
		e01[emulated.Secp256k1Fp](c, "Secp256k1Fp", sz)
		e01[emulated.BLS12377Fp](c, "BLS12377Fp", []int{8, 64, 128})
		e01[emulated.Goldilocks](c, "Goldilocks", []int{8, 64})
	}
}
