package checks

import (
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/sha256"
	sha512 "github.com/brevis-network/zk-utils/circuits/gadgets/sha512"
	"github.com/consensys/gnark/frontend"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() {
	Registry["H01"] = func(c *hk.Check) {
		checkSha(c, sha2cfg{32, 64, []int{6, 11, 25}, []int{2, 13, 22}, []int{7, 18, 3}, []int{17, 19, 10}})
	}
	Registry["H02"] = func(c *hk.Check) {
		checkSha(c, sha2cfg{64, 80, []int{14, 18, 41}, []int{28, 34, 39}, []int{1, 8, 7}, []int{19, 61, 6}})
	}
}

// FIPS 180-4 parameters
type sha2cfg struct {
	w, rounds      int
	S1, S0, s0, s1 []int
}

// the first n primes
func primes(n int) []int64 {
	var ps []int64
	for x := int64(2); len(ps) < n; x++ {
		ok := true
		for _, p := range ps {
			if x%p == 0 {
				ok = false
			}
		}
		if ok {
			ps = append(ps, x)
		}
	}
	return ps
}

// first w bits of the fractional part of the k-th root of p
func rootFrac(p int64, k, w int) *big.Int {
	// floor(p^(1/k) * 2^w) by bisection
	n := new(big.Int).Lsh(big.NewInt(p), uint(k*w))
	lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(p), uint(w))
	for {
		d := new(big.Int).Sub(hi, lo)
		if d.Cmp(big.NewInt(1)) <= 0 {
			break
		}
		m := new(big.Int).Rsh(new(big.Int).Add(lo, hi), 1)
		if new(big.Int).Exp(m, big.NewInt(int64(k)), nil).Cmp(n) <= 0 {
			lo = m
		} else {
			hi = m
		}
	}
	return lo.Mod(lo, big2(w))
}

func refSha2(b *sym.B, cfg sha2cfg, msg []*T, layers *[]hk.Layer) []*T {
	w := cfg.w
	chunk := w * 2 // bytes per block
	// padding
	m := append([]*T{}, msg...)
	m = append(m, b.I(0x80))
	for (len(m)+w/4)%chunk != 0 {
		m = append(m, b.I(0))
	}
	l := new(big.Int).Mul(big.NewInt(int64(len(msg))), big.NewInt(8))
	lb := l.FillBytes(make([]byte, w/4))
	for _, x := range lb {
		m = append(m, b.I(int64(x)))
	}
	bitsOf := func(t *T) []*T {
		out := make([]*T, w)
		for i := range out {
			out[i] = b.Bit(t, i)
		}
		return out
	}
	rot := func(x []*T, n int) []*T {
		out := make([]*T, w)
		for i := range out {
			out[i] = x[(i+n)%w]
		}
		return out
	}
	shr := func(x []*T, n int) []*T {
		out := make([]*T, w)
		for i := range out {
			out[i] = b.F
			if i+n < w {
				out[i] = x[i+n]
			}
		}
		return out
	}
	xor3 := func(x, y, z []*T) *T {
		out := make([]*T, w)
		for i := range out {
			out[i] = b.Xor(x[i], y[i], z[i])
		}
		return b.FromBits(out)
	}
	add := func(ts ...*T) *T { return b.Low(b.Sum(ts...), w) }
	ps := primes(80)
	var H [8]*T
	for i := range H {
		H[i] = b.Const(rootFrac(ps[i], 2, w))
	}
	lay := func(name string, words ...*T) {
		if layers != nil {
			*layers = append(*layers, hk.Layer{Name: name, Words: words, W: w})
		}
	}
	for o := 0; o < len(m); o += chunk {
		W := make([]*T, cfg.rounds)
		for i := 0; i < 16; i++ {
			W[i] = beVal(b, m[o+i*w/8:o+(i+1)*w/8], 8)
		}
		for i := 16; i < cfg.rounds; i++ {
			x, y := bitsOf(W[i-15]), bitsOf(W[i-2])
			g0 := xor3(rot(x, cfg.s0[0]), rot(x, cfg.s0[1]), shr(x, cfg.s0[2]))
			g1 := xor3(rot(y, cfg.s1[0]), rot(y, cfg.s1[1]), shr(y, cfg.s1[2]))
			W[i] = add(g1, W[i-7], g0, W[i-16])
			lay(fmt.Sprintf("W%d.%d", o/chunk, i), W[i])
		}
		s := H
		for i := 0; i < cfg.rounds; i++ {
			e, a := bitsOf(s[4]), bitsOf(s[0])
			f, g, bb, cc := bitsOf(s[5]), bitsOf(s[6]), bitsOf(s[1]), bitsOf(s[2])
			ch, maj := make([]*T, w), make([]*T, w)
			for j := range ch {
				ch[j] = b.Xor(b.And(e[j], f[j]), b.And(b.Not(e[j]), g[j]))
				maj[j] = b.Xor(b.And(a[j], bb[j]), b.And(a[j], cc[j]), b.And(bb[j], cc[j]))
			}
			S1 := xor3(rot(e, cfg.S1[0]), rot(e, cfg.S1[1]), rot(e, cfg.S1[2]))
			S0 := xor3(rot(a, cfg.S0[0]), rot(a, cfg.S0[1]), rot(a, cfg.S0[2]))
			k := b.Const(rootFrac(ps[i], 3, w))
			T1 := add(s[7], S1, b.FromBits(ch), k, W[i])
			T2 := add(S0, b.FromBits(maj))
			ne, na := add(s[3], T1), add(T1, T2)

			lay(fmt.Sprintf("T%d.%d", o/chunk, i), T1, T2)
			lay(fmt.Sprintf("R%d.%d", o/chunk, i), ne, na)
			s = [8]*T{na, s[0], s[1], s[2], ne, s[4], s[5], s[6]}
		}
		for i := range H {
			H[i] = add(H[i], s[i])
		}
		lay(fmt.Sprintf("H%d", o/chunk), append([]*T{}, H[:]...)...)
	}
	var out []*T
	for i := range H {
		hb := bitsOf(H[i])
		for j := w/8 - 1; j >= 0; j-- {
			out = append(out, b.FromBits(hb[8*j:8*j+8]))
		}
	}
	return out
}

func checkSha(c *hk.Check, cfg sha2cfg) {
	chunk := cfg.w * 2
	pad := chunk - cfg.w/4 // last length that fits one block is pad-1
	lens := []int{0, 1, cfg.w, pad - 1, pad, chunk - 1, chunk, chunk + cfg.w + 5, chunk + pad - 1, chunk + pad, 2 * chunk}
	if cfg.w == 64 && !c.Thorough {
		lens = []int{0, 1, pad - 1, pad, chunk - 1, chunk, chunk + cfg.w + 5}
	}
	if c.Thorough {
		lens = nil
		for i := 0; i <= 2*chunk+1; i++ {
			lens = append(lens, i)
		}
	}
	c.Bound("message lengths (bytes) %v; every message content; wires range over the whole BN254 field (a wire above 255 must be rejected); Write split into one call, byte + rest, halves, block-boundary and per-byte calls for the shortest; Sum called twice", lens)
	c.OutOf("hash value of messages whose last block holds fewer than %d but at least one message byte (only the acceptance of their wires is checked)", cfg.w/2)
	c.OutOf("longer messages (the per-block compression and buffering are the same code)")
	for li, n := range lens {
		splits := map[string][]int{"one": {n}}
		switch li % 4 {
		case 0:
			if n > 1 {
				splits["head"] = []int{1, n - 1}
			}
		case 1:
			if n > 1 {
				splits["halves"] = []int{n / 2, 0, n - n/2}
			}
		case 2:
			if n >= chunk {
				splits["block"] = []int{chunk - 1, 1, n - chunk}
			}
		case 3:
			if n > 3 {
				splits["tail"] = []int{n - 3, 2, 1}
			}
		}
		if n > chunk && (!c.Thorough || li%8 == 0) {
			splits["straddle"] = []int{5, chunk - 3, n - chunk - 2}
			if n-chunk-2 < 0 {
				splits["straddle"] = []int{5, n - 5}
			}
		}
		if n <= 3 && n > 0 {
			per := make([]int, n)
			for i := range per {
				per[i] = 1
			}
			splits["bytes"] = per
		}
		for sn, sp := range splits {
			n, sp := n, sp
			c.Case(fmt.Sprintf("%s-len%d-%s", c.ID, n, sn), func(k *hk.Case) {
				b := k.B
				b.XorFlat = 0
				b.KeepLow = true
				k.NormFirst = !(n == pad-1 && sn != "one")
				in := bitsVars(b, "m", n, 8)
				var layers []hk.Layer
				spec := refSha2(b, cfg, in, &layers)
				spec = append(append([]*T{}, spec...), spec...)
				run := func(api frontend.API, v []V) []V {
					type hasher interface {
						Write([]V) (int, error)
						Sum() []V
					}
					var h hasher
					if cfg.w == 32 {
						d := sha256.New(api)
						h = &d
					} else {
						d := sha512.New(api)
						h = &d
					}
					for _, s := range sp {
						h.Write(v[:s])
						v = v[s:]
					}
					r := h.Sum()
					return append(append([]V{}, r...), h.Sum()...)
				}
				if n%chunk == 0 || n%chunk >= cfg.w/2 {
					k.EquivG(hk.Gadget{Name: fmt.Sprintf("sum%d", n), In: in, Outs: spec, Run: run}, layers)
				}
				if n <= 3 {
					// arbitrary wires: anything but a byte is rejected
					wide := fieldVars(b, "x", n)
					accept := b.T
					for _, x := range wide {
						accept = b.And(accept, b.ILt(x, b.I(256)))
					}
					k.Gadget(hk.Gadget{Name: fmt.Sprintf("wires%d", n), In: wide, Accept: accept, Outs: make([]*T, len(spec)), Run: run})
				}
			})
		}
	}
}
