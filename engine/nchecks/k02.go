//go:build go1.23

package nchecks

import (
	"fmt"
	"go/types"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	ccirc "github.com/brevis-network/zk-utils/common/circuits"
	"verif/engine/checks"
	"verif/engine/gosym"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() {
	Registry["K02"] = checkK02
	Registry["K04"] = checkK04
}

// padded is data followed by pad10*1.
func padded(b *sym.B, data []*sym.Term) []*sym.Term {
	r := append(append([]*sym.Term{}, data...), b.I(1))
	for len(r)%136 != 0 {
		r = append(r, b.I(0))
	}
	if len(data)%136 == 135 {
		r[len(r)-1] = b.I(0x81)
	} else {
		r[len(r)-1] = b.I(0x80)
	}
	return r
}

// lanesOf: the little-endian 64-bit words of the bytes, compared with got.
func eqLanes(m *gosym.M, got []*sym.Term, bs []*sym.Term) *sym.Term {
	b := m.B
	if len(got)*8 != len(bs) {
		return b.F
	}
	var ts []*sym.Term
	for i, g := range got {
		ts = append(ts, b.ILe(b.I(0), g), b.ILt(g, b.Const(b.Pow2(64))))
		for j := 0; j < 8; j++ {
			ts = append(ts, b.IEq(b.Low(b.Div(g, b.Pow2(8*j)), 8), bs[8*i+j]))
		}
	}
	return b.And(ts...)
}

type bytesFn struct {
	pkg, fn string
	real    func(d []byte) any
}

// onBytes runs a function of one byte string for each length and spare capacity.
func onBytes(c *hk.Check, p *gosym.Prog, f bytesFn, lens, caps []int, spec func(m *gosym.M, in []*sym.Term, v gosym.Val, pan bool) *sym.Term) {
	for _, n := range lens {
		for _, sp := range caps {
			n, sp := n, sp
			in := func(m *gosym.M) []*sym.Term { return byteVars(m, "d", n) }
			run(c, p, N{Name: fmt.Sprintf("%s.%s/%d+%d", f.pkg[len(zk):], f.fn, n, sp), Pkg: f.pkg, Fn: f.fn, Samples: 3,
				Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) { return []gosym.Val{m.MkBytes(in(m), sp)}, nil },
				Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
					if pan {
						return spec(m, in(m), nil, true)
					}
					return spec(m, in(m), v[0], false)
				},
				Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
					return []any{f.real(withCap(realBytes(ev, in(m)), sp))}
				},
			})
		}
	}
}

func checkK02(c *hk.Check) {
	checks.CheckK02Circuits(c)
	p := load(c, pKec, pCirc)
	if p == nil {
		return
	}
	c.Bound("Pad101Bytes and Pad101 (both packages): messages of 0, 1, 2, 7, 8, 100, 133..138, 269..274, 407, 408 bytes (thorough: every length 0..300), with and without spare capacity behind the slice, every content; GetRoundIndex: every message of up to 2^55 bytes; GetKeccakRoundForPaddedBytes: 1..14 blocks")
	lens := []int{0, 1, 2, 7, 8, 100, 133, 134, 135, 136, 137, 138, 269, 270, 271, 272, 273, 274, 407, 408}
	if c.Tier == "thorough" {
		lens = nil
		for i := 0; i <= 300; i++ {
			lens = append(lens, i)
		}
		lens = append(lens, 407, 408, 1903, 1904, 1905)
	}
	bytes := func(m *gosym.M, in []*sym.Term, v gosym.Val, pan bool) *sym.Term {
		if pan {
			return m.B.F
		}
		return eqInts(m, ints(m, v), padded(m.B, in))
	}
	words := func(m *gosym.M, in []*sym.Term, v gosym.Val, pan bool) *sym.Term {
		if pan {
			return m.B.F
		}
		return eqLanes(m, ints(m, v), padded(m.B, in))
	}
	onBytes(c, p, bytesFn{pKec, "Pad101Bytes", func(d []byte) any { return keccak.Pad101Bytes(d) }}, lens, []int{0, 40, 300}, bytes)
	onBytes(c, p, bytesFn{pCirc, "Pad101Bytes", func(d []byte) any { return ccirc.Pad101Bytes(d) }}, lens, []int{0, 40, 300}, bytes)
	onBytes(c, p, bytesFn{pKec, "Pad101", func(d []byte) any { return keccak.Pad101(d) }}, lens, []int{0}, words)
	onBytes(c, p, bytesFn{pCirc, "Pad101", func(d []byte) any { return ccirc.Pad101(d) }}, lens, []int{0}, words)
	n := func(m *gosym.M) *sym.Term { return m.B.BitsVar("len", 55) }
	run(c, p, N{Name: "GetRoundIndex", Pkg: pKec, Fn: "GetRoundIndex", Samples: 10,
		Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
			return []gosym.Val{m.B.Scale(n(m), big.NewInt(8))}, nil
		},
		Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
			if pan {
				return m.B.F
			}
			b := m.B
			// the padded message ends in the block with index i: 136 i < n + 1 <= 136 (i + 1)
			at := b.Scale(toInt(m, v[0]), big.NewInt(136))
			return b.And(b.ILe(at, n(m)), b.ILt(n(m), b.AddK(at, 136)))
		},
		Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
			return []any{keccak.GetRoundIndex(int(ev(n(m)).Int64()) * 8)}
		},
	})
	blocks := []int{136, 272, 408, 544, 680, 816, 952, 1088, 1224, 1360, 1496, 1632, 1768, 1904}
	onBytes(c, p, bytesFn{pKec, "GetKeccakRoundForPaddedBytes", func(d []byte) any { return keccak.GetKeccakRoundForPaddedBytes(d) }}, blocks, []int{0},
		func(m *gosym.M, in []*sym.Term, v gosym.Val, pan bool) *sym.Term {
			if pan {
				return m.B.F
			}
			return m.B.IEq(toInt(m, v), m.B.I(int64(len(in)/136-1)))
		})
}

func checkK04(c *hk.Check) {
	checks.CheckK04Circuits(c)
	p := load(c, pKec, pCirc)
	if p == nil {
		return
	}
	c.Bound("Bytes2Uint64, Bytes2Uint64s, Bytes2Bits and Bytes2BlockBits (both packages): 0, 8, 16, 136, 272, 544 bytes and the refused lengths 1, 7, 9, 135, 137, every content; Uint64s2Blocks: 0, 1, 16, 17, 18, 34 and the full number of words, and one word more, which is refused")
	lens := []int{0, 1, 7, 8, 9, 16, 24, 135, 136, 137, 272}
	if c.Tier == "thorough" {
		lens = append(lens, 144, 408, 544, 680)
	}
	refuse := func(ok bool, m *gosym.M, pan bool, f func() *sym.Term) *sym.Term {
		if pan || !ok {
			return m.B.Bool(pan && !ok)
		}
		return f()
	}
	for _, pk := range []struct {
		pkg              string
		u64, u64s, b, bb func(d []byte) any
	}{
		{pKec, func(d []byte) any { return keccak.Bytes2Uint64(d) }, func(d []byte) any { return keccak.Bytes2Uint64s(d) }, func(d []byte) any { return keccak.Bytes2Bits(d) }, func(d []byte) any { return keccak.Bytes2BlockBits(d) }},
		{pCirc, func(d []byte) any { return ccirc.Bytes2Uint64(d) }, func(d []byte) any { return ccirc.Bytes2Uint64s(d) }, func(d []byte) any { return ccirc.Bytes2Bits(d) }, func(d []byte) any { return ccirc.Bytes2BlockBits(d) }},
	} {
		onBytes(c, p, bytesFn{pk.pkg, "Bytes2Uint64", pk.u64}, []int{0, 7, 8, 9}, []int{0, 3}, func(m *gosym.M, in []*sym.Term, v gosym.Val, pan bool) *sym.Term {
			return refuse(len(in) == 8, m, pan, func() *sym.Term { return eqLanes(m, []*sym.Term{toInt(m, v)}, in) })
		})
		onBytes(c, p, bytesFn{pk.pkg, "Bytes2Uint64s", pk.u64s}, lens, []int{0}, func(m *gosym.M, in []*sym.Term, v gosym.Val, pan bool) *sym.Term {
			return refuse(len(in)%8 == 0, m, pan, func() *sym.Term { return eqLanes(m, ints(m, v), in) })
		})
		bits := func(block int) func(m *gosym.M, in []*sym.Term, v gosym.Val, pan bool) *sym.Term {
			return func(m *gosym.M, in []*sym.Term, v gosym.Val, pan bool) *sym.Term {
				return refuse(len(in)%block == 0, m, pan, func() *sym.Term {
					var want []*sym.Term
					for _, x := range in {
						want = append(want, bits01(m, x, 8)...)
					}
					var got []*sym.Term
					if !isNil(v) {
						got = ints(m, v)
					}
					return eqInts(m, got, want)
				})
			}
		}
		onBytes(c, p, bytesFn{pk.pkg, "Bytes2Bits", pk.b}, lens, []int{0}, bits(8))
		onBytes(c, p, bytesFn{pk.pkg, "Bytes2BlockBits", pk.bb}, lens, []int{0}, bits(136))
	}
	max := keccak.MAX_ROUNDS * 17
	for _, n := range []int{0, 1, 16, 17, 18, 34, max, max + 1} {
		n := n
		in := func(m *gosym.M) []*sym.Term {
			r := make([]*sym.Term, n)
			for i := range r {
				r[i] = m.B.BitsVar(fmt.Sprint("w", i), 64)
			}
			return r
		}
		run(c, p, N{Name: fmt.Sprintf("Uint64s2Blocks/%d", n), Pkg: pKec, Fn: "Uint64s2Blocks", Samples: 3,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				var vs []gosym.Val
				for _, t := range in(m) {
					vs = append(vs, t)
				}
				return []gosym.Val{m.MkSlice(uint64T, vs)}, nil
			},
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				return refuse(n <= max, m, pan, func() *sym.Term {
					var got []*sym.Term
					for _, r := range m.Elems(v[0]) {
						got = append(got, ints(m, r)...)
					}
					want := in(m)
					for len(want) < max {
						want = append(want, m.B.I(0))
					}
					return eqInts(m, got, want)
				})
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				var ws []uint64
				for _, t := range in(m) {
					ws = append(ws, ev(t).Uint64())
				}
				return []any{keccak.Uint64s2Blocks(ws)}
			},
		})
	}
}

var uint64T = types.Typ[types.Uint64]
