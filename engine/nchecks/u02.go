//go:build go1.23

package nchecks

import (
	"fmt"
	"math/big"
	"time"

	"github.com/brevis-network/zk-utils/common/utils"
	"verif/engine/gosym"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() {
	Registry["U02"] = checkU02
	Registry["U07"] = checkU07
}

func uints(ev func(*sym.Term) *big.Int, ts []*sym.Term) []uint {
	r := make([]uint, len(ts))
	for i := range r {
		r[i] = uint(ev(ts[i]).Uint64())
	}
	return r
}

func bits01(m *gosym.M, t *sym.Term, n int) []*sym.Term {
	r := make([]*sym.Term, n)
	for i := range r {
		r[i] = bit01(m, t, i)
	}
	return r
}

func vals(ts []*sym.Term) []gosym.Val {
	r := make([]gosym.Val, len(ts))
	for i := range ts {
		r[i] = ts[i]
	}
	return r
}

func checkU02(c *hk.Check) {
	p := load(c, pUtils, pGeth+"common", pGeth+"common/hexutil")
	if p == nil {
		return
	}
	uintT := gosym.UintType
	c.Bound("DecomposeBits: lengths 1, 8, 16, 32, 64, 128, 160, 248, 253, 256 with every integer of up to 3 bits more; ParseBytes32: every 0..33-byte string with part sizes 128, 248 and 253; Byte32ToFrBits: both halves of every width-respecting pair and one bit beyond; PackBitsToInt: 0..760 bits in steps around multiples of 253; DecodeByteToBinary: every byte; BitsToFrBigInt: every bit string of up to 10 bits under moduli 2, 3, 5, 7, 13, 16, 97, 251 and up to 256 bits under moduli it cannot exceed; Flip, FlipByGroups, Reverse: up to 24 elements, group sizes dividing the length")
	c.OutOf("negative integers; BitsToFrBigInt over 10 bits when the value can exceed the modulus")
	for _, n := range []int{1, 8, 16, 32, 64, 128, 160, 248, 253, 256} {
		n := n
		x := func(m *gosym.M) *sym.Term { return m.B.BitsVar("x", n+3) }
		run(c, p, N{Name: fmt.Sprintf("DecomposeBits/%d", n), Pkg: pUtils, Fn: "DecomposeBits",
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				return []gosym.Val{m.MkBig(x(m)), m.B.I(int64(n))}, nil
			},
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				fits := m.B.ILt(x(m), m.B.Const(m.B.Pow2(n)))
				if pan {
					return m.B.Not(fits)
				}
				return m.B.And(fits, eqInts(m, ints(m, v[0]), bits01(m, x(m), n)))
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any { return []any{utils.DecomposeBits(ev(x(m)), n)} },
		})
	}
	for _, fr := range []int{128, 248, 253} {
		fr := fr
		for l := 0; l <= 33; l++ {
			l := l
			run(c, p, N{Name: fmt.Sprintf("ParseBytes32/%d/%d", fr, l), Pkg: pUtils, Fn: "ParseBytes32", Samples: 2,
				Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
					return []gosym.Val{m.MkBytes(byteVars(m, "d", l), 0), m.B.I(int64(fr))}, nil
				},
				Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
					b := m.B
					if l > 32 || pan {
						return b.Bool(pan && l > 32)
					}
					n := beTerm(b, byteVars(m, "d", l))
					e := m.Elems(v[0])
					lo, hi := toInt(m, e[0]), toInt(m, e[1])
					return b.And(eqBits(m, lo, bits01(m, n, 256)[:fr]), eqBits(m, hi, bits01(m, n, 256)[fr:]))
				},
				Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
					return []any{utils.ParseBytes32(realBytes(ev, byteVars(m, "d", l)), fr)}
				},
			})
		}
		for _, ex := range []int{0, 1} {
			ex := ex
			run(c, p, N{Name: fmt.Sprintf("Byte32ToFrBits/%d+%d", fr, ex), Pkg: pUtils, Fn: "Byte32ToFrBits", Samples: 4,
				Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
					return []gosym.Val{gosym.Agg{m.MkBig(m.B.BitsVar("lo", fr+ex)), m.MkBig(m.B.BitsVar("hi", 256-fr+ex))}, m.B.I(int64(fr))}, nil
				},
				Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
					b := m.B
					lo, hi := b.BitsVar("lo", fr+ex), b.BitsVar("hi", 256-fr+ex)
					fits := b.And(b.ILt(lo, b.Const(b.Pow2(fr))), b.ILt(hi, b.Const(b.Pow2(256-fr))))
					if pan {
						return b.Not(fits)
					}
					return b.And(fits, eqInts(m, ints(m, v[0]), append(bits01(m, lo, fr), bits01(m, hi, 256-fr)...)))
				},
				Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
					return []any{utils.Byte32ToFrBits([2]*big.Int{ev(m.B.BitsVar("lo", fr+ex)), ev(m.B.BitsVar("hi", 256-fr+ex))}, fr)}
				},
			})
		}
	}
	for _, n := range []int{0, 1, 2, 252, 253, 254, 256, 505, 506, 507, 760} {
		n := n
		in := func(m *gosym.M) []*sym.Term {
			r := make([]*sym.Term, n)
			for i := range r {
				r[i] = m.B.BitsVar(fmt.Sprint("b", i), 1)
			}
			return r
		}
		run(c, p, N{Name: fmt.Sprintf("PackBitsToInt/%d", n), Pkg: pUtils, Fn: "PackBitsToInt", Samples: 2,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				return []gosym.Val{m.MkSlice(uintT, vals(in(m)))}, nil
			},
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				b := m.B
				if pan {
					return b.F
				}
				out := m.Elems(v[0])
				x := in(m)
				if len(out) != (n+252)/253 {
					return b.F
				}
				var ts []*sym.Term
				for i, o := range out {
					e := (i + 1) * 253
					if e > n {
						e = n
					}
					ts = append(ts, eqBits(m, toInt(m, o), x[i*253:e]))
				}
				return b.And(ts...)
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				return []any{utils.PackBitsToInt(uints(ev, in(m)))}
			},
		})
	}
	run(c, p, N{Name: "DecodeByteToBinary", Pkg: pUtils, Fn: "DecodeByteToBinary",
		Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) { return []gosym.Val{m.B.BitsVar("x", 8)}, nil },
		Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
			if pan {
				return m.B.F
			}
			w := bits01(m, m.B.BitsVar("x", 8), 8)
			for i, j := 0, 7; i < j; i, j = i+1, j-1 {
				w[i], w[j] = w[j], w[i]
			}
			return eqInts(m, ints(m, v[0]), w)
		},
		Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
			return []any{utils.DecodeByteToBinary(byte(ev(m.B.BitsVar("x", 8)).Int64()))}
		},
	})
	type bm struct {
		n   int
		mod *big.Int
	}
	var bms []bm
	for _, q := range []int64{2, 3, 5, 7, 13, 16, 97, 251} {
		for n := 0; n <= 10; n++ {
			bms = append(bms, bm{n, big.NewInt(q)})
		}
	}
	for _, n := range []int{64, 128, 253} {
		bms = append(bms, bm{n, hk.BN254})
	}
	bms = append(bms, bm{256, new(big.Int).Lsh(big.NewInt(1), 256)})
	for _, x := range bms {
		x := x
		in := func(m *gosym.M) []*sym.Term {
			r := make([]*sym.Term, x.n)
			for i := range r {
				r[i] = m.B.BitsVar(fmt.Sprint("b", i), 1)
			}
			return r
		}
		run(c, p, N{Name: fmt.Sprintf("BitsToFrBigInt/%d/mod%s", x.n, x.mod), Pkg: pUtils, Fn: "BitsToFrBigInt", Samples: 2,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				return []gosym.Val{m.MkSlice(uintT, vals(in(m))), m.MkBig(m.B.Const(x.mod))}, nil
			},
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				if pan {
					return m.B.F
				}
				i := in(m)
				ks := make([]*big.Int, len(i))
				for j := range i {
					ks[j] = m.B.Pow2(len(i) - 1 - j)
				}
				return m.B.IEq(toInt(m, v[0]), m.B.Mod(m.B.Lin(i, ks, nil), x.mod))
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				return []any{utils.BitsToFrBigInt(uints(ev, in(m)), x.mod)}
			},
		})
	}
	for _, g := range [][2]int{{0, 1}, {1, 1}, {2, 1}, {3, 1}, {8, 1}, {9, 1}, {24, 1}, {6, 2}, {8, 2}, {24, 8}, {16, 8}, {9, 3}, {12, 4}, {8, 8}, {16, 4}, {20, 4}} {
		n, gs := g[0], g[1]
		in := func(m *gosym.M) []*sym.Term { return byteVars(m, "x", n) }
		want := func(m *gosym.M) []*sym.Term {
			var r []*sym.Term
			for i := n - gs; i >= 0; i -= gs {
				r = append(r, in(m)[i:i+gs]...)
			}
			return r
		}
		for _, fn := range []string{"FlipByGroups", "Flip", "Reverse"} {
			fn := fn
			if fn != "FlipByGroups" && gs != 1 {
				continue
			}
			run(c, p, N{Name: fmt.Sprintf("%s/%d/%d", fn, n, gs), Pkg: pUtils, Fn: fn, Samples: 2,
				Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
					a := []gosym.Val{m.MkSlice(gosym.ByteType, vals(in(m)))}
					if fn == "FlipByGroups" {
						a = append(a, m.B.I(int64(gs)))
					}
					return a, nil
				},
				Observe: func(m *gosym.M, args []gosym.Val, o gosym.Out) []gosym.Val {
					return []gosym.Val{o.Vals[0], args[0]}
				},
				Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
					if pan {
						return m.B.F
					}
					r := eqInts(m, ints(m, v[0]), want(m))
					if fn != "Reverse" { // the argument stays as it was
						r = m.B.And(r, eqInts(m, ints(m, v[1]), in(m)))
					}
					return r
				},
				Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
					d := realBytes(ev, in(m))
					switch fn {
					case "Flip":
						return []any{utils.Flip(d), d}
					case "Reverse":
						return []any{utils.Reverse(d), d}
					}
					return []any{utils.FlipByGroups(d, gs), d}
				},
			})
		}
	}
}

// eqBits: v is the little-endian value of the 0/1 terms.
func eqBits(m *gosym.M, v *sym.Term, bs []*sym.Term) *sym.Term {
	b := m.B
	ts := []*sym.Term{b.ILe(b.I(0), v), b.ILt(v, b.Const(b.Pow2(len(bs))))}
	for i, x := range bs {
		ts = append(ts, b.IEq(bit01(m, v, i), x))
	}
	return b.And(ts...)
}

func checkU07(c *hk.Check) {
	p := load(c, pUtils, pGeth+"common", pGeth+"common/hexutil")
	if p == nil {
		return
	}
	c.Bound("GetStartBlockInfo: every uint64 chain id; Str2BigInt, Str2Int and Str2Uint64: every decimal string of up to 20 digits, and for the first two of up to 19 digits after a sign; TsMilliToTime: every timestamp below 2^63/10^6 ms (year 2262, beyond which a Go time in nanoseconds is not representable); TsSecToTime: every timestamp below 2^62; TsMilli: every time from 1970 to 2262, to the nanosecond")
	c.OutOf("blanks and underscores in number strings, numbers outside the result type; years after 2262")
	checkTime(c, p)
	id := func(m *gosym.M) *sym.Term { return m.B.BitsVar("id", 64) }
	run(c, p, N{Name: "GetStartBlockInfo", Pkg: pUtils, Fn: "GetStartBlockInfo", Samples: 10,
		Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) { return []gosym.Val{id(m)}, nil },
		Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
			b := m.B
			if pan {
				return b.F
			}
			want := b.I(0)
			for k, n := range map[int64]int64{42161: 185536768, 10: 119300224, 97: 41759160, 56: 40077400} {
				want = b.Ite(b.IEq(id(m), b.I(k)), b.I(n), want)
			}
			s := v[0].(gosym.Agg)
			bn := toInt(m, s[0])
			return b.And(b.IEq(bn, want), b.IEq(toInt(m, s[1]), b.Div(bn, big.NewInt(128))), b.IEq(toInt(m, s[2]), id(m)))
		},
		Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
			return []any{utils.GetStartBlockInfo(ev(id(m)).Uint64())}
		},
	})
	for l := 0; l <= 20; l++ {
		l := l
		in := func(m *gosym.M) []*sym.Term {
			r := make([]*sym.Term, l)
			for i := range r {
				r[i] = m.B.AddK(m.B.Var(fmt.Sprint("d", i), big.NewInt(0), big.NewInt(9)), '0')
			}
			return r
		}
		for _, sign := range []string{"", "-", "+"} {
			for _, fn := range []string{"Str2BigInt", "Str2Int", "Str2Uint64"} {
				sign, fn := sign, fn
				if sign != "" && (fn == "Str2Uint64" || l == 0 || l > 19) || l == 0 && fn == "Str2BigInt" {
					continue
				}
				run(c, p, N{Name: fmt.Sprintf("%s/%s%d", fn, sign, l), Pkg: pUtils, Fn: fn, Samples: 3,
					Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
						return []gosym.Val{gosym.Str{B: append(append([]*sym.Term{}, m.MkStr(sign).B...), in(m)...)}}, nil
					},
					Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
						b := m.B
						if pan {
							return b.F
						}
						w := b.I(0)
						for _, ch := range in(m) {
							w = b.Add(b.Scale(w, big.NewInt(10)), b.AddK(ch, -'0'))
						}
						if sign == "-" {
							w = b.Scale(w, big.NewInt(-1))
						}
						eq := b.IEq(toInt(m, v[0]), w)
						h := b.Const(b.Pow2(63))
						switch fn { // "in their type's range"
						case "Str2Int":
							return b.Implies(b.And(b.ILt(w, h), b.ILe(b.Scale(h, big.NewInt(-1)), w)), eq)
						case "Str2Uint64":
							return b.Implies(b.ILt(w, b.Const(b.Pow2(64))), eq)
						}
						return eq
					},
					Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
						s := sign + string(realBytes(ev, in(m)))
						switch fn {
						case "Str2Int":
							return []any{utils.Str2Int(s)}
						case "Str2Uint64":
							return []any{utils.Str2Uint64(s)}
						}
						return []any{utils.Str2BigInt(s)}
					},
				})
			}
		}
	}
}

func checkTime(c *hk.Check, p *gosym.Prog) {
	const off = 62135596800 // seconds from year 1 to 1970
	const giga = 1000000000
	for _, x := range []struct {
		fn   string
		hi   *big.Int
		unit int64
		real func(uint64) time.Time
	}{
		{"TsMilliToTime", new(big.Int).Div(big.NewInt(1<<63-1), big.NewInt(1000000)), 1000000, utils.TsMilliToTime},
		{"TsSecToTime", big.NewInt(1 << 62), giga, utils.TsSecToTime},
	} {
		x := x
		in := func(m *gosym.M) *sym.Term { return m.B.Var("ts", big.NewInt(0), x.hi) }
		run(c, p, N{Name: x.fn, Pkg: pUtils, Fn: x.fn, Samples: 20,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) { return []gosym.Val{in(m)}, nil },
			Observe: func(m *gosym.M, a []gosym.Val, o gosym.Out) []gosym.Val {
				f := m.Elems(o.Vals[0]) // a time without monotonic reading: nanosecond of the second, seconds since year 1
				return []gosym.Val{m.B.AddK(toInt(m, f[1]), -off), f[0]}
			},
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				if pan {
					return m.B.F
				}
				b := m.B
				t := b.Scale(in(m), big.NewInt(x.unit))
				sec := b.Div(t, big.NewInt(giga))
				return b.And(b.IEq(toInt(m, v[0]), sec), b.IEq(toInt(m, v[1]), b.SubRem(t, b.Scale(sec, big.NewInt(giga)))))
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				r := x.real(ev(in(m)).Uint64())
				return []any{r.Unix(), r.Nanosecond()}
			},
		})
	}
	sec := func(m *gosym.M) *sym.Term { return m.B.Var("sec", big.NewInt(0), big.NewInt(9223372035)) }
	nsec := func(m *gosym.M) *sym.Term { return m.B.Var("nsec", big.NewInt(0), big.NewInt(giga-1)) }
	run(c, p, N{Name: "TsMilli", Pkg: pUtils, Fn: "TsMilli", Samples: 20,
		Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
			return []gosym.Val{gosym.Agg{nsec(m), m.B.AddK(sec(m), off), (*gosym.Cell)(nil)}}, nil
		},
		Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
			b := m.B
			if pan {
				return b.F
			}
			d := b.Sub(b.Add(nsec(m), b.Scale(sec(m), big.NewInt(giga))), b.Scale(toInt(m, v[0]), big.NewInt(1000000)))
			return b.And(b.ILe(b.I(0), d), b.ILt(d, b.I(1000000)))
		},
		Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
			return []any{utils.TsMilli(time.Unix(ev(sec(m)).Int64(), ev(nsec(m)).Int64()))}
		},
	})
}
