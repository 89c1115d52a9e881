//go:build go1.23

package nchecks

import (
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/common/utils"
	"verif/engine/gosym"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() { Registry["U01"] = checkU01 }

func isDigit(b *sym.B, c *sym.Term) *sym.Term {
	return b.And(b.ILe(b.I('0'), c), b.ILe(c, b.I('9')))
}

func isHexDigit(b *sym.B, c *sym.Term) *sym.Term {
	return b.Or(isDigit(b, c), b.And(b.ILe(b.I('a'), c), b.ILe(c, b.I('f'))), b.And(b.ILe(b.I('A'), c), b.ILe(c, b.I('F'))))
}

// hexVal: the digit's value, in 0..15 whatever c is.
func hexVal(b *sym.B, c *sym.Term) *sym.Term {
	v := b.Ite(b.ILe(c, b.I('9')), b.AddK(c, -'0'), b.Ite(b.ILe(c, b.I('F')), b.AddK(c, 10-'A'), b.AddK(c, 10-'a')))
	return b.Low(v, 4)
}

// decode: the bytes written by hex digits, an odd count being padded on the left.
func decode(b *sym.B, cs []*sym.Term) []*sym.Term {
	var vs []*sym.Term
	if len(cs)%2 == 1 {
		vs = append(vs, b.I(0))
	}
	for _, c := range cs {
		vs = append(vs, hexVal(b, c))
	}
	var r []*sym.Term
	for i := 0; i < len(vs); i += 2 {
		r = append(r, b.Add(b.Scale(vs[i], big.NewInt(16)), vs[i+1]))
	}
	return r
}

// hexString: n characters, hex digits apart from an optional 0x/0X; returns the characters, the assumption and
// whether there is a prefix.
func hexString(m *gosym.M, name string, n int) (cs, asm []*sym.Term, pre *sym.Term) {
	b := m.B
	cs = byteVars(m, name, n)
	pre = b.F
	for i, c := range cs {
		d := isHexDigit(b, c)
		if i == 1 {
			pre = b.And(b.IEq(cs[0], b.I('0')), b.Or(b.IEq(c, b.I('x')), b.IEq(c, b.I('X'))))
			d = b.Or(d, pre)
		}
		asm = append(asm, d)
	}
	return
}

func beTerm(b *sym.B, bs []*sym.Term) *sym.Term {
	ks := make([]*big.Int, len(bs))
	for i := range bs {
		ks[i] = b.Pow2(8 * (len(bs) - 1 - i))
	}
	return b.Lin(bs, ks, nil)
}

func checkU01(c *hk.Check) {
	p := load(c, pUtils, pGeth+"common", pGeth+"common/hexutil")
	if p == nil {
		return
	}
	c.Bound("Bytes2Hex and Bytes2Hex0x: byte strings of 0..33 bytes and 64, every content; Hex2Bytes and Hex2BigInt: strings of 0..12, 40..43 and 63..67 characters, every choice of digits, case and 0x/0X prefix; Pad20Bytes, Pad32Bytes, MiMCBlockPad0: every length up to two more than the target; IsValidTxHash: every string of 0..5 and 62..68 bytes")
	c.OutOf("Hex2Bytes of strings with characters that are not hex digits (the code documents that the error is ignored); MiMCBlockPad0 of data longer than the block; other lengths")
	lens := []int{64}
	for i := 0; i <= 33; i++ {
		lens = append(lens, i)
	}
	for _, l := range lens {
		l := l
		for _, pre := range []int{0, 2} {
			pre := pre
			fn := "Bytes2Hex"
			if pre == 2 {
				fn = "Bytes2Hex0x"
			}
			in := func(m *gosym.M) []*sym.Term { return byteVars(m, "d", l) }
			run(c, p, N{Name: fmt.Sprintf("%s/%d", fn, l), Pkg: pUtils, Fn: fn, Samples: 2,
				Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) { return []gosym.Val{m.MkBytes(in(m), 0)}, nil },
				Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
					if pan {
						return m.B.F
					}
					out := ints(m, v[0])
					if len(out) != 2*l+pre {
						return m.B.F
					}
					var ts []*sym.Term
					if pre == 2 {
						ts = append(ts, m.B.IEq(out[0], m.B.I('0')), m.B.IEq(out[1], m.B.I('x')))
						out = out[2:]
					}
					for _, ch := range out {
						ts = append(ts, isHexDigit(m.B, ch))
					}
					return m.B.And(append(ts, eqInts(m, decode(m.B, out), in(m)))...)
				},
				Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
					d := realBytes(ev, in(m))
					if pre == 2 {
						return []any{utils.Bytes2Hex0x(d)}
					}
					return []any{utils.Bytes2Hex(d)}
				},
			})
		}
	}
	for _, l := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 40, 41, 42, 43, 63, 64, 65, 66, 67} {
		l := l
		for _, fn := range []string{"Hex2Bytes", "Hex2BigInt"} {
			fn := fn
			str := func(m *gosym.M) (c, a []*sym.Term, p *sym.Term) { return hexString(m, "s", l) }
			run(c, p, N{Name: fmt.Sprintf("%s/%d", fn, l), Pkg: pUtils, Fn: fn, Samples: 3,
				Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
					ch, a, _ := str(m)
					return []gosym.Val{gosym.Str{B: ch}}, a
				},
				Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
					b := m.B
					if pan {
						return b.F
					}
					ch, _, pre := str(m)
					var tail []*sym.Term
					if l >= 2 {
						tail = decode(b, ch[2:])
					}
					if fn == "Hex2Bytes" {
						out := ints(m, v[0])
						return b.And(under(b, pre, eqInts(m, out, tail)), under(b, b.Not(pre), eqInts(m, out, decode(b, ch))))
					}
					x := toInt(m, v[0])
					return b.And(under(b, pre, eqBE(m, x, tail)), under(b, b.Not(pre), eqBE(m, x, decode(b, ch))))
				},
				Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
					ch, _, _ := str(m)
					s := string(realBytes(ev, ch))
					if fn == "Hex2Bytes" {
						return []any{utils.Hex2Bytes(s)}
					}
					return []any{utils.Hex2BigInt(s)}
				},
			})
		}
	}
	pad := func(name string, l, size int, args func(m *gosym.M, d gosym.Val) []gosym.Val, real func(d []byte) []byte) {
		run(c, p, N{Name: fmt.Sprintf("%s/%d", name, l), Pkg: pUtils, Fn: name, Samples: 2,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) { return args(m, m.MkBytes(byteVars(m, "d", l), 3)), nil },
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				if l > size {
					return m.B.Bool(pan)
				}
				if pan {
					return m.B.F
				}
				want := make([]*sym.Term, size-l)
				for i := range want {
					want[i] = m.B.I(0)
				}
				return eqInts(m, ints(m, v[0]), append(want, byteVars(m, "d", l)...))
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				return []any{real(realBytes(ev, byteVars(m, "d", l)))}
			},
		})
	}
	id := func(m *gosym.M, d gosym.Val) []gosym.Val { return []gosym.Val{d} }
	for l := 0; l <= 34; l++ {
		if l <= 22 {
			pad("Pad20Bytes", l, 20, id, utils.Pad20Bytes)
		}
		pad("Pad32Bytes", l, 32, id, utils.Pad32Bytes)
		if l <= 32 {
			pad("MiMCBlockPad0", l, 32, func(m *gosym.M, d gosym.Val) []gosym.Val { return []gosym.Val{d, m.B.I(32)} }, func(d []byte) []byte { return utils.MiMCBlockPad0(d, 32) })
		}
	}
	for _, l := range []int{0, 1, 2, 3, 4, 5, 62, 63, 64, 65, 66, 67, 68} {
		l := l
		run(c, p, N{Name: fmt.Sprintf("IsValidTxHash/%d", l), Pkg: pUtils, Fn: "IsValidTxHash", Samples: 3,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				return []gosym.Val{gosym.Str{B: byteVars(m, "s", l)}}, nil
			},
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				b := m.B
				if pan {
					return b.F
				}
				s := byteVars(m, "s", l)
				var ok *sym.Term
				switch l {
				case 64, 66:
					var ts []*sym.Term
					for _, ch := range s[l-64:] {
						ts = append(ts, isHexDigit(b, ch))
					}
					if l == 66 {
						ts = append(ts, b.IEq(s[0], b.I('0')), b.Or(b.IEq(s[1], b.I('x')), b.IEq(s[1], b.I('X'))))
					}
					ok = b.And(ts...)
				default:
					ok = b.F
				}
				return b.Iff(v[0].(*sym.Term), ok)
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				return []any{utils.IsValidTxHash(string(realBytes(ev, byteVars(m, "s", l))))}
			},
		})
	}
}
