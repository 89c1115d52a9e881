//go:build go1.23

package nchecks

import (
	"fmt"
	"go/types"
	"math/big"

	fsmt "github.com/brevis-network/zk-utils/circuits/fabric/smt"
	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	groth16_bn254 "github.com/consensys/gnark/backend/groth16/bn254"
	"verif/engine/gosym"
	"verif/engine/hk"
	"verif/engine/sym"
	"verif/engine/xt/go/ssa"
)

func init() { Registry["U04"] = checkU04 }

// hex0x: "0x" and n hex digits (any case), and the assumption that they are digits.
func hex0x(m *gosym.M, name string, n int) (cs, asm []*sym.Term) {
	cs = []*sym.Term{m.B.I('0'), m.B.I('x')}
	for _, c := range byteVars(m, name, n) {
		cs = append(cs, c)
		asm = append(asm, isHexDigit(m.B, c))
	}
	return
}

func word(m *gosym.M, bs []*sym.Term) []*sym.Term { // left-padded to 32 bytes, keeping the last 32
	for len(bs) < 32 {
		bs = append([]*sym.Term{m.B.I(0)}, bs...)
	}
	return bs[len(bs)-32:]
}

func checkU04(c *hk.Check) {
	p := load(c, pUtils, pProof, pSmt, pCirc, pGeth+"common", pGeth+"common/hexutil")
	if p == nil {
		return
	}
	c.Bound("EncodeABI: the eight coordinates written by 0, 1, 2, 10, 63 or 64 hex digits after 0x, the three hashes by 0, 10 or 64, every choice of digits and case, and every uint64 block number; OnChainProof, BeaconProof and the SMTUpdateProof getters: the same strings; ExportProof: every value of every coordinate below 2^253; NewHash: every 32 bytes, and every other length up to 40")
	c.OutOf("ExportProof of values between 2^253 and the field's modulus; the conversion out of Montgomery form (fp.Element.BigInt of gnark-crypto is replaced by the value itself); coordinates of more than 32 bytes (Pad32Bytes, property U01)")
	g16 := p.Type(pProof, "Groth16Proof")
	coords := func(m *gosym.M, n int) (gosym.Agg, [][]*sym.Term, []*sym.Term) {
		var all [][]*sym.Term
		var asm []*sym.Term
		var s []gosym.Val
		for i := 0; i < 12; i++ {
			cs, a := hex0x(m, fmt.Sprintf("p%d_", i), n)
			all, asm, s = append(all, cs), append(asm, a...), append(s, gosym.Str{B: cs})
		}
		return m.MkStruct(g16, map[string]gosym.Val{
			"A": gosym.Agg{s[0], s[1]}, "B": gosym.Agg{gosym.Agg{s[2], s[3]}, gosym.Agg{s[4], s[5]}}, "C": gosym.Agg{s[6], s[7]},
			"Commitment": gosym.Agg{s[8], s[9]}, "CommitmentPok": gosym.Agg{s[10], s[11]},
		}), all, asm
	}
	text := func(ev func(*sym.Term) *big.Int, cs []*sym.Term) string { return string(realBytes(ev, cs)) }
	realCoords := func(m *gosym.M, ev func(*sym.Term) *big.Int, n int) proof.Groth16Proof {
		_, cs, _ := coords(m, n)
		s := make([]string, 12)
		for i := range s {
			s[i] = text(ev, cs[i])
		}
		return proof.Groth16Proof{A: [2]string{s[0], s[1]}, B: [2][2]string{{s[2], s[3]}, {s[4], s[5]}}, C: [2]string{s[6], s[7]},
			Commitment: [2]string{s[8], s[9]}, CommitmentPok: [2]string{s[10], s[11]}}
	}
	for _, x := range [][2]int{{64, 64}, {63, 64}, {0, 64}, {1, 10}, {2, 0}, {10, 64}} {
		x := x
		hs := func(m *gosym.M) (h [3][]*sym.Term, asm []*sym.Term) {
			for i := range h {
				var a []*sym.Term
				h[i], a = hex0x(m, fmt.Sprintf("h%d_", i), x[1])
				asm = append(asm, a...)
			}
			return
		}
		num := func(m *gosym.M, i int) *sym.Term { return m.B.BitsVar(fmt.Sprint("n", i), 64) }
		t := p.Type(pProof, "ChunkProof")
		run(c, p, N{Name: fmt.Sprintf("EncodeABI/%d/%d", x[0], x[1]), Pkg: pProof, Fn: "*ChunkProof.EncodeABI", Samples: 3,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				pr, _, a := coords(m, x[0])
				h, a2 := hs(m)
				return []gosym.Val{m.MkPtr(t, m.MkStruct(t, map[string]gosym.Val{
					"ChunkRoot": gosym.Str{B: h[0]}, "PrevHash": gosym.Str{B: h[1]}, "EndHash": gosym.Str{B: h[2]},
					"StartBlockNum": num(m, 0), "EndBlockNum": num(m, 1), "Proof": pr}))}, append(a, a2...)
			},
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				b := m.B
				if pan {
					return b.F
				}
				var want []*sym.Term
				_, cs, _ := coords(m, x[0])
				h, _ := hs(m)
				for _, s := range cs[:8] {
					want = append(want, word(m, decode(b, s[2:]))...)
				}
				want = append(want, word(m, nil)...)
				want = append(want, word(m, nil)...)
				for _, s := range h {
					w := word(m, decode(b, s[2:]))
					want = append(want, word(m, w[:16])...)
					want = append(want, word(m, w[16:])...)
				}
				for i := 0; i < 2; i++ {
					var w []*sym.Term
					for j := 7; j >= 0; j-- {
						w = append(w, b.Low(b.Div(num(m, i), b.Pow2(8*j)), 8))
					}
					want = append(want, word(m, w)...)
				}
				return eqInts(m, ints(m, v[0]), want)
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				h, _ := hs(m)
				q := &proof.ChunkProof{ChunkRoot: text(ev, h[0]), PrevHash: text(ev, h[1]), EndHash: text(ev, h[2]),
					StartBlockNum: ev(num(m, 0)).Uint64(), EndBlockNum: ev(num(m, 1)).Uint64(), Proof: realCoords(m, ev, x[0])}
				return []any{q.EncodeABI()}
			},
		})
		for _, fn := range []string{"OnChainProof", "BeaconProof"} {
			fn := fn
			run(c, p, N{Name: fmt.Sprintf("%s/%d", fn, x[0]), Pkg: pProof, Fn: "Groth16Proof." + fn, Samples: 3,
				Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
					pr, _, a := coords(m, x[0])
					return []gosym.Val{pr}, a
				},
				Observe: func(m *gosym.M, args []gosym.Val, o gosym.Out) []gosym.Val {
					var r []gosym.Val
					var walk func(v gosym.Val)
					walk = func(v gosym.Val) {
						if a, ok := v.(gosym.Agg); ok {
							for _, y := range a {
								walk(y)
							}
							return
						}
						r = append(r, m.MkBig(m.BigOf(v)))
					}
					walk(o.Vals[0])
					return r
				},
				Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
					b := m.B
					if pan || len(v) != 10 {
						return b.F
					}
					_, cs, _ := coords(m, x[0])
					var ts []*sym.Term
					for i, s := range cs[:10] {
						ts = append(ts, eqBE(m, toInt(m, v[i]), decode(b, s[2:])))
					}
					return b.And(ts...)
				},
				Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
					q := realCoords(m, ev, x[0])
					e := q.OnChainProof()
					if fn == "BeaconProof" {
						e = q.BeaconProof()
					}
					return []any{e.A[0], e.A[1], e.B[0][0], e.B[0][1], e.B[1][0], e.B[1][1], e.C[0], e.C[1], e.Commitment[0], e.Commitment[1]}
				},
			})
		}
	}
	st := p.Type(pProof, "SMTUpdateProof")
	for i, f := range []string{"OldSmtRoot", "NewSmtRoot", "EndBlockHash", "NextChunkMerkleRoot", "CommitmentPub"} {
		i, f := i, f
		flds := []string{"OldSmtRoot", "NewSmtRoot", "EndBlockHash", "NextChunkMerkleRoot", "CommitmentPub"}
		s := func(m *gosym.M, j int) ([]*sym.Term, []*sym.Term) { return hex0x(m, fmt.Sprintf("s%d_", j), 64) }
		run(c, p, N{Name: "Get" + f, Pkg: pProof, Fn: "*SMTUpdateProof.Get" + f, Samples: 3,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				v := map[string]gosym.Val{}
				var asm []*sym.Term
				for j, g := range flds {
					cs, a := s(m, j)
					v[g] = gosym.Str{B: cs}
					asm = append(asm, a...)
				}
				return []gosym.Val{m.MkPtr(st, m.MkStruct(st, v))}, asm
			},
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				if pan {
					return m.B.F
				}
				cs, _ := s(m, i)
				return eqInts(m, ints(m, v[0]), decode(m.B, cs[2:]))
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				var t [5]string
				for j := range t {
					cs, _ := s(m, j)
					t[j] = text(ev, cs)
				}
				q := &proof.SMTUpdateProof{OldSmtRoot: t[0], NewSmtRoot: t[1], EndBlockHash: t[2], NextChunkMerkleRoot: t[3], CommitmentPub: t[4]}
				return []any{[]func() [32]byte{q.GetOldSmtRoot, q.GetNewSmtRoot, q.GetEndBlockHash, q.GetNextChunkMerkleRoot, q.GetCommitmentPub}[i]()}
			},
		})
	}
	for l := 0; l <= 40; l++ {
		l := l
		in := func(m *gosym.M) []*sym.Term { return byteVars(m, "b", l) }
		run(c, p, N{Name: fmt.Sprintf("NewHash/%d", l), Pkg: pSmt, Fn: "NewHash", Samples: 2,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) { return []gosym.Val{m.MkBytes(in(m), 0)}, nil },
			Observe: func(m *gosym.M, args []gosym.Val, o gosym.Out) []gosym.Val {
				a := o.Vals[0].(gosym.Agg)
				return []gosym.Val{a[0].(gosym.Iface).V, a[1].(gosym.Iface).V}
			},
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				b := m.B
				if l != 32 {
					return b.Bool(pan)
				}
				if pan {
					return b.F
				}
				x := in(m)
				return b.And(eqBE(m, toInt(m, v[0]), x[:16]), eqBE(m, toInt(m, v[1]), x[16:]))
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				r := fsmt.NewHash(realBytes(ev, in(m)))
				return []any{r[0], r[1]}
			},
		})
	}
	checkExport(c, p)
}

const pFp = "github.com/consensys/gnark-crypto/ecc/bn254/fp"

func checkExport(c *hk.Check, p *gosym.Prog) {
	fn, err := p.Func(pUtils, "ExportProof")
	if err != nil {
		c.Err("ExportProof: %v", err)
		return
	}
	c.Case("ExportProof", func(k *hk.Case) {
		runFn(k, p, fn, exportN(fn))
	})
}

func exportN(fn *ssa.Function) N {
	limb := func(m *gosym.M, i, j int) *sym.Term {
		w := 64
		if j == 3 {
			w = 61
		}
		return m.B.BitsVar(fmt.Sprintf("c%d_%d", i, j), w)
	}
	val := func(m *gosym.M, i int) *sym.Term {
		b := m.B
		return b.Lin([]*sym.Term{limb(m, i, 0), limb(m, i, 1), limb(m, i, 2), limb(m, i, 3)}, []*big.Int{b.Pow2(0), b.Pow2(64), b.Pow2(128), b.Pow2(192)}, nil)
	}
	return N{Name: "ExportProof", Pkg: pUtils, Fn: "ExportProof", Samples: 4,
		Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
			m.Stubs["(*"+pFp+".Element).BigInt"] = bigIntStub
			m.Stubs["("+pFp+".Element).BigInt"] = bigIntStub
			var pt types.Type // *groth16_bn254.Proof, from the type assertion in the code
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if t, ok := in.(*ssa.TypeAssert); ok {
						pt = t.AssertedType
					}
				}
			}
			st := pt.(*types.Pointer).Elem()
			n := 0
			el := func() gosym.Val {
				a := gosym.Agg{limb(m, n, 0), limb(m, n, 1), limb(m, n, 2), limb(m, n, 3)}
				n++
				return a
			}
			g1 := func() gosym.Val { return gosym.Agg{el(), el()} }
			g2 := func() gosym.Val { return gosym.Agg{gosym.Agg{el(), el()}, gosym.Agg{el(), el()}} }
			f := map[string]gosym.Val{}
			f["Ar"], f["Bs"], f["Krs"] = g1(), g2(), g1()
			var ct types.Type
			for i := 0; i < st.Underlying().(*types.Struct).NumFields(); i++ {
				if x := st.Underlying().(*types.Struct).Field(i); x.Name() == "Commitments" {
					ct = x.Type().Underlying().(*types.Slice).Elem()
				}
			}
			f["Commitments"] = m.MkSlice(ct, []gosym.Val{g1()})
			f["CommitmentPok"] = g1()
			return []gosym.Val{gosym.Iface{T: pt, V: m.MkPtr(st, m.MkStruct(st, f))}}, nil
		},
		Observe: func(m *gosym.M, args []gosym.Val, o gosym.Out) []gosym.Val {
			var r []gosym.Val
			var walk func(v gosym.Val)
			walk = func(v gosym.Val) {
				switch a := v.(type) {
				case gosym.Agg:
					for _, y := range a {
						walk(y)
					}
				default:
					r = append(r, m.MkBig(m.BigOf(v)))
				}
			}
			for _, v := range o.Vals {
				walk(v)
			}
			return r
		},
		Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
			if pan || len(v) != 12 {
				return m.B.F
			}
			// contract order: the imaginary part (A1, laid out second in memory) comes first
			var ts []*sym.Term
			for i, j := range []int{0, 1, 3, 2, 5, 4, 6, 7, 8, 9, 10, 11} {
				ts = append(ts, m.B.IEq(toInt(m, v[i]), val(m, j)))
			}
			return m.B.And(ts...)
		},
		Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
			e := make([]fp.Element, 12)
			for i := range e {
				e[i].SetBigInt(ev(val(m, i)))
			}
			g1 := func(i int) bn254.G1Affine { return bn254.G1Affine{X: e[i], Y: e[i+1]} }
			q := &groth16_bn254.Proof{Ar: g1(0), Krs: g1(6), Commitments: []bn254.G1Affine{g1(8)}, CommitmentPok: g1(10)}
			q.Bs.X.A0, q.Bs.X.A1, q.Bs.Y.A0, q.Bs.Y.A1 = e[2], e[3], e[4], e[5]
			a, b, c, d, f := utils.ExportProof(q)
			return []any{a[0], a[1], b[0][0], b[0][1], b[1][0], b[1][1], c[0], c[1], d[0], d[1], f[0], f[1]}
		},
	}
}

// bigIntStub: an element's limbs are taken to spell its value.
func bigIntStub(m *gosym.M, c *gosym.CallCtx) []gosym.Out {
	b := m.B
	e := c.Args[0]
	if cell, ok := e.(*gosym.Cell); ok {
		e = m.Load(cell)
	}
	var ts []*sym.Term
	var ks []*big.Int
	for i, l := range e.(gosym.Agg) {
		ts, ks = append(ts, l.(*sym.Term)), append(ks, b.Pow2(64*i))
	}
	return m.SetBig(c.Args[1], b.Lin(ts, ks, nil))
}
