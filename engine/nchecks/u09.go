//go:build go1.23

package nchecks

import (
	"bytes"
	"fmt"
	"go/types"
	"hash"
	"math/big"
	"reflect"

	"github.com/brevis-network/zk-utils/circuits/fabric/smt"
	"github.com/brevis-network/zk-utils/common/circuits"
	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc"
	mimc377 "github.com/consensys/gnark-crypto/ecc/bls12-377/fr/mimc"
	mimc254 "github.com/consensys/gnark-crypto/ecc/bn254/fr/mimc"
	fr761 "github.com/consensys/gnark-crypto/ecc/bw6-761/fr"
	mimc761 "github.com/consensys/gnark-crypto/ecc/bw6-761/fr/mimc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/algebra/native/sw_bls12377"
	replonk "github.com/consensys/gnark/std/recursion/plonk"
	"github.com/iden3/go-iden3-crypto/poseidon"
	"verif/engine/gosym"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() { Registry["U09"] = checkU09 }

const gcEcc = "github.com/consensys/gnark-crypto/ecc/"

// mimcModel keeps gnark-crypto's MiMC digest as it is, but for the field elements, which become numbered byte
// strings, and the compression, whose preimage is recorded and whose result is a mark.
type mimcModel struct {
	nb    int
	r     *big.Int
	elems [][]*sym.Term
	pre   [][][]*sym.Term
}

func be(b *sym.B, bs []*sym.Term) *sym.Term {
	ks := make([]*big.Int, len(bs))
	for i := range ks {
		ks[i] = b.Pow2(8 * (len(bs) - 1 - i))
	}
	return b.Lin(bs, ks, nil)
}

func (x *mimcModel) elem(m *gosym.M, bs []*sym.Term) gosym.Agg {
	if len(x.elems) == 0 {
		zero := make([]*sym.Term, x.nb)
		for i := range zero {
			zero[i] = m.B.I(0)
		}
		x.elems = append(x.elems, zero)
	}
	x.elems = append(x.elems, bs)
	a := make(gosym.Agg, x.nb/8)
	for i := range a {
		a[i] = m.B.I(0)
	}
	a[0] = m.B.I(int64(len(x.elems) - 1))
	return a
}

func (x *mimcModel) bytes(m *gosym.M, e gosym.Val) []*sym.Term {
	if len(x.elems) == 0 {
		x.elem(m, nil)
		x.elems = x.elems[:1]
	}
	n, ok := m.B.ConstVal(e.(gosym.Agg)[0].(*sym.Term))
	if !ok || n.Sign() < 0 || n.Cmp(big.NewInt(int64(len(x.elems)))) >= 0 {
		m.Fail("a field element that depends on a decision")
	}
	return x.elems[n.Int64()]
}

func (x *mimcModel) mark(m *gosym.M, n int) []*sym.Term {
	r := make([]*sym.Term, x.nb)
	for i := range r {
		r[i] = m.B.I(0x55)
	}
	r[0], r[1] = m.B.I(0), m.B.I(int64(n))
	return r
}

// holds: bs is the digest of a preimage of which f holds.
func (x *mimcModel) holds(m *gosym.M, bs []*sym.Term, f func(pre [][]*sym.Term) *sym.Term) *sym.Term {
	any, g := m.B.F, m.B.T
	for i := range x.pre {
		is := eqInts(m, bs, x.mark(m, i))
		if is == m.B.F {
			continue
		}
		any = m.B.Or(any, is)
		g = m.B.And(g, m.B.Implies(is, f(x.pre[i])))
	}
	return m.B.And(any, g)
}

func (x *mimcModel) stubs(m *gosym.M, p *gosym.Prog, curve string) {
	fr, mm := gcEcc+curve+"/fr", gcEcc+curve+"/fr/mimc"
	b := m.B
	m.Stubs["("+fr+".bigEndian).Element"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
		bs := ints(m, m.Load(cc.Args[1].(*gosym.Cell)))
		lt := b.ILt(be(b, bs), b.Const(x.r))
		good := gosym.Out{Cond: lt, Vals: []gosym.Val{x.elem(m, bs), gosym.Iface{}}}
		bad := gosym.Out{Cond: b.Not(lt), Vals: []gosym.Val{m.Load(m.NewCell(p.Type(fr, "Element"))), m.ErrIface("not canonical")}}
		switch m.Decide(lt) {
		case 1:
			good.Cond = b.T
			return []gosym.Out{good}
		case 0:
			bad.Cond = b.T
			return []gosym.Out{bad}
		}
		return []gosym.Out{good, bad}
	}
	m.Stubs["(*"+fr+".Element).SetBytes"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
		n := b.Mod(be(b, ints(m, cc.Args[1])), x.r)
		bs := make([]*sym.Term, x.nb)
		for i := range bs {
			bs[i] = b.Low(b.Div(n, b.Pow2(8*(x.nb-1-i))), 8)
		}
		c := cc.Args[0].(*gosym.Cell)
		m.Store(c, x.elem(m, bs))
		return m.Ret(c)
	}
	m.Stubs["(*"+fr+".Element).Bytes"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
		var a gosym.Agg
		for _, t := range x.bytes(m, m.Load(cc.Args[0].(*gosym.Cell))) {
			a = append(a, t)
		}
		return m.Ret(a)
	}
	dt := p.Type(mm, "digest")
	m.Stubs["(*"+mm+".digest).Sum"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
		c := cc.Args[0].(*gosym.Cell)
		d := m.Load(c).(gosym.Agg)
		var pre [][]*sym.Term
		if ds := m.Field(dt, d, "data"); !isNil(ds) {
			for _, e := range m.Elems(ds) {
				pre = append(pre, x.bytes(m, e))
			}
		}
		x.pre = append(x.pre, pre)
		nd := append(gosym.Agg{}, d...)
		st := dt.Underlying().(*types.Struct)
		for i := range nd {
			if st.Field(i).Name() == "data" {
				nd[i] = gosym.Slice{}
			}
		}
		m.Store(c, nd)
		return m.Ret(m.MkBytes(append(ints(m, cc.Args[1]), x.mark(m, len(x.pre)-1)...), 0))
	}
}

func eqBlocks(m *gosym.M, x, y [][]*sym.Term) *sym.Term {
	if len(x) != len(y) {
		return m.B.F
	}
	g := []*sym.Term{m.B.T}
	for i := range x {
		g = append(g, eqInts(m, x[i], y[i]))
	}
	return m.B.And(g...)
}

func hashBlocks(h hash.Hash, blocks ...[]byte) []byte {
	for _, b := range blocks {
		if _, err := h.Write(b); err != nil {
			panic("reference: " + err.Error())
		}
	}
	return h.Sum(nil)
}

func okSpec(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
	if pan {
		return m.B.F
	}
	return v[0].(*sym.Term)
}

func checkU09(c *hk.Check) {
	p := load(c, pUtils, pSmt, pCirc, gcEcc+"bn254/fr", gcEcc+"bn254/fr/mimc", gcEcc+"bls12-377/fr", gcEcc+"bls12-377/fr/mimc", gcEcc+"bw6-761/fr", gcEcc+"bw6-761/fr/mimc",
		"github.com/iden3/go-iden3-crypto/poseidon")
	if p == nil {
		return
	}
	c.Bound("GenerateBls12377Hash: every input of 0, 1, 2, 20, 31, 32, 33, 63, 64, 65, 95 and 96 bytes; CalculateAppVkHashFrom761To254: every 48-byte hash; CalculateAppVkHashFor761: every key, 1 to 4 coset-shift limbs; MimcRoot: 0 to 9 and 16 canonical leaves; MimcHashBytes32: every 32-byte string; PoseidonBn254Hasher: 0 to 5 writes, with and without a reset in between; ChunkIndexFound: lists of up to 6 indexes; MiMCBlockPad0: data no longer than the block, blocks of 1 to 64 bytes")
	c.OutOf("the MiMC and Poseidon permutations (their preimages are compared; a counterexample is compared through the real hash); DecodeByteToBinary and BitsToFrBigInt are used by their contracts (property U02)")
	// ---- GenerateBls12377Hash
	r377 := ecc.BLS12_377.ScalarField()
	for _, n := range []int{0, 1, 2, 20, 31, 32, 33, 63, 64, 65, 95, 96} {
		n := n
		x := &mimcModel{nb: 32, r: r377}
		groups := func(m *gosym.M) []*sym.Term {
			in := byteVars(m, "in", n)
			var bits []*sym.Term
			for _, v := range in {
				for j := 7; j >= 0; j-- {
					bits = append(bits, bit01(m, v, j))
				}
			}
			var r []*sym.Term
			for i := 0; i < len(bits); i += 253 {
				e := min(i+253, len(bits))
				ks := make([]*big.Int, e-i)
				for j := range ks {
					ks[j] = m.B.Pow2(e - i - 1 - j)
				}
				r = append(r, m.B.Mod(m.B.Lin(bits[i:e], ks, nil), r377))
			}
			return r
		}
		run(c, p, N{Name: fmt.Sprintf("GenerateBls12377Hash/%d", n), Pkg: pUtils, Fn: "GenerateBls12377Hash", Samples: 3, Abstract: true,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				x.stubs(m, p, "bls12-377")
				m.Stubs[pUtils+".DecodeByteToBinary"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
					var vs []gosym.Val
					for j := 7; j >= 0; j-- {
						vs = append(vs, bit01(m, cc.Args[0].(*sym.Term), j))
					}
					return m.Ret(m.MkSlice(gosym.UintType, vs))
				}
				m.Stubs[pUtils+".BitsToFrBigInt"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
					var bs []*sym.Term
					if !isNil(cc.Args[0]) {
						bs = ints(m, cc.Args[0])
					}
					mod, ok := m.B.ConstVal(m.BigOf(cc.Args[1]))
					if !ok {
						m.Fail("BitsToFrBigInt with a symbolic modulus")
					}
					ks := make([]*big.Int, len(bs))
					for j := range ks {
						ks[j] = m.B.Pow2(len(bs) - 1 - j)
						if m.B.HiOf(bs[j]).Cmp(big.NewInt(1)) > 0 {
							m.Fail("BitsToFrBigInt of something that is no bit")
						}
					}
					return m.Ret(m.MkBig(m.B.Mod(m.B.Lin(bs, ks, nil), mod)))
				}
				return []gosym.Val{m.MkBytes(byteVars(m, "in", n), 0)}, nil
			},
			Observe: func(m *gosym.M, a []gosym.Val, o gosym.Out) []gosym.Val {
				want := groups(m)
				return []gosym.Val{x.holds(m, ints(m, o.Vals[0]), func(pre [][]*sym.Term) *sym.Term {
					if len(pre) != len(want) {
						return m.B.F
					}
					g := []*sym.Term{m.B.T}
					for i := range pre {
						g = append(g, eqBE(m, want[i], pre[i]))
					}
					return m.B.And(g...)
				})}
			},
			Spec: okSpec,
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				var blocks [][]byte
				for _, g := range groups(m) {
					blocks = append(blocks, ev(g).FillBytes(make([]byte, 32)))
				}
				return []any{bytes.Equal(utils.GenerateBls12377Hash(realBytes(ev, byteVars(m, "in", n))), hashBlocks(mimc377.NewMiMC(), blocks...))}
			},
		})
	}
	// ---- CalculateAppVkHashFrom761To254
	{
		x := &mimcModel{nb: 32, r: ecc.BN254.ScalarField()}
		want := func(m *gosym.M) [][]*sym.Term {
			in := byteVars(m, "in", 48)
			var r [][]*sym.Term
			for h := 0; h < 2; h++ {
				var bl []*sym.Term
				for i := 0; i < 8; i++ {
					bl = append(bl, m.B.I(0))
				}
				r = append(r, append(bl, in[24*h:24*h+24]...))
			}
			return r
		}
		run(c, p, N{Name: "CalculateAppVkHashFrom761To254", Pkg: pUtils, Fn: "CalculateAppVkHashFrom761To254", Samples: 4, Abstract: true,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				x.stubs(m, p, "bn254")
				return []gosym.Val{m.MkBytes(byteVars(m, "in", 48), 0)}, nil
			},
			Observe: func(m *gosym.M, a []gosym.Val, o gosym.Out) []gosym.Val {
				return []gosym.Val{m.B.And(x.holds(m, ints(m, o.Vals[0]), func(pre [][]*sym.Term) *sym.Term { return eqBlocks(m, pre, want(m)) }), eqInts(m, ints(m, a[0]), byteVars(m, "in", 48)))}
			},
			Spec: okSpec,
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				in := realBytes(ev, byteVars(m, "in", 48))
				w := want(m)
				return []any{bytes.Equal(utils.CalculateAppVkHashFrom761To254(in), hashBlocks(mimc254.NewMiMC(), realBytes(ev, w[0]), realBytes(ev, w[1])))}
			},
		})
	}
	// ---- MimcHashBytes32
	{
		x := &mimcModel{nb: 32, r: r377}
		want := func(m *gosym.M) [][]*sym.Term {
			in := byteVars(m, "in", 32)
			var r [][]*sym.Term
			for h := 0; h < 2; h++ {
				var bl []*sym.Term
				for i := 0; i < 16; i++ {
					bl = append(bl, m.B.I(0))
				}
				r = append(r, append(bl, in[16*h:16*h+16]...))
			}
			return r
		}
		run(c, p, N{Name: "MimcHashBytes32", Pkg: pSmt, Fn: "MimcHashBytes32", Samples: 4, Abstract: true,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				x.stubs(m, p, "bls12-377")
				return []gosym.Val{m.MkBytes(byteVars(m, "in", 32), 0)}, nil
			},
			Observe: func(m *gosym.M, a []gosym.Val, o gosym.Out) []gosym.Val {
				return []gosym.Val{x.holds(m, ints(m, o.Vals[0]), func(pre [][]*sym.Term) *sym.Term { return eqBlocks(m, pre, want(m)) })}
			},
			Spec: okSpec,
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				in := realBytes(ev, byteVars(m, "in", 32))
				w := want(m)
				return []any{bytes.Equal(smt.MimcHashBytes32(in), hashBlocks(mimc377.NewMiMC(), realBytes(ev, w[0]), realBytes(ev, w[1])))}
			},
		})
	}
	// ---- MimcRoot
	for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16} {
		n := n
		x := &mimcModel{nb: 32, r: r377}
		leaf := func(m *gosym.M, i int) []*sym.Term {
			bs := byteVars(m, fmt.Sprintf("leaf%d_", i), 32)
			bs[0] = m.B.Var(fmt.Sprintf("top%d", i), big.NewInt(0), big.NewInt(0x11)) // below the modulus
			return bs
		}
		good := n > 0 && n&(n-1) == 0
		run(c, p, N{Name: fmt.Sprintf("MimcRoot/%d", n), Pkg: pSmt, Fn: "MimcRoot", Samples: 2, Abstract: true,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				x.stubs(m, p, "bls12-377")
				var vs []gosym.Val
				for i := 0; i < n; i++ {
					vs = append(vs, m.MkBytes(leaf(m, i), 0))
				}
				return []gosym.Val{m.MkSlice(types.NewSlice(gosym.ByteType), vs)}, nil
			},
			Observe: func(m *gosym.M, a []gosym.Val, o gosym.Out) []gosym.Val {
				var walk func(bs []*sym.Term, lo, k int) *sym.Term
				walk = func(bs []*sym.Term, lo, k int) *sym.Term {
					if k == 1 {
						return eqInts(m, bs, leaf(m, lo))
					}
					return x.holds(m, bs, func(pre [][]*sym.Term) *sym.Term {
						if len(pre) != 2 {
							return m.B.F
						}
						return m.B.And(walk(pre[0], lo, k/2), walk(pre[1], lo+k/2, k/2))
					})
				}
				return []gosym.Val{m.B.And(m.B.Bool(good), walk(ints(m, o.Vals[0]), 0, n))}
			},
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				if pan {
					return m.B.Bool(!good)
				}
				return v[0].(*sym.Term)
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				var in, lv [][]byte
				for i := 0; i < n; i++ {
					in = append(in, realBytes(ev, leaf(m, i)))
					lv = append(lv, realBytes(ev, leaf(m, i)))
				}
				got := smt.MimcRoot(in)
				if !good {
					return []any{false}
				}
				for len(lv) > 1 {
					var up [][]byte
					for i := 0; i < len(lv); i += 2 {
						up = append(up, hashBlocks(mimc377.NewMiMC(), lv[i], lv[i+1]))
					}
					lv = up
				}
				return []any{bytes.Equal(got, lv[0])}
			},
		})
	}
	// ---- PoseidonBn254Hasher, through a driver in Sum: the writes are done by the repository's own Write and Reset
	ht := p.Type(pUtils, "PoseidonBn254Hasher")
	if ht == nil {
		c.Err("no PoseidonBn254Hasher")
		return
	}
	for _, x := range []struct{ before, after int }{{0, 0}, {1, 0}, {2, 0}, {5, 0}, {1, 1}, {3, 2}, {2, 4}} {
		x := x
		for _, reset := range []bool{false, true} {
			reset := reset
			in := func(m *gosym.M) []*sym.Term {
				var r []*sym.Term
				for i := 0; i < x.before+x.after; i++ {
					r = append(r, m.B.BitsVar(fmt.Sprintf("in%d", i), 253))
				}
				return r
			}
			want := func(m *gosym.M) []*sym.Term {
				if reset {
					return in(m)[x.before:]
				}
				return in(m)
			}
			var pres [][]*sym.Term
			run(c, p, N{Name: fmt.Sprintf("PoseidonBn254Hasher/%d/%v/%d", x.before, reset, x.after), Pkg: pUtils, Fn: "*PoseidonBn254Hasher.Sum", Samples: 2, Abstract: true,
				Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
					m.Stubs["github.com/iden3/go-iden3-crypto/poseidon.Hash"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
						var pre []*sym.Term
						if !isNil(cc.Args[0]) {
							for _, e := range m.Elems(cc.Args[0]) {
								pre = append(pre, m.BigOf(e))
							}
						}
						pres = append(pres, pre)
						if len(pre) == 0 {
							return m.Ret((*gosym.Cell)(nil), m.ErrIface("no input"))
						}
						return m.Ret(m.MkBig(m.B.I(int64(1000+len(pres)))), gosym.Iface{})
					}
					var h gosym.Val
					fn, err := p.Func(pUtils, "NewPoseidonBn254")
					if err != nil {
						m.Fail("%v", err)
					}
					h = m.CallFn(fn)[0]
					recv := gosym.Iface{T: gosym.PtrTo(ht), V: h}
					for i, t := range in(m) {
						if i == x.before && reset {
							m.Invoke(recv, "Reset")
						}
						m.Invoke(recv, "Write", m.MkBig(t))
					}
					if x.after == 0 && reset {
						m.Invoke(recv, "Reset")
					}
					return []gosym.Val{h}, nil
				},
				Observe: func(m *gosym.M, a []gosym.Val, o gosym.Out) []gosym.Val {
					w := want(m)
					if len(w) == 0 || isErr(o.Vals[1]) {
						return []gosym.Val{m.B.Bool(len(w) == 0 && isErr(o.Vals[1]))}
					}
					n, ok := m.B.ConstVal(m.BigOf(o.Vals[0]))
					if !ok || n.Int64() < 1001 || n.Int64() > int64(1000+len(pres)) {
						return []gosym.Val{m.B.F}
					}
					return []gosym.Val{eqInts(m, pres[n.Int64()-1001], w)}
				},
				Spec: okSpec,
				Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
					h := utils.NewPoseidonBn254()
					for i, t := range in(m) {
						if i == x.before && reset {
							h.Reset()
						}
						h.Write(ev(t))
					}
					if x.after == 0 && reset {
						h.Reset()
					}
					var w []*big.Int
					for _, t := range want(m) {
						w = append(w, ev(t))
					}
					we, werr := poseidon.Hash(w)
					got, err := h.Sum()
					return []any{(err == nil) == (werr == nil) && (err != nil || got.Cmp(we) == 0)}
				},
			})
		}
	}
	// ---- ChunkIndexFound
	for n := 0; n <= 6; n++ {
		n := n
		u := func(m *gosym.M, i int) *sym.Term { return m.B.BitsVar(fmt.Sprintf("u%d", i), 64) }
		run(c, p, N{Name: fmt.Sprintf("ChunkIndexFound/%d", n), Pkg: pCirc, Fn: "ChunkIndexFound", Samples: 3,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				var vs []gosym.Val
				for i := 0; i < n; i++ {
					vs = append(vs, u(m, i))
				}
				return []gosym.Val{u(m, 100), m.MkSlice(types.Typ[types.Uint64], vs)}, nil
			},
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				if pan {
					return m.B.F
				}
				var g []*sym.Term
				for i := 0; i < n; i++ {
					g = append(g, m.B.IEq(u(m, 100), u(m, i)))
				}
				return m.B.Iff(v[0].(*sym.Term), m.B.Or(g...))
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				var l []uint64
				for i := 0; i < n; i++ {
					l = append(l, ev(u(m, i)).Uint64())
				}
				return []any{circuits.ChunkIndexFound(ev(u(m, 100)).Uint64(), l)}
			},
		})
	}
	// ---- MiMCBlockPad0
	for _, x := range [][2]int{{0, 1}, {1, 1}, {0, 32}, {1, 32}, {24, 32}, {31, 32}, {32, 32}, {24, 48}, {48, 48}, {63, 64}} {
		x := x
		run(c, p, N{Name: fmt.Sprintf("MiMCBlockPad0/%d/%d", x[0], x[1]), Pkg: pUtils, Fn: "MiMCBlockPad0", Samples: 2,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				return []gosym.Val{m.MkBytes(byteVars(m, "d", x[0]), 0), m.B.I(int64(x[1]))}, nil
			},
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				if pan {
					return m.B.F
				}
				var w []*sym.Term
				for i := x[0]; i < x[1]; i++ {
					w = append(w, m.B.I(0))
				}
				return eqInts(m, ints(m, v[0]), append(w, byteVars(m, "d", x[0])...))
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				return []any{utils.MiMCBlockPad0(realBytes(ev, byteVars(m, "d", x[0])), x[1])}
			},
		})
	}
	vkHash(c, p)
}

type vk761 = replonk.VerifyingKey[sw_bls12377.ScalarField, sw_bls12377.G1Affine, sw_bls12377.G2Affine]

// vkHash: the hash of a recursion verifying key covers, in this order, the number of public inputs, the coset shift,
// and every point of the commitment key and of the circuit's polynomials, one block per number.
func vkHash(c *hk.Check, p *gosym.Prog) {
	fn, err := p.Func(pUtils, "CalculateAppVkHashFor761")
	if err != nil {
		c.Err("%v", err)
		return
	}
	for limbs := 1; limbs <= 4; limbs++ {
		limbs := limbs
		order := []string{"/BaseVerifyingKey/NbPublicVariables"}
		for i := 0; i < limbs; i++ {
			order = append(order, fmt.Sprintf("/BaseVerifyingKey/CosetShift/Limbs/%d", i))
		}
		g1 := func(n string) { order = append(order, n+"/X", n+"/Y") }
		g1("/BaseVerifyingKey/Kzg/G1")
		for i := 0; i < 2; i++ {
			for _, q := range []string{"X/A0", "X/A1", "Y/A0", "Y/A1"} {
				order = append(order, fmt.Sprintf("/BaseVerifyingKey/Kzg/G2/%d/P/%s", i, q))
			}
		}
		for i := 0; i < 3; i++ {
			g1(fmt.Sprintf("/CircuitVerifyingKey/S/%d/G1El", i))
		}
		for _, n := range []string{"Ql", "Qr", "Qm", "Qo", "Qk"} {
			g1("/CircuitVerifyingKey/" + n + "/G1El")
		}
		x := &mimcModel{nb: 48, r: ecc.BW6_761.ScalarField()}
		val := func(m *gosym.M, path string) []*sym.Term {
			n := map[bool]int{true: 8, false: 48}[path == order[0]]
			bs := byteVars(m, path+"#", n)
			if n == 48 {
				bs[0] = m.B.Var(path+"#top", big.NewInt(0), big.NewInt(0)) // below the modulus
			}
			return bs
		}
		et := p.Type(gcEcc+"bw6-761/fr", "Element")
		run(c, p, N{Name: fmt.Sprintf("CalculateAppVkHashFor761/%d", limbs), Pkg: pUtils, Fn: "CalculateAppVkHashFor761", Samples: 2, Abstract: true,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				x.stubs(m, p, "bw6-761")
				var fill func(t types.Type, path string) gosym.Val
				fill = func(t types.Type, path string) gosym.Val {
					switch u := t.Underlying().(type) {
					case *types.Struct:
						f := map[string]gosym.Val{}
						for i := 0; i < u.NumFields(); i++ {
							if u.Field(i).Exported() || u.Field(i).Embedded() {
								f[u.Field(i).Name()] = fill(u.Field(i).Type(), path+"/"+u.Field(i).Name())
							}
						}
						return m.MkStruct(t, f)
					case *types.Array:
						a := make(gosym.Agg, u.Len())
						for i := range a {
							a[i] = fill(u.Elem(), fmt.Sprintf("%s/%d", path, i))
						}
						return a
					case *types.Slice:
						var vs []gosym.Val
						for i := 0; i < limbs; i++ {
							vs = append(vs, fill(u.Elem(), fmt.Sprintf("%s/%d", path, i)))
						}
						return m.MkSlice(u.Elem(), vs)
					case *types.Interface:
						if isLimb(path) {
							return gosym.Iface{T: gosym.PtrTo(p.Type("math/big", "Int")), V: m.MkBig(be(m.B, val(m, path)))}
						}
						return gosym.Iface{T: et, V: x.elem(m, val(m, path))}
					case *types.Basic:
						if path == order[0] {
							return be(m.B, val(m, path))
						}
					}
					return m.Load(m.NewCell(t))
				}
				return []gosym.Val{fill(fn.Params[0].Type(), "")}, nil
			},
			Observe: func(m *gosym.M, a []gosym.Val, o gosym.Out) []gosym.Val {
				return []gosym.Val{x.holds(m, ints(m, o.Vals[0]), func(pre [][]*sym.Term) *sym.Term {
					if len(pre) != len(order) {
						return m.B.F
					}
					g := []*sym.Term{m.B.T}
					for i, path := range order {
						g = append(g, m.B.IEq(be(m.B, pre[i]), be(m.B, val(m, path))))
					}
					return m.B.And(g...)
				})}
			},
			Spec: okSpec,
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				var vk vk761
				num := func(path string) *big.Int { return new(big.Int).SetBytes(realBytes(ev, val(m, path))) }
				var fill func(v reflect.Value, path string)
				fill = func(v reflect.Value, path string) {
					switch v.Kind() {
					case reflect.Struct:
						for i := 0; i < v.NumField(); i++ {
							if v.Field(i).CanSet() {
								fill(v.Field(i), path+"/"+v.Type().Field(i).Name)
							}
						}
					case reflect.Array:
						for i := 0; i < v.Len(); i++ {
							fill(v.Index(i), fmt.Sprintf("%s/%d", path, i))
						}
					case reflect.Slice:
						v.Set(reflect.MakeSlice(v.Type(), limbs, limbs))
						for i := 0; i < limbs; i++ {
							fill(v.Index(i), fmt.Sprintf("%s/%d", path, i))
						}
					case reflect.Interface:
						var e fr761.Element
						e.SetBigInt(num(path))
						var f frontend.Variable = e
						if isLimb(path) {
							f = num(path)
						}
						v.Set(reflect.ValueOf(f))
					case reflect.Uint64:
						if path == order[0] {
							v.SetUint(num(path).Uint64())
						}
					}
				}
				fill(reflect.ValueOf(&vk).Elem(), "")
				var blocks [][]byte
				for _, path := range order {
					blocks = append(blocks, num(path).FillBytes(make([]byte, 48)))
				}
				return []any{bytes.Equal(utils.CalculateAppVkHashFor761(vk), hashBlocks(mimc761.NewMiMC(), blocks...))}
			},
		})
	}
}

func isLimb(path string) bool {
	const l = "/Limbs/"
	for i := 0; i+len(l) <= len(path); i++ {
		if path[i:i+len(l)] == l {
			return true
		}
	}
	return false
}
