//go:build go1.23

package nchecks

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	groth16_bn254 "github.com/consensys/gnark/backend/groth16/bn254"
	"github.com/ethereum/go-ethereum/common"
	"verif/engine/gosym"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() { Registry["U10"] = checkU10 }

func strOf(v []byte) string { return string(v) }

// lastN: the last n of bs, or bs padded with zeros on the left.
func lastN(b *sym.B, bs []*sym.Term, n int) []*sym.Term {
	if len(bs) > n {
		return bs[len(bs)-n:]
	}
	var r []*sym.Term
	for i := len(bs); i < n; i++ {
		r = append(r, b.I(0))
	}
	return append(r, bs...)
}

// isHexOf: out is pre followed by the lower-case hex digits of want.
func isHexOf(m *gosym.M, out []*sym.Term, pre string, want []*sym.Term) *sym.Term {
	b := m.B
	if len(out) != len(pre)+2*len(want) {
		return b.F
	}
	var ts []*sym.Term
	for i := range pre {
		ts = append(ts, b.IEq(out[i], b.I(int64(pre[i]))))
	}
	out = out[len(pre):]
	for _, c := range out {
		ts = append(ts, isHexDigit(b, c), b.Not(b.And(b.ILe(b.I('A'), c), b.ILe(c, b.I('F')))))
	}
	return b.And(append(ts, eqInts(m, decode(b, out), want))...)
}

func checkU10(c *hk.Check) {
	p := load(c, pUtils, pProof, pGeth+"common", pGeth+"common/hexutil")
	if p == nil {
		return
	}
	c.Bound("text of 0 to 3, 39 to 44 and 63 to 68 hex digits with and without 0x; byte strings of 0, 1, 19 to 22, 31 to 33 bytes; lists of up to 3 entries (Contains: up to 4 strings of 0 to 3 bytes); one export line with every proof coordinate and public inputs of up to 4 characters each")
	c.OutOf("text that is not hex; hexutil.Encode in the export line (modelled: its argument is recorded; replayed with the real one)")
	// ---- text to address and hash
	for _, l := range []int{0, 1, 2, 3, 39, 40, 41, 42, 43, 44, 63, 64, 65, 66, 67, 68} {
		l := l
		for _, fn := range []string{"Hex2Addr", "Hex2Hash", "FormatAddrHex"} {
			fn := fn
			n := 20
			if fn == "Hex2Hash" {
				n = 32
			}
			run(c, p, N{Name: fmt.Sprintf("%s/%d", fn, l), Pkg: pUtils, Fn: fn, Samples: 2,
				Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
					ch, a, _ := hexString(m, "s", l)
					return []gosym.Val{gosym.Str{B: ch}}, a
				},
				Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
					b := m.B
					if pan {
						return b.F
					}
					ch, _, pre := hexString(m, "s", l)
					is := func(cs []*sym.Term) *sym.Term {
						w := lastN(b, decode(b, cs), n)
						if fn == "FormatAddrHex" {
							return isHexOf(m, ints(m, v[0]), "", w)
						}
						return eqInts(m, ints(m, v[0]), w)
					}
					if l < 2 {
						return is(ch)
					}
					return b.And(b.Or(b.Not(pre), is(ch[2:])), b.Or(pre, is(ch)))
				},
				Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
					ch, _, _ := hexString(m, "s", l)
					s := string(realBytes(ev, ch))
					switch fn {
					case "Hex2Addr":
						return []any{utils.Hex2Addr(s)}
					case "Hex2Hash":
						return []any{utils.Hex2Hash(s)}
					}
					return []any{utils.FormatAddrHex(s)}
				},
			})
		}
	}
	// ---- bytes to address and hash, and back to text
	type conv struct {
		fn   string
		n    int
		pre  string
		text bool
		real func(b []byte) any
	}
	for _, x := range []conv{
		{"Bytes2Addr", 20, "", false, func(b []byte) any { return utils.Bytes2Addr(b) }},
		{"Bytes2Hash", 32, "", false, func(b []byte) any { return utils.Bytes2Hash(b) }},
		{"Bytes2AddrHex", 20, "", true, func(b []byte) any { return utils.Bytes2AddrHex(b) }},
		{"Bytes2AddrHex0x", 20, "0x", true, func(b []byte) any { return utils.Bytes2AddrHex0x(b) }},
		{"Addr2Hex", -20, "", true, func(b []byte) any { return utils.Addr2Hex(common.BytesToAddress(b)) }},
		{"Addr2Hex0x", -20, "0x", true, func(b []byte) any { return utils.Addr2Hex0x(common.BytesToAddress(b)) }},
	} {
		x := x
		lens := []int{0, 1, 19, 20, 21, 22, 31, 32, 33}
		if x.n < 0 {
			lens = []int{20}
		}
		for _, l := range lens {
			l := l
			run(c, p, N{Name: fmt.Sprintf("%s/%d", x.fn, l), Pkg: pUtils, Fn: x.fn, Samples: 2,
				Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
					if x.n < 0 {
						var a gosym.Agg
						for _, t := range byteVars(m, "d", l) {
							a = append(a, t)
						}
						return []gosym.Val{a}, nil
					}
					return []gosym.Val{m.MkBytes(byteVars(m, "d", l), 0)}, nil
				},
				Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
					if pan {
						return m.B.F
					}
					n := x.n
					if n < 0 {
						n = -n
					}
					w := lastN(m.B, byteVars(m, "d", l), n)
					if x.text {
						return isHexOf(m, ints(m, v[0]), x.pre, w)
					}
					return eqInts(m, ints(m, v[0]), w)
				},
				Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
					return []any{x.real(realBytes(ev, byteVars(m, "d", l)))}
				},
			})
		}
	}
	// ---- lists
	strT := types.Typ[types.String]
	for n := 0; n <= 3; n++ {
		n := n
		sizes := []int{4, 66, 5}[:n]
		bsizes := []int{0, 3, 32}[:n]
		texts := func(m *gosym.M) (vs []gosym.Val, asm []*sym.Term) {
			for i := range sizes {
				ch, a, _ := hexString(m, fmt.Sprintf("s%d_", i), sizes[i])
				vs, asm = append(vs, gosym.Str{B: ch}), append(asm, a...)
			}
			return
		}
		realTexts := func(m *gosym.M, ev func(*sym.Term) *big.Int) []string {
			r := []string{}
			for i := range sizes {
				ch, _, _ := hexString(m, fmt.Sprintf("s%d_", i), sizes[i])
				r = append(r, string(realBytes(ev, ch)))
			}
			return r
		}
		each := func(m *gosym.M, v gosym.Val, f func(b *sym.B, cs []*sym.Term) []*sym.Term) *sym.Term {
			b := m.B
			var es []gosym.Val
			if !isNil(v) {
				es = m.Elems(v)
			}
			if len(es) != n {
				return b.F
			}
			ts := []*sym.Term{b.T}
			for i := range es {
				ch, _, pre := hexString(m, fmt.Sprintf("s%d_", i), sizes[i])
				got := ints(m, es[i])
				ts = append(ts, b.Or(b.Not(pre), eqInts(m, got, f(b, ch[2:]))), b.Or(pre, eqInts(m, got, f(b, ch))))
			}
			return b.And(ts...)
		}
		for _, fn := range []string{"ArrayHex2Hash", "Strings2bytes"} {
			fn := fn
			if fn == "Strings2bytes" && n > 2 {
				continue
			}
			run(c, p, N{Name: fmt.Sprintf("%s/%d", fn, n), Pkg: pUtils, Fn: fn, Samples: 2,
				Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
					vs, a := texts(m)
					return []gosym.Val{m.MkSlice(strT, vs)}, a
				},
				Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
					if pan {
						return m.B.F
					}
					if fn == "ArrayHex2Hash" {
						return each(m, v[0], func(b *sym.B, cs []*sym.Term) []*sym.Term { return lastN(b, decode(b, cs), 32) })
					}
					return each(m, v[0], decode)
				},
				Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
					if fn == "ArrayHex2Hash" {
						return []any{utils.ArrayHex2Hash(realTexts(m, ev))}
					}
					return []any{utils.Strings2bytes(realTexts(m, ev))}
				},
			})
		}
		byteList := func(m *gosym.M) gosym.Val {
			var vs []gosym.Val
			for i, l := range bsizes {
				vs = append(vs, m.MkBytes(byteVars(m, fmt.Sprintf("d%d_", i), l), 0))
			}
			return m.MkSlice(types.NewSlice(gosym.ByteType), vs)
		}
		realList := func(m *gosym.M, ev func(*sym.Term) *big.Int) [][]byte {
			r := [][]byte{}
			for i, l := range bsizes {
				r = append(r, realBytes(ev, byteVars(m, fmt.Sprintf("d%d_", i), l)))
			}
			return r
		}
		run(c, p, N{Name: fmt.Sprintf("ArrayBytes2Hex0x/%d", n), Pkg: pUtils, Fn: "ArrayBytes2Hex0x", Samples: 2,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) { return []gosym.Val{byteList(m)}, nil },
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				if pan {
					return m.B.F
				}
				var es []gosym.Val
				if !isNil(v[0]) {
					es = m.Elems(v[0])
				}
				if len(es) != n {
					return m.B.F
				}
				ts := []*sym.Term{m.B.T}
				for i := range es {
					ts = append(ts, isHexOf(m, ints(m, es[i]), "0x", byteVars(m, fmt.Sprintf("d%d_", i), bsizes[i])))
				}
				return m.B.And(ts...)
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				return []any{utils.ArrayBytes2Hex0x(realList(m, ev))}
			},
		})
		run(c, p, N{Name: fmt.Sprintf("Convert2DimensionalByteArrayToString/%d", n), Pkg: pUtils, Fn: "Convert2DimensionalByteArrayToString", Samples: 2,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) { return []gosym.Val{byteList(m)}, nil },
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				if pan {
					return m.B.F
				}
				out := ints(m, v[0])
				ts := []*sym.Term{m.B.T}
				for i, l := range bsizes {
					if i > 0 {
						if len(out) == 0 {
							return m.B.F
						}
						ts, out = append(ts, m.B.IEq(out[0], m.B.I(','))), out[1:]
					}
					if len(out) < 2+2*l {
						return m.B.F
					}
					ts, out = append(ts, isHexOf(m, out[:2+2*l], "0x", byteVars(m, fmt.Sprintf("d%d_", i), l))), out[2+2*l:]
				}
				return m.B.And(append(ts, m.B.Bool(len(out) == 0))...)
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				return []any{utils.Convert2DimensionalByteArrayToString(realList(m, ev))}
			},
		})
	}
	// ---- Contains
	for _, sz := range [][]int{{0}, {2}, {2, 2}, {1, 0}, {2, 2, 1, 2}, {3, 3, 3, 3, 2}, {1, 1, 1}} {
		sz := sz
		s := func(m *gosym.M, i int) []*sym.Term { return byteVars(m, fmt.Sprintf("s%d_", i), sz[i]) }
		run(c, p, N{Name: fmt.Sprintf("Contains/%v", sz), Pkg: pUtils, Fn: "Contains", Samples: 3,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				var vs []gosym.Val
				for i := 1; i < len(sz); i++ {
					vs = append(vs, gosym.Str{B: s(m, i)})
				}
				return []gosym.Val{m.MkSlice(strT, vs), gosym.Str{B: s(m, 0)}}, nil
			},
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				if pan {
					return m.B.F
				}
				var g []*sym.Term
				for i := 1; i < len(sz); i++ {
					g = append(g, eqInts(m, s(m, 0), s(m, i)))
				}
				return m.B.Iff(v[0].(*sym.Term), m.B.Or(g...))
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				var l []string
				for i := 1; i < len(sz); i++ {
					l = append(l, strOf(realBytes(ev, s(m, i))))
				}
				return []any{utils.Contains(l, strOf(realBytes(ev, s(m, 0))))}
			},
		})
	}
	batchLine(c, p)
	s3Paths(c, p)
}

// batchLine: the twelve coordinates, in the contract's order, and the public inputs, each followed by a comma.
func batchLine(c *hk.Check, p *gosym.Prog) {
	val := func(m *gosym.M, i int) *sym.Term { return m.B.BitsVar(fmt.Sprintf("x%d", i), 253) }
	pubs := []struct {
		name string
		n    int
	}{{"QueryId", 4}, {"SMTRoot0", 3}, {"SMTRoot1", 2}, {"AggVkHash", 1}, {"OutputCommit0", 3}, {"OutputCommit1", 0}, {"AppVkHash", 4}}
	txt := func(m *gosym.M, i int) []*sym.Term { return byteVars(m, pubs[i].name+"_", pubs[i].n) }
	var encoded []*sym.Term
	mark := func(m *gosym.M, i int) []*sym.Term { return []*sym.Term{m.B.I('#'), m.B.I(int64(i)), m.B.I('#')} }
	run(c, p, N{Name: "GenerateBatchProofAndPublicInputs", Pkg: pProof, Fn: "*ZKSDKAggPubInputs.GenerateBatchProofAndPublicInputs", Samples: 3, Abstract: true,
		Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
			m.Stubs[pUtils+".ExportProof"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
				g := func(i int) gosym.Val { return m.MkBig(val(m, i)) }
				two := func(i int) gosym.Agg { return gosym.Agg{g(i), g(i + 1)} }
				return m.Ret(two(0), gosym.Agg{two(2), two(4)}, two(6), two(8), two(10))
			}
			m.Stubs[pGeth+"common/hexutil.Encode"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
				l, ok := cc.Args[0].(gosym.Lazy)
				if !ok {
					m.Fail("hexutil.Encode of %T", cc.Args[0])
				}
				encoded = append(encoded, l.N)
				return m.Ret(gosym.Str{B: mark(m, len(encoded)-1)})
			}
			pt := p.Type(pProof, "ZKSDKAggPubInputs")
			s := func(i int) gosym.Val { return gosym.Str{B: txt(m, i)} }
			f := map[string]gosym.Val{"QueryId": s(0), "SMTRoot": gosym.Agg{s(1), s(2)}, "AggVkHash": s(3), "OutputCommit": gosym.Agg{s(4), s(5)}, "AppVkHash": s(6)}
			return []gosym.Val{m.MkPtr(pt, m.MkStruct(pt, f)), gosym.Iface{}}, nil
		},
		Observe: func(m *gosym.M, a []gosym.Val, o gosym.Out) []gosym.Val {
			b := m.B
			out := ints(m, o.Vals[0])
			g := []*sym.Term{b.T}
			for i := 0; i < 12; i++ {
				if len(out) < 4 {
					return []gosym.Val{b.F}
				}
				n, ok := b.ConstVal(out[1])
				if !ok || n.Int64() >= int64(len(encoded)) {
					return []gosym.Val{b.F}
				}
				g = append(g, eqInts(m, out[:4], append(mark(m, int(n.Int64())), b.I(','))), b.IEq(encoded[n.Int64()], val(m, i)))
				out = out[4:]
			}
			var tail []*sym.Term
			for i := range pubs {
				tail = append(append(tail, txt(m, i)...), b.I(','))
			}
			return []gosym.Val{b.And(append(g, eqInts(m, out, tail))...)}
		},
		Spec: okSpec,
		Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
			e := make([]fp.Element, 12)
			want := ""
			for i := range e {
				e[i].SetBigInt(ev(val(m, i)))
				h := ev(val(m, i)).Text(16)
				if len(h)%2 == 1 {
					h = "0" + h
				}
				if h == "00" {
					h = ""
				}
				want += "0x" + h + ","
			}
			g1 := func(i int) bn254.G1Affine { return bn254.G1Affine{X: e[i], Y: e[i+1]} }
			q := &groth16_bn254.Proof{Ar: g1(0), Krs: g1(6), Commitments: []bn254.G1Affine{g1(8)}, CommitmentPok: g1(10)}
			q.Bs.X.A1, q.Bs.X.A0, q.Bs.Y.A1, q.Bs.Y.A0 = e[2], e[3], e[4], e[5]
			s := func(i int) string { return strOf(realBytes(ev, txt(m, i))) }
			for i := range pubs {
				want += s(i) + ","
			}
			x := &proof.ZKSDKAggPubInputs{QueryId: s(0), SMTRoot: [2]string{s(1), s(2)}, AggVkHash: s(3), OutputCommit: [2]string{s(4), s(5)}, AppVkHash: s(6)}
			return []any{x.GenerateBatchProofAndPublicInputs(q) == want}
		},
	})
}

// s3Paths: the ids of all receipts, then of all slots, then of all transactions, in their order.
func s3Paths(c *hk.Check, p *gosym.Prog) {
	qt := p.Type(pProof, "SDKQueryProvingInfo")
	for _, x := range [][3]int{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {2, 3, 1}, {1, 1, 2}} {
		x := x
		id := func(m *gosym.M, k, i int) []*sym.Term { return byteVars(m, fmt.Sprintf("id%d_%d_", k, i), 1+k) }
		run(c, p, N{Name: fmt.Sprintf("GetSubProofS3Path/%v", x), Pkg: pProof, Fn: "*SDKQueryProvingInfo.GetSubProofS3Path", Samples: 2,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				list := func(k int, t, f string) gosym.Val {
					et := p.Type(pProof, t)
					var vs []gosym.Val
					for i := 0; i < x[k]; i++ {
						fs := map[string]gosym.Val{f: gosym.Str{B: id(m, k, i)}, "BlockHash": gosym.Str{B: byteVars(m, fmt.Sprintf("bh%d_%d_", k, i), 1+k)}}
						vs = append(vs, m.MkPtr(et, m.MkStruct(et, fs)))
					}
					return m.MkSlice(gosym.PtrTo(et), vs)
				}
				return []gosym.Val{m.MkPtr(qt, m.MkStruct(qt, map[string]gosym.Val{
					"ReceiptInfos":     list(0, "SDKQueryProvingInfoForReceipt", "TransactionHash"),
					"StorageSlotInfos": list(1, "SDKQueryProvingInfoForStorageSlot", "StorageHash"),
					"TransactionInfos": list(2, "SDKQueryProvingInfoForTransaction", "TransactionHash"),
				}))}, nil
			},
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				if pan {
					return m.B.F
				}
				var es []gosym.Val
				if !isNil(v[0]) {
					es = m.Elems(v[0])
				}
				g := []*sym.Term{m.B.Bool(len(es) == x[0]+x[1]+x[2])}
				n := 0
				for k := 0; k < 3 && g[0] == m.B.T; k++ {
					for i := 0; i < x[k]; i++ {
						g = append(g, eqInts(m, ints(m, es[n]), id(m, k, i)))
						n++
					}
				}
				return m.B.And(g...)
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				q := &proof.SDKQueryProvingInfo{}
				s := func(k, i int) string { return strings.Clone(strOf(realBytes(ev, id(m, k, i)))) }
				bh := func(k, i int) string { return strOf(realBytes(ev, byteVars(m, fmt.Sprintf("bh%d_%d_", k, i), 1+k))) }
				for i := 0; i < x[0]; i++ {
					q.ReceiptInfos = append(q.ReceiptInfos, &proof.SDKQueryProvingInfoForReceipt{TransactionHash: s(0, i), BlockHash: bh(0, i)})
				}
				for i := 0; i < x[1]; i++ {
					q.StorageSlotInfos = append(q.StorageSlotInfos, &proof.SDKQueryProvingInfoForStorageSlot{StorageHash: s(1, i), BlockHash: bh(1, i)})
				}
				for i := 0; i < x[2]; i++ {
					q.TransactionInfos = append(q.TransactionInfos, &proof.SDKQueryProvingInfoForTransaction{TransactionHash: s(2, i), BlockHash: bh(2, i)})
				}
				return []any{q.GetSubProofS3Path()}
			},
		})
	}
}
