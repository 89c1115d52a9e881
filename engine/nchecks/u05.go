//go:build go1.23

package nchecks

import (
	"fmt"
	"math/big"

	fsmt "github.com/brevis-network/zk-utils/circuits/fabric/smt"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/rlp"
	"verif/engine/gosym"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() { Registry["U05"] = checkU05 }

func checkU05(c *hk.Check) {
	p := load(c, pUtils, pCirc, pSmt, pGeth+"common", pGeth+"common/hexutil")
	if p == nil {
		return
	}
	c.Bound("0, 1 or 2 headers; every difficulty, number and base fee below 2^80, every uint64 gas limit, gas used and time; header encodings of 530..560 and 665..679 bytes (both sides of the 4-to-5 block boundary, and the 5-block limit) in the thorough tier, nine of those lengths in the quick tier, every content")
	c.OutOf("the RLP encoder (go-ethereum's rlp.EncodeToBytes is replaced by arbitrary bytes of the length under test); headers without a base fee; encodings above 679 bytes (a header with at most 32 bytes of extra data has at most 647)")
	hdrT := p.Type(pGeth+"core/types", "Header")
	if hdrT == nil {
		c.Err("no type Header")
		return
	}
	lens := [][]int{{}, {530}, {535}, {542}, {543}, {544}, {560}, {600}, {678}, {679}, {543, 679}, {600, 544}}
	if c.Tier == "thorough" {
		for i := 531; i <= 559; i++ {
			lens = append(lens, []int{i})
		}
		for i := 665; i < 678; i++ {
			lens = append(lens, []int{i})
		}
	}
	for _, ls := range lens {
		ls := ls
		fields := []string{"Difficulty", "Number", "BaseFee", "GasLimit", "GasUsed", "Time"}
		limit := []int{56, 64, 56, 32, 32, 32}
		fv := func(m *gosym.M, i, f int) *sym.Term {
			w := 80
			if f >= 3 {
				w = 64
			}
			return m.B.BitsVar(fmt.Sprintf("%s%d", fields[f], i), w)
		}
		code := func(m *gosym.M, i int) []*sym.Term { return byteVars(m, fmt.Sprintf("rlp%d_", i), ls[i]) }
		run(c, p, N{Name: fmt.Sprintf("EncodeHeaders/%v", ls), Pkg: pSmt, Fn: "EncodeHeaders", Samples: 4, Abstract: true,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				m.Stubs[pGeth+"rlp.EncodeToBytes"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
					// which header it is shows in its number
					h := m.Load(cc.Args[0].(gosym.Iface).V.(*gosym.Cell))
					num := m.BigOf(m.Field(hdrT, h, "Number"))
					for i := range ls {
						if num == fv(m, i, 1) {
							return m.Ret(m.MkBytes(code(m, i), 0), gosym.Iface{})
						}
					}
					m.Fail("rlp.EncodeToBytes of something other than a header")
					return nil
				}
				var hs []gosym.Val
				for i := range ls {
					f := map[string]gosym.Val{}
					for j, n := range fields {
						f[n] = fv(m, i, j)
						if j < 3 {
							f[n] = m.MkBig(fv(m, i, j))
						}
					}
					hs = append(hs, m.MkStruct(hdrT, f))
				}
				return []gosym.Val{m.MkSlice(hdrT, hs)}, nil
			},
			Observe: func(m *gosym.M, a []gosym.Val, o gosym.Out) []gosym.Val {
				r := append([]gosym.Val{}, o.Vals...)
				for i := range ls {
					r = append(r, m.MkBytes(code(m, i), 0))
				}
				return r
			},
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				b := m.B
				if pan {
					return b.F
				}
				ok := b.T
				for i := range ls {
					for j := range fields {
						ok = b.And(ok, b.ILt(fv(m, i, j), b.Const(b.Pow2(limit[j]))))
					}
				}
				if isErr(v[2]) {
					return b.Not(ok)
				}
				ts := []*sym.Term{ok}
				var enc, idx []gosym.Val
				if !isNil(v[0]) {
					enc = m.Elems(v[0])
				}
				if !isNil(v[1]) {
					idx = m.Elems(v[1])
				}
				if len(enc) != len(ls) || len(idx) != len(ls) {
					return b.F
				}
				for i := range ls {
					data := ints(m, v[3+i])
					n := len(data)/136 + 1
					pad := append(append([]*sym.Term{}, data...), b.I(1))
					for len(pad) < n*136 {
						pad = append(pad, b.I(0))
					}
					if len(data)%136 == 135 {
						pad[len(pad)-1] = b.I(0x81)
					} else {
						pad[len(pad)-1] = b.I(0x80)
					}
					var bits []*sym.Term
					for _, x := range pad {
						bits = append(bits, bits01(m, x, 8)...)
					}
					for len(bits) < 5*1088 {
						bits = append(bits, b.I(0))
					}
					ts = append(ts, b.IEq(toInt(m, idx[i]), b.I(int64(n-1))), eqInts(m, ints(m, enc[i]), bits))
				}
				return b.And(ts...)
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				var hs []types.Header
				var codes []any
				for i := range ls {
					h := types.Header{Difficulty: ev(fv(m, i, 0)), Number: ev(fv(m, i, 1)), BaseFee: ev(fv(m, i, 2)),
						GasLimit: ev(fv(m, i, 3)).Uint64(), GasUsed: ev(fv(m, i, 4)).Uint64(), Time: ev(fv(m, i, 5)).Uint64(), WithdrawalsHash: &common.Hash{}}
					d := code(m, i)
					var e []byte
					for x := 0; x < 300; x++ { // extra data that gives the encoding its length
						h.Extra = realBytes(ev, d[:x])
						if e, _ = rlp.EncodeToBytes(&h); len(e) >= len(d) {
							break
						}
					}
					hs, codes = append(hs, h), append(codes, e)
				}
				enc, idx, err := fsmt.EncodeHeaders(hs)
				return append([]any{enc, idx, err}, codes...)
			},
		})
	}
}
