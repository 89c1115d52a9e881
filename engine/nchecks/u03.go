//go:build go1.23

package nchecks

import (
	"fmt"
	"go/types"
	"math/big"

	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/iden3/go-iden3-crypto/poseidon"
	"verif/engine/gosym"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() { Registry["U03"] = checkU03 }

// num is a field of the hashed layout: its value, and how many bits it has there.
type num struct {
	v *sym.Term
	w int
}

// qText is a number in text form: digits hex digits after 0x, or (negative) that many decimal digits.
type qText int

func (q qText) chars(m *gosym.M, name string) (cs, asm []*sym.Term) {
	if q >= 0 {
		return hex0x(m, name, int(q))
	}
	for i := 0; i < int(-q); i++ {
		lo := int64(0)
		if i == 0 && q < -1 {
			lo = 1
		}
		cs = append(cs, m.B.AddK(m.B.Var(fmt.Sprint(name, i), big.NewInt(lo), big.NewInt(9)), '0'))
	}
	return
}

func (q qText) value(m *gosym.M, name string) *sym.Term {
	cs, _ := q.chars(m, name)
	if q >= 0 {
		return m.B.Low(beTerm(m.B, decode(m.B, cs[2:])), 4*int(q)+8)
	}
	w := m.B.I(0)
	for _, c := range cs {
		w = m.B.Add(m.B.Scale(w, big.NewInt(10)), m.B.AddK(c, -'0'))
	}
	return w
}

func checkU03(c *hk.Check) {
	p := load(c, pUtils, pProof, pGeth+"common", pGeth+"common/hexutil")
	if p == nil {
		return
	}
	c.Bound("receipts with 0..3 (quick) / 0..6 (thorough) logs, storage slots, transactions; every uint64 number; base fees of 1..33 hex or 1..39 decimal digits, MPT keys of 2..10, addresses of 38..42, topics of 10..64, values, slots and leaf hashes of 0..66 hex digits, slot values of 1..78 decimal digits: the listed lengths, every choice of digits")
	c.OutOf("the Poseidon hash itself (a stub records its preimage; a counterexample is compared through the real hash); text that is no number; slots of more than 32 bytes (the code panics)")
	type q struct {
		name  string
		logs  int
		texts map[string]qText
	}
	mk := func(x q, fn string, typ string, build func(m *gosym.M, txt func(string) gosym.Val) (gosym.Val, []*sym.Term), layout func(m *gosym.M, val func(string) *sym.Term) ([]num, *sym.Term), real func(ev func(*sym.Term) *big.Int, m *gosym.M, txt func(string) string) ([]byte, error)) {
		expect := func(m *gosym.M) (bits []*sym.Term, ok *sym.Term) {
			fs, ok := layout(m, func(n string) *sym.Term { return x.texts[n].value(m, n+"_") })
			for _, f := range fs {
				ok = m.B.And(ok, m.B.ILt(f.v, m.B.Const(m.B.Pow2(f.w))))
				v := f.v
				for j := 0; j < f.w; j++ {
					bits = append(bits, m.B.Low(v, 1))
					v = m.B.Div(v, big.NewInt(2))
				}
			}
			return bits, ok
		}
		pre := "github.com/iden3/go-iden3-crypto/poseidon.Hash"
		var pres, packs [][]*sym.Term
		run(c, p, N{Name: fn + "/" + x.name, Pkg: pProof, Fn: fn, Samples: 3, Abstract: true,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				m.Stubs[pre] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
					in := m.Elems(cc.Args[0])
					if len(in) > 16 || len(in) == 0 {
						return m.Ret((*gosym.Cell)(nil), m.ErrIface("poseidon"))
					}
					// the result names the preimage
					var ts []*sym.Term
					for _, e := range in {
						ts = append(ts, m.BigOf(e))
					}
					pres = append(pres, ts)
					return m.Ret(m.MkBig(m.B.Const(new(big.Int).Add(m.B.Pow2(250), big.NewInt(int64(len(pres)-1))))), gosym.Iface{})
				}
				m.Stubs[pGeth+"common.LeftPadBytes"] = leftPad
				m.Stubs[pUtils+".PackBitsToInt"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
					in := ints(m, cc.Args[0])
					packs = append(packs, in)
					var r []gosym.Val
					for i := 0; i < len(in); i += 253 {
						r = append(r, m.MkBig(m.B.Const(packID(len(packs)-1, i))))
					}
					return m.Ret(m.MkSlice(bigPtr(p), r))
				}
				return build2(m, x.texts, build)
			},
			Observe: func(m *gosym.M, a []gosym.Val, o gosym.Out) []gosym.Val {
				if isNil(o.Vals[0]) {
					return []gosym.Val{gosym.Agg{}, o.Vals[1]}
				}
				bs := ints(m, o.Vals[0])
				h := new(big.Int)
				for _, t := range bs {
					if m.B.LoOf(t).Cmp(m.B.HiOf(t)) != 0 {
						return []gosym.Val{gosym.Agg{}, o.Vals[1]} // not what the hash returned
					}
					h.Add(h.Lsh(h, 8), m.B.LoOf(t))
				}
				id := h.Sub(h, m.B.Pow2(250))
				if len(bs) != 32 || id.Sign() < 0 || id.Cmp(big.NewInt(int64(len(pres)))) >= 0 {
					return []gosym.Val{gosym.Agg{}, o.Vals[1]}
				}
				var r gosym.Agg
				for _, t := range pres[id.Int64()] {
					r = append(r, t)
				}
				return []gosym.Val{r, o.Vals[1]}
			},
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				b := m.B
				bits, ok := expect(m)
				if pan || isErr(v[1]) {
					return b.Not(ok)
				}
				pre := m.Elems(v[0])
				if len(pre) != (len(bits)+252)/253 {
					return b.F
				}
				ts := []*sym.Term{ok}
				for i, x := range pre {
					e := (i + 1) * 253
					if e > len(bits) {
						e = len(bits)
					}
					ts = append(ts, eqPacked(m, toInt(m, x), bits[253*i:e], packs, 253*i))
				}
				return b.And(ts...)
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				h, err := real(ev, m, func(n string) string {
					cs, _ := x.texts[n].chars(m, n+"_")
					return string(realBytes(ev, cs))
				})
				if err != nil {
					return []any{[]*big.Int{}, err}
				}
				bits, _ := expect(m)
				var want []*big.Int
				for i := 0; i < len(bits); i += 253 {
					z := new(big.Int)
					for j := i; j < i+253 && j < len(bits); j++ {
						z.SetBit(z, j-i, uint(ev(bits[j]).Uint64()))
					}
					want = append(want, z)
				}
				w, err := poseidon.Hash(want)
				if err != nil || w.Cmp(new(big.Int).SetBytes(h)) != 0 {
					want = []*big.Int{} // not the hash of the layout
				}
				return []any{want, nil}
			},
		})
	}
	u64 := func(m *gosym.M, n string) *sym.Term { return m.B.BitsVar(n, 64) }
	maxLogs := 3
	if c.Tier == "thorough" {
		maxLogs = 6
	}
	type rc struct{ fee, key, adr, top, val qText }
	rcs := []rc{{-10, 4, 40, 64, 64}, {32, 8, 38, 12, 2}, {33, 2, 42, 64, 0}, {-39, 10, 40, 10, 66}, {1, 6, 40, 64, 62}}
	for i, r := range rcs {
		r := r
		for n := 0; n <= maxLogs; n++ {
			n := n
			if i > 0 && n != 1 && n != 2 {
				continue
			}
			x := q{name: fmt.Sprintf("%d/%d", i, n), logs: n, texts: map[string]qText{"fee": r.fee, "key": r.key}}
			for j := 0; j < n; j++ {
				x.texts[fmt.Sprint("adr", j)], x.texts[fmt.Sprint("top", j)], x.texts[fmt.Sprint("val", j)] = r.adr, r.top, r.val
			}
			name := func(s string, j int) string { return fmt.Sprint(s, j) }
			mk(x, "MiMCHashReceiptCustomInputs", "SDKQueryProvingInfoForReceipt",
				func(m *gosym.M, txt func(string) gosym.Val) (gosym.Val, []*sym.Term) {
					t, lt := p.Type(pProof, "SDKQueryProvingInfoForReceipt"), p.Type(pProof, "SDKQueryLogExtractInfo")
					var logs []gosym.Val
					for j := 0; j < n; j++ {
						logs = append(logs, m.MkPtr(lt, m.MkStruct(lt, map[string]gosym.Val{
							"ContractAddress": txt(name("adr", j)), "LogIndex": u64(m, name("idx", j)), "LogTopic0": txt(name("top", j)),
							"ValueFromTopic": m.B.BoolVar(name("flag", j)), "ValueIndex": u64(m, name("vix", j)), "Value": txt(name("val", j))})))
					}
					return m.MkPtr(t, m.MkStruct(t, map[string]gosym.Val{
						"BlockNumber": u64(m, "num"), "BlockBaseFee": txt("fee"), "MPTKey": txt("key"), "BlockTime": u64(m, "time"),
						"LogExtractInfos": m.MkSlice(gosym.PtrTo(lt), logs)})), nil
				},
				func(m *gosym.M, val func(string) *sym.Term) ([]num, *sym.Term) {
					b := m.B
					ok := b.T
					fs := []num{{u64(m, "num"), 32}, {val("fee"), 128}, {val("key"), 32}}
					for j := 0; j < n; j++ {
						d := int(r.top) / 2
						if d < 6 {
							ok = b.F
						}
						fs = append(fs, num{val(name("adr", j)), 160}, num{u64(m, name("idx", j)), 16},
							num{b.Div(val(name("top", j)), b.Pow2(8*max(d-6, 0))), 48}, num{b.Ite(b.BoolVar(name("flag", j)), b.I(1), b.I(0)), 1},
							num{u64(m, name("vix", j)), 7})
						if r.val > 64 {
							ok = b.F
						}
						fs = append(fs, num{val(name("val", j)), 256})
					}
					return append(fs, num{u64(m, "time"), 64}), ok
				},
				func(ev func(*sym.Term) *big.Int, m *gosym.M, txt func(string) string) ([]byte, error) {
					d := &proof.SDKQueryProvingInfoForReceipt{BlockNumber: ev(u64(m, "num")).Uint64(), BlockBaseFee: txt("fee"), MPTKey: txt("key"), BlockTime: ev(u64(m, "time")).Uint64()}
					for j := 0; j < n; j++ {
						d.LogExtractInfos = append(d.LogExtractInfos, &proof.SDKQueryLogExtractInfo{
							ContractAddress: txt(name("adr", j)), LogIndex: ev(u64(m, name("idx", j))).Uint64(), LogTopic0: txt(name("top", j)),
							ValueFromTopic: ev(m.B.Ite(m.B.BoolVar(name("flag", j)), m.B.I(1), m.B.I(0))).Sign() != 0, ValueIndex: ev(u64(m, name("vix", j))).Uint64(), Value: txt(name("val", j))})
					}
					return proof.MiMCHashReceiptCustomInputs(d)
				})
		}
	}
	for i, r := range [][4]qText{{-10, 40, 64, -78}, {32, 38, 2, -1}, {33, 42, 63, -20}, {-39, 40, 0, -77}, {2, 1, 5, -40}} {
		x := q{name: fmt.Sprint(i), texts: map[string]qText{"fee": r[0], "acc": r[1], "slot": r[2], "val": r[3]}}
		mk(x, "MiMCHashStorageCustomInputs", "",
			func(m *gosym.M, txt func(string) gosym.Val) (gosym.Val, []*sym.Term) {
				t := p.Type(pProof, "SDKQueryProvingInfoForStorageSlot")
				return m.MkPtr(t, m.MkStruct(t, map[string]gosym.Val{
					"BlockNumber": u64(m, "num"), "BlockBaseFee": txt("fee"), "AccountAddress": txt("acc"), "Slot": txt("slot"), "SlotValue": txt("val"), "BlockTime": u64(m, "time")})), nil
			},
			func(m *gosym.M, val func(string) *sym.Term) ([]num, *sym.Term) {
				return []num{{u64(m, "num"), 32}, {val("fee"), 128}, {val("acc"), 160}, {val("slot"), 256}, {val("val"), 256}, {u64(m, "time"), 64}}, m.B.T
			},
			func(ev func(*sym.Term) *big.Int, m *gosym.M, txt func(string) string) ([]byte, error) {
				return proof.MiMCHashStorageCustomInputs(&proof.SDKQueryProvingInfoForStorageSlot{BlockNumber: ev(u64(m, "num")).Uint64(), BlockBaseFee: txt("fee"),
					AccountAddress: txt("acc"), Slot: txt("slot"), SlotValue: txt("val"), BlockTime: ev(u64(m, "time")).Uint64()})
			})
	}
	for i, r := range [][3]qText{{-10, 2, 64}, {32, 6, 2}, {33, 8, 63}, {-39, 10, 0}, {1, 4, 62}} {
		x := q{name: fmt.Sprint(i), texts: map[string]qText{"fee": r[0], "key": r[1], "leaf": r[2]}}
		mk(x, "MiMCHashTxCustomInputs", "",
			func(m *gosym.M, txt func(string) gosym.Val) (gosym.Val, []*sym.Term) {
				t := p.Type(pProof, "SDKQueryProvingInfoForTransaction")
				return m.MkPtr(t, m.MkStruct(t, map[string]gosym.Val{
					"BlockNumber": u64(m, "num"), "BlockBaseFee": txt("fee"), "MPTKey": txt("key"), "LeafHash": txt("leaf"), "BlockTime": u64(m, "time")})), nil
			},
			func(m *gosym.M, val func(string) *sym.Term) ([]num, *sym.Term) {
				return []num{{u64(m, "num"), 32}, {val("fee"), 128}, {val("key"), 32}, {val("leaf"), 256}, {u64(m, "time"), 64}}, m.B.T
			},
			func(ev func(*sym.Term) *big.Int, m *gosym.M, txt func(string) string) ([]byte, error) {
				return proof.MiMCHashTxCustomInputs(&proof.SDKQueryProvingInfoForTransaction{BlockNumber: ev(u64(m, "num")).Uint64(), BlockBaseFee: txt("fee"),
					MPTKey: txt("key"), LeafHash: txt("leaf"), BlockTime: ev(u64(m, "time")).Uint64()})
			})
	}
}

// packID is the number that stands for bits i, i+1, ... of the k-th list given to PackBitsToInt.
func packID(k, i int) *big.Int {
	return new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 252), big.NewInt(int64(k)<<32+int64(i)))
}

// eqPacked: v is the little-endian value of the bits, or stands for them as PackBitsToInt's result (property U02).
func eqPacked(m *gosym.M, v *sym.Term, bits []*sym.Term, packs [][]*sym.Term, at int) *sym.Term {
	b := m.B
	for k, p := range packs {
		if b.LoOf(v).Cmp(packID(k, at)) == 0 && b.HiOf(v).Cmp(packID(k, at)) == 0 {
			if e := min(len(p), at+253); e-at != len(bits) {
				return b.F
			}
			var ts []*sym.Term
			for i, t := range bits {
				ts = append(ts, b.IEq(p[at+i], t))
			}
			return b.And(ts...)
		}
	}
	return eqBits(m, v, bits)
}

// leftPad models go-ethereum's common.LeftPadBytes on big.Int.Bytes() of a number that fits.
func leftPad(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
	n := int(m.B.LoOf(cc.Args[1].(*sym.Term)).Int64())
	l, ok := cc.Args[0].(gosym.Lazy)
	if !ok {
		es := m.Elems(cc.Args[0])
		for len(es) < n {
			es = append([]gosym.Val{m.B.I(0)}, es...)
		}
		return m.Ret(m.MkSlice(types.Typ[types.Uint8], append([]gosym.Val{}, es...)))
	}
	if m.B.HiOf(l.N).BitLen() > 8*n {
		panic("LeftPadBytes of a number that may not fit")
	}
	var bs []gosym.Val
	for i := n - 1; i >= 0; i-- {
		bs = append(bs, m.B.Low(m.B.Div(l.N, m.B.Pow2(8*i)), 8))
	}
	return m.Ret(m.MkSlice(types.Typ[types.Uint8], bs))
}

func build2(m *gosym.M, texts map[string]qText, build func(m *gosym.M, txt func(string) gosym.Val) (gosym.Val, []*sym.Term)) ([]gosym.Val, []*sym.Term) {
	var asm []*sym.Term
	v, _ := build(m, func(n string) gosym.Val {
		cs, a := texts[n].chars(m, n+"_")
		asm = append(asm, a...)
		return gosym.Str{B: cs}
	})
	return []gosym.Val{v}, asm
}

func bigPtr(p *gosym.Prog) types.Type { return types.NewPointer(p.Type("math/big", "Int")) }
