//go:build go1.23

package nchecks

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strings"

	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/ethereum/go-ethereum/common"
	ethtypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"verif/engine/gosym"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() { Registry["U06"] = checkU06 }

// item is an RLP item: an integer, a byte string or a list.
type item struct {
	n    *sym.Term
	bs   []*sym.Term
	list []item
	kind byte // 'i', 'b', 'l'
}

// rlpItem is what go-ethereum's encoder writes for a value of type t.
func rlpItem(m *gosym.M, t types.Type, v gosym.Val) item {
	isByte := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	isBig := func(t types.Type) bool { return t.String() == "math/big.Int" }
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c, ok := v.(*gosym.Cell)
		if !ok {
			m.Fail(fmt.Sprintf("RLP encoding of %T", v))
		}
		if isBig(u.Elem()) {
			if c == nil {
				return item{n: m.B.I(0), kind: 'i'}
			}
			return item{n: m.BigOf(c), kind: 'i'}
		}
		if c == nil {
			switch e := u.Elem().Underlying().(type) {
			case *types.Array:
				if isByte(e.Elem()) {
					return item{kind: 'b'}
				}
			case *types.Slice:
				if isByte(e.Elem()) {
					return item{kind: 'b'}
				}
			case *types.Basic:
				return item{kind: 'b'}
			}
			return item{kind: 'l'}
		}
		return rlpItem(m, u.Elem(), m.Load(c))
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 || u.Info()&types.IsBoolean != 0 {
			return item{n: toInt(m, v), kind: 'i'}
		}
		if u.Info()&types.IsString != 0 {
			return item{bs: ints(m, v), kind: 'b'}
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			return item{bs: ints(m, v), kind: 'b'}
		}
		r := item{kind: 'l'}
		if !isNil(v) {
			for _, e := range m.Elems(v) {
				r.list = append(r.list, rlpItem(m, u.Elem(), e))
			}
		}
		return r
	case *types.Array:
		if isByte(u.Elem()) {
			return item{bs: ints(m, v), kind: 'b'}
		}
		r := item{kind: 'l'}
		for _, e := range m.Elems(v) {
			r.list = append(r.list, rlpItem(m, u.Elem(), e))
		}
		return r
	case *types.Struct:
		r := item{kind: 'l'}
		for i := 0; i < u.NumFields(); i++ {
			tag := reflect.StructTag(u.Tag(i)).Get("rlp")
			if !u.Field(i).Exported() || tag == "-" {
				continue
			}
			if strings.Contains(tag, "optional") || strings.Contains(tag, "tail") || strings.Contains(tag, "nilList") {
				m.Fail("RLP tag " + tag)
			}
			r.list = append(r.list, rlpItem(m, u.Field(i).Type(), v.(gosym.Agg)[i]))
		}
		return r
	}
	m.Fail("RLP encoding of " + t.String())
	return item{}
}

// sameItem: the two items have the same encoding.
func sameItem(m *gosym.M, x, y item) *sym.Term {
	norm := func(i item) item {
		if i.kind == 'i' && m.B.HiOf(i.n).Sign() == 0 && m.B.LoOf(i.n).Sign() == 0 {
			return item{kind: 'b'}
		}
		return i
	}
	x, y = norm(x), norm(y)
	if x.kind != y.kind {
		return m.B.F
	}
	switch x.kind {
	case 'i':
		return m.B.IEq(x.n, y.n)
	case 'b':
		return eqInts(m, x.bs, y.bs)
	}
	if len(x.list) != len(y.list) {
		return m.B.F
	}
	var ts []*sym.Term
	for i := range x.list {
		ts = append(ts, sameItem(m, x.list[i], y.list[i]))
	}
	return m.B.And(ts...)
}

func checkU06(c *hk.Check) {
	p := load(c, pProof, pUtils, pGeth+"common", pGeth+"core/types")
	if p == nil {
		return
	}
	c.Bound("legacy transactions with and without replay protection and EIP-1559 transactions, plus refused types (EIP-2930, blob); with and without recipient; data of 0, 1, 4, 55 and 56 bytes; access lists of 0 to 2 entries with 0 to 2 keys; every nonce, gas, price, value, chain id, signature r and s, recovery id and content")
	c.OutOf("go-ethereum's RLP encoder, keccak, ecrecover and address derivation (modelled as uninterpreted functions whose arguments are compared; replayed with the real ones); chain ids of 2^250 and more")
	tx := pGeth + "core/types"
	type q struct {
		typ   int // 0 legacy, 1 access list, 2 dynamic fee, 3 blob; -1 legacy without replay protection
		to    bool
		data  int
		acl   []int // keys per entry
		tuple string
	}
	cases := []q{{0, true, 0, nil, ""}, {0, true, 4, nil, ""}, {0, false, 56, nil, ""}, {-1, true, 1, nil, ""}, {2, true, 0, nil, ""}, {2, true, 4, []int{0}, ""}, {2, false, 55, []int{1, 2}, ""}, {1, true, 1, []int{1}, ""}, {3, true, 1, nil, ""}}
	if c.Tier == "thorough" {
		cases = append(cases, q{0, false, 0, nil, ""}, q{0, true, 300, nil, ""}, q{2, true, 256, []int{3, 0, 1}, ""}, q{2, false, 1, []int{1, 1, 1, 1}, ""})
	}
	order := crypto.S256().Params().N
	for _, x := range cases {
		x := x
		for _, fn := range []string{"PrepareUnsignedTransactionRlp", "RecoverTransactionSignerAddress"} {
			fn := fn
			recover := fn[0] == 'R'
			u := func(m *gosym.M, n string, w int) *sym.Term { return m.B.BitsVar(n, w) }
			rv := func(m *gosym.M) *sym.Term { return m.B.Var("r", big.NewInt(1), new(big.Int).Sub(order, big.NewInt(1))) }
			sv := func(m *gosym.M) *sym.Term { return m.B.Var("s", big.NewInt(1), new(big.Int).Rsh(order, 1)) }
			yv := func(m *gosym.M) *sym.Term { return m.B.BitsVar("y", 1) }
			vv := func(m *gosym.M) *sym.Term {
				switch x.typ {
				case 0:
					return m.B.AddK(m.B.Add(m.B.Scale(u(m, "chain", 250), big.NewInt(2)), yv(m)), 35)
				case -1:
					return m.B.AddK(yv(m), 27)
				}
				return yv(m)
			}
			acl := func(m *gosym.M) (gosym.Val, item) {
				tt := p.Type(tx, "AccessTuple")
				ht := p.Type(pGeth+"common", "Hash")
				var vs []gosym.Val
				it := item{kind: 'l'}
				arr := func(n string, l int) (gosym.Agg, item) {
					bs := byteVars(m, n, l)
					var a gosym.Agg
					for _, t := range bs {
						a = append(a, t)
					}
					return a, item{bs: bs, kind: 'b'}
				}
				for i, n := range x.acl {
					adr, ai := arr(fmt.Sprintf("acl%d_", i), 20)
					var ks []gosym.Val
					ki := item{kind: 'l'}
					for j := 0; j < n; j++ {
						k, kit := arr(fmt.Sprintf("acl%dk%d_", i, j), 32)
						ks, ki.list = append(ks, k), append(ki.list, kit)
					}
					vs = append(vs, m.MkStruct(tt, map[string]gosym.Val{"Address": adr, "StorageKeys": m.MkSlice(ht, ks)}))
					it.list = append(it.list, item{kind: 'l', list: []item{ai, ki}})
				}
				return m.MkSlice(tt, vs), it
			}
			want := func(m *gosym.M) item {
				n := func(name string, w int) item { return item{n: u(m, name, w), kind: 'i'} }
				to := item{kind: 'b'}
				if x.to {
					to.bs = byteVars(m, "to", 20)
				}
				data := item{kind: 'b', bs: byteVars(m, "data", x.data)}
				zero := item{kind: 'b'}
				r := item{kind: 'l'}
				if x.typ == 2 {
					_, al := acl(m)
					r.list = []item{n("chain", 250), n("nonce", 64), n("tip", 256), n("price", 256), n("gas", 64), to, n("value", 256), data, al}
				} else {
					r.list = []item{n("nonce", 64), n("price", 256), n("gas", 64), to, n("value", 256), data, n("chain", 250), zero, zero}
				}
				return r
			}
			// what the modelled functions were given
			type call struct {
				t  types.Type
				it item
				bs []*sym.Term
				h  []*sym.Term
			}
			var encs, hashes, recs, adrs []call
			mark := func(m *gosym.M, what byte, n, l int) []*sym.Term {
				r := make([]*sym.Term, l)
				for i := range r {
					r[i] = m.B.I(int64(what))
				}
				r[0] = m.B.I(0xc0)
				r[1] = m.B.I(int64(n))
				return r
			}
			find := func(m *gosym.M, what byte, l, count int, v []*sym.Term) int {
				for i := 0; i < count; i++ {
					if eqInts(m, v, mark(m, what, i, l)) == m.B.T {
						return i
					}
				}
				return -1
			}
			name := fmt.Sprintf("%s/%d/%v/%d/%v", fn, x.typ, x.to, x.data, x.acl)
			run(c, p, N{Name: name, Pkg: pProof, Fn: fn, Samples: 3, Abstract: true,
				Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
					m.Stubs[pGeth+"rlp.EncodeToBytes"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
						i := cc.Args[0].(gosym.Iface)
						encs = append(encs, call{it: rlpItem(m, i.T, i.V)})
						return m.Ret(m.MkBytes(mark(m, 'e', len(encs)-1, 9), 0), gosym.Iface{})
					}
					m.Stubs[pGeth+"crypto.Keccak256"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
						var bs []*sym.Term
						if !isNil(cc.Args[0]) {
							for _, e := range m.Elems(cc.Args[0]) {
								bs = append(bs, ints(m, e)...)
							}
						}
						hashes = append(hashes, call{bs: bs})
						return m.Ret(m.MkBytes(mark(m, 'h', len(hashes)-1, 32), 0))
					}
					m.Stubs[pGeth+"crypto.Keccak256Hash"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
						var bs []*sym.Term
						for _, e := range m.Elems(cc.Args[0]) {
							bs = append(bs, ints(m, e)...)
						}
						hashes = append(hashes, call{bs: bs})
						var a gosym.Agg
						for _, t := range mark(m, 'h', len(hashes)-1, 32) {
							a = append(a, t)
						}
						return m.Ret(a)
					}
					m.Stubs[pGeth+"crypto.Ecrecover"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
						h, sig := ints(m, cc.Args[0]), ints(m, cc.Args[1])
						if len(h) != 32 || len(sig) != 65 {
							return m.Ret(gosym.Slice{}, m.ErrIface("ecrecover"))
						}
						recs = append(recs, call{h: h, bs: sig})
						return m.Ret(m.MkBytes(mark(m, 4, len(recs)-1, 65), 0), gosym.Iface{})
					}
					pk := p.Type("crypto/ecdsa", "PublicKey")
					key := func(m *gosym.M, bs []*sym.Term) gosym.Val {
						i := find(m, 4, 65, len(recs), bs)
						return m.MkPtr(pk, m.MkStruct(pk, map[string]gosym.Val{"X": m.MkBig(m.B.I(int64(i))), "Y": m.MkBig(m.B.I(7))}))
					}
					m.Stubs[pGeth+"crypto.UnmarshalPubkey"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
						return m.Ret(key(m, ints(m, cc.Args[0])), gosym.Iface{})
					}
					m.Stubs[pGeth+"crypto.SigToPub"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
						h, sig := ints(m, cc.Args[0]), ints(m, cc.Args[1])
						if len(h) != 32 || len(sig) != 65 {
							return m.Ret((*gosym.Cell)(nil), m.ErrIface("ecrecover"))
						}
						recs = append(recs, call{h: h, bs: sig})
						return m.Ret(key(m, mark(m, 4, len(recs)-1, 65)), gosym.Iface{})
					}
					m.Stubs[pGeth+"crypto.PubkeyToAddress"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
						adrs = append(adrs, call{bs: []*sym.Term{m.BigOf(m.Field(pk, cc.Args[0], "X"))}})
						var a gosym.Agg
						for _, t := range mark(m, 'a', len(adrs)-1, 20) {
							a = append(a, t)
						}
						return m.Ret(a)
					}
					big_ := func(t *sym.Term) gosym.Val { return m.MkBig(t) }
					var to gosym.Val = (*gosym.Cell)(nil)
					at := p.Type(pGeth+"common", "Address")
					if x.to {
						var a gosym.Agg
						for _, t := range byteVars(m, "to", 20) {
							a = append(a, t)
						}
						to = m.MkPtr(at, a)
					}
					f := map[string]gosym.Val{"Nonce": u(m, "nonce", 64), "Gas": u(m, "gas", 64), "To": to, "Value": big_(u(m, "value", 256)),
						"Data": m.MkBytes(byteVars(m, "data", x.data), 0), "V": big_(vv(m)), "R": big_(rv(m)), "S": big_(sv(m))}
					if x.typ <= 1 {
						f["GasPrice"] = big_(u(m, "price", 256))
					} else {
						f["GasTipCap"], f["GasFeeCap"] = big_(u(m, "tip", 256)), big_(u(m, "price", 256))
					}
					tn := "LegacyTx"
					if x.typ > 0 {
						tn = []string{"AccessListTx", "DynamicFeeTx", "BlobTx"}[x.typ-1]
						f["AccessList"], _ = acl(m)
						f["ChainID"] = big_(u(m, "chain", 250))
					}
					if x.typ == 3 {
						f = map[string]gosym.Val{} // refused whatever it holds
					}
					it := p.Type(tx, tn)
					txt := p.Type(tx, "Transaction")
					if it == nil || txt == nil {
						m.Fail("no type " + tn)
					}
					inner := gosym.Iface{T: types.NewPointer(it), V: m.MkPtr(it, m.MkStruct(it, f))}
					return []gosym.Val{m.MkPtr(txt, m.MkStruct(txt, map[string]gosym.Val{"inner": inner}))}, nil
				},
				Observe: func(m *gosym.M, a []gosym.Val, o gosym.Out) []gosym.Val {
					b := m.B
					failed := isErr(o.Vals[1])
					supported := x.typ == 0 || x.typ == 2
					if failed || !supported && !(x.typ == -1 && !recover) {
						return []gosym.Val{b.Bool(failed == (!supported && (recover || x.typ > 0)))}
					}
					if x.typ == -1 {
						return []gosym.Val{b.T} // not a payload the property speaks about
					}
					isEnc := func(bs []*sym.Term) *sym.Term {
						i := find(m, 'e', 9, len(encs), bs)
						if i < 0 {
							return b.F
						}
						return sameItem(m, encs[i].it, want(m))
					}
					out := ints(m, o.Vals[0])
					if !recover {
						return []gosym.Val{isEnc(out)}
					}
					ai := find(m, 'a', 20, len(adrs), out)
					if ai < 0 {
						return []gosym.Val{b.F}
					}
					ri := b.LoOf(adrs[ai].bs[0])
					if ri.Sign() < 0 || ri.Cmp(b.HiOf(adrs[ai].bs[0])) != 0 {
						return []gosym.Val{b.F}
					}
					rec := recs[ri.Int64()]
					hi := find(m, 'h', 32, len(hashes), rec.h)
					if hi < 0 {
						return []gosym.Val{b.F}
					}
					pre := hashes[hi].bs
					ok := b.T
					if x.typ == 2 {
						if len(pre) == 0 {
							return []gosym.Val{b.F}
						}
						ok, pre = b.IEq(pre[0], b.I(2)), pre[1:]
					}
					return []gosym.Val{b.And(ok, isEnc(pre), eqBE(m, rv(m), rec.bs[:32]), eqBE(m, sv(m), rec.bs[32:64]), b.IEq(rec.bs[64], yv(m)))}
				},
				Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
					if pan {
						return m.B.F
					}
					return v[0].(*sym.Term)
				},
				Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
					bs := func(n string, l int) []byte { return realBytes(ev, byteVars(m, n, l)) }
					var to *common.Address
					if x.to {
						a := common.BytesToAddress(bs("to", 20))
						to = &a
					}
					var al ethtypes.AccessList
					for i, n := range x.acl {
						tu := ethtypes.AccessTuple{Address: common.BytesToAddress(bs(fmt.Sprintf("acl%d_", i), 20))}
						for j := 0; j < n; j++ {
							tu.StorageKeys = append(tu.StorageKeys, common.BytesToHash(bs(fmt.Sprintf("acl%dk%d_", i, j), 32)))
						}
						al = append(al, tu)
					}
					r := ev(rv(m))
					mk := func() *ethtypes.Transaction {
						nonce, gas, val, data, v, s := ev(u(m, "nonce", 64)).Uint64(), ev(u(m, "gas", 64)).Uint64(), ev(u(m, "value", 256)), bs("data", x.data), ev(vv(m)), ev(sv(m))
						pr, tip, ch := ev(u(m, "price", 256)), ev(u(m, "tip", 256)), ev(u(m, "chain", 250))
						switch x.typ {
						case 1:
							return ethtypes.NewTx(&ethtypes.AccessListTx{ChainID: ch, Nonce: nonce, GasPrice: pr, Gas: gas, To: to, Value: val, Data: data, AccessList: al, V: v, R: r, S: s})
						case 2:
							return ethtypes.NewTx(&ethtypes.DynamicFeeTx{ChainID: ch, Nonce: nonce, GasTipCap: tip, GasFeeCap: pr, Gas: gas, To: to, Value: val, Data: data, AccessList: al, V: v, R: r, S: s})
						case 3:
							return ethtypes.NewTx(&ethtypes.BlobTx{})
						}
						return ethtypes.NewTx(&ethtypes.LegacyTx{Nonce: nonce, GasPrice: pr, Gas: gas, To: to, Value: val, Data: data, V: v, R: r, S: s})
					}
					t := mk()
					signer := ethtypes.NewLondonSigner(t.ChainId())
					var from common.Address
					if x.typ == 0 || x.typ == 2 {
						// the nearest r that some key can have signed with
						step := big.NewInt(1)
						if r.Cmp(new(big.Int).Rsh(order, 1)) > 0 {
							step.SetInt64(-1)
						}
						for i := 0; i < 500; i++ {
							t = mk()
							var err error
							if from, err = ethtypes.Sender(signer, t); err == nil {
								break
							}
							r = new(big.Int).Add(r, step)
						}
					}
					supported := x.typ == 0 || x.typ == 2
					if recover {
						got, err := proof.RecoverTransactionSignerAddress(t)
						if !supported {
							return []any{err != nil}
						}
						return []any{err == nil && common.BytesToAddress(got) == from && len(got) == 20}
					}
					got, err := proof.PrepareUnsignedTransactionRlp(t)
					if !supported {
						return []any{err != nil || x.typ == -1}
					}
					if x.typ == 2 {
						got = append([]byte{2}, got...)
					}
					return []any{err == nil && crypto.Keccak256Hash(got) == signer.Hash(t)}
				},
			})
		}
	}
}
