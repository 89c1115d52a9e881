//go:build go1.23

package nchecks

import (
	"bytes"
	"fmt"
	"go/types"
	"math/big"

	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/rawdb"
	ethtypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb/memorydb"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/ethereum/go-ethereum/trie"
	"github.com/ethereum/go-ethereum/triedb"
	"verif/engine/gosym"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() { Registry["U08"] = checkU08 }

// rlpUint: bs is the RLP encoding of the unsigned integer n.
func rlpUint(m *gosym.M, n *sym.Term, bs []*sym.Term) *sym.Term {
	b := m.B
	switch {
	case len(bs) == 0 || len(bs) > 9:
		return b.F
	case len(bs) == 1:
		return b.Or(b.And(b.IEq(n, b.I(0)), b.IEq(bs[0], b.I(0x80))), b.And(b.ILe(b.I(1), n), b.ILt(n, b.I(128)), b.IEq(bs[0], n)))
	}
	lo := b.I(128)
	if len(bs) > 2 {
		lo = b.Const(new(big.Int).Lsh(big.NewInt(1), uint(8*(len(bs)-2))))
	}
	return b.And(b.ILe(lo, n), b.IEq(bs[0], b.I(int64(0x80+len(bs)-1))), eqBE(m, n, bs[1:]))
}

func checkU08(c *hk.Check) {
	p := load(c, pProof, pUtils, pGeth+"common", pGeth+"core/types", pGeth+"trie", pGeth+"triedb", pGeth+"core/rawdb", pGeth+"rlp")
	if p == nil {
		return
	}
	c.Bound("blocks of 0, 1, 2, 129 and 300 transactions or receipts; every int index; every root in the header, matching or not; proofs of 1 to 3 nodes; GetReceiptRaw for receipts at positions 0 to 3 and for none")
	c.OutOf("go-ethereum's trie, DeriveSha, RLP decoder and receipt encoder (modelled: a trie built from the list yields some nodes for the key it is asked for; replayed with the real ones)")
	ct := pGeth + "core/types"
	for _, fn := range []string{"GetTransactionProof", "GetReceiptProof"} {
		rec := fn == "GetReceiptProof"
		for _, x := range []struct {
			n, depth int
			match    bool
		}{{0, 0, true}, {0, 0, false}, {1, 1, true}, {1, 1, false}, {2, 2, true}, {129, 2, false}, {129, 3, true}, {300, 3, true}} {
			rec, x := rec, x
			idx := func(m *gosym.M) *sym.Term {
				return m.B.Var("index", new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63)), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1)))
			}
			type call struct{ key []*sym.Term }
			var calls []call
			lens := []int{40, 33, 12}[:x.depth]
			valLen := 5
			node := func(m *gosym.M, call, k int) []*sym.Term {
				bs := byteVars(m, fmt.Sprintf("node%d_", k), lens[k])
				bs[0] = m.B.I(int64(call))
				bs[1] = m.B.I(int64(k))
				return bs
			}
			hash := func(m *gosym.M, name string) gosym.Agg {
				var a gosym.Agg
				for _, t := range byteVars(m, name, 32) {
					a = append(a, t)
				}
				return a
			}
			name := fmt.Sprintf("%s/%d/%d/%v", fn, x.n, x.depth, x.match)
			run(c, p, N{Name: name, Pkg: pProof, Fn: fn, Samples: 3, Abstract: true,
				Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
					built := map[*gosym.Cell]bool{} // tries built from the right list
					mkList := func(t string) (gosym.Slice, []*gosym.Cell) {
						et := p.Type(ct, t)
						var vs []gosym.Val
						var cs []*gosym.Cell
						for i := 0; i < x.n; i++ {
							cell := m.MkPtr(et, m.MkStruct(et, nil))
							vs, cs = append(vs, cell), append(cs, cell)
						}
						return m.MkSlice(gosym.PtrTo(et), vs), cs
					}
					txs, txc := mkList("Transaction")
					rcs, rcc := mkList("Receipt")
					good := txc
					if rec {
						good = rcc
					}
					tt := p.Type(pGeth+"trie", "Trie")
					m.Stubs[pGeth+"core/rawdb.NewMemoryDatabase"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
						return m.Ret(gosym.Iface{T: tt, V: gosym.Opaque{What: "memorydb"}})
					}
					m.Stubs[pGeth+"triedb.NewDatabase"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
						return m.Ret(m.NewCell(p.Type(pGeth+"triedb", "Database")))
					}
					m.Stubs[pGeth+"trie.NewEmpty"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
						return m.Ret(m.NewCell(tt))
					}
					m.Stubs[ct+".DeriveSha"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
						l := cc.Args[0].(gosym.Iface)
						var es []gosym.Val
						if !isNil(l.V) {
							es = m.Elems(l.V)
						}
						ok := len(es) == len(good) && (x.n == 0 && (l.T.String() == ct+".Receipts") == rec || x.n > 0 && es[0] == gosym.Val(good[0]))
						for i := range es {
							ok = ok && es[i] == gosym.Val(good[i])
						}
						if t, is := cc.Args[1].(gosym.Iface); is {
							if cell, is := t.V.(*gosym.Cell); is {
								built[cell] = ok
							}
						}
						if ok {
							return m.Ret(hash(m, "root"))
						}
						return m.Ret(hash(m, "otherroot"))
					}
					m.Stubs["(*"+pGeth+"trie.Trie).Prove"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
						if !built[cc.Args[0].(*gosym.Cell)] {
							return m.Ret(gosym.Iface{}) // an empty trie, or another list's: nothing the property asks for
						}
						calls = append(calls, call{ints(m, cc.Args[1])})
						for k := 0; k < x.depth; k++ {
							r := m.Invoke(cc.Args[2].(gosym.Iface), "Put", m.MkBytes(byteVars(m, fmt.Sprintf("nodehash%d_", k), 32), 0), m.MkBytes(node(m, len(calls)-1, k), 0))
							if isErr(r[0]) {
								return m.Ret(r[0])
							}
						}
						return m.Ret(gosym.Iface{})
					}
					m.Stubs[pGeth+"rlp.DecodeBytes"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
						bs := ints(m, cc.Args[0])
						ptr, ok := cc.Args[1].(gosym.Iface)
						if !ok || ptr.T.String() != "*[][]byte" {
							m.Fail("RLP decoding into another type")
						}
						bst := types.NewSlice(gosym.ByteType)
						is := func(k int) bool {
							if x.depth == 0 || len(bs) != lens[k] {
								return false
							}
							n, ok := m.B.ConstVal(bs[0])
							return ok && eqInts(m, bs, node(m, int(n.Int64()), k)) == m.B.T
						}
						for k := 0; k < x.depth; k++ {
							if !is(k) {
								continue
							}
							var items []gosym.Val
							if k == x.depth-1 {
								items = []gosym.Val{m.MkBytes(byteVars(m, "path", 3), 0), m.MkBytes(bs[len(bs)-valLen:], 0)}
							} else {
								for i := 0; i < 17; i++ {
									items = append(items, m.MkBytes(nil, 0))
								}
							}
							m.Store(ptr.V.(*gosym.Cell), m.MkSlice(bst, items))
							return m.Ret(gosym.Iface{})
						}
						return m.Ret(m.ErrIface("rlp"))
					}
					own := "root"
					if !x.match {
						own = "own"
					}
					ht, bt := p.Type(ct, "Header"), p.Type(ct, "Block")
					h := map[string]gosym.Val{"Number": m.MkBig(m.B.Var("number", big.NewInt(0), max64)), "TxHash": hash(m, own), "ReceiptHash": hash(m, "other")}
					if rec {
						h["TxHash"], h["ReceiptHash"] = h["ReceiptHash"], h["TxHash"]
					}
					blk := m.MkPtr(bt, m.MkStruct(bt, map[string]gosym.Val{"header": m.MkPtr(ht, m.MkStruct(ht, h)), "transactions": txs}))
					if rec {
						return []gosym.Val{blk, rcs, idx(m)}, nil
					}
					return []gosym.Val{blk, idx(m)}, nil
				},
				Observe: func(m *gosym.M, a []gosym.Val, o gosym.Out) []gosym.Val {
					b := m.B
					should := b.And(b.ILe(b.I(0), idx(m)), b.ILt(idx(m), b.I(int64(x.n))))
					if !x.match {
						should = b.And(should, eqInts(m, byteVars(m, "root", 32), byteVars(m, "own", 32)))
					}
					if isErr(o.Vals[3]) {
						return []gosym.Val{b.Not(should)}
					}
					var nodes []gosym.Val
					if !isNil(o.Vals[0]) {
						nodes = m.Elems(o.Vals[0])
					}
					if len(nodes) != x.depth || x.depth == 0 {
						return []gosym.Val{b.F}
					}
					first := ints(m, nodes[0])
					if len(first) == 0 {
						return []gosym.Val{b.F}
					}
					n, ok := b.ConstVal(first[0])
					if !ok || n.Int64() >= int64(len(calls)) {
						return []gosym.Val{b.F}
					}
					g := []*sym.Term{should, rlpUint(m, idx(m), calls[n.Int64()].key), rlpUint(m, idx(m), ints(m, o.Vals[1]))}
					for k := range nodes {
						g = append(g, eqInts(m, ints(m, nodes[k]), node(m, int(n.Int64()), k)))
					}
					leaf := node(m, int(n.Int64()), x.depth-1)
					g = append(g, eqInts(m, ints(m, o.Vals[2]), leaf[:len(leaf)-valLen]))
					return []gosym.Val{b.And(g...)}
				},
				Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
					if pan {
						return m.B.F
					}
					return v[0].(*sym.Term)
				},
				Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
					var txs ethtypes.Transactions
					var rcs ethtypes.Receipts
					for i := 0; i < x.n; i++ {
						to := common.BytesToAddress([]byte{byte(i), 1})
						txs = append(txs, ethtypes.NewTx(&ethtypes.LegacyTx{Nonce: uint64(i), To: &to, Value: big.NewInt(5), V: big.NewInt(37), R: big.NewInt(int64(i + 1)), S: big.NewInt(6), GasPrice: new(big.Int)}))
						rcs = append(rcs, &ethtypes.Receipt{Status: 1, CumulativeGasUsed: uint64(21000 * (i + 1)), Logs: []*ethtypes.Log{}})
					}
					var list ethtypes.DerivableList = txs
					if rec {
						list = rcs
					}
					root := ethtypes.DeriveSha(list, trie.NewEmpty(triedb.NewDatabase(rawdb.NewMemoryDatabase(), nil)))
					own := root
					if !x.match {
						r, o := realBytes(ev, byteVars(m, "root", 32)), realBytes(ev, byteVars(m, "own", 32))
						for i := range own {
							own[i] ^= r[i] ^ o[i]
						}
					}
					h := &ethtypes.Header{Number: ev(m.B.Var("number", big.NewInt(0), max64)), Difficulty: new(big.Int), TxHash: own, ReceiptHash: common.BytesToHash(realBytes(ev, byteVars(m, "other", 32)))}
					if rec {
						h.TxHash, h.ReceiptHash = h.ReceiptHash, h.TxHash
					}
					bk := ethtypes.NewBlockWithHeader(h).WithBody(ethtypes.Body{Transactions: txs})
					index := int(ev(idx(m)).Int64())
					var nodes [][]byte
					var key, prefix []byte
					var err error
					if rec {
						nodes, key, prefix, err = proof.GetReceiptProof(bk, rcs, index)
					} else {
						nodes, key, prefix, err = proof.GetTransactionProof(bk, index)
					}
					should := index >= 0 && index < x.n && own == root
					if !should || err != nil {
						return []any{should == (err == nil)}
					}
					db := memorydb.New()
					for _, n := range nodes {
						db.Put(crypto.Keccak256(n), n)
					}
					wantKey, _ := rlp.EncodeToBytes(uint64(index))
					var w bytes.Buffer
					list.EncodeIndex(index, &w)
					val, verr := trie.VerifyProof(root, wantKey, db)
					ok := verr == nil && bytes.Equal(val, w.Bytes()) && bytes.Equal(key, wantKey) && bytes.Equal(append(append([]byte{}, prefix...), val...), nodes[len(nodes)-1])
					if len(nodes) > 0 {
						ok = ok && common.BytesToHash(crypto.Keccak256(nodes[0])) == root
					}
					return []any{ok}
				},
			})
		}
	}
	for _, x := range []struct {
		i   int
		nul bool
	}{{0, false}, {1, false}, {3, false}, {0, true}} {
		x := x
		rt := p.Type(ct, "Receipt")
		seen := false
		run(c, p, N{Name: fmt.Sprintf("GetReceiptRaw/%d/%v", x.i, x.nul), Pkg: pProof, Fn: "GetReceiptRaw", Samples: 2, Abstract: true,
			Setup: func(m *gosym.M) ([]gosym.Val, []*sym.Term) {
				if x.nul {
					return []gosym.Val{(*gosym.Cell)(nil)}, nil
				}
				r := m.MkPtr(rt, m.MkStruct(rt, map[string]gosym.Val{"TransactionIndex": m.B.I(int64(x.i))}))
				m.Stubs["("+ct+".Receipts).EncodeIndex"] = func(m *gosym.M, cc *gosym.CallCtx) []gosym.Out {
					n, ok := m.B.ConstVal(cc.Args[1].(*sym.Term))
					es := m.Elems(cc.Args[0])
					if !ok || n.Sign() < 0 || n.Cmp(big.NewInt(int64(len(es)))) >= 0 || es[n.Int64()] != gosym.Val(r) {
						return m.Ret()
					}
					seen = true
					m.Invoke(gosym.Iface{T: gosym.PtrTo(p.Type("bytes", "Buffer")), V: cc.Args[2]}, "Write", m.MkBytes(byteVars(m, "enc", 9), 0))
					return m.Ret()
				}
				return []gosym.Val{r}, nil
			},
			Observe: func(m *gosym.M, a []gosym.Val, o gosym.Out) []gosym.Val {
				if x.nul || isErr(o.Vals[1]) {
					return []gosym.Val{m.B.Bool(x.nul && isErr(o.Vals[1]))}
				}
				return []gosym.Val{m.B.And(m.B.Bool(seen), eqInts(m, ints(m, o.Vals[0]), byteVars(m, "enc", 9)))}
			},
			Spec: func(m *gosym.M, v []gosym.Val, pan bool) *sym.Term {
				if pan {
					return m.B.F
				}
				return v[0].(*sym.Term)
			},
			Real: func(m *gosym.M, ev func(*sym.Term) *big.Int) []any {
				if x.nul {
					_, err := proof.GetReceiptRaw(nil)
					return []any{err != nil}
				}
				r := &ethtypes.Receipt{Type: uint8(x.i), Status: 1, CumulativeGasUsed: 77, TransactionIndex: uint(x.i), Logs: []*ethtypes.Log{}}
				var w bytes.Buffer
				ethtypes.Receipts{r}.EncodeIndex(0, &w)
				got, err := proof.GetReceiptRaw(r)
				return []any{err == nil && bytes.Equal(got, w.Bytes())}
			},
		})
	}
}

var max64 = new(big.Int).SetUint64(^uint64(0))
