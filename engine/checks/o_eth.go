//go:build overlay

package checks

import (
	"fmt"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark/frontend"
	"verif/engine/hk"
	"verif/engine/sym"
)

// ethStubs replaces the inclusion check and the three sub-proofs of the address/storage proof.
type ethStubs struct {
	incl    func(maxDepth, klen, maxV int, storage bool, args []V) mpt.CheckMPTInclusionFixedKeyLengthResult
	block   func(args []V) mpt.EthBlockHashResult
	account func(maxDepth int, args []V) mpt.EthAccountProofResult
	storage func(maxDepth int, args []V) mpt.EthStorageProofResult
}

func flat2(x [][]V) []V {
	var r []V
	for _, y := range x {
		r = append(r, y...)
	}
	return r
}

func joinV(a ...[]V) []V {
	var r []V
	for _, x := range a {
		r = append(r, x...)
	}
	return r
}

func init() {
	Registry["T04"] = checkT04
	get := func(api frontend.API) *ethStubs {
		if s := stubsOf(api); s != nil {
			return s.eth
		}
		return nil
	}
	mpt.VerifHookCheckMPTInclusionFixedKeyLength = func(api frontend.API, maxDepth, klen, maxV int, key, value []V, root [64]V, starts, last []V, lastRi, lastPre V, nodes [][]V, ris, pre, types []V, depth V, st bool) mpt.CheckMPTInclusionFixedKeyLengthResult {
		if s := get(api); s != nil && s.incl != nil {
			return s.incl(maxDepth, klen, maxV, st, joinV(key, value, root[:], starts, last, []V{lastRi, lastPre}, flat2(nodes), ris, pre, types, []V{depth}))
		}
		return mpt.CheckMPTInclusionFixedKeyLengthVerifOrig(api, maxDepth, klen, maxV, key, value, root, starts, last, lastRi, lastPre, nodes, ris, pre, types, depth, st)
	}
	mpt.VerifHookCheckEthBlockHash = func(api frontend.API, raw [mpt.EthBlockHeadMaxBlockHexSize]V, nf, ri V) mpt.EthBlockHashResult {
		if s := get(api); s != nil && s.block != nil {
			return s.block(joinV(raw[:], []V{nf, ri}))
		}
		return mpt.CheckEthBlockHashVerifOrig(api, raw, nf, ri)
	}
	mpt.VerifHookCheckEthAccountProof = func(api frontend.API, maxDepth int, root, key [64]V, starts []V, val [228]V, last []V, lastRi, lastPre V, nodes [][]V, ris, pre, types []V, depth V) mpt.EthAccountProofResult {
		if s := get(api); s != nil && s.account != nil {
			return s.account(maxDepth, joinV(root[:], key[:], starts, val[:], last, []V{lastRi, lastPre}, flat2(nodes), ris, pre, types, []V{depth}))
		}
		return mpt.CheckEthAccountProofVerifOrig(api, maxDepth, root, key, starts, val, last, lastRi, lastPre, nodes, ris, pre, types, depth)
	}
	mpt.VerifHookCheckEthStorageProof = func(api frontend.API, maxDepth int, root, key [64]V, val [66]V, starts, last []V, lastRi, lastPre V, nodes [][]V, ris, pre, types []V, depth V) mpt.EthStorageProofResult {
		if s := get(api); s != nil && s.storage != nil {
			return s.storage(maxDepth, joinV(root[:], key[:], starts, val[:], last, []V{lastRi, lastPre}, flat2(nodes), ris, pre, types, []V{depth}))
		}
		return mpt.CheckEthStorageProofVerifOrig(api, maxDepth, root, key, val, starts, last, lastRi, lastPre, nodes, ris, pre, types, depth)
	}
}

// proofIn: the node material of one proof, as wires.
type proofIn struct {
	depth                  int
	starts, last           []*T
	lastRi, lastPre, level *T
	nodes                  [][]*T
	ris, pre, types        []*T
}

func newProof(b *sym.B, name string, depth, leafLen, nodeLen int) *proofIn {
	p := &proofIn{depth: depth}
	p.starts = fieldVars(b, name+"start", depth)
	p.last = fieldVars(b, name+"last", leafLen)
	p.lastRi, p.lastPre, p.level = b.FieldVar(name+"lastRi"), b.FieldVar(name+"lastPre"), b.FieldVar(name+"depth")
	for i := 0; i < depth-1; i++ {
		p.nodes = append(p.nodes, fieldVars(b, fmt.Sprintf("%snode%d_", name, i), nodeLen))
	}
	p.ris = fieldVars(b, name+"ri", depth-1)
	p.pre = fieldVars(b, name+"pre", depth-1)
	p.types = fieldVars(b, name+"type", depth-1)
	return p
}

func (p *proofIn) flat() []*T {
	return join(p.starts, p.last, []*T{p.lastRi, p.lastPre}, join(p.nodes...), p.ris, p.pre, p.types, []*T{p.level})
}

// wires cuts the next values of v into the parts of the proof.
type proofV struct {
	starts, last           []V
	lastRi, lastPre, level V
	nodes                  [][]V
	ris, pre, types        []V
}

func (p *proofIn) take(v *[]V) proofV {
	cut := func(n int) []V { r := (*v)[:n:n]; *v = (*v)[n:]; return r }
	var o proofV
	o.starts, o.last = cut(len(p.starts)), cut(len(p.last))
	x := cut(2)
	o.lastRi, o.lastPre = x[0], x[1]
	for _, n := range p.nodes {
		o.nodes = append(o.nodes, cut(len(n)))
	}
	o.ris, o.pre, o.types = cut(len(p.ris)), cut(len(p.pre)), cut(len(p.types))
	o.level = cut(1)[0]
	return o
}

func boolV(x bool) V {
	if x {
		return 1
	}
	return 0
}

func checkT04(c *hk.Check) {
	c.Bound("slot values: single bytes below 0x80, the empty string and strings of 1..32 bytes, symbolic contents, arbitrary nibbles after the value")
	c.Bound("accounts: nonce as single byte, empty, 1..8 and 32 bytes; balance as single byte, empty, 1..12 bytes; symbolic contents; plus every outcome of the list decoding")
	c.Bound("CheckEthAddressStorageProof: every outcome of the three sub-proofs (any field value of every output wire the combination reads), block number lengths 0..1023")
	c.Stub("CheckMPTInclusionFixedKeyLength (T03): arbitrary result; every argument handed to it is compared with the one that belongs there")
	c.Stub("CheckEthBlockHash (R04), CheckEthAccountProof, CheckEthStorageProof: arbitrary results inside CheckEthAddressStorageProof, arguments compared")
	c.OutOf("the empty value 0x80 followed by anything but zeros: an absent slot is proved with zeros (T03) and no trie stores an empty value")
	kinds := []int{lit}
	for n := 0; n <= 32; n++ {
		kinds = append(kinds, n)
	}
	for _, kd := range kinds {
		kd := kd
		c.Case("slot-"+kindsName([]int{kd}), func(k *hk.Case) { slotCase(k, kd) })
	}
	c.Case("account-abstract", accountAbstract)
	for _, n := range []int{lit, 0, 1, 2, 3, 4, 5, 6, 7, 8, 32} {
		for _, m := range []int{lit, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12} {
			if c.Thorough || n == 1 || m == 8 || (n+m)%4 == 0 {
				n, m := n, m
				c.Case("account-"+kindsName([]int{n, m}), func(k *hk.Case) { accountCase(k, n, m) })
			}
		}
	}
	c.Case("address-storage", addressStorage)
}

func slotCase(k *hk.Case, kd int) {
	b := k.B
	var pre []*T
	full, payload := encItem(b, "v", kd, &pre)
	val := append([]*T{}, full...)
	for i := len(val); i < 66; i++ {
		if kd == 0 {
			val = append(val, b.I(0))
			continue
		}
		val = append(val, b.BitsVar(fmt.Sprintf("rest%d", i), 4))
	}
	p := newProof(b, "", 3, 6, 5)
	root, slot := bitsVars(b, "root", 64, 4), bitsVars(b, "slot", 64, 4)
	ok, vl := b.FieldVar("incl"), b.FieldVar("vlen")
	hi, lo := payload, []*T(nil)
	if kd == 32 {
		hi, lo = payload[2:], payload[:2]
	}
	valV := func(x []*T) *T {
		if len(x) == 0 {
			return b.I(0)
		}
		return beVal(b, x, 4)
	}
	outs := []*T{ok, valV(hi), valV(lo), b.AddK(vl, -2), b.I(3), b.I(64), b.I(66), b.I(1)}
	outs = append(outs, join(slot, val, root, p.flat())...)
	k.Gadget(hk.Gadget{Name: "CheckEthStorageProof", In: join(val, root, slot, []*T{ok, vl}, p.flat()), Pre: pre, Outs: outs, Batch: 200,
		Run: func(api frontend.API, v []V) []V {
			var va [66]V
			var ro, sl [64]V
			copy(va[:], v)
			copy(ro[:], v[66:])
			copy(sl[:], v[130:])
			res := v[194:196]
			v = v[196:]
			q := p.take(&v)
			var seen []V
			var r mpt.EthStorageProofResult
			withStubs(api, &stubs{eth: &ethStubs{incl: func(md, kl, mv int, st bool, args []V) mpt.CheckMPTInclusionFixedKeyLengthResult {
				seen = append([]V{md, kl, mv, boolV(st)}, args...)
				return mpt.CheckMPTInclusionFixedKeyLengthResult{Output: res[0], ValueLength: res[1]}
			}}}, func() {
				r = mpt.CheckEthStorageProof(api, 3, ro, sl, va, q.starts, q.last, q.lastRi, q.lastPre, q.nodes, q.ris, q.pre, q.types, q.level)
			})
			return append([]V{r.Output, r.SlotValue[0], r.SlotValue[1], r.ValueLength}, seen...)
		}})
}

var accountDecl = rlp.ArrayCheck{MaxHexLen: 228, MaxFields: 4, ArrayPrefixMaxHexLen: 4, FieldMinHexLen: []int{0, 0, 64, 64}, FieldMaxHexLen: []int{64, 24, 64, 64}}

func runAccount(api frontend.API, s *stubs, v []V, p *proofIn, res []V) []V {
	var va [228]V
	var ro, ad [64]V
	copy(va[:], v)
	copy(ro[:], v[228:])
	copy(ad[:], v[292:])
	v = v[356:]
	q := p.take(&v)
	var seen []V
	var r mpt.EthAccountProofResult
	s.eth = &ethStubs{incl: func(md, kl, mv int, st bool, args []V) mpt.CheckMPTInclusionFixedKeyLengthResult {
		seen = append([]V{md, kl, mv, boolV(st)}, args...)
		return mpt.CheckMPTInclusionFixedKeyLengthResult{Output: res[0], ValueLength: res[1]}
	}}
	withStubs(api, s, func() {
		r = mpt.CheckEthAccountProof(api, 3, ro, ad, q.starts, va, q.last, q.lastRi, q.lastPre, q.nodes, q.ris, q.pre, q.types, q.level)
	})
	return joinV([]V{r.Output, r.NonceLength, r.BalanceLength}, r.Nonce[:], r.Balance[:], r.StorageRoot[:], r.CodeHash[:], seen)
}

func accountAbstract(k *hk.Case) {
	b := k.B
	p := newProof(b, "", 3, 6, 5)
	val, root, ad := bitsVars(b, "v", 228, 4), bitsVars(b, "root", 64, 4), bitsVars(b, "addr", 64, 4)
	ok, vl := b.BoolVar("incl"), b.FieldVar("vlen")
	d := newDecoded(b, "acc", &accountDecl)
	n := []*T{ok, vl}
	in := join(n, d.flat(), val, root, ad, p.flat())
	outs := join([]*T{b.And(ok, d.out), d.lens[0], d.lens[1]}, d.fields[0][:64], d.fields[1][:24], d.fields[2][:64], d.fields[3][:64],
		[]*T{b.I(3), b.I(64), b.I(228), b.I(0)}, ad, val, root, p.flat())
	k.Gadget(hk.Gadget{Name: "CheckEthAccountProof", In: in, Outs: outs, Batch: 200, Run: func(api frontend.API, v []V) []V {
		s := &stubs{decode: func(a *rlp.ArrayCheck, api frontend.API, in []V) (V, V, []V, [][]V) {
			return d.result(v[2 : 2+d.size()])
		}}
		return runAccount(api, s, v[2+d.size():], p, v[:2])
	}})
}

func accountCase(k *hk.Case, n, m int) {
	b := k.B
	e := encList(b, []int{n, m, 32, 32})
	val := append([]*T{}, e.nib...)
	for i := len(val); i < 228; i++ {
		val = append(val, b.BitsVar(fmt.Sprintf("rest%d", i), 4))
	}
	p := newProof(b, "", 3, 6, 5)
	root, ad := bitsVars(b, "root", 64, 4), bitsVars(b, "addr", 64, 4)
	ok, vl := b.BoolVar("incl"), b.FieldVar("vlen")
	outs := join([]*T{ok, b.I(int64(len(e.items[0]))), b.I(int64(len(e.items[1])))}, e.items[0], e.items[1], e.items[2], e.items[3],
		[]*T{b.I(3), b.I(64), b.I(228), b.I(0)}, ad, val, root, p.flat())
	k.Gadget(hk.Gadget{Name: "CheckEthAccountProof", In: join([]*T{ok, vl}, val, root, ad, p.flat()), Pre: e.pre, CompleteOnly: true, Outs: outs, Batch: 200,
		Run: func(api frontend.API, v []V) []V {
			r := runAccount(api, &stubs{}, v[2:], p, v[:2])
			ln, lb := len(e.items[0]), len(e.items[1])
			return joinV(r[:3], r[3:3+ln], r[67:67+lb], r[91:])
		}})
}

func addressStorage(k *hk.Case) {
	b := k.B
	pa, ps := newProof(b, "a", mpt.AccountMPTMaxDepth, 4, 3), newProof(b, "s", 4, 4, 3)
	bh, ad, slot := bitsVars(b, "blockHash", 64, 4), fieldVars(b, "addr", 64), fieldVars(b, "slot", 64)
	raw, val, sval := fieldVars(b, "raw", mpt.EthBlockHeadMaxBlockHexSize), fieldVars(b, "acc", 228), fieldVars(b, "sval", 66)
	nf, ri := b.FieldVar("fields"), b.FieldVar("roundIndex")
	// results of the sub-proofs
	hdrOut, hdrLen := b.FieldVar("hdrOut"), b.BitsVar("hdrNumberLen", 10)
	hash, number := bitsVars(b, "hdrHash", 64, 4), bitsVars(b, "hdrNumber", 8, 4)
	tm := fieldVars(b, "hdrTime", 8)
	sr, tr, rr := fieldVars(b, "hdrState", 64), fieldVars(b, "hdrTx", 64), fieldVars(b, "hdrRec", 64)
	hdr := join([]*T{hdrOut, hdrLen}, hash, number, tm, sr, tr, rr)
	aOut := b.BoolVar("accOut")
	acc := join([]*T{aOut, b.FieldVar("accNL"), b.FieldVar("accBL")}, fieldVars(b, "accNonce", 64), fieldVars(b, "accBal", 24), fieldVars(b, "accStorage", 64), fieldVars(b, "accCode", 64))
	asr := acc[3+64+24 : 3+64+24+64]
	sOut := b.BoolVar("stOut")
	sto := []*T{sOut, b.FieldVar("stV0"), b.FieldVar("stV1"), b.FieldVar("stVL")}
	bn := b.I(0)
	for l := 1; l <= 8; l++ {
		bn = b.Ite(b.IEq(hdrLen, b.I(int64(l))), beVal(b, number[:l], 4), bn)
	}
	in := join([]*T{nf, ri}, bh, ad, slot, raw, val, sval, hdr, acc, sto, pa.flat(), ps.flat())
	outs := join([]*T{b.And(eqAll(b, bh, hash), aOut, sOut), bn, sto[1], sto[2]},
		raw, []*T{nf, ri},
		[]*T{b.I(int64(mpt.AccountMPTMaxDepth))}, sr, ad, pa.starts, val, pa.last, []*T{pa.lastRi, pa.lastPre}, join(pa.nodes...), pa.ris, pa.pre, pa.types, []*T{pa.level},
		[]*T{b.I(4)}, asr, slot, ps.starts, sval, ps.last, []*T{ps.lastRi, ps.lastPre}, join(ps.nodes...), ps.ris, ps.pre, ps.types, []*T{ps.level})
	run := func(api frontend.API, v []V) []V {
		cut := func(n int) []V { r := v[:n:n]; v = v[n:]; return r }
		var bhA, adA, slA [64]V
		var rawA [mpt.EthBlockHeadMaxBlockHexSize]V
		var valA [228]V
		var svA [66]V
		h := cut(2)
		copy(bhA[:], cut(64))
		copy(adA[:], cut(64))
		copy(slA[:], cut(64))
		copy(rawA[:], cut(len(rawA)))
		copy(valA[:], cut(228))
		copy(svA[:], cut(66))
		hr, ac, st := cut(len(hdr)), cut(len(acc)), cut(4)
		a, s := pa.take(&v), ps.take(&v)
		var risA [mpt.AccountMPTMaxDepth - 1]V
		copy(risA[:], a.ris)
		var s1, s2, s3 []V
		var r mpt.EthAddressStorageProofResult
		withStubs(api, &stubs{eth: &ethStubs{
			block: func(args []V) (o mpt.EthBlockHashResult) {
				s1 = args
				o.Output, o.BlockNumberLength = hr[0], hr[1]
				x := hr[2:]
				copy(o.BlockHash[:], x)
				copy(o.BlockNumber[:], x[64:])
				copy(o.BlockTime[:], x[72:])
				copy(o.StateRoot[:], x[80:])
				copy(o.TransactionsRoot[:], x[144:])
				copy(o.ReceiptsRoot[:], x[208:])
				return
			},
			account: func(md int, args []V) (o mpt.EthAccountProofResult) {
				s2 = append([]V{md}, args...)
				o.Output, o.NonceLength, o.BalanceLength = ac[0], ac[1], ac[2]
				x := ac[3:]
				copy(o.Nonce[:], x)
				copy(o.Balance[:], x[64:])
				copy(o.StorageRoot[:], x[88:])
				copy(o.CodeHash[:], x[152:])
				return
			},
			storage: func(md int, args []V) (o mpt.EthStorageProofResult) {
				s3 = append([]V{md}, args...)
				o.Output, o.SlotValue, o.ValueLength = st[0], [2]V{st[1], st[2]}, st[3]
				return
			},
		}}, func() {
			r = mpt.CheckEthAddressStorageProof(api, mpt.AccountMPTMaxDepth, 4, bhA, h[0], h[1], adA, slA, rawA,
				a.starts, valA, a.last, a.lastRi, a.lastPre, a.nodes, risA, a.pre, a.types, a.level,
				s.starts, svA, s.last, s.lastRi, s.lastPre, s.nodes, s.ris, s.pre, s.types, s.level)
		})
		return joinV([]V{r.Output, r.BlockNumber, r.SlotValue[0], r.SlotValue[1]}, s1, s2, s3)
	}
	k.Gadget(hk.Gadget{Name: "CheckEthAddressStorageProof", In: in, Accept: b.ILe(hdrLen, b.I(8)), Outs: outs, Batch: 500, Run: run})
}

func eqAll(b *sym.B, x, y []*T) *T {
	r := b.T
	for i := range x {
		r = b.And(r, b.IEq(x[i], y[i]))
	}
	return r
}
