//go:build overlay

package checks

import (
	"fmt"
	"math/big"
	"sync"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark/frontend"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() {
	Registry["T01"] = checkT01

	rlp.VerifHookArrayCheckRlpArrayCheck = func(a *rlp.ArrayCheck, api frontend.API, in []V, nums []V) (V, V, []V, [][]V) {
		if s := stubsOf(api); s != nil && s.decode != nil && len(nums) == 0 {
			return s.decode(a, api, in)
		}
		return a.RlpArrayCheckVerifOrig(api, in, nums...)
	}
	rlp.VerifHookKeccak256AsNibbles = func(api frontend.API, inLen V, blocks [keccakMax][17]V, ri V) *rlp.KeccakOrLiteralHex {
		if s := stubsOf(api); s != nil && s.hash != nil {
			return s.hash(api, inLen, blocks, ri)
		}
		return rlp.Keccak256AsNibblesVerifOrig(api, inLen, blocks, ri)
	}
}

// stubs replaces parts of the code for one run of one gadget; keyed by the API the run uses.
type stubs struct {
	decode func(a *rlp.ArrayCheck, api frontend.API, in []V) (V, V, []V, [][]V)
	gate   func(api frontend.API, kind string, node, key, other, rest []V) []V
	eth    *ethStubs
	hash   func(api frontend.API, inLen V, blocks [keccakMax][17]V, ri V) *rlp.KeccakOrLiteralHex
}

var stubTab sync.Map

func stubsOf(api frontend.API) *stubs {
	if s, ok := stubTab.Load(api); ok {
		return s.(*stubs)
	}
	return nil
}

func withStubs(api frontend.API, s *stubs, f func()) {
	stubTab.Store(api, s)
	defer stubTab.Delete(api)
	f()
}

// decoded is the abstract result of decoding one RLP list: any outcome the contract proved as R03 allows.
type decoded struct {
	out, total *T
	lens       []*T
	fields     [][]*T
	nf, width  int
	fw         []int
}

func newDecoded(b *sym.B, name string, a *rlp.ArrayCheck) *decoded {
	d := &decoded{nf: a.MaxFields, width: a.MaxHexLen}
	d.out = b.BoolVar(name + "_ok")
	d.total = b.BitsVar(name+"_total", 12)
	for i := 0; i < a.MaxFields; i++ {
		d.lens = append(d.lens, b.BitsVar(fmt.Sprintf("%s_len%d", name, i), 10))
		w := a.FieldMaxHexLen[i] + 4
		if w > a.MaxHexLen {
			w = a.MaxHexLen
		}
		d.fw = append(d.fw, w)
		d.fields = append(d.fields, bitsVars(b, fmt.Sprintf("%s_f%d_", name, i), w, 4))
	}
	return d
}

func (d *decoded) flat() []*T {
	r := append([]*T{d.out, d.total}, d.lens...)
	for _, f := range d.fields {
		r = append(r, f...)
	}
	return r
}

func (d *decoded) size() int {
	n := 2 + d.nf
	for _, w := range d.fw {
		n += w
	}
	return n
}

func (d *decoded) result(v []V) (V, V, []V, [][]V) {
	fields := make([][]V, d.nf)
	p := 2 + d.nf
	for i := range fields {
		fields[i] = make([]V, d.width)
		for j := range fields[i] {
			fields[i][j] = 0
		}
		copy(fields[i], v[p:p+d.fw[i]])
		p += d.fw[i]
	}
	return v[0], v[1], append([]V{}, v[2:2+d.nf]...), fields
}

// oneDecode runs f with every list decoding replaced by the given result.
func oneDecode(api frontend.API, d *decoded, v []V, f func()) {
	withStubs(api, &stubs{decode: func(a *rlp.ArrayCheck, api frontend.API, in []V) (V, V, []V, [][]V) {
		if a.MaxFields != d.nf || a.MaxHexLen != d.width {
			panic("unexpected list declaration")
		}
		return d.result(v)
	}}, f)
}

func rangeT(b *sym.B, x *T, lo, hi int) *T {
	return b.And(b.ILe(b.I(int64(lo)), x), b.ILe(x, b.I(int64(hi))))
}

// prefixMatch: for all i < n: x[i] == y[i+shift], shift in 0..3.
func prefixMatch(b *sym.B, x, y []*T, n, shift *T, max int) *T {
	r := b.T
	for i := 0; i < max; i++ {
		yi := b.I(0)
		for s := 3; s >= 0; s-- {
			if i+s < len(y) {
				if s == 3 {
					yi = y[i+s]
				} else {
					yi = b.Ite(b.IEq(shift, b.I(int64(s))), y[i+s], yi)
				}
			}
		}
		r = b.And(r, b.Implies(b.ILt(b.I(int64(i)), n), b.IEq(x[i], yi)))
	}
	return r
}

func allEqC(b *sym.B, x []*T, v int64) *T {
	r := b.T
	for _, t := range x {
		r = b.And(r, b.IEq(t, b.I(v)))
	}
	return r
}

func hexPrefixOK(b *sym.B, plen *T, f []*T, odd, even int64) *T {
	return b.Or(b.And(b.IEq(plen, b.I(1)), b.IEq(f[0], b.I(odd))),
		b.And(b.IEq(plen, b.I(2)), b.IEq(f[0], b.I(even)), b.IEq(f[1], b.I(0))))
}

// leafSpec: the leaf check's meaning on a decoded node.
func leafSpec(b *sym.B, d *decoded, klen *T, key, val []*T, plen *T, maxKey, maxVal int) (existence, absence *T) {
	rest := b.Sub(d.lens[0], plen)
	wf := b.And(d.out, hexPrefixOK(b, plen, d.fields[0], 3, 2))
	match := prefixMatch(b, key, d.fields[0], rest, plen, maxKey)
	valEq := b.T
	for i := 0; i < maxVal; i++ {
		valEq = b.And(valEq, b.Implies(b.ILt(b.I(int64(i)), d.lens[1]), b.IEq(val[i], d.fields[1][i])))
	}
	empty := b.And(b.IEq(val[0], b.I(8)), b.IEq(val[1], b.I(0)), allEqC(b, val[2:66], 0))
	existence = b.And(wf, match, b.IEq(rest, klen), rangeT(b, rest, 0, maxKey), rangeT(b, d.lens[1], 0, maxVal), valEq)
	absence = b.And(wf, empty, b.Not(match), rangeT(b, rest, 0, maxKey), rangeT(b, d.lens[1], 0, maxVal))
	return
}

func checkT01(c *hk.Check) {
	c.Bound("any decoded two-item list (all item lengths and nibble contents), all key nibbles, key lengths, prefix lengths and values, for the (key, value) sizes (64,66), (64,228), (6,66), (7,80)")
	c.Bound("end to end on real encodings: every key remainder 1..64 nibbles (thorough; selected in quick) and value lengths 1..33 / 70..110 bytes, all contents")
	c.Stub("ArrayCheck.RlpArrayCheck returns an arbitrary well-typed decoding (its own contract is R03) in the acceptance cases; the end-to-end cases run it for real")
	c.OutOf("value declarations below 66 nibbles, for which the gadget does not compile")
	for _, cf := range [][2]int{{64, 66}, {64, 228}, {6, 66}, {7, 80}} {
		mk, mv := cf[0], cf[1]
		mkCase := func(kind string, l1 int) {
			c.Case(fmt.Sprintf("leaf-%d-%d-%s-%d", mk, mv, kind, l1), func(k *hk.Case) {
				b := k.B
				lc := mpt.NewMPTLeafCheck(mk, mv)
				w := 4 + mk + 2 + 4 + mv
				d := newDecoded(b, "d", &rlp.ArrayCheck{MaxHexLen: w, MaxFields: 2, FieldMaxHexLen: []int{mk + 2, mv}})
				if l1 >= 0 {
					d.lens[1] = b.I(int64(l1))
				}
				klen := b.BitsVar("klen", 8)
				key, val := bitsVars(b, "k", mk, 4), bitsVars(b, "v", mv, 4)
				plen := b.FieldVar("plen")
				ex, ab := leafSpec(b, d, klen, key, val, plen, mk, mv)
				in := join(d.flat(), []*T{klen, plen}, key, val)
				run := func(api frontend.API, v []V) V {
					var r V
					n := d.size()
					oneDecode(api, d, v[:n], func() {
						leaf := make([]V, w)
						for i := range leaf {
							leaf[i] = 0
						}
						x := lc.CheckLeaf(api, v[n], v[n+2:n+2+mk], v[n+2+mk:], leaf, v[n+1])
						q := x.GetResult()
						r = q.GetOutput()
					})
					return r
				}
				switch kind {
				case "sound":
					k.Gadget(hk.Gadget{Name: "CheckLeaf", In: in, SoundOnly: true, Accept: b.Or(ex, ab), Run: func(api frontend.API, v []V) []V {
						api.AssertIsEqual(run(api, v), 4)
						return nil
					}})
				case "exists":
					k.Gadget(hk.Gadget{Name: "CheckLeaf", In: in, CompleteOnly: true, Pre: []*T{ex}, Outs: []*T{b.I(4)}, Run: func(api frontend.API, v []V) []V { return []V{run(api, v)} }})
				case "absent":
					k.Gadget(hk.Gadget{Name: "CheckLeaf", In: in, CompleteOnly: true, Pre: []*T{ab}, Outs: []*T{b.I(4)}, Run: func(api frontend.API, v []V) []V { return []V{run(api, v)} }})
				case "range":
					k.Gadget(hk.Gadget{Name: "CheckLeaf", In: in, SoundOnly: true, Outs: []*T{b.I(1)}, Run: func(api frontend.API, v []V) []V {
						s := run(api, v)
						z := api.IsZero(s)
						for i := 1; i <= 4; i++ {
							z = api.Add(z, api.IsZero(api.Sub(s, i)))
						}
						return []V{z}
					}})
				}
			})
		}
		for _, kd := range []string{"exists", "absent", "range"} {
			mkCase(kd, -1)
		}
		for l := 0; l <= mv; l += 2 {
			if c.Thorough || l <= 4 || l >= mv-2 || l%8 == 2 && (mv <= 80 || l >= 138 && l <= 164) {
				mkCase("sound", l)
			}
		}
	}
	// end to end
	e2e := func(mk, mv, rem, vbytes int, absent bool) {
		c.Case(fmt.Sprintf("leaf-e2e-%d-%d-rem%d-val%d-%v", mk, mv, rem, vbytes, absent), func(k *hk.Case) {
			b := k.B
			lc := mpt.NewMPTLeafCheck(mk, mv)
			w := 4 + mk + 2 + 4 + mv
			path := bitsVars(b, "p", rem, 4)
			var kp []*T
			plen := 2
			if rem%2 == 1 {
				kp = append([]*T{b.I(3)}, path...)
				plen = 1
			} else {
				kp = append(nibs(b, 0x20, 2), path...)
			}
			var pre []*T
			keyItem := kp
			if len(kp) > 2 {
				keyItem = append(strPrefix(b, len(kp)/2, 0x80), kp...)
			}
			var vi, vp []*T
			if vbytes == 0 {
				vi, vp = encItem(b, "v", lit, &pre)
			} else {
				vi, vp = encItem(b, "v", vbytes, &pre)
			}
			body := join(keyItem, vi)
			nib := join(strPrefix(b, len(body)/2, 0xc0), body)
			if len(nib) > w {
				k.C.Err("%s does not fit", k.Name)
				return
			}
			for i := len(nib); i < w; i++ {
				nib = append(nib, b.BitsVar(fmt.Sprintf("rest%d", i), 4))
			}
			key := append([]*T{}, path...)
			if absent {
				key = bitsVars(b, "k", rem, 4)
				ne := b.F
				for i := range path {
					ne = b.Or(ne, b.Not(b.IEq(path[i], key[i])))
				}
				pre = append(pre, ne)
			}
			for i := len(key); i < mk; i++ {
				key = append(key, b.BitsVar(fmt.Sprintf("kx%d", i), 4))
			}
			val := append([]*T{}, vp...)
			if absent {
				val = join(nibs(b, 0x80, 2), constTerms(b, mv-2, 0))
			}
			for i := len(val); i < mv; i++ {
				val = append(val, b.BitsVar(fmt.Sprintf("vx%d", i), 4))
			}
			k.Gadget(hk.Gadget{Name: "CheckLeaf", In: join(nib, key, val), Pre: pre, CompleteOnly: true, Outs: []*T{b.I(4)}, Run: func(api frontend.API, v []V) []V {
				x := lc.CheckLeaf(api, rem, v[w:w+mk], v[w+mk:], v[:w], plen)
				q := x.GetResult()
				return []V{q.GetOutput()}
			}})
		})
	}
	for rem := 1; rem <= 64; rem++ {
		if !c.Thorough && rem > 3 && rem < 52 && rem%8 != 0 {
			continue
		}
		for _, vb := range []int{0, 1, 2, 21, 33} {
			e2e(64, 66, rem, vb, false)
		}
		e2e(64, 66, rem, 33, true)
		e2e(64, 66, rem, 5, true)
	}
	for _, vb := range []int{70, 72, 78, 100, 110} {
		e2e(64, 228, 57, vb, false)
		e2e(64, 228, 58, vb, false)
	}
}

var _ = big.NewInt
