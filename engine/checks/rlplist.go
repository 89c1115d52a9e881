package checks

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark/frontend"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() {
	Registry["R03"] = checkR03
}

// ---------------------------------------------------------------- canonical encodings with symbolic contents

// item kinds: n >= 0 is a string of n payload bytes in canonical form; lit is a single byte below 0x80;
// arr+n is a (nested) list with n payload bytes.
const (
	lit = -1
	arr = 1000
)

type enc struct {
	nib     []*T // nibbles of the whole encoding
	pre     []*T // conditions that make it canonical
	items   [][]*T
	raw     [][]*T // nested lists with their prefix
	dataLen int
}

func nibs(b *sym.B, v int, n int) []*T {
	out := make([]*T, n)
	for i := range out {
		out[i] = b.I(int64(v >> (4 * (n - 1 - i)) & 15))
	}
	return out
}

func lenBytes(n int) int {
	k := 0
	for n > 0 {
		k++
		n >>= 8
	}
	return k
}

func strPrefix(b *sym.B, n, short int) []*T {
	if n <= 55 {
		return nibs(b, short+n, 2)
	}
	k := lenBytes(n)
	return append(nibs(b, short+55+k, 2), nibs(b, n, 2*k)...)
}

// encItem returns the encoding of one item and its payload nibbles.
func encItem(b *sym.B, name string, kind int, pre *[]*T) (full, payload []*T) {
	switch {
	case kind == lit:
		p := []*T{b.BitsVar(name+"h", 3), b.BitsVar(name+"l", 4)}
		return p, p
	case kind >= arr:
		n := kind - arr
		p := bitsVars(b, name, 2*n, 4)
		return append(strPrefix(b, n, 0xc0), p...), p
	}
	p := bitsVars(b, name, 2*kind, 4)
	if kind == 1 {
		*pre = append(*pre, b.ILe(b.I(8), p[0]))
	}
	return append(strPrefix(b, kind, 0x80), p...), p
}

func encList(b *sym.B, kinds []int) *enc {
	e := &enc{}
	var body []*T
	for i, k := range kinds {
		f, p := encItem(b, fmt.Sprintf("f%d_", i), k, &e.pre)
		body = append(body, f...)
		e.items = append(e.items, p)
		e.raw = append(e.raw, f)
	}
	e.nib = append(strPrefix(b, len(body)/2, 0xc0), body...)
	e.dataLen = len(e.nib)
	return e
}

func kindsName(ks []int) string {
	var s []string
	for _, k := range ks {
		switch {
		case k == lit:
			s = append(s, "lit")
		case k >= arr:
			s = append(s, fmt.Sprintf("list%d", k-arr))
		default:
			s = append(s, fmt.Sprint(k))
		}
	}
	return strings.Join(s, ",")
}

// ---------------------------------------------------------------- symbolic walk over arbitrary nibbles

// nibAt: value of the w nibbles at symbolic position pos (positions beyond the buffer read as 0).
func nibsAt(b *sym.B, in []*T, pos *T, w int) *T {
	r := b.I(0)
	for i := len(in) - w; i >= 0; i-- {
		if b.LoOf(pos).Cmp(big.NewInt(int64(i))) > 0 || b.HiOf(pos).Cmp(big.NewInt(int64(i))) < 0 {
			continue
		}
		r = b.Ite(b.IEq(pos, b.I(int64(i))), beVal(b, in[i:i+w], 4), r)
	}
	return r
}

// rlpHead describes the item at pos: header length and payload length in nibbles, and whether it is a list.
func rlpHead(b *sym.B, in []*T, pos *T, maxLenBytes int) (hdr, payload, isList *T) {
	p := nibsAt(b, in, pos, 2)
	isLit := b.ILt(p, b.I(0x80))
	isList = b.ILe(b.I(0xc0), p)
	bigS := b.And(b.ILe(b.I(0xb8), p), b.Not(isList))
	bigL := b.ILe(b.I(0xf8), p)
	base := b.Ite(bigS, b.I(0xb7), b.I(0xf7))
	ll := b.Sub(p, base) // length-of-length in bytes, if big
	hdr = b.I(2)
	payload = b.Ite(isLit, b.I(0), b.Ite(isList, b.Scale(b.AddK(p, -0xc0), big2(1)), b.Scale(b.AddK(p, -0x80), big2(1))))
	isBig := b.Or(bigS, bigL)
	lv, hv := b.I(0), b.I(0)
	for k := 1; k <= maxLenBytes; k++ {
		c := b.IEq(ll, b.I(int64(k)))
		v := nibsAt(b, in, b.AddK(pos, 2), 2*k)
		lv = b.Ite(c, b.Scale(v, big2(1)), lv)
		hv = b.Ite(c, b.I(int64(2+2*k)), hv)
	}
	payload = b.Ite(isBig, lv, payload)
	hdr = b.Ite(isLit, b.I(0), b.Ite(isBig, hv, hdr))
	payload = b.Ite(isLit, b.I(2), payload)
	return
}

type listCfg struct {
	max, fields, prefix int
	min, maxF           []int
	zeroRest            bool // only zeros follow the list
}

func (l listCfg) ac() *rlp.ArrayCheck {
	return &rlp.ArrayCheck{MaxHexLen: l.max, MaxFields: l.fields, ArrayPrefixMaxHexLen: l.prefix, FieldMinHexLen: l.min, FieldMaxHexLen: l.maxF}
}

type listFn func(a *rlp.ArrayCheck, api frontend.API, in []V) (V, V, []V, [][]V)

// completeList: the canonical list of the given kinds scores 1 and is decoded.
func completeList(c *hk.Check, name string, cfg listCfg, kinds []int, nested bool, fn listFn) {
	c.Case(name+"-"+kindsName(kinds), func(k *hk.Case) {
		b := k.B
		e := encList(b, kinds)
		if e.dataLen > cfg.max {
			k.C.Err("case %s: encoding does not fit", name)
			return
		}
		in := append([]*T{}, e.nib...)
		for i := len(in); i < cfg.max; i++ {
			if cfg.zeroRest {
				in = append(in, b.I(0))
				continue
			}
			in = append(in, b.BitsVar(fmt.Sprintf("rest%d", i), 4))
		}
		outs := []*T{b.I(1), b.I(int64(e.dataLen))}
		if nested {
			for i, kd := range kinds {
				if kd == lit {
					e.pre = append(e.pre, b.Not(b.IEq(beVal(b, e.items[i], 4), b.I(0))))
				}
			}
		}
		for i := range kinds {
			p := e.items[i]
			if nested && kinds[i] >= arr {
				p = e.raw[i]
			}
			outs = append(outs, b.I(int64(len(p))))
			outs = append(outs, p...)
		}
		k.Gadget(hk.Gadget{Name: "list", In: in, Pre: e.pre, CompleteOnly: true, Outs: outs,
			Run: func(api frontend.API, v []V) []V {
				o, t, ls, fs := fn(cfg.ac(), api, v)
				r := []V{o, t}
				for i := range kinds {
					n := len(e.items[i])
					if nested && kinds[i] >= arr {
						n = len(e.raw[i])
					}
					r = append(r, ls[i])
					r = append(r, fs[i][:n]...)
				}
				return r
			}})
	})
}

// soundList: whatever scores 1 has a header length equal to the sum of its items' lengths.
func soundList(c *hk.Check, name string, cfg listCfg, fn listFn, noZero bool, nf int) {
	c.Case(name, func(k *hk.Case) {
		b := k.B
		in := bitsVars(b, "n", cfg.max, 4)
		hdr, total, isList := rlpHead(b, in, b.I(0), cfg.prefix/2)
		pos := hdr
		sum := b.I(0)
		var nz []*T
		for i := 0; i < nf; i++ {
			mb := (rlp.LogCeil(cfg.maxF[i])/8 + 1)
			h, p, _ := rlpHead(b, in, pos, mb)
			if noZero {
				nz = append(nz, b.Not(b.And(b.IEq(nibsAt(b, in, pos, 2), b.I(0)), b.ILe(b.AddK(pos, 2), b.I(int64(cfg.max))))))
			}
			sum = b.Add(sum, b.Add(h, p))
			pos = b.Add(pos, b.Add(h, p))
		}
		pre := append(nz, b.ILe(b.Add(hdr, total), b.I(int64(cfg.max))))
		k.Gadget(hk.Gadget{Name: "list-sound", In: in, Pre: pre, SoundOnly: true, Accept: b.And(isList, b.IEq(total, sum)), Outs: nil,
			Run: func(api frontend.API, v []V) []V {
				o, _, _, _ := fn(cfg.ac(), api, v)
				api.AssertIsEqual(o, 1)
				return nil
			}})
	})
}

func checkR03(c *hk.Check) {
	plain := func(a *rlp.ArrayCheck, api frontend.API, in []V) (V, V, []V, [][]V) { return a.RlpArrayCheck(api, in) }
	nest := func(a *rlp.ArrayCheck, api frontend.API, in []V) (V, V, []V, [][]V) {
		return a.RlpNestArrayCheck(api, in)
	}
	nums := func(n int) listFn {
		return func(a *rlp.ArrayCheck, api frontend.API, in []V) (V, V, []V, [][]V) {
			return a.RlpArrayCheck(api, in, n)
		}
	}
	two := listCfg{20, 2, 4, []int{0, 0}, []int{10, 10}, false}
	three := listCfg{26, 3, 4, []int{0, 0, 0}, []int{6, 6, 6}, false}
	fixed := listCfg{24, 3, 4, []int{4, 0, 6}, []int{4, 6, 6}, false}
	leaf := listCfg{140, 2, 4, []int{0, 0}, []int{66, 66}, false}
	long := listCfg{700, 2, 6, []int{0, 0}, []int{150, 600}, false}
	c.Bound("completeness: canonical lists with symbolic contents and arbitrary nibbles after them, for every listed combination of item kinds (single byte, strings of 0..300 bytes, nested lists) under 2-, 3- and 17-field declarations, incl. fixed-size fields and the nums argument")
	c.Bound("soundness: arbitrary nibble strings of up to 26 nibbles (thorough 48) under 2- and 3-field declarations; the declared list has to fit the buffer")
	c.OutOf("lists longer than the buffer (positions wrap around); RlpNestArrayCheck on items that are the single byte 00 is a recorded finding and excluded from its other cases")
	fns := []struct {
		n  string
		fn listFn
	}{{"plain", plain}, {"nest", nest}}
	for _, f := range fns {
		ks := []int{lit, 0, 1, 2, 3, 5}
		for _, x := range ks {
			for _, y := range ks {
				if x+y <= 7 {
					completeList(c, f.n+"-two", two, []int{x, y}, f.n == "nest", f.fn)
				}
			}
		}
		ks = []int{lit, 0, 1, 3}
		for _, x := range ks {
			for _, y := range ks {
				for _, z := range ks {
					completeList(c, f.n+"-three", three, []int{x, y, z}, f.n == "nest", f.fn)
				}
			}
		}
		for _, x := range []int{lit, 0, 1, 2, 3} {
			for _, y := range []int{lit, 0, 1, 3} {
				completeList(c, f.n+"-fixed", fixed, []int{2, x, y}, f.n == "nest", f.fn)
			}
		}
		for _, z := range [][]int{{lit, 33}, {1, 33}, {33, lit}, {33, 33}, {17, 33}, {33, 20}, {32, 0}, {0, 33}, {21, 32}, {22, 32}, {23, 32}} {
			completeList(c, f.n+"-leaf", leaf, z, f.n == "nest", f.fn)
		}
		for _, z := range [][]int{{55, 100}, {56, 100}, {75, 255}, {75, 256}, {20, 300}, {lit, 255}, {lit, 253}, {0, 254}, {1, 56}} {
			completeList(c, f.n+"-long", long, z, f.n == "nest", f.fn)
		}
		// nested lists as items
		for _, z := range [][]int{{arr, 1}, {1, arr}, {arr, arr}, {arr + 2, 1}, {1, arr + 3}, {arr + 1, arr}, {lit, arr + 3}} {
			completeList(c, f.n+"-two", two, z, f.n == "nest", f.fn)
		}
	}
	completeList(c, "plain-leaf", leaf, []int{1, arr + 33}, false, plain)
	for n := 1; n <= 3; n++ {
		for _, z := range [][]int{{lit, 0, 3}, {3, 1, lit}, {0, 0, 0}, {arr, 2, 1}} {
			cfg := three
			completeList(c, fmt.Sprintf("plain-nums%d", n), cfg, z[:n], false, nums(n))
		}
	}
	// a 17-item branch node
	br := listCfg{1064, 17, 8, make([]int, 17), make([]int, 17), false}
	for i := 0; i < 16; i++ {
		br.maxF[i] = 64
	}
	for _, mask := range []int{0, 0xffff, 0x0001, 0x8000, 0x5a5a, 0x0103, 0x7fff} {
		z := make([]int, 17)
		for i := 0; i < 16; i++ {
			if mask>>i&1 == 1 {
				z[i] = 32
			}
		}
		completeList(c, fmt.Sprintf("plain-branch%04x", mask), br, z, false, plain)
	}
	for _, f := range fns {
		f := f
		soundList(c, f.n+"-two-sound", two, f.fn, f.n == "nest", 2)
		soundList(c, f.n+"-three-sound", three, f.fn, f.n == "nest", 3)
		soundList(c, f.n+"-fixed-sound", fixed, f.fn, f.n == "nest", 3)
		if c.Thorough {
			soundList(c, f.n+"-two48-sound", listCfg{48, 2, 4, []int{0, 0}, []int{30, 30}, false}, f.fn, f.n == "nest", 2)
			soundList(c, f.n+"-three40-sound", listCfg{40, 3, 4, []int{0, 0, 0}, []int{14, 14, 14}, false}, f.fn, f.n == "nest", 3)
		}
	}
	for n := 1; n <= 2; n++ {
		soundList(c, fmt.Sprintf("plain-nums%d-sound", n), three, nums(n), false, n)
	}
	// recorded finding: RlpNestArrayCheck takes the one-byte item 00 for an absent field
	soundList(c, "nest-zerobyte-sound", two, nest, false, 2)
	c.Case("nest-zerobyte-complete", func(k *hk.Case) {
		b := k.B
		in := append(nibs(b, 0xc20001, 6), constTerms(b, 14, 0)...)
		k.Gadget(hk.Gadget{Name: "list", In: in, CompleteOnly: true, Outs: []*T{b.I(1)}, Run: func(api frontend.API, v []V) []V {
			o, _, _, _ := nest(two.ac(), api, v)
			return []V{o}
		}})
	})
}
