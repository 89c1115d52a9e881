//go:build overlay

package checks

import (
	"fmt"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() {
	Registry["R04"] = checkR04
}

// padded: header nibbles, keccak padding up to a multiple of 136 bytes, zeros up to n nibbles
func padded(b *sym.B, e []*T, n int) []*T {
	r := append([]*T{}, e...)
	miss := 272 - len(r)%272
	if miss == 2 {
		r = append(r, nibs(b, 0x81, 2)...)
	} else {
		r = append(r, nibs(b, 1, 2)...)
		for i := 4; i < miss; i++ {
			r = append(r, b.I(0))
		}
		r = append(r, nibs(b, 0x80, 2)...)
	}
	for len(r) < n {
		r = append(r, b.I(0))
	}
	return r
}

type header struct{ difficulty, number, gasLimit, gasUsed, time, extra, baseFee, fields int }

func (h header) kinds() []int {
	k := []int{32, 32, 20, 32, 32, 32, 256, h.difficulty, h.number, h.gasLimit, h.gasUsed, h.time, h.extra, 32, 8, h.baseFee, 32}
	return k[:h.fields]
}

func (h header) String() string {
	return fmt.Sprintf("d%d-n%d-gl%d-gu%d-t%d-x%d-b%d-f%d", h.difficulty, h.number, h.gasLimit, h.gasUsed, h.time, h.extra, h.baseFee, h.fields)
}

var hdrDecl = rlp.ArrayCheck{
	MaxHexLen: mpt.EthBlockHeadMaxBlockHexSize, MaxFields: 17, ArrayPrefixMaxHexLen: 4,
	FieldMinHexLen: []int{64, 64, 40, 64, 64, 64, 512, 0, 0, 0, 0, 0, 0, 64, 16, 0, 64},
	FieldMaxHexLen: []int{64, 64, 40, 64, 64, 64, 512, 14, 16, 8, 8, 8, 2000, 64, 18, 16, 64},
}

func checkR04(c *hk.Check) {
	c.Bound("headers of 15, 16 and 17 fields, symbolic contents; lengths: difficulty 0..7 bytes, number 0..8, gas limit/used and time 0..4, extra data 0..32 and selected lengths up to 400, base fee 0..8 (each also as a single byte below 0x80); every byte length modulo 136 that these reach, in particular 134, 135 and 0; the keccak padding and zeros up to 1088 bytes follow")
	c.Bound("soundness: BlkHeaderRlpCheck on arbitrary strings of 24 to 30 nibbles under 2- and 3-field declarations with 1..3 fields present")
	c.Stub("rlp.Keccak256AsNibbles (K03): an arbitrary digest; the lanes, length and round index handed to it are compared with the header's")
	base := header{0, 4, 4, 4, 4, 5, 5, 17}
	var hs []header
	turn := 0
	add := func(f func(h *header)) {
		turn++
		for nf := 15; nf <= 17; nf++ {
			if !c.Thorough && nf != 15+turn%3 {
				continue
			}
			h := base
			h.fields = nf
			f(&h)
			hs = append(hs, h)
		}
	}
	for x := -1; x <= 8; x++ {
		x := x
		if x <= 7 {
			add(func(h *header) { h.difficulty = x })
		}
		add(func(h *header) { h.number = x })
		if x <= 4 {
			add(func(h *header) { h.gasLimit = x })
			add(func(h *header) { h.gasUsed = x })
			add(func(h *header) { h.time = x })
		}
		add(func(h *header) { h.baseFee = x; h.fields = max(h.fields, 16) })
	}
	for _, x := range []int{-1, 0, 1, 2, 7, 15, 16, 26, 31, 32, 55, 56, 57, 100, 255, 256, 257, 400} {
		x := x
		add(func(h *header) { h.extra = x })
	}
	// lengths around the block boundary: total length modulo 136 in 132..4
	b0 := sym.NewB(ecc.BN254.ScalarField())
	for nf := 15; nf <= 17; nf++ {
		for _, big := range []int{0, 56} {
			for x := big; x < big+140; x++ {
				h := base
				h.fields = nf
				h.extra = x
				if m := encList(b0, h.kinds()).dataLen / 2 % 136; m >= 134 || m == 0 {
					hs = append(hs, h)
				}
			}
		}
	}
	seen := map[string]bool{}
	for _, h := range hs {
		h := h
		if seen[h.String()] {
			continue
		}
		seen[h.String()] = true
		c.Case("header-"+h.String(), func(k *hk.Case) { headerCase(k, h) })
	}
	for _, f := range [][2]int{{15, 16}, {16, 15}, {17, 15}, {15, 17}, {16, 17}, {17, 16}} {
		f := f
		c.Case(fmt.Sprintf("header-%dfields-declared%d", f[0], f[1]), func(k *hk.Case) {
			b := k.B
			h := base
			h.fields = f[0]
			e := encList(b, h.kinds())
			in := padded(b, e.nib, hdrDecl.MaxHexLen)
			k.Gadget(hk.Gadget{Name: "miscounted", In: in, Pre: e.pre, SoundOnly: true, Accept: b.F, Never: true,
				Run: func(api frontend.API, v []V) []V {
					a := hdrDecl
					o, _, _, _ := a.BlkHeaderRlpCheck(api, v, f[1])
					api.AssertIsEqual(o, 1)
					return nil
				}})
		})
	}
	for n := 1; n <= 3; n++ {
		n := n
		fn := func(a *rlp.ArrayCheck, api frontend.API, in []V) (V, V, []V, [][]V) {
			return a.BlkHeaderRlpCheck(api, in, n)
		}
		if n <= 2 {
			soundList(c, fmt.Sprintf("blk-two-sound-%dof2", n), listCfg{max: 24, fields: 2, prefix: 4, min: []int{0, 0}, maxF: []int{10, 10}}, fn, false, n)
		}
		soundList(c, fmt.Sprintf("blk-three-sound-%dof3", n), listCfg{max: 26, fields: 3, prefix: 4, min: []int{0, 0, 0}, maxF: []int{6, 6, 6}}, fn, false, n)
		soundList(c, fmt.Sprintf("blk-fixed-sound-%dof3", n), listCfg{max: 30, fields: 3, prefix: 4, min: []int{4, 0, 6}, maxF: []int{4, 6, 6}}, fn, false, n)
		for _, z := range [][]int{{2, 1, 3}, {2, lit, 0}, {2, 0, lit}, {2, 3, 3}} {
			completeList(c, fmt.Sprintf("blk-fixed-%dof3", n), listCfg{30, 3, 4, []int{4, 0, 6}, []int{4, 6, 6}, true}, z[:n], false, fn)
		}
	}
}

func headerCase(k *hk.Case, h header) {
	b := k.B
	kinds := h.kinds()
	e := encList(b, kinds)
	nib := padded(b, e.nib, hdrDecl.MaxHexLen)
	ri := b.BitsVar("roundIndex", 4)
	digest := bitsVars(b, "digest", 64, 4)
	in := append(append(append([]*T{}, nib...), ri), digest...)
	item := func(i, n int) []*T {
		p := e.items[i]
		if len(p) > n {
			p = p[:n]
		}
		return p
	}
	outs := []*T{b.I(1), b.I(int64(e.dataLen)), ri}
	outs = append(outs, packLanes(b, nib)...)
	outs = append(outs, digest...)
	outs = append(outs, b.I(int64(len(e.items[8]))))
	number, tm := item(8, 8), item(11, 8)
	outs = append(outs, join(number, tm, item(3, 64), item(4, 64), item(5, 64))...)
	k.Gadget(hk.Gadget{Name: "header", In: in, Pre: e.pre, CompleteOnly: true, Outs: outs, Batch: 400,
		Run: func(api frontend.API, v []V) []V {
			var raw [mpt.EthBlockHeadMaxBlockHexSize]V
			copy(raw[:], v)
			v = v[len(raw):]
			var seen []V
			var r mpt.EthBlockHashResult
			withStubs(api, &stubs{hash: func(api frontend.API, inLen V, blocks [keccakMax][17]V, ri V) *rlp.KeccakOrLiteralHex {
				seen = append([]V{inLen, ri}, flatBlocks(blocks)...)
				o := &rlp.KeccakOrLiteralHex{OutputLength: 64}
				copy(o.Output[:], v[1:65])
				return o
			}}, func() {
				r = mpt.CheckEthBlockHash(api, raw, h.fields, v[0])
			})
			o := append([]V{r.Output}, seen...)
			o = append(o, r.BlockHash[:]...)
			o = append(o, r.BlockNumberLength)
			o = append(o, r.BlockNumber[:len(number)]...)
			o = append(o, r.BlockTime[:len(tm)]...)
			o = append(o, r.StateRoot[:]...)
			o = append(o, r.TransactionsRoot[:]...)
			return append(o, r.ReceiptsRoot[:]...)
		}})
}
