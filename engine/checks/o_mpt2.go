//go:build overlay

package checks

import (
	"fmt"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark/frontend"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() {
	Registry["T02"] = checkT02
}

func extSpec(b *sym.B, d *decoded, klen *T, key []*T, refLen *T, ref []*T, plen *T, maxKey, maxRef int) *T {
	rest := b.Sub(d.lens[0], plen)
	refEq := b.T
	for i := 0; i < maxRef; i++ {
		refEq = b.And(refEq, b.Implies(b.ILt(b.I(int64(i)), d.lens[1]), b.IEq(ref[i], d.fields[1][i])))
	}
	return b.And(d.out, hexPrefixOK(b, plen, d.fields[0], 1, 0), prefixMatch(b, key, d.fields[0], rest, plen, maxKey), b.IEq(rest, klen),
		rangeT(b, rest, 0, maxKey), rangeT(b, d.lens[1], 0, maxRef), b.IEq(refLen, d.lens[1]), refEq)
}

func branchDecl() *rlp.ArrayCheck {
	a := &rlp.ArrayCheck{MaxHexLen: mpt.MaxBranchNodeRlpHexLen, MaxFields: 17, FieldMaxHexLen: make([]int, 17)}
	for i := 0; i < 16; i++ {
		a.FieldMaxHexLen[i] = 64
	}
	return a
}

// branchRef: the item of a decoded branch at nibble nb equals the reference.
func branchSpec(b *sym.B, d *decoded, nb, refLen *T, ref []*T) *T {
	r := b.F
	for j := 0; j < 16; j++ {
		m := b.And(b.IEq(nb, b.I(int64(j))), b.IEq(refLen, d.lens[j]))
		for i := 0; i < 64; i++ {
			m = b.And(m, b.Implies(b.ILt(b.I(int64(i)), refLen), b.IEq(ref[i], d.fields[j][i])))
		}
		r = b.Or(r, m)
	}
	return b.And(d.out, r, rangeT(b, refLen, 0, 64))
}

func checkT02(c *hk.Check) {
	c.Bound("extension: any decoded two-item list, all key fragments, prefix lengths and references, for (key, ref) sizes (64,64), (7,64), (6,64); branch: any decoded 17-item list, all nibble wires and references of length 0..64 (thorough; 0, 62, 63, 64 in quick)")
	c.Bound("end to end on real encodings: extension paths of 1..63 nibbles (selected in quick) with 32-byte references; branch nodes with listed sets of children, every nibble; all contents")
	c.Stub("ArrayCheck.RlpArrayCheck returns an arbitrary well-typed decoding (its own contract is R03) in the acceptance cases; the end-to-end cases run it for real")
	for _, cf := range [][2]int{{64, 64}, {7, 64}, {6, 64}} {
		mk, mr := cf[0], cf[1]
		mkCase := func(kind string, l1 int) {
			c.Case(fmt.Sprintf("ext-%d-%s-%d", mk, kind, l1), func(k *hk.Case) {
				b := k.B
				ec := mpt.NewMPTExtensionCheck(mk, mr)
				w := 4 + mk + 2 + 2 + mr
				d := newDecoded(b, "d", &rlp.ArrayCheck{MaxHexLen: w, MaxFields: 2, FieldMaxHexLen: []int{mk + 2, mr}})
				if l1 >= 0 {
					d.lens[1] = b.I(int64(l1))
				}
				klen, rlen := b.BitsVar("klen", 8), b.BitsVar("rlen", 8)
				key, ref := bitsVars(b, "k", mk, 4), bitsVars(b, "r", mr, 4)
				plen := b.FieldVar("plen")
				spec := extSpec(b, d, klen, key, rlen, ref, plen, mk, mr)
				in := join(d.flat(), []*T{klen, plen, rlen}, key, ref)
				run := func(api frontend.API, v []V) V {
					var r V
					n := d.size()
					oneDecode(api, d, v[:n], func() {
						node := make([]V, w)
						for i := range node {
							node[i] = 0
						}
						x := ec.CheckExtension(api, v[n], v[n+3:n+3+mk], v[n+2], v[n+3+mk:], node, v[n+1])
						r = x.GetOutput()
					})
					return r
				}
				scoreCases(k, "CheckExtension", kind, in, spec, run)
			})
		}
		mkCase("complete", -1)
		mkCase("range", -1)
		for l := 0; l <= mr; l += 2 {
			if c.Thorough || l <= 2 || l >= mr-2 || l%16 == 0 {
				mkCase("sound", l)
			}
		}
	}
	mkBr := func(kind string, rl int) {
		c.Case(fmt.Sprintf("branch-%s-%d", kind, rl), func(k *hk.Case) {
			b := k.B
			bc := mpt.NewMPTBranchCheck(64)
			d := newDecoded(b, "d", branchDecl())
			nb, rlen := b.FieldVar("nb"), b.BitsVar("rlen", 8)
			if rl >= 0 {
				rlen = b.I(int64(rl))
			}
			ref := bitsVars(b, "r", 64, 4)
			spec := branchSpec(b, d, nb, rlen, ref)
			in := join(d.flat(), []*T{nb, rlen}, ref)
			run := func(api frontend.API, v []V) V {
				var r V
				n := d.size()
				oneDecode(api, d, v[:n], func() {
					node := make([]V, mpt.MaxBranchNodeRlpHexLen)
					for i := range node {
						node[i] = 0
					}
					x := bc.CheckBranch(api, v[n], v[n+1], v[n+2:], node)
					r = x.GetOutput()
				})
				return r
			}
			scoreCases(k, "CheckBranch", kind, in, spec, run)
		})
	}
	for l := 0; l <= 64; l++ {
		if c.Thorough || l == 0 || l >= 62 {
			mkBr("sound", l)
			mkBr("complete", l)
			mkBr("range", l)
		}
	}
	// CheckBranchForNonExistence: 1 exactly when the list is well-formed and the item at the nibble is empty
	c.Case("branch-empty", func(k *hk.Case) {
		b := k.B
		bc := mpt.NewMPTBranchCheck(64)
		d := newDecoded(b, "d", branchDecl())
		nb := b.BitsVar("nb", 4)
		e := b.F
		for j := 0; j < 16; j++ {
			e = b.Or(e, b.And(b.IEq(nb, b.I(int64(j))), b.IEq(d.lens[j], b.I(0))))
		}
		k.Gadget(hk.Gadget{Name: "CheckBranchForNonExistence", In: join(d.flat(), []*T{nb}), Outs: []*T{boolInt(b, b.And(d.out, e))}, Run: func(api frontend.API, v []V) []V {
			var r V
			oneDecode(api, d, v[:d.size()], func() {
				node := make([]V, mpt.MaxBranchNodeRlpHexLen)
				for i := range node {
					node[i] = 0
				}
				r = bc.CheckBranchForNonExistence(api, v[d.size()], node)
			})
			return []V{r}
		}})
	})
	// end to end
	for n := 1; n <= 63; n++ {
		if !c.Thorough && n > 7 && n < 50 && n%8 != 1 {
			continue
		}
		for _, mk := range []int{64, 7} {
			n, mk := n, mk
			if n > mk {
				continue
			}
			c.Case(fmt.Sprintf("ext-e2e-%d-path%d", mk, n), func(k *hk.Case) {
				b := k.B
				ec := mpt.NewMPTExtensionCheck(mk, 64)
				w := 4 + mk + 2 + 2 + 64
				path, ref := bitsVars(b, "p", n, 4), bitsVars(b, "r", 64, 4)
				kp, plen := join(nibs(b, 0, 2), path), 2
				if n%2 == 1 {
					kp, plen = join(nibs(b, 1, 1), path), 1
				}
				item := kp
				if len(kp) > 2 {
					item = join(strPrefix(b, len(kp)/2, 0x80), kp)
				}
				body := join(item, nibs(b, 0xa0, 2), ref)
				nib := join(strPrefix(b, len(body)/2, 0xc0), body)
				for i := len(nib); i < w; i++ {
					nib = append(nib, b.BitsVar(fmt.Sprintf("rest%d", i), 4))
				}
				key := append([]*T{}, path...)
				for i := len(key); i < mk; i++ {
					key = append(key, b.BitsVar(fmt.Sprintf("kx%d", i), 4))
				}
				k.Gadget(hk.Gadget{Name: "CheckExtension", In: join(nib, key, ref), CompleteOnly: true, Outs: []*T{b.I(4)}, Run: func(api frontend.API, v []V) []V {
					x := ec.CheckExtension(api, n, v[w:w+mk], 64, v[w+mk:], v[:w], plen)
					return []V{x.GetOutput()}
				}})
			})
		}
	}
	masks := []int{0xffff, 0x0003, 0x8001, 0x5a5a, 0x0f00}
	for _, mask := range masks {
		for nb := 0; nb < 16; nb++ {
			mask, nb := mask, nb
			if mask>>nb&1 == 0 || (!c.Thorough && mask == 0xffff && nb%5 != 0) {
				continue
			}
			c.Case(fmt.Sprintf("branch-e2e-%04x-%d", mask, nb), func(k *hk.Case) {
				b := k.B
				bc := mpt.NewMPTBranchCheck(64)
				z := make([]int, 17)
				for i := 0; i < 16; i++ {
					if mask>>i&1 == 1 {
						z[i] = 32
					}
				}
				e := encList(b, z)
				nib := append([]*T{}, e.nib...)
				for i := len(nib); i < mpt.MaxBranchNodeRlpHexLen; i++ {
					nib = append(nib, b.BitsVar(fmt.Sprintf("rest%d", i), 4))
				}
				w := len(nib)
				k.Gadget(hk.Gadget{Name: "CheckBranch", In: join(nib, e.items[nb]), CompleteOnly: true, Outs: []*T{b.I(4)}, Run: func(api frontend.API, v []V) []V {
					x := bc.CheckBranch(api, nb, 64, v[w:], v[:w])
					return []V{x.GetOutput()}
				}})
			})
		}
	}
}

// scoreCases: a score gadget reaches 4 only when spec holds ("sound"), always when it holds ("complete"), and stays in 0..4.
func scoreCases(k *hk.Case, name, kind string, in []*T, spec *T, run func(api frontend.API, v []V) V) {
	b := k.B
	switch kind {
	case "sound":
		k.Gadget(hk.Gadget{Name: name, In: in, SoundOnly: true, Accept: spec, Run: func(api frontend.API, v []V) []V {
			api.AssertIsEqual(run(api, v), 4)
			return nil
		}})
	case "complete":
		k.Gadget(hk.Gadget{Name: name, In: in, CompleteOnly: true, Pre: []*T{spec}, Outs: []*T{b.I(4)}, Run: func(api frontend.API, v []V) []V { return []V{run(api, v)} }})
	case "range":
		k.Gadget(hk.Gadget{Name: name, In: in, SoundOnly: true, Outs: []*T{b.I(1)}, Run: func(api frontend.API, v []V) []V {
			s := run(api, v)
			z := api.IsZero(s)
			for i := 1; i <= 4; i++ {
				z = api.Add(z, api.IsZero(api.Sub(s, i)))
			}
			return []V{z}
		}})
	}
}
