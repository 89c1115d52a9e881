//go:build overlay

package checks

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/merkle"
	"github.com/brevis-network/zk-utils/circuits/gadgets/smt"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
	"verif/engine/emimcstub"
	"verif/engine/hk"
	"verif/engine/keccakstub"
	"verif/engine/mimcstub"
	"verif/engine/sym"
)

func init() { Registry["G01"] = checkG01 }

// someHash is the concrete function that interprets an uninterpreted hash in replays.
func someHash(tag string, mod *big.Int, xs []*big.Int) *big.Int {
	h := sha256.New()
	h.Write([]byte(tag))
	for _, x := range xs {
		var buf [256]byte
		x.FillBytes(buf[:])
		h.Write(buf[:])
	}
	return new(big.Int).Mod(new(big.Int).SetBytes(h.Sum(nil)), mod)
}

// ufHash: an uninterpreted function on terms, someHash on numbers.
func ufHash(b *sym.B, tag string, mod *big.Int) (onT func(xs ...*T) *T, onV func(api frontend.API, xs ...V) V) {
	name := fmt.Sprintf("%s", tag)
	b.UFDef[name] = func(xs []*big.Int) *big.Int { return someHash(tag, mod, xs) }
	onT = func(xs ...*T) *T { return b.UF(name, big.NewInt(0), new(big.Int).Sub(mod, big.NewInt(1)), xs...) }
	onV = func(api frontend.API, xs ...V) V {
		if s, ok := api.(*sym.API); ok {
			ts := s.Terms(xs)
			for i := range ts {
				ts[i] = b.Canon(ts[i])
			}
			return V(onT(ts...))
		}
		var vs []*big.Int
		for _, x := range xs {
			vs = append(vs, sym.FromInterface(x))
		}
		return V(someHash(tag, mod, vs))
	}
	return
}

func checkG01(c *hk.Check) {
	depths := []int{0, 1, 2, 3, 5}
	counts := []int{1, 2, 4, 8}
	if c.Thorough {
		depths = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 32}
		counts = []int{1, 2, 4, 8, 16, 32}
	}
	c.Bound(fmt.Sprintf("branch lengths %v (leaf trees of the same lengths), %v leaves; all leaves, siblings, index values and roots", depths, counts))
	c.Stub("MiMC (gnark), emulated MiMC (E02) and keccak (K03): uninterpreted functions of the state and block, of the message, and of the padded 1088-bit block")
	c.OutOf("more indexes than branches beyond one, MimcRoot/KeccakMerkleRoot with a leaf count that is no power of two")
	f := ecc.BN254.ScalarField()
	for _, d := range depths {
		for extra := 0; extra <= 1; extra++ {
			d, extra := d, extra
			name := fmt.Sprintf("%d-%d", d, extra)
			mk := func(k *hk.Case) (b *sym.B, leaf, root *T, idx, br []*T, acc *T, onT func(...*T) *T, stub func(api frontend.API) mimcstub.MiMC, fold func(v *T, idx, br []*T) *T) {
				b = k.B
				var onV func(frontend.API, ...V) V
				onT, onV = ufHash(b, "mimcF", f)
				leaf, root = b.FieldVar("leaf"), b.FieldVar("root")
				idx, br = fieldVars(b, "i", d+extra), fieldVars(b, "s", d)
				acc = b.T
				for i := 0; i < d; i++ {
					acc = b.And(acc, b.ILe(idx[i], b.I(1)))
				}
				stub = func(api frontend.API) mimcstub.MiMC {
					return mimcstub.New(func(h, x frontend.Variable) frontend.Variable { return onV(api, h, x) })
				}
				fold = func(v *T, idx, br []*T) *T {
					for i := range br {
						l := onT(onT(b.I(0), v), br[i])
						r := onT(onT(b.I(0), br[i]), v)
						v = b.Ite(b.IEq(idx[i], b.I(0)), l, r)
					}
					return v
				}
				return
			}
			c.Case("MerkleRootBasedOnMiMCHash-"+name, func(k *hk.Case) {
				b, leaf, _, idx, br, acc, onT, stub, fold := mk(k)
				n := len(idx)
				k.Gadget(hk.Gadget{Name: "root", In: join([]*T{leaf}, idx, br), Accept: acc, Outs: []*T{fold(onT(b.I(0), leaf), idx, br)}, Run: func(api frontend.API, v []V) []V {
					return []V{merkle.MerkleRootBasedOnMiMCHash(api, stub(api), v[0], v[1:1+n], v[1+n:])}
				}})
			})
			c.Case("MerkleRootWithLeaveHash-"+name, func(k *hk.Case) {
				_, leaf, _, idx, br, acc, _, stub, fold := mk(k)
				n := len(idx)
				k.Gadget(hk.Gadget{Name: "root", In: join([]*T{leaf}, idx, br), Accept: acc, Outs: []*T{fold(leaf, idx, br)}, Run: func(api frontend.API, v []V) []V {
					return []V{merkle.MerkleRootWithLeaveHash(api, stub(api), v[0], v[1:1+n], v[1+n:])}
				}})
			})
			if extra == 0 {
				for _, lt := range []int{0, 1, 2} {
					lt := lt
					c.Case(fmt.Sprintf("CheckSMTInclusion-%s-leaf%d", name, lt), func(k *hk.Case) {
						b, leaf, root, idx, br, acc, onT, stub, fold := mk(k)
						lidx, lbr := fieldVars(b, "li", lt), fieldVars(b, "ls", lt)
						for i := range lidx {
							acc = b.And(acc, b.ILe(lidx[i], b.I(1)))
						}
						lv := fold(onT(b.I(0), leaf), lidx, lbr)
						got := fold(onT(b.I(0), lv), idx, br)
						k.Gadget(hk.Gadget{Name: "inclusion", In: join([]*T{leaf, root}, idx, br, lidx, lbr), Accept: acc, Outs: []*T{boolInt(b, b.FEq(got, root))}, Run: func(api frontend.API, v []V) []V {
							leaf, root, v := v[0], v[1], v[2:]
							tree := append([]V{leaf}, v[2*d+lt:]...)
							return []V{smt.CheckSMTInclusion(api, stub(api), d, tree, v[2*d:2*d+lt], v[:d], v[d:2*d], root)}
						}})
					})
				}
			}
			if extra == 0 {
				c.Case("RestoreMimcRoot-"+name, func(k *hk.Case) {
					b := k.B
					e := newElems(b)
					leaf, _ := e.in("leaf")
					in := append([]*T{}, leaf...)
					acc := b.T
					v := leaf
					lr := fieldVars(b, "i", d)
					var sib []*T
					for i := 0; i < d; i++ {
						s, _ := e.in(fmt.Sprintf("s%d_", i))
						sib = append(sib, s...)
						acc = b.And(acc, b.ILe(lr[i], b.I(1)))
						l, r := e.hash(v, s), e.hash(s, v)
						var w []*T
						for j := range l {
							w = append(w, b.Ite(b.IEq(lr[i], b.I(0)), l[j], r[j]))
						}
						v = w
					}
					in = append(append(in, lr...), sib...)
					k.Gadget(hk.Gadget{Name: "root", In: in, Accept: acc, Outs: v, Run: func(api frontend.API, v []V) []V {
						defer e.hook(api)()
						a := merkle.NewMimcRootAPI[emulated.BLS12377Fr](api, ecc.BLS12_377)
						var path []*emulated.Element[emulated.BLS12377Fr]
						for i := 0; i < d; i++ {
							path = append(path, e.el(api, v[4+d+4*i:8+d+4*i]))
						}
						return a.RestoreMimcRoot(e.el(api, v[:4]), path, v[4:4+d]).Limbs
					}})
				})
			}
		}
	}
	for _, n := range counts {
		n := n
		c.Case(fmt.Sprintf("MimcRoot-%d", n), func(k *hk.Case) {
			b := k.B
			e := newElems(b)
			var in []*T
			var lv [][]*T
			for i := 0; i < n; i++ {
				l, _ := e.in(fmt.Sprintf("l%d_", i))
				lv = append(lv, l)
				in = append(in, l...)
			}
			for len(lv) > 1 {
				var up [][]*T
				for i := 0; i < len(lv); i += 2 {
					up = append(up, e.hash(lv[i], lv[i+1]))
				}
				lv = up
			}
			k.Gadget(hk.Gadget{Name: "root", In: in, Outs: lv[0], Run: func(api frontend.API, v []V) []V {
				defer e.hook(api)()
				a := merkle.NewMimcRootAPI[emulated.BLS12377Fr](api, ecc.BLS12_377)
				var ls []*emulated.Element[emulated.BLS12377Fr]
				for i := 0; i < n; i++ {
					ls = append(ls, e.el(api, v[4*i:4*i+4]))
				}
				return a.MimcRoot(ls).Limbs
			}})
		})
		c.Case(fmt.Sprintf("KeccakMerkleRoot-%d", n), func(k *hk.Case) {
			b := k.B
			onT, onV := ufHash(b, "keccak", big2(256))
			words := func(bits []*T) []*T { // 64-bit little-endian words
				var r []*T
				for i := 0; i < len(bits); i += 64 {
					r = append(r, b.FromBits(bits[i:i+64]))
				}
				return r
			}
			var in []*T
			lv := make([][]*T, n)
			for i := range lv {
				w := b.BitsVar(fmt.Sprintf("l%d", i), 256)
				for j := 0; j < 256; j++ {
					lv[i] = append(lv[i], b.Bit(w, j))
				}
				in = append(in, lv[i]...)
			}
			for len(lv) > 1 {
				var up [][]*T
				for i := 0; i < len(lv); i += 2 {
					blk := append(append([]*T{}, lv[i]...), lv[i+1]...)
					blk = append(blk, b.I(1))
					for len(blk) < 1087 {
						blk = append(blk, b.I(0))
					}
					blk = append(blk, b.I(1))
					h := onT(words(blk)...)
					var bs []*T
					for j := 0; j < 256; j++ {
						bs = append(bs, b.Bit(h, j))
					}
					up = append(up, bs)
				}
				lv = up
			}
			k.Gadget(hk.Gadget{Name: "root", In: in, Outs: lv[0], Run: func(api frontend.API, v []V) []V {
				keccakstub.Hooks.Store(api, func(blk []V) (r [256]V) {
					if s, ok := api.(*sym.API); ok {
						h := onT(words(s.Terms(blk))...)
						for j := range r {
							r[j] = b.Bit(h, j)
						}
						return
					}
					var ws []V
					for i := 0; i < len(blk); i += 64 {
						x := new(big.Int)
						for j := 63; j >= 0; j-- {
							x.Lsh(x, 1)
							x.Or(x, sym.FromInterface(blk[i+j]))
						}
						ws = append(ws, x)
					}
					h := onV(api, ws...).(*big.Int)
					for j := range r {
						r[j] = big.NewInt(int64(h.Bit(j)))
					}
					return
				})
				defer keccakstub.Hooks.Delete(api)
				leaves := make([][256]V, n)
				for i := range leaves {
					copy(leaves[i][:], v[256*i:])
				}
				r := merkle.KeccakMerkleRoot(api, leaves)
				return r[:]
			}})
		})
	}
}

// elems: BLS12-377 scalar elements as four limbs, and the hash of a pair of them
type elems struct {
	b   *sym.B
	onT func(...*T) *T
	onV func(frontend.API, ...V) V
}

func newElems(b *sym.B) *elems {
	e := &elems{b: b}
	e.onT, e.onV = ufHash(b, "emimc", big2(253))
	return e
}

func (e *elems) in(name string) (limbs, bits []*T) {
	for j := 0; j < 4; j++ {
		w := 64
		if j == 3 {
			w = 61
		}
		limbs = append(limbs, e.b.BitsVar(fmt.Sprintf("%s%d", name, j), w))
	}
	return
}

func (e *elems) limbs(h *T) []*T {
	var r []*T
	for j := 0; j < 4; j++ {
		var bs []*T
		for t := 64 * j; t < 64*j+64 && t < 253; t++ {
			bs = append(bs, e.b.Bit(h, t))
		}
		r = append(r, e.b.FromBits(bs))
	}
	return r
}

func (e *elems) hash(x, y []*T) []*T { return e.limbs(e.onT(append(append([]*T{}, x...), y...)...)) }

func (e *elems) el(api frontend.API, v []V) *emulated.Element[emulated.BLS12377Fr] {
	f, err := emulated.NewField[emulated.BLS12377Fr](api)
	if err != nil {
		panic(err)
	}
	return f.NewInternalElement(append([]V{}, v...), 0)
}

func (e *elems) hook(api frontend.API) func() {
	emimcstub.Hooks.Store(api, func(m [][]V) []V {
		var all []V
		for _, x := range m {
			all = append(all, x...)
		}
		if s, ok := api.(*sym.API); ok {
			var ts []*T
			for _, t := range s.Terms(all) {
				ts = append(ts, e.b.Canon(t))
			}
			var r []V
			for _, l := range e.limbs(e.onT(ts...)) {
				r = append(r, l)
			}
			return r
		}
		h := e.onV(api, all...).(*big.Int)
		var r []V
		for j := 0; j < 4; j++ {
			x := new(big.Int).Rsh(h, uint(64*j))
			r = append(r, x.And(x, new(big.Int).Sub(big2(64), big.NewInt(1))))
		}
		return r
	})
	return func() { emimcstub.Hooks.Delete(api) }
}
