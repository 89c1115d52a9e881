package checks

import (
	"fmt"

	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak/keccakf"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark/frontend"
	"verif/engine/hk"
)

func init() {
	Registry["K01"] = checkK01
	Registry["K03"] = checkK03
}

func checkK01(c *hk.Check) {
	c.Bound("all 2^1600 states (1600 boolean wires), all 24 rounds; reference built from FIPS 202 (round constants from the LFSR, rotation offsets from the (t+1)(t+2)/2 rule)")
	c.OutOf("wires that are not bits (documented precondition of Permute)")
	c.Case("Permute", func(k *hk.Case) {
		b := k.B
		b.XorFlat = 0
		in := boolVars(b, "s", 1600)
		var layers []hk.Layer
		spec := refKeccakF(b, in, "f", &layers)
		k.Equiv(hk.Gadget{Name: "keccakf.Permute", In: in, Outs: spec, Run: func(api frontend.API, v []V) []V {
			var a [1600]V
			copy(a[:], v)
			r := keccakf.Permute(api, a)
			return r[:]
		}}, layers)
	})
}

func checkK03(c *hk.Check) {
	maxR := 3
	if c.Thorough {
		maxR = 6
	}
	c.Bound("Keccak256Bits: maxRounds 1..%d, Keccak256BitsOptimized: all 1 <= minRounds <= maxRounds <= %d; every block content, every BN254 value of roundIndex", maxR, maxR)
	c.Bound("Keccak256 (10 rounds) and the 13-round transaction variants with their AsNibbles wrappers: every BN254 value of every lane wire, of roundIndex and of inLen")
	checkK03lanes(c)
	for n := maxR; n >= 1; n-- {
		for min := 0; min <= n; min++ {
			n, min := n, min
			name := fmt.Sprintf("Keccak256Bits-%d", n)
			if min > 0 {
				name = fmt.Sprintf("Keccak256BitsOptimized-%d-%d", min, n)
			}
			c.Case(name, func(k *hk.Case) {
				b := k.B
				b.XorFlat = 0
				k.NormFirst = true
				idx := b.FieldVar("roundIndex")
				in := boolVars(b, "d", n*1088)
				var layers []hk.Layer
				var blocks [][]*T
				for i := 0; i < n; i++ {
					blocks = append(blocks, in[i*1088:(i+1)*1088])
				}
				states := refSponge(b, blocks, &layers)
				first := 0
				if min > 0 {
					first = min - 1
				}
				var accept *T
				if n > 1 {
					accept = b.And(b.ILe(b.I(int64(first)), idx), b.ILt(idx, b.I(int64(n))))
				}
				outs := make([]*T, 256)
				for i := range outs {
					outs[i] = states[n-1][i]
					for r := n - 2; r >= first; r-- {
						outs[i] = b.Ite(b.IEq(idx, b.I(int64(r))), states[r][i], outs[i])
					}
				}
				if n == 1 {
					accept = nil
				}
				k.EquivG(hk.Gadget{Name: name, In: append([]*T{idx}, in...), Accept: accept, Outs: outs, Run: func(api frontend.API, v []V) []V {
					var r [256]V
					if min == 0 {
						r = keccak.Keccak256Bits(api, n, v[0], v[1:])
					} else {
						r = keccak.Keccak256BitsOptimized(api, min, n, v[0], v[1:])
					}
					return r[:]
				}}, layers)
			})
		}
	}
}

// lane gadgets: 64-bit lanes as field wires
func keccakLaneCase(c *hk.Check, name string, rounds int, nibbles bool, f func(api frontend.API, inLen V, blocks [][17]V, idx V) []V) {
	c.Case(name, func(k *hk.Case) {
		b := k.B
		b.XorFlat = 0
		k.NormFirst = true
		idx := b.FieldVar("roundIndex")
		inLen := b.FieldVar("inLen")
		wires := fieldVars(b, "w", rounds*17)
		accept := b.ILt(idx, b.I(int64(rounds)))
		var blocks [][]*T
		for i := 0; i < rounds; i++ {
			var bl []*T
			for j := 0; j < 17; j++ {
				w := wires[i*17+j]
				accept = b.And(accept, b.ILt(w, b.Const(big2(64))))
				for z := 0; z < 64; z++ {
					bl = append(bl, b.Bit(w, z))
				}
			}
			blocks = append(blocks, bl)
		}
		var layers []hk.Layer
		states := refSponge(b, blocks, &layers)
		sel := make([]*T, 256)
		for i := range sel {
			sel[i] = states[rounds-1][i]
			for r := rounds - 2; r >= 0; r-- {
				sel[i] = b.Ite(b.IEq(idx, b.I(int64(r))), states[r][i], sel[i])
			}
		}
		selLane := func(i, n int) *T {
			t := b.FromBits(states[rounds-1][i : i+n])
			for r := rounds - 2; r >= 0; r-- {
				t = b.Ite(b.IEq(idx, b.I(int64(r))), b.FromBits(states[r][i:i+n]), t)
			}
			return t
		}
		var outs []*T
		if nibbles {
			for i := 0; i < 32; i++ {
				outs = append(outs, b.FromBits(sel[8*i+4:8*i+8]), b.FromBits(sel[8*i:8*i+4]))
			}
			outs = append(outs, b.Ite(b.ILt(inLen, b.I(63)), inLen, b.I(64)))
		} else {
			for i := 0; i < 4; i++ {
				outs = append(outs, selLane(64*i, 64))
			}
		}
		k.EquivG(hk.Gadget{Name: name, In: append([]*T{idx, inLen}, wires...), Accept: accept, Outs: outs, Run: func(api frontend.API, v []V) []V {
			bl := make([][17]V, rounds)
			for i := range bl {
				copy(bl[i][:], v[2+17*i:])
			}
			return f(api, v[1], bl, v[0])
		}}, layers)
	})
}

func checkK03lanes(c *hk.Check) {
	type B10 = [keccak.MAX_ROUNDS][17]V
	type BN = [keccak.NORMAL_TRANSACTION_LEAF_ROUNDS][17]V
	type BM = [keccak.MAX_TRANSACTION_LEAF_ROUNDS][17]V
	nib := func(r *rlp.KeccakOrLiteralHex) []V { return append(append([]V{}, r.Output[:]...), r.OutputLength) }
	keccakLaneCase(c, "rlp.Keccak256ForNormalTransactionAsNibbles", keccak.NORMAL_TRANSACTION_LEAF_ROUNDS, true, func(api frontend.API, n V, bl [][17]V, idx V) []V {
		return nib(rlp.Keccak256ForNormalTransactionAsNibbles(api, n, BN(bl), idx))
	})
	keccakLaneCase(c, "rlp.Keccak256ForMaxTransactionAsNibbles", keccak.MAX_TRANSACTION_LEAF_ROUNDS, true, func(api frontend.API, n V, bl [][17]V, idx V) []V {
		return nib(rlp.Keccak256ForMaxTransactionAsNibbles(api, n, BM(bl), idx))
	})
	keccakLaneCase(c, "rlp.Keccak256AsNibbles", keccak.MAX_ROUNDS, true, func(api frontend.API, n V, bl [][17]V, idx V) []V {
		return nib(rlp.Keccak256AsNibbles(api, n, B10(bl), idx))
	})
	keccakLaneCase(c, "keccak.Keccak256", keccak.MAX_ROUNDS, false, func(api frontend.API, n V, bl [][17]V, idx V) []V {
		r := keccak.Keccak256(api, B10(bl), idx)
		return r[:]
	})
	if c.Thorough {
		keccakLaneCase(c, "keccak.Keccak256ForNormalTransaction", keccak.NORMAL_TRANSACTION_LEAF_ROUNDS, false, func(api frontend.API, n V, bl [][17]V, idx V) []V {
			r := keccak.Keccak256ForNormalTransaction(api, BN(bl), idx)
			return r[:]
		})
		keccakLaneCase(c, "keccak.Keccak256ForMaxTransaction", keccak.MAX_TRANSACTION_LEAF_ROUNDS, false, func(api frontend.API, n V, bl [][17]V, idx V) []V {
			r := keccak.Keccak256ForMaxTransaction(api, BM(bl), idx)
			return r[:]
		})
	}
}
