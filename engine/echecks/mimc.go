//go:build emuov

package echecks

import (
	"fmt"
	"hash"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/emulated/mimc"
	"github.com/consensys/gnark-crypto/ecc"
	mimc377 "github.com/consensys/gnark-crypto/ecc/bls12-377/fr/mimc"
	mimc254 "github.com/consensys/gnark-crypto/ecc/bn254/fr/mimc"
	mimc761 "github.com/consensys/gnark-crypto/ecc/bw6-761/fr/mimc"
	"verif/engine/emu"
	"verif/engine/hk"
)

func init() { Registry["E02"] = checkE02 }

// scripts: w = write one element, W = write two at once, r = Reset, s = Sum (its value is an output),
// h = Hash of two elements (an output)
func mimcCase[F emu.FieldParams](c *hk.Check, name string, id ecc.ID, exp int, consts []big.Int, native func() hash.Hash, script string) {
	n := 0
	for _, o := range script {
		switch o {
		case 'w':
			n++
		case 'W', 'h':
			n += 2
		}
	}
	mod := id.ScalarField()
	run := func(x *X, in []*P) []*P {
		h := mimc.NewMiMC[F](x.API, id)
		var outs []*P
		next := func() *emu.Element[F] {
			e := emu.Mk[F](in[0])
			in = in[1:]
			return &e
		}
		for _, o := range script {
			switch o {
			case 'w':
				h.Write(next())
			case 'W':
				a, b := next(), next()
				h.Write(a, b)
			case 'r':
				h.Reset()
			case 's':
				outs = append(outs, h.Sum().P())
			case 'h':
				a, b := next(), next()
				outs = append(outs, h.Hash(a, b).P())
			}
		}
		return outs
	}
	ref := func(x *X, in []*P) []*P {
		var outs []*P
		if x.C.Conc {
			// the concrete replay compares with gnark-crypto's hash
			h := native()
			w := func() {
				v, _ := in[0].IsConst()
				b := make([]byte, h.BlockSize())
				new(big.Int).Set(v).FillBytes(b)
				h.Write(b)
				in = in[1:]
			}
			for _, o := range script {
				switch o {
				case 'w':
					w()
				case 'W':
					w()
					w()
				case 'r':
					h.Reset()
				case 's', 'h':
					if o == 'h' {
						h.Reset()
						w()
						w()
					}
					outs = append(outs, emu.Const(new(big.Int).SetBytes(h.Sum(nil))))
				}
			}
			return outs
		}
		st := emu.I(0)
		var data []*P
		take := func() { data, in = append(data, in[0]), in[1:] }
		sum := func() {
			for _, m := range data {
				y := m
				for i := range consts {
					t := x.add(x.add(y, st), emu.Const(&consts[i]))
					y = t
					for e := 1; e < exp; e++ {
						y = x.mul(y, t)
					}
				}
				y = x.add(y, st)
				st = x.add(x.add(y, st), m)
			}
			data = nil
			outs = append(outs, st)
		}
		for _, o := range script {
			switch o {
			case 'w':
				take()
			case 'W':
				take()
				take()
			case 'r':
				st, data = emu.I(0), nil
			case 's':
				sum()
			case 'h':
				st, data = emu.I(0), nil
				take()
				take()
				sum()
			}
		}
		return outs
	}
	polyCase(c, PC{Name: name + "-" + script, In: n, Mod: mod, Run: run, Ref: ref, Atomise: true})
}

func checkE02(c *hk.Check) {
	scripts := []string{"ws", "Ws", "wws", "wrws", "wsrws", "h", "whs", "wsws", "wWws", "ss"}
	if c.Thorough {
		scripts = append(scripts, "wwwwwwwws", "WWWWs", "wsWsrwsh", "hh", "wsss", "rs", "wrs", "WsrWsrWs")
	}
	c.Bound(fmt.Sprintf("curves BN254, BLS12-377, BW6-761; sequences of Write (one and two elements), Sum, Reset and Hash: %v; all field elements", scripts))
	c.Stub("gnark's emulated field: its operations are exact field operations on polynomials over the scalar field; factors with several terms are named by auxiliary variables, whose definitions in the code and in the reference are compared by the solver")
	c.OutOf("the limb-level encoding of emulated elements (gnark's own), messages of more than 8 elements")
	for _, s := range scripts {
		mimcCase[emu.BN254Fr](c, "BN254", ecc.BN254, 5, mimc254.GetConstants(), func() hash.Hash { return mimc254.NewMiMC() }, s)
		mimcCase[emu.BLS12377Fr](c, "BLS12377", ecc.BLS12_377, 17, mimc377.GetConstants(), func() hash.Hash { return mimc377.NewMiMC() }, s)
		mimcCase[emu.BW6761Fr](c, "BW6761", ecc.BW6_761, 5, mimc761.GetConstants(), func() hash.Hash { return mimc761.NewMiMC() }, s)
	}
}
