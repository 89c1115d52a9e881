//go:build emuov

package echecks

import (
	"fmt"
	"math/big"
	"math/rand"
	"reflect"

	bls "github.com/consensys/gnark-crypto/ecc/bls12-381"
	fpe "github.com/consensys/gnark-crypto/ecc/bls12-381/fp"

	pb "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	"verif/engine/emu"
	"verif/engine/hk"
)

var fp = pb.BLS12381Fp{}.Modulus()

type el = emu.Element[pb.BLS12381Fp]

// ---- reference arithmetic: Fp2 = Fp[u]/(u^2+1), Fp12 = Fp2[w]/(w^6-(1+u)), schoolbook ----

type r2 [2]*P
type r12 [6]r2 // coefficients of 1, w, ..., w^5

func (x *X) a2(a, b r2) r2 { return r2{x.add(a[0], b[0]), x.add(a[1], b[1])} }
func (x *X) s2(a, b r2) r2 { return r2{x.sub(a[0], b[0]), x.sub(a[1], b[1])} }
func (x *X) m2(a, b r2) r2 {
	return r2{x.sub(x.mul(a[0], b[0]), x.mul(a[1], b[1])), x.add(x.mul(a[0], b[1]), x.mul(a[1], b[0]))}
}
func (x *X) k2(a r2, k int64) r2 { return r2{x.mul(a[0], emu.I(k)), x.mul(a[1], emu.I(k))} }
func (x *X) n2(a r2) r2          { return x.k2(a, -1) }
func (x *X) conj(a r2) r2        { return r2{emu.Mod(a[0], x.Mod), x.sub(emu.I(0), a[1])} }
func c2(a, b int64) r2           { return r2{emu.I(a), emu.I(b)} }
func zero2() r2                  { return c2(0, 0) }

var xi = c2(1, 1)

func (x *X) a12(a, b r12) (r r12) {
	for i := range a {
		r[i] = x.a2(a[i], b[i])
	}
	return
}
func (x *X) s12(a, b r12) (r r12) {
	for i := range a {
		r[i] = x.s2(a[i], b[i])
	}
	return
}
func (x *X) m12(a, b r12) (r r12) {
	for i := range r {
		r[i] = zero2()
	}
	for i := range a {
		for j := range b {
			t := x.m2(a[i], b[j])
			k := i + j
			if k >= 6 {
				k -= 6
				t = x.m2(t, xi)
			}
			r[k] = x.a2(r[k], t)
		}
	}
	return
}

// pow2 raises a constant of Fp2 to a power.
func (x *X) pow2(a r2, e *big.Int) r2 {
	r := c2(1, 0)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = x.m2(r, r)
		if e.Bit(i) == 1 {
			r = x.m2(r, a)
		}
	}
	return r
}

// frob applies the p^n-power map, for n = 1, 2, 3...
func (x *X) frob(a r12, n int) r12 {
	for ; n > 0; n-- {
		// w^p = w * xi^((p-1)/6)
		e := new(big.Int).Div(new(big.Int).Sub(fp, big.NewInt(1)), big.NewInt(6))
		g := x.pow2(xi, e)
		c := c2(1, 0)
		for i := range a {
			a[i] = x.m2(x.conj(a[i]), c)
			c = x.m2(c, g)
		}
	}
	return a
}

// ---- conversions ----

func mkE2(a r2) pb.E2      { return pb.E2{A0: el{V: a[0]}, A1: el{V: a[1]}} }
func pE2(a r2) *pb.E2      { e := mkE2(a); return &e }
func frE2(a *pb.E2) r2     { return r2{a.A0.P(), a.A1.P()} }
func in2(in []*P, i int) r2 { return r2{in[2*i], in[2*i+1]} }

// in12 reads six consecutive E2 inputs as a tower element in memory order (C0.B0, C0.B1, C0.B2, C1.B0, ...).
func in12(in []*P, i int) *pb.E12 {
	g := func(j int) pb.E2 { return mkE2(in2(in, 6*i+j)) }
	return &pb.E12{C0: pb.E6{B0: g(0), B1: g(1), B2: g(2)}, C1: pb.E6{B0: g(3), B1: g(4), B2: g(5)}}
}
func in6(in []*P, i int) *pb.E6 {
	g := func(j int) pb.E2 { return mkE2(in2(in, 3*i+j)) }
	return &pb.E6{B0: g(0), B1: g(1), B2: g(2)}
}
func fr12(e *pb.E12) r12 {
	return r12{frE2(&e.C0.B0), frE2(&e.C1.B0), frE2(&e.C0.B1), frE2(&e.C1.B1), frE2(&e.C0.B2), frE2(&e.C1.B2)}
}
func mk12(a r12) *pb.E12 {
	return &pb.E12{C0: pb.E6{B0: mkE2(a[0]), B1: mkE2(a[2]), B2: mkE2(a[4])}, C1: pb.E6{B0: mkE2(a[1]), B1: mkE2(a[3]), B2: mkE2(a[5])}}
}
func fr6(e *pb.E6) r12 {
	return r12{frE2(&e.B0), zero2(), frE2(&e.B1), zero2(), frE2(&e.B2), zero2()}
}
func mk6(a r12) *pb.E6 { return &pb.E6{B0: mkE2(a[0]), B1: mkE2(a[2]), B2: mkE2(a[4])} }

func flat2(as ...r2) (out []*P) {
	for _, a := range as {
		out = append(out, a[0], a[1])
	}
	return
}
func flat12(a r12) []*P { return flat2(a[:]...) }

func (x *X) pairing() *pb.Pairing {
	pr, err := pb.NewPairing(x.API)
	if err != nil {
		panic(err)
	}
	return pr
}
func (x *X) e12() *pb.VerifExt12 { return pb.VerifExtOf(x.pairing()) }
func (x *X) e6() *pb.VerifExt6 {
	f, _ := emu.NewField[pb.BLS12381Fp](x.API)
	return pb.NewExt6(f)
}
func (x *X) e2() *pb.VerifExt2 {
	f, _ := emu.NewField[pb.BLS12381Fp](x.API)
	return pb.NewExt2(f)
}

func init() { Registry["P01"] = checkP01 }

// cyclo are the relations g^(p^4) * g = g^(p^2) and g^(p^6) * g = 1 of the cyclotomic subgroup, quadratic polynomials.
func (x *X) cyclo(g r12) []*P {
	one := r12{c2(1, 0), zero2(), zero2(), zero2(), zero2(), zero2()}
	return append(flat12(x.s12(x.m12(x.frob(g, 4), g), x.frob(g, 2))), flat12(x.s12(x.m12(x.frob(g, 6), g), one))...)
}

func cyclo12(r *rand.Rand) []*big.Int {
	var g bls.GT
	var out []*big.Int
	setGT(&g, r)
	g = bls.FinalExponentiation(&g)
	for _, e := range gtCoeffs(&g) {
		out = append(out, e)
	}
	return out
}

// setGT fills g with random coefficients, gtCoeffs reads them in memory order.
func setGT(g *bls.GT, r *rand.Rand) {
	for _, f := range gtPtrs(g) {
		f.SetBigInt(new(big.Int).Rand(r, fp))
	}
}

type gfpT = fpe.Element

func gtCoeffs(g *bls.GT) (out []*big.Int) {
	for _, f := range gtPtrs(g) {
		out = append(out, f.BigInt(new(big.Int)))
	}
	return
}

func gtPtrs(g *bls.GT) []*gfpT {
	return []*gfpT{&g.C0.B0.A0, &g.C0.B0.A1, &g.C0.B1.A0, &g.C0.B1.A1, &g.C0.B2.A0, &g.C0.B2.A1,
		&g.C1.B0.A0, &g.C1.B0.A1, &g.C1.B1.A0, &g.C1.B1.A1, &g.C1.B2.A0, &g.C1.B2.A1}
}

func checkP01(c *hk.Check) {
	c.Bound("all coefficients in Fp (BLS12-381 base field), no bound on values; nSquare with n <= 3")
	c.Assume("gnark's std/math/emulated computes exact arithmetic modulo p and its equality assertions hold exactly when the values agree modulo p (elements are modelled as field values; the limb representation is gnark's)")
	c.OutOf("inverse and division by zero (the circuit has no witness)", "DecompressKarabina with g3 = 0 (no witness)")
	pc := func(name string, n int, run, ref func(x *X, in []*P) []*P) {
		polyCase(c, PC{Name: name, In: n, Mod: fp, Run: run, Ref: ref})
	}
	// one or two E2 operands
	un2 := func(name string, f func(e *pb.VerifExt2, a *pb.E2) *pb.E2, g func(x *X, a r2) r2) {
		pc("ext2."+name, 2, func(x *X, in []*P) []*P { return flat2(frE2(f(x.e2(), pE2(in2(in, 0))))) },
			func(x *X, in []*P) []*P { return flat2(g(x, in2(in, 0))) })
	}
	bi2 := func(name string, f func(e *pb.VerifExt2, a, b *pb.E2) *pb.E2, g func(x *X, a, b r2) r2) {
		pc("ext2."+name, 4, func(x *X, in []*P) []*P { return flat2(frE2(f(x.e2(), pE2(in2(in, 0)), pE2(in2(in, 1))))) },
			func(x *X, in []*P) []*P { return flat2(g(x, in2(in, 0), in2(in, 1))) })
		pc("ext2."+name+"-aliased", 2, func(x *X, in []*P) []*P { a := pE2(in2(in, 0)); return flat2(frE2(f(x.e2(), a, a))) },
			func(x *X, in []*P) []*P { return flat2(g(x, in2(in, 0), in2(in, 0))) })
	}
	bi2("Mul", func(e *pb.VerifExt2, a, b *pb.E2) *pb.E2 { return e.Mul(a, b) }, func(x *X, a, b r2) r2 { return x.m2(a, b) })
	bi2("Add", func(e *pb.VerifExt2, a, b *pb.E2) *pb.E2 { return e.Add(a, b) }, func(x *X, a, b r2) r2 { return x.a2(a, b) })
	bi2("Sub", func(e *pb.VerifExt2, a, b *pb.E2) *pb.E2 { return e.Sub(a, b) }, func(x *X, a, b r2) r2 { return x.s2(a, b) })
	un2("Square", func(e *pb.VerifExt2, a *pb.E2) *pb.E2 { return e.Square(a) }, func(x *X, a r2) r2 { return x.m2(a, a) })
	un2("Neg", func(e *pb.VerifExt2, a *pb.E2) *pb.E2 { return e.Neg(a) }, func(x *X, a r2) r2 { return x.n2(a) })
	un2("Double", func(e *pb.VerifExt2, a *pb.E2) *pb.E2 { return e.Double(a) }, func(x *X, a r2) r2 { return x.k2(a, 2) })
	un2("Conjugate", func(e *pb.VerifExt2, a *pb.E2) *pb.E2 { return e.Conjugate(a) }, func(x *X, a r2) r2 { return x.conj(a) })
	half := new(big.Int).ModInverse(big.NewInt(2), fp)
	un2("Halve", func(e *pb.VerifExt2, a *pb.E2) *pb.E2 { return e.Halve(a) }, func(x *X, a r2) r2 { return x.m2(a, r2{emu.Const(half), emu.I(0)}) })
	un2("MulByNonResidue", func(e *pb.VerifExt2, a *pb.E2) *pb.E2 { return e.MulByNonResidue(a) }, func(x *X, a r2) r2 { return x.m2(a, xi) })
	un2("MulByNonResidueInv", func(e *pb.VerifExt2, a *pb.E2) *pb.E2 { return e.MulByNonResidueInv(a) }, func(x *X, a r2) r2 {
		return x.m2(a, r2{emu.Const(half), emu.Const(new(big.Int).Sub(fp, half))})
	})
	un2("MulBybTwistCurveCoeff", func(e *pb.VerifExt2, a *pb.E2) *pb.E2 { return e.MulBybTwistCurveCoeff(a) }, func(x *X, a r2) r2 { return x.m2(a, c2(4, 4)) })
	for pw := 1; pw <= 2; pw++ {
		for k := 1; k <= 5; k++ {
			pw, k := pw, k
			m := fmt.Sprintf("MulByNonResidue%dPower%d", pw, k)
			un2(m, func(e *pb.VerifExt2, a *pb.E2) *pb.E2 {
				return reflect.ValueOf(e).MethodByName(m).Call([]reflect.Value{reflect.ValueOf(a)})[0].Interface().(*pb.E2)
			}, func(x *X, a r2) r2 {
				q := new(big.Int).Exp(fp, big.NewInt(int64(pw)), nil)
				q.Sub(q, big.NewInt(1)).Div(q, big.NewInt(6)).Mul(q, big.NewInt(int64(k)))
				return x.m2(a, x.pow2(xi, q))
			})
		}
	}
	pc("ext2.MulByElement", 3, func(x *X, in []*P) []*P { return flat2(frE2(x.e2().MulByElement(pE2(in2(in, 0)), &el{V: in[2]}))) },
		func(x *X, in []*P) []*P { return []*P{x.mul(in[0], in[2]), x.mul(in[1], in[2])} })
	pc("constants", 0, func(x *X, in []*P) []*P {
		return append(flat2(frE2(x.e2().One()), frE2(x.e2().Zero())), flat12(fr12(x.e12().One()))...)
	}, func(x *X, in []*P) []*P {
		return flat2(c2(1, 0), zero2(), c2(1, 0), zero2(), zero2(), zero2(), zero2(), zero2())
	})
	polyCase(c, PC{Name: "ext2.Select", In: 4, Bools: 1, Mod: fp, Run: func(x *X, in []*P) []*P {
		return flat2(frE2(x.e2().Select(in[4], pE2(in2(in, 0)), pE2(in2(in, 1)))))
	}, Ref: func(x *X, in []*P) []*P {
		a, b := in2(in, 0), in2(in, 1)
		d := x.s2(a, b)
		return flat2(x.a2(b, r2{x.mul(in[4], d[0]), x.mul(in[4], d[1])}))
	}})
	// inverses: operand times result is one
	pc("ext2.Inverse", 2, func(x *X, in []*P) []*P {
		return flat2(x.m2(in2(in, 0), frE2(x.e2().Inverse(pE2(in2(in, 0))))))
	}, func(x *X, in []*P) []*P { return flat2(c2(1, 0)) })
	// contracts for the lower levels: a fresh z with x*z = 1
	hook2 := func(x *X) { pb.VerifHookext2Inverse = func(_ pb.VerifExt2, a *pb.E2) *pb.E2 { return pE2(x.freshInv2(frE2(a))) } }
	hook6 := func(x *X) { pb.VerifHookext6Inverse = func(_ pb.VerifExt6, a *pb.E6) *pb.E6 { return mk6(x.freshInv(fr6(a), true)) } }
	clear := func() { pb.VerifHookext2Inverse, pb.VerifHookext6Inverse, pb.VerifHookext12Inverse, pb.VerifHookext2Div = nil, nil, nil, nil }
	polyCase(c, PC{Name: "ext2.Div", In: 4, Mod: fp, Gens: func(x *X, in []*P) (g []*P) {
		for _, a := range x.asserts() {
			g = append(g, x.mul(a, in[0]), x.mul(a, in[1]))
		}
		return
	}, Run: func(x *X, in []*P) []*P {
		defer clear()
		if !x.C.Conc {
			hook2(x)
		}
		return flat2(x.m2(in2(in, 1), frE2(x.e2().Div(pE2(in2(in, 0)), pE2(in2(in, 1))))))
	}, Ref: func(x *X, in []*P) []*P { return in[:2] }})
	polyCase(c, PC{Name: "ext6.Inverse", In: 6, Mod: fp, Run: func(x *X, in []*P) []*P {
		defer clear()
		if !x.C.Conc {
			hook2(x)
		}
		return flat12(x.m12(fr6(in6(in, 0)), fr6(x.e6().Inverse(in6(in, 0)))))
	}, Ref: func(x *X, in []*P) []*P { return oneFlat() }})
	polyCase(c, PC{Name: "ext12.Inverse", In: 12, Mod: fp, Run: func(x *X, in []*P) []*P {
		defer clear()
		if !x.C.Conc {
			hook6(x)
		}
		return flat12(x.m12(fr12(in12(in, 0)), fr12(x.e12().Inverse(in12(in, 0)))))
	}, Ref: func(x *X, in []*P) []*P { return oneFlat() }})

	// E6
	un6 := func(name string, f func(e *pb.VerifExt6, a *pb.E6) *pb.E6, g func(x *X, a r12) r12) {
		pc("ext6."+name, 6, func(x *X, in []*P) []*P { return flat12(fr6(f(x.e6(), in6(in, 0)))) },
			func(x *X, in []*P) []*P { return flat12(g(x, fr6(in6(in, 0)))) })
	}
	bi6 := func(name string, f func(e *pb.VerifExt6, a, b *pb.E6) *pb.E6, g func(x *X, a, b r12) r12) {
		pc("ext6."+name, 12, func(x *X, in []*P) []*P { return flat12(fr6(f(x.e6(), in6(in, 0), in6(in, 1)))) },
			func(x *X, in []*P) []*P { return flat12(g(x, fr6(in6(in, 0)), fr6(in6(in, 1)))) })
	}
	neg12 := func(x *X, a r12) (r r12) {
		for i := range a {
			r[i] = x.n2(a[i])
		}
		return
	}
	z12 := func() (r r12) {
		for i := range r {
			r[i] = zero2()
		}
		return
	}
	mono := func(k int, a r2) r12 { r := z12(); r[k] = a; return r }
	bi6("Add", func(e *pb.VerifExt6, a, b *pb.E6) *pb.E6 { return e.Add(a, b) }, func(x *X, a, b r12) r12 { return x.a12(a, b) })
	bi6("Sub", func(e *pb.VerifExt6, a, b *pb.E6) *pb.E6 { return e.Sub(a, b) }, func(x *X, a, b r12) r12 { return x.s12(a, b) })
	bi6("Mul", func(e *pb.VerifExt6, a, b *pb.E6) *pb.E6 { return e.Mul(a, b) }, func(x *X, a, b r12) r12 { return x.m12(a, b) })
	un6("Neg", func(e *pb.VerifExt6, a *pb.E6) *pb.E6 { return e.Neg(a) }, neg12)
	un6("Double", func(e *pb.VerifExt6, a *pb.E6) *pb.E6 { return e.Double(a) }, func(x *X, a r12) r12 { return x.a12(a, a) })
	un6("Square", func(e *pb.VerifExt6, a *pb.E6) *pb.E6 { return e.Square(a) }, func(x *X, a r12) r12 { return x.m12(a, a) })
	un6("MulByNonResidue", func(e *pb.VerifExt6, a *pb.E6) *pb.E6 { return e.MulByNonResidue(a) }, func(x *X, a r12) r12 { return x.m12(a, mono(2, c2(1, 0))) })
	pc("ext6.MulByE2", 8, func(x *X, in []*P) []*P { return flat12(fr6(x.e6().MulByE2(in6(in, 0), pE2(in2(in, 3))))) },
		func(x *X, in []*P) []*P { return flat12(x.m12(fr6(in6(in, 0)), mono(0, in2(in, 3)))) })
	pc("ext6.MulBy1", 8, func(x *X, in []*P) []*P { return flat12(fr6(x.e6().MulBy1(in6(in, 0), pE2(in2(in, 3))))) },
		func(x *X, in []*P) []*P { return flat12(x.m12(fr6(in6(in, 0)), mono(2, in2(in, 3)))) })
	pc("ext6.MulBy01", 10, func(x *X, in []*P) []*P { return flat12(fr6(x.e6().MulBy01(in6(in, 0), pE2(in2(in, 3)), pE2(in2(in, 4))))) },
		func(x *X, in []*P) []*P {
			return flat12(x.m12(fr6(in6(in, 0)), x.a12(mono(0, in2(in, 3)), mono(2, in2(in, 4)))))
		})

	// E12
	un12 := func(name string, f func(e *pb.VerifExt12, a *pb.E12) *pb.E12, g func(x *X, a r12) r12) {
		pc("ext12."+name, 12, func(x *X, in []*P) []*P { return flat12(fr12(f(x.e12(), in12(in, 0)))) },
			func(x *X, in []*P) []*P { return flat12(g(x, fr12(in12(in, 0)))) })
	}
	un12("Conjugate", func(e *pb.VerifExt12, a *pb.E12) *pb.E12 { return e.Conjugate(a) }, func(x *X, a r12) r12 {
		for i := 1; i < 6; i += 2 {
			a[i] = x.n2(a[i])
		}
		return a
	})
	un12("Square", func(e *pb.VerifExt12, a *pb.E12) *pb.E12 { return e.Square(a) }, func(x *X, a r12) r12 { return x.m12(a, a) })
	un12("Frobenius", func(e *pb.VerifExt12, a *pb.E12) *pb.E12 { return e.Frobenius(a) }, func(x *X, a r12) r12 { return x.frob(a, 1) })
	un12("FrobeniusSquare", func(e *pb.VerifExt12, a *pb.E12) *pb.E12 { return e.FrobeniusSquare(a) }, func(x *X, a r12) r12 { return x.frob(a, 2) })
	un12("FrobeniusCube", func(e *pb.VerifExt12, a *pb.E12) *pb.E12 { return e.FrobeniusCube(a) }, func(x *X, a r12) r12 { return x.frob(a, 3) })
	pc("ext12.Mul", 24, func(x *X, in []*P) []*P { return flat12(fr12(x.e12().Mul(in12(in, 0), in12(in, 1)))) },
		func(x *X, in []*P) []*P { return flat12(x.m12(fr12(in12(in, 0)), fr12(in12(in, 1)))) })
	// sparse elements: c0 + c3 w + c4 w^3 (034)
	s034 := func(a, b, d r2) r12 { r := z12(); r[0], r[1], r[3] = a, b, d; return r }
	pc("ext12.MulBy034", 18, func(x *X, in []*P) []*P {
		return flat12(fr12(x.e12().MulBy034(in12(in, 0), pE2(in2(in, 6)), pE2(in2(in, 7)), pE2(in2(in, 8)))))
	}, func(x *X, in []*P) []*P {
		return flat12(x.m12(fr12(in12(in, 0)), s034(in2(in, 6), in2(in, 7), in2(in, 8))))
	})
	pc("ext12.MulBy034by034", 12, func(x *X, in []*P) []*P {
		e := func(i int) *pb.E2 { return pE2(in2(in, i)) }
		return flat12(fr12(x.e12().MulBy034by034(e(0), e(1), e(2), e(3), e(4), e(5))))
	}, func(x *X, in []*P) []*P {
		return flat12(x.m12(s034(in2(in, 0), in2(in, 1), in2(in, 2)), s034(in2(in, 3), in2(in, 4), in2(in, 5))))
	})
	// cyclotomic subgroup
	cy := func(x *X, in []*P) []*P { return x.cyclo(fr12(in12(in, 0))) }
	polyCase(c, PC{Name: "ext12.CyclotomicSquare", In: 12, Mod: fp, Gens: cy, Gen: cyclo12,
		Run: func(x *X, in []*P) []*P { return flat12(fr12(x.e12().CyclotomicSquare(in12(in, 0)))) },
		Ref: func(x *X, in []*P) []*P { g := fr12(in12(in, 0)); return flat12(x.m12(g, g)) }})
	// the compressed square has the four components that a compressed element carries
	comp := func(a r12) []*P { return flat2(a[2], a[4], a[1], a[5]) }
	polyCase(c, PC{Name: "ext12.CyclotomicSquareCompressed", In: 12, Mod: fp, Gens: cy, Gen: cyclo12,
		Run: func(x *X, in []*P) []*P {
			g := in12(in, 0)
			return comp(fr12(x.e12().CyclotomicSquareCompressed(g, g)))
		},
		Ref: func(x *X, in []*P) []*P { g := fr12(in12(in, 0)); return comp(x.m12(g, g)) }})
	// decompression: the quotient it computes is the missing component g4 (C1.B1), then all components are those of g.
	polyCase(c, PC{Name: "ext12.DecompressKarabina", In: 12, Mod: fp, Gens: cy, Gen: cyclo12,
		Run: func(x *X, in []*P) []*P {
			defer clear()
			g := in12(in, 0)
			g4 := frE2(&g.C1.B1)
			var chk []*P
			if !x.C.Conc {
				n := 0
				pb.VerifHookext2Div = func(_ pb.VerifExt2, a, b *pb.E2) *pb.E2 {
					n++
					chk = append(chk, flat2(x.s2(x.m2(frE2(b), g4), frE2(a)))...)
					return pE2(g4)
				}
				defer func() {
					if n != 1 {
						panic("DecompressKarabina: one division expected")
					}
				}()
			} else {
				chk = []*P{emu.I(0), emu.I(0)}
			}
			junk := in12(in, 0)
			junk.C0.B0, junk.C1.B1 = mkE2(c2(5, 7)), mkE2(c2(11, 13)) // a compressed element does not carry these
			return append(flat12(fr12(x.e12().DecompressKarabina(*junk))), chk...)
		},
		Ref: func(x *X, in []*P) []*P { return append(flat12(fr12(in12(in, 0))), emu.I(0), emu.I(0)) }})
	// equality assertions
	for _, d := range []int{2, 6, 12} {
		d := d
		c.Case(fmt.Sprintf("AssertIsEqual-%d", d), func(k *hk.Case) {
			k.Poly(func() (bool, string) {
				x := newX(k, fp)
				var in []*P
				for i := 0; i < 2*d; i++ {
					in = append(in, x.C.Var(fmt.Sprintf("x%d", i)))
				}
				switch d {
				case 2:
					x.e2().AssertIsEqual(pE2(in2(in, 0)), pE2(in2(in, 1)))
				case 6:
					x.e6().AssertIsEqual(in6(in, 0), in6(in, 1))
				case 12:
					x.e12().AssertIsEqual(in12(in, 0), in12(in, 1))
				}
				return x.sameIdeal(x.asserts(), func() (w []*P) {
					for i := 0; i < d; i++ {
						w = append(w, x.sub(in[i], in[d+i]))
					}
					return
				}())
			})
		})
	}
}

func oneFlat() []*P {
	r := r12{c2(1, 0), zero2(), zero2(), zero2(), zero2(), zero2()}
	return flat12(r)
}

// freshInv2 returns a fresh z with a*z = 1.
func (x *X) freshInv2(a r2) r2 {
	var z r2
	inv := func(i int) func(ev func(*P) *big.Int) *big.Int {
		return func(ev func(*P) *big.Int) *big.Int { return new(big.Int) }
	}
	z[0], z[1] = x.C.VarVal("i0", inv(0)), x.C.VarVal("i1", inv(1))
	p := x.m2(a, z)
	x.C.Asserts = append(x.C.Asserts, emu.Eq{L: p[0], R: emu.I(1), Mod: x.Mod}, emu.Eq{L: p[1], R: emu.I(0), Mod: x.Mod})
	return z
}

// freshInv returns a fresh z with a*z = 1 (z has no odd coefficients if even is set).
func (x *X) freshInv(a r12, even bool) r12 {
	var z r12
	for i := range z {
		z[i] = zero2()
		if !even || i%2 == 0 {
			z[i] = r2{x.C.Var(fmt.Sprintf("z%d", i)), x.C.Var(fmt.Sprintf("y%d", i))}
		}
	}
	p := flat12(x.m12(a, z))
	for i, q := range p {
		r := emu.I(0)
		if i == 0 {
			r = emu.I(1)
		}
		x.C.Asserts = append(x.C.Asserts, emu.Eq{L: q, R: r, Mod: x.Mod})
	}
	return z
}
