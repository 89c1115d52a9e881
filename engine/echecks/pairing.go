//go:build emuov

package echecks

import (
	"fmt"
	"math/big"
	"math/rand"

	bls "github.com/consensys/gnark-crypto/ecc/bls12-381"

	pb "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	"verif/engine/emu"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() { Registry["P02"] = checkP02 }

// tagCase runs repository code on abstract elements (hooks in place); the returned pairs must agree for all values. conc
// replays concretely without hooks against gnark-crypto.
func tagCase(c *hk.Check, name string, mod *big.Int, run func(x *X) []emu.Eq, conc func(r *rand.Rand) (bool, map[string]any, string)) {
	c.Case(name, func(k *hk.Case) {
		k.Poly(func() (bool, string) {
			x := newX(k, mod)
			var pairs []emu.Eq
			_, perr := locked(func() []*P {
				defer clearHooks()
				pairs = run(x)
				return nil
			})
			replay := func() (bool, map[string]any, string) {
				runMu.Lock()
				defer runMu.Unlock()
				for s := int64(1); s <= 2; s++ {
					if ok, d, m := conc(rand.New(rand.NewSource(s))); !ok {
						return false, d, m
					}
				}
				return true, nil, ""
			}
			if perr == "" && len(x.C.Fail) == 0 {
				for i := range pairs {
					pairs[i].L, pairs[i].R = emu.Mod(pairs[i].L, mod), emu.Mod(pairs[i].R, mod)
				}
				if r := k.Script("outputs", emu.Script(pairs, mod)); r == sym.Unsat {
					ok, _, msg := replay()
					k.ReachOK("concrete", ok)
					if !ok {
						return false, "concrete run disagrees: " + msg
					}
					return true, ""
				}
				for i, e := range pairs {
					if d := emu.Sub(e.L, e.R, mod); len(d.M) > 0 {
						perr = fmt.Sprintf("pair %d of %d differs", i, len(pairs))
						break
					}
				}
			} else if perr == "" {
				perr = x.C.Fail[0]
			}
			if ok, d, msg := replay(); !ok {
				k.Violation("outputs", name+": "+perr+"; "+msg, d)
				return true, ""
			}
			return false, perr + ", but the concrete runs agree"
		})
	})
}

func clearHooks() {
	pb.VerifHookext2Inverse, pb.VerifHookext6Inverse, pb.VerifHookext12Inverse, pb.VerifHookext2Div = nil, nil, nil, nil
	pb.VerifHookext12Mul, pb.VerifHookext12Square, pb.VerifHookext12Conjugate = nil, nil, nil
	pb.VerifHookext12CyclotomicSquare, pb.VerifHookext12CyclotomicSquareCompressed, pb.VerifHookext12DecompressKarabina = nil, nil, nil
	pb.VerifHookext12Frobenius, pb.VerifHookext12FrobeniusSquare, pb.VerifHookext12FrobeniusCube = nil, nil, nil
	pb.VerifHookext12Expt, pb.VerifHookext12ExptHalf, pb.VerifHookext12Mul014By014 = nil, nil, nil
	pb.VerifHookPairingMulBy014, pb.VerifHookPairingDoubleStep, pb.VerifHookPairingAddStep = nil, nil, nil
	pb.VerifHookPairingMillerLoop, pb.VerifHookPairingFinalExponentiation = nil, nil
	clearHooksG2()
}

// ---- E12 elements as logarithms: C0.B0.A0 holds the exponent polynomial, C1.B2.A1 a kind ----
const (
	kFull = 1
	kComp = 2 // compressed
)

func lg(p *P, kind int64) *pb.E12 {
	e := mk12(r12{zero2(), zero2(), zero2(), zero2(), zero2(), zero2()})
	e.C0.B0 = mkE2(r2{p, emu.I(0)})
	e.C1.B2 = mkE2(r2{emu.I(0), emu.I(kind)})
	return e
}
func lgOf(x *X, e *pb.E12, kind int64) *P {
	k, ok := e.C1.B2.A1.P().IsConst()
	if !ok || k.Int64() != kind {
		x.C.Fail = append(x.C.Fail, fmt.Sprintf("an element of kind %v is used where kind %d is needed", k, kind))
	}
	return e.C0.B0.A0.P()
}

func hookLog(x *X, ord *big.Int) {
	sc := func(k *big.Int) func(_ pb.VerifExt12, a *pb.E12) *pb.E12 {
		return func(_ pb.VerifExt12, a *pb.E12) *pb.E12 { return lg(emu.Mul(lgOf(x, a, kFull), emu.Const(k), ord), kFull) }
	}
	p2 := new(big.Int).Mul(fp, fp)
	p3 := new(big.Int).Mul(p2, fp)
	easy := new(big.Int).Exp(fp, big.NewInt(6), nil)
	easy.Sub(easy, big.NewInt(1)).Mul(easy, new(big.Int).Add(p2, big.NewInt(1)))
	// the elements of the cyclotomic subgroup are the powers divisible by (p^6-1)(p^2+1)
	cyc := func(l *P) {
		for _, v := range l.M {
			if new(big.Int).Mod(v, easy).Sign() != 0 {
				x.C.Fail = append(x.C.Fail, "a cyclotomic operation is applied outside the cyclotomic subgroup")
				return
			}
		}
	}
	pb.VerifHookext12Mul = func(_ pb.VerifExt12, a, b *pb.E12) *pb.E12 {
		return lg(emu.Add(lgOf(x, a, kFull), lgOf(x, b, kFull), ord), kFull)
	}
	pb.VerifHookext12Square = sc(big.NewInt(2))
	pb.VerifHookext12CyclotomicSquare = func(_ pb.VerifExt12, a *pb.E12) *pb.E12 {
		l := lgOf(x, a, kFull)
		cyc(l)
		return lg(emu.Mul(l, emu.I(2), ord), kFull)
	}
	pb.VerifHookext12CyclotomicSquareCompressed = func(_ *pb.VerifExt12, _, a *pb.E12) *pb.E12 {
		l := a.C0.B0.A0.P() // either kind
		cyc(l)
		return lg(emu.Mul(l, emu.I(2), ord), kComp)
	}
	pb.VerifHookext12DecompressKarabina = func(_ pb.VerifExt12, a pb.E12) *pb.E12 {
		l := a.C0.B0.A0.P()
		cyc(l)
		return lg(l, kFull)
	}
	pb.VerifHookext12Inverse = sc(big.NewInt(-1))
	pb.VerifHookext12Conjugate = sc(new(big.Int).Exp(fp, big.NewInt(6), nil))
	pb.VerifHookext12Frobenius = sc(fp)
	pb.VerifHookext12FrobeniusSquare = sc(p2)
	pb.VerifHookext12FrobeniusCube = sc(p3)
}

var x0, _ = new(big.Int).SetString("d201000000010000", 16) // |x|, the curve parameter is negative

func gtVals(g *bls.GT) (in []*P) {
	for _, v := range gtCoeffs(g) {
		in = append(in, emu.Const(v))
	}
	return
}
func sameGT(e *pb.E12, g *bls.GT) (bool, string) {
	a, b := flat12(fr12(e)), flat12(fr12(in12(gtVals(g), 0)))
	for i := range a {
		if len(emu.Sub(a[i], b[i], fp).M) > 0 {
			u, _ := a[i].IsConst()
			v, _ := b[i].IsConst()
			return false, fmt.Sprintf("coefficient %d is %v, expected %v", i, u, v)
		}
	}
	return true, ""
}

func concX() *X {
	c := emu.NewCtx()
	c.Conc = true
	return &X{C: c, API: &emu.API{C: c}, Mod: fp}
}

func (x *X) okConc() (bool, string) {
	if len(x.C.Fail) > 0 {
		return false, "the circuit has no witness: " + x.C.Fail[0]
	}
	for _, a := range x.C.Asserts {
		if len(emu.Sub(a.L, a.R, a.Mod).M) > 0 {
			return false, "an assertion of the circuit fails"
		}
	}
	return true, ""
}

// g1g2 returns a random pair of subgroup points.
func g1g2(r *rand.Rand) (bls.G1Affine, bls.G2Affine) {
	_, _, g1, g2 := bls.Generators()
	var a bls.G1Affine
	var b bls.G2Affine
	a.ScalarMultiplication(&g1, new(big.Int).Rand(r, fp))
	b.ScalarMultiplication(&g2, new(big.Int).Rand(r, fp))
	return a, b
}

func fe(e *gfpT) *P { return emu.Const(e.BigInt(new(big.Int))) }
func mkG2(b *bls.G2Affine) *pb.G2Affine {
	return &pb.G2Affine{X: mkE2(r2{fe(&b.X.A0), fe(&b.X.A1)}), Y: mkE2(r2{fe(&b.Y.A0), fe(&b.Y.A1)})}
}
func mkG1(a *bls.G1Affine) *pb.G1Affine { return &pb.G1Affine{X: el{V: fe(&a.X)}, Y: el{V: fe(&a.Y)}} }

func concPair(n int) func(r *rand.Rand) (bool, map[string]any, string) {
	return func(r *rand.Rand) (bool, map[string]any, string) {
		x := concX()
		var ps []*pb.G1Affine
		var qs []*pb.G2Affine
		var bp []bls.G1Affine
		var bq []bls.G2Affine
		d := map[string]any{}
		for i := 0; i < n; i++ {
			a, b := g1g2(r)
			bp, bq = append(bp, a), append(bq, b)
			ps, qs = append(ps, mkG1(&a)), append(qs, mkG2(&b))
			d[fmt.Sprint("P", i)], d[fmt.Sprint("Q", i)] = a.String(), b.String()
		}
		want, err := bls.Pair(bp, bq)
		if err != nil {
			panic(err)
		}
		got, err := x.pairing().Pair(ps, qs)
		if err != nil {
			return false, d, "Pair returns " + err.Error()
		}
		if ok, m := x.okConc(); !ok {
			return false, d, m
		}
		ok, m := sameGT(got, &want)
		return ok, d, "Pair: " + m
	}
}

func checkP02(c *hk.Check) {
	c.Bound("steps and sparse products: all coefficients; MillerLoop: 1 to 3 pairs of points, every step of the 64-bit loop; ExptHalf, Expt, FinalExponentiation: every element (as exponents of an arbitrary element)")
	c.Stub("MillerLoop runs on abstract points and lines (DoubleStep, AddStep, MulBy014, Mul014By014, Mul, Square, Conjugate replaced by their contracts: the first four are decided here, the others by P01); FinalExponentiation and Expt run on exponents of a generic element (contracts decided by P01)")
	c.Assume("gnark's std/math/emulated computes exact arithmetic modulo p; multiplicativity of the pairing's line functions (textbook Miller loop)")
	c.OutOf("points at infinity, more than 3 pairs, intermediate points of small order (P = +-Q inside AddStep)", "decompression with g3 = 0")
	pc := func(name string, n int, run, ref, gens func(x *X, in []*P) []*P, gen func(r *rand.Rand) []*big.Int) {
		polyCase(c, PC{Name: name, In: n, Mod: fp, Run: run, Ref: ref, Gens: gens, Gen: gen})
	}
	w := func(in []*P) (a [6]r2) { // sparse: c0 + c1 w^2 + c4 w^3
		for i := range a {
			a[i] = zero2()
		}
		a[0], a[2], a[3] = in2(in, 0), in2(in, 1), in2(in, 2)
		return
	}
	pc("MulBy014", 18, func(x *X, in []*P) []*P {
		return flat12(fr12(x.pairing().MulBy014(in12(in[6:], 0), pE2(in2(in, 0)), pE2(in2(in, 1)), pE2(in2(in, 2)))))
	}, func(x *X, in []*P) []*P { return flat12(x.m12(fr12(in12(in[6:], 0)), r12(w(in)))) }, nil, nil)
	pc("Mul014By014", 12, func(x *X, in []*P) []*P {
		e := func(i int) *pb.E2 { return pE2(in2(in, i)) }
		return flat12(fr12(x.e12().Mul014By014(e(0), e(1), e(2), e(3), e(4), e(5))))
	}, func(x *X, in []*P) []*P { return flat12(x.m12(r12(w(in)), r12(w(in[6:])))) }, nil, nil)
	pc("NegAffine", 4, func(x *X, in []*P) []*P {
		r := x.pairing().NegAffine(&pb.G2Affine{X: mkE2(in2(in, 0)), Y: mkE2(in2(in, 1))})
		return flat2(frE2(&r.X), frE2(&r.Y))
	}, func(x *X, in []*P) []*P { return flat2(in2(in, 0), x.n2(in2(in, 1))) }, nil, nil)
	proj := func(in []*P) *pb.G2Projective {
		return &pb.G2Projective{X: mkE2(in2(in, 0)), Y: mkE2(in2(in, 1)), Z: mkE2(in2(in, 2))}
	}
	// same projective point and proportional lines: cross products vanish
	cross := func(x *X, a, b [3]r2) []*P {
		return flat2(x.s2(x.m2(a[0], b[2]), x.m2(b[0], a[2])), x.s2(x.m2(a[1], b[2]), x.m2(b[1], a[2])), x.s2(x.m2(a[0], b[1]), x.m2(b[0], a[1])))
	}
	zeros := func(n int) func(x *X, in []*P) []*P {
		return func(x *X, in []*P) (o []*P) {
			for i := 0; i < n; i++ {
				o = append(o, emu.I(0))
			}
			return
		}
	}
	bt := c2(4, 4)
	m := func(x *X, as ...r2) r2 {
		r := as[0]
		for _, a := range as[1:] {
			r = x.m2(r, a)
		}
		return r
	}
	// curve equation Y^2 Z = X^3 + b Z^3 times every monomial of the given degree
	curve := func(deg int) func(x *X, in []*P) []*P {
		return func(x *X, in []*P) (g []*P) {
			X, Y, Z := in2(in, 0), in2(in, 1), in2(in, 2)
			cu := x.s2(m(x, Y, Y, Z), x.a2(m(x, X, X, X), m(x, bt, Z, Z, Z)))
			pw := func(a r2, n int) r2 {
				r := c2(1, 0)
				for ; n > 0; n-- {
					r = x.m2(r, a)
				}
				return r
			}
			for i := 0; i <= deg; i++ {
				for j := 0; i+j <= deg; j++ {
					t := m(x, cu, pw(X, i), pw(Y, j), pw(Z, deg-i-j))
					g = append(g, flat2(t, x.m2(t, c2(0, 1)))...)
				}
			}
			return
		}
	}
	onCurve := func(r *rand.Rand) []*big.Int {
		_, b := g1g2(r)
		x := concX()
		z := r2{emu.Const(new(big.Int).Rand(r, fp)), emu.Const(new(big.Int).Rand(r, fp))}
		q := mkG2(&b)
		X, Y := x.m2(frE2(&q.X), z), x.m2(frE2(&q.Y), z)
		var o []*big.Int
		for _, p := range flat2(X, Y, z) {
			v, _ := p.IsConst()
			o = append(o, v)
		}
		return o
	}
	nz := func(x *X, a r2) *P { // a is the zero polynomial
		if len(a[0].M)+len(a[1].M) == 0 && !x.C.Conc {
			return emu.I(1)
		}
		return emu.I(0)
	}
	pc("DoubleStep point", 6, func(x *X, in []*P) []*P {
		p, _ := x.pairing().DoubleStep(proj(in))
		X, Y, Z := in2(in, 0), in2(in, 1), in2(in, 2)
		// affine lambda = 3x^2/2y, x' = lambda^2-2x, y' = lambda(x-x')-y, over the denominator 8 Y^3 Z^3
		n, d := x.k2(m(x, X, X), 3), x.k2(m(x, Y, Z), 2)
		xn := x.s2(m(x, n, n, Z), x.k2(m(x, X, d, d), 2)) // x' = xn/(d^2 Z)
		yn := x.s2(m(x, n, x.s2(m(x, X, d, d), xn)), m(x, Y, d, d, d))
		got := [3]r2{frE2(&p.X), frE2(&p.Y), frE2(&p.Z)}
		return append(cross(x, got, [3]r2{m(x, xn, d), yn, m(x, d, d, d, Z)}), nz(x, got[2]))
	}, zeros(7), curve(8), onCurve)
	pc("DoubleStep line", 6, func(x *X, in []*P) []*P {
		_, l := x.pairing().DoubleStep(proj(in))
		X, Y, Z := in2(in, 0), in2(in, 1), in2(in, 2)
		// tangent at (X/Z, Y/Z): y - y0 = lambda (x - x0)
		ref := [3]r2{x.s2(x.k2(m(x, Y, Y, Z), 2), x.k2(m(x, X, X, X), 3)), x.k2(m(x, X, X, Z), 3), x.n2(x.k2(m(x, Y, Z, Z), 2))}
		got := lineOf(l)
		return append(cross(x, got, ref), nz(x, got[2]))
	}, zeros(7), curve(2), onCurve)
	addRef := func(x *X, in []*P) (ref, ln [3]r2) {
		X, Y, Z, x2, y2 := in2(in, 0), in2(in, 1), in2(in, 2), in2(in, 3), in2(in, 4)
		n, d := x.s2(Y, m(x, y2, Z)), x.s2(X, m(x, x2, Z)) // lambda = n/d
		xn := x.s2(m(x, n, n, Z), m(x, d, d, x.a2(X, m(x, x2, Z))))
		// y' = lambda (x2 - x') - y2, over d^3 Z
		yn := x.s2(m(x, n, x.s2(m(x, x2, d, d, Z), xn)), m(x, y2, d, d, d, Z))
		return [3]r2{m(x, xn, d), yn, m(x, d, d, d, Z)}, [3]r2{x.s2(m(x, n, x2), m(x, d, y2)), x.n2(n), d}
	}
	add := func(x *X, in []*P) ([3]r2, [3]r2) {
		p, l := x.pairing().AddStep(proj(in), &pb.G2Affine{X: mkE2(in2(in, 3)), Y: mkE2(in2(in, 4))})
		return [3]r2{frE2(&p.X), frE2(&p.Y), frE2(&p.Z)}, lineOf(l)
	}
	pc("AddStep", 10, func(x *X, in []*P) []*P {
		a, b := addRef(x, in)
		p, l := add(x, in)
		return append(append(cross(x, p, a), cross(x, l, b)...), nz(x, p[2]), nz(x, l[2]))
	}, zeros(14), nil, nil)

	for n := 1; n <= 3; n++ {
		n := n
		tagCase(c, fmt.Sprintf("MillerLoop-%d", n), fp, func(x *X) []emu.Eq { return millerTags(x, n) }, concPair(n))
	}
	tagCase(c, "Pair", fp, func(x *X) []emu.Eq {
		var ps []*pb.G1Affine
		var qs []*pb.G2Affine
		for i := 0; i < 2; i++ {
			ps = append(ps, &pb.G1Affine{X: el{V: x.C.Var("px")}, Y: el{V: x.C.Var("py")}})
			qs = append(qs, &pb.G2Affine{X: mkE2(r2{x.C.Var("q0"), x.C.Var("q1")}), Y: mkE2(r2{x.C.Var("q2"), x.C.Var("q3")})})
		}
		f, g := x.C.Var("f"), x.C.Var("g")
		good := true
		pb.VerifHookPairingMillerLoop = func(_ pb.Pairing, a []*pb.G1Affine, b []*pb.G2Affine) (*pb.GTEl, error) {
			good = good && len(a) == 2 && len(b) == 2
			for i := range a {
				good = good && a[i].X.V == ps[i].X.V && a[i].Y.V == ps[i].Y.V && b[i].X.A0.V == qs[i].X.A0.V && b[i].X.A1.V == qs[i].X.A1.V && b[i].Y.A0.V == qs[i].Y.A0.V && b[i].Y.A1.V == qs[i].Y.A1.V
			}
			return lg(f, kFull), nil
		}
		pb.VerifHookPairingFinalExponentiation = func(_ pb.Pairing, e *pb.GTEl) *pb.GTEl {
			good = good && lgOf(x, e, kFull) == f
			return lg(g, kFull)
		}
		r, err := x.pairing().Pair(ps, qs)
		if !good || err != nil {
			x.C.Fail = append(x.C.Fail, "Pair is not the final exponentiation of the Miller loop of its arguments")
		}
		return []emu.Eq{{L: r.C0.B0.A0.P(), R: g}}
	}, concPair(2))
	// exponents
	ord := new(big.Int).Exp(fp, big.NewInt(12), nil)
	ord.Sub(ord, big.NewInt(1))
	p2 := new(big.Int).Mul(fp, fp)
	easy := new(big.Int).Exp(fp, big.NewInt(6), nil)
	easy.Sub(easy, big.NewInt(1)).Mul(easy, new(big.Int).Add(p2, big.NewInt(1)))
	concExp := func(f func(e *pb.VerifExt12, a *pb.E12) *pb.E12, k *big.Int, cyc bool) func(r *rand.Rand) (bool, map[string]any, string) {
		return func(r *rand.Rand) (bool, map[string]any, string) {
			var g, want bls.GT
			setGT(&g, r)
			if cyc {
				g = bls.FinalExponentiation(&g)
			}
			x := concX()
			want.Exp(g, new(big.Int).Mod(k, ord))
			got := f(x.e12(), in12(gtVals(&g), 0))
			d := map[string]any{"element": g.String()}
			if ok, m := x.okConc(); !ok {
				return false, d, m
			}
			ok, msg := sameGT(got, &want)
			return ok, d, msg
		}
	}
	expCase := func(name string, f func(e *pb.VerifExt12, a *pb.E12) *pb.E12, k *big.Int) {
		tagCase(c, name, ord, func(x *X) []emu.Eq {
			hookLog(x, ord)
			e := emu.Mul(x.C.Var("e"), emu.Const(easy), nil)
			return []emu.Eq{{L: lgOf(x, f(x.e12(), lg(e, kFull)), kFull), R: emu.Mul(e, emu.Const(k), ord)}}
		}, concExp(f, k, true))
	}
	half := new(big.Int).Rsh(x0, 1)
	expCase("ExptHalf", func(e *pb.VerifExt12, a *pb.E12) *pb.E12 { return e.ExptHalf(a) }, new(big.Int).Neg(half))
	expCase("Expt", func(e *pb.VerifExt12, a *pb.E12) *pb.E12 { return e.Expt(a) }, new(big.Int).Neg(x0))
	// final exponentiation: 3 (p^12-1)/r
	fin := new(big.Int).Div(ord, pb.BLS12381Fr{}.Modulus())
	fin.Mul(fin, big.NewInt(3))
	finExp := func(e *pb.VerifExt12, a *pb.E12) *pb.E12 {
		return pb.Pairing{}.VerifWith(e).FinalExponentiation(a)
	}
	tagCase(c, "FinalExponentiation", ord, func(x *X) []emu.Eq {
		hookLog(x, ord)
		e := x.C.Var("e")
		return []emu.Eq{{L: lgOf(x, finExp(x.e12(), lg(e, kFull)), kFull), R: emu.Mul(e, emu.Const(fin), ord)}}
	}, func(r *rand.Rand) (bool, map[string]any, string) {
		var g bls.GT
		setGT(&g, r)
		want := bls.FinalExponentiation(&g)
		x := concX()
		got := finExp(x.e12(), in12(gtVals(&g), 0))
		d := map[string]any{"element": g.String()}
		if ok, m := x.okConc(); !ok {
			return false, d, m
		}
		ok, msg := sameGT(got, &want)
		return ok, d, msg
	})
}

func lineOf(l *pb.LineEvaluation) [3]r2 {
	e := pb.VerifLine(l)
	return [3]r2{frE2(&e[0]), frE2(&e[1]), frE2(&e[2])}
}

// millerTags runs MillerLoop on abstract points: the X.A0 coordinate of a projective point holds its multiple, Y.A0 the
// index of the pair; products of lines are kept as logarithms.
func millerTags(x *X, n int) []emu.Eq {
	type line struct {
		k    int
		r    [3]r2
		log  *P
	}
	lines := map[string]*line{}
	logs := map[string]*P{}
	mkLine := func(kind string, k int, mult *big.Int) *pb.LineEvaluation {
		id := fmt.Sprintf("%s/%d/%v", kind, k, mult)
		if logs[id] == nil {
			logs[id] = x.C.Var(id)
		}
		l := &line{k: k, log: logs[id]}
		for j := range l.r {
			l.r[j] = r2{x.C.Var("l"), x.C.Var("l")}
		}
		lines[l.r[0][0].Key()] = l
		return pb.VerifMkLine(mkE2(l.r[0]), mkE2(l.r[1]), mkE2(l.r[2]))
	}
	fail := func(f string, a ...any) { x.C.Fail = append(x.C.Fail, fmt.Sprintf(f, a...)) }
	var ps []*pb.G1Affine
	var qs []*pb.G2Affine
	for i := 0; i < n; i++ {
		ps = append(ps, &pb.G1Affine{X: el{V: x.C.Var("px")}, Y: el{V: x.C.Var("py")}})
		// affine points carry the multiple 1 and the index, projective conversion sets Z = 1
		qs = append(qs, &pb.G2Affine{X: mkE2(c2(1, 0)), Y: mkE2(c2(int64(i), 0))})
	}
	get := func(X, Y *pb.E2) (int, *big.Int) {
		m, ok1 := X.A0.P().IsConst()
		k, ok2 := Y.A0.P().IsConst()
		if !ok1 || !ok2 || k.Int64() < 0 || k.Int64() >= int64(n) {
			fail("a point of the loop is not a multiple of an input")
			return 0, new(big.Int)
		}
		return int(k.Int64()), m
	}
	pt := func(k int, m *big.Int) *pb.G2Projective {
		return &pb.G2Projective{X: mkE2(r2{emu.Const(m), emu.I(0)}), Y: mkE2(c2(int64(k), 0)), Z: mkE2(c2(1, 0))}
	}
	zOne := func(p *pb.G2Projective) {
		if v, ok := p.Z.A0.P().IsConst(); !ok || v.Int64() != 1 || len(p.Z.A1.P().M) > 0 {
			fail("the loop does not start from the affine point")
		}
	}
	pb.VerifHookPairingDoubleStep = func(_ pb.Pairing, p *pb.G2Projective) (*pb.G2Projective, *pb.LineEvaluation) {
		zOne(p)
		k, m := get(&p.X, &p.Y)
		return pt(k, new(big.Int).Lsh(m, 1)), mkLine("dbl", k, m)
	}
	pb.VerifHookPairingAddStep = func(_ pb.Pairing, p *pb.G2Projective, a *pb.G2Affine) (*pb.G2Projective, *pb.LineEvaluation) {
		zOne(p)
		k, m := get(&p.X, &p.Y)
		k2, m2 := get(&a.X, &a.Y)
		if k != k2 {
			fail("points of different pairs are added")
		}
		if m2.Cmp(big.NewInt(1)) != 0 {
			fail("the added point is not the input")
		}
		return pt(k, new(big.Int).Add(m, m2)), mkLine("add", k, m)
	}
	var pairs []emu.Eq
	// use of a line: evaluated at the pair's G1 point
	use := func(a, b, c *pb.E2) *P {
		l := lines[a.A0.P().Key()]
		if l == nil {
			fail("a product uses something that is not a line")
			return emu.I(0)
		}
		px, py := ps[l.k].X.P(), ps[l.k].Y.P()
		got := flat2(frE2(a), frE2(b), frE2(c))
		want := []*P{l.r[0][0], l.r[0][1], x.mul(l.r[1][0], px), x.mul(l.r[1][1], px), x.mul(l.r[2][0], py), x.mul(l.r[2][1], py)}
		for i := range got {
			pairs = append(pairs, emu.Eq{L: got[i], R: want[i]})
		}
		return l.log
	}
	pb.VerifHookPairingMulBy014 = func(_ *pb.Pairing, z *pb.E12, a, b, c *pb.E2) *pb.E12 {
		return lg(emu.Add(lgOf(x, z, kFull), use(a, b, c), nil), kFull)
	}
	pb.VerifHookext12Mul014By014 = func(_ *pb.VerifExt12, a, b, c, d, e, f *pb.E2) *pb.E12 {
		return lg(emu.Add(use(a, b, c), use(d, e, f), nil), kFull)
	}
	orOne := func(e *pb.E12) *pb.E12 { // the literal one has logarithm 0
		a := flat12(fr12(e))
		for i, p := range a {
			v, ok := p.IsConst()
			if !ok || (i == 0) != (v.Int64() == 1) || v.Int64() > 1 {
				return e
			}
		}
		return lg(emu.I(0), kFull)
	}
	pb.VerifHookext12Mul = func(_ pb.VerifExt12, a, b *pb.E12) *pb.E12 {
		return lg(emu.Add(lgOf(x, orOne(a), kFull), lgOf(x, orOne(b), kFull), nil), kFull)
	}
	pb.VerifHookext12Square = func(_ pb.VerifExt12, a *pb.E12) *pb.E12 {
		return lg(emu.Mul(lgOf(x, orOne(a), kFull), emu.I(2), nil), kFull)
	}
	pb.VerifHookext12Conjugate = func(_ pb.VerifExt12, a *pb.E12) *pb.E12 {
		return lg(emu.Sub(emu.I(0), lgOf(x, orOne(a), kFull), nil), kFull)
	}
	res, err := x.pairing().MillerLoop(ps, qs)
	if err != nil {
		fail("MillerLoop returns %v", err)
		return nil
	}
	// textbook loop over the bits of |x| below the leading one, then the conjugate for the negative sign
	want := emu.I(0)
	T := big.NewInt(1)
	ln := func(kind string, k int) *P {
		l := logs[fmt.Sprintf("%s/%d/%v", kind, k, T)]
		if l == nil {
			return x.C.Var("missing")
		}
		return l
	}
	for i := x0.BitLen() - 2; i >= 0; i-- {
		want = emu.Mul(want, emu.I(2), nil)
		for k := 0; k < n; k++ {
			want = emu.Add(want, ln("dbl", k), nil)
		}
		T = new(big.Int).Lsh(T, 1)
		if x0.Bit(i) == 1 {
			for k := 0; k < n; k++ {
				want = emu.Add(want, ln("add", k), nil)
			}
			T = new(big.Int).Add(T, big.NewInt(1))
		}
	}
	return append(pairs, emu.Eq{L: lgOf(x, res, kFull), R: emu.Sub(emu.I(0), want, nil)})
}
