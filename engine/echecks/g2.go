//go:build emuov

package echecks

import (
	"fmt"
	"math/big"
	"math/rand"

	bls "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark/frontend"

	pb "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	"verif/engine/emu"
	"verif/engine/hk"
)

type V = frontend.Variable
type fapi = frontend.API
type jac = pb.G2Jacobian
type aff = pb.G2Affine

func init() { Registry["P03"] = checkP03 }

func clearHooksG2() {
	pb.VerifHookE2NotZero, pb.VerifHookE2NotEqual, pb.VerifHookE2NotOne, pb.VerifHookE2Exp = nil, nil, nil, nil
	pb.VerifHookG2JacobianAddAssign, pb.VerifHookG2JacobianDouble, pb.VerifHookG2JacobianNeg, pb.VerifHookG2JacobianPsi = nil, nil, nil, nil
	pb.VerifHookG2JacobianSubAssign, pb.VerifHookG2JacobianPhi, pb.VerifHookG2JacobianConstScalarMul = nil, nil, nil
	pb.VerifHookG2AddAssign, pb.VerifHookG2Double, pb.VerifHookG2Neg, pb.VerifHookG2Psi, pb.VerifHookG2SubAssign, pb.VerifHookG2Phi = nil, nil, nil, nil, nil, nil
	pb.VerifHookG2AffineNotInfinity, pb.VerifHookGetG2JacFromG2Affine, pb.VerifHookGetG2AffineFromG2Jac = nil, nil, nil
	pb.VerifHookClearCofactor, pb.VerifHookG2ClearCofactor, pb.VerifHookDoubleAndAdd = nil, nil, nil
	pb.VerifHookMapElementToCurve2, pb.VerifHookG2Isogeny, pb.VerifHookHashToField = nil, nil, nil
	pb.VerifHookg2Sgn0, pb.VerifHookg2SqrtRatio, pb.VerifHookExpandMsgXmd, pb.VerifHookGetUint64From8Bytes = nil, nil, nil, nil
	pb.VerifHookext2Mul, pb.VerifHookext2Square, pb.VerifHookext2Select = nil, nil, nil
}

func mkA(in []*P) aff { return aff{X: mkE2(in2(in, 0)), Y: mkE2(in2(in, 1))} }
func mkJ(in []*P) jac { return jac{X: mkE2(in2(in, 0)), Y: mkE2(in2(in, 1)), Z: mkE2(in2(in, 2))} }
func frA(a aff) [2]r2 { return [2]r2{frE2(&a.X), frE2(&a.Y)} }
func frJ(a jac) [3]r2 { return [3]r2{frE2(&a.X), frE2(&a.Y), frE2(&a.Z)} }

func zeroP(ps ...*P) bool {
	for _, p := range ps {
		if len(p.M) > 0 {
			return false
		}
	}
	return true
}
func (x *X) eq2(a, b r2) bool { d := x.s2(a, b); return zeroP(d[0], d[1]) }
func (x *X) fail(f string, a ...any) { x.C.Fail = append(x.C.Fail, fmt.Sprintf(f, a...)) }

// quot lets every division of the code be one of the expected quotients (as a fraction); each is a fresh variable l with
// l*d = n.
type quot struct {
	l    r2
	n, d r2
	used bool
}

func (x *X) hookDiv(cands ...func() *quot) []*quot {
	var qs []*quot
	pb.VerifHookext2Div = func(_ pb.VerifExt2, a, b *pb.E2) *pb.E2 {
		n, d := frE2(a), frE2(b)
		for _, q := range qs {
			if zeroP(flat2(x.s2(x.m2(n, q.d), x.m2(d, q.n)))...) && !zeroP(d[0], d[1]) {
				q.used = true
				return pE2(q.l)
			}
		}
		x.fail("a division is not one of the slopes of the group law")
		return pE2(zero2())
	}
	for _, c := range cands {
		qs = append(qs, c())
	}
	return qs
}
func (x *X) slope(n, d r2) *quot {
	l := r2{x.C.Var("l0"), x.C.Var("l1")}
	p := x.s2(x.m2(l, d), n)
	x.C.Asserts = append(x.C.Asserts, emu.Eq{L: p[0], R: emu.I(0), Mod: x.Mod}, emu.Eq{L: p[1], R: emu.I(0), Mod: x.Mod})
	return &quot{l: l, n: n, d: d}
}

// third is the third point of the line with slope l through (x1,y1) and x2, negated: the group sum.
func (x *X) third(l, x1, y1, x2 r2) (r2, r2) {
	x3 := x.s2(x.s2(x.m2(l, l), x1), x2)
	return x3, x.s2(x.m2(l, x.s2(x1, x3)), y1)
}

func vars2(x *X, n int) (o []r2) {
	for i := 0; i < n; i++ {
		o = append(o, r2{x.C.Var("v"), x.C.Var("v")})
	}
	return
}

// eqs pairs got with want modulo the linear span of the assertions.
func (x *X) eqs(got, want []r2) (out []emu.Eq) {
	b := newBasis(x.asserts(), x.Mod)
	g, w := flat2(got...), flat2(want...)
	for i := range g {
		out = append(out, emu.Eq{L: g[i], R: x.add(w[i], b.combo(x.sub(g[i], w[i])))})
	}
	return
}

// ---- concrete replay ----
func rndG2(r *rand.Rand) bls.G2Affine { _, b := g1g2(r); return b }

func (x *X) sameAff(a aff, w *bls.G2Affine) (bool, string) {
	g := mkG2(w)
	for i, p := range frA(a) {
		if !x.eq2(p, frA(*g)[i]) {
			return false, fmt.Sprintf("coordinate %d differs from the group law's", i)
		}
	}
	return x.okConc()
}
func (x *X) sameJac(a jac, w *bls.G2Affine) (bool, string) {
	j := frJ(a)
	zz := x.m2(j[2], j[2])
	if w.IsInfinity() {
		if !zeroP(flat2(j[2])...) {
			return false, "the result is not infinity"
		}
		return x.okConc()
	}
	if zeroP(flat2(j[2])...) {
		return false, "the result is infinity"
	}
	g := frA(*mkG2(w))
	if !x.eq2(j[0], x.m2(g[0], zz)) || !x.eq2(j[1], x.m2(g[1], x.m2(zz, j[2]))) {
		return false, "the result differs from the group law's"
	}
	return x.okConc()
}

// jacOf gives a Jacobian representative with a random Z.
func (x *X) jacOf(p *bls.G2Affine, r *rand.Rand) jac {
	z := r2{emu.Const(new(big.Int).Rand(r, fp)), emu.Const(new(big.Int).Rand(r, fp))}
	if p.IsInfinity() {
		return jac{X: mkE2(z), Y: mkE2(x.m2(z, z)), Z: mkE2(zero2())}
	}
	zz := x.m2(z, z)
	g := frA(*mkG2(p))
	return jac{X: mkE2(x.m2(g[0], zz)), Y: mkE2(x.m2(g[1], x.m2(zz, z))), Z: mkE2(z)}
}

// concrete zero tests: in the emulated-field build the selectors work on constants.
func (x *X) hookZeroConc() {
	nz := func(a r2) V {
		if zeroP(flat2(x.s2(a, zero2()))...) {
			return 0
		}
		return 1
	}
	pb.VerifHookE2NotZero = func(_ fapi, a pb.E2) V { return nz(frE2(&a)) }
	pb.VerifHookE2NotEqual = func(_ fapi, a, b pb.E2) V { return nz(x.s2(frE2(&a), frE2(&b))) }
	pb.VerifHookE2NotOne = func(_ fapi, a pb.E2) V { return nz(x.s2(frE2(&a), c2(1, 0))) }
}

func checkP03(c *hk.Check) {
	c.Bound("all coordinates in Fp2 (on the curve where the formula needs it); fixed scalar multiplication and cofactor clearing: every step, for a generic point")
	c.Stub("fixed multiplication and cofactor clearing run on abstract points (integer combinations of Q, psi(Q), phi(Q)); the group operations they call are decided separately here", "E2NotZero/E2NotEqual are replaced by their truth value (their own correctness belongs to P04)")
	c.Assume("gnark's std/math/emulated computes exact arithmetic modulo p", "the textbook chord-and-tangent formulas are the group law; psi^2 = -phi on the twist (checked on the constants)")
	c.OutOf("inputs on which an affine formula is undefined (equal x coordinates, y = 0 in doubling): the circuit has no witness", "points of small order met inside fixed scalar multiplication with the affine formulas")
	xs := func(run func(x *X) []emu.Eq) func(x *X) []emu.Eq { return run }
	aff2 := func(f func(x *X, p, q aff) *aff, ref func(p, q *bls.G2Affine) bls.G2Affine) func(r *rand.Rand) (bool, map[string]any, string) {
		return func(r *rand.Rand) (bool, map[string]any, string) {
			x := concX()
			p, q := rndG2(r), rndG2(r)
			w := ref(&p, &q)
			ok, m := x.sameAff(*f(x, *mkG2(&p), *mkG2(&q)), &w)
			return ok, map[string]any{"P": p.String(), "Q": q.String()}, m
		}
	}
	add := func(p, q *bls.G2Affine) (r bls.G2Affine) { r.Add(p, q); return }
	sub := func(p, q *bls.G2Affine) (r bls.G2Affine) { r.Sub(p, q); return }
	dbl := func(p, _ *bls.G2Affine) (r bls.G2Affine) { r.Double(p); return }
	neg := func(p, _ *bls.G2Affine) (r bls.G2Affine) { r.Neg(p); return }
	affAdd := func(x *X, f func(p, q aff) *aff, sgn int64) []emu.Eq {
		v := vars2(x, 4)
		y2 := x.k2(v[3], sgn)
		qs := x.hookDiv(func() *quot { return x.slope(x.s2(y2, v[1]), x.s2(v[2], v[0])) })
		g := frA(*f(aff{X: mkE2(v[0]), Y: mkE2(v[1])}, aff{X: mkE2(v[2]), Y: mkE2(v[3])}))
		x3, y3 := x.third(qs[0].l, v[0], v[1], v[2])
		return x.eqs(g[:], []r2{x3, y3})
	}
	fAdd := func(x *X, p, q aff) *aff { return pb.G2AddAssign(x.API, p, q) }
	fSub := func(x *X, p, q aff) *aff { return pb.G2SubAssign(x.API, p, q) }
	fDbl := func(x *X, p, _ aff) *aff { return pb.G2Double(x.API, p) }
	fNeg := func(x *X, p, _ aff) *aff { return pb.G2Neg(x.API, p) }
	fDaA := func(x *X, p, q aff) *aff { return pb.DoubleAndAdd(x.API, &p, &q) }
	tagCase(c, "G2AddAssign", fp, xs(func(x *X) []emu.Eq { return affAdd(x, func(p, q aff) *aff { return fAdd(x, p, q) }, 1) }), aff2(fAdd, add))
	tagCase(c, "G2SubAssign", fp, xs(func(x *X) []emu.Eq { return affAdd(x, func(p, q aff) *aff { return fSub(x, p, q) }, -1) }), aff2(fSub, sub))
	tagCase(c, "G2Double", fp, func(x *X) []emu.Eq {
		v := vars2(x, 2)
		qs := x.hookDiv(func() *quot { return x.slope(x.k2(x.m2(v[0], v[0]), 3), x.k2(v[1], 2)) })
		g := frA(*fDbl(x, aff{X: mkE2(v[0]), Y: mkE2(v[1])}, aff{}))
		x3, y3 := x.third(qs[0].l, v[0], v[1], v[0])
		return x.eqs(g[:], []r2{x3, y3})
	}, aff2(fDbl, dbl))
	tagCase(c, "G2Neg", fp, func(x *X) []emu.Eq {
		v := vars2(x, 2)
		g := frA(*fNeg(x, aff{X: mkE2(v[0]), Y: mkE2(v[1])}, aff{}))
		return x.eqs(g[:], []r2{v[0], x.n2(v[1])})
	}, aff2(fNeg, neg))
	tagCase(c, "DoubleAndAdd", fp, func(x *X) []emu.Eq {
		v := vars2(x, 4)
		var l1, l2 *quot
		var x3 r2
		x.hookDiv(func() *quot { l1 = x.slope(x.s2(v[3], v[1]), x.s2(v[2], v[0])); return l1 },
			func() *quot {
				x3, _ = x.third(l1.l, v[0], v[1], v[2])
				l2 = x.slope(x.k2(v[1], 2), x.s2(x3, v[0]))
				return l2
			})
		g := frA(*fDaA(x, aff{X: mkE2(v[0]), Y: mkE2(v[1])}, aff{X: mkE2(v[2]), Y: mkE2(v[3])}))
		// slope between P1 and P3 = P1+P2: y3 = l1(x1-x3)-y1, (y3-y1)/(x3-x1) = -l1 - 2y1/(x3-x1)
		l := x.n2(x.a2(l1.l, l2.l))
		x4, y4 := x.third(l, v[0], v[1], x3)
		return x.eqs(g[:], []r2{x4, y4})
	}, aff2(fDaA, func(p, q *bls.G2Affine) (r bls.G2Affine) { r.Double(p); r.Add(&r, q); return }))

	// Jacobian
	jcross := func(x *X, j [3]r2, xn, xd, yn, yd r2) []emu.Eq { // X/Z^2 = xn/xd, Y/Z^3 = yn/yd
		zz := x.m2(j[2], j[2])
		o := x.eqs([]r2{x.m2(j[0], xd), x.m2(j[1], yd)}, []r2{x.m2(zz, xn), x.m2(x.m2(zz, j[2]), yn)})
		if zeroP(flat2(j[2])...) {
			x.fail("the result is always infinity")
		}
		return o
	}
	m := func(x *X, as ...r2) r2 {
		r := as[0]
		for _, a := range as[1:] {
			r = x.m2(r, a)
		}
		return r
	}
	jac2 := func(f func(x *X, p, q jac) jac, ref func(p, q *bls.G2Affine) bls.G2Affine, pairs bool) func(r *rand.Rand) (bool, map[string]any, string) {
		return func(r *rand.Rand) (bool, map[string]any, string) {
			p, q := rndG2(r), rndG2(r)
			var o bls.G2Affine
			ts := [][2]bls.G2Affine{{p, q}}
			if pairs {
				np := neg(&p, nil)
				ts = append(ts, [2]bls.G2Affine{p, p}, [2]bls.G2Affine{p, np}, [2]bls.G2Affine{p, o}, [2]bls.G2Affine{o, q}, [2]bls.G2Affine{o, o})
			}
			for _, t := range ts {
				x := concX()
				x.hookZeroConc()
				w := ref(&t[0], &t[1])
				ok, msg := x.sameJac(f(x, x.jacOf(&t[0], r), x.jacOf(&t[1], r)), &w)
				clearHooks()
				if !ok {
					return false, map[string]any{"P": t[0].String(), "Q": t[1].String()}, msg
				}
			}
			return true, nil, ""
		}
	}
	jDbl := func(x *X, p, _ jac) jac { return pb.G2JacobianDouble(x.API, p) }
	jNeg := func(x *X, p, _ jac) jac { return pb.G2JacobianNeg(x.API, p) }
	jAdd := func(x *X, p, q jac) jac { return pb.G2JacobianAddAssign(x.API, p, q) }
	jSub := func(x *X, p, q jac) jac { return pb.G2JacobianSubAssign(x.API, p, q) }
	mkj := func(v []r2) jac { return jac{X: mkE2(v[0]), Y: mkE2(v[1]), Z: mkE2(v[2])} }
	tagCase(c, "G2JacobianDouble", fp, func(x *X) []emu.Eq {
		v := vars2(x, 3)
		X, Y, Z := v[0], v[1], v[2]
		// lambda = 3X^2/(2YZ), x' = xn/d^2 Z^2.. over d = 2YZ: x' = (n^2 - 2X (2Y)^2)/(2YZ)^2
		n, d := x.k2(m(x, X, X), 3), x.k2(Y, 2)
		xn := x.s2(m(x, n, n), x.k2(m(x, X, d, d), 2))
		yn := x.s2(m(x, n, x.s2(m(x, X, d, d), xn)), m(x, Y, d, d, d))
		dz := m(x, d, Z)
		return jcross(x, frJ(jDbl(x, mkj(v), jac{})), xn, m(x, dz, dz), yn, m(x, dz, dz, dz))
	}, jac2(jDbl, dbl, false))
	tagCase(c, "G2JacobianNeg", fp, func(x *X) []emu.Eq {
		v := vars2(x, 3)
		g := frJ(jNeg(x, mkj(v), jac{}))
		return x.eqs(g[:], []r2{v[0], x.n2(v[1]), v[2]})
	}, jac2(jNeg, neg, false))
	// addition: the 4 selector situations and the generic one
	type sit struct {
		name       string
		pz, az     int64 // 1: not infinity
		u, s       int64 // 1: different x, different y
	}
	sits := []sit{{"generic", 1, 1, 1, 1}, {"samey", 1, 1, 1, 0}, {"opposite", 1, 1, 0, 1}, {"equal", 1, 1, 0, 0}}
	for i := int64(0); i < 4; i++ {
		sits = append(sits, sit{fmt.Sprintf("p-inf-%d", i), 0, 1, i & 1, i >> 1}, sit{fmt.Sprintf("a-inf-%d", i), 1, 0, i & 1, i >> 1}, sit{fmt.Sprintf("both-inf-%d", i), 0, 0, i & 1, i >> 1})
	}
	for _, op := range []struct {
		name string
		f    func(x *X, p, q jac) jac
		sgn  int64
		ref  func(p, q *bls.G2Affine) bls.G2Affine
	}{{"G2JacobianAddAssign", jAdd, 1, add}, {"G2JacobianSubAssign", jSub, -1, sub}} {
		op := op
		for _, s := range sits {
			s := s
			tagCase(c, op.name+"-"+s.name, fp, func(x *X) []emu.Eq {
				v := vars2(x, 6)
				p, a := v[:3], []r2{v[3], x.k2(v[4], op.sgn), v[5]}
				u := x.s2(m(x, p[0], a[2], a[2]), m(x, a[0], p[2], p[2]))
				t := x.s2(m(x, p[1], a[2], a[2], a[2]), m(x, a[1], p[2], p[2], p[2]))
				truth := func(d r2) V {
					nd := x.n2(d)
					switch {
					case x.eq2(d, p[2]) || x.eq2(nd, p[2]):
						return emu.I(s.pz)
					case x.eq2(d, a[2]) || x.eq2(nd, a[2]):
						return emu.I(s.az)
					case x.eq2(d, u) || x.eq2(nd, u):
						return emu.I(s.u)
					case x.eq2(d, t) || x.eq2(nd, t):
						return emu.I(s.s)
					}
					x.fail("a zero test on an unexpected value")
					return emu.I(0)
				}
				pb.VerifHookE2NotZero = func(_ fapi, e pb.E2) V { return truth(frE2(&e)) }
				pb.VerifHookE2NotEqual = func(_ fapi, e, f pb.E2) V { return truth(x.s2(frE2(&e), frE2(&f))) }
				g := frJ(op.f(x, mkj(p), jac{X: mkE2(v[3]), Y: mkE2(v[4]), Z: mkE2(v[5])}))
				switch {
				case s.pz == 0:
					return x.eqs(g[:], a)
				case s.az == 0:
					return x.eqs(g[:], p)
				case s.u == 0 && s.s == 0:
					w := frJ(pb.G2JacobianDouble(x.API, mkj(p)))
					return x.eqs(g[:], w[:])
				case s.u == 0: // opposite points: Z has the factor u
					b := newBasis(nil, x.Mod)
					_ = b
					zz := m(x, g[2], c2(1, 0))
					// u = 0 makes Z vanish: substitute X_p = X_a Zp^2/Za^2, i.e. Z * 1 is a multiple of u
					k := x.k2(m(x, u, p[2], a[2]), 2)
					return x.eqs([]r2{x.m2(zz, zz)}, []r2{x.m2(k, k)})
				}
				// lambda = t/(u Zp Za); x' = lambda^2 - xp - xa
				za2, zp2 := m(x, a[2], a[2]), m(x, p[2], p[2])
				d := m(x, u, p[2], a[2])
				xn := x.s2(m(x, t, t), m(x, u, u, x.a2(m(x, p[0], za2), m(x, a[0], zp2))))
				// y' = lambda (xp - x') - yp over d^3
				yn := x.s2(m(x, t, x.s2(m(x, p[0], za2, u, u), xn)), m(x, p[1], za2, a[2], u, u, u))
				return jcross(x, g, xn, m(x, d, d), yn, m(x, d, d, d))
			}, jac2(op.f, op.ref, true))
		}
	}
	// conversions
	tagCase(c, "GetG2AffineFromG2Jac", fp, func(x *X) []emu.Eq {
		v := vars2(x, 3)
		pb.VerifHookE2NotZero = func(_ fapi, e pb.E2) V {
			if !x.eq2(frE2(&e), v[2]) {
				x.fail("a zero test on an unexpected value")
			}
			return emu.I(1)
		}
		var i r2
		n := 0
		pb.VerifHookext2Inverse = func(_ pb.VerifExt2, a *pb.E2) *pb.E2 {
			if !x.eq2(frE2(a), v[2]) {
				x.fail("an inverse of something else than Z")
			}
			if n == 0 {
				i = r2{x.C.Var("i"), x.C.Var("i")}
			}
			n++
			return pE2(i)
		}
		g := frA(*pb.GetG2AffineFromG2Jac(x.API, &jac{X: mkE2(v[0]), Y: mkE2(v[1]), Z: mkE2(v[2])}))
		return x.eqs(g[:], []r2{m(x, v[0], i, i), m(x, v[1], i, i, i)})
	}, func(r *rand.Rand) (bool, map[string]any, string) {
		p := rndG2(r)
		for _, q := range []bls.G2Affine{p, {}} {
			x := concX()
			x.hookZeroConc()
			j := x.jacOf(&q, r)
			ok, msg := x.sameAff(*pb.GetG2AffineFromG2Jac(x.API, &j), &q)
			clearHooks()
			if !ok {
				return false, map[string]any{"P": q.String()}, msg
			}
		}
		return true, nil, ""
	})
	tagCase(c, "GetG2AffineFromG2Jac-infinity", fp, func(x *X) []emu.Eq {
		v := vars2(x, 2)
		pb.VerifHookE2NotZero = func(_ fapi, e pb.E2) V {
			if zeroP(flat2(frE2(&e))...) {
				return emu.I(0)
			}
			return emu.I(1)
		}
		g := frA(*pb.GetG2AffineFromG2Jac(x.API, &jac{X: mkE2(v[0]), Y: mkE2(v[1]), Z: mkE2(zero2())}))
		return x.eqs(g[:], []r2{zero2(), zero2()})
	}, func(r *rand.Rand) (bool, map[string]any, string) {
		x := concX()
		x.hookZeroConc()
		defer clearHooks()
		var q bls.G2Affine
		j := x.jacOf(&q, r)
		ok, msg := x.sameAff(*pb.GetG2AffineFromG2Jac(x.API, &j), &q)
		return ok, map[string]any{"P": "infinity"}, msg
	})
	for _, inf := range []bool{false, true} {
		inf := inf
		tagCase(c, fmt.Sprintf("GetG2JacFromG2Affine-inf=%v", inf), fp, func(x *X) []emu.Eq {
			v := vars2(x, 2)
			pb.VerifHookG2AffineNotInfinity = func(_ fapi, a *pb.G2Affine) V {
				if !x.eq2(frE2(&a.X), v[0]) || !x.eq2(frE2(&a.Y), v[1]) {
					x.fail("infinity test on something else")
				}
				if inf {
					return emu.I(0)
				}
				return emu.I(1)
			}
			g := frJ(*pb.GetG2JacFromG2Affine(x.API, &aff{X: mkE2(v[0]), Y: mkE2(v[1])}))
			if inf {
				return x.eqs(g[2:], []r2{zero2()})
			}
			return x.eqs(g[:], []r2{v[0], v[1], c2(1, 0)})
		}, func(r *rand.Rand) (bool, map[string]any, string) {
			p := rndG2(r)
			for _, q := range []bls.G2Affine{p, {}} {
				x := concX()
				x.hookZeroConc()
				ok, msg := x.sameJac(*pb.GetG2JacFromG2Affine(x.API, mkG2(&q)), &q)
				clearHooks()
				if !ok {
					return false, map[string]any{"P": q.String()}, msg
				}
			}
			return true, nil, ""
		})
	}
	tagCase(c, "G2AffineNotInfinity", fp, func(x *X) []emu.Eq {
		v := vars2(x, 2)
		bx, by := x.C.BoolVar("bx"), x.C.BoolVar("by")
		pb.VerifHookE2NotZero = func(_ fapi, e pb.E2) V {
			if x.eq2(frE2(&e), v[0]) {
				return bx
			} else if x.eq2(frE2(&e), v[1]) {
				return by
			}
			x.fail("a zero test on an unexpected value")
			return by
		}
		g := emu.V(pb.G2AffineNotInfinity(x.API, &aff{X: mkE2(v[0]), Y: mkE2(v[1])}))
		return []emu.Eq{{L: g, R: emu.Sub(emu.Add(bx, by, nil), emu.Mul(bx, by, nil), nil)}}
	}, func(r *rand.Rand) (bool, map[string]any, string) { return true, nil, "" })

	// endomorphisms: psi(x,y) = (conj(x)/xi^((p-1)/3), conj(y)/xi^((p-1)/2)), phi(x,y) = (w x, y) with phi = [z^2-1] on G2
	pm1 := new(big.Int).Sub(fp, big.NewInt(1))
	psiC := func(x *X) (r2, r2) {
		e := func(d int64) r2 {
			q := new(big.Int).Mul(fp, fp)
			q.Sub(q, big.NewInt(1)).Sub(q, new(big.Int).Div(pm1, big.NewInt(d)))
			return x.pow2(xi, q)
		}
		return e(3), e(2)
	}
	psiRef := func(p, _ *bls.G2Affine) (r bls.G2Affine) { // psi = [z] on G2, z the (negative) curve parameter
		r.ScalarMultiplication(p, x0)
		r.Neg(&r)
		return
	}
	lam := new(big.Int).Mul(x0, x0)
	lam.Sub(lam, big.NewInt(1))
	phiRef := func(p, _ *bls.G2Affine) (r bls.G2Affine) { r.ScalarMultiplication(p, lam); return }
	w := func() *P { // x([z^2-1]G)/x(G), an element of Fp
		_, _, _, g := bls.Generators()
		q := phiRef(&g, nil)
		x := concX()
		a, b := frE2(&mkG2(&q).X), frE2(&mkG2(&g).X)
		i := x.C.Quot(emu.I(1), b[0], fp)
		return x.mul(a[0], i)
	}()
	tagCase(c, "G2Psi", fp, func(x *X) []emu.Eq {
		v := vars2(x, 2)
		u, t := psiC(x)
		g := frA(*pb.G2Psi(x.API, aff{X: mkE2(v[0]), Y: mkE2(v[1])}))
		return x.eqs(g[:], []r2{m(x, x.conj(v[0]), u), m(x, x.conj(v[1]), t)})
	}, aff2(func(x *X, p, _ aff) *aff { return pb.G2Psi(x.API, p) }, psiRef))
	tagCase(c, "G2JacobianPsi", fp, func(x *X) []emu.Eq {
		v := vars2(x, 3)
		u, t := psiC(x)
		g := frJ(pb.G2JacobianPsi(x.API, mkj(v)))
		return x.eqs(g[:], []r2{m(x, x.conj(v[0]), u), m(x, x.conj(v[1]), t), x.conj(v[2])})
	}, jac2(func(x *X, p, _ jac) jac { return pb.G2JacobianPsi(x.API, p) }, psiRef, false))
	tagCase(c, "G2Phi", fp, func(x *X) []emu.Eq {
		v := vars2(x, 2)
		g := frA(pb.G2Phi(x.API, aff{X: mkE2(v[0]), Y: mkE2(v[1])}))
		return x.eqs(g[:], []r2{m(x, v[0], r2{w, emu.I(0)}), v[1]})
	}, aff2(func(x *X, p, _ aff) *aff { r := pb.G2Phi(x.API, p); return &r }, phiRef))
	tagCase(c, "G2JacobianPhi", fp, func(x *X) []emu.Eq {
		v := vars2(x, 3)
		g := frJ(pb.G2JacobianPhi(x.API, mkj(v)))
		return x.eqs(g[:], []r2{m(x, v[0], r2{w, emu.I(0)}), v[1], v[2]})
	}, jac2(func(x *X, p, _ jac) jac { return pb.G2JacobianPhi(x.API, p) }, phiRef, false))
	// the relation between the two on the constants: psi^2(x,y) = (N(u) x, N(v) y) = (w^2 x, -y) = -phi^2(x,y)
	polyCase(c, PC{Name: "psi-squared", In: 0, Mod: fp, Run: func(x *X, _ []*P) []*P {
		u, t := psiC(x)
		return append(flat2(m(x, u, x.conj(u)), m(x, t, x.conj(t))), emu.I(0))
	}, Ref: func(x *X, _ []*P) []*P {
		w2 := x.mul(w, w)
		return append(flat2(r2{w2, emu.I(0)}, c2(-1, 0)), x.add(x.add(emu.I(1), w), w2))
	}})

	// ---- abstract group: Z[s, f] Q with s = psi, f = (x -> w x); a point carries its tag in X.A0 and Y.A0 ----
	groupCases(c, w)
}
