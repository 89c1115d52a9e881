//go:build emuov

package echecks

import (
	"math/big"
	"math/rand"

	bls "github.com/consensys/gnark-crypto/ecc/bls12-381"

	pb "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	"verif/engine/emu"
	"verif/engine/hk"
)

// grp interprets points as integer combinations of Q, psi Q, phi Q ...: the tag T is a polynomial in Q, s, f with integer
// coefficients; a point is stored as X = T, Y = T. Negating Y or scaling X by a cube root of unity in the code gives
// X = w^i T, Y = +-T, which decodes as +-f^i T.
type grp struct {
	x    *X
	w    *P
	q    *P // generator
	s, f *P
	tags map[string]*P // by the key of the stored value modulo p
}

func newGrp(x *X, w *P) *grp {
	return &grp{x: x, w: w, q: x.C.Var("Q"), s: x.C.Var("psi"), f: x.C.Var("phi"), tags: map[string]*P{}}
}

// norm replaces psi^2 by -phi^2 and phi^3 by 1 so that tags are canonical.
func (g *grp) norm(p *P) *P {
	si, fi := g.s.VarID(), g.f.VarID()
	out := emu.I(0)
	for k, v := range p.M {
		_ = v
		t := &P{M: map[string]*big.Int{k: v}}
		ns, nf := 0, 0
		r := t.Subst(map[int]*P{si: emu.I(1), fi: emu.I(1)}, nil)
		for i := 0; i+4 <= len(k); i += 4 {
			id := (&P{M: map[string]*big.Int{k[i : i+4]: big.NewInt(1)}}).VarID()
			if id == si {
				ns++
			} else if id == fi {
				nf++
			}
		}
		for ns >= 2 {
			ns -= 2
			nf += 2
			r = emu.Mul(r, emu.I(-1), nil)
		}
		nf %= 3
		if nf == 2 { // phi^2 = -1 - phi
			r = emu.Mul(r, emu.Sub(emu.I(-1), g.f, nil), nil)
		} else if nf == 1 {
			r = emu.Mul(r, g.f, nil)
		}
		if ns == 1 {
			r = emu.Mul(r, g.s, nil)
		}
		out = emu.Add(out, r, nil)
	}
	return out
}

func (g *grp) st(T *P) (r2, r2) {
	T = g.norm(T)
	h := emu.Mod(T, fp)
	g.tags[h.Key()] = T
	return r2{h, emu.I(0)}, r2{h, emu.I(0)}
}

// dec decodes a point (X, Y coordinates).
func (g *grp) dec(X, Y *pb.E2) *P {
	a, b := frE2(X), frE2(Y)
	if len(a[1].M)+len(b[1].M) > 0 {
		g.x.fail("unexpected arithmetic on a point")
		return emu.I(0)
	}
	c := emu.Mod(a[0], fp)
	for i := int64(0); i < 3; i++ {
		// X = w^i h
		h := c
		for j := int64(0); j < (3-i)%3; j++ {
			h = emu.Mul(h, g.w, fp)
		}
		for _, sg := range []int64{1, -1} {
			if T, ok := g.tags[h.Key()]; ok && len(emu.Sub(emu.Mul(h, emu.I(sg), fp), b[0], fp).M) == 0 {
				r := emu.Mul(T, emu.I(sg), nil)
				for j := int64(0); j < i; j++ {
					r = g.norm(emu.Mul(r, g.f, nil))
				}
				return r
			}
		}
	}
	g.x.fail("unexpected arithmetic on a point")
	return emu.I(0)
}

func (g *grp) A(T *P) aff { a, b := g.st(T); return aff{X: mkE2(a), Y: mkE2(b)} }
func (g *grp) J(T *P) jac { a, b := g.st(T); return jac{X: mkE2(a), Y: mkE2(b), Z: mkE2(c2(1, 0))} }
func (g *grp) dA(a *aff) *P { return g.dec(&a.X, &a.Y) }
func (g *grp) dJ(a *jac) *P {
	if !g.x.eq2(frE2(&a.Z), c2(1, 0)) {
		g.x.fail("unexpected arithmetic on Z")
	}
	return g.dec(&a.X, &a.Y)
}

// distinct: the affine chord formula needs different x coordinates.
func (g *grp) distinct(a, b *P) {
	if zeroP(g.norm(emu.Sub(a, b, nil))) || zeroP(g.norm(emu.Add(a, b, nil))) {
		g.x.fail("the chord formula is applied to equal or opposite points")
	}
}

func (g *grp) hooks(deep bool) {
	pb.VerifHookG2JacobianAddAssign = func(_ fapi, p, a jac) jac { return g.J(emu.Add(g.dJ(&p), g.dJ(&a), nil)) }
	pb.VerifHookG2JacobianDouble = func(_ fapi, p jac) jac { return g.J(emu.Mul(g.dJ(&p), emu.I(2), nil)) }
	pb.VerifHookG2JacobianNeg = func(_ fapi, p jac) jac { return g.J(emu.Mul(g.dJ(&p), emu.I(-1), nil)) }
	pb.VerifHookG2JacobianSubAssign = func(_ fapi, p, a jac) jac { return g.J(emu.Sub(g.dJ(&p), g.dJ(&a), nil)) }
	pb.VerifHookG2JacobianPsi = func(_ fapi, p jac) jac { return g.J(emu.Mul(g.dJ(&p), g.s, nil)) }
	pb.VerifHookG2JacobianPhi = func(_ fapi, p jac) jac { return g.J(emu.Mul(g.dJ(&p), g.f, nil)) }
	ap := func(T *P) *aff { a := g.A(T); return &a }
	pb.VerifHookG2AddAssign = func(_ fapi, p, a aff) *aff {
		g.distinct(g.dA(&p), g.dA(&a))
		return ap(emu.Add(g.dA(&p), g.dA(&a), nil))
	}
	pb.VerifHookG2SubAssign = func(_ fapi, p, a aff) *aff {
		g.distinct(g.dA(&p), g.dA(&a))
		return ap(emu.Sub(g.dA(&p), g.dA(&a), nil))
	}
	pb.VerifHookG2Double = func(_ fapi, p aff) *aff { return ap(emu.Mul(g.dA(&p), emu.I(2), nil)) }
	pb.VerifHookG2Neg = func(_ fapi, p aff) *aff { return ap(emu.Mul(g.dA(&p), emu.I(-1), nil)) }
	pb.VerifHookG2Psi = func(_ fapi, p aff) *aff { return ap(emu.Mul(g.dA(&p), g.s, nil)) }
	pb.VerifHookG2Phi = func(_ fapi, p aff) aff { return g.A(emu.Mul(g.dA(&p), g.f, nil)) }
	pb.VerifHookDoubleAndAdd = func(_ fapi, p, a *aff) *aff {
		P, A := g.dA(p), g.dA(a)
		g.distinct(P, A)
		g.distinct(P, emu.Add(P, A, nil))
		return ap(emu.Add(emu.Mul(P, emu.I(2), nil), A, nil))
	}
	pb.VerifHookGetG2JacFromG2Affine = func(_ fapi, a *aff) *jac { j := g.J(g.dA(a)); return &j }
	pb.VerifHookGetG2AffineFromG2Jac = func(_ fapi, a *jac) *aff { return ap(g.dJ(a)) }
	if deep {
		pb.VerifHookG2JacobianConstScalarMul = func(_ fapi, a jac) jac { return g.J(emu.Mul(g.dJ(&a), emu.Const(x0), nil)) }
	}
}

func groupCases(c *hk.Check, w *P) {
	z := new(big.Int).Neg(x0)
	// psi is [z] on G2 but not on the whole twist: cofactor clearing is checked as a formal combination
	mulRef := func(p *bls.G2Affine) (r bls.G2Affine) { r.ScalarMultiplication(p, x0); return }
	clrRef := func(p *bls.G2Affine) (r bls.G2Affine) { r.ClearCofactor(p); return }
	cj := func(f func(x *X, p jac) jac, ref func(p *bls.G2Affine) bls.G2Affine) func(r *rand.Rand) (bool, map[string]any, string) {
		return func(r *rand.Rand) (bool, map[string]any, string) {
			x := concX()
			x.hookZeroConc()
			defer clearHooks()
			p := rndG2(r)
			q := ref(&p)
			ok, m := x.sameJac(f(x, x.jacOf(&p, r)), &q)
			return ok, map[string]any{"P": p.String()}, m
		}
	}
	ca := func(f func(x *X, p aff) aff, ref func(p *bls.G2Affine) bls.G2Affine) func(r *rand.Rand) (bool, map[string]any, string) {
		return func(r *rand.Rand) (bool, map[string]any, string) {
			x := concX()
			x.hookZeroConc()
			defer clearHooks()
			p := rndG2(r)
			q := ref(&p)
			ok, m := x.sameAff(f(x, *mkG2(&p)), &q)
			return ok, map[string]any{"P": p.String()}, m
		}
	}
	ord := new(big.Int).Lsh(big.NewInt(1), 600) // integer coefficients: a modulus beyond their size
	eq := func(g *grp, got, want *P) []emu.Eq { return []emu.Eq{{L: g.norm(got), R: g.norm(want)}} }
	fJ := func(x *X, p jac) jac { return pb.G2JacobianConstScalarMul(x.API, p) }
	tagCase(c, "G2JacobianConstScalarMul", ord, func(x *X) []emu.Eq {
		x.Mod = fp
		g := newGrp(x, w)
		g.hooks(false)
		r := fJ(x, g.J(g.q))
		return eq(g, g.dJ(&r), emu.Mul(g.q, emu.Const(x0), nil))
	}, cj(fJ, mulRef))
	fA := func(x *X, p aff) aff { return pb.G2ConstScalarMulV2(x.API, p) }
	tagCase(c, "G2ConstScalarMulV2", ord, func(x *X) []emu.Eq {
		x.Mod = fp
		g := newGrp(x, w)
		g.hooks(false)
		r := fA(x, g.A(g.q))
		return eq(g, g.dA(&r), emu.Mul(g.q, emu.Const(x0), nil))
	}, ca(fA, mulRef))
	fG := func(x *X, p aff) aff { return *pb.G2ConstScalarMul(x.API, p) }
	tagCase(c, "G2ConstScalarMul", ord, func(x *X) []emu.Eq {
		x.Mod = fp
		g := newGrp(x, w)
		g.hooks(false)
		r := fG(x, g.A(g.q))
		return eq(g, g.dA(&r), emu.Mul(g.q, emu.Const(x0), nil))
	}, ca(fG, mulRef))
	// (z^2-z-1) Q + (z-1) psi Q + psi^2 (2 Q), z the negative parameter
	want := func(g *grp) *P {
		a := new(big.Int).Mul(z, z)
		a.Sub(a, z).Sub(a, big.NewInt(1))
		b := new(big.Int).Sub(z, big.NewInt(1))
		o := emu.Add(emu.Const(a), emu.Mul(emu.Const(b), g.s, nil), nil)
		o = emu.Add(o, emu.Mul(emu.I(2), emu.Mul(g.s, g.s, nil), nil), nil)
		return emu.Mul(o, g.q, nil)
	}
	fC := func(x *X, p jac) jac { return *pb.ClearCofactor(x.API, p) }
	tagCase(c, "ClearCofactor", ord, func(x *X) []emu.Eq {
		x.Mod = fp
		g := newGrp(x, w)
		g.hooks(true)
		r := fC(x, g.J(g.q))
		return eq(g, g.dJ(&r), want(g))
	}, cj(fC, clrRef))
	fD := func(x *X, p aff) aff { return *pb.G2ClearCofactor(x.API, p) }
	tagCase(c, "G2ClearCofactor", ord, func(x *X) []emu.Eq {
		x.Mod = fp
		g := newGrp(x, w)
		g.hooks(true)
		r := fD(x, g.A(g.q))
		return eq(g, g.dA(&r), want(g))
	}, ca(fD, clrRef))
}
