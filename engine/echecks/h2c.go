//go:build emuov

package echecks

import (
	"fmt"
	"math/big"
	"math/rand"

	bls "github.com/consensys/gnark-crypto/ecc/bls12-381"

	pb "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	"verif/engine/emu"
	"verif/engine/hk"
)

func init() { Registry["P04"] = checkP04 }

var isoA, isoB, isoZ = c2(0, 240), c2(1012, 1012), c2(-2, -1)

// lgr keeps elements of Fp2* as logarithms: A0 is the log polynomial (integers), A1 a marker variable.
type lgr struct {
	x    *X
	mark *P
	cst  []struct {
		v r2
		l *P
	}
	bools map[string]*P
}

func (g *lgr) E(l *P) *pb.E2 { return pE2(r2{l, g.mark}) }
func (g *lgr) L(e *pb.E2) *P {
	a := frE2(e)
	if len(a[1].M) == 1 && a[1].VarID() == g.mark.VarID() {
		return a[0]
	}
	for _, k := range g.cst {
		if g.x.eq2(k.v, a) {
			return k.l
		}
	}
	g.x.fail("an unexpected constant or value in a product")
	return emu.I(0)
}
func (g *lgr) notOne(l *P) *P {
	k := l.Key()
	if g.bools[k] == nil {
		g.bools[k] = g.x.C.BoolVar("ne1")
	}
	return g.bools[k]
}
func (g *lgr) sel(b, l, m *P) *P { return emu.Add(m, emu.Mul(b, emu.Sub(l, m, nil), nil), nil) }

func (g *lgr) hooks(exp bool) {
	pb.VerifHookext2Mul = func(_ pb.VerifExt2, a, b *pb.E2) *pb.E2 { return g.E(emu.Add(g.L(a), g.L(b), nil)) }
	pb.VerifHookext2Square = func(_ pb.VerifExt2, a *pb.E2) *pb.E2 { return g.E(emu.Mul(g.L(a), emu.I(2), nil)) }
	pb.VerifHookext2Select = func(_ pb.VerifExt2, s V, a, b *pb.E2) *pb.E2 { return g.E(g.sel(emu.V(s), g.L(a), g.L(b))) }
	pb.VerifHookext2Inverse = func(_ pb.VerifExt2, a *pb.E2) *pb.E2 { return g.E(emu.Mul(g.L(a), emu.I(-1), nil)) }
	if exp {
		pb.VerifHookE2Exp = func(_ fapi, a pb.E2, k *big.Int) *pb.E2 { return g.E(emu.Mul(g.L(&a), emu.Const(new(big.Int).Set(k)), nil)) }
	}
	pb.VerifHookE2NotOne = func(_ fapi, a pb.E2) V { return g.notOne(g.L(&a)) }
	pb.VerifHookE2NotEqual = func(_ fapi, a, b pb.E2) V {
		for _, s := range [][2]*pb.E2{{&a, &b}, {&b, &a}} {
			if g.x.eq2(frE2(s[1]), c2(1, 0)) {
				return g.notOne(g.L(s[0]))
			}
		}
		g.x.fail("an unexpected comparison")
		return emu.I(0)
	}
}

func blsE2(r *rand.Rand) (e bls.E2) {
	e.A0.SetBigInt(new(big.Int).Rand(r, fp))
	e.A1.SetBigInt(new(big.Int).Rand(r, fp))
	return
}
func fromE2(e *bls.E2) r2 { return r2{fe(&e.A0), fe(&e.A1)} }

// concSgn sets the sign hook to RFC 9380 sgn0 on constants.
func (x *X) hookSgnConc() {
	pb.VerifHookg2Sgn0 = func(_ fapi, u *pb.E2) V {
		a := frE2(u)
		v, _ := emu.Mod(a[0], fp).IsConst()
		w, _ := emu.Mod(a[1], fp).IsConst()
		if v.Sign() == 0 {
			return int(w.Bit(0))
		}
		return int(v.Bit(0))
	}
}

func checkP04(c *hk.Check) {
	c.Bound("all field elements; E2Exp for the exponents 0..33, 255..257, 2^64-1 and the square-root exponent; HashToField counts 2 and 4")
	c.Stub("zero tests and sgn0 are replaced by their truth values (their own correctness: P05); expand_message is abstract bytes (P05); the square root inside the map, the group operations (P03) and the map inside the composition are contracts decided separately")
	c.Assume("gnark's std/math/emulated computes exact arithmetic modulo p", "RFC 9380 straight-line algorithms are the reference")
	// E2Exp
	var ks []*big.Int
	for i := int64(0); i <= 33; i++ {
		ks = append(ks, big.NewInt(i))
	}
	q := new(big.Int).Mul(fp, fp)
	q1 := new(big.Int).Sub(q, big.NewInt(1))
	cc2 := new(big.Int).Rsh(q1, 3)
	c3 := new(big.Int).Rsh(cc2, 1)
	ks = append(ks, big.NewInt(255), big.NewInt(256), big.NewInt(257), new(big.Int).SetUint64(1<<64-1), c3)
	big600 := new(big.Int).Lsh(big.NewInt(1), 4000)
	for _, k := range ks {
		k := k
		tagCase(c, "E2Exp-"+trunc(k.String()), big600, func(x *X) []emu.Eq {
			x.Mod = fp
			g := &lgr{x: x, mark: x.C.Var("mark"), bools: map[string]*P{}}
			g.cst = append(g.cst, struct {
				v r2
				l *P
			}{c2(1, 0), emu.I(0)})
			g.hooks(false)
			a := x.C.Var("a")
			return []emu.Eq{{L: g.L(pb.E2Exp(x.API, *g.E(a), new(big.Int).Set(k))), R: emu.Mul(a, emu.Const(k), nil)}}
		}, func(r *rand.Rand) (bool, map[string]any, string) {
			x := concX()
			e := blsE2(r)
			got := frE2(pb.E2Exp(x.API, mkE2(fromE2(&e)), new(big.Int).Set(k)))
			want := x.pow2(fromE2(&e), k)
			ok, m := x.okConc()
			if !x.eq2(got, want) {
				ok, m = false, "wrong power"
			}
			return ok, map[string]any{"x": e.String(), "k": k.String()}, m
		})
	}
	// sqrt_ratio against the straight-line program of RFC 9380 F.2.1.1
	tagCase(c, "g2SqrtRatio", big600, func(x *X) []emu.Eq {
		x.Mod = fp
		g := &lgr{x: x, mark: x.C.Var("mark"), bools: map[string]*P{}}
		zeta := x.C.Var("zeta") // log Z
		lc7 := new(big.Int).Add(c3, big.NewInt(1))
		add := func(v r2, l *P) {
			g.cst = append(g.cst, struct {
				v r2
				l *P
			}{v, l})
		}
		add(c2(1, 0), emu.I(0))
		add(x.pow2(isoZ, cc2), emu.Mul(zeta, emu.Const(cc2), nil))
		add(x.pow2(isoZ, lc7), emu.Mul(zeta, emu.Const(lc7), nil))
		g.hooks(true)
		u, v := x.C.Var("u"), x.C.Var("v")
		z, ns := pb.VerifSqrtRatio(x.API, g.E(u), g.E(v))
		gz := g.L(z)
		k := func(l *P, n *big.Int) *P { return emu.Mul(l, emu.Const(n), nil) }
		ad := func(a, b *P) *P { return emu.Add(a, b, nil) }
		tv1 := k(zeta, cc2)
		tv2 := k(v, big.NewInt(7))
		tv3 := ad(k(tv2, big.NewInt(2)), v)
		tv5 := ad(k(ad(u, tv3), c3), tv2)
		tv2 = ad(tv5, v)
		tv3 = ad(tv5, u)
		tv4 := ad(tv3, tv2)
		nq := g.notOne(k(tv4, big.NewInt(4)))
		tv3, tv4 = g.sel(nq, ad(tv3, k(zeta, lc7)), tv3), g.sel(nq, ad(tv4, tv1), tv4)
		for i := 3; i >= 2; i-- {
			ne := g.notOne(k(tv4, big.NewInt(1<<(i-2))))
			t2 := ad(tv3, tv1)
			tv1 = k(tv1, big.NewInt(2))
			t5 := ad(tv4, tv1)
			tv3, tv4 = g.sel(ne, t2, tv3), g.sel(ne, t5, tv4)
		}
		return []emu.Eq{{L: gz, R: tv3}, {L: emu.V(ns), R: nq}}
	}, func(r *rand.Rand) (bool, map[string]any, string) {
		for i := 0; i < 6; i++ {
			x := concX()
			x.hookZeroConc()
			u, v := blsE2(r), blsE2(r)
			if i == 5 {
				u.SetZero()
			}
			z, ns := pb.VerifSqrtRatio(x.API, pE2(fromE2(&u)), pE2(fromE2(&v)))
			clearHooks()
			n, _ := emu.V(ns).IsConst()
			zz := x.m2(x.m2(frE2(z), frE2(z)), fromE2(&v))
			want := fromE2(&u)
			if n.Sign() != 0 {
				want = x.m2(want, isoZ)
			}
			if !x.eq2(zz, want) || (n.Sign() != 0) == (x.isSquare(x.m2(fromE2(&u), fromE2(&v))) && i != 5) {
				return false, map[string]any{"u": u.String(), "v": v.String()}, "not the square root of the ratio"
			}
		}
		return true, nil, ""
	})
	// simplified SWU, RFC 9380 F.2
	for _, ex := range []bool{false, true} {
		ex := ex
		name := "MapElementToCurve2"
		if ex {
			name += "-exceptional"
		}
		tagCase(c, name, fp, func(x *X) []emu.Eq {
			u := vars2(x, 1)[0]
			y1 := vars2(x, 1)[0]
			m := x.m2
			tv1 := m(isoZ, m(u, u))
			tv2 := x.a2(m(tv1, tv1), tv1)
			nz := tv2
			tv3 := m(isoB, x.a2(tv2, c2(1, 0)))
			tv4 := m(isoA, x.n2(tv2))
			if ex {
				tv4 = m(isoA, isoZ)
			}
			t2 := m(tv3, tv3)
			tv6 := m(tv4, tv4)
			t2 = m(x.a2(t2, m(isoA, tv6)), tv3)
			tv6 = m(tv6, tv4)
			t2 = x.a2(t2, m(isoB, tv6))
			pb.VerifHookE2NotZero = func(_ fapi, a pb.E2) V {
				if v := frE2(&a); !x.eq2(v, nz) && !x.eq2(x.n2(v), nz) {
					x.fail("a zero test on something else than the denominator")
				}
				if ex {
					return emu.I(0)
				}
				return emu.I(1)
			}
			nq := x.C.BoolVar("nonsquare")
			sq := 0
			pb.VerifHookg2SqrtRatio = func(_ fapi, a, b *pb.E2) (*pb.E2, V) {
				sq++
				// the ratio is what matters
				if l, r := m(frE2(a), tv6), m(frE2(b), t2); !x.eq2(l, r) || zeroP(flat2(frE2(b))...) {
					x.fail("the square root is not taken of g(x1)")
				}
				return pE2(y1), nq
			}
			selp := func(b *P, p, q r2) r2 {
				d := x.s2(p, q)
				return x.a2(q, r2{x.mul(b, d[0]), x.mul(b, d[1])})
			}
			X := selp(nq, m(tv1, tv3), tv3)
			Y := selp(nq, m(m(tv1, u), y1), y1)
			su, sy := x.C.BoolVar("sgn u"), x.C.BoolVar("sgn y")
			pb.VerifHookg2Sgn0 = func(_ fapi, a *pb.E2) V {
				if x.eq2(frE2(a), u) {
					return su
				} else if x.eq2(frE2(a), Y) {
					return sy
				}
				x.fail("sgn0 of something else than u and y")
				return emu.I(0)
			}
			flip := emu.Sub(emu.Add(su, sy, nil), emu.Mul(emu.I(2), emu.Mul(su, sy, nil), nil), nil)
			var qt *quot
			x.hookDiv(func() *quot { qt = x.slope(X, tv4); return qt })
			gx, gy := pb.MapElementToCurve2(x.API, mkE2(u))
			if sq != 1 {
				x.fail("one square root expected")
			}
			return x.eqs([]r2{frE2(gx), frE2(gy)}, []r2{qt.l, selp(flip, x.n2(Y), Y)})
		}, func(r *rand.Rand) (bool, map[string]any, string) {
			for i := 0; i < 3; i++ {
				x := concX()
				x.hookZeroConc()
				x.hookSgnConc()
				u := blsE2(r)
				if ex {
					u.SetZero()
				}
				px, py := pb.MapElementToCurve2(x.API, mkE2(fromE2(&u)))
				p := pb.G2Isogeny(x.API, &aff{X: *px, Y: *py})
				p = pb.G2ClearCofactor(x.API, *p)
				clearHooks()
				w := bls.MapToG2(u)
				if ok, msg := x.sameAff(*p, &w); !ok {
					return false, map[string]any{"u": u.String()}, msg
				}
			}
			return true, nil, ""
		})
	}
	// the isogeny maps E': y^2 = x^3 + 240u x + 1012(1+u) into E: y^2 = x^3 + 4(1+u)
	tagCase(c, "G2Isogeny", fp, func(x *X) []emu.Eq {
		v := vars2(x, 2)
		var ds []r2
		var is []r2
		pb.VerifHookext2Inverse = func(_ pb.VerifExt2, a *pb.E2) *pb.E2 {
			i := r2{x.C.Var("i"), x.C.Var("i")}
			ds, is = append(ds, frE2(a)), append(is, i)
			return pE2(i)
		}
		g := frA(*pb.G2Isogeny(x.API, &aff{X: mkE2(v[0]), Y: mkE2(v[1])}))
		// each coordinate is numerator * inverse
		num := func(p r2) (r2, r2) {
			for k := range is {
				sub := map[int]*P{}
				for j := range is {
					sub[is[j][0].VarID()], sub[is[j][1].VarID()] = emu.I(0), emu.I(0)
				}
				sub[is[k][0].VarID()] = emu.I(1)
				n := r2{p[0].Subst(sub, fp), p[1].Subst(sub, fp)}
				if x.eq2(x.m2(n, is[k]), p) {
					return n, ds[k]
				}
			}
			x.fail("a coordinate is not a fraction")
			return zero2(), c2(1, 0)
		}
		xn, xd := num(g[0])
		yn, yd := num(g[1])
		// yn must be y times a function of x: set y = 1 and compare
		sub := map[int]*P{v[1][0].VarID(): emu.I(1), v[1][1].VarID(): emu.I(0)}
		n := r2{yn[0].Subst(sub, fp), yn[1].Subst(sub, fp)}
		m := func(as ...r2) r2 {
			r := as[0]
			for _, a := range as[1:] {
				r = x.m2(r, a)
			}
			return r
		}
		rhs := x.a2(x.a2(m(v[0], v[0], v[0]), m(isoA, v[0])), isoB)
		l := m(n, n, rhs, xd, xd, xd)
		r := m(x.a2(m(xn, xn, xn), m(c2(4, 4), xd, xd, xd)), yd, yd)
		if zeroP(flat2(xd)...) || zeroP(flat2(yd)...) || zeroP(flat2(n)...) {
			x.fail("a degenerate isogeny")
		}
		return x.eqs([]r2{yn, l}, []r2{m(n, v[1]), r})
	}, func(r *rand.Rand) (bool, map[string]any, string) {
		x := concX()
		x.hookZeroConc()
		x.hookSgnConc()
		defer clearHooks()
		u := blsE2(r)
		px, py := pb.MapElementToCurve2(x.API, mkE2(fromE2(&u)))
		p := pb.G2ClearCofactor(x.API, *pb.G2Isogeny(x.API, &aff{X: *px, Y: *py}))
		w := bls.MapToG2(u)
		ok, msg := x.sameAff(*p, &w)
		return ok, map[string]any{"u": u.String()}, msg
	})
	// hash_to_field
	for _, n := range []int{2, 4} {
		n := n
		run := func(x *X, bs []*P) ([]r2, []r2) {
			var msg [32]V
			for i := range msg {
				msg[i] = emu.I(int64(i))
			}
			pb.VerifHookExpandMsgXmd = func(_ fapi, m [32]V, cnt int) (o []V) {
				if cnt != n || m != msg {
					x.fail("expand_message with other arguments")
				}
				for _, b := range bs[:64*cnt] {
					o = append(o, b)
				}
				return
			}
			pb.VerifHookGetUint64From8Bytes = func(_ fapi, v [8]V) V {
				s := emu.I(0)
				for _, b := range v {
					s = emu.Add(emu.Mul(s, emu.I(256), nil), emu.V(b), nil)
				}
				return s
			}
			var got, want []r2
			for _, e := range pb.HashToField(x.API, msg, n) {
				e := e
				got = append(got, frE2(&e))
			}
			os2ip := func(b []*P) *P {
				s := emu.I(0)
				for _, t := range b {
					s = x.add(x.mul(s, emu.I(256)), t)
				}
				return s
			}
			for i := 0; i < n/2; i++ {
				want = append(want, r2{os2ip(bs[128*i : 128*i+64]), os2ip(bs[128*i+64 : 128*i+128])})
			}
			if len(got) != len(want) {
				x.fail("%d elements, expected %d", len(got), len(want))
				got = want
			}
			return got, want
		}
		tagCase(c, fmt.Sprintf("HashToField-%d", n), fp, func(x *X) []emu.Eq {
			var bs []*P
			for i := 0; i < 64*n; i++ {
				bs = append(bs, x.C.Var("byte"))
			}
			g, w := run(x, bs)
			return x.eqs(g, w)
		}, func(r *rand.Rand) (bool, map[string]any, string) {
			x := concX()
			defer clearHooks()
			var bs []*P
			for i := 0; i < 64*n; i++ {
				bs = append(bs, emu.I(int64(r.Intn(256))))
			}
			g, w := run(x, bs)
			for i := range g {
				if !x.eq2(g[i], w[i]) {
					return false, map[string]any{"element": i}, "not the big-endian integer of the chunk modulo p"
				}
			}
			ok, m := x.okConc()
			return ok, map[string]any{}, m
		})
	}
	// composition of the four maps
	type enc struct {
		name string
		cnt  int
		f    func(x *X, m [32]V) *aff
	}
	for _, e := range []enc{
		{"EncodeToG2", 2, func(x *X, m [32]V) *aff { return pb.EncodeToG2(x.API, m) }},
		{"EncodeToG2OnJac", 2, func(x *X, m [32]V) *aff { return pb.EncodeToG2OnJac(x.API, m) }},
		{"HashToG2", 4, func(x *X, m [32]V) *aff { return pb.HashToG2(x.API, m) }},
		{"HashToG2OnJac", 4, func(x *X, m [32]V) *aff { return pb.HashToG2OnJac(x.API, m) }},
	} {
		e := e
		tagCase(c, e.name, new(big.Int).Lsh(big.NewInt(1), 64), func(x *X) []emu.Eq {
			x.Mod = fp
			var msg [32]V
			for i := range msg {
				msg[i] = x.C.Var("msg")
			}
			g := newGrp(x, emu.I(1234567))
			h := x.C.Var("h")
			g.hooks(true)
			var us, ms []r2
			pb.VerifHookHashToField = func(_ fapi, m [32]V, cnt int) (o []pb.E2) {
				if m != msg || cnt != e.cnt {
					x.fail("hash_to_field with other arguments")
				}
				us = vars2(x, cnt/2)
				ms = vars2(x, cnt)
				for _, u := range us {
					o = append(o, mkE2(u))
				}
				return
			}
			var qs []*P
			for i := 0; i < e.cnt/2; i++ {
				qs = append(qs, x.C.Var("Q"))
			}
			pb.VerifHookMapElementToCurve2 = func(_ fapi, u pb.E2) (*pb.E2, *pb.E2) {
				for i := range us {
					if x.eq2(frE2(&u), us[i]) {
						return pE2(ms[2*i]), pE2(ms[2*i+1])
					}
				}
				x.fail("the map is applied to something else than a field element of the message")
				return pE2(zero2()), pE2(zero2())
			}
			pb.VerifHookG2Isogeny = func(_ fapi, p *aff) *aff {
				for i := range us {
					if x.eq2(frE2(&p.X), ms[2*i]) && x.eq2(frE2(&p.Y), ms[2*i+1]) {
						a := g.A(qs[i])
						return &a
					}
				}
				x.fail("the isogeny is applied to something else than a mapped point")
				a := g.A(emu.I(0))
				return &a
			}
			pb.VerifHookClearCofactor = func(_ fapi, a jac) *jac { j := g.J(emu.Mul(g.dJ(&a), h, nil)); return &j }
			pb.VerifHookG2ClearCofactor = func(_ fapi, a aff) *aff { j := g.A(emu.Mul(g.dA(&a), h, nil)); return &j }
			want := emu.I(0)
			for _, q := range qs {
				want = emu.Add(want, emu.Mul(q, h, nil), nil)
			}
			return []emu.Eq{{L: g.dA(e.f(x, msg)), R: want}}
		}, func(r *rand.Rand) (bool, map[string]any, string) {
			x := concX()
			x.hookZeroConc()
			x.hookSgnConc()
			defer clearHooks()
			var us []bls.E2
			var msg [32]V
			for i := range msg {
				msg[i] = emu.I(int64(i))
			}
			pb.VerifHookHashToField = func(_ fapi, m [32]V, cnt int) (o []pb.E2) {
				for i := 0; i < cnt/2; i++ {
					u := blsE2(r)
					us = append(us, u)
					o = append(o, mkE2(fromE2(&u)))
				}
				return
			}
			got := e.f(x, msg)
			var w bls.G2Affine
			for _, u := range us {
				t := bls.MapToG2(u)
				w.Add(&w, &t)
			}
			ok, m := x.sameAff(*got, &w)
			return ok, map[string]any{"u": fmt.Sprint(us)}, m
		})
	}
}

func (x *X) isSquare(a r2) bool {
	q := new(big.Int).Mul(fp, fp)
	q.Sub(q, big.NewInt(1)).Rsh(q, 1)
	return x.eq2(x.pow2(a, q), c2(1, 0))
}

func trunc(s string) string {
	if len(s) > 20 {
		return s[:8] + ".."
	}
	return s
}
