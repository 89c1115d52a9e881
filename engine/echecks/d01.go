//go:build emuov

package echecks

import (
	"crypto/ed25519"
	"crypto/sha512"
	"fmt"
	"math/big"
	"math/rand"

	ed "github.com/brevis-network/zk-utils/circuits/gadgets/ed25519"
	"github.com/consensys/gnark/frontend"
	"verif/engine/emu"
	"verif/engine/hk"
	"verif/engine/sha512stub"
	"verif/engine/sym"
)

func init() { Registry["D01"] = checkD01 }

// ---- reference curve: -x^2 + y^2 = 1 + d x^2 y^2 over 2^255-19, RFC 8032 ----

var (
	edQ, _   = new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)
	edL, _   = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	edD      = em(big.NewInt(-121665), new(big.Int).ModInverse(big.NewInt(121666), edQ))
	edB      = edPt{edX(em(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), edQ)), 0), em(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), edQ))}
	edNative = ecNative()
)

func ecNative() *big.Int {
	n, _ := new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
	return n
}

type edPt struct{ x, y *big.Int }

func em(a, b *big.Int) *big.Int { t := new(big.Int).Mul(a, b); return t.Mod(t, edQ) }
func ea(a, b *big.Int) *big.Int { t := new(big.Int).Add(a, b); return t.Mod(t, edQ) }
func es(a, b *big.Int) *big.Int { t := new(big.Int).Sub(a, b); return t.Mod(t, edQ) }
func ei(a *big.Int) *big.Int    { return new(big.Int).ModInverse(a, edQ) }

// edX returns the x coordinate of parity sign for y, or nil.
func edX(y *big.Int, sign uint) *big.Int {
	yy := em(y, y)
	x := new(big.Int).ModSqrt(em(es(yy, big.NewInt(1)), ei(ea(big.NewInt(1), em(edD, yy)))), edQ)
	if x != nil && x.Bit(0) != sign {
		x = es(new(big.Int), x)
	}
	return x
}

func edAdd(p, q edPt) edPt {
	t := em(edD, em(em(p.x, q.x), em(p.y, q.y)))
	return edPt{em(ea(em(p.x, q.y), em(p.y, q.x)), ei(ea(big.NewInt(1), t))), em(ea(em(p.y, q.y), em(p.x, q.x)), ei(es(big.NewInt(1), t)))}
}
func edNeg(p edPt) edPt { return edPt{es(new(big.Int), p.x), p.y} }
func edMul(k *big.Int, p edPt) edPt {
	r := edPt{new(big.Int), big.NewInt(1)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = edAdd(r, r)
		if k.Bit(i) == 1 {
			r = edAdd(r, p)
		}
	}
	return r
}

// edRand returns a random point, of any order.
func edRand(r *rand.Rand) edPt {
	for {
		y := new(big.Int).Rand(r, edQ)
		if x := edX(y, uint(r.Intn(2))); x != nil {
			return edPt{x, y}
		}
	}
}

type fpE = emu.Element[ed.Ed25519Fp]

func edP(x, y *P) ed.Point { return ed.Point{X: emu.Mk[ed.Ed25519Fp](x), Y: emu.Mk[ed.Ed25519Fp](y)} }
func edC(p edPt) ed.Point  { return edP(emu.Const(p.x), emu.Const(p.y)) }

func edResetHooks() {
	ed.VerifHookcurveadd, ed.VerifHookcurvedouble, ed.VerifHookcurveneg, ed.VerifHookcurveassertIsOnCurve = nil, nil, nil, nil
}

// edAbstract replaces the point operations by those of an abstract group: a point is X = a linear form, Y = 1 + a linear form.
func edAbstract(x *X, onCurve *[]ed.Point) {
	lin := func(a int64, p *P, b int64, q *P, c int64) *P {
		return emu.Mod(emu.Add(emu.Lin(a, p, b, q, nil), emu.I(c), nil), edQ)
	}
	ed.VerifHookcurveadd = func(_ *ed.VerifCurve, p, q ed.Point) ed.Point {
		return edP(lin(1, p.X.P(), 1, q.X.P(), 0), lin(1, p.Y.P(), 1, q.Y.P(), -1))
	}
	ed.VerifHookcurvedouble = func(_ *ed.VerifCurve, p *ed.Point) ed.Point {
		return edP(lin(2, p.X.P(), 0, emu.I(0), 0), lin(2, p.Y.P(), 0, emu.I(0), -1))
	}
	ed.VerifHookcurveneg = func(_ *ed.VerifCurve, p *ed.Point) ed.Point {
		return edP(lin(-1, p.X.P(), 0, emu.I(0), 0), lin(-1, p.Y.P(), 0, emu.I(0), 2))
	}
	if onCurve != nil {
		ed.VerifHookcurveassertIsOnCurve = func(_ *ed.VerifCurve, p ed.Point) { *onCurve = append(*onCurve, p) }
	}
}

func edCurve(x *X) ed.Curve {
	c, err := ed.VerifNewCurve(x.API)
	if err != nil {
		panic(err)
	}
	return c
}

func (x *X) curveEq(px, py *P) *P {
	xx, yy := x.mul(px, px), x.mul(py, py)
	return x.sub(x.sub(yy, xx), x.add(emu.I(1), x.mul(emu.Const(edD), x.mul(xx, yy))))
}

func checkD01(c *hk.Check) {
	c.Bound("all points on the curve (polynomial identities over GF(2^255-19)), all 254 bits of a native scalar and 255 bits of a scalar-field element, all messages, keys and signatures; native field BN254, 122-byte messages (the gadget's fixed size)")
	c.Stub("gnark's emulated field: exact field operations on polynomials; SHA-512 (property H02) supplies 512 arbitrary bits and records its message; in the scalar multiplications and Verify, point addition, doubling and negation are those of an abstract commutative group, which the add, double and neg cases of this check justify")
	c.OutOf("representations of coordinates and scalars that are not canonical (values below 19 represented as value+p), the limb-level encoding of emulated elements (gnark's own), native fields other than BN254")
	edPoints := func(n int) func(r *rand.Rand) []*big.Int {
		return func(r *rand.Rand) (out []*big.Int) {
			for i := 0; i < n; i++ {
				p := edRand(r)
				out = append(out, p.x, p.y)
			}
			return
		}
	}
	// constants
	polyCase(c, PC{Name: "params", Mod: edQ, Run: func(x *X, _ []*P) []*P {
		p := edCurve(x).Params()
		return []*P{emu.Mod(emu.Const(p.A), edQ), emu.Const(p.D), emu.Const(p.Base[0]), emu.Const(p.Base[1]), emu.Const(p.Order), emu.Const(p.Cofactor),
			emu.Mod(emu.Const(ed.Ed25519Fr{}.Modulus()), edQ), emu.Mod(emu.Const(new(big.Int).Sub(ed.Ed25519Fp{}.Modulus(), big.NewInt(1))), edQ)}
	}, Ref: func(x *X, _ []*P) []*P {
		return []*P{emu.Mod(emu.I(-1), edQ), emu.Const(edD), emu.Const(edB.x), emu.Const(edB.y), emu.Const(edL), emu.I(8), emu.Const(edL), emu.Mod(emu.I(-1), edQ)}
	}})
	// formulas: the quotients satisfy the unified addition law whenever the inputs are on the curve
	quot := func(name string, n int, run func(c ed.Curve, p []ed.Point) ed.Point) {
		pt := func(in []*P) []ed.Point {
			var ps []ed.Point
			for i := 0; i < n; i++ {
				ps = append(ps, edP(in[2*i], in[2*i+1]))
			}
			return ps
		}
		polyCase(c, PC{Name: name, In: 2 * n, Mod: edQ, Gen: edPoints(n),
			Run: func(x *X, in []*P) []*P {
				edResetHooks()
				r := run(edCurve(x), pt(in))
				a, b := in[:2], in[2*n-2:]
				t := x.mul(emu.Const(edD), x.mul(x.mul(a[0], b[0]), x.mul(a[1], b[1])))
				return []*P{x.mul(r.X.P(), x.add(emu.I(1), t)), x.mul(r.Y.P(), x.sub(emu.I(1), t))}
			},
			Ref: func(x *X, in []*P) []*P {
				a, b := in[:2], in[2*n-2:]
				return []*P{x.add(x.mul(a[0], b[1]), x.mul(a[1], b[0])), x.add(x.mul(a[1], b[1]), x.mul(a[0], b[0]))}
			},
			Gens: func(x *X, in []*P) (g []*P) {
				for i := 0; i < n; i++ {
					e := x.curveEq(in[2*i], in[2*i+1])
					g = append(g, e)
					for _, v := range x.quots() {
						g = append(g, x.mul(v, e))
					}
				}
				return
			}})
	}
	quot("add", 2, func(c ed.Curve, p []ed.Point) ed.Point { return c.Add(p[0], p[1]) })
	quot("double", 1, func(c ed.Curve, p []ed.Point) ed.Point { return c.Double(p[0]) })
	polyCase(c, PC{Name: "neg", In: 2, Mod: edQ, Gen: edPoints(1),
		Run: func(x *X, in []*P) []*P {
			edResetHooks()
			r := edCurve(x).Neg(edP(in[0], in[1]))
			return []*P{r.X.P(), r.Y.P()}
		},
		Ref: func(x *X, in []*P) []*P { return []*P{x.sub(emu.I(0), in[0]), in[1]} }})
	// assertions
	assertion := func(name string, run func(c ed.Curve, p ed.Point), want func(x *X, in []*P) []*P) {
		c.Case(name, func(k *hk.Case) {
			k.Poly(func() (bool, string) {
				x := newX(k, edQ)
				in := []*P{x.C.Var("x"), x.C.Var("y")}
				if _, err := locked(func() []*P { edResetHooks(); run(edCurve(x), edP(in[0], in[1])); return nil }); err != "" {
					return false, err
				}
				return x.sameIdeal(x.asserts(), want(x, in))
			})
		})
	}
	assertion("AssertIsOnCurve", func(c ed.Curve, p ed.Point) { c.AssertIsOnCurve(p) }, func(x *X, in []*P) []*P { return []*P{x.curveEq(in[0], in[1])} })
	assertion("AssertQ", func(c ed.Curve, p ed.Point) { c.AssertQ(p) }, func(x *X, in []*P) []*P { return []*P{in[0], x.sub(in[1], emu.I(1))} })

	// scalar multiplications: X and Y-1 are the scalar times those of the point
	polyCase(c, PC{Name: "scalarMul", In: 2, Bools: 254, Mod: edQ,
		Gen: func(r *rand.Rand) []*big.Int { return append(edPoints(1)(r), edBits(r, edNative, 254)...) },
		Run: func(x *X, in []*P) []*P {
			edResetHooks()
			if !x.C.Conc {
				edAbstract(x, nil)
			}
			x.known(edSum(in[2:]), in[2:])
			r := edCurve(x).ScalarMul(edP(in[0], in[1]), edSum(in[2:]))
			return []*P{r.X.P(), r.Y.P()}
		},
		Ref: func(x *X, in []*P) []*P {
			return x.edLin([]edTerm{{edSum(in[2:]), in[0], in[1]}})
		}})
	polyCase(c, PC{Name: "doubleBaseScalarMul", In: 4, Bools: 254 + 253, Mod: edQ,
		Gen: func(r *rand.Rand) []*big.Int {
			return append(append(edPoints(2)(r), edBits(r, edNative, 254)...), edBits(r, edL, 253)...)
		},
		Run: func(x *X, in []*P) []*P {
			edResetHooks()
			if !x.C.Conc {
				edAbstract(x, nil)
			}
			s, h := in[4:258], in[258:]
			x.known(edSum(s), s)
			x.knownM(edSum(h), h, edL)
			e := emu.Mk[ed.Ed25519Fr](edSum(h))
			r := edCurve(x).DoubleBaseScalarMul(edP(in[0], in[1]), edP(in[2], in[3]), edSum(s), &e)
			return []*P{r.X.P(), r.Y.P()}
		},
		Ref: func(x *X, in []*P) []*P {
			return x.edLin([]edTerm{{edSum(in[4:258]), in[0], in[1]}, {edSum(in[258:]), in[2], in[3]}})
		}})
	c.Case("Verify", func(k *hk.Case) { k.Poly(func() (bool, string) { return edVerify(k) }) })
}

// quots are the variables the run introduced after its inputs.
func (x *X) quots() (out []*P) {
	for i, v := range x.C.Vars {
		if v.Den != nil {
			out = append(out, x.C.VarAt(i))
		}
	}
	return
}

func edSum(bits []*P) *P {
	s := emu.I(0)
	for i, b := range bits {
		s = emu.Add(s, emu.Mul(emu.Const(new(big.Int).Lsh(big.NewInt(1), uint(i))), b, nil), nil)
	}
	return s
}

// known tells ToBinary the bits of a native value given by its bits.
func (x *X) known(p *P, bits []*P)             { x.knownM(p, bits, edNative) }
func (x *X) knownM(p *P, bits []*P, m *big.Int) { x.C.SetBits(p, bits, m) }

func edBits(r *rand.Rand, m *big.Int, n int) (out []*big.Int) {
	v := new(big.Int).Rand(r, m)
	for i := 0; i < n; i++ {
		out = append(out, big.NewInt(int64(v.Bit(i))))
	}
	return
}

type edTerm struct{ k, x, y *P }

// edLin is the sum of k times (x,y): in the abstract group, or on the curve in a concrete run.
func (x *X) edLin(ts []edTerm) []*P {
	if !x.C.Conc {
		rx, ry := emu.I(0), emu.I(1)
		for _, t := range ts {
			rx = x.add(rx, x.mul(t.k, t.x))
			ry = x.add(ry, x.mul(t.k, x.sub(t.y, emu.I(1))))
		}
		return []*P{rx, ry}
	}
	r := edPt{new(big.Int), big.NewInt(1)}
	for _, t := range ts {
		k, _ := t.k.IsConst()
		px, _ := t.x.IsConst()
		py, _ := t.y.IsConst()
		r = edAdd(r, edMul(k, edPt{px, py}))
	}
	return []*P{emu.Const(r.x), emu.Const(r.y)}
}

// ---- Verify ----

func beVar(bytes [][]*P) *P { // big-endian bytes, each given by its bits
	s := emu.I(0)
	for _, b := range bytes {
		s = emu.Add(emu.Mul(emu.I(256), s, nil), edSum(b), nil)
	}
	return s
}

func edVerify(k *hk.Case) (bool, string) {
	x := newX(k, edQ)
	v := func(n string) *P { return x.C.Var(n) }
	ax, ay, rx, ry, s := v("ax"), v("ay"), v("rx"), v("ry"), v("s")
	bytesOf := func(n int) (out [][]*P) {
		for i := 0; i < n; i++ {
			var b []*P
			for j := 0; j < 8; j++ {
				b = append(b, x.C.BoolVar(""))
			}
			out = append(out, b)
		}
		return
	}
	msg, pub, dig := bytesOf(122), bytesOf(32), bytesOf(64)
	var onCurve []ed.Point
	var hashed [][]frontend.Variable
	sha512stub.Hooks.Store(x.API, func(m []frontend.Variable) (out []frontend.Variable) {
		hashed = append(hashed, m)
		for _, b := range dig {
			out = append(out, edSum(b))
		}
		return
	})
	defer sha512stub.Hooks.Delete(x.API)
	_, perr := locked(func() []*P {
		edResetHooks()
		defer edResetHooks()
		edAbstract(x, &onCurve)
		edRun(x, beVar(pub[:16]), beVar(pub[16:]), msgVars(msg), edP(ax, ay), edP(rx, ry), s)
		return nil
	})
	bad := ""
	if perr != "" {
		bad = perr
	} else {
		enc := func(px, py *P) (out []*P) {
			yb := toP(x.C.ToBits(py, 255, edQ))
			xb := toP(x.C.ToBits(px, 255, edQ))
			yb = append(yb, xb[0])
			for i := 0; i < 32; i++ {
				out = append(out, edSum(yb[8*i:8*i+8]))
			}
			return
		}
		eR, eA := enc(rx, ry), enc(ax, ay)
		want := append(append([]*P{}, eR...), eA...)
		for _, b := range msg {
			want = append(want, edSum(b))
		}
		// the hashed message
		var pairs []emu.Eq
		if len(hashed) != 1 || len(hashed[0]) != len(want) {
			bad = "the hashed message is not R, A, M"
		} else {
			for i, w := range want {
				pairs = append(pairs, emu.Eq{L: emu.V(hashed[0][i]), R: w})
			}
			if k.Script("message", emu.Script(pairs, edNative)) != sym.Unsat {
				bad = "the hashed message is not R, A, M"
			}
		}
		// the equations over the native field: the bytes of A are the public ones
		var nat, grp, wantNat []*P
		for _, a := range x.C.Asserts {
			switch {
			case a.Def:
			case a.Mod.Cmp(edNative) == 0:
				nat = append(nat, emu.Sub(a.L, a.R, edNative))
			default:
				grp = append(grp, emu.Sub(a.L, a.R, edQ))
			}
		}
		for i := range pub {
			wantNat = append(wantNat, emu.Sub(eA[i], edSum(pub[i]), edNative))
		}
		xn := *x
		xn.Mod = edNative
		if !xn.ideal("key", nat, wantNat) {
			bad = "the key's bytes are not the public ones"
		}
		// the group equation
		h := emu.I(0)
		for i, b := range dig {
			h = emu.Add(h, emu.Mul(emu.Const(new(big.Int).Lsh(big.NewInt(1), uint(8*i))), edSum(b), edL), edL)
		}
		hb := edSum(toP(x.C.ToBits(h, 253, edL)))
		sb := edSum(toP(x.C.ToBits(s, 254, edNative)))
		eq := func(b *big.Int, a, r *P) *P {
			return x.mul(emu.I(8), x.sub(x.sub(x.mul(sb, emu.Const(b)), x.mul(hb, a)), r))
		}
		one := big.NewInt(1)
		if !x.ideal("equation", grp, []*P{eq(edB.x, ax, rx), eq(es(edB.y, one), x.sub(ay, emu.I(1)), x.sub(ry, emu.I(1)))}) {
			bad = "the asserted equation is not [8](SB - hA - R) = 0"
		}
		// A and R are on the curve
		for _, p := range [][3]any{{"A", ax, ay}, {"R", rx, ry}} {
			found := sym.Sat
			for _, q := range onCurve {
				if len(x.sub(q.X.P(), p[1].(*P)).M) > 0 || len(x.sub(q.Y.P(), p[2].(*P)).M) > 0 {
					continue
				}
				if k.Script("on-curve "+p[0].(string), emu.Script([]emu.Eq{{L: q.X.P(), R: p[1].(*P)}, {L: q.Y.P(), R: p[2].(*P)}}, edQ)) == sym.Unsat {
					found = sym.Unsat
					break
				}
			}
			if found != sym.Unsat { // the concrete runs below decide
				bad = p[0].(string) + " is not required to be on the curve"
			}
		}
	}
	ok, data, msgc := edConcrete(k)
	if !ok {
		k.Violation("outputs", "Verify: "+msgc, data)
		return true, ""
	}
	k.ReachOK("inputs", true)
	if bad != "" {
		return false, "not discharged, but no concrete counterexample: " + bad
	}
	return true, ""
}

func (x *X) ideal(label string, as, want []*P) bool {
	var pairs []emu.Eq
	ba, bw := newBasis(as, x.Mod), newBasis(want, x.Mod)
	for _, w := range want {
		pairs = append(pairs, emu.Eq{L: emu.Mod(w, x.Mod), R: ba.combo(w)})
	}
	for _, a := range as {
		pairs = append(pairs, emu.Eq{L: emu.Mod(a, x.Mod), R: bw.combo(a)})
	}
	return x.K.Script(label, emu.Script(pairs, x.Mod)) == sym.Unsat
}

func toP(vs []frontend.Variable) (out []*P) {
	for _, v := range vs {
		out = append(out, emu.V(v))
	}
	return
}

func msgVars(m [][]*P) (out [5]frontend.Variable) {
	for i := 0; i < 5; i++ {
		out[i] = beVar(m[25*i : min(122, 25*i+25)])
	}
	return
}

func edRun(x *X, pub0, pub1 *P, msg [5]frontend.Variable, a, r ed.Point, s *P) {
	e, err := ed.NewEd25519(x.API)
	if err == nil {
		err = e.Verify([]frontend.Variable{pub0, pub1}, ed.Signature{R: r, S: s}, msg, ed.PublicKey{A: a})
	}
	if err != nil {
		panic(err)
	}
}

// edConcrete runs Verify on valid and invalid signatures.
func edConcrete(k *hk.Case) (bool, map[string]any, string) {
	r := rand.New(rand.NewSource(7))
	type sigCase struct {
		name    string
		pub     []byte
		msg     []byte
		a, r    edPt
		s       *big.Int
		accepts bool
	}
	rev := func(b []byte) []byte {
		o := make([]byte, len(b))
		for i := range b {
			o[len(b)-1-i] = b[i]
		}
		return o
	}
	dec := func(b []byte) edPt {
		y := new(big.Int).SetBytes(rev(b))
		sg := y.Bit(255)
		y.SetBit(y, 255, 0)
		return edPt{edX(y, sg), y}
	}
	enc := func(p edPt) []byte {
		y := new(big.Int).Set(p.y)
		y.SetBit(y, 255, p.x.Bit(0))
		b := make([]byte, 32)
		y.FillBytes(b)
		return rev(b)
	}
	hram := func(rb, ab, m []byte) *big.Int {
		d := sha512.Sum512(append(append(append([]byte{}, rb...), ab...), m...))
		h := new(big.Int).SetBytes(rev(d[:]))
		return h.Mod(h, edL)
	}
	seed := make([]byte, 32)
	r.Read(seed)
	priv := ed25519.NewKeyFromSeed(seed)
	pub := []byte(priv.Public().(ed25519.PublicKey))
	msg := make([]byte, 122)
	r.Read(msg)
	sig := ed25519.Sign(priv, msg)
	base := sigCase{"valid", pub, msg, dec(pub), dec(sig[:32]), new(big.Int).SetBytes(rev(sig[32:])), true}
	cases := []sigCase{base}
	mut := func(name string, f func(c *sigCase)) {
		c := base
		c.pub, c.msg, c.name, c.accepts = append([]byte{}, pub...), append([]byte{}, msg...), name, false
		f(&c)
		cases = append(cases, c)
	}
	for i := 0; i < 32; i++ {
		i := i
		mut(fmt.Sprintf("public key byte %d changed", i), func(c *sigCase) { c.pub[i] ^= 1 << uint(i%8) })
	}
	for _, i := range []int{0, 24, 25, 60, 100, 121} {
		i := i
		mut(fmt.Sprintf("message byte %d changed", i), func(c *sigCase) { c.msg[i] ^= 0x10 })
	}
	mut("S changed", func(c *sigCase) { c.s = new(big.Int).Xor(c.s, big.NewInt(1)) })
	mut("high bit of S changed", func(c *sigCase) { c.s = new(big.Int).Xor(c.s, new(big.Int).Lsh(big.NewInt(1), 251)) })
	mut("R replaced", func(c *sigCase) { c.r = edAdd(c.r, edB) })
	mut("A negated", func(c *sigCase) { c.a = edNeg(c.a); c.pub = enc(c.a) })
	// a torsion component of R is accepted by the cofactored equation
	a, _ := new(big.Int).SetString(new(big.Int).SetBytes(seed).String(), 10)
	a.Mod(a, edL)
	var t8 edPt
	for {
		t8 = edMul(edL, edRand(r))
		if t4 := edMul(big.NewInt(4), t8); t4.x.Sign() != 0 || t4.y.Cmp(big.NewInt(1)) != 0 {
			break
		}
	}
	A := edMul(a, edB)
	nonce := new(big.Int).Rand(r, edL)
	R := edAdd(edMul(nonce, edB), t8)
	h := hram(enc(R), enc(A), msg)
	S := new(big.Int).Mod(new(big.Int).Add(nonce, new(big.Int).Mul(h, a)), edL)
	cases = append(cases, sigCase{"R with a component of order 8", enc(A), msg, A, R, S, true})
	// points off the curve: with x replaced by 0 or another value of the same parity, whatever S is
	off := func(name string, f func(c *sigCase)) { mut(name, f) }
	off("A off the curve", func(c *sigCase) { c.a.x = ea(c.a.x, big.NewInt(2)) })
	off("R off the curve", func(c *sigCase) { c.r.x = ea(c.r.x, big.NewInt(2)) })
	if c, ok := edForge(r, enc, hram, pub, msg); ok {
		cases = append(cases, sigCase{"forged with R off the curve", pub, msg, dec(pub), c.r, c.s, false})
	}
	for _, c := range cases {
		x := newX(k, edQ)
		x.C.Conc = true
		sha512stub.Hooks.Store(x.API, func(m []frontend.Variable) (out []frontend.Variable) {
			var b []byte
			for _, v := range m {
				t, ok := emu.V(v).IsConst()
				if !ok || t.BitLen() > 8 {
					panic("no byte")
				}
				b = append(b, byte(t.Uint64()))
			}
			d := sha512.Sum512(b)
			for _, y := range d {
				out = append(out, emu.I(int64(y)))
			}
			return
		})
		var mv [5]frontend.Variable
		for i := range mv {
			mv[i] = emu.Const(new(big.Int).SetBytes(c.msg[25*i : min(122, 25*i+25)]))
		}
		_, perr := locked(func() []*P {
			edResetHooks()
			edRun(x, emu.Const(new(big.Int).SetBytes(c.pub[:16])), emu.Const(new(big.Int).SetBytes(c.pub[16:])), mv, edC(c.a), edC(c.r), emu.Const(c.s))
			return nil
		})
		sha512stub.Hooks.Delete(x.API)
		acc := perr == "" && len(x.C.Fail) == 0
		for _, a := range x.C.Asserts {
			if d := emu.Sub(a.L, a.R, a.Mod); len(d.M) > 0 {
				acc = false
			}
		}
		if acc != c.accepts {
			return false, map[string]any{"case": c.name, "pub": fmt.Sprintf("%x", c.pub), "msg": fmt.Sprintf("%x", c.msg), "rx": c.r.x.String(), "ry": c.r.y.String(), "ax": c.a.x.String(), "ay": c.a.y.String(), "s": c.s.String(), "panic": perr},
				fmt.Sprintf("%s: accepted=%v, expected %v", c.name, acc, c.accepts)
		}
	}
	return true, nil, ""
}

// edForge looks for an R off the curve with the encoding that was hashed, for which the doubling formula ends in the
// neutral element whatever the key: -Q+R = (i t, t).
func edForge(r *rand.Rand, enc func(edPt) []byte, hram func(a, b, m []byte) *big.Int, pub, msg []byte) (struct {
	r edPt
	s *big.Int
}, bool) {
	var out struct {
		r edPt
		s *big.Int
	}
	i := new(big.Int).ModSqrt(es(new(big.Int), big.NewInt(1)), edQ)
	y := new(big.Int).SetBytes(func() []byte {
		o := make([]byte, 32)
		for j := range pub {
			o[31-j] = pub[j]
		}
		return o
	}())
	sg := y.Bit(255)
	y.SetBit(y, 255, 0)
	A := edPt{edX(y, sg), y}
	for try := 0; try < 40; try++ {
		ry, par := new(big.Int).Rand(r, edQ), uint(r.Intn(2))
		h := hram(enc(edPt{big.NewInt(int64(par)), ry}), pub, msg)
		s := new(big.Int).Rand(r, edL)
		q := edNeg(edAdd(edMul(s, edB), edNeg(edMul(h, A))))
		a, b := q.x, q.y
		k := em(edD, em(em(a, b), ry))
		c2 := es(new(big.Int), em(k, ea(b, em(i, a))))
		c1 := es(es(b, em(em(a, ry), k)), em(i, ea(a, em(em(b, ry), k))))
		c0 := em(ry, es(a, em(i, b)))
		disc := es(em(c1, c1), em(big.NewInt(4), em(c2, c0)))
		sq := new(big.Int).ModSqrt(disc, edQ)
		if sq == nil || c2.Sign() == 0 {
			continue
		}
		for _, t := range []*big.Int{sq, es(new(big.Int), sq)} {
			x := em(es(t, c1), ei(em(big.NewInt(2), c2)))
			if x.Bit(0) == par {
				out.r, out.s = edPt{x, ry}, s
				return out, true
			}
		}
	}
	return out, false
}
