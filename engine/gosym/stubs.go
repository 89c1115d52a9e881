//go:build go1.23

package gosym

import (
	"go/types"
	"math/big"
	"strings"

	"github.com/consensys/gnark-crypto/ecc"
	"verif/engine/sym"
	"verif/engine/xt/go/ssa"
)

func (m *M) stub(key string) func(*M, *CallCtx) []Out {
	if s := m.Stubs[key]; s != nil {
		return s
	}
	switch {
	case strings.HasPrefix(key, "fmt."):
		return func(m *M, c *CallCtx) []Out {
			var vs []Val
			for i := 0; i < c.Sig.Results().Len(); i++ {
				t := c.Sig.Results().At(i).Type()
				switch {
				case types.Identical(t, types.Universe.Lookup("error").Type()) && c.Fn.Name() == "Errorf":
					vs = append(vs, Iface{m.errT, Opaque{"fmt.Errorf"}})
				case isInt(t):
					vs = append(vs, m.B.I(0))
				case t.String() == "string":
					vs = append(vs, m.MkStr("text"))
				default:
					vs = append(vs, m.zero(t))
				}
			}
			return one(vs...)
		}
	case strings.HasPrefix(key, "github.com/celer-network/goutils/log."):
		return func(m *M, c *CallCtx) []Out {
			if strings.Contains(c.Fn.Name(), "Fatal") || strings.Contains(c.Fn.Name(), "Panic") {
				return panicOut(m, "log.Fatal")
			}
			return one()
		}
	}
	return nil
}

// ErrIface makes an error value.
func (m *M) ErrIface(what string) Iface { return Iface{m.errT, Opaque{what}} }

func (m *M) setBig(p Val, t *sym.Term) *Cell {
	c := p.(*Cell)
	if c == nil {
		fail("nil *big.Int receiver")
	}
	m.store(c, Big{t})
	return c
}

func (m *M) stdStubs() {
	b := m.B
	S := func(k string, f func(m *M, a []Val) []Out) {
		m.Stubs[k] = func(m *M, c *CallCtx) []Out { return f(m, c.Args) }
	}
	T := func(v Val) *sym.Term { return v.(*sym.Term) }
	S("internal/stringslite.Clone", func(m *M, a []Val) []Out { return one(a[0]) })
	S("(*strings.Builder).String", func(m *M, a []Val) []Out {
		c := a[0].(*Cell)
		buf := m.Field(c.T, m.load(c), "buf")
		if s, ok := buf.(Slice); !ok || s.Arr == nil {
			return one(Str{})
		}
		return one(Str{append([]*sym.Term{}, m.Bytes(buf)...)})
	})
	S("internal/bytealg.MakeNoZero", func(m *M, a []Val) []Out {
		n, ok := b.ConstVal(T(a[0]))
		if !ok {
			fail("MakeNoZero of symbolic length")
		}
		z := make([]*sym.Term, n.Int64())
		for i := range z {
			z[i] = b.I(0)
		}
		return one(m.MkBytes(z, 0))
	})
	S("(*strings.Builder).copyCheck", func(m *M, a []Val) []Out { return one() }) // a run-time guard against copying
	S("errors.New", func(m *M, a []Val) []Out {
		return one(Iface{m.errT, Opaque{"errors.New(" + m.constStr(a[0]) + ")"}})
	})
	S("(*math/big.Int).String", func(m *M, a []Val) []Out { return one(m.MkStr("text")) }) // only in messages; anything else would not reproduce
	S("math/big.NewInt", func(m *M, a []Val) []Out { return one(m.MkBig(T(a[0]))) })
	big1 := func(name string, f func(a []Val) *sym.Term) {
		S("(*math/big.Int)."+name, func(m *M, a []Val) []Out {
			if c, ok := a[0].(*Cell); !ok || c == nil {
				return panicOut(m, "nil pointer dereference")
			}
			for _, x := range a {
				if c, ok := x.(*Cell); ok && c == nil {
					return panicOut(m, "nil pointer dereference")
				}
			}
			return one(m.setBig(a[0], f(a)))
		})
	}
	bo := m.BigOf
	big1("Set", func(a []Val) *sym.Term { return bo(a[1]) })
	big1("SetUint64", func(a []Val) *sym.Term { return T(a[1]) })
	big1("SetInt64", func(a []Val) *sym.Term { return T(a[1]) })
	big1("Add", func(a []Val) *sym.Term { return b.Add(bo(a[1]), bo(a[2])) })
	big1("Sub", func(a []Val) *sym.Term { return b.Sub(bo(a[1]), bo(a[2])) })
	big1("Mul", func(a []Val) *sym.Term { return b.IMul(bo(a[1]), bo(a[2])) })
	big1("Neg", func(a []Val) *sym.Term { return b.Scale(bo(a[1]), big.NewInt(-1)) })
	big1("Lsh", func(a []Val) *sym.Term {
		k, ok := b.ConstVal(T(a[2]))
		if !ok {
			fail("big.Int.Lsh by a symbolic amount")
		}
		return b.Scale(bo(a[1]), b.Pow2(int(k.Int64())))
	})
	big1("Rsh", func(a []Val) *sym.Term {
		k, ok := b.ConstVal(T(a[2]))
		if !ok {
			fail("big.Int.Rsh by a symbolic amount")
		}
		return b.Div(bo(a[1]), b.Pow2(int(k.Int64())))
	})
	bw := func(name string, f func(x, y *sym.Term) *sym.Term) {
		big1(name, func(a []Val) *sym.Term {
			p, q := bo(a[1]), bo(a[2])
			if b.LoOf(p).Sign() < 0 || b.LoOf(q).Sign() < 0 {
				fail("big.Int.%s of a possibly negative number", name)
			}
			n := b.HiOf(p).BitLen()
			if l := b.HiOf(q).BitLen(); l > n {
				n = l
			}
			bits := make([]*sym.Term, n)
			for i := range bits {
				bits[i] = f(b.Bit(p, i), b.Bit(q, i))
			}
			return b.FromBits(bits)
		})
	}
	bw("And", func(x, y *sym.Term) *sym.Term { return b.And(x, y) })
	bw("Or", func(x, y *sym.Term) *sym.Term { return b.Or(x, y) })
	bw("Xor", func(x, y *sym.Term) *sym.Term { return b.Xor(x, y) })
	konst := func(v Val, what string) *big.Int {
		k, ok := b.ConstVal(bo(v))
		if !ok || k.Sign() <= 0 {
			fail("big.Int.%s by a value that is not a positive constant", what)
		}
		return k
	}
	mod := func(x *sym.Term, k *big.Int) *sym.Term {
		if int(k.TrailingZeroBits()) == k.BitLen()-1 {
			return b.Low(x, k.BitLen()-1)
		}
		return b.Mod(x, k)
	}
	big1("Mod", func(a []Val) *sym.Term { return mod(bo(a[1]), konst(a[2], "Mod")) })
	big1("Div", func(a []Val) *sym.Term { return b.Div(bo(a[1]), konst(a[2], "Div")) })
	trunc := func(x *sym.Term, k *big.Int) (*sym.Term, *sym.Term) {
		q, r, _ := m.quoRem(x, b.Const(k))
		return q, r
	}
	big1("Quo", func(a []Val) *sym.Term { q, _ := trunc(bo(a[1]), konst(a[2], "Quo")); return q })
	big1("Rem", func(a []Val) *sym.Term { _, r := trunc(bo(a[1]), konst(a[2], "Rem")); return r })
	two := func(name string, f func(x *sym.Term, k *big.Int) (*sym.Term, *sym.Term)) {
		S("(*math/big.Int)."+name, func(m *M, a []Val) []Out {
			q, r := f(bo(a[1]), konst(a[2], name))
			m.setBig(a[0], q)
			m.setBig(a[3], r)
			return one(a[0], a[3])
		})
	}
	two("DivMod", func(x *sym.Term, k *big.Int) (*sym.Term, *sym.Term) { return b.Div(x, k), mod(x, k) })
	two("QuoRem", trunc)
	big1("Abs", func(a []Val) *sym.Term {
		x := bo(a[1])
		return b.Ite(b.ILt(x, b.I(0)), b.Scale(x, big.NewInt(-1)), x)
	})
	S("(*math/big.Int).SetBytes", func(m *M, a []Val) []Out {
		if l, ok := a[1].(Lazy); ok {
			return one(m.setBig(a[0], l.N))
		}
		return one(m.setBig(a[0], m.be(m.Bytes(a[1]))))
	})
	S("(*math/big.Int).SetBit", func(m *M, a []Val) []Out {
		x := bo(a[1])
		k, ok := b.ConstVal(T(a[2]))
		if !ok || b.LoOf(x).Sign() < 0 {
			fail("big.Int.SetBit")
		}
		i := int(k.Int64())
		old := b.Bit(x, i)
		nw := b.Not(b.IEq(T(a[3]), b.I(0)))
		d := b.Sub(b.Ite(nw, b.I(1), b.I(0)), b.Ite(old, b.I(1), b.I(0)))
		return one(m.setBig(a[0], b.Add(x, b.Scale(d, b.Pow2(i)))))
	})
	S("(*math/big.Int).Bit", func(m *M, a []Val) []Out {
		k, ok := b.ConstVal(T(a[1]))
		if !ok {
			fail("big.Int.Bit of a symbolic index")
		}
		return one(b.Ite(b.Bit(bo(a[0]), int(k.Int64())), b.I(1), b.I(0)))
	})
	nonneg := func(x *sym.Term, what string) *sym.Term {
		if b.LoOf(x).Sign() < 0 {
			if m.decide(b.ILt(x, b.I(0))) != 0 {
				x = b.Ite(b.ILt(x, b.I(0)), b.Scale(x, big.NewInt(-1)), x)
			} else {
				x = b.Ite(b.ILt(x, b.I(0)), b.I(0), x)
			}
		}
		if b.LoOf(x).Sign() < 0 {
			// interval too coarse: |x| < 2^w, so its low w bits are its value
			x = b.Low(x, b.HiOf(x).BitLen())
		}
		return x
	}
	S("(*math/big.Int).Bytes", func(m *M, a []Val) []Out {
		if c, ok := a[0].(*Cell); !ok || c == nil {
			return panicOut(m, "nil pointer dereference")
		}
		x := nonneg(bo(a[0]), "Bytes")
		if k, ok := b.ConstVal(x); ok {
			var ts []*sym.Term
			for _, c := range k.Bytes() {
				ts = append(ts, b.I(int64(c)))
			}
			return one(m.MkBytes(ts, 0))
		}
		return one(Lazy{x, (b.HiOf(x).BitLen() + 7) / 8})
	})
	S("(*math/big.Int).FillBytes", func(m *M, a []Val) []Out {
		x := nonneg(bo(a[0]), "FillBytes")
		s := a[1].(Slice)
		for i, t := range m.beBytes(x, s.Len) {
			m.store(m.kid(s.Arr, s.Off+i), t)
		}
		return m.boolOuts(b.ILe(b.Const(b.Pow2(8*s.Len)), x), "FillBytes: does not fit", s)
	})
	S("(*math/big.Int).BitLen", func(m *M, a []Val) []Out {
		if c, ok := a[0].(*Cell); !ok || c == nil {
			return panicOut(m, "nil pointer dereference")
		}
		return one(m.lenTerm(nonneg(bo(a[0]), "BitLen"), 1))
	})
	S("(*math/big.Int).Sign", func(m *M, a []Val) []Out {
		x := bo(a[0])
		return one(b.Ite(b.ILt(x, b.I(0)), b.I(-1), b.Ite(b.IEq(x, b.I(0)), b.I(0), b.I(1))))
	})
	cmp := func(x, y *sym.Term) *sym.Term {
		return b.Ite(b.ILt(x, y), b.I(-1), b.Ite(b.IEq(x, y), b.I(0), b.I(1)))
	}
	S("(*math/big.Int).Cmp", func(m *M, a []Val) []Out { return one(cmp(bo(a[0]), bo(a[1]))) })
	S("(*math/big.Int).CmpAbs", func(m *M, a []Val) []Out {
		return one(cmp(nonneg(bo(a[0]), "CmpAbs"), nonneg(bo(a[1]), "CmpAbs")))
	})
	low := func(x *sym.Term) *sym.Term { // low 64 bits of |x|
		return m.WrapW(nonneg(x, "Uint64"), 64, false)
	}
	S("(*math/big.Int).Uint64", func(m *M, a []Val) []Out {
		x := bo(a[0])
		if b.LoOf(x).Sign() < 0 { // two's complement of the low word
			return one(b.Low(x, 64))
		}
		return one(low(x))
	})
	S("(*math/big.Int).Int64", func(m *M, a []Val) []Out { return one(m.WrapW(bo(a[0]), 64, true)) })
	S("(*math/big.Int).IsUint64", func(m *M, a []Val) []Out {
		x := bo(a[0])
		return one(b.And(b.ILe(b.I(0), x), b.ILt(x, b.Const(b.Pow2(64)))))
	})
	S("(*math/big.Int).IsInt64", func(m *M, a []Val) []Out {
		x := bo(a[0])
		h := b.Pow2(63)
		return one(b.And(b.ILe(b.Const(new(big.Int).Neg(h)), x), b.ILt(x, b.Const(h))))
	})
	S("(*math/big.Int).SetString", func(m *M, a []Val) []Out {
		s := a[1].(Str)
		base, ok := b.ConstVal(T(a[2]))
		if !ok {
			fail("big.Int.SetString with a symbolic base")
		}
		if allConst(b, s) {
			z, ok := new(big.Int).SetString(m.constStr(s), int(base.Int64()))
			if !ok {
				return one((*Cell)(nil), b.F)
			}
			return one(m.setBig(a[0], b.Const(z)), b.T)
		}
		bs := int(base.Int64())
		neg := false
		if len(s.B) > 1 {
			if k, ok := b.ConstVal(s.B[0]); ok && (k.Int64() == '-' || k.Int64() == '+') {
				neg = k.Int64() == '-'
				s = Str{s.B[1:]}
			}
		}
		if bs == 0 && len(s.B) > 1 { // the base is written in front
			bs = 10
			z := m.decide(b.IEq(s.B[0], b.I('0')))
			if z < 0 {
				fail("big.Int.SetString in base 0 of text that may or may not start with 0")
			}
			if z == 1 {
				x, ok := b.ConstVal(s.B[1])
				if !ok || x.Int64() != 'x' && x.Int64() != 'X' {
					fail("big.Int.SetString in base 0 of an octal or binary number")
				}
				bs, s = 16, Str{s.B[2:]}
			}
		} else if bs == 0 {
			bs = 10
		}
		if bs != 10 && bs != 16 {
			fail("big.Int.SetString of symbolic text in base %d", bs)
		}
		if len(s.B) == 0 {
			return one((*Cell)(nil), b.F)
		}
		v := b.I(0)
		for _, c := range s.B {
			// digits only; signs and anything else are outside the model
			dec := b.And(b.ILe(b.I('0'), c), b.ILe(c, b.I('9')))
			dig := b.AddK(c, -'0')
			okc := dec
			if bs == 16 {
				lo := b.And(b.ILe(b.I('a'), c), b.ILe(c, b.I('f')))
				up := b.And(b.ILe(b.I('A'), c), b.ILe(c, b.I('F')))
				dig = b.Ite(dec, dig, b.Ite(lo, b.AddK(c, 10-'a'), b.AddK(c, 10-'A')))
				okc = b.Or(dec, lo, up)
			}
			if m.decide(okc) != 1 {
				fail("big.Int.SetString of text that may hold something other than digits")
			}
			d := b.Ite(b.And(b.ILe(b.I(0), dig), b.ILt(dig, b.I(int64(bs)))), dig, b.I(0))
			v = b.Add(b.Scale(v, big.NewInt(int64(bs))), d)
		}
		if neg {
			v = b.Scale(v, big.NewInt(-1))
		}
		return one(m.setBig(a[0], v), b.T)
	})
	S("(github.com/consensys/gnark-crypto/ecc.ID).ScalarField", func(m *M, a []Val) []Out {
		k, ok := b.ConstVal(T(a[0]))
		if !ok {
			fail("symbolic curve")
		}
		return one(m.MkBig(b.Const(ecc.ID(k.Int64()).ScalarField())))
	})
	S("math/bits.Mul64", func(m *M, a []Val) []Out {
		p := b.IMul(T(a[0]), T(a[1]))
		return one(b.Div(p, b.Pow2(64)), b.Low(p, 64))
	})
	S("math/bits.Add64", func(m *M, a []Val) []Out {
		p := b.Sum(T(a[0]), T(a[1]), T(a[2]))
		return one(b.Low(p, 64), b.Div(p, b.Pow2(64)))
	})
	S("math/bits.Sub64", func(m *M, a []Val) []Out {
		p := b.Sub(b.Sub(T(a[0]), T(a[1])), T(a[2]))
		return one(b.Low(p, 64), b.Ite(b.ILt(p, b.I(0)), b.I(1), b.I(0)))
	})
	S("crypto/subtle.ConstantTimeCompare", func(m *M, a []Val) []Out {
		x, y := m.Bytes(a[0]), m.Bytes(a[1])
		if len(x) != len(y) {
			return one(b.I(0))
		}
		return one(b.Ite(m.eq(Str{x}, Str{y}), b.I(1), b.I(0)))
	})
	S("bytes.Equal", func(m *M, a []Val) []Out { return one(m.eq(Str{m.Bytes(a[0])}, Str{m.Bytes(a[1])})) })
	S("bytes.Repeat", func(m *M, a []Val) []Out {
		k, ok := b.ConstVal(T(a[1]))
		if !ok {
			fail("bytes.Repeat with a symbolic count")
		}
		if k.Sign() < 0 {
			return panicOut(m, "negative Repeat count")
		}
		var r []*sym.Term
		for i := 0; i < int(k.Int64()); i++ {
			r = append(r, m.Bytes(a[0])...)
		}
		return one(m.MkBytes(r, 0))
	})
	S("bytes.Clone", func(m *M, a []Val) []Out { return one(m.MkBytes(append([]*sym.Term{}, m.Bytes(a[0])...), 0)) })
	S("strings.Repeat", func(m *M, a []Val) []Out {
		k, ok := b.ConstVal(T(a[1]))
		if !ok {
			fail("strings.Repeat with a symbolic count")
		}
		if k.Sign() < 0 {
			return panicOut(m, "negative Repeat count")
		}
		var r []*sym.Term
		for i := 0; i < int(k.Int64()); i++ {
			r = append(r, a[0].(Str).B...)
		}
		return one(Str{r})
	})
	prefix := func(a []Val) *sym.Term {
		x, y := a[0].(Str), a[1].(Str)
		if len(y.B) > len(x.B) {
			return b.F
		}
		return m.eq(Str{x.B[:len(y.B)]}, y)
	}
	S("strings.HasPrefix", func(m *M, a []Val) []Out { return one(prefix(a)) })
	S("strings.HasSuffix", func(m *M, a []Val) []Out {
		x, y := a[0].(Str), a[1].(Str)
		if len(y.B) > len(x.B) {
			return one(b.F)
		}
		return one(m.eq(Str{x.B[len(x.B)-len(y.B):]}, y))
	})
	S("strings.TrimPrefix", func(m *M, a []Val) []Out {
		x, y := a[0].(Str), a[1].(Str)
		c := prefix(a)
		switch m.decide(c) {
		case 0:
			return one(x)
		case 1:
			return one(Str{x.B[len(y.B):]})
		}
		return []Out{{Cond: c, Vals: []Val{Str{x.B[len(y.B):]}}}, {Cond: b.Not(c), Vals: []Val{x}}}
	})
	lower := func(up bool) func(m *M, a []Val) []Out {
		return func(m *M, a []Val) []Out {
			var r []*sym.Term
			for _, c := range a[0].(Str).B {
				if m.decide(b.ILt(c, b.I(128))) != 1 {
					fail("case conversion of non-ASCII text")
				}
				if up {
					r = append(r, b.Ite(b.And(b.ILe(b.I('a'), c), b.ILe(c, b.I('z'))), b.AddK(c, -32), c))
				} else {
					r = append(r, b.Ite(b.And(b.ILe(b.I('A'), c), b.ILe(c, b.I('Z'))), b.AddK(c, 32), c))
				}
			}
			return one(Str{r})
		}
	}
	S("strings.ToLower", lower(false))
	S("strings.ToUpper", lower(true))
}

func allConst(b *sym.B, s Str) bool {
	for _, t := range s.B {
		if _, ok := b.ConstVal(t); !ok {
			return false
		}
	}
	return true
}

func (m *M) constStr(v Val) string {
	s, ok := v.(Str)
	if !ok {
		return "?"
	}
	var r []byte
	for _, t := range s.B {
		k, ok := m.B.ConstVal(t)
		if !ok {
			return "?"
		}
		r = append(r, byte(k.Int64()))
	}
	return string(r)
}

// SetBig stores an integer in a *big.Int and returns it, for models of functions that do so.
func (m *M) SetBig(p Val, t *sym.Term) []Out { return one(m.setBig(p, t)) }

// Ret makes a model's normal outcome.
func (m *M) Ret(v ...Val) []Out { return one(v...) }

// Fail gives up on the encoding.
func (m *M) Fail(f string, a ...any) { fail(f, a...) }

// Field reads a field of a struct value.
func (m *M) Field(t types.Type, v Val, name string) Val {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return v.(Agg)[i]
		}
	}
	fail("no field %s", name)
	return nil
}

// PtrTo is the pointer type.
func PtrTo(t types.Type) types.Type { return types.NewPointer(t) }

// Store writes through a pointer.
func (m *M) Store(c *Cell, v Val) { m.store(c, v) }

// Invoke calls a method from inside a model and keeps its effects; it must have a single outcome.
func (m *M) Invoke(recv Iface, method string, args ...Val) []Val {
	fn := m.P.SSA.LookupMethod(recv.T, nil, method)
	if fn == nil {
		fail("no method %s on %s", method, recv.T)
	}
	outs := m.call(&Func{Fn: fn}, append([]Val{recv.V}, args...))
	if len(outs) != 1 || outs[0].Panic {
		fail("%s has several outcomes inside a model", method)
	}
	m.apply(outs[0].d)
	return outs[0].Vals
}

// CallFn calls a function from inside a setup or model and keeps its effects; it must have a single outcome.
func (m *M) CallFn(fn *ssa.Function, args ...Val) []Val {
	outs := m.call(&Func{Fn: fn}, args)
	if len(outs) != 1 || outs[0].Panic {
		fail("%s has several outcomes inside a model", fn)
	}
	m.apply(outs[0].d)
	return outs[0].Vals
}

// Decide: 1 when c holds, 0 when it cannot, -1 when both are possible.
func (m *M) Decide(c *sym.Term) int { return m.decide(c) }
