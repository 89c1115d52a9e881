package emu

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
	"verif/engine/sym"
)

type FieldParams = emulated.FieldParams
type (
	Goldilocks  = emulated.Goldilocks
	Secp256k1Fp = emulated.Secp256k1Fp
	Secp256k1Fr = emulated.Secp256k1Fr
	BN254Fp     = emulated.BN254Fp
	BN254Fr     = emulated.BN254Fr
	BLS12377Fp  = emulated.BLS12377Fp
	BLS12377Fr  = emulated.BLS12377Fr
	BLS12381Fp  = emulated.BLS12381Fp
	BLS12381Fr  = emulated.BLS12381Fr
	BW6761Fp    = emulated.BW6761Fp
	BW6761Fr    = emulated.BW6761Fr
)

type Element[T FieldParams] struct {
	Limbs []frontend.Variable
	V     *P
}

func (e *Element[T]) P() *P {
	if e.V == nil {
		return I(0)
	}
	return e.V
}

func Mk[T FieldParams](p *P) Element[T] { return Element[T]{V: p} }

// ValueOf uses gnark's own conversion of constants.
func ValueOf[T FieldParams](c interface{}) Element[T] {
	var fp T
	el := emulated.ValueOf[T](c)
	v := new(big.Int)
	for i := len(el.Limbs) - 1; i >= 0; i-- {
		v.Lsh(v, fp.BitsPerLimb())
		switch l := el.Limbs[i].(type) {
		case *big.Int:
			v.Add(v, l)
		case big.Int:
			v.Add(v, &l)
		default:
			panic(fmt.Sprintf("limb %T", l))
		}
	}
	return Element[T]{V: Const(v.Mod(v, fp.Modulus()))}
}

type Field[T FieldParams] struct {
	C   *Ctx
	Mod *big.Int
}

type HasCtx interface{ EmuCtx() *Ctx }

func NewField[T FieldParams](api frontend.API) (*Field[T], error) {
	var fp T
	h, ok := api.(HasCtx)
	if !ok {
		panic("emu.NewField: not an emu API")
	}
	return &Field[T]{C: h.EmuCtx(), Mod: fp.Modulus()}, nil
}

func (f *Field[T]) mk(p *P) *Element[T] {
	sym.SampleStack()
	if f.C.MaxMon > 0 && len(p.M) > f.C.MaxMon {
		panic("polynomial too large")
	}
	return &Element[T]{V: p}
}

func (f *Field[T]) Zero() *Element[T] { return f.mk(I(0)) }
func (f *Field[T]) One() *Element[T]  { return f.mk(I(1)) }
func (f *Field[T]) NewElement(v interface{}) *Element[T] {
	if e, ok := v.(Element[T]); ok {
		return &e
	}
	if e, ok := v.(*Element[T]); ok {
		return e
	}
	e := ValueOf[T](v)
	return &e
}
func (f *Field[T]) Add(a, b *Element[T]) *Element[T]    { return f.mk(Add(a.P(), b.P(), f.Mod)) }
func (f *Field[T]) Sub(a, b *Element[T]) *Element[T]    { return f.mk(Sub(a.P(), b.P(), f.Mod)) }
func (f *Field[T]) Neg(a *Element[T]) *Element[T]       { return f.mk(Sub(I(0), a.P(), f.Mod)) }
func (f *Field[T]) Mul(a, b *Element[T]) *Element[T]    { return f.mk(f.C.AMul(a.P(), b.P(), f.Mod)) }
func (f *Field[T]) MulMod(a, b *Element[T]) *Element[T] { return f.Mul(a, b) }
func (f *Field[T]) MulConst(a *Element[T], c *big.Int) *Element[T] {
	return f.mk(Mul(a.P(), Const(red(c, f.Mod)), f.Mod))
}
func (f *Field[T]) Reduce(a *Element[T]) *Element[T]                    { return f.mk(a.P()) }
func (f *Field[T]) ReduceWithoutConstantCheck(a *Element[T]) *Element[T] { return f.mk(a.P()) }
func (f *Field[T]) AssertIsInRange(a *Element[T])                       {}
func (f *Field[T]) AssertIsEqual(a, b *Element[T]) {
	sym.SampleStack()
	f.C.Asserts = append(f.C.Asserts, Eq{L: a.P(), R: b.P(), Mod: f.Mod})
}

// Quot introduces q with q*den == num.
func (c *Ctx) Quot(num, den *P, m *big.Int) *P {
	if d, ok := den.IsConst(); ok {
		inv := new(big.Int).ModInverse(d, m)
		if inv == nil {
			c.Fail = append(c.Fail, "division by zero")
			inv = new(big.Int)
		}
		return Mul(num, Const(inv), m)
	}
	q := c.newVar(VarDef{Name: fmt.Sprintf("q%d", len(c.Vars)), Num: num, Den: den, Mod: m})
	c.Asserts = append(c.Asserts, Eq{L: Mul(q, den, m), R: num, Mod: m})
	return q
}
func (f *Field[T]) Div(a, b *Element[T]) *Element[T]  { return f.mk(f.C.Quot(a.P(), b.P(), f.Mod)) }
func (f *Field[T]) Inverse(a *Element[T]) *Element[T] { return f.mk(f.C.Quot(I(1), a.P(), f.Mod)) }

func (f *Field[T]) Select(s frontend.Variable, a, b *Element[T]) *Element[T] {
	d := Sub(a.P(), b.P(), f.Mod)
	return f.mk(Add(b.P(), Mul(V(s), d, f.Mod), f.Mod))
}

// Lookup2: b0 is the low bit: 00 a, b0 only b, b1 only c, both d.
func (f *Field[T]) Lookup2(b0, b1 frontend.Variable, a, b, c, d *Element[T]) *Element[T] {
	return f.Select(b1, f.Select(b0, d, c), f.Select(b0, b, a))
}

func (f *Field[T]) ToBits(a *Element[T]) []frontend.Variable {
	var fp T
	bs := f.C.toBits(a.P(), f.Mod.BitLen(), f.Mod)
	for uint(len(bs)) < fp.NbLimbs()*fp.BitsPerLimb() {
		bs = append(bs, I(0))
	}
	return bs
}

// knownBits returns the bits of a polynomial that is a sum of 2^i times 0/1 variables or constants, if it fits in n bits.
func (c *Ctx) knownBits(p *P, n int, m *big.Int) []*P {
	if new(big.Int).Lsh(big.NewInt(1), uint(n)).Cmp(m) > 0 {
		return nil
	}
	bs := make([]*P, n)
	for k, v := range p.M {
		i := v.BitLen() - 1
		if len(k) != 4 || k[3]&1 == 0 || v.Sign() <= 0 || i >= n || v.TrailingZeroBits() != uint(i) || bs[i] != nil {
			return nil
		}
		bs[i] = &P{M: map[string]*big.Int{k: big.NewInt(1)}}
	}
	for i := range bs {
		if bs[i] == nil {
			bs[i] = I(0)
		}
	}
	return bs
}

// toBits introduces the bits of a value (their recomposition is what defines them).
func (c *Ctx) toBits(p *P, n int, m *big.Int) []frontend.Variable {
	key := fmt.Sprintf("%s|%d|%v", p.Key(), n, m)
	bs, ok := c.Bits[key]
	if _, isc := p.IsConst(); !ok && !isc {
		if bs = c.knownBits(p, n, m); bs != nil {
			ok = true
		}
	}
	if !ok {
		sum := I(0)
		for i := 0; i < n; i++ {
			i := i
			var b *P
			if v, ok := p.IsConst(); ok {
				b = I(int64(red(v, m).Bit(i)))
			} else {
				b = c.newVar(VarDef{Name: fmt.Sprintf("bit%d", i), Bool: true, Val: func(ev func(*P) *big.Int) *big.Int {
					return big.NewInt(int64(red(ev(p), m).Bit(i)))
				}})
			}
			bs = append(bs, b)
			sum = Add(sum, Mul(Const(new(big.Int).Lsh(big.NewInt(1), uint(i))), b, nil), nil)
		}
		c.Bits[key] = bs
		c.Asserts = append(c.Asserts, Eq{L: sum, R: p, Mod: m, Def: true})
	}
	out := make([]frontend.Variable, n)
	for i := range out {
		out[i] = bs[i]
	}
	return out
}

func (f *Field[T]) FromBits(bs ...frontend.Variable) *Element[T] {
	s := I(0)
	for i, b := range bs {
		s = Add(s, Mul(Const(new(big.Int).Lsh(big.NewInt(1), uint(i))), V(b), f.Mod), f.Mod)
	}
	return f.mk(s)
}
func (f *Field[T]) FromBitsOverflow(bs ...frontend.Variable) *Element[T] { return f.FromBits(bs...) }
func (f *Field[T]) NewInternalElement(limbs []frontend.Variable, overflow uint) *Element[T] {
	var fp T
	s := I(0)
	for i, b := range limbs {
		s = Add(s, Mul(Const(new(big.Int).Lsh(big.NewInt(1), uint(i)*fp.BitsPerLimb())), V(b), f.Mod), f.Mod)
	}
	return f.mk(s)
}

// V converts a frontend.Variable of an emu run.
func V(v frontend.Variable) *P {
	switch x := v.(type) {
	case *P:
		return x
	case int:
		return I(int64(x))
	case uint8:
		return I(int64(x))
	case int64:
		return I(x)
	case uint64:
		return Const(new(big.Int).SetUint64(x))
	case *big.Int:
		return Const(x)
	case big.Int:
		return Const(&x)
	}
	panic(fmt.Sprintf("emu.V: %T", v))
}

// API is the frontend of an emu run; only what the selectors need.
type API struct {
	frontend.API
	C *Ctx
}

var native, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

func (a *API) EmuCtx() *Ctx { return a.C }
func (a *API) Add(x, y frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := Add(V(x), V(y), nil)
	for _, z := range in {
		r = Add(r, V(z), nil)
	}
	return r
}
func (a *API) Sub(x, y frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := Sub(V(x), V(y), nil)
	for _, z := range in {
		r = Sub(r, V(z), nil)
	}
	return r
}
func (a *API) Mul(x, y frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := Mul(V(x), V(y), nil)
	for _, z := range in {
		r = Mul(r, V(z), nil)
	}
	return r
}
func (a *API) And(x, y frontend.Variable) frontend.Variable { return Mul(V(x), V(y), nil) }
func (a *API) Or(x, y frontend.Variable) frontend.Variable {
	return Sub(Add(V(x), V(y), nil), Mul(V(x), V(y), nil), nil)
}
func (a *API) Xor(x, y frontend.Variable) frontend.Variable {
	return Lin(1, Add(V(x), V(y), nil), -2, Mul(V(x), V(y), nil), nil)
}
func (a *API) Select(s, x, y frontend.Variable) frontend.Variable {
	return Add(V(y), Mul(V(s), Sub(V(x), V(y), nil), nil), nil)
}
func (a *API) ToBinary(x frontend.Variable, n ...int) []frontend.Variable {
	k := native.BitLen()
	if len(n) > 0 {
		k = n[0]
	}
	return a.C.toBits(V(x), k, native)
}
func (a *API) FromBinary(bs ...frontend.Variable) frontend.Variable {
	s := I(0)
	for i, b := range bs {
		s = Add(s, Mul(Const(new(big.Int).Lsh(big.NewInt(1), uint(i))), V(b), nil), nil)
	}
	return s
}
func (a *API) AssertIsEqual(x, y frontend.Variable) {
	a.C.Asserts = append(a.C.Asserts, Eq{L: V(x), R: V(y), Mod: native})
}
func (a *API) AssertIsBoolean(x frontend.Variable) {}
