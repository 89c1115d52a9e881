package sym

import (
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
)

// API implements frontend.API and frontend.Compiler over symbolic terms.
type API struct {
	*B
	Cons       []*Term // constraints recorded by assertions, in order
	Hints      []*HintRec
	FreshHints bool // treat the outputs of the standard library's bit-decomposition hint as unconstrained too
	groups     []*bitGroup
	deferred   []func(frontend.API) error
	kv         map[any]any
	Ops        map[string]int
	// HintHook lets a harness give hint outputs an interpretation (default: fresh unconstrained field elements).
	HintHook func(name string, nb int, in []*Term) []*Term
	// Narrow gives widths of fresh hint outputs (by order of creation) that an earlier, identical run recorded in
	// Narrowed because an unconditional range constraint forces them.
	Narrow, Narrowed map[int]int
	seq              map[*Term]int
}

type HintRec struct {
	Name string
	In   []*Term
	Out  []*Term
	F    solver.Hint
}

type bitGroup struct {
	v     *Term
	bits  []*Term
	bools []bool
	eq    bool
	cst   bool
	n     int
}

func NewAPI(b *B) *API {
	return &API{B: b, kv: map[any]any{}, Ops: map[string]int{}, Narrowed: map[int]int{}, seq: map[*Term]int{}}
}

var _ frontend.API = (*API)(nil)
var _ frontend.Compiler = (*API)(nil)

// T converts a frontend.Variable to a term.
func (a *API) T(v frontend.Variable) *Term {
	switch x := v.(type) {
	case *Term:
		if x == nil {
			panic("wire: nil wire")
		}
		return x
	case nil:
		panic("wire: nil variable")
	}
	k := FromInterface(v)
	k.Mod(k, a.P)
	if k.Cmp(a.HalfP) > 0 {
		k.Sub(k, a.P)
	}
	if k.Sign() == 0 {
		return a.F
	}
	if k.Cmp(big1) == 0 {
		return a.B.T
	}
	return a.Const(k)
}

// FromInterface converts constants the way gnark does.
func FromInterface(input interface{}) *big.Int {
	switch v := input.(type) {
	case big.Int:
		return new(big.Int).Set(&v)
	case *big.Int:
		return new(big.Int).Set(v)
	case uint8:
		return new(big.Int).SetUint64(uint64(v))
	case uint16:
		return new(big.Int).SetUint64(uint64(v))
	case uint32:
		return new(big.Int).SetUint64(uint64(v))
	case uint64:
		return new(big.Int).SetUint64(v)
	case uint:
		return new(big.Int).SetUint64(uint64(v))
	case int8:
		return big.NewInt(int64(v))
	case int16:
		return big.NewInt(int64(v))
	case int32:
		return big.NewInt(int64(v))
	case int64:
		return big.NewInt(v)
	case int:
		return big.NewInt(int64(v))
	case string:
		r, ok := new(big.Int).SetString(v, 0)
		if !ok {
			panic("wire: bad constant string " + v)
		}
		return r
	case []byte:
		return new(big.Int).SetBytes(v)
	case bool:
		if v {
			return big.NewInt(1)
		}
		return big.NewInt(0)
	}
	if reflect.ValueOf(input).Kind() == reflect.Ptr {
		rv := reflect.ValueOf(input).Elem()
		if rv.CanInterface() {
			if r, ok := rv.Addr().Interface().(interface{ BigInt(*big.Int) *big.Int }); ok {
				return r.BigInt(new(big.Int))
			}
			return FromInterface(rv.Interface())
		}
	}
	rv := reflect.New(reflect.TypeOf(input))
	rv.Elem().Set(reflect.ValueOf(input))
	if r, ok := rv.Interface().(interface{ BigInt(*big.Int) *big.Int }); ok {
		return r.BigInt(new(big.Int))
	}
	switch rv.Elem().Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return big.NewInt(rv.Elem().Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return new(big.Int).SetUint64(rv.Elem().Uint())
	}
	panic(fmt.Sprintf("wire: cannot convert %T to a field element", input))
}

// Terms converts a slice.
func (a *API) Terms(vs []frontend.Variable) []*Term {
	out := make([]*Term, len(vs))
	for i, v := range vs {
		out[i] = a.T(v)
	}
	return out
}

// Vars converts terms to wires.
func Vars(ts []*Term) []frontend.Variable {
	out := make([]frontend.Variable, len(ts))
	for i, t := range ts {
		out[i] = t
	}
	return out
}

func (a *API) op(s string) { a.Ops[s]++; SampleStack() }

// norm keeps coefficients and intervals in a reasonable range.
func (a *API) norm(t *Term) *Term {
	if t.Op == OLin {
		big := false
		for _, c := range t.Cs {
			if c.CmpAbs(a.HalfP) > 0 {
				big = true
				break
			}
		}
		if t.K.CmpAbs(a.HalfP) > 0 {
			big = true
		}
		if big {
			ac := a.newAcc()
			for i, x := range t.Args {
				ac.add(x, a.symm(t.Cs[i]))
			}
			ac.ks.Add(ac.ks, a.symm(t.K))
			t = ac.done()
		}
	}
	if a.width(t) > 300 && !(t.Op == OLin && len(t.Args) <= 2 && a.width(t) < 2*a.P.BitLen()+8) {
		return a.Mod(t, a.P)
	}
	return t
}

func (a *API) symm(c *big.Int) *big.Int {
	if c.CmpAbs(a.HalfP) <= 0 {
		return c
	}
	r := new(big.Int).Mod(c, a.P)
	if r.Cmp(a.HalfP) > 0 {
		r.Sub(r, a.P)
	}
	return r
}

func (a *API) Add(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	a.op("Add")
	ac := a.newAcc()
	ac.add(a.T(i1), big1)
	ac.add(a.T(i2), big1)
	for _, x := range in {
		ac.add(a.T(x), big1)
	}
	return a.norm(ac.done())
}

func (a *API) MulAcc(x, y, z frontend.Variable) frontend.Variable {
	return a.Add(x, a.Mul(y, z))
}

func (a *API) Neg(i1 frontend.Variable) frontend.Variable {
	a.op("Neg")
	return a.norm(a.Scale(a.T(i1), bigM))
}

func (a *API) Sub(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	a.op("Sub")
	ac := a.newAcc()
	ac.add(a.T(i1), big1)
	ac.add(a.T(i2), bigM)
	for _, x := range in {
		ac.add(a.T(x), bigM)
	}
	return a.norm(ac.done())
}

func (a *API) mul2(x, y *Term) *Term {
	if isConstT(x) || isConstT(y) || x.IsBool || y.IsBool {
		return a.norm(a.IMul(x, y))
	}
	if isSmallLin01(x) || isSmallLin01(y) {
		return a.norm(a.IMul(x, y))
	}
	wx, wy := a.width(x), a.width(y)
	if wx+wy <= 140 && (wx <= 20 || wy <= 20) || wx+wy <= 64 {
		return a.norm(a.IMul(x, y))
	}
	x, y = a.Canon(x), a.Canon(y)
	if x.ID > y.ID {
		x, y = y, x
	}
	if _, ok := a.UFDef["mulmod"]; !ok {
		p := a.P
		a.UFDef["mulmod"] = func(as []*big.Int) *big.Int {
			r := new(big.Int).Mul(as[0], as[1])
			return r.Mod(r, p)
		}
	}
	return a.UF("mulmod", big0, new(big.Int).Sub(a.P, big1), x, y)
}

func isSmallLin01(t *Term) bool { return t.Lo.Sign() >= 0 && t.Hi.Cmp(big1) <= 0 }

func (a *API) Mul(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	a.op("Mul")
	r := a.mul2(a.pre01(a.T(i1)), a.pre01(a.T(i2)))
	for _, x := range in {
		r = a.mul2(a.pre01(r), a.pre01(a.T(x)))
	}
	return r
}

// pre01 turns integer terms whose interval is [0,1] into booleans.
func (a *API) pre01(t *Term) *Term {
	if !t.IsBool && !isConstT(t) && isSmallLin01(t) {
		return a.AsBool(t)
	}
	return t
}

func (a *API) DivUnchecked(i1, i2 frontend.Variable) frontend.Variable {
	a.op("DivUnchecked")
	x, y := a.T(i1), a.T(i2)
	if k, ok := a.ConstVal(y); ok {
		kk := new(big.Int).Mod(k, a.P)
		if kk.Sign() == 0 {
			panic("sym: division by constant zero")
		}
		inv := new(big.Int).ModInverse(kk, a.P)
		return a.norm(a.Scale(x, a.symm(inv)))
	}
	r := a.FieldVar(a.Fresh("div"))
	r.Hint = true
	a.Cons = append(a.Cons, a.FEq(a.mul2(a.pre01(r), a.pre01(y)), x))
	return r
}

func (a *API) Div(i1, i2 frontend.Variable) frontend.Variable {
	a.op("Div")
	y := a.T(i2)
	if _, ok := a.ConstVal(y); !ok {
		a.Cons = append(a.Cons, a.Not(a.FEq0(y)))
	}
	return a.DivUnchecked(i1, i2)
}

func (a *API) Inverse(i1 frontend.Variable) frontend.Variable {
	return a.Div(1, i1)
}

func (a *API) BatchInvert(in []frontend.Variable) []frontend.Variable {
	out := make([]frontend.Variable, len(in))
	for i := range in {
		out[i] = a.Inverse(in[i])
	}
	return out
}

// boolOf asserts that t is boolean (as the R1CS builder does) and returns the boolean term.
func (a *API) boolOf(t *Term) *Term {
	if r, ok := a.TryBool(t); ok {
		return r
	}
	if t.Op == OConst {
		a.Cons = append(a.Cons, a.F)
		return a.F
	}
	if t.Lo.Sign() >= 0 && t.Hi.Cmp(big1) <= 0 {
		return a.AsBool(t)
	}
	a.narrowed(t, 1)
	is1 := a.FEq(t, a.B.T)
	a.Cons = append(a.Cons, a.B.Or(a.FEq0(t), is1))
	return is1
}

func (a *API) ToBinary(i1 frontend.Variable, n ...int) []frontend.Variable {
	a.op("ToBinary")
	nb := a.P.BitLen()
	if len(n) == 1 {
		nb = n[0]
		if nb < 0 {
			panic("sym: ToBinary negative")
		}
	}
	v := a.T(i1)
	bs := a.toBits(v, nb)
	return Vars(bs)
}

func (a *API) toBits(v *Term, nb int) []*Term {
	if nb == 1 {
		return []*Term{a.boolOf(v)}
	}
	c := a.rangeCheck(v, nb)
	out := make([]*Term, nb)
	for i := range out {
		out[i] = a.Bit(c, i)
	}
	return out
}

// rangeCheck records v < 2^nb (canonical value) and returns an integer term that equals the canonical value when the
// constraint holds.
func (a *API) rangeCheck(v *Term, nb int) *Term {
	a.narrowed(v, nb)
	lo, hi := a.LoOf(v), a.HiOf(v)
	lim := a.Pow2(nb)
	// v in (-(p-2^nb), p): negative values never fit
	if hi.Cmp(a.P) < 0 && new(big.Int).Add(lo, a.P).Cmp(lim) >= 0 {
		if lo.Sign() < 0 {
			a.Cons = append(a.Cons, a.ILe(a.F, v))
		}
		if hi.Cmp(lim) >= 0 {
			a.Cons = append(a.Cons, a.ILt(v, a.Const(lim)))
		}
		return v
	}
	c := a.Canon(v)
	if a.HiOf(c).Cmp(lim) >= 0 {
		a.Cons = append(a.Cons, a.ILt(c, a.Const(lim)))
	}
	return c
}

// narrowed notes that a constraint forces the hint output v below 2^nb.
func (a *API) narrowed(v *Term, nb int) {
	if n, ok := a.seq[v]; ok && nb < a.P.BitLen()-1 {
		if w, ok := a.Narrowed[n]; !ok || nb < w {
			a.Narrowed[n] = nb
		}
	}
}

// Check implements frontend.Rangechecker.
func (a *API) Check(v frontend.Variable, bits int) {
	a.op("RangeCheck")
	a.rangeCheck(a.T(v), bits)
}

func (a *API) FromBinary(b ...frontend.Variable) frontend.Variable {
	a.op("FromBinary")
	bs := make([]*Term, len(b))
	for i := range b {
		t := a.T(b[i])
		bs[i] = a.boolOf(t)
	}
	return a.norm(a.FromBits(bs))
}

func (a *API) Xor(x, y frontend.Variable) frontend.Variable {
	a.op("Xor")
	return a.B.Xor(a.boolOf(a.T(x)), a.boolOf(a.T(y)))
}
func (a *API) Or(x, y frontend.Variable) frontend.Variable {
	a.op("Or")
	return a.B.Or(a.boolOf(a.T(x)), a.boolOf(a.T(y)))
}
func (a *API) And(x, y frontend.Variable) frontend.Variable {
	a.op("And")
	return a.B.And(a.boolOf(a.T(x)), a.boolOf(a.T(y)))
}
func (a *API) Select(c frontend.Variable, i1, i2 frontend.Variable) frontend.Variable {
	a.op("Select")
	return a.Ite(a.boolOf(a.T(c)), a.T(i1), a.T(i2))
}
func (a *API) Lookup2(b0, b1 frontend.Variable, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	a.op("Lookup2")
	c0, c1 := a.boolOf(a.T(b0)), a.boolOf(a.T(b1))
	return a.Ite(c1, a.Ite(c0, a.T(i3), a.T(i2)), a.Ite(c0, a.T(i1), a.T(i0)))
}
func (a *API) IsZero(x frontend.Variable) frontend.Variable {
	a.op("IsZero")
	return a.FEq0(a.T(x))
}
func (a *API) Cmp(x, y frontend.Variable) frontend.Variable {
	a.op("Cmp")
	s, t := a.Canon(a.T(x)), a.Canon(a.T(y))
	return a.Lin([]*Term{a.ILt(t, s), a.ILt(s, t)}, []*big.Int{big1, bigM}, nil)
}

func (a *API) AssertIsEqual(x, y frontend.Variable) {
	a.op("AssertIsEqual")
	s, t := a.T(x), a.T(y)
	for i := len(a.groups) - 1; i >= 0; i-- {
		g := a.groups[i]
		if !g.eq && (s == g.sum(a.B) && t == g.v || t == g.sum(a.B) && s == g.v) {
			g.eq = true
			break
		}
	}
	a.Cons = append(a.Cons, a.FEq(s, t))
}
func (g *bitGroup) sum(b *B) *Term { return b.FromBits(g.bits) }

func (a *API) AssertIsDifferent(x, y frontend.Variable) {
	a.op("AssertIsDifferent")
	a.Cons = append(a.Cons, a.Not(a.FEq(a.T(x), a.T(y))))
}
func (a *API) AssertIsBoolean(x frontend.Variable) {
	a.op("AssertIsBoolean")
	t := a.T(x)
	for i := len(a.groups) - 1; i >= 0; i-- {
		g := a.groups[i]
		hit := false
		for j, bt := range g.bits {
			if bt == t && !g.bools[j] {
				g.bools[j] = true
				hit = true
				break
			}
		}
		if hit {
			break
		}
	}
	a.boolOf(t)
}
func (a *API) AssertIsCrumb(x frontend.Variable) {
	a.op("AssertIsCrumb")
	a.rangeCheck(a.T(x), 2)
}
func (a *API) AssertIsLessOrEqual(v frontend.Variable, bound frontend.Variable) {
	a.op("AssertIsLessOrEqual")
	s, t := a.Canon(a.T(v)), a.Canon(a.T(bound))
	a.Cons = append(a.Cons, a.ILe(s, t))
}
func (a *API) MustBeLessOrEqCst(aBits []frontend.Variable, bound *big.Int, v frontend.Variable) {
	t := a.T(v)
	for i := len(a.groups) - 1; i >= 0; i-- {
		g := a.groups[i]
		if g.v == t && !g.cst && len(aBits) == len(g.bits) {
			g.cst = true
			return // bits of the canonical value: bound p-1 holds by definition
		}
	}
	bs := make([]*Term, len(aBits))
	for i := range aBits {
		bs[i] = a.AsBool(a.T(aBits[i]))
	}
	a.Cons = append(a.Cons, a.ILe(a.FromBits(bs), a.Const(bound)))
}
func (a *API) Println(x ...frontend.Variable)  {}
func (a *API) Compiler() frontend.Compiler     { return a }
func (a *API) MarkBoolean(v frontend.Variable) {}
func (a *API) IsBoolean(v frontend.Variable) bool {
	t := a.T(v)
	_, ok := a.TryBool(t)
	return ok
}
func (a *API) ConstantValue(v frontend.Variable) (*big.Int, bool) {
	t := a.T(v)
	k, ok := a.ConstVal(t)
	if !ok {
		return nil, false
	}
	return new(big.Int).Mod(k, a.P), true
}
func (a *API) Field() *big.Int                           { return new(big.Int).Set(a.P) }
func (a *API) FieldBitLen() int                          { return a.P.BitLen() }
func (a *API) Defer(cb func(frontend.API) error)         { a.deferred = append(a.deferred, cb) }
func (a *API) SetKeyValue(k, v any)                      { a.kv[k] = v }
func (a *API) GetKeyValue(k any) any                     { return a.kv[k] }
func (a *API) InternalVariable(uint32) frontend.Variable { panic("sym: InternalVariable unsupported") }
func (a *API) ToCanonicalVariable(v frontend.Variable) frontend.CanonicalVariable {
	panic("sym: ToCanonicalVariable unsupported")
}
func (a *API) SetGkrInfo(constraint.GkrInfo) error { panic("sym: SetGkrInfo unsupported") }
func (a *API) AddBlueprint(constraint.Blueprint) constraint.BlueprintID {
	panic("sym: AddBlueprint unsupported")
}
func (a *API) AddInstruction(constraint.BlueprintID, []uint32) []uint32 {
	panic("sym: AddInstruction unsupported")
}

// Unsupported reports that a gadget used a part of the API outside the encoding.
type Unsupported struct{ What string }

func HintName(f solver.Hint) string {
	return runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name()
}

func (a *API) NewHint(f solver.Hint, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	a.op("NewHint")
	if nbOutputs <= 0 {
		return nil, fmt.Errorf("hint function must return at least one output")
	}
	name := HintName(f)
	in := a.Terms(inputs)
	if a.HintHook != nil {
		if out := a.HintHook(name, nbOutputs, in); out != nil {
			a.Hints = append(a.Hints, &HintRec{Name: name, In: in, Out: out, F: f})
			return Vars(out), nil
		}
	}
	if !a.FreshHints {
		switch {
		case strings.HasSuffix(name, "gnark/std/math/bits.nBits"):
			v := in[0]
			// bits of the canonical value; the obligations (boolean, weighted sum) are tracked
			c := v
			lo, hi := a.LoOf(v), a.HiOf(v)
			if !(hi.Cmp(a.P) < 0 && new(big.Int).Add(lo, a.P).Cmp(a.Pow2(nbOutputs)) >= 0) {
				c = a.Canon(v)
			}
			out := make([]*Term, nbOutputs)
			for i := range out {
				out[i] = a.Bit(c, i)
			}
			a.groups = append(a.groups, &bitGroup{v: v, bits: out, bools: make([]bool, nbOutputs), n: nbOutputs})
			return Vars(out), nil
		case strings.HasSuffix(name, "gnark/std/selector.muxIndicators"):
			out := make([]*Term, nbOutputs)
			for i := range out {
				out[i] = a.FEq(in[0], a.I(int64(i)))
			}
			return Vars(out), nil
		case strings.HasSuffix(name, "gnark/std/selector.mapIndicators"):
			key := in[len(in)-1]
			out := make([]*Term, nbOutputs)
			for i := range out {
				out[i] = a.FEq(in[i], key)
			}
			return Vars(out), nil
		}
	}
	out := make([]*Term, nbOutputs)
	for i := range out {
		n := len(a.seq)
		if w, ok := a.Narrow[n]; ok {
			out[i] = a.BitsVar(a.Fresh("hint"), w)
		} else {
			out[i] = a.FieldVar(a.Fresh("hint"))
		}
		out[i].Hint = true
		a.seq[out[i]] = n
	}
	a.Hints = append(a.Hints, &HintRec{Name: name, In: in, Out: out, F: f})
	return Vars(out), nil
}

// Finish runs deferred callbacks and reports whether every recognised hint's defining constraints were present.
func (a *API) Finish() error {
	for i := 0; i < len(a.deferred); i++ {
		if err := a.deferred[i](a); err != nil {
			return err
		}
	}
	for _, g := range a.groups {
		ok := g.eq
		for _, x := range g.bools {
			ok = ok && x
		}
		if g.n >= a.P.BitLen() && !g.cst {
			ok = false
		}
		if !ok {
			return ErrLooseBits
		}
	}
	return nil
}

var ErrLooseBits = fmt.Errorf("a bit decomposition is not fully constrained")

// C returns the conjunction of the recorded constraints (as a list).
func (a *API) Constraints() []*Term { return a.Cons }

var seenMu sync.Mutex
var seenFuncs = map[string]bool{}
var seenN uint64

// SeenFuncs lists the repository functions that were on the stack of symbolic operations.
func SeenFuncs() map[string]bool {
	seenMu.Lock()
	defer seenMu.Unlock()
	out := map[string]bool{}
	for f := range seenFuncs {
		out[f] = true
	}
	return out
}

func SampleStack() {
	n := atomic.AddUint64(&seenN, 1)
	if n > 3000 && n%97 != 0 {
		return
	}
	var pcs [24]uintptr
	k := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:k])
	seenMu.Lock()
	defer seenMu.Unlock()
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "brevis-network/zk-utils") {
			seenFuncs[strings.TrimPrefix(f.Function, "github.com/brevis-network/zk-utils/")] = true
		}
		if !more {
			break
		}
	}
}
