//go:build go1.23

package gosym

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"unicode/utf8"

	"verif/engine/sym"
	"verif/engine/xt/go/ssa"
)

func (m *M) boolOuts(bad *sym.Term, msg string, vals ...Val) []Out {
	switch m.decide(bad) {
	case 0:
		return one(vals...)
	case 1:
		return []Out{{Cond: m.B.T, Panic: true, Msg: msg}}
	}
	return []Out{{Cond: bad, Panic: true, Msg: msg}, {Cond: m.B.Not(bad), Vals: vals}}
}

func panicOut(m *M, msg string) []Out { return []Out{{Cond: m.B.T, Panic: true, Msg: msg}} }

// step executes one non-control instruction.
func (m *M) step(fr *frame, blk *ssa.BasicBlock, in ssa.Instruction) []Out {
	b := m.B
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.RunDefers:
		return one()
	case *ssa.Alloc:
		return one(m.NewCell(x.Type().(*types.Pointer).Elem()))
	case *ssa.BinOp:
		return m.binop(x.Op, m.get(fr, x.X), m.get(fr, x.Y), x.X.Type(), x.Y.Type(), x.Type())
	case *ssa.UnOp:
		v := m.get(fr, x.X)
		switch x.Op {
		case token.MUL:
			return m.deref(v)
		case token.NOT:
			return one(b.Not(v.(*sym.Term)))
		case token.SUB:
			return one(m.wrap(b.Scale(v.(*sym.Term), big.NewInt(-1)), x.Type()))
		case token.XOR:
			t := v.(*sym.Term)
			w, signed := intInfo(x.Type())
			if signed {
				return one(b.Sub(b.I(-1), t))
			}
			return one(b.Sub(b.Const(new(big.Int).Sub(b.Pow2(w), big.NewInt(1))), t))
		}
	case *ssa.Store:
		return m.storeTo(m.get(fr, x.Addr), m.get(fr, x.Val))
	case *ssa.FieldAddr:
		p := m.get(fr, x.X)
		if e, ok := p.(ElemPtr); ok {
			e.Path = append(append([]int{}, e.Path...), x.Field)
			return one(e)
		}
		c := p.(*Cell)
		if c == nil {
			return panicOut(m, "nil pointer dereference")
		}
		if !c.Agg {
			fail("field of an opaque object %s in %s", c.T, fr.fn)
		}
		return one(m.kid(c, x.Field))
	case *ssa.Field:
		return one(m.get(fr, x.X).(Agg)[x.Field])
	case *ssa.IndexAddr:
		base := m.get(fr, x.X)
		if l, ok := base.(Lazy); ok {
			base = m.concretize(l)
		}
		idx := m.get(fr, x.Index).(*sym.Term)
		var s Slice
		switch c := base.(type) {
		case *Cell:
			if c == nil {
				return panicOut(m, "nil pointer dereference")
			}
			s = Slice{c, 0, len(c.Kids), len(c.Kids)}
		case Slice:
			s = c
		default:
			fail("index of %T", base)
		}
		if k, ok := b.ConstVal(idx); ok {
			if k.Sign() < 0 || k.Cmp(big.NewInt(int64(s.Len))) >= 0 {
				return panicOut(m, "index out of range")
			}
			return one(m.kid(s.Arr, s.Off+int(k.Int64())))
		}
		return m.boolOuts(m.outOfRange(idx, s.Len), "index out of range", ElemPtr{Arr: s.Arr, Off: s.Off, Len: s.Len, Idx: idx})
	case *ssa.Index:
		base := m.get(fr, x.X)
		idx := m.get(fr, x.Index).(*sym.Term)
		var vs []Val
		switch s := base.(type) {
		case Agg:
			vs = s
		case Str:
			for _, t := range s.B {
				vs = append(vs, t)
			}
		default:
			fail("index of %T", base)
		}
		return m.index(vs, idx)
	case *ssa.Lookup:
		base := m.get(fr, x.X)
		if s, ok := base.(Str); ok {
			var vs []Val
			for _, t := range s.B {
				vs = append(vs, t)
			}
			return m.index(vs, m.get(fr, x.Index).(*sym.Term))
		}
		mp, _ := base.(*Map)
		key := m.get(fr, x.Index)
		zero := m.zero(x.X.Type().Underlying().(*types.Map).Elem())
		found := b.F
		if mp != nil {
			for i, k := range mp.Keys {
				switch m.decide(m.eq(k, key)) {
				case 1:
					zero, found = mp.Vals[i], b.T
				case -1:
					fail("map lookup with a symbolic key")
				}
			}
		}
		if x.CommaOk {
			return one(zero, found)
		}
		return one(zero)
	case *ssa.MakeMap:
		return one(&Map{})
	case *ssa.MapUpdate:
		mp := m.get(fr, x.Map).(*Map)
		if m.tol == 0 {
			fail("map update in symbolic code")
		}
		mp.Keys = append(mp.Keys, m.get(fr, x.Key))
		mp.Vals = append(mp.Vals, m.get(fr, x.Value))
		return one()
	case *ssa.MakeSlice:
		n, ok := b.ConstVal(m.get(fr, x.Len).(*sym.Term))
		c, ok2 := b.ConstVal(m.get(fr, x.Cap).(*sym.Term))
		if !ok || !ok2 {
			if l, isL := m.lens[m.get(fr, x.Len).(*sym.Term)]; isL && l.unit == 8 {
				fail("make of a slice with the symbolic length of a big integer")
			}
			fail("make with a symbolic length in %s", fr.fn)
		}
		if n.Sign() < 0 || c.Cmp(n) < 0 || c.BitLen() > 24 {
			return panicOut(m, "makeslice: len out of range")
		}
		return one(Slice{m.newArr(x.Type().Underlying().(*types.Slice).Elem(), int(c.Int64())), 0, int(n.Int64()), int(c.Int64())})
	case *ssa.MakeInterface:
		return one(Iface{x.X.Type(), m.get(fr, x.X)})
	case *ssa.ChangeInterface, *ssa.ChangeType:
		ops := x.Operands(nil)
		return one(m.get(fr, *ops[0]))
	case *ssa.MakeClosure:
		f := &Func{Fn: x.Fn.(*ssa.Function)}
		for _, v := range x.Bindings {
			f.Bind = append(f.Bind, m.get(fr, v))
		}
		return one(f)
	case *ssa.Extract:
		return one(m.get(fr, x.Tuple).(Tuple)[x.Index])
	case *ssa.Slice:
		return m.slice(fr, x)
	case *ssa.SliceToArrayPointer:
		s := m.get(fr, x.X).(Slice)
		n := int(x.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.Len < n {
			return panicOut(m, "slice to array conversion")
		}
		arr := &Cell{T: x.Type().(*types.Pointer).Elem(), Agg: true, elem: s.Arr.elem}
		for i := 0; i < n; i++ {
			arr.Kids = append(arr.Kids, m.kid(s.Arr, s.Off+i))
		}
		return one(arr)
	case *ssa.Convert:
		return one(m.convert(m.get(fr, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		return one(m.convert(m.get(fr, x.X), x.X.Type(), x.Type()))
	case *ssa.TypeAssert:
		i, ok := m.get(fr, x.X).(Iface)
		if !ok {
			fail("type assertion on %T", m.get(fr, x.X))
		}
		match := i.T != nil && types.Identical(i.T, x.AssertedType)
		v := i.V
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			match = i.T != nil && (types.Implements(i.T, it) || i.T == m.errT && it.NumMethods() <= 1)
			v = i
		}
		if !match {
			v = m.zero(x.AssertedType)
		}
		if x.CommaOk {
			return one(v, b.Bool(match))
		}
		if !match {
			return panicOut(m, "failed type assertion")
		}
		return one(v)
	case *ssa.Range:
		s, ok := m.get(fr, x.X).(Str)
		if !ok {
			fail("range over a map")
		}
		cell := &Cell{T: types.Typ[types.Int], V: b.I(0)}
		return one(Agg{s, cell})
	case *ssa.Next:
		it := m.get(fr, x.Iter).(Agg)
		s, cell := it[0].(Str), it[1].(*Cell)
		p, _ := b.ConstVal(cell.V.(*sym.Term))
		i := int(p.Int64())
		if i >= len(s.B) {
			return one(b.F, b.I(0), b.I(0))
		}
		// one-byte runes, or constant text
		if k, ok := b.ConstVal(s.B[i]); ok && k.Int64() >= utf8.RuneSelf {
			var bs []byte
			for _, t := range s.B[i:] {
				if k, ok := b.ConstVal(t); ok {
					bs = append(bs, byte(k.Int64()))
				} else {
					break
				}
			}
			r, n := utf8.DecodeRune(bs)
			m.store(cell, b.I(int64(i+n)))
			return one(b.T, b.I(int64(i)), b.I(int64(r)))
		}
		if m.decide(b.ILt(s.B[i], b.I(utf8.RuneSelf))) != 1 {
			fail("range over a string that may contain non-ASCII text")
		}
		m.store(cell, b.I(int64(i+1)))
		return one(b.T, b.I(int64(i)), s.B[i])
	case *ssa.Call:
		return m.callInstr(fr, &x.Call)
	}
	fail("%T (%s) in %s is not supported", in, in, fr.fn)
	return nil
}

func (m *M) outOfRange(idx *sym.Term, n int) *sym.Term {
	return m.B.Or(m.B.ILt(idx, m.B.I(0)), m.B.ILe(m.B.I(int64(n)), idx))
}

func (m *M) index(vs []Val, idx *sym.Term) []Out {
	if k, ok := m.B.ConstVal(idx); ok {
		if k.Sign() < 0 || k.Cmp(big.NewInt(int64(len(vs)))) >= 0 {
			return panicOut(m, "index out of range")
		}
		return one(vs[k.Int64()])
	}
	o := m.boolOuts(m.outOfRange(idx, len(vs)), "index out of range", Val(nil))
	if last := &o[len(o)-1]; !last.Panic {
		last.Vals = []Val{m.table(vs, idx)}
	}
	return o
}

// table: vs[idx] for an index in range, as a tree over the bits of idx.
func (m *M) table(vs []Val, idx *sym.Term) Val {
	n := 0
	for 1<<n < len(vs) {
		n++
	}
	bits := make([]*sym.Term, n)
	for i := range bits {
		bits[i] = m.B.Bit(idx, i)
		if !bits[i].IsBool {
			bits[i] = m.B.AsBool(bits[i])
		}
	}
	var rec func(lo, k int) Val
	rec = func(lo, k int) Val {
		if k == 0 {
			return vs[lo]
		}
		x := rec(lo, k-1)
		hi := lo + 1<<(k-1)
		if hi >= len(vs) {
			return x
		}
		y := rec(hi, k-1)
		v, ok := m.merge(bits[k-1], y, x)
		if !ok {
			fail("symbolic index into elements of different shapes")
		}
		return v
	}
	return rec(0, n)
}

func (m *M) deref(v Val) []Out {
	switch p := v.(type) {
	case *Cell:
		if p == nil {
			return panicOut(m, "nil pointer dereference")
		}
		return one(m.load(p))
	case ElemPtr:
		vs := make([]Val, p.Len)
		for i := range vs {
			c := m.kid(p.Arr, p.Off+i)
			for _, f := range p.Path {
				c = m.kid(c, f)
			}
			vs[i] = m.load(c)
		}
		return one(m.table(vs, p.Idx))
	}
	fail("dereference of %T", v)
	return nil
}

func (m *M) storeTo(a, v Val) []Out {
	switch p := a.(type) {
	case *Cell:
		if p == nil {
			return panicOut(m, "nil pointer dereference")
		}
		m.store(p, v)
		return one()
	case ElemPtr:
		for i := 0; i < p.Len; i++ {
			c := m.kid(p.Arr, p.Off+i)
			for _, f := range p.Path {
				c = m.kid(c, f)
			}
			r, ok := m.merge(m.B.IEq(p.Idx, m.B.I(int64(i))), v, m.load(c))
			if !ok {
				fail("store through a symbolic index")
			}
			m.store(c, r)
		}
		return one()
	}
	fail("store through %T", a)
	return nil
}

func (m *M) slice(fr *frame, x *ssa.Slice) []Out {
	b := m.B
	base := m.get(fr, x.X)
	var lo, hi, mx *sym.Term
	if x.Low != nil {
		lo = m.get(fr, x.Low).(*sym.Term)
	}
	if x.High != nil {
		hi = m.get(fr, x.High).(*sym.Term)
	}
	if x.Max != nil {
		mx = m.get(fr, x.Max).(*sym.Term)
	}
	if l, ok := base.(Lazy); ok {
		if lo == nil && hi == nil {
			return one(l)
		}
		base = m.concretize(l)
	}
	ci := func(t *sym.Term, d int) (int, bool) {
		if t == nil {
			return d, true
		}
		k, ok := b.ConstVal(t)
		if !ok || !k.IsInt64() {
			return 0, false
		}
		return int(k.Int64()), true
	}
	switch s := base.(type) {
	case Str:
		l, ok1 := ci(lo, 0)
		h, ok2 := ci(hi, len(s.B))
		if !ok1 || !ok2 {
			fail("string slice with symbolic bounds in %s", fr.fn)
		}
		if l < 0 || h < l || h > len(s.B) {
			return panicOut(m, "slice bounds out of range")
		}
		return one(Str{s.B[l:h]})
	case *Cell:
		if s == nil {
			return panicOut(m, "nil pointer dereference")
		}
		base = Slice{s, 0, len(s.Kids), len(s.Kids)}
	}
	s, ok := base.(Slice)
	if !ok {
		fail("slice of %T", base)
	}
	h, ok2 := ci(hi, s.Len)
	c, ok3 := ci(mx, s.Cap)
	l, ok1 := ci(lo, 0)
	if !ok2 || !ok3 {
		if k, ok := m.forkIndex(hi, s.Cap); ok && lo == nil && mx == nil {
			var outs []Out
			for _, i := range k {
				if i < 0 || i > s.Cap {
					outs = append(outs, Out{Cond: b.IEq(hi, b.I(int64(i))), Panic: true, Msg: "slice bounds out of range"})
				} else {
					outs = append(outs, Out{Cond: b.IEq(hi, b.I(int64(i))), Vals: []Val{Slice{s.Arr, s.Off, i, s.Cap}}})
				}
			}
			return outs
		}
		fail("slice with symbolic bounds in %s", fr.fn)
	}
	if h > s.Cap || c > s.Cap || h > c {
		return panicOut(m, "slice bounds out of range")
	}
	if !ok1 {
		// s[h-len(big.Bytes()):h]
		if lt, k, ok := m.asLen(lo); ok && lt.unit == 8 {
			if h != k {
				fail("slice with a symbolic start whose end is not the subtrahend")
			}
			// len(bytes) must not exceed h
			bad := b.ILe(b.Const(b.Pow2(8*h)), lt.n)
			if h >= lt.max {
				bad = b.F
			}
			return m.boolOuts(bad, "slice bounds out of range", Tail{Slice{s.Arr, s.Off, h, s.Cap}, Lazy{lt.n, lt.max}})
		}
		if k, ok := m.forkIndex(lo, h); ok {
			var outs []Out
			for _, i := range k {
				if i < 0 || i > h {
					outs = append(outs, Out{Cond: b.IEq(lo, b.I(int64(i))), Panic: true, Msg: "slice bounds out of range"})
				} else {
					outs = append(outs, Out{Cond: b.IEq(lo, b.I(int64(i))), Vals: []Val{Slice{s.Arr, s.Off + i, h - i, c - i}}})
				}
			}
			return outs
		}
		fail("slice with a symbolic start in %s", fr.fn)
	}
	if l < 0 || l > h {
		return panicOut(m, "slice bounds out of range")
	}
	return one(Slice{s.Arr, s.Off + l, h - l, c - l})
}

// forkIndex lists the possible values of a symbolic bound.
func (m *M) forkIndex(t *sym.Term, n int) ([]int, bool) {
	if t == nil {
		return nil, false
	}
	lo, hi := m.B.LoOf(t), m.B.HiOf(t)
	if d := new(big.Int).Sub(hi, lo); d.BitLen() > 8 {
		return nil, false
	}
	var r []int
	for i := lo.Int64(); i <= hi.Int64(); i++ {
		if m.decide(m.B.IEq(t, m.B.I(i))) != 0 {
			r = append(r, int(i))
		}
	}
	return r, true
}

// asLen recognises k - len(n.Bytes()).
func (m *M) asLen(t *sym.Term) (lenOf, int, bool) {
	for lt, l := range m.lens {
		if d, ok := m.B.ConstVal(m.B.Add(t, lt)); ok {
			return l, int(d.Int64()), true
		}
	}
	return lenOf{}, 0, false
}

// byteLen is the length of n.Bytes() as a term.
func (m *M) lenTerm(n *sym.Term, unit int) *sym.Term {
	b := m.B
	hi := b.HiOf(n)
	max := (hi.BitLen() + unit - 1) / unit
	var ts []*sym.Term
	var ks []*big.Int
	for i := 0; i < max; i++ {
		ts = append(ts, b.Ite(b.ILe(b.Const(b.Pow2(unit*i)), n), b.I(1), b.I(0)))
		ks = append(ks, big.NewInt(1))
	}
	t := b.Lin(ts, ks, nil)
	if _, ok := b.ConstVal(t); !ok {
		m.lens[t] = lenOf{n, unit, max}
	}
	return t
}

// fixedLen: the length of a lazy byte string when the path condition fixes it.
func (m *M) fixedLen(l Lazy) (int, bool) {
	t := m.lenTerm(l.N, 8)
	if k, ok := m.B.ConstVal(t); ok {
		return int(k.Int64()), true
	}
	ks, ok := m.forkIndex(t, l.Max)
	if ok && len(ks) == 1 {
		return ks[0], true
	}
	return 0, false
}

func (m *M) concretize(l Lazy) Slice {
	n, ok := m.fixedLen(l)
	if !ok {
		fail("a big integer's bytes of unknown length are used element by element")
	}
	return m.MkBytes(m.beBytes(l.N, n), 0)
}

// ---------------------------------------------------------------- integers

func intInfo(t types.Type) (int, bool) {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	fail("integer type %s", t)
	return 0, false
}

func isInt(t types.Type) bool {
	u, ok := t.Underlying().(*types.Basic)
	return ok && u.Info()&types.IsInteger != 0
}

func (m *M) wrap(t *sym.Term, ty types.Type) *sym.Term {
	w, signed := intInfo(ty)
	return m.WrapW(t, w, signed)
}

// WrapW reduces an integer into a w-bit type.
func (m *M) WrapW(t *sym.Term, w int, signed bool) *sym.Term {
	b := m.B
	lo, hi := b.LoOf(t), b.HiOf(t)
	if !signed {
		if lo.Sign() >= 0 && hi.BitLen() <= w {
			return t
		}
		if t.Op == sym.OIte && m.decide(b.And(b.ILe(b.I(0), t), b.ILt(t, b.Const(b.Pow2(w))))) == 1 {
			return t
		}
		return b.Low(t, w)
	}
	h := b.Pow2(w - 1)
	if lo.Cmp(new(big.Int).Neg(h)) >= 0 && hi.Cmp(h) < 0 {
		return t
	}
	if t.Op == sym.OIte && m.decide(b.And(b.ILe(b.Const(new(big.Int).Neg(h)), t), b.ILt(t, b.Const(h)))) == 1 {
		return t
	}
	return b.Sub(b.Low(b.Add(t, b.Const(h)), w), b.Const(h))
}

func (m *M) unsignedBits(t *sym.Term, w int) *sym.Term {
	if m.B.LoOf(t).Sign() >= 0 {
		return t
	}
	return m.B.Low(t, w)
}

func (m *M) bitwise(x, y *sym.Term, w int, op token.Token) *sym.Term {
	b := m.B
	x, y = m.unsignedBits(x, w), m.unsignedBits(y, w)
	if _, ok := b.ConstVal(x); ok {
		if op == token.AND_NOT {
			// x &^ y bit by bit below
		} else {
			x, y = y, x
		}
	}
	if k, ok := b.ConstVal(y); ok {
		if op == token.AND_NOT {
			k = new(big.Int).Xor(k, new(big.Int).Sub(b.Pow2(w), big.NewInt(1)))
			op = token.AND
		}
		if op == token.AND && k.Sign() > 0 {
			tz := int(k.TrailingZeroBits())
			if s := new(big.Int).Rsh(k, uint(tz)); new(big.Int).Add(s, big.NewInt(1)).TrailingZeroBits() == uint(s.BitLen()) {
				return b.Scale(b.Low(b.Div(x, b.Pow2(tz)), s.BitLen()), b.Pow2(tz))
			}
		}
		if k.Sign() == 0 {
			if op == token.AND {
				return b.I(0)
			}
			return x
		}
		y = b.Const(k)
	}
	n := b.HiOf(x).BitLen()
	if l := b.HiOf(y).BitLen(); l > n {
		n = l
	}
	bits := make([]*sym.Term, n)
	for i := range bits {
		p, q := b.Bit(x, i), b.Bit(y, i)
		switch op {
		case token.AND:
			bits[i] = b.And(p, q)
		case token.OR:
			bits[i] = b.Or(p, q)
		case token.XOR:
			bits[i] = b.Xor(p, q)
		case token.AND_NOT:
			bits[i] = b.And(p, b.Not(q))
		}
	}
	if op == token.OR || op == token.XOR {
		// disjoint operands: a sum keeps the structure
		dis := true
		for i := 0; i < n && dis; i++ {
			if b.And(b.Bit(x, i), b.Bit(y, i)) != b.F {
				dis = false
			}
		}
		if dis {
			return b.Add(x, y)
		}
	}
	return b.FromBits(bits)
}

func (m *M) binop(op token.Token, xv, yv Val, xt, yt, rt types.Type) []Out {
	b := m.B
	switch op {
	case token.EQL:
		return one(m.eq(xv, yv))
	case token.NEQ:
		return one(b.Not(m.eq(xv, yv)))
	}
	if s, ok := xv.(Str); ok {
		r := yv.(Str)
		switch op {
		case token.ADD:
			return one(Str{append(append([]*sym.Term{}, s.B...), r.B...)})
		}
		fail("string operator %s", op)
	}
	if _, ok := xv.(Opaque); ok {
		return one(Opaque{"float"})
	}
	x, y := xv.(*sym.Term), yv.(*sym.Term)
	if x.IsBool && y.IsBool && !isInt(xt) {
		switch op {
		case token.AND, token.LAND:
			return one(b.And(x, y))
		case token.OR, token.LOR:
			return one(b.Or(x, y))
		}
	}
	switch op {
	case token.LSS:
		return one(m.cmp(x, y, true))
	case token.LEQ:
		return one(b.Not(m.cmp(y, x, true)))
	case token.GTR:
		return one(m.cmp(y, x, true))
	case token.GEQ:
		return one(b.Not(m.cmp(x, y, true)))
	}
	w, signed := intInfo(rt)
	switch op {
	case token.ADD:
		return one(m.wrap(b.Add(x, y), rt))
	case token.SUB:
		return one(m.wrap(b.SubRem(x, y), rt))
	case token.MUL:
		return one(m.wrap(b.IMul(x, y), rt))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return one(m.WrapW(m.bitwise(x, y, w, op), w, signed))
	case token.QUO, token.REM:
		q, rem, outs := m.quoRem(x, y)
		if outs != nil {
			return outs
		}
		if op == token.QUO {
			return one(m.wrap(q, rt))
		}
		return one(rem)
	case token.SHL, token.SHR:
		sh := func(s int) *sym.Term {
			if op == token.SHL {
				if s >= w {
					return b.I(0)
				}
				return m.wrap(b.Scale(x, b.Pow2(s)), rt)
			}
			if s >= w {
				if !signed {
					return b.I(0)
				}
				s = w - 1
			}
			return b.Div(x, b.Pow2(s))
		}
		if k, ok := b.ConstVal(y); ok {
			if k.Sign() < 0 {
				return panicOut(m, "negative shift")
			}
			if k.Cmp(big.NewInt(64)) > 0 {
				k = big.NewInt(64)
			}
			return one(sh(int(k.Int64())))
		}
		vs := make([]Val, w+1)
		for i := range vs {
			vs[i] = sh(i)
		}
		big_ := b.ILe(b.I(int64(w)), y)
		v, _ := m.merge(big_, vs[w], m.table(vs[:w], y))
		return m.boolOuts(b.ILt(y, b.I(0)), "negative shift", v)
	}
	fail("operator %s", op)
	return nil
}

// quoRem: Go's truncated division.
func (m *M) quoRem(x, y *sym.Term) (*sym.Term, *sym.Term, []Out) {
	b := m.B
	k, ok := b.ConstVal(y)
	if !ok {
		fail("division by a symbolic value")
	}
	if k.Sign() == 0 {
		return nil, nil, panicOut(m, "division by zero")
	}
	a := new(big.Int).Abs(k)
	var q *sym.Term
	neg := func() *sym.Term { return b.Scale(b.Div(b.Scale(x, big.NewInt(-1)), a), big.NewInt(-1)) }
	switch {
	case b.LoOf(x).Sign() >= 0:
		q = b.Div(x, a)
	case b.HiOf(x).Sign() <= 0:
		q = neg()
	default:
		q = b.Ite(b.ILt(x, b.I(0)), neg(), b.Div(x, a))
	}
	var rem *sym.Term
	if b.LoOf(x).Sign() >= 0 && int(a.TrailingZeroBits()) == a.BitLen()-1 {
		rem = b.Low(x, a.BitLen()-1)
	} else {
		rem = b.Sub(x, b.Scale(q, a))
		if b.LoOf(x).Sign() >= 0 {
			rem = b.Mod(x, a)
		}
	}
	if k.Sign() < 0 {
		q = b.Scale(q, big.NewInt(-1))
	}
	return q, rem, nil
}

// cmp: x < y, with comparisons of big-integer lengths rewritten to comparisons of the integers.
func (m *M) cmp(x, y *sym.Term, lt bool) *sym.Term {
	b := m.B
	if l, ok := m.lens[x]; ok {
		if k, ok := b.ConstVal(y); ok { // len < k  <=>  n < 2^(unit*(k-1))
			if k.Sign() <= 0 {
				return b.F
			}
			if k.Cmp(big.NewInt(int64(l.max))) > 0 {
				return b.T
			}
			return b.ILt(l.n, b.Const(b.Pow2(l.unit*(int(k.Int64())-1))))
		}
	}
	if l, ok := m.lens[y]; ok {
		if k, ok := b.ConstVal(x); ok { // k < len  <=>  n >= 2^(unit*k)
			if k.Sign() < 0 {
				return b.T
			}
			if k.Cmp(big.NewInt(int64(l.max))) >= 0 {
				return b.F
			}
			return b.ILe(b.Const(b.Pow2(l.unit*int(k.Int64()))), l.n)
		}
	}
	return b.ILt(x, y)
}

func (m *M) eq(xv, yv Val) *sym.Term {
	b := m.B
	switch x := xv.(type) {
	case *sym.Term:
		y := yv.(*sym.Term)
		if x.IsBool && y.IsBool {
			return b.Iff(x, y)
		}
		for i := 0; i < 2; i++ {
			if _, ok := m.lens[x]; ok {
				if k, ok := b.ConstVal(y); ok {
					return b.And(b.Not(m.cmp(x, b.Const(k), true)), b.Not(m.cmp(y, x, true)))
				}
			}
			x, y = y, x
		}
		return b.IEq(x, y)
	case Str:
		y := yv.(Str)
		if len(x.B) != len(y.B) {
			return b.F
		}
		var ts []*sym.Term
		for i := range x.B {
			ts = append(ts, b.IEq(x.B[i], y.B[i]))
		}
		return b.And(ts...)
	case Agg:
		y := yv.(Agg)
		var ts []*sym.Term
		for i := range x {
			ts = append(ts, m.eq(x[i], y[i]))
		}
		return b.And(ts...)
	case *Cell:
		y, ok := yv.(*Cell)
		return b.Bool(ok && x == y)
	case Slice: // only comparison with nil
		if y, ok := yv.(Slice); ok && y.Arr == nil {
			return b.Bool(x.Arr == nil)
		} else if ok && x.Arr == nil {
			return b.Bool(y.Arr == nil)
		}
		if _, ok := yv.(Lazy); ok {
			return b.F
		}
	case Lazy:
		return b.F
	case *Func:
		y, _ := yv.(*Func)
		return b.Bool(x == nil && y == nil)
	case *Map:
		y, _ := yv.(*Map)
		return b.Bool(x == nil && y == nil)
	case Iface:
		y, ok := yv.(Iface)
		if !ok {
			fail("comparison of an interface with %T", yv)
		}
		if x.T == nil || y.T == nil {
			return b.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return b.F
		}
		if p, ok := x.V.(Opaque); ok {
			if q, ok := y.V.(Opaque); ok && p == q && p.What != "" {
				return b.T
			}
			if x.T == m.errT {
				return b.F
			}
		}
		return m.eq(x.V, y.V)
	}
	fail("comparison of %T and %T", xv, yv)
	return nil
}

func (m *M) convert(v Val, from, to types.Type) Val {
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	ft, tt := from.Underlying(), to.Underlying()
	if isInt(from) && isInt(to) {
		return m.wrap(v.(*sym.Term), to)
	}
	if tb, ok := tt.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
		switch x := v.(type) {
		case Str:
			return x
		case Slice, Lazy:
			if s, ok := ft.(*types.Slice); ok && s.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
				return Str{m.Bytes(x)}
			}
		case *sym.Term:
			if m.decide(m.B.ILt(x, m.B.I(128))) == 1 {
				return Str{[]*sym.Term{x}}
			}
		}
	}
	if s, ok := v.(Str); ok {
		if st, ok := tt.(*types.Slice); ok && st.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
			return m.MkBytes(append([]*sym.Term{}, s.B...), 0)
		}
	}
	if _, ok := v.(Opaque); ok {
		return v
	}
	if tb, ok := tt.(*types.Basic); ok && tb.Info()&types.IsFloat != 0 {
		return Opaque{"float"}
	}
	if _, ok := tt.(*types.Pointer); ok {
		return v
	}
	if tb, ok := tt.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		return v
	}
	fail("conversion from %s to %s", from, to)
	return nil
}

// ---------------------------------------------------------------- calls

func (m *M) callInstr(fr *frame, c *ssa.CallCommon) []Out {
	var args []Val
	if c.IsInvoke() {
		recv, ok := m.get(fr, c.Value).(Iface)
		if !ok {
			fail("method call on %T", m.get(fr, c.Value))
		}
		if recv.T == nil {
			return panicOut(m, "method call on a nil interface")
		}
		for _, a := range c.Args {
			args = append(args, m.get(fr, a))
		}
		if recv.T == m.errT && c.Method.Name() == "Error" {
			return one(m.MkStr("error"))
		}
		if o, ok := recv.V.(Opaque); ok {
			key := "invoke " + o.What + "." + c.Method.Name()
			if st := m.stub(key); st != nil {
				return st(m, &CallCtx{Name: key, Args: append([]Val{recv.V}, args...), Sig: c.Signature()})
			}
		}
		fn := m.P.SSA.LookupMethod(recv.T, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			fail("no method %s on %s", c.Method.Name(), recv.T)
		}
		return m.call(&Func{Fn: fn}, append([]Val{recv.V}, args...))
	}
	for _, a := range c.Args {
		args = append(args, m.get(fr, a))
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		return m.builtin(fr, bi, c, args)
	}
	f, ok := m.get(fr, c.Value).(*Func)
	if !ok {
		fail("call of %T", m.get(fr, c.Value))
	}
	return m.call(f, args)
}

func (m *M) length(v Val) *sym.Term {
	switch s := v.(type) {
	case Slice:
		return m.B.I(int64(s.Len))
	case Str:
		return m.B.I(int64(len(s.B)))
	case Lazy:
		return m.lenTerm(s.N, 8)
	case Tail:
		return m.lenTerm(s.L.N, 8)
	case Agg:
		return m.B.I(int64(len(s)))
	case *Cell:
		return m.B.I(int64(len(s.Kids)))
	case *Map:
		if s == nil {
			return m.B.I(0)
		}
		return m.B.I(int64(len(s.Keys)))
	}
	fail("len of %T", v)
	return nil
}

func (m *M) builtin(fr *frame, bi *ssa.Builtin, c *ssa.CallCommon, args []Val) []Out {
	b := m.B
	switch bi.Name() {
	case "len":
		return one(m.length(args[0]))
	case "cap":
		switch s := args[0].(type) {
		case Slice:
			return one(b.I(int64(s.Cap)))
		case *Cell:
			return one(b.I(int64(len(s.Kids))))
		}
	case "append":
		if len(args) == 1 {
			return one(args[0])
		}
		var vs []Val
		switch y := args[1].(type) {
		case Str:
			for _, t := range y.B {
				vs = append(vs, t)
			}
		case Slice:
			vs = m.Elems(y)
		case Lazy:
			ks, _ := m.forkIndex(m.lenTerm(y.N, 8), y.Max)
			if len(ks) == 0 {
				fail("append of a lazy byte string")
			}
			if len(ks) > 1 {
				var outs []Out
				lt := m.lenTerm(y.N, 8)
				for _, k := range ks {
					cond := b.And(b.Not(m.cmp(lt, b.I(int64(k)), true)), b.Not(m.cmp(b.I(int64(k)), lt, true)))
					mark := len(m.journal)
					m.PC = append(m.PC, cond)
					o := m.builtin(fr, bi, c, []Val{args[0], m.MkBytes(m.beBytes(y.N, k), 0)})
					m.PC = m.PC[:len(m.PC)-1]
					o[0].d = m.delta(mark)
					o[0].Cond = cond
					m.rollback(mark)
					outs = append(outs, o[0])
				}
				return outs
			}
			for _, t := range m.beBytes(y.N, ks[0]) {
				vs = append(vs, t)
			}
		default:
			fail("append of %T", args[1])
		}
		var s Slice
		switch x := args[0].(type) {
		case Slice:
			s = x
		case Lazy:
			s = m.concretize(x)
		}
		if len(vs) == 0 {
			return one(s)
		}
		n := s.Len + len(vs)
		if n > s.Cap {
			nc := 2 * s.Cap
			if nc < n {
				nc = n
			}
			arr := m.newArr(c.Args[0].Type().Underlying().(*types.Slice).Elem(), nc)
			for i := 0; i < s.Len; i++ {
				m.set(m.kid(arr, i), m.load(m.kid(s.Arr, s.Off+i)))
			}
			for i, v := range vs {
				m.set(m.kid(arr, s.Len+i), v)
			}
			return one(Slice{arr, 0, n, nc})
		}
		for i, v := range vs {
			m.store(m.kid(s.Arr, s.Off+s.Len+i), v)
		}
		return one(Slice{s.Arr, s.Off, n, s.Cap})
	case "copy":
		if t, ok := args[0].(Tail); ok {
			l, ok := args[1].(Lazy)
			if !ok || l.N != t.L.N {
				fail("copy to a slice with a symbolic start")
			}
			for e := 0; e < t.S.Len; e++ {
				c := m.kid(t.S.Arr, t.S.Off+t.S.Len-1-e)
				by := b.Low(b.Div(l.N, b.Pow2(8*e)), 8)
				old := m.load(c).(*sym.Term)
				if k, ok := b.ConstVal(old); !ok || k.Sign() != 0 {
					by = b.Ite(b.ILe(b.Const(b.Pow2(8*e)), l.N), by, old)
				}
				m.store(c, by)
			}
			return one(m.lenTerm(l.N, 8))
		}
		d := args[0].(Slice)
		var vs []Val
		switch y := args[1].(type) {
		case Str:
			for _, t := range y.B {
				vs = append(vs, t)
			}
		case Slice:
			vs = m.Elems(y)
		case Lazy:
			vs = m.Elems(m.concretize(y))
		default:
			fail("copy from %T", args[1])
		}
		n := len(vs)
		if d.Len < n {
			n = d.Len
		}
		for i := 0; i < n; i++ {
			m.store(m.kid(d.Arr, d.Off+i), vs[i])
		}
		return one(b.I(int64(n)))
	case "min", "max":
		r := args[0].(*sym.Term)
		for _, a := range args[1:] {
			y := a.(*sym.Term)
			if bi.Name() == "min" {
				r = b.Ite(b.ILt(y, r), y, r)
			} else {
				r = b.Ite(b.ILt(r, y), y, r)
			}
		}
		return one(r)
	case "clear":
		if s, ok := args[0].(Slice); ok {
			for i := 0; i < s.Len; i++ {
				k := m.kid(s.Arr, s.Off+i)
				m.store(k, m.zero(s.Arr.elem))
			}
			return one()
		}
	case "print", "println":
		return one()
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Cell); ok && p == nil {
			return panicOut(m, "nil pointer dereference")
		}
		return one(args[0])
	case "String": // unsafe.String
	case "recover":
		return one(Iface{})
	}
	fail("builtin %s of %s", bi.Name(), fmt.Sprintf("%T", args))
	return nil
}

// set initialises a fresh cell without journaling.
func (m *M) set(c *Cell, v Val) {
	mark := len(m.journal)
	m.store(c, v)
	m.journal = m.journal[:mark]
}
