//go:build go1.23

package gosym

import (
	"fmt"
	"go/types"
	"math/big"

	"verif/engine/sym"
	"verif/engine/xt/go/ssa"
)

// Val is a symbolic Go value: *sym.Term (integers, kept inside their type's range, and booleans), Str, Slice,
// Lazy, Tail, *Cell (pointer), ElemPtr, Agg (struct or array), Iface, *Func, Big, Tuple, *Map, Opaque.
type Val any

type (
	// Str is a string of concrete length.
	Str struct{ B []*sym.Term }
	// Slice is a window on an array cell.
	Slice struct {
		Arr           *Cell
		Off, Len, Cap int
	}
	// Lazy is big.Int.Bytes(): the minimal big-endian bytes of N (0 <= N < 256^Max), of symbolic length.
	Lazy struct {
		N   *sym.Term
		Max int
	}
	// Tail is s[end-len(L):end] for a lazy L: a slice whose start is symbolic and whose end is concrete.
	Tail struct {
		S Slice // ends at the end of the tail; starts as far left as it can
		L Lazy
	}
	// ElemPtr points at an element with a symbolic index.
	ElemPtr struct {
		Arr      *Cell
		Off, Len int
		Idx      *sym.Term
		Path     []int
	}
	Agg   []Val
	Tuple []Val
	Iface struct {
		T types.Type // nil: nil interface
		V Val
	}
	Func struct {
		Fn   *ssa.Function
		Bind []Val
	}
	Big struct{ T *sym.Term } // contents of a math/big.Int
	Map struct {
		Keys []Val
		Vals []Val
	}
	// Opaque is a value nothing may depend on (an error's text, a hasher's state).
	Opaque struct{ What string }
	poison struct{ why string }
	strIt  struct {
		s Str
		i *int
	}
)

// Cell is a memory location: a leaf with a value, or a struct/array with sub-cells.
type Cell struct {
	T    types.Type
	Kids []*Cell
	Agg  bool
	V    Val
	elem types.Type
	born int // cells with a larger number were allocated later
}

type unsup struct{ msg string }

func fail(f string, a ...any) { panic(unsup{fmt.Sprintf(f, a...)}) }

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func isBig(t types.Type) bool { return isNamed(t, "math/big", "Int") }

func (m *M) zero(t types.Type) Val {
	if isBig(t) {
		return Big{m.B.I(0)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return m.B.F
		case u.Info()&types.IsInteger != 0:
			return m.B.I(0)
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Kind() == types.UnsafePointer:
			return (*Cell)(nil)
		case u.Info()&types.IsFloat != 0:
			return Opaque{"float"}
		}
	case *types.Pointer:
		return (*Cell)(nil)
	case *types.Slice:
		return Slice{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Func)(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return Opaque{"chan"}
	case *types.Struct:
		a := make(Agg, u.NumFields())
		for i := range a {
			a[i] = m.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		a := make(Agg, u.Len())
		for i := range a {
			a[i] = m.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		a := make(Tuple, u.Len())
		for i := range a {
			a[i] = m.zero(u.At(i).Type())
		}
		return a
	}
	fail("zero value of %s", t)
	return nil
}

// NewCell allocates memory of type t, zeroed.
func (m *M) NewCell(t types.Type) *Cell {
	m.seq++
	c := &Cell{T: t, born: m.seq}
	if isBig(t) {
		c.V = Big{m.B.I(0)}
		return c
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		c.Agg = true
		c.Kids = make([]*Cell, u.NumFields())
		for i := range c.Kids {
			c.Kids[i] = m.NewCell(u.Field(i).Type())
		}
	case *types.Array:
		c.Agg = true
		c.elem = u.Elem()
		c.Kids = make([]*Cell, u.Len())
	default:
		c.V = m.zero(t)
	}
	return c
}

// newArr allocates n elements of type t.
func (m *M) newArr(t types.Type, n int) *Cell {
	m.seq++
	return &Cell{T: types.NewArray(t, int64(n)), elem: t, Agg: true, Kids: make([]*Cell, n), born: m.seq}
}

func (m *M) kid(c *Cell, i int) *Cell {
	k := c.Kids[i]
	if k == nil {
		k = m.NewCell(c.elem)
		k.age(c.born)
		c.Kids[i] = k
	}
	return k
}

func (c *Cell) age(born int) {
	c.born = born
	for _, k := range c.Kids {
		if k != nil {
			k.age(born)
		}
	}
}

func (m *M) load(c *Cell) Val {
	if c == nil {
		fail("internal: load from nil")
	}
	if !c.Agg {
		if p, ok := c.V.(poison); ok {
			fail("use of a value that could not be computed: %s", p.why)
		}
		return c.V
	}
	a := make(Agg, len(c.Kids))
	for i := range a {
		a[i] = m.load(m.kid(c, i))
	}
	return a
}

func (m *M) store(c *Cell, v Val) {
	if c.Agg {
		a, ok := v.(Agg)
		if !ok || len(a) != len(c.Kids) {
			fail("store of %T to an aggregate", v)
		}
		for i := range a {
			m.store(m.kid(c, i), a[i])
		}
		return
	}
	m.journal = append(m.journal, undo{c, c.V})
	c.V = v
}

type undo struct {
	c   *Cell
	old Val
}

func (m *M) rollback(mark int) {
	for i := len(m.journal) - 1; i >= mark; i-- {
		m.journal[i].c.V = m.journal[i].old
	}
	m.journal = m.journal[:mark]
}

// delta lists the cells written since mark, in order, with their current values.
func (m *M) delta(mark int) *Delta {
	d := &Delta{}
	if len(m.journal) == mark {
		return d
	}
	d.at = make(map[*Cell]int, len(m.journal)-mark)
	for _, u := range m.journal[mark:] {
		if _, ok := d.at[u.c]; !ok {
			d.at[u.c] = len(d.cells)
			d.cells = append(d.cells, u.c)
			d.vals = append(d.vals, u.c.V)
		}
	}
	return d
}

type Delta struct {
	at    map[*Cell]int
	cells []*Cell
	vals  []Val
}

func (m *M) apply(d *Delta) {
	for i, c := range d.cells {
		if c.Agg {
			fail("internal: aggregate in delta")
		}
		m.journal = append(m.journal, undo{c, c.V})
		c.V = d.vals[i]
	}
}

// over returns d with e applied after it.
func (d *Delta) over(e *Delta) *Delta {
	if len(d.cells) == 0 {
		return e
	}
	r := &Delta{at: make(map[*Cell]int, len(d.cells)+len(e.cells))}
	put := func(c *Cell, v Val) {
		if i, ok := r.at[c]; ok {
			r.vals[i] = v
			return
		}
		r.at[c] = len(r.cells)
		r.cells = append(r.cells, c)
		r.vals = append(r.vals, v)
	}
	for i, c := range d.cells {
		put(c, d.vals[i])
	}
	for i, c := range e.cells {
		put(c, e.vals[i])
	}
	return r
}

// merge builds ite(c, x, y); ok is false when the two cannot be one value.
func (m *M) merge(c *sym.Term, x, y Val) (Val, bool) {
	switch a := x.(type) {
	case nil:
		return nil, y == nil
	case *sym.Term:
		b, ok := y.(*sym.Term)
		if !ok {
			return nil, false
		}
		return m.B.Ite(c, a, b), true
	case Big:
		b, ok := y.(Big)
		if !ok {
			return nil, false
		}
		return Big{m.B.Ite(c, a.T, b.T)}, true
	case Str:
		b, ok := y.(Str)
		if !ok || len(a.B) != len(b.B) {
			return nil, false
		}
		r := make([]*sym.Term, len(a.B))
		for i := range r {
			r[i] = m.B.Ite(c, a.B[i], b.B[i])
		}
		return Str{r}, true
	case Agg:
		b, ok := y.(Agg)
		if !ok || len(a) != len(b) {
			return nil, false
		}
		r := make(Agg, len(a))
		for i := range a {
			v, ok := m.merge(c, a[i], b[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Tuple:
		b, ok := y.(Tuple)
		if !ok || len(a) != len(b) {
			return nil, false
		}
		r, ok := m.merge(c, Agg(a), Agg(b))
		if !ok {
			return nil, false
		}
		return Tuple(r.(Agg)), true
	case Slice:
		b, ok := y.(Slice)
		return a, ok && a == b
	case *Cell:
		b, ok := y.(*Cell)
		return a, ok && a == b
	case Iface:
		b, ok := y.(Iface)
		if !ok || (a.T == nil) != (b.T == nil) {
			return nil, false
		}
		if a.T == nil {
			return a, true
		}
		if !types.Identical(a.T, b.T) {
			return nil, false
		}
		v, ok := m.merge(c, a.V, b.V)
		return Iface{a.T, v}, ok
	case Opaque:
		b, ok := y.(Opaque)
		if ok && a.What != b.What {
			return Opaque{"a merged value"}, true
		}
		return a, ok
	case *Func:
		b, ok := y.(*Func)
		return a, ok && a == b
	case *Map:
		b, ok := y.(*Map)
		return a, ok && a == b
	case Lazy:
		b, ok := y.(Lazy)
		return a, ok && a == b
	case poison:
		_, ok := y.(poison)
		return a, ok
	}
	return nil, false
}

// freshSlices: two slices of the same length whose arrays nobody else holds (allocated after the branch) can be
// merged element by element.
func (m *M) copySlice(c *sym.Term, a, b Slice, la, lb func(*Cell) Val) (Slice, bool) {
	arr := m.newArr(a.Arr.elem, a.Len)
	for i := 0; i < a.Len; i++ {
		x, y := m.kid(a.Arr, a.Off+i), m.kid(b.Arr, b.Off+i)
		if x.Agg || y.Agg {
			return Slice{}, false
		}
		v, ok := m.merge(c, la(x), lb(y))
		if !ok {
			return Slice{}, false
		}
		m.kid(arr, i).V = v
	}
	return Slice{arr, 0, a.Len, a.Len}, true
}

// Bytes returns the contents of a concrete-length byte slice.
func (m *M) Bytes(v Val) []*sym.Term {
	switch s := v.(type) {
	case Slice:
		r := make([]*sym.Term, s.Len)
		for i := range r {
			r[i] = m.load(m.kid(s.Arr, s.Off+i)).(*sym.Term)
		}
		return r
	case Str:
		return s.B
	case Lazy:
		if n, ok := m.fixedLen(s); ok {
			return m.beBytes(s.N, n)
		}
		fail("a big integer's bytes of unknown length are used element by element")
	}
	fail("not a byte slice: %T", v)
	return nil
}

// Elems returns the elements of a slice or array.
func (m *M) Elems(v Val) []Val {
	switch s := v.(type) {
	case Slice:
		r := make([]Val, s.Len)
		for i := range r {
			r[i] = m.load(m.kid(s.Arr, s.Off+i))
		}
		return r
	case Agg:
		return s
	}
	fail("not a sequence: %T", v)
	return nil
}

// MkBytes makes a fresh byte slice.
func (m *M) MkBytes(ts []*sym.Term, extraCap int) Slice {
	arr := m.newArr(types.Typ[types.Uint8], len(ts)+extraCap)
	for i, t := range ts {
		m.kid(arr, i).V = t
	}
	return Slice{arr, 0, len(ts), len(ts) + extraCap}
}

// MkSlice makes a fresh slice of t.
func (m *M) MkSlice(t types.Type, vs []Val) Slice {
	arr := m.newArr(t, len(vs))
	for i, v := range vs {
		k := m.kid(arr, i)
		mark := len(m.journal)
		m.store(k, v)
		m.journal = m.journal[:mark]
	}
	return Slice{arr, 0, len(vs), len(vs)}
}

// MkStr makes a constant string.
func (m *M) MkStr(s string) Str {
	r := make([]*sym.Term, len(s))
	for i := range r {
		r[i] = m.B.I(int64(s[i]))
	}
	return Str{r}
}

// MkBig makes a *big.Int.
func (m *M) MkBig(t *sym.Term) *Cell {
	m.seq++
	return &Cell{T: m.bigT, V: Big{t}, born: m.seq}
}

// BigOf reads a *big.Int.
func (m *M) BigOf(v Val) *sym.Term {
	c, ok := v.(*Cell)
	if !ok || c == nil {
		fail("not a *big.Int: %T", v)
	}
	return c.V.(Big).T
}

// be: big-endian value of byte terms.
func (m *M) be(bs []*sym.Term) *sym.Term {
	ks := make([]*big.Int, len(bs))
	for i := range bs {
		ks[i] = m.B.Pow2(8 * (len(bs) - 1 - i))
	}
	return m.B.Lin(bs, ks, nil)
}

func (m *M) beBytes(n *sym.Term, l int) []*sym.Term {
	r := make([]*sym.Term, l)
	for i := range r {
		r[i] = m.B.Low(m.B.Div(n, m.B.Pow2(8*(l-1-i))), 8)
	}
	return r
}

// Load reads a memory cell.
func (m *M) Load(c *Cell) Val { return m.load(c) }

// IsErr tells whether an interface value is one of the engine's errors.
func (m *M) IsErr(i Iface) bool {
	return i.T == m.errT || i.T != nil && types.Implements(i.T, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

var (
	UintType = types.Typ[types.Uint]
	ByteType = types.Typ[types.Uint8]
)

// MkStruct makes a struct value; fields that are not given are zero.
func (m *M) MkStruct(t types.Type, fields map[string]Val) Agg {
	st := t.Underlying().(*types.Struct)
	r := make(Agg, st.NumFields())
	n := 0
	for i := range r {
		if v, ok := fields[st.Field(i).Name()]; ok {
			r[i], n = v, n+1
		} else {
			r[i] = m.zero(st.Field(i).Type())
		}
	}
	if n != len(fields) {
		fail("MkStruct: %s lacks one of the fields", t)
	}
	return r
}

// MkPtr makes a pointer to a fresh location of type t holding v.
func (m *M) MkPtr(t types.Type, v Val) *Cell {
	c := m.NewCell(t)
	mark := len(m.journal)
	m.store(c, v)
	m.journal = m.journal[:mark]
	return c
}
