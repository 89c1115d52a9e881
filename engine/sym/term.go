// Package sym provides hash-consed symbolic terms, an implementation of gnark's frontend.API over
// them, and a translation to SMT-LIB.  Field elements are represented by mathematical integers with
// interval bounds; they are compared modulo the field prime.
package sym

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // integer constant k
	OVar             // integer variable in [lo,hi]
	OBVar            // boolean variable
	OTrue            // boolean true
	ONot             // boolean negation
	OAnd             // n-ary and
	OXor             // n-ary xor
	OEq0             // args[0] == 0 (integer)
	OLe0             // args[0] <= 0 (integer)
	OLin             // sum cs[i]*args[i] + k
	OIte             // ite(args[0], args[1], args[2]); int or bool
	OMul             // exact integer product
	OMod             // args[0] mod k  in [0,k)
	OBit             // bit n of args[0] (two's complement)
	OLow             // args[0] mod 2^n
	OUF              // uninterpreted function name(args) in [lo,hi] (or boolean)
	ODiv             // floor(args[0] / k), k > 0
)

type Term struct {
	ID     int
	Op     Op
	Args   []*Term
	Cs     []*big.Int
	K      *big.Int
	N      int
	Name   string
	Lo, Hi *big.Int
	IsBool bool
	Hint   bool // variable created for a hint output
}

var (
	big0 = big.NewInt(0)
	big1 = big.NewInt(1)
	big2 = big.NewInt(2)
	bigM = big.NewInt(-1)
)

func bi(x int64) *big.Int { return big.NewInt(x) }

// B holds the term table and the field.
type B struct {
	P             *big.Int
	HalfP         *big.Int
	slots, hashes []uint32
	nodes         []*Term
	T, F          *Term
	UFDef         map[string]func(args []*big.Int) *big.Int // concrete interpretation of UFs for evaluation
	nvar          int
	pow2          []*big.Int
	KeepLow       bool // keep sums modulo 2^k as they are (no dropping of an inner low_k, no parity rule)
	XorFlat       int // operands up to this arity are merged into an enclosing xor
}

func NewB(p *big.Int) *B {
	b := &B{XorFlat: 6, P: new(big.Int).Set(p), slots: make([]uint32, 1024), hashes: make([]uint32, 1024), UFDef: map[string]func([]*big.Int) *big.Int{}}
	b.HalfP = new(big.Int).Rsh(p, 1)
	b.T = b.mk(&Term{Op: OTrue, IsBool: true})
	b.F = b.mk(&Term{Op: ONot, IsBool: true, Args: []*Term{b.T}})
	return b
}

func (b *B) NumTerms() int { return len(b.nodes) }

func (b *B) Pow2(i int) *big.Int {
	for len(b.pow2) <= i {
		b.pow2 = append(b.pow2, new(big.Int).Lsh(big1, uint(len(b.pow2))))
	}
	return b.pow2[i]
}

func mix(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	return h
}

func hashBig(h uint64, x *big.Int) uint64 {
	if x == nil {
		return mix(h, 77)
	}
	h = mix(h, uint64(x.Sign()+5))
	for _, w := range x.Bits() {
		h = mix(h, uint64(w))
	}
	return h
}

func (t *Term) hash() uint64 {
	h := mix(uint64(t.Op)+1, uint64(t.N))
	if t.IsBool {
		h = mix(h, 3)
	}
	for _, a := range t.Args {
		h = mix(h, uint64(a.ID))
	}
	for _, c := range t.Cs {
		h = hashBig(h, c)
	}
	h = hashBig(h, t.K)
	for i := 0; i < len(t.Name); i++ {
		h = mix(h, uint64(t.Name[i]))
	}
	return h
}

func eqBig(a, b *big.Int) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Cmp(b) == 0
}

func same(a, b *Term) bool {
	if a.Op != b.Op || a.N != b.N || a.IsBool != b.IsBool || len(a.Args) != len(b.Args) || len(a.Cs) != len(b.Cs) || a.Name != b.Name || !eqBig(a.K, b.K) {
		return false
	}
	for i := range a.Args {
		if a.Args[i] != b.Args[i] {
			return false
		}
	}
	for i := range a.Cs {
		if a.Cs[i] != b.Cs[i] && a.Cs[i].Cmp(b.Cs[i]) != 0 {
			return false
		}
	}
	return true
}

func (b *B) mk(t *Term) *Term {
	h := t.hash()
	mask := uint64(len(b.slots) - 1)
	i := (h ^ h>>32) & mask
	for ; b.slots[i] != 0; i = (i + 1) & mask {
		if b.hashes[i] == uint32(h) {
			if u := b.nodes[b.slots[i]-1]; same(u, t) {
				return u
			}
		}
	}
	t.ID = len(b.nodes)
	b.nodes = append(b.nodes, t)
	b.slots[i] = uint32(t.ID + 1)
	b.hashes[i] = uint32(h)
	if 2*len(b.nodes) > len(b.slots) {
		n := 2 * len(b.slots)
		b.slots, b.hashes = make([]uint32, n), make([]uint32, n)
		mask = uint64(n - 1)
		for id, u := range b.nodes {
			h := u.hash()
			i := (h ^ h>>32) & mask
			for ; b.slots[i] != 0; i = (i + 1) & mask {
			}
			b.slots[i], b.hashes[i] = uint32(id+1), uint32(h)
		}
	}
	return t
}

// ---------------------------------------------------------------- variables

func (b *B) Const(k *big.Int) *Term {
	return b.mk(&Term{Op: OConst, K: new(big.Int).Set(k), Lo: k, Hi: k})
}
func (b *B) I(k int64) *Term { return b.Const(bi(k)) }

// Var makes (or returns) the integer variable name with bounds [lo,hi].
func (b *B) Var(name string, lo, hi *big.Int) *Term {
	return b.mk(&Term{Op: OVar, Name: name, Lo: new(big.Int).Set(lo), Hi: new(big.Int).Set(hi)})
}

// FieldVar: arbitrary field element.
func (b *B) FieldVar(name string) *Term {
	return b.Var(name, big0, new(big.Int).Sub(b.P, big1))
}

// BitsVar: variable of n bits.
func (b *B) BitsVar(name string, n int) *Term {
	return b.Var(name, big0, new(big.Int).Sub(b.Pow2(n), big1))
}

func (b *B) BoolVar(name string) *Term {
	return b.mk(&Term{Op: OBVar, Name: name, IsBool: true})
}

func (b *B) Fresh(prefix string) string {
	b.nvar++
	return fmt.Sprintf("%s!%d", prefix, b.nvar)
}

// ---------------------------------------------------------------- booleans

func (b *B) Bool(v bool) *Term {
	if v {
		return b.T
	}
	return b.F
}

func (b *B) Not(x *Term) *Term {
	if x.Op == ONot {
		return x.Args[0]
	}
	return b.mk(&Term{Op: ONot, IsBool: true, Args: []*Term{x}})
}

func (b *B) And(xs ...*Term) *Term {
	var as []*Term
	for _, x := range xs {
		x = b.AsBool(x)
		if x == b.T {
			continue
		}
		if x == b.F {
			return b.F
		}
		if x.Op == OAnd && len(x.Args) <= 64 {
			as = append(as, x.Args...)
		} else {
			as = append(as, x)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	out := as[:0]
	for i, x := range as {
		if i > 0 && x == as[i-1] {
			continue
		}
		out = append(out, x)
	}
	if len(out) > 1 {
		var set map[*Term]bool
		if len(out) > 8 {
			set = make(map[*Term]bool, len(out))
			for _, x := range out {
				set[x] = true
			}
		}
		for _, x := range out {
			if x.Op == ONot {
				if set != nil {
					if set[x.Args[0]] {
						return b.F
					}
				} else {
					for _, y := range out {
						if y == x.Args[0] {
							return b.F
						}
					}
				}
			}
		}
	}
	switch len(out) {
	case 0:
		return b.T
	case 1:
		return out[0]
	}
	cp := make([]*Term, len(out))
	copy(cp, out)
	return b.mk(&Term{Op: OAnd, IsBool: true, Args: cp})
}

func (b *B) Or(xs ...*Term) *Term {
	ys := make([]*Term, len(xs))
	for i, x := range xs {
		ys[i] = b.Not(b.AsBool(x))
	}
	return b.Not(b.And(ys...))
}

func (b *B) Implies(x, y *Term) *Term { return b.Or(b.Not(x), y) }

func (b *B) Xor(xs ...*Term) *Term {
	neg := false
	var as []*Term
	var add func(x *Term, depth int)
	add = func(x *Term, depth int) {
		if x.Op == ONot {
			neg = !neg
			x = x.Args[0]
		}
		if x == b.T {
			neg = !neg
			return
		}
		if x.Op == OXor && len(x.Args) <= b.XorFlat {
			as = append(as, x.Args...)
			return
		}
		as = append(as, x)
	}
	for _, x := range xs {
		add(b.AsBool(x), 0)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	var out []*Term
	for i := 0; i < len(as); {
		j := i
		for j < len(as) && as[j] == as[i] {
			j++
		}
		if (j-i)%2 == 1 {
			out = append(out, as[i])
		}
		i = j
	}
	var r *Term
	switch len(out) {
	case 0:
		r = b.F
	case 1:
		r = out[0]
	default:
		r = b.mk(&Term{Op: OXor, IsBool: true, Args: out})
	}
	if neg {
		return b.Not(r)
	}
	return r
}

func (b *B) Iff(x, y *Term) *Term { return b.Not(b.Xor(x, y)) }

// Ite builds a conditional over two booleans or two integers.
func (b *B) Ite(c, x, y *Term) *Term {
	c = b.AsBool(c)
	if c == b.T {
		return x
	}
	if c == b.F {
		return y
	}
	if x == y {
		return x
	}
	if c.Op == ONot {
		return b.Ite(c.Args[0], y, x)
	}
	if !x.IsBool || !y.IsBool {
		// try both as booleans
		xb, xok := b.TryBool(x)
		yb, yok := b.TryBool(y)
		if xok && yok {
			return b.Ite(c, xb, yb)
		}
	}
	if x.IsBool && y.IsBool {
		switch {
		case x == b.T && y == b.F:
			return c
		case x == b.F && y == b.T:
			return b.Not(c)
		case x == b.T:
			return b.Or(c, y)
		case x == b.F:
			return b.And(b.Not(c), y)
		case y == b.T:
			return b.Or(b.Not(c), x)
		case y == b.F:
			return b.And(c, x)
		case x == b.Not(y):
			return b.Iff(c, x)
		case x == c:
			return b.Or(c, y)
		case y == c:
			return b.And(c, x)
		}
		if x.Op == ONot && y.Op == ONot {
			return b.Not(b.Ite(c, x.Args[0], y.Args[0]))
		}
		return b.mk(&Term{Op: OIte, IsBool: true, Args: []*Term{c, x, y}})
	}
	if x.Op == OIte && x.Args[0] == c {
		x = x.Args[1]
	}
	if y.Op == OIte && y.Args[0] == c {
		y = y.Args[2]
	}
	if x == y {
		return x
	}
	lo, hi := b.LoOf(x), b.HiOf(x)
	if b.LoOf(y).Cmp(lo) < 0 {
		lo = b.LoOf(y)
	}
	if b.HiOf(y).Cmp(hi) > 0 {
		hi = b.HiOf(y)
	}
	return b.mk(&Term{Op: OIte, Args: []*Term{c, x, y}, Lo: lo, Hi: hi})
}

func (b *B) LoOf(t *Term) *big.Int {
	if t.IsBool {
		return big0
	}
	return t.Lo
}
func (b *B) HiOf(t *Term) *big.Int {
	if t.IsBool {
		if t == b.F {
			return big0
		}
		return big1
	}
	return t.Hi
}

// TryBool views an integer term with value in {0,1} as a boolean if that is syntactically evident.
func (b *B) TryBool(t *Term) (*Term, bool) {
	if t.IsBool {
		return t, true
	}
	switch t.Op {
	case OConst:
		if t.K.Sign() == 0 {
			return b.F, true
		}
		if t.K.Cmp(big1) == 0 {
			return b.T, true
		}
	}
	return nil, false
}

// AsBool converts an integer term known to have interval within [0,1] to a boolean.
func (b *B) AsBool(t *Term) *Term {
	if r, ok := b.TryBool(t); ok {
		return r
	}
	if b.LoOf(t).Sign() >= 0 && b.HiOf(t).Cmp(big1) <= 0 {
		return b.Not(b.Eq0(t))
	}
	panic(fmt.Sprintf("sym: not a boolean term: %s", b.Str(t, 3)))
}

// ---------------------------------------------------------------- integers

type linAcc struct {
	b  *B
	m  map[*Term]*big.Int
	ks *big.Int
}

func (b *B) newAcc() *linAcc {
	return &linAcc{b: b, m: map[*Term]*big.Int{}, ks: new(big.Int)}
}

func (a *linAcc) add(t *Term, c *big.Int) {
	if c.Sign() == 0 {
		return
	}
	switch {
	case t.Op == OConst:
		a.ks.Add(a.ks, new(big.Int).Mul(t.K, c))
	case t == a.b.T:
		a.ks.Add(a.ks, c)
	case t == a.b.F:
	case t.Op == OLin:
		a.ks.Add(a.ks, new(big.Int).Mul(t.K, c))
		for i, x := range t.Args {
			a.addAtom(x, new(big.Int).Mul(t.Cs[i], c))
		}
	case t.IsBool && t.Op == ONot:
		a.ks.Add(a.ks, c)
		a.addAtom(t.Args[0], new(big.Int).Neg(c))
	default:
		a.addAtom(t, c)
	}
}
func (a *linAcc) addAtom(t *Term, c *big.Int) {
	if o, ok := a.m[t]; ok {
		a.m[t] = new(big.Int).Add(o, c)
	} else {
		a.m[t] = c
	}
}

// Lin: sum cs[i]*ts[i] + k over the integers.
func (b *B) Lin(ts []*Term, cs []*big.Int, k *big.Int) *Term {
	a := b.newAcc()
	for i, t := range ts {
		a.add(t, cs[i])
	}
	if k != nil {
		a.ks.Add(a.ks, k)
	}
	return a.done()
}

func (a *linAcc) done() *Term {
	b := a.b
	a.collapse()
	a.mergeChains()
	a.pushIte()
	type ent struct {
		t *Term
		c *big.Int
	}
	es := make([]ent, 0, len(a.m))
	for t, c := range a.m {
		if c.Sign() != 0 {
			es = append(es, ent{t, c})
		}
	}
	if len(es) == 0 {
		return b.Const(a.ks)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].t.ID < es[j].t.ID })
	if len(es) == 1 && a.ks.Sign() == 0 && es[0].c.Cmp(big1) == 0 {
		return es[0].t
	}
	if len(es) == 1 && es[0].t.IsBool && a.ks.Cmp(big1) == 0 && es[0].c.Cmp(bigM) == 0 {
		return b.Not(es[0].t)
	}
	t := &Term{Op: OLin, K: a.ks}
	lo, hi := new(big.Int).Set(a.ks), new(big.Int).Set(a.ks)
	tmp := new(big.Int)
	allBool := true
	for _, e := range es {
		t.Args = append(t.Args, e.t)
		t.Cs = append(t.Cs, e.c)
		if !e.t.IsBool {
			allBool = false
		}
		l, h := b.LoOf(e.t), b.HiOf(e.t)
		if e.c.Sign() < 0 {
			l, h = h, l
		}
		lo.Add(lo, tmp.Mul(e.c, l))
		hi.Add(hi, tmp.Mul(e.c, h))
	}
	t.Lo, t.Hi = lo, hi
	if allBool && len(es) <= 4 {
		if r := b.boolFromLin(t); r != nil {
			return r
		}
	}
	return b.mk(t)
}

// pushIte rewrites e*ite(c,S,0) + R with atoms of R cancelling against e*S into ite(c, e*S+R', R') + rest,
// which turns the circuit idiom bit*(x-y)+y back into a selection.
func (a *linAcc) pushIte() {
	b := a.b
	for {
		var best *Term
		for t, e := range a.m {
			if t.Op != OIte || t.IsBool || e.Sign() == 0 {
				continue
			}
			z1, z2 := t.Args[1], t.Args[2]
			var s *Term
			if isConstT(z2) && b.constVal(z2).Sign() == 0 {
				s = z1
			} else if isConstT(z1) && b.constVal(z1).Sign() == 0 {
				s = z2
			} else {
				continue
			}
			if !a.cancels(s, e, t) {
				continue
			}
			if best == nil || t.ID > best.ID {
				best = t
			}
		}
		if best == nil {
			return
		}
		e := a.m[best]
		delete(a.m, best)
		neg := false
		s := best.Args[1]
		if isConstT(s) && b.constVal(s).Sign() == 0 {
			s, neg = best.Args[2], true
		}
		in := b.newAcc() // e*S
		in.add(s, e)
		rest := b.newAcc()
		for t, c := range in.m {
			if o, ok := a.m[t]; ok && new(big.Int).Add(o, c).Sign() == 0 {
				rest.m[t] = o
				delete(a.m, t)
			}
		}
		if in.ks.Sign() != 0 && new(big.Int).Add(in.ks, a.ks).Sign() == 0 {
			rest.ks.Set(a.ks)
			a.ks = new(big.Int)
		}
		for t, c := range rest.m {
			in.addAtom(t, c)
		}
		in.ks.Add(in.ks, rest.ks)
		x, y := in.done(), rest.done()
		if neg {
			x, y = y, x
		}
		a.add(b.Ite(best.Args[0], x, y), big1)
	}
}

func (a *linAcc) cancels(s *Term, e *big.Int, self *Term) bool {
	if s.Op == OLin {
		for i, x := range s.Args {
			if x == self {
				continue
			}
			if o, ok := a.m[x]; ok && o.Sign() != 0 && new(big.Int).Add(o, new(big.Int).Mul(e, s.Cs[i])).Sign() == 0 {
				return true
			}
		}
		return false
	}
	if s.Op == ONot {
		s, e = s.Args[0], new(big.Int).Neg(e)
	}
	o, ok := a.m[s]
	return ok && o.Sign() != 0 && new(big.Int).Add(o, e).Sign() == 0
}

// collapse runs of bits c*2^i*bit_i(x) into c*low_k(x).
func (a *linAcc) collapse() {
	b := a.b
	var groups map[*Term][]*Term
	for t := range a.m {
		if t.Op == OBit || t.Op == OLow {
			if groups == nil {
				groups = map[*Term][]*Term{}
			}
			groups[t.Args[0]] = append(groups[t.Args[0]], t)
		}
	}
	if groups == nil {
		return
	}
	for x, g := range groups {
		if len(g) < 2 {
			continue
		}
		sort.Slice(g, func(i, j int) bool {
			if g[i].Op != g[j].Op {
				return g[i].Op > g[j].Op // OLow first
			}
			return g[i].N < g[j].N
		})
		bits := map[int]*Term{}
		for _, t := range g {
			if t.Op == OBit {
				bits[t.N] = t
			}
		}
		var starts []*Term
		for _, t := range g {
			if t.Op == OLow || t.N == 0 {
				starts = append(starts, t)
			}
		}
		for _, s := range starts {
			c := a.m[s]
			if c == nil || c.Sign() == 0 {
				continue
			}
			k := 1
			if s.Op == OLow {
				k = s.N
			}
			used := []*Term{s}
			for {
				t, ok := bits[k]
				if !ok {
					break
				}
				ct := a.m[t]
				if ct == nil || ct.Sign() == 0 || ct.Cmp(new(big.Int).Lsh(c, uint(k))) != 0 {
					break
				}
				used = append(used, t)
				k++
			}
			if len(used) > 1 {
				for _, t := range used {
					delete(a.m, t)
				}
				a.add(b.Low(x, k), c)
			}
		}
	}
}

func (b *B) boolFromLin(t *Term) *Term {
	// leaves: atoms, with And/Xor atoms opened one level
	leafIdx := map[*Term]int{}
	var leaves []*Term
	addLeaf := func(x *Term) bool {
		if x.Op == ONot {
			x = x.Args[0]
		}
		if _, ok := leafIdx[x]; !ok {
			if len(leaves) == 4 {
				return false
			}
			leafIdx[x] = len(leaves)
			leaves = append(leaves, x)
		}
		return true
	}
	if len(t.Args) == 1 {
		return nil
	}
	open := false
	for _, x := range t.Args {
		if (x.Op == OAnd || x.Op == OXor) && len(x.Args) <= 3 {
			open = true
		}
	}
	if !open {
		return nil // distinct opaque atoms: cannot be 0/1 for all assignments unless coefficients trivial
	}
	for _, x := range t.Args {
		if (x.Op == OAnd || x.Op == OXor) && len(x.Args) <= 3 {
			for _, y := range x.Args {
				if !addLeaf(y) {
					return nil
				}
			}
		} else if !addLeaf(x) {
			return nil
		}
	}
	n := len(leaves)
	table := make([]bool, 1<<n)
	lit := func(x *Term, m int) bool {
		neg := false
		if x.Op == ONot {
			neg = true
			x = x.Args[0]
		}
		i, ok := leafIdx[x]
		if !ok {
			return false
		}
		return (m>>i)&1 == 1 != neg
	}
	for m := 0; m < 1<<n; m++ {
		s := new(big.Int).Set(t.K)
		for i, x := range t.Args {
			v := false
			if (x.Op == OAnd || x.Op == OXor) && len(x.Args) <= 3 {
				if x.Op == OAnd {
					v = true
					for _, y := range x.Args {
						v = v && lit(y, m)
					}
				} else {
					for _, y := range x.Args {
						v = v != lit(y, m)
					}
				}
			} else {
				v = lit(x, m)
			}
			if v {
				s.Add(s, t.Cs[i])
			}
		}
		if s.Sign() == 0 {
		} else if s.Cmp(big1) == 0 {
			table[m] = true
		} else {
			return nil
		}
	}
	return b.fromTable(leaves, table)
}

func (b *B) fromTable(leaves []*Term, table []bool) *Term {
	n := len(leaves)
	// constant / literal / xor / and-or detection by Shannon with simplification
	var rec func(i, m int) *Term
	rec = func(i, m int) *Term {
		if i < 0 {
			return b.Bool(table[m])
		}
		h := rec(i-1, m|1<<i)
		l := rec(i-1, m)
		return b.Ite(leaves[i], h, l)
	}
	return rec(n-1, 0)
}

func (b *B) Add(x, y *Term) *Term {
	return b.Lin([]*Term{x, y}, []*big.Int{big1, big1}, nil)
}
func (b *B) Sub(x, y *Term) *Term {
	return b.Lin([]*Term{x, y}, []*big.Int{big1, bigM}, nil)
}
func (b *B) Scale(x *Term, c *big.Int) *Term { return b.Lin([]*Term{x}, []*big.Int{c}, nil) }
func (b *B) AddK(x *Term, k int64) *Term {
	return b.Lin([]*Term{x}, []*big.Int{big1}, bi(k))
}
func (b *B) Sum(xs ...*Term) *Term {
	a := b.newAcc()
	for _, x := range xs {
		a.add(x, big1)
	}
	return a.done()
}

// FromBits: little-endian weighted sum.
func (b *B) FromBits(bits []*Term) *Term {
	a := b.newAcc()
	for i, x := range bits {
		a.add(x, b.Pow2(i))
	}
	return a.done()
}

// Eq0: integer equality with zero.
func (b *B) Eq0(t *Term) *Term {
	if t.IsBool {
		return b.Not(t)
	}
	if t.Lo.Sign() > 0 || t.Hi.Sign() < 0 {
		return b.F
	}
	switch t.Op {
	case OConst:
		return b.Bool(t.K.Sign() == 0)
	case OMul:
		return b.Or(b.Eq0(t.Args[0]), b.Eq0(t.Args[1]))
	case OIte:
		if t.Args[1].Op == OConst || t.Args[2].Op == OConst || t.Args[1].IsBool || t.Args[2].IsBool {
			return b.Ite(t.Args[0], b.Eq0(t.Args[1]), b.Eq0(t.Args[2]))
		}
	case OLin:
		// gcd reduction and sign normalisation
		g := new(big.Int)
		for _, c := range t.Cs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if t.K.Sign() != 0 {
			if new(big.Int).Mod(t.K, g).Sign() != 0 {
				return b.F
			}
		}
		if t.Cs[0].Sign() < 0 {
			g.Neg(g)
		}
		if g.Cmp(big1) != 0 {
			cs := make([]*big.Int, len(t.Cs))
			for i := range cs {
				cs[i] = new(big.Int).Quo(t.Cs[i], g)
			}
			return b.Eq0(b.Lin(t.Args, cs, new(big.Int).Quo(t.K, g)))
		}
		if len(t.Args) == 1 {
			x := t.Args[0]
			if x.IsBool {
				// x + k == 0
				if t.K.Sign() == 0 {
					return b.Not(x)
				}
				if t.K.Cmp(bigM) == 0 {
					return x
				}
				return b.F
			}
			if x.Op == OIte && (isConstT(x.Args[1]) || isConstT(x.Args[2])) {
				k := b.Const(t.K)
				return b.Ite(x.Args[0], b.Eq0(b.Add(x.Args[1], k)), b.Eq0(b.Add(x.Args[2], k)))
			}
		}
		if len(t.Args) == 2 && t.K.Sign() == 0 && t.Args[0].IsBool && t.Args[1].IsBool &&
			t.Cs[0].Cmp(big1) == 0 && t.Cs[1].Cmp(bigM) == 0 {
			return b.Iff(t.Args[0], t.Args[1])
		}
	}
	return b.mk(&Term{Op: OEq0, IsBool: true, Args: []*Term{t}})
}

func isConstT(t *Term) bool {
	return t.Op == OConst || t.Op == OTrue || (t.Op == ONot && t.Args[0].Op == OTrue)
}

// Le0: t <= 0 over integers.
func (b *B) Le0(t *Term) *Term {
	if t.IsBool {
		return b.Not(t)
	}
	if t.Hi.Sign() <= 0 {
		return b.T
	}
	if t.Lo.Sign() > 0 {
		return b.F
	}
	if t.Lo.Sign() == 0 {
		return b.Eq0(t)
	}
	return b.mk(&Term{Op: OLe0, IsBool: true, Args: []*Term{t}})
}

// integer comparisons
func (b *B) IEq(x, y *Term) *Term { return b.Eq0(b.Sub(x, y)) }
func (b *B) ILe(x, y *Term) *Term { return b.Le0(b.Sub(x, y)) }
func (b *B) ILt(x, y *Term) *Term { return b.Le0(b.AddK(b.Sub(x, y), 1)) }

// FEq: equality in the field.
func (b *B) FEq(x, y *Term) *Term { return b.FEq0(b.Sub(x, y)) }

// FEq0: t == 0 mod p
func (b *B) FEq0(t *Term) *Term {
	if t.IsBool {
		return b.Not(t)
	}
	lo, hi := t.Lo, t.Hi
	kl := new(big.Int)
	kh := new(big.Int)
	m := new(big.Int)
	kl.DivMod(lo, b.P, m)
	if m.Sign() != 0 {
		kl.Add(kl, big1)
	}
	kh.DivMod(hi, b.P, m)
	n := new(big.Int).Sub(kh, kl)
	if n.Sign() < 0 {
		return b.F
	}
	if !n.IsInt64() || n.Int64() > 6 {
		if u := b.rescaled(t); u != nil {
			return b.FEq0(u)
		}
		return b.Eq0(b.Mod(t, b.P))
	}
	var or []*Term
	for k := new(big.Int).Set(kl); k.Cmp(kh) <= 0; k = new(big.Int).Add(k, big1) {
		or = append(or, b.Eq0(b.Lin([]*Term{t}, []*big.Int{big1}, new(big.Int).Neg(new(big.Int).Mul(k, b.P)))))
	}
	return b.Or(or...)
}

// rescaled: a multiple of the linear form t whose range spans few multiples of p, if dividing by one of its
// coefficients gives one (t == 0 mod p exactly when the multiple is).
func (b *B) rescaled(t *Term) *Term {
	if t.Op != OLin || len(t.Args) > 40 {
		return nil
	}
	for i, c0 := range t.Cs {
		if i >= 8 || new(big.Int).Abs(c0).Cmp(big1) == 0 {
			continue
		}
		s := new(big.Int).ModInverse(new(big.Int).Mod(c0, b.P), b.P)
		if s == nil {
			continue
		}
		center := func(x *big.Int) *big.Int {
			x = new(big.Int).Mul(x, s)
			x.Mod(x, b.P)
			if x.Cmp(b.HalfP) > 0 {
				x.Sub(x, b.P)
			}
			return x
		}
		cs := make([]*big.Int, len(t.Cs))
		span := new(big.Int)
		for j, c := range t.Cs {
			cs[j] = center(c)
			w := new(big.Int).Sub(b.HiOf(t.Args[j]), b.LoOf(t.Args[j]))
			span.Add(span, w.Mul(w, new(big.Int).Abs(cs[j])))
		}
		if span.Cmp(new(big.Int).Mul(b.P, bi(5))) <= 0 {
			return b.Lin(t.Args, cs, center(t.K))
		}
	}
	return nil
}

func (b *B) Mod(t *Term, p *big.Int) *Term {
	if b.LoOf(t).Sign() >= 0 && b.HiOf(t).Cmp(p) < 0 {
		return t
	}
	if t.Op == OConst {
		return b.Const(new(big.Int).Mod(t.K, p))
	}
	return b.mk(&Term{Op: OMod, Args: []*Term{t}, K: p, Lo: big0, Hi: new(big.Int).Sub(p, big1)})
}

// Div: floor(t / k) for a positive constant k.
func (b *B) Div(t *Term, k *big.Int) *Term {
	if k.Cmp(big1) == 0 {
		return t
	}
	lo, hi := new(big.Int), new(big.Int)
	lo.DivMod(b.LoOf(t), k, new(big.Int))
	hi.DivMod(b.HiOf(t), k, new(big.Int))
	if lo.Cmp(hi) == 0 {
		return b.Const(lo)
	}
	if t.Op == ODiv {
		return b.Div(t.Args[0], new(big.Int).Mul(t.K, k))
	}
	if t.Op == OLin { // a factor common to k and every coefficient
		g := new(big.Int).Set(k)
		for _, c := range t.Cs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(big1) > 0 {
			a := b.newAcc()
			for i, x := range t.Args {
				a.add(x, new(big.Int).Quo(t.Cs[i], g))
			}
			q, _ := new(big.Int).DivMod(t.K, g, new(big.Int))
			a.ks.Add(a.ks, q)
			return b.Div(a.done(), new(big.Int).Quo(k, g))
		}
	}
	pw := k.BitLen() - 1
	p2 := int(k.TrailingZeroBits()) == pw
	if t.Op == OLow && p2 && pw < t.N {
		return b.Low(b.Div(t.Args[0], k), t.N-pw)
	}
	if t.Op == OIte && (isConstT(t.Args[1]) || isConstT(t.Args[2])) {
		return b.Ite(t.Args[0], b.Div(t.Args[1], k), b.Div(t.Args[2], k))
	}
	if t.Op == OLin {
		// multiples of k, and a rest below k
		h, l := b.newAcc(), b.newAcc()
		q, r := new(big.Int).DivMod(t.K, k, new(big.Int))
		for i, x := range t.Args {
			if q, m := new(big.Int).QuoRem(t.Cs[i], k, new(big.Int)); m.Sign() == 0 {
				h.add(x, q)
			} else {
				l.add(x, t.Cs[i])
			}
		}
		l.ks.Add(l.ks, r)
		h.ks.Add(h.ks, q)
		rest := l.done()
		if b.LoOf(rest).Sign() >= 0 && b.HiOf(rest).Cmp(k) < 0 {
			return h.done()
		}
		if len(h.m) > 0 {
			h.add(b.Div(rest, k), big1)
			return h.done()
		}
		if p2 {
			if _, ok := b.disjointBit(t, 0); ok {
				a := b.newAcc()
				for i, x := range t.Args {
					s := int(t.Cs[i].TrailingZeroBits())
					if s >= pw {
						a.add(x, new(big.Int).Rsh(t.Cs[i], uint(pw)))
					} else {
						a.add(b.Div(x, b.Pow2(pw-s)), big1)
					}
				}
				a.ks.Add(a.ks, new(big.Int).Rsh(t.K, uint(pw)))
				return a.done()
			}
		}
	}
	return b.mk(&Term{Op: ODiv, Args: []*Term{t}, K: k, Lo: lo, Hi: hi})
}

// SubRem is Sub, recognising m*t - m*K*floor(t/K) as m*(t mod K).
func (b *B) SubRem(x, y *Term) *Term {
	d := b.Sub(x, y)
	if d.Op != OLin {
		return d
	}
	for i, a := range d.Args {
		if a.Op != ODiv {
			continue
		}
		m, r := new(big.Int).QuoRem(d.Cs[i], a.K, new(big.Int))
		if r.Sign() != 0 {
			continue
		}
		m.Neg(m)
		if b.Sub(b.Sub(d, b.Scale(a, d.Cs[i])), b.Scale(a.Args[0], m)) == b.Const(big0) {
			return b.Scale(b.Mod(a.Args[0], a.K), m)
		}
	}
	return d
}

// Canon: canonical representative in [0,p).
func (b *B) Canon(t *Term) *Term {
	lo, hi := b.LoOf(t), b.HiOf(t)
	if lo.Sign() >= 0 && hi.Cmp(b.P) < 0 {
		return t
	}
	np := new(big.Int).Neg(b.P)
	if lo.Cmp(np) >= 0 && hi.Cmp(b.P) < 0 {
		neg := b.ILt(t, b.I(0))
		r := b.Ite(neg, b.Lin([]*Term{t}, []*big.Int{big1}, b.P), t)
		if r.Op == OIte {
			cp := *r
			cp.Lo, cp.Hi = big0, new(big.Int).Sub(b.P, big1)
			// bounds are not part of the hash key; refine in place
			r.Lo, r.Hi = cp.Lo, cp.Hi
		}
		return r
	}
	return b.Mod(t, b.P)
}

// IMul: integer product.
func (b *B) IMul(x, y *Term) *Term {
	if isConstT(x) {
		x, y = y, x
	}
	if isConstT(y) {
		return b.Scale(x, b.constVal(y))
	}
	if y.IsBool && !x.IsBool {
		x, y = y, x
	}
	if x.IsBool && y.IsBool {
		return b.And(x, y)
	}
	if x.IsBool {
		return b.Ite(x, y, b.I(0))
	}
	// small ite selectors: ite(c,1-ish consts)
	if x.Op == OIte && isConstT(x.Args[1]) && isConstT(x.Args[2]) {
		return b.Ite(x.Args[0], b.IMul(x.Args[1], y), b.IMul(x.Args[2], y))
	}
	if y.Op == OIte && isConstT(y.Args[1]) && isConstT(y.Args[2]) {
		return b.Ite(y.Args[0], b.IMul(x, y.Args[1]), b.IMul(x, y.Args[2]))
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	c := []*big.Int{new(big.Int).Mul(x.Lo, y.Lo), new(big.Int).Mul(x.Lo, y.Hi), new(big.Int).Mul(x.Hi, y.Lo), new(big.Int).Mul(x.Hi, y.Hi)}
	lo, hi := c[0], c[0]
	for _, v := range c[1:] {
		if v.Cmp(lo) < 0 {
			lo = v
		}
		if v.Cmp(hi) > 0 {
			hi = v
		}
	}
	if x == y && lo.Sign() < 0 {
		lo = big0
	}
	return b.mk(&Term{Op: OMul, Args: []*Term{x, y}, Lo: lo, Hi: hi})
}

func (b *B) constVal(t *Term) *big.Int {
	if t.IsBool {
		if t == b.T {
			return big1
		}
		return big0
	}
	return t.K
}

// ConstVal returns the value of a constant term.
func (b *B) ConstVal(t *Term) (*big.Int, bool) {
	if isConstT(t) {
		return b.constVal(t), true
	}
	return nil, false
}

// UF: uninterpreted function application with integer result in [lo,hi].
func (b *B) UF(name string, lo, hi *big.Int, args ...*Term) *Term {
	return b.mk(&Term{Op: OUF, Name: name, Args: args, Lo: lo, Hi: hi})
}

func bitLen(x *big.Int) int { return x.BitLen() }

// width of two's complement representation
func (b *B) width(t *Term) int {
	lo, hi := b.LoOf(t), b.HiOf(t)
	w := hi.BitLen() + 1
	if lo.Sign() < 0 {
		l := new(big.Int).Add(lo, big1)
		if lw := l.BitLen() + 1; lw > w {
			w = lw
		}
	}
	return w
}

// expandLow replaces low_k(L) by L inside a Lin when only bits < n matter.
func (b *B) expandLow(t *Term, n int) *Term {
	for iter := 0; iter < 8; iter++ {
		changed := false
		switch t.Op {
		case OLow:
			if t.N >= n {
				t = t.Args[0]
				changed = true
			}
		case OLin:
			if b.KeepLow {
				return t
			}
			need := false
			for i, x := range t.Args {
				if x.Op == OLow && int(t.Cs[i].TrailingZeroBits())+x.N >= n {
					need = true
					break
				}
			}
			if need {
				a := b.newAcc()
				for i, x := range t.Args {
					if x.Op == OLow && int(t.Cs[i].TrailingZeroBits())+x.N >= n {
						a.add(x.Args[0], t.Cs[i])
					} else {
						a.add(x, t.Cs[i])
					}
				}
				a.ks.Add(a.ks, t.K)
				t = a.done()
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	return t
}

// position-disjoint decomposition: returns the (atom, shift) covering bit j or nil,false if carries are possible
func (b *B) disjointBit(t *Term, j int) (*Term, bool) {
	if t.K.Sign() < 0 {
		return nil, false
	}
	type seg struct{ s, e, i int }
	segs := make([]seg, 0, len(t.Args)+1)
	for i, x := range t.Args {
		c := t.Cs[i]
		if c.Sign() <= 0 || b.LoOf(x).Sign() < 0 {
			return nil, false
		}
		s := int(c.TrailingZeroBits())
		if c.BitLen()-1 != s {
			return nil, false
		}
		segs = append(segs, seg{s, s + b.HiOf(x).BitLen(), i})
	}
	sort.Slice(segs, func(i, k int) bool { return segs[i].s < segs[k].s })
	for i := 1; i < len(segs); i++ {
		if segs[i].s < segs[i-1].e {
			return nil, false
		}
	}
	if t.K.Sign() > 0 {
		for i := 0; i < t.K.BitLen(); i++ {
			if t.K.Bit(i) == 1 {
				for _, s := range segs {
					if s.s <= i && i < s.e {
						return nil, false
					}
				}
			}
		}
		if t.K.Bit(j) == 1 {
			return b.T, true
		}
	}
	for _, s := range segs {
		if s.s <= j && j < s.e {
			return b.Bit(t.Args[s.i], j-s.s), true
		}
	}
	return b.F, true
}

// Bit j of integer t.
func (b *B) Bit(t *Term, j int) *Term {
	if t.IsBool {
		if j == 0 {
			return t
		}
		return b.F
	}
	if t.Op == OConst {
		if t.K.Sign() >= 0 {
			return b.Bool(t.K.Bit(j) == 1)
		}
		m := new(big.Int).Mod(t.K, b.Pow2(j+1))
		return b.Bool(m.Bit(j) == 1)
	}
	if t.Lo.Sign() >= 0 && j >= t.Hi.BitLen() {
		return b.F
	}
	if t.Lo.Sign() >= 0 && t.Hi.Cmp(big1) <= 0 && j == 0 {
		return b.Not(b.Eq0(t))
	}
	t = b.expandLow(t, j+1)
	switch t.Op {
	case OLow:
		if j >= t.N {
			return b.F
		}
		return b.Bit(t.Args[0], j)
	case ODiv:
		if n := t.K.BitLen() - 1; int(t.K.TrailingZeroBits()) == n {
			return b.Bit(t.Args[0], j+n)
		}
	case OIte:
		if isConstT(t.Args[1]) || isConstT(t.Args[2]) {
			return b.Ite(t.Args[0], b.Bit(t.Args[1], j), b.Bit(t.Args[2], j))
		}
	case OLin:
		if r, ok := b.disjointBit(t, j); ok {
			return r
		}
		if j == 0 && !b.KeepLow {
			// parity
			var xs []*Term
			ok := true
			for i, x := range t.Args {
				if t.Cs[i].Bit(0) == 1 {
					if !x.IsBool {
						ok = false
						break
					}
					xs = append(xs, x)
				}
			}
			if ok && len(xs) <= 4 {
				r := b.Xor(xs...)
				if t.K.Bit(0) == 1 {
					r = b.Not(r)
				}
				return r
			}
		}
	}
	if t.IsBool || t.Op == OConst {
		return b.Bit(t, j)
	}
	return b.mk(&Term{Op: OBit, IsBool: true, Args: []*Term{t}, N: j})
}

// Low: t mod 2^n.
func (b *B) Low(t *Term, n int) *Term {
	if t.IsBool {
		return t
	}
	if t.Lo.Sign() >= 0 && t.Hi.BitLen() <= n {
		return t
	}
	if n == 1 {
		return b.Bit(t, 0)
	}
	t2 := b.expandLow(t, n)
	if t2 != t {
		return b.Low(t2, n)
	}
	if t.Op == OConst {
		return b.Const(new(big.Int).Mod(t.K, b.Pow2(n)))
	}
	if t.Op == OLow && t.N <= n {
		return t
	}
	// disjoint positional: keep low parts
	if t.Op == OLin {
		if _, ok := b.disjointBit(t, 0); ok {
			a := b.newAcc()
			for i, x := range t.Args {
				s := int(t.Cs[i].TrailingZeroBits())
				if s >= n {
					continue
				}
				if s+b.HiOf(x).BitLen() <= n {
					a.add(x, t.Cs[i])
				} else {
					a.add(b.Low(x, n-s), t.Cs[i])
				}
			}
			a.ks.Add(a.ks, new(big.Int).Mod(t.K, b.Pow2(n)))
			return a.done()
		}
	}
	return b.mk(&Term{Op: OLow, Args: []*Term{t}, N: n, Lo: big0, Hi: new(big.Int).Sub(b.Pow2(n), big1)})
}

// ---------------------------------------------------------------- printing

func (b *B) Str(t *Term, depth int) string {
	var sb strings.Builder
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		switch t.Op {
		case OConst:
			sb.WriteString(t.K.String())
			return
		case OVar, OBVar:
			sb.WriteString(t.Name)
			return
		case OTrue:
			sb.WriteString("T")
			return
		}
		if d == 0 {
			fmt.Fprintf(&sb, "#%d", t.ID)
			return
		}
		names := map[Op]string{ONot: "not", OAnd: "and", OXor: "xor", OEq0: "=0", OLe0: "<=0", OIte: "ite", OMul: "*", OMod: "mod", OBit: "bit", OLow: "low", OUF: t.Name, OLin: "+"}
		fmt.Fprintf(&sb, "(%s", names[t.Op])
		if t.Op == OBit || t.Op == OLow {
			fmt.Fprintf(&sb, "%d", t.N)
		}
		for i, x := range t.Args {
			sb.WriteByte(' ')
			if t.Op == OLin {
				fmt.Fprintf(&sb, "%s.", t.Cs[i])
			}
			rec(x, d-1)
			if i > 12 {
				sb.WriteString(" ...")
				break
			}
		}
		if t.Op == OLin {
			fmt.Fprintf(&sb, " %s", t.K)
		}
		sb.WriteByte(')')
	}
	rec(t, depth)
	return sb.String()
}
