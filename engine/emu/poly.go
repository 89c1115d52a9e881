// Package emu stands in for gnark's std/math/emulated in overlay builds: elements are multivariate polynomials over the
// emulated prime field (canonical form), so that running the repository's code yields its result as a polynomial in the
// inputs. Exact field arithmetic of gnark's package is the assumption; see DESIGN.md.
package emu

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/consensys/gnark/frontend"
)

// P is a polynomial: monomial (sorted variable ids, 4 bytes each) -> coefficient.
type P struct{ M map[string]*big.Int }

type VarDef struct {
	Name     string
	Bool     bool
	Num, Den *P // Num/Den defines the variable when Den != nil
	Val      func(ev func(*P) *big.Int) *big.Int
	Mod      *big.Int
}

// Eq records an assertion L == R (mod Mod, or over the native field when Mod is nil).
type Eq struct {
	L, R *P
	Mod  *big.Int
	Def  bool // defines auxiliary bits
}

type Ctx struct {
	Vars    []VarDef
	Asserts []Eq
	Bits    map[string][]*P // ToBits / ToBinary results by polynomial
	Fail    []string
	Conc    bool // concrete replay
	MaxMon  int

	// Atomise: a factor of a product with several terms is replaced by a variable defined to equal it, so that
	// iterated powers stay small. Definitions of equal polynomials share a variable.
	Atomise bool
	RefMode bool // reference run: the k-th new definition is matched with the k-th one of the code
	atoms   []*P
	atomVar []*P
	atomKey map[string]*P
	next    int
	Pairs   []Eq // definition in the code, definition in the reference
}

// Atom returns p, or a variable that stands for it.
func (c *Ctx) Atom(p *P, m *big.Int) *P {
	if !c.Atomise || c.Conc || len(p.M) < 2 {
		return p
	}
	p = Mod(p, m)
	if len(p.M) < 2 {
		return p
	}
	if c.RefMode {
		if c.next < len(c.atoms) {
			v := c.atomVar[c.next]
			c.Pairs = append(c.Pairs, Eq{L: c.atoms[c.next], R: p, Mod: m})
			if k := p.Key(); c.atomKey[k] == nil || c.atomKey[k] == v {
				c.atomKey[k] = v
				c.next++
				return v
			}
			c.Pairs = c.Pairs[:len(c.Pairs)-1]
			return c.atomKey[p.Key()]
		}
	}
	if c.atomKey == nil {
		c.atomKey = map[string]*P{}
	}
	k := p.Key()
	if v := c.atomKey[k]; v != nil {
		return v
	}
	v := c.newVar(VarDef{Name: fmt.Sprintf("atom%d", len(c.Vars)), Val: func(ev func(*P) *big.Int) *big.Int { return red(ev(p), m) }})
	c.atoms, c.atomVar, c.atomKey[k] = append(c.atoms, p), append(c.atomVar, v), v
	return v
}

func (c *Ctx) AMul(x, y *P, m *big.Int) *P { return Mul(c.Atom(x, m), c.Atom(y, m), m) }

func NewCtx() *Ctx { return &Ctx{Bits: map[string][]*P{}} }

func Const(v *big.Int) *P {
	p := &P{M: map[string]*big.Int{}}
	if v.Sign() != 0 {
		p.M[""] = v
	}
	return p
}
func I(v int64) *P { return Const(big.NewInt(v)) }

func (c *Ctx) Var(name string) *P { return c.newVar(VarDef{Name: name}) }
func (c *Ctx) BoolVar(name string) *P {
	return c.newVar(VarDef{Name: name, Bool: true})
}
func (c *Ctx) newVar(d VarDef) *P {
	c.Vars = append(c.Vars, d)
	id := uint32(len(c.Vars)) << 1
	if d.Bool {
		id |= 1
	}
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], id)
	return &P{M: map[string]*big.Int{string(b[:]): big.NewInt(1)}}
}

func (p *P) IsConst() (*big.Int, bool) {
	if p == nil || len(p.M) == 0 {
		return new(big.Int), true
	}
	if len(p.M) == 1 {
		if v, ok := p.M[""]; ok {
			return v, true
		}
	}
	return nil, false
}

func red(v, m *big.Int) *big.Int {
	if m == nil {
		return v
	}
	return new(big.Int).Mod(v, m)
}

// Lin returns a*x + b*y mod m (m may be nil).
func Lin(a int64, x *P, b int64, y *P, m *big.Int) *P {
	r := &P{M: make(map[string]*big.Int, len(x.M)+len(y.M))}
	ba, bb := big.NewInt(a), big.NewInt(b)
	for k, v := range x.M {
		if t := red(new(big.Int).Mul(v, ba), m); t.Sign() != 0 {
			r.M[k] = t
		}
	}
	for k, v := range y.M {
		t := new(big.Int).Mul(v, bb)
		if o, ok := r.M[k]; ok {
			t.Add(t, o)
		}
		t = red(t, m)
		if t.Sign() != 0 {
			r.M[k] = t
		} else {
			delete(r.M, k)
		}
	}
	return r
}
func Add(x, y *P, m *big.Int) *P { return Lin(1, x, 1, y, m) }
func Sub(x, y *P, m *big.Int) *P { return Lin(1, x, -1, y, m) }

func mulMon(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	out := make([]byte, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		var t string
		if j >= len(b) || (i < len(a) && a[i:i+4] <= b[j:j+4]) {
			t = a[i : i+4]
			i += 4
		} else {
			t = b[j : j+4]
			j += 4
		}
		if n := len(out); n >= 4 && t[3]&1 == 1 && string(out[n-4:]) == t {
			continue // booleans are idempotent
		}
		out = append(out, t...)
	}
	return string(out)
}

func Mul(x, y *P, m *big.Int) *P {
	r := map[string]*big.Int{}
	var t big.Int
	for k, v := range x.M {
		for l, w := range y.M {
			mm := mulMon(k, l)
			t.Mul(v, w)
			if o, ok := r[mm]; ok {
				o.Add(o, &t)
			} else {
				r[mm] = new(big.Int).Set(&t)
			}
		}
	}
	for k, v := range r {
		if m != nil {
			v.Mod(v, m)
		}
		if v.Sign() == 0 {
			delete(r, k)
		}
	}
	return &P{M: r}
}

func Mod(x *P, m *big.Int) *P { return Lin(1, x, 0, I(0), m) }

func (p *P) Mons() []string {
	ks := make([]string, 0, len(p.M))
	for k := range p.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Key is a canonical string of p.
func (p *P) Key() string {
	var sb strings.Builder
	for _, k := range p.Mons() {
		fmt.Fprintf(&sb, "%x:%x,", k, p.M[k])
	}
	return sb.String()
}

// Eval evaluates p under an assignment of variable ids (index in Vars).
func (p *P) Eval(val func(i int) *big.Int, m *big.Int) *big.Int {
	s := new(big.Int)
	for k, v := range p.M {
		t := new(big.Int).Set(v)
		for i := 0; i < len(k); i += 4 {
			t.Mul(t, val(int(binary.BigEndian.Uint32([]byte(k[i:i+4]))>>1)-1))
			if m != nil {
				t.Mod(t, m)
			}
		}
		s.Add(s, t)
	}
	if m != nil {
		s.Mod(s, m)
	}
	return s
}

// Subst replaces variables by polynomials.
func (p *P) Subst(sub map[int]*P, m *big.Int) *P {
	r := I(0)
	for k, v := range p.M {
		t := Const(v)
		rest := ""
		for i := 0; i < len(k); i += 4 {
			if q, ok := sub[int(binary.BigEndian.Uint32([]byte(k[i:i+4]))>>1)-1]; ok {
				t = Mul(t, q, m)
			} else {
				rest += k[i : i+4]
			}
		}
		t = Mul(t, &P{M: map[string]*big.Int{rest: big.NewInt(1)}}, m)
		r = Add(r, t, m)
	}
	return r
}

// VarID returns the index of a polynomial that is a single variable.
func (p *P) VarID() int {
	if len(p.M) == 1 {
		for k, v := range p.M {
			if len(k) == 4 && v.Cmp(big.NewInt(1)) == 0 {
				return int(binary.BigEndian.Uint32([]byte(k))>>1) - 1
			}
		}
	}
	return -1
}

// Script asks whether some pair differs modulo m, monomials being arbitrary integers.
func Script(pairs []Eq, m *big.Int) string {
	names := map[string]string{}
	var decl, body strings.Builder
	lin := func(p *P) string {
		if len(p.M) == 0 {
			return "0"
		}
		var ts []string
		for _, k := range p.Mons() {
			v := p.M[k]
			num := v.String()
			if v.Sign() < 0 {
				num = "(- " + new(big.Int).Neg(v).String() + ")"
			}
			if k == "" {
				ts = append(ts, num)
				continue
			}
			n, ok := names[k]
			if !ok {
				n = fmt.Sprintf("m%d", len(names))
				names[k] = n
				fmt.Fprintf(&decl, "(declare-const %s Int)\n", n)
			}
			ts = append(ts, "(* "+num+" "+n+")")
		}
		if len(ts) == 1 {
			return ts[0]
		}
		return "(+ " + strings.Join(ts, " ") + ")"
	}
	for _, e := range pairs {
		fmt.Fprintf(&body, "(not (= (mod (- %s %s) %s) 0))\n", lin(e.L), lin(e.R), m)
	}
	return "(set-logic ALL)\n" + decl.String() + "(assert (or false\n" + body.String() + "))\n(check-sat)\n"
}

// VarVal introduces a variable with a concrete value function.
func (c *Ctx) VarVal(name string, val func(ev func(*P) *big.Int) *big.Int) *P {
	return c.newVar(VarDef{Name: name, Val: val})
}

// VarAt returns variable i.
func (c *Ctx) VarAt(i int) *P {
	id := uint32(i+1) << 1
	if c.Vars[i].Bool {
		id |= 1
	}
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], id)
	return &P{M: map[string]*big.Int{string(b[:]): big.NewInt(1)}}
}

// SetBits makes the bits of p known; ToBits is toBits.
func (c *Ctx) SetBits(p *P, bits []*P, m *big.Int) {
	c.Bits[fmt.Sprintf("%s|%d|%v", p.Key(), len(bits), m)] = bits
}
func (c *Ctx) ToBits(p *P, n int, m *big.Int) []frontend.Variable { return c.toBits(p, n, m) }
