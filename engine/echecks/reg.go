//go:build emuov

// Package echecks holds the harnesses of the emulated-field overlay build: the repository's code runs on polynomials over
// the emulated field.
package echecks

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	runtimeDebug "runtime/debug"
	"sync"
	"time"

	"verif/engine/emu"
	"verif/engine/hk"
	"verif/engine/sym"
)

type P = emu.P

var Registry = map[string]func(c *hk.Check){}

// PC is one polynomial case: Run executes repository code, Ref gives the expected outputs; both see the same inputs.
// Gens are polynomials known to vanish on the allowed inputs.
type PC struct {
	Name  string
	In    int
	Bools int // boolean inputs, after the field inputs
	Mod   *big.Int
	Run   func(x *X, in []*P) []*P
	Ref   func(x *X, in []*P) []*P
	Gens  func(x *X, in []*P) []*P
	// Atomise: see emu.Ctx
	Atomise bool
	Gen     func(r *rand.Rand) []*big.Int // concrete inputs satisfying the side conditions
}

type X struct {
	C   *emu.Ctx
	API *emu.API
	Mod *big.Int
	K   *hk.Case
}

func newX(k *hk.Case, mod *big.Int) *X {
	c := emu.NewCtx()
	return &X{C: c, API: &emu.API{C: c}, Mod: mod, K: k}
}

func (x *X) add(a, b *P) *P { return emu.Add(a, b, x.Mod) }
func (x *X) sub(a, b *P) *P { return emu.Sub(a, b, x.Mod) }
func (x *X) mul(a, b *P) *P { return x.C.AMul(a, b, x.Mod) }

// vars evaluates every variable of the context under the given inputs (the first len(in) variables).
func valuation(c *emu.Ctx, in []*big.Int, mod *big.Int) func(i int) *big.Int {
	memo := map[int]*big.Int{}
	var val func(i int) *big.Int
	val = func(i int) *big.Int {
		if i < len(in) {
			return in[i]
		}
		if v, ok := memo[i]; ok {
			return v
		}
		d := c.Vars[i]
		v := new(big.Int)
		if d.Val != nil {
			v = d.Val(func(p *P) *big.Int { return p.Eval(val, nil) })
		} else if d.Den != nil {
			n, de := d.Num.Eval(val, d.Mod), d.Den.Eval(val, d.Mod)
			if inv := new(big.Int).ModInverse(de, d.Mod); inv != nil {
				v.Mod(v.Mul(n, inv), d.Mod)
			}
		}
		memo[i] = v
		return v
	}
	return val
}

// polyCase registers a case: outputs equal the reference for all inputs (modulo the asserted equations and Gens).
func polyCase(c *hk.Check, pc PC) {
	c.Case(pc.Name, func(k *hk.Case) {
		k.Poly(func() (bool, string) { return runPoly(k, pc) })
	})
}

func runPoly(k *hk.Case, pc PC) (bool, string) {
	x := newX(k, pc.Mod)
	x.C.Atomise = pc.Atomise
	var in []*P
	for i := 0; i < pc.In; i++ {
		in = append(in, x.C.Var(fmt.Sprintf("x%d", i)))
	}
	for i := 0; i < pc.Bools; i++ {
		in = append(in, x.C.BoolVar(fmt.Sprintf("b%d", i)))
	}
	outs, perr := locked(func() []*P { return pc.Run(x, in) })
	if perr != "" {
		for s := int64(1); s <= 3; s++ {
			if ok, data, msg := concrete(pc, k, s); !ok {
				k.Violation("outputs", pc.Name+": "+msg, data)
				return true, ""
			}
		}
		return false, "the code does not fit the harness: " + perr
	}
	x.C.RefMode = true
	refs := pc.Ref(x, in)
	if len(outs) != len(refs) {
		return false, fmt.Sprintf("%d outputs, expected %d", len(outs), len(refs))
	}
	var gens []*P
	if pc.Gens != nil {
		gens = pc.Gens(x, in)
	}
	for _, a := range x.C.Asserts {
		if a.Mod != nil && a.Mod.Cmp(pc.Mod) == 0 {
			gens = append(gens, x.sub(a.L, a.R))
		}
	}
	var pairs []emu.Eq
	bas := newBasis(gens, pc.Mod)
	for i := range outs {
		r := refs[i]
		if len(gens) > 0 {
			r = x.add(r, bas.combo(x.sub(outs[i], refs[i])))
		}
		pairs = append(pairs, emu.Eq{L: emu.Mod(outs[i], pc.Mod), R: r})
	}
	pairs = append(pairs, x.C.Pairs...)
	t0 := time.Now()
	res := k.Script("outputs", emu.Script(pairs, pc.Mod))
	_ = t0
	if res == sym.Unsat {
		// the side conditions must be satisfiable: a concrete run has to go through
		if ok, _, msg := concrete(pc, k, 1); ok {
			k.ReachOK("inputs", true)
		} else {
			k.ReachOK("inputs", false)
			return false, "concrete run disagrees although the identity was discharged: " + msg
		}
		return true, ""
	}
	// a counterexample: concrete inputs, run through the repository's code with constants
	for s := int64(1); s <= 5; s++ {
		if ok, data, msg := concrete(pc, k, s); !ok {
			k.Violation("outputs", pc.Name+": "+msg, data)
			return true, ""
		}
	}
	return false, "identity not discharged, but no concrete counterexample"
}

func concrete(pc PC, k *hk.Case, seed int64) (bool, map[string]any, string) {
	r := rand.New(rand.NewSource(seed))
	var vals []*big.Int
	if pc.Gen != nil {
		vals = pc.Gen(r)
	} else {
		for i := 0; i < pc.In; i++ {
			vals = append(vals, new(big.Int).Rand(r, pc.Mod))
		}
	}
	for i := len(vals) - pc.In; i < pc.Bools; i++ {
		vals = append(vals, big.NewInt(int64(r.Intn(2))))
	}
	x := newX(k, pc.Mod)
	x.C.Conc = true
	var in []*P
	var strs []string
	for _, v := range vals {
		in = append(in, emu.Const(v))
		strs = append(strs, v.String())
	}
	outs, perr := locked(func() []*P { return pc.Run(x, in) })
	refs := pc.Ref(x, in)
	data := map[string]any{"inputs": strs}
	if perr != "" {
		return false, data, "the code panics: " + perr
	}
	if len(x.C.Fail) > 0 {
		return false, data, "the circuit has no witness: " + x.C.Fail[0]
	}
	for _, a := range x.C.Asserts {
		m := a.Mod
		if l, r := emu.Sub(a.L, a.R, m), true; len(l.M) > 0 && r {
			return false, data, "an assertion of the circuit fails"
		}
	}
	for i := range outs {
		if d := x.sub(outs[i], refs[i]); len(d.M) > 0 {
			data["output"] = i
			a, _ := emu.Mod(outs[i], pc.Mod).IsConst()
			b, _ := emu.Mod(refs[i], pc.Mod).IsConst()
			data["got"], data["want"] = fmt.Sprint(a), fmt.Sprint(b)
			return false, data, fmt.Sprintf("output %d is %v, expected %v", i, a, b)
		}
	}
	return true, data, ""
}

// hooks are global: runs of repository code are serialised.
var runMu sync.Mutex

func locked(f func() []*P) (out []*P, err string) {
	runMu.Lock()
	defer runMu.Unlock()
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Sprint(e)
			debug("%s", runtimeDebug.Stack())
		}
	}()
	return f(), ""
}

func (x *X) asserts() (out []*P) {
	for _, a := range x.C.Asserts {
		out = append(out, emu.Sub(a.L, a.R, x.Mod))
	}
	return
}

// sameIdeal decides that the assertions hold exactly when the wanted polynomials vanish (linear combinations both ways).
func (x *X) sameIdeal(as, want []*P) (bool, string) {
	var pairs []emu.Eq
	ba, bw := newBasis(as, x.Mod), newBasis(want, x.Mod)
	for _, w := range want {
		pairs = append(pairs, emu.Eq{L: emu.Mod(w, x.Mod), R: ba.combo(w)})
	}
	for _, a := range as {
		pairs = append(pairs, emu.Eq{L: emu.Mod(a, x.Mod), R: bw.combo(a)})
	}
	if r := x.K.Script("assertions", emu.Script(pairs, x.Mod)); r == sym.Unsat {
		x.K.ReachOK("zero", true)
		return true, ""
	}
	x.K.Violation("assertions", x.K.Name+": the asserted equations are not the required ones", map[string]any{"asserted": len(as), "wanted": len(want)})
	return true, ""
}

// basis is a row-reduced set of polynomials that vanish.
type basis struct {
	rows map[string]*P // leading monomial -> monic polynomial
	mod  *big.Int
}

func lead(p *P) string {
	best, ok := "", false
	for k := range p.M {
		if !ok || len(k) > len(best) || (len(k) == len(best) && k > best) {
			best, ok = k, true
		}
	}
	return best
}

func newBasis(gens []*P, mod *big.Int) *basis {
	b := &basis{map[string]*P{}, mod}
	for _, g := range gens {
		g = b.red(emu.Mod(g, mod))
		if len(g.M) == 0 {
			continue
		}
		l := lead(g)
		inv := new(big.Int).ModInverse(g.M[l], mod)
		b.rows[l] = emu.Mul(g, emu.Const(inv), mod)
	}
	return b
}

// red subtracts multiples of the rows until no leading monomial of a row is left.
func (b *basis) red(p *P) *P {
	for {
		hit := ""
		found := false
		for k := range p.M {
			if _, ok := b.rows[k]; ok && (!found || len(k) > len(hit) || (len(k) == len(hit) && k > hit)) {
				hit, found = k, true
			}
		}
		if !found {
			return p
		}
		p = emu.Sub(p, emu.Mul(b.rows[hit], emu.Const(p.M[hit]), b.mod), b.mod)
	}
}

// combo returns the combination of the rows closest to p.
func (b *basis) combo(p *P) *P { return emu.Sub(p, b.red(p), b.mod) }

func debug(f string, a ...any) {
	if os.Getenv("VERIF_V") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
