package hk

import (
	"fmt"
	"math/big"
	"os"
	"time"

	"verif/engine/sym"
)

// Layer is a set of intermediate values of the reference, used as cut points: single bits, or words.
type Layer struct {
	Name  string
	Bits  []*sym.Term // booleans
	Words []*sym.Term // integers in [0, 2^W)
	W     int
}

// Equiv proves that the gadget's constraints always hold and its outputs equal the reference, by proving internal
// equivalences layer by layer: nodes of the implementation whose simulated values agree with a reference node are
// proven equal to it by the solver and both are then replaced by a fresh variable.  Simulation only proposes
// equivalences; every one of them is decided by a query (or is syntactically identical after the replacement).
func (k *Case) Equiv(g Gadget, layers []Layer) bool { return k.EquivG(g, layers) }

// EquivG is Equiv for gadgets with an acceptance condition or a precondition.
func (k *Case) EquivG(g Gadget, layers []Layer) bool {
	b := k.B
	api, outs, err := k.Encode(g.Run, g.In, g.HintHook, g.Fresh)
	if err != nil {
		return k.Gadget(g) // panics are handled there
	}
	if len(outs) != len(g.Outs) {
		return k.Gadget(g)
	}
	accept := b.T
	if g.Accept != nil {
		accept = g.Accept
	}
	pre := b.And(g.Pre...)
	cons := api.Constraints()
	C := b.And(cons...)
	var roots []*sym.Term
	roots = append(roots, outs...)
	roots = append(roots, cons...)
	all := append([]*sym.Term{}, roots...)
	for _, l := range layers {
		all = append(all, l.Bits...)
		all = append(all, l.Words...)
	}
	for _, o := range g.Outs {
		if o != nil {
			all = append(all, o)
		}
	}
	sim := b.NewSim(int64(k.C.Seed) + 1)
	sim.Run(all...)
	for _, v := range g.In {
		sim.Run(v)
	}
	// a difference on a simulated pattern: let the solver decide the property on that input
	var eqs []*sym.Term
	if pre == b.T {
		if accept == b.T {
			eqs = append(eqs, cons...)
		} else {
			eqs = append(eqs, b.Iff(C, accept))
		}
	} else {
		eqs = append(eqs, b.Implies(pre, b.Iff(C, accept)))
	}
	for i := range outs {
		if g.Outs[i] != nil {
			eqs = append(eqs, b.Implies(b.And(pre, accept), b.FEq(outs[i], g.Outs[i])))
		}
	}
	sim.Run(eqs...)
	bad := -1
	for _, t := range eqs {
		v := sim.BoolOf(t)
		for i := 0; i < sym.NPat && bad < 0; i++ {
			if v[i/64]>>(i%64)&1 == 0 {
				bad = i
			}
		}
		if bad >= 0 {
			break
		}
	}
	if bad >= 0 {
		m := map[*sym.Term]*sym.Term{}
		var fix []*sym.Term
		for _, v := range sym.Support(all...) {
			c := b.Const(sim.At(v, bad))
			if v.IsBool {
				c = b.Bool(sim.At(v, bad).Sign() != 0)
				fix = append(fix, b.Iff(v, c))
			} else {
				fix = append(fix, b.IEq(v, c))
			}
			m[v] = c
		}
		s := b.NewSubst(m)
		goal := s.Do(b.And(eqs...))
		return k.Prove(g.Name+".equivalence", fix, goal, func(m sym.Model) (bool, map[string]any, string) { return k.Confirm(&g, m) })
	}
	xf := b.XorFlat
	if k.NormFirst {
		b.XorFlat = 48
	}
	defer func() { b.XorFlat = xf }()
	// candidates
	bySig := map[uint64][]*sym.Term{}
	for _, n := range sym.Cone(roots...) {
		if len(n.Args) == 0 || n.Op == sym.ONot {
			continue
		}
		h := sim.Sig(n)
		bySig[h] = append(bySig[h], n)
		if n.IsBool {
			v := sim.BoolOf(n)
			for i := range v {
				v[i] = ^v[i]
			}
			h2 := sim.SigVec(v)
			bySig[h2] = append(bySig[h2], b.Not(n))
		}
	}
	norm := k.NormFirst // re-normalise (flatten xors) instead of leaving it to the solver
	// nodes that are literally a reference node are cut in the layer of that node, not where another one coincides
	own := map[*sym.Term]*sym.Term{}
	pos := func(t *sym.Term) *sym.Term {
		if t.Op == sym.ONot {
			return t.Args[0]
		}
		return t
	}
	for _, l := range layers {
		for _, r := range l.Bits {
			own[pos(r)] = r
		}
		for _, r := range l.Words {
			own[r] = r
			for j := 0; j < l.W; j++ {
				rb := b.Bit(r, j)
				own[pos(rb)] = rb
			}
		}
	}
	cut := map[*sym.Term]*sym.Term{}
	ncut, nq := 0, 0
	t0 := time.Now()
	for li, l := range layers {
		s := b.NewSubst(cut)
		s.Force = norm
		type cand struct{ ref, impl, to *sym.Term }
		var cs []cand
		add := func(ref, to *sym.Term) {
			if len(ref.Args) == 0 || ref.IsBool && (ref == b.T || ref == b.F) {
				return
			}
			for _, n := range bySig[sim.Sig(ref)] {
				if o := own[pos(n)]; o != nil && pos(o) != pos(ref) {
					continue
				}
				if n.IsBool == ref.IsBool {
					cs = append(cs, cand{ref, n, to})
				}
			}
		}
		fresh := map[*sym.Term]*sym.Term{}
		for i, r := range l.Bits {
			to := b.BoolVar(fmt.Sprintf("cut!%d!%d", li, i))
			fresh[r] = to
			add(r, to)
		}
		for i, r := range l.Words {
			to := b.BitsVar(fmt.Sprintf("cutw!%d!%d", li, i), l.W)
			fresh[r] = to
			add(r, to)
			for j := 0; j < l.W; j++ {
				rb := b.Bit(r, j)
				sim.Run(rb)
				fresh[rb] = b.Bit(to, j)
				add(rb, b.Bit(to, j))
			}
			for j := 2; j < l.W; j++ { // low parts appear when bits are recombined
				rl := b.Low(r, j)
				if rl == r || rl.IsBool {
					continue
				}
				sim.Run(rl)
				fresh[rl] = b.Low(to, j)
				add(rl, b.Low(to, j))
			}
		}
		var hard []cand
		var goals []*sym.Term
		proven := []cand{}
		nhard := map[*sym.Term]int{}
		closed := map[*sym.Term]bool{} // references with a syntactic match need no query
		for _, c := range cs {
			if s.Do(c.ref) == s.Do(c.impl) {
				closed[c.ref] = true
			}
		}
		for _, c := range cs {
			x, y := s.Do(c.ref), s.Do(c.impl)
			if closed[c.ref] && x != y {
				continue
			}
			var e *sym.Term
			if c.ref.IsBool {
				e = b.Iff(b.AsBool(x), b.AsBool(y))
			} else {
				e = b.IEq(x, y)
			}
			if e == b.T {
				proven = append(proven, c)
			} else if e != b.F && nhard[c.ref] < 4 {
				nhard[c.ref]++
				hard = append(hard, c)
				goals = append(goals, e)
			}
		}
		for try := 0; len(goals) > 0 && try < 8; try++ {
			nq++
			if os.Getenv("VERIF_V") == "2" {
				fmt.Fprintln(os.Stderr, b.Str(s.Do(hard[0].ref), 6), "\n", b.Str(s.Do(hard[0].impl), 6))
			}
			t1, to := time.Now(), k.Timeout
			k.Timeout = 60 * time.Second
			o := k.Query(fmt.Sprintf("layer:%s", l.Name), b.Not(b.And(goals...)))
			k.Timeout = to
			if o.R == sym.Unsat {
				proven = append(proven, hard...)
				k.Discharged(g.Name+".layer:"+l.Name, "", time.Since(t1).Seconds())
				break
			}
			if o.R != sym.Sat {
				k.C.Note("case %s: layer %s left out (solver gave up)", k.Name, l.Name)
				break
			}
			ev := b.NewEval(o.M)
			var h2 []cand
			var g2 []*sym.Term
			for i := range goals {
				if ev.Bool(goals[i]) {
					h2 = append(h2, hard[i])
					g2 = append(g2, goals[i])
				}
			}
			if len(g2) == len(goals) {
				break
			}
			hard, goals = h2, g2
		}
		if os.Getenv("VERIF_V") != "" {
			fmt.Fprintf(os.Stderr, "  layer %s: %d candidates, %d proven\n", l.Name, len(cs), len(proven))
		}
		have := map[*sym.Term]bool{}
		for _, c := range proven {
			if c.impl.Op == sym.ONot {
				cut[c.impl.Args[0]] = b.Not(c.to)
			} else {
				cut[c.impl] = c.to
			}
			have[c.ref] = true
			ncut++
		}
		// the reference node itself becomes the variable (it is the definition of the variable)
		for r, to := range fresh {
			if have[r] || anyBit(b, r, l.W, have) {
				if r.Op == sym.ONot {
					cut[r.Args[0]] = b.Not(to)
				} else if len(r.Args) > 0 {
					cut[r] = to
				}
			}
		}
	}
	k.Discharged(fmt.Sprintf("%s.cuts[%d in %d layers, %d by query]", g.Name, ncut, len(layers), nq), "internal equivalences", time.Since(t0).Seconds())
	s := b.NewSubst(cut)
	s.Force = norm
	confirm := func(m sym.Model) (bool, map[string]any, string) {
		// the model ranges over cut variables: first try its input part, then look for an input by simulation
		if r, d, w := k.Confirm(&g, m); r {
			return r, d, w
		}
		for try := 0; try < 100; try++ {
			s2 := b.NewSim(int64(try) + 1000)
			s2.Run(eqs...)
			for _, v := range g.In {
				s2.Run(v)
			}
			for _, t := range eqs {
				v := s2.BoolOf(t)
				for i := 0; i < sym.NPat; i++ {
					if v[i/64]>>(i%64)&1 == 0 {
						mm := sym.Model{}
						for _, x := range sym.Support(g.In...) {
							mm[x.Name] = s2.At(x, i)
						}
						return k.Confirm(&g, mm)
					}
				}
			}
		}
		return false, nil, "counterexample over cut points not reached by simulation"
	}
	k.Reach(g.Name, s.Do(b.And(pre, accept)))
	P, Ac, Cs := s.Do(pre), s.Do(accept), s.Do(C)
	if !k.Prove(g.Name+".complete", []*sym.Term{P, Ac}, Cs, confirm) {
		return false
	}
	if accept != b.T && !k.Prove(g.Name+".sound", []*sym.Term{P, Cs}, Ac, confirm) {
		return false
	}
	var og []*sym.Term
	for i := range outs {
		if g.Outs[i] != nil {
			og = append(og, b.FEq(s.Do(outs[i]), s.Do(g.Outs[i])))
		}
	}
	return k.Prove(g.Name+".outputs", []*sym.Term{P, Ac}, b.And(og...), confirm)
}

func anyBit(b *sym.B, r *sym.Term, w int, have map[*sym.Term]bool) bool {
	if r.IsBool {
		return false
	}
	for j := 0; j < w; j++ {
		if have[b.Bit(r, j)] {
			return true
		}
	}
	return false
}

var _ = big.NewInt
