package sym

import (
	"math/big"
	"sort"
)

// A "chain" is an integer term of the form ite(v==k1, x1, ite(v==k2, x2, ... 0)): a table lookup by v that is zero
// elsewhere.  Sums of chains over the same v are merged pointwise, which keeps one-hot multiplexers small.

type chainEnt struct {
	k *big.Int
	x *Term
}

func (b *B) guardKey(t *Term) (v *Term, k *big.Int, ok bool) {
	if t.Op != OEq0 {
		return nil, nil, false
	}
	a := t.Args[0]
	if a.Op == OLin {
		if a.K.Sign() == 0 {
			return a, big0, true
		}
		// v = a - K
		if len(a.Args) == 1 && a.Cs[0].Cmp(big1) == 0 {
			return a.Args[0], new(big.Int).Neg(a.K), true
		}
		if a.Lo.Cmp(a.Hi) == 0 {
			return nil, nil, false
		}
		return b.Lin(a.Args, a.Cs, nil), new(big.Int).Neg(a.K), true
	}
	if a.IsBool {
		return nil, nil, false
	}
	return a, big0, true
}

func (b *B) isZeroT(t *Term) bool {
	return t == b.F || t.Op == OConst && t.K.Sign() == 0
}

// chainOf parses t as a chain; co reports that t = 1 - chain.
func (b *B) chainOf(t *Term) (v *Term, es []chainEnt, co bool, ok bool) {
	switch t.Op {
	case OEq0:
		v, k, ok := b.guardKey(t)
		if !ok {
			return nil, nil, false, false
		}
		return v, []chainEnt{{k, b.T}}, false, true
	case OIte:
		for {
			w, k, ok := b.guardKey(t.Args[0])
			if !ok || v != nil && w != v {
				return nil, nil, false, false
			}
			v = w
			es = append(es, chainEnt{k, t.Args[1]})
			t = t.Args[2]
			if b.isZeroT(t) {
				return v, es, false, true
			}
			if t.Op == OIte {
				continue
			}
			w, r, co, ok := b.chainOf(t)
			if !ok || w != v || co {
				return nil, nil, false, false
			}
			return v, append(es, r...), false, true
		}
	case OAnd:
		// one guard and something else
		var g *Term
		n, nn := 0, 0
		for _, x := range t.Args {
			if x.Op == OEq0 {
				g = x
				n++
			}
			if x.Op == ONot && x.Args[0].Op == OEq0 {
				nn++
			}
		}
		if n == 1 {
			w, k, ok := b.guardKey(g)
			if !ok {
				return nil, nil, false, false
			}
			var rest []*Term
			for _, x := range t.Args {
				if x != g {
					rest = append(rest, x)
				}
			}
			return w, []chainEnt{{k, b.And(rest...)}}, false, true
		}
		if nn == len(t.Args) {
			for _, x := range t.Args {
				w, k, ok := b.guardKey(x.Args[0])
				if !ok || v != nil && w != v {
					return nil, nil, false, false
				}
				v = w
				es = append(es, chainEnt{k, b.T})
			}
			return v, es, true, true
		}
	}
	return nil, nil, false, false
}

func (b *B) rawIte(c, x, y *Term) *Term {
	lo, hi := b.LoOf(x), b.HiOf(x)
	if b.LoOf(y).Cmp(lo) < 0 {
		lo = b.LoOf(y)
	}
	if b.HiOf(y).Cmp(hi) > 0 {
		hi = b.HiOf(y)
	}
	if lo.Cmp(hi) == 0 {
		return b.Const(lo)
	}
	return b.mk(&Term{Op: OIte, Args: []*Term{c, x, y}, Lo: lo, Hi: hi})
}

// mergeChains merges exclusive guarded atoms of the accumulator.
func (a *linAcc) mergeChains() {
	b := a.b
	type item struct {
		t  *Term
		es []chainEnt
		co bool
	}
	var groups map[*Term][]item
	n := 0
	for t := range a.m {
		if t.Op == OEq0 || t.Op == OIte && t.Args[0].Op == OEq0 || t.Op == OAnd {
			n++
		}
	}
	if n < 2 {
		return
	}
	for t, c := range a.m {
		if c.Sign() == 0 {
			continue
		}
		if t.Op == OEq0 || t.Op == OIte && t.Args[0].Op == OEq0 || t.Op == OAnd {
			if v, es, co, ok := b.chainOf(t); ok {
				if groups == nil {
					groups = map[*Term][]item{}
				}
				groups[v] = append(groups[v], item{t, es, co})
			}
		}
	}
	var keys []*Term
	for v, g := range groups {
		if len(g) >= 2 {
			keys = append(keys, v)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].ID < keys[j].ID })
	for _, v := range keys {
		g := groups[v]
		sort.Slice(g, func(i, j int) bool { return g[i].t.ID < g[j].t.ID })
		tab := map[string]*linAcc{}
		kv := map[string]*big.Int{}
		for _, it := range g {
			c := a.m[it.t]
			if c == nil || c.Sign() == 0 {
				continue
			}
			delete(a.m, it.t)
			if it.co {
				a.ks.Add(a.ks, c)
				c = new(big.Int).Neg(c)
			}
			for _, e := range it.es {
				s := e.k.String()
				if tab[s] == nil {
					tab[s] = b.newAcc()
					kv[s] = e.k
				}
				tab[s].add(e.x, c)
			}
		}
		var ks []string
		for s := range tab {
			ks = append(ks, s)
		}
		sort.Slice(ks, func(i, j int) bool { return kv[ks[i]].Cmp(kv[ks[j]]) < 0 })
		r := b.F
		// gcd of all table entries is not extracted: the merged chain enters with coefficient one
		for i := len(ks) - 1; i >= 0; i-- {
			x := tab[ks[i]].done()
			if b.isZeroT(x) {
				continue
			}
			c := b.Eq0(b.Lin([]*Term{v}, []*big.Int{big1}, new(big.Int).Neg(kv[ks[i]])))
			if c == b.F {
				continue
			}
			r = b.rawIte(c, x, r)
		}
		a.add(r, big1)
	}
}
