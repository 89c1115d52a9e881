package sym

import (
	"crypto/sha256"
	"fmt"
	"math/big"
)

// Model assigns variables (integers; booleans as 0/1).
type Model map[string]*big.Int

// Eval evaluates a term under a model. Missing variables default to their lower bound.
type Evaluator struct {
	B    *B
	M    Model
	memo map[*Term]*big.Int
}

func (b *B) NewEval(m Model) *Evaluator {
	return &Evaluator{B: b, M: m, memo: map[*Term]*big.Int{}}
}

func boolBig(v bool) *big.Int {
	if v {
		return big1
	}
	return big0
}

func (e *Evaluator) Bool(t *Term) bool { return e.Int(t).Sign() != 0 }

func (e *Evaluator) Int(t *Term) *big.Int {
	if r, ok := e.memo[t]; ok {
		return r
	}
	// iterative to avoid deep recursion
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if _, ok := e.memo[x]; ok {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, a := range x.Args {
			if _, ok := e.memo[a]; !ok {
				stack = append(stack, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		e.memo[x] = e.one(x)
	}
	return e.memo[t]
}

func (e *Evaluator) one(t *Term) *big.Int {
	arg := func(i int) *big.Int { return e.memo[t.Args[i]] }
	switch t.Op {
	case OConst:
		return t.K
	case OVar:
		if v, ok := e.M[t.Name]; ok {
			return v
		}
		return t.Lo
	case OBVar:
		if v, ok := e.M[t.Name]; ok {
			return v
		}
		return big0
	case OTrue:
		return big1
	case ONot:
		return boolBig(arg(0).Sign() == 0)
	case OAnd:
		for i := range t.Args {
			if arg(i).Sign() == 0 {
				return big0
			}
		}
		return big1
	case OXor:
		v := false
		for i := range t.Args {
			v = v != (arg(i).Sign() != 0)
		}
		return boolBig(v)
	case OEq0:
		return boolBig(arg(0).Sign() == 0)
	case OLe0:
		return boolBig(arg(0).Sign() <= 0)
	case OLin:
		s := new(big.Int).Set(t.K)
		tmp := new(big.Int)
		for i := range t.Args {
			v := arg(i)
			if v.Sign() == 0 {
				continue
			}
			if v.IsInt64() && v.Int64() == 1 {
				s.Add(s, t.Cs[i])
			} else {
				s.Add(s, tmp.Mul(v, t.Cs[i]))
			}
		}
		return s
	case OIte:
		if arg(0).Sign() != 0 {
			return arg(1)
		}
		return arg(2)
	case OMul:
		return new(big.Int).Mul(arg(0), arg(1))
	case OMod:
		return new(big.Int).Mod(arg(0), t.K)
	case ODiv:
		return new(big.Int).Div(arg(0), t.K)
	case OBit:
		v := arg(0)
		if v.Sign() < 0 {
			v = new(big.Int).Mod(v, e.B.Pow2(t.N+1))
		}
		return big.NewInt(int64(v.Bit(t.N)))
	case OLow:
		return new(big.Int).Mod(arg(0), e.B.Pow2(t.N))
	case OUF:
		args := make([]*big.Int, len(t.Args))
		for i := range args {
			args[i] = arg(i)
		}
		if f, ok := e.B.UFDef[t.Name]; ok {
			return f(args)
		}
		// default interpretation: a hash of name and arguments reduced into range
		h := sha256.New()
		h.Write([]byte(t.Name))
		for _, a := range args {
			fmt.Fprintf(h, "|%s", a)
		}
		if t.IsBool {
			return big.NewInt(int64(h.Sum(nil)[0] & 1))
		}
		v := new(big.Int).SetBytes(h.Sum(nil))
		n := new(big.Int).Sub(t.Hi, t.Lo)
		n.Add(n, big1)
		v.Mod(v, n)
		return v.Add(v, t.Lo)
	}
	panic("eval: op")
}

// Support collects the variables a term depends on.
func Support(ts ...*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	stack := append([]*Term{}, ts...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x.Op == OVar || x.Op == OBVar {
			out = append(out, x)
		}
		for _, a := range x.Args {
			if !seen[a] {
				stack = append(stack, a)
			}
		}
	}
	return out
}

// DagSize counts distinct nodes.
func DagSize(ts ...*Term) int {
	seen := map[*Term]bool{}
	stack := append([]*Term{}, ts...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		stack = append(stack, x.Args...)
	}
	return len(seen)
}

// Subst rewrites terms replacing keys of m (matched on the original nodes).
type Subst struct {
	B     *B
	M     map[*Term]*Term
	memo  map[*Term]*Term
	Force bool // rebuild (re-normalise) unchanged nodes too
}

func (b *B) NewSubst(m map[*Term]*Term) *Subst {
	return &Subst{B: b, M: m, memo: map[*Term]*Term{}}
}

func (s *Subst) Do(t *Term) *Term {
	if r, ok := s.memo[t]; ok {
		return r
	}
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if _, ok := s.memo[x]; ok {
			stack = stack[:len(stack)-1]
			continue
		}
		if r, ok := s.M[x]; ok {
			s.memo[x] = r
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, a := range x.Args {
			if _, ok := s.memo[a]; !ok {
				stack = append(stack, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		s.memo[x] = s.rebuild(x)
	}
	return s.memo[t]
}

func (s *Subst) rebuild(t *Term) *Term {
	b := s.B
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	changed := false
	for i, a := range t.Args {
		args[i] = s.memo[a]
		if args[i] != a {
			changed = true
		}
	}
	if !changed && !s.Force {
		return t
	}
	switch t.Op {
	case ONot:
		return b.Not(b.AsBool(args[0]))
	case OAnd:
		return b.And(args...)
	case OXor:
		return b.Xor(args...)
	case OEq0:
		return b.Eq0(args[0])
	case OLe0:
		return b.Le0(args[0])
	case OLin:
		return b.Lin(args, t.Cs, t.K)
	case OIte:
		return b.Ite(args[0], args[1], args[2])
	case OMul:
		return b.IMul(args[0], args[1])
	case OMod:
		return b.Mod(args[0], t.K)
	case ODiv:
		return b.Div(args[0], t.K)
	case OBit:
		return b.Bit(args[0], t.N)
	case OLow:
		return b.Low(args[0], t.N)
	case OUF:
		return b.mk(&Term{Op: OUF, Name: t.Name, Args: args, Lo: t.Lo, Hi: t.Hi, IsBool: t.IsBool})
	}
	panic("rebuild")
}
