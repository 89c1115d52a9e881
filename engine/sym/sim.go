package sym

import (
	"math/big"
	"math/rand"
)

// NPat is the number of random patterns simulated in parallel.
const NPat = 128

type BoolVec [NPat / 64]uint64

// Sim evaluates terms on NPat input patterns at once.
type Sim struct {
	B      *B
	R      *rand.Rand
	Biased bool
	bools  []BoolVec
	have   []bool
	small  map[int]*[NPat]int64
	large  map[int]*[NPat]*big.Int
}

func (b *B) NewSim(seed int64) *Sim {
	return &Sim{B: b, R: rand.New(rand.NewSource(seed)), small: map[int]*[NPat]int64{}, large: map[int]*[NPat]*big.Int{}}
}

func isSmall(t *Term) bool {
	return t.Lo != nil && t.Hi != nil && t.Lo.BitLen() < 62 && t.Hi.BitLen() < 62
}

func (s *Sim) done(t *Term) bool {
	if t.IsBool {
		return t.ID < len(s.have) && s.have[t.ID]
	}
	if isSmall(t) {
		_, ok := s.small[t.ID]
		return ok
	}
	_, ok := s.large[t.ID]
	return ok
}

func (s *Sim) set(t *Term, v BoolVec) {
	s.bools[t.ID] = v
	s.have[t.ID] = true
}

func (s *Sim) Run(ts ...*Term) {
	if n := s.B.NumTerms(); n > len(s.have) {
		n += n / 16
		s.bools = append(s.bools, make([]BoolVec, n-len(s.bools))...)
		s.have = append(s.have, make([]bool, n-len(s.have))...)
	}
	stack := append([]*Term{}, ts...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if s.done(x) {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, a := range x.Args {
			if !s.done(a) {
				stack = append(stack, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		s.one(x)
	}
}

func (s *Sim) BoolOf(t *Term) BoolVec { return s.bools[t.ID] }

// At returns the value in pattern i.
func (s *Sim) At(t *Term, i int) *big.Int {
	if t.IsBool {
		v := s.bools[t.ID]
		return new(big.Int).SetUint64(v[i/64] >> (i % 64) & 1)
	}
	if isSmall(t) {
		return big.NewInt(s.small[t.ID][i])
	}
	return s.large[t.ID][i]
}

// Sig is a hash of the simulated values.
func (s *Sim) Sig(t *Term) uint64 {
	h := uint64(12345)
	if t.IsBool {
		v := s.bools[t.ID]
		for _, w := range v {
			h = mix(h, w)
		}
		return h
	}
	for i := 0; i < NPat; i++ {
		h = hashBig(h, s.At(t, i))
	}
	return h
}

func (s *Sim) at64(t *Term, i int) int64 {
	if t.IsBool {
		v := s.bools[t.ID]
		return int64(v[i/64] >> (i % 64) & 1)
	}
	return s.small[t.ID][i]
}

func (s *Sim) one(t *Term) {
	var bv BoolVec
	switch t.Op {
	case OTrue:
		for i := range bv {
			bv[i] = ^uint64(0)
		}
	case OBVar:
		for i := range bv {
			bv[i] = s.R.Uint64()
		}
	case ONot:
		bv = s.bools[t.Args[0].ID]
		for i := range bv {
			bv[i] = ^bv[i]
		}
	case OAnd:
		for i := range bv {
			bv[i] = ^uint64(0)
		}
		for _, a := range t.Args {
			v := s.bools[a.ID]
			for i := range bv {
				bv[i] &= v[i]
			}
		}
	case OXor:
		for _, a := range t.Args {
			v := s.bools[a.ID]
			for i := range bv {
				bv[i] ^= v[i]
			}
		}
	case OIte:
		if t.IsBool {
			c, x, y := s.bools[t.Args[0].ID], s.bools[t.Args[1].ID], s.bools[t.Args[2].ID]
			for i := range bv {
				bv[i] = c[i]&x[i] | ^c[i]&y[i]
			}
		}
	case OBit:
		a := t.Args[0]
		if isSmall(a) && t.N < 63 {
			v := s.small[a.ID]
			for i := 0; i < NPat; i++ {
				bv[i/64] |= uint64(v[i]>>t.N&1) << (i % 64)
			}
			s.set(t, bv)
			return
		}
	}
	if t.IsBool {
		switch t.Op {
		case OTrue, OBVar, ONot, OAnd, OXor, OIte:
			s.set(t, bv)
			return
		}
		ev := s.B.NewEval(nil)
		for i := 0; i < NPat; i++ {
			for _, a := range t.Args {
				ev.memo[a] = s.At(a, i)
			}
			if ev.one(t).Sign() != 0 {
				bv[i/64] |= 1 << (i % 64)
			}
		}
		s.set(t, bv)
		return
	}
	if isSmall(t) {
		var r [NPat]int64
		switch t.Op {
		case OVar:
			n := new(big.Int).Sub(t.Hi, t.Lo)
			n.Add(n, big1)
			for i := range r {
				r[i] = new(big.Int).Rand(s.R, n).Int64() + t.Lo.Int64()
			}
			s.small[t.ID] = &r
			return
		case OConst:
			for i := range r {
				r[i] = t.K.Int64()
			}
			s.small[t.ID] = &r
			return
		case OLow:
			a := t.Args[0]
			if isSmall(a) && t.N < 62 {
				for i := range r {
					r[i] = s.at64(a, i) & (1<<t.N - 1)
				}
				s.small[t.ID] = &r
				return
			}
		case OLin:
			ok := t.K.BitLen() < 62
			// partial sums may overflow 64 bits but wrap around harmlessly: the result fits
			for j, a := range t.Args {
				if !(a.IsBool || isSmall(a)) || t.Cs[j].BitLen() > 63 {
					ok = false
				}
			}
			if ok {
				for i := range r {
					v := t.K.Int64()
					for j, a := range t.Args {
						v += s.at64(a, i) * t.Cs[j].Int64()
					}
					r[i] = v
				}
				s.small[t.ID] = &r
				return
			}
		case OIte:
			if (t.Args[1].IsBool || isSmall(t.Args[1])) && (t.Args[2].IsBool || isSmall(t.Args[2])) {
				for i := range r {
					if s.at64(t.Args[0], i) != 0 {
						r[i] = s.at64(t.Args[1], i)
					} else {
						r[i] = s.at64(t.Args[2], i)
					}
				}
				s.small[t.ID] = &r
				return
			}
		}
		ev := s.B.NewEval(nil)
		for i := 0; i < NPat; i++ {
			for _, a := range t.Args {
				ev.memo[a] = s.At(a, i)
			}
			r[i] = ev.one(t).Int64()
		}
		s.small[t.ID] = &r
		return
	}
	var r [NPat]*big.Int
	ev := s.B.NewEval(nil)
	for i := 0; i < NPat; i++ {
		if t.Op == OVar {
			n := new(big.Int).Sub(t.Hi, t.Lo)
			n.Add(n, big1)
			r[i] = new(big.Int).Rand(s.R, n)
			r[i].Add(r[i], t.Lo)
			continue
		}
		for _, a := range t.Args {
			ev.memo[a] = s.At(a, i)
		}
		r[i] = ev.one(t)
	}
	s.large[t.ID] = &r
}

// Cone lists the nodes of the DAG below ts.
func Cone(ts ...*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	stack := append([]*Term{}, ts...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		out = append(out, x)
		stack = append(stack, x.Args...)
	}
	return out
}

// SigVec is the signature of a boolean with these simulated values.
func (s *Sim) SigVec(v BoolVec) uint64 {
	h := uint64(12345)
	for _, w := range v {
		h = mix(h, w)
	}
	return h
}
