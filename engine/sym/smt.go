package sym

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Emit translates a conjunction of boolean terms to a QF_BV / QF_UFBV SMT-LIB script.
type emitter struct {
	b      *B
	sb     *bytes.Buffer
	done   map[*Term]bool
	side   []string
	divs   map[string]divPart
	ufs    map[string]string
	usesUF bool
	vars   []*Term
}

func sname(t *Term) string {
	return "t" + strconv.Itoa(t.ID)
}

func bvlit(v *big.Int, w int) string {
	m := v
	if v.Sign() < 0 {
		m = new(big.Int).Add(v, new(big.Int).Lsh(big1, uint(w)))
	}
	return fmt.Sprintf("(_ bv%s %d)", m.String(), w)
}

// sext expresses integer term t as a bit-vector of width w (w >= width(t))
func (e *emitter) bv(t *Term, w int) string {
	if t.IsBool {
		return fmt.Sprintf("(ite %s %s %s)", sname(t), bvlit(big1, w), bvlit(big0, w))
	}
	if t.Op == OConst {
		return bvlit(t.K, w)
	}
	tw := e.b.width(t)
	switch {
	case tw == w:
		return sname(t)
	case tw < w:
		if t.Lo.Sign() >= 0 {
			return fmt.Sprintf("((_ zero_extend %d) %s)", w-tw, sname(t))
		}
		return fmt.Sprintf("((_ sign_extend %d) %s)", w-tw, sname(t))
	}
	return fmt.Sprintf("((_ extract %d 0) %s)", w-1, sname(t))
}

func (e *emitter) emit(root *Term) {
	stack := []*Term{root}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if e.done[x] {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, a := range x.Args {
			if !e.done[a] {
				stack = append(stack, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		e.one(x)
		e.done[x] = true
	}
}

func (e *emitter) one(t *Term) {
	b := e.b
	w := 0
	if !t.IsBool {
		w = b.width(t)
	}
	def := func(s string) {
		if t.IsBool {
			fmt.Fprintf(e.sb, "(define-fun %s () Bool %s)\n", sname(t), s)
		} else {
			fmt.Fprintf(e.sb, "(define-fun %s () (_ BitVec %d) %s)\n", sname(t), w, s)
		}
	}
	switch t.Op {
	case OConst:
		// inlined by bv()
	case OVar:
		e.vars = append(e.vars, t)
		fmt.Fprintf(e.sb, "(declare-const %s (_ BitVec %d))\n", sname(t), w)
		e.side = append(e.side, fmt.Sprintf("(bvsge %s %s)", sname(t), bvlit(t.Lo, w)), fmt.Sprintf("(bvsle %s %s)", sname(t), bvlit(t.Hi, w)))
	case OBVar:
		e.vars = append(e.vars, t)
		fmt.Fprintf(e.sb, "(declare-const %s Bool)\n", sname(t))
	case OTrue:
		def("true")
	case ONot:
		def("(not " + sname(t.Args[0]) + ")")
	case OAnd, OXor:
		var s strings.Builder
		if t.Op == OAnd {
			s.WriteString("(and")
		} else {
			s.WriteString("(xor")
		}
		for _, a := range t.Args {
			s.WriteByte(' ')
			s.WriteString(sname(a))
		}
		s.WriteByte(')')
		def(s.String())
	case OEq0:
		def(e.cmp0(t.Args[0], "="))
	case OLe0:
		def(e.cmp0(t.Args[0], "bvsle"))
	case OLin:
		def(e.lin(t, w))
	case OIte:
		if t.IsBool {
			def(fmt.Sprintf("(ite %s %s %s)", sname(t.Args[0]), sname(t.Args[1]), sname(t.Args[2])))
		} else {
			def(fmt.Sprintf("(ite %s %s %s)", sname(t.Args[0]), e.bv(t.Args[1], w), e.bv(t.Args[2], w)))
		}
	case OMul:
		def(fmt.Sprintf("(bvmul %s %s)", e.bv(t.Args[0], w), e.bv(t.Args[1], w)))
	case ODiv:
		x := t.Args[0]
		xw := b.width(x)
		if n := t.K.BitLen() - 1; int(t.K.TrailingZeroBits()) == n {
			s := fmt.Sprintf("((_ extract %d %d) %s)", xw-1, n, e.bv(x, xw))
			if n >= xw {
				s = fmt.Sprintf("((_ extract %d %d) %s)", xw-1, xw-1, e.bv(x, xw))
			}
			sw := xw - n
			if sw < 1 {
				sw = 1
			}
			if sw < w {
				s = fmt.Sprintf("((_ sign_extend %d) %s)", w-sw, s)
			} else if sw > w {
				s = fmt.Sprintf("((_ extract %d 0) %s)", w-1, s)
			}
			def(s)
			return
		}
		if p, ok := e.divs[divKey(t)]; ok {
			def(resize(p.name, p.w, w))
			return
		}
		ww := xw
		if kw := t.K.BitLen() + 1; kw > ww {
			ww = kw
		}
		if w > ww {
			ww = w
		}
		ww++
		r := "r" + strconv.Itoa(t.ID)
		e.divs[divKey(t)] = divPart{r, ww}
		fmt.Fprintf(e.sb, "(declare-const %s (_ BitVec %d))\n", r, ww)
		fmt.Fprintf(e.sb, "(declare-const %s (_ BitVec %d))\n", sname(t), w)
		e.side = append(e.side,
			fmt.Sprintf("(bvsge %s %s)", sname(t), bvlit(t.Lo, w)), fmt.Sprintf("(bvsle %s %s)", sname(t), bvlit(t.Hi, w)),
			fmt.Sprintf("(bvsge %s %s)", r, bvlit(big0, ww)), fmt.Sprintf("(bvslt %s %s)", r, bvlit(t.K, ww)),
			fmt.Sprintf("(= %s (bvadd %s (bvmul %s %s)))", e.bv(x, ww), r, e.bv(t, ww), bvlit(t.K, ww)))
	case OMod:
		// arg = q*p + r
		if p, ok := e.divs[divKey(t)]; ok {
			def(resize(p.name, p.w, w))
			return
		}
		x := t.Args[0]
		lo, hi := b.LoOf(x), b.HiOf(x)
		ql := new(big.Int)
		ql.DivMod(lo, t.K, new(big.Int))
		qh := new(big.Int)
		qh.DivMod(hi, t.K, new(big.Int))
		ww := b.width(x)
		if w > ww {
			ww = w
		}
		ww++
		q := "q" + strconv.Itoa(t.ID)
		e.divs[divKey(t)] = divPart{q, ww}
		fmt.Fprintf(e.sb, "(declare-const %s (_ BitVec %d))\n", q, ww)
		fmt.Fprintf(e.sb, "(declare-const %s (_ BitVec %d))\n", sname(t), w)
		e.side = append(e.side,
			fmt.Sprintf("(bvsge %s %s)", sname(t), bvlit(big0, w)), fmt.Sprintf("(bvsle %s %s)", sname(t), bvlit(t.Hi, w)),
			fmt.Sprintf("(bvsge %s %s)", q, bvlit(ql, ww)), fmt.Sprintf("(bvsle %s %s)", q, bvlit(qh, ww)),
			fmt.Sprintf("(= %s (bvadd %s (bvmul %s %s)))", e.bv(x, ww), e.bv(t, ww), q, bvlit(t.K, ww)))
	case OBit:
		x := t.Args[0]
		xw := b.width(x)
		j := t.N
		if j >= xw {
			j = xw - 1
		}
		if x.IsBool {
			def(sname(x))
		} else {
			def(fmt.Sprintf("(= ((_ extract %d %d) %s) #b1)", j, j, e.bv(x, xw)))
		}
	case OLow:
		x := t.Args[0]
		xw := b.width(x)
		s := e.bv(x, xw)
		if xw < t.N {
			s = fmt.Sprintf("((_ sign_extend %d) %s)", t.N-xw, s)
		} else if xw > t.N {
			s = fmt.Sprintf("((_ extract %d 0) %s)", t.N-1, s)
		}
		def("(concat #b0 " + s + ")")
	case OUF:
		e.usesUF = true
		// result width: width(t); args: own widths, encoded in the function name
		var nm strings.Builder
		fmt.Fprintf(&nm, "uf_%s_%d", t.Name, len(t.Args))
		var sorts, as strings.Builder
		for _, a := range t.Args {
			// a fixed argument width per function so that congruence is not lost
			aw := 264
			if t.N == 1 {
				aw = 1
			}
			if !a.IsBool && b.width(a) > aw {
				panic("UF argument too wide")
			}
			if a.IsBool && t.N == 1 {
				sorts.WriteString("Bool ")
				as.WriteString(" " + sname(a))
			} else {
				fmt.Fprintf(&sorts, "(_ BitVec %d) ", aw)
				as.WriteString(" " + e.bv(a, aw))
			}
		}
		res := "Bool"
		if !t.IsBool {
			res = fmt.Sprintf("(_ BitVec %d)", w)
		}
		if _, ok := e.ufs[nm.String()]; !ok {
			e.ufs[nm.String()] = res
			fmt.Fprintf(e.sb, "(declare-fun |%s| (%s) %s)\n", nm.String(), sorts.String(), res)
		}
		def(fmt.Sprintf("(|%s|%s)", nm.String(), as.String()))
		if !t.IsBool {
			e.side = append(e.side, fmt.Sprintf("(bvsge %s %s)", sname(t), bvlit(t.Lo, w)), fmt.Sprintf("(bvsle %s %s)", sname(t), bvlit(t.Hi, w)))
		}
		if t.Name == "mulmod" {
			x, y := t.Args[0], t.Args[1]
			ax := func(u, v *Term) {
				uw := b.width(u)
				if u.IsBool {
					panic("mulmod bool")
				}
				e.side = append(e.side,
					fmt.Sprintf("(=> (= %s %s) (= %s %s))", e.bv(u, uw), bvlit(big0, uw), sname(t), bvlit(big0, w)),
					fmt.Sprintf("(=> (= %s %s) (= %s %s))", e.bv(u, uw), bvlit(big1, uw), e.bv(t, 264), e.bv(v, 264)),
					fmt.Sprintf("(=> (= %s %s) (or (= %s %s) (= %s %s)))", sname(t), bvlit(big0, w), e.bv(u, uw), bvlit(big0, uw), e.bv(v, b.width(v)), bvlit(big0, b.width(v))))
			}
			ax(x, y)
			ax(y, x)
		}
	default:
		panic("emit op")
	}
}

// cmp0 emits (t == 0) or (t <= 0); for linear terms negative coefficients are moved to the other side.
func (e *emitter) cmp0(t *Term, op string) string {
	b := e.b
	w := b.width(t)
	if t.Op == OLin {
		pos, neg := []int{}, []int{}
		for i := range t.Args {
			if t.Cs[i].Sign() > 0 {
				pos = append(pos, i)
			} else {
				neg = append(neg, i)
			}
		}
		kp, kn := big0, big0
		if t.K.Sign() > 0 {
			kp = t.K
		} else {
			kn = new(big.Int).Neg(t.K)
		}
		// width for both sides
		ww := e.sideWidth(t, pos, kp, false)
		if w2 := e.sideWidth(t, neg, kn, true); w2 > ww {
			ww = w2
		}
		return fmt.Sprintf("(%s %s %s)", op, e.linSum(t, pos, kp, false, ww), e.linSum(t, neg, kn, true, ww))
	}
	return fmt.Sprintf("(%s %s %s)", op, e.bv(t, w), bvlit(big0, w))
}

func (e *emitter) sideWidth(t *Term, idx []int, k *big.Int, neg bool) int {
	lo, hi := new(big.Int).Set(k), new(big.Int).Set(k)
	for _, i := range idx {
		c := new(big.Int).Set(t.Cs[i])
		if neg {
			c.Neg(c)
		}
		lo.Add(lo, new(big.Int).Mul(c, e.b.LoOf(t.Args[i])))
		hi.Add(hi, new(big.Int).Mul(c, e.b.HiOf(t.Args[i])))
	}
	return e.b.width(&Term{Lo: lo, Hi: hi})
}

func (e *emitter) lin(t *Term, w int) string {
	idx := make([]int, len(t.Args))
	for i := range idx {
		idx[i] = i
	}
	return e.linSum(t, idx, t.K, false, w)
}

// linSum emits sum of (±cs[i]*args[i]) + k at width w (arithmetic mod 2^w, exact since w is wide enough).
// Boolean atoms with power-of-two coefficients are packed into words.
func (e *emitter) linSum(t *Term, idx []int, k *big.Int, neg bool, w int) string {
	type pk struct {
		sh int
		t  *Term
	}
	byShift := map[int][]*Term{}
	maxShift := -1
	var parts []string
	for _, i := range idx {
		c := t.Cs[i]
		if neg {
			c = new(big.Int).Neg(c)
		}
		x := t.Args[i]
		if x.IsBool && c.Sign() > 0 {
			s := int(c.TrailingZeroBits())
			if c.BitLen()-1 == s && s < w {
				byShift[s] = append(byShift[s], x)
				if s > maxShift {
					maxShift = s
				}
				continue
			}
		}
		if c.Cmp(big1) == 0 {
			parts = append(parts, e.bv(x, w))
		} else if c.Cmp(bigM) == 0 {
			parts = append(parts, "(bvneg "+e.bv(x, w)+")")
		} else if x.IsBool {
			parts = append(parts, fmt.Sprintf("(ite %s %s %s)", sname(x), bvlit(c, w), bvlit(big0, w)))
		} else {
			s := int(c.TrailingZeroBits())
			if c.Sign() > 0 && c.BitLen()-1 == s {
				if s < w {
					parts = append(parts, fmt.Sprintf("(bvshl %s %s)", e.bv(x, w), bvlit(bi(int64(s)), w)))
				}
			} else {
				parts = append(parts, fmt.Sprintf("(bvmul %s %s)", bvlit(c, w), e.bv(x, w)))
			}
		}
	}
	// pack words
	for len(byShift) > 0 {
		var s strings.Builder
		n := 0
		nonzero := 0
		for j := maxShift; j >= 0; j-- {
			l := byShift[j]
			if len(l) > 0 {
				x := l[len(l)-1]
				if len(l) == 1 {
					delete(byShift, j)
				} else {
					byShift[j] = l[:len(l)-1]
				}
				fmt.Fprintf(&s, " (ite %s #b1 #b0)", sname(x))
				nonzero++
			} else {
				s.WriteString(" #b0")
			}
			n++
		}
		str := s.String()
		if n > 1 {
			str = "(concat" + str + ")"
		}
		if n < w {
			str = fmt.Sprintf("((_ zero_extend %d) %s)", w-n, str)
		}
		parts = append(parts, str)
	}
	if k.Sign() != 0 {
		parts = append(parts, bvlit(k, w))
	}
	if len(parts) == 0 {
		return bvlit(big0, w)
	}
	r := parts[0]
	if len(parts) > 1 {
		r = "(bvadd " + strings.Join(parts, " ") + ")"
	}
	return r
}

// Script builds the SMT-LIB text asserting all of ts.
func (b *B) Script(ts []*Term, getModel bool) (string, []*Term) {
	e := &emitter{b: b, sb: &bytes.Buffer{}, done: map[*Term]bool{}, divs: map[string]divPart{}, ufs: map[string]string{}}
	for _, t := range ts {
		e.emit(t)
	}
	var out bytes.Buffer
	if getModel {
		out.WriteString("(set-option :produce-models true)\n")
	}
	if e.usesUF {
		out.WriteString("(set-logic QF_UFBV)\n")
	} else {
		out.WriteString("(set-logic QF_BV)\n")
	}
	out.Write(e.sb.Bytes())
	for _, s := range e.side {
		out.WriteString("(assert " + s + ")\n")
	}
	for _, t := range ts {
		out.WriteString("(assert " + sname(t) + ")\n")
	}
	out.WriteString("(check-sat)\n")
	if getModel && len(e.vars) > 0 {
		out.WriteString("(get-value (")
		for _, v := range e.vars {
			out.WriteString(sname(v) + " ")
		}
		out.WriteString("))\n")
	}
	return out.String(), e.vars
}

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

// SolverStats accumulates over a run.
type SolverStats struct {
	Queries int64
	Nanos   int64
	ByName  sync.Map
}

var Stats SolverStats

// TmpDir for query files.
var TmpDir string
var KeepFiles = os.Getenv("VERIF_KEEP") != ""
var qn int64

// Solvers used in the portfolio.
type SolverCmd struct {
	Name string
	Args []string
}

var Portfolio = []SolverCmd{
	{"z3-new", []string{"z3-new", "-smt2"}},
	{"cvc5", []string{"cvc5", "--lang=smt2"}},
}

var slots = make(chan struct{}, 8)

// Solve runs the portfolio on the conjunction of ts.
func (b *B) Solve(ts []*Term, timeout time.Duration, portfolio ...SolverCmd) (Result, Model, string, error) {
	var live []*Term
	for _, t := range ts {
		if t == b.F {
			// still a decided query, but trivially so
			live = []*Term{b.F}
			break
		}
		if t != b.T {
			live = append(live, t)
		}
	}
	if len(live) == 0 {
		live = []*Term{b.T}
	}
	script, vars := b.Script(live, true)
	if len(portfolio) == 0 {
		portfolio = Portfolio
	}
	return RunScript(script, vars, timeout, portfolio)
}

// Ctx ends all solver runs when cancelled (Abort).
var Ctx, Abort = context.WithCancel(context.Background())

// SolverMem caps the address space of one solver process (bytes).
var SolverMem = "4500000000"

func RunScript(script string, vars []*Term, timeout time.Duration, portfolio []SolverCmd) (Result, Model, string, error) {
	n := atomic.AddInt64(&qn, 1)
	dir := TmpDir
	if dir == "" {
		dir = os.TempDir()
	}
	fn := filepath.Join(dir, fmt.Sprintf("q%d_%d.smt2", os.Getpid(), n))
	if err := os.WriteFile(fn, []byte(script), 0o644); err != nil {
		return Unknown, nil, "", err
	}
	if !KeepFiles {
		defer os.Remove(fn)
	}
	slots <- struct{}{}
	defer func() { <-slots }()
	start := time.Now()
	ctx, cancel := context.WithTimeout(Ctx, timeout)
	defer cancel()
	type ans struct {
		r    Result
		m    Model
		name string
		err  error
	}
	ch := make(chan ans, len(portfolio))
	for _, s := range portfolio {
		s := s
		go func() {
			cmd := exec.CommandContext(ctx, "prlimit", append(append([]string{"--as=" + SolverMem}, s.Args...), fn)...)
			var out bytes.Buffer
			cmd.Stdout = &out
			cmd.Stderr = &out
			_ = cmd.Run()
			txt := out.String()
			first := txt
			if i := strings.IndexByte(txt, '\n'); i >= 0 {
				first = txt[:i]
			}
			first = strings.TrimSpace(first)
			switch first {
			case "unsat":
				ch <- ans{Unsat, nil, s.Name, nil}
			case "sat":
				m, err := parseModel(txt[strings.IndexByte(txt, '\n')+1:], vars)
				ch <- ans{Sat, m, s.Name, err}
			default:
				if len(txt) > 300 {
					txt = txt[:300]
				}
				ch <- ans{Unknown, nil, s.Name, fmt.Errorf("%s: %s", s.Name, txt)}
			}
		}()
	}
	var last ans
	for range portfolio {
		a := <-ch
		last = a
		if a.r != Unknown {
			cancel()
			break
		}
	}
	atomic.AddInt64(&Stats.Queries, 1)
	atomic.AddInt64(&Stats.Nanos, int64(time.Since(start)))
	if last.r != Unknown {
		v, _ := Stats.ByName.LoadOrStore(last.name, new(int64))
		atomic.AddInt64(v.(*int64), 1)
	}
	return last.r, last.m, last.name, last.err
}

func parseModel(txt string, vars []*Term) (Model, error) {
	m := Model{}
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[sname(v)] = v
	}
	toks := tokenize(txt)
	for i := 0; i+2 < len(toks); i++ {
		if toks[i] != "(" {
			continue
		}
		v, ok := byName[toks[i+1]]
		if !ok {
			continue
		}
		val := toks[i+2]
		var x *big.Int
		switch {
		case val == "true":
			x = big.NewInt(1)
		case val == "false":
			x = big.NewInt(0)
		case strings.HasPrefix(val, "#x"):
			x, _ = new(big.Int).SetString(val[2:], 16)
			x = signed(x, 4*(len(val)-2))
		case strings.HasPrefix(val, "#b"):
			x, _ = new(big.Int).SetString(val[2:], 2)
			x = signed(x, len(val)-2)
		case val == "(" && i+5 < len(toks) && toks[i+3] == "_":
			x, _ = new(big.Int).SetString(strings.TrimPrefix(toks[i+4], "bv"), 10)
			w, _ := strconv.Atoi(toks[i+5])
			x = signed(x, w)
		default:
			return nil, fmt.Errorf("bad model value %s", val)
		}
		m[v.Name] = x
	}
	return m, nil
}

func signed(x *big.Int, w int) *big.Int {
	if x.Bit(w-1) == 1 {
		return new(big.Int).Sub(x, new(big.Int).Lsh(big1, uint(w)))
	}
	return x
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		switch c := s[i]; {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// divPart names the other half of a division already encoded (the remainder of a quotient, or the reverse).
type divPart struct {
	name string
	w    int
}

func divKey(t *Term) string { return strconv.Itoa(t.Args[0].ID) + "/" + t.K.String() }

func resize(s string, from, to int) string {
	switch {
	case from < to:
		return fmt.Sprintf("((_ sign_extend %d) %s)", to-from, s)
	case from > to:
		return fmt.Sprintf("((_ extract %d 0) %s)", to-1, s)
	}
	return s
}
