//go:build go1.23

// Package nchecks holds the checks of ordinary (non-circuit) Go code.
package nchecks

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync"
	"time"

	"verif/engine/gosym"
	"verif/engine/hk"
	"verif/engine/sym"
	"verif/engine/xt/go/ssa"
)

var Registry = map[string]func(c *hk.Check){}

const (
	zk     = "github.com/brevis-network/zk-utils/"
	pUtils = zk + "common/utils"
	pProof = zk + "common/proof"
	pCirc  = zk + "common/circuits"
	pKec   = zk + "circuits/gadgets/keccak"
	pSmt   = zk + "circuits/fabric/smt"
	pFe    = zk + "circuits/gadgets/ed25519/test/field"
	pGeth  = "github.com/ethereum/go-ethereum/"
)

var (
	loadOnce sync.Once
	prog     *gosym.Prog
	loadErr  error
)

var stdRoots = []string{"internal/stringslite", "encoding/hex", "encoding/binary", "strconv", "time", "unicode/utf8", "math/bits", "slices", "cmp", "strings", "bytes", "errors"}

// load builds the SSA form of the repository's packages once per run.
func load(c *hk.Check, pkgs ...string) *gosym.Prog {
	loadOnce.Do(func() {
		dir := os.Getenv("VERIF_ENGINE")
		if dir == "" {
			dir = c.Dir + "/engine"
		}
		prog, loadErr = gosym.Load(dir, os.Getenv("VERIF_MODFILE"), os.Getenv("VERIF_NTAGS"), append(append([]string{}, stdRoots...), pkgs...)...)
	})
	if loadErr != nil {
		c.Err("loading the source: %v", loadErr)
		return nil
	}
	return prog
}

// N describes one symbolic run of one function.
type N struct {
	Name string
	Pkg  string
	Fn   string
	// Setup builds the arguments; it may return an Observe to read memory besides the results.
	Setup func(m *gosym.M) (args []gosym.Val, assume []*sym.Term)
	// Observe returns the values the specification speaks about (default: the results).
	Observe func(m *gosym.M, args []gosym.Val, o gosym.Out) []gosym.Val
	// Spec says what must hold of the observed values (vals is nil after a panic).
	Spec func(m *gosym.M, vals []gosym.Val, panicked bool) *sym.Term
	// Parts optionally splits the specification into separately decided conjuncts.
	// Real runs the repository's own code on the inputs ev gives.
	Real    func(m *gosym.M, ev func(*sym.Term) *big.Int) []any
	Samples int
	// Abstract: a model stands for a called function, so that only the specification, and not the values, can be
	// compared with a real run.
	Abstract bool
}

func run(c *hk.Check, p *gosym.Prog, n N) {
	c.Case(n.Name, func(k *hk.Case) {
		fn, err := p.Func(n.Pkg, n.Fn)
		if err != nil {
			c.Err("%s: %v", n.Name, err)
			return
		}
		runFn(k, p, fn, n)
	})
}

func runFn(k *hk.Case, p *gosym.Prog, fn *ssa.Function, n N) {
	c := k.C
	m := gosym.New(k.B, p)
	registerStubs(m)
	t0 := time.Now()
	args, asm := n.Setup(m)
	outs, err := m.Run(fn, args, asm...)
	if os.Getenv("VERIF_V") != "" {
		fmt.Fprintf(os.Stderr, "  %s: %d outcomes, %d steps, %d prune queries (%.2fs), %.2fs, err %v\n", n.Name, len(outs), m.Steps, m.Queries, m.QTime.Seconds(), time.Since(t0).Seconds(), err)
	}
	for f := range m.Funcs {
		c.Funcs(f)
	}
	if err != nil {
		// the encoding does not cover this code: look for a concrete violation, and report the gap
		hunt(k, m, n, args, asm)
		c.Err("%s: the encoding does not cover the code: %v", n.Name, err)
		return
	}
	type vc struct {
		cond, goal *sym.Term
		vals       []gosym.Val
		panicked   bool
	}
	var vcs []vc
	for _, o := range outs {
		var v vc
		m.In(o, func() {
			v.cond, v.panicked = o.Cond, o.Panic
			if !o.Panic {
				v.vals = observe(m, n, args, o)
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						c.Err("%s: specification: %v", n.Name, r)
						v.goal = k.B.F
					}
				}()
				v.goal = n.Spec(m, v.vals, o.Panic)
			}()
			v.vals = freeze(m, v.vals)
		})
		vcs = append(vcs, v)
	}
	validate(k, m, n, args, asm, func(ev *sym.Evaluator) (int, []gosym.Val, bool) {
		for i, v := range vcs {
			if ev.Bool(v.cond) {
				return i, v.vals, v.panicked
			}
		}
		return -1, nil, false
	})
	k.Reach(n.Name, asm...)
	failed := 0
	for i, v := range vcs {
		goals := []*sym.Term{v.goal}
		if v.goal.Op == sym.OAnd && len(v.goal.Args) > 1 {
			goals = v.goal.Args
		}
		for _, ch := range chunks(goals, 16) {
			g := k.B.And(ch...)
			name := fmt.Sprintf("%s.out%d", n.Name, i)
			if os.Getenv("VERIF_DBG") != "" {
				println(name, k.B.Str(v.cond, 6), "=>", k.B.Str(g, 6))
			}
			ok := k.Prove(name, append(append([]*sym.Term{}, asm...), v.cond), g, func(mod sym.Model) (bool, map[string]any, string) {
				return replay(k, m, n, args, mod)
			})
			if !ok {
				if failed++; failed > 4 {
					return
				}
				break // another outcome may show what this one did not
			}
		}
	}
}

func chunks(ts []*sym.Term, n int) [][]*sym.Term {
	var r [][]*sym.Term
	for len(ts) > n {
		r = append(r, ts[:n])
		ts = ts[n:]
	}
	return append(r, ts)
}

func observe(m *gosym.M, n N, args []gosym.Val, o gosym.Out) []gosym.Val {
	if n.Observe != nil {
		return n.Observe(m, args, o)
	}
	return o.Vals
}

// freeze copies memory-dependent values so that they can be read outside the outcome's memory.
func freeze(m *gosym.M, vs []gosym.Val) []gosym.Val {
	r := make([]gosym.Val, len(vs))
	for i, v := range vs {
		switch x := v.(type) {
		case gosym.Slice:
			r[i] = gosym.Agg(freeze(m, m.Elems(x)))
		case gosym.Agg:
			r[i] = gosym.Agg(freeze(m, x))
		case *gosym.Cell:
			if x == nil {
				r[i] = nil
			} else {
				r[i] = freeze(m, []gosym.Val{m.Load(x)})[0]
			}
		case gosym.Iface:
			if x.T == nil {
				r[i] = nil
			} else {
				r[i] = gosym.Iface{T: x.T, V: freeze(m, []gosym.Val{x.V})[0]}
			}
		default:
			r[i] = v
		}
	}
	return r
}

func model(args []gosym.Val, ev *sym.Evaluator) func(*sym.Term) *big.Int {
	return func(t *sym.Term) *big.Int { return ev.Int(t) }
}

// realRun runs the repository's code on concrete inputs.
func realRun(m *gosym.M, n N, ev *sym.Evaluator) (res []any, panicked bool, msg string) {
	defer func() {
		if r := recover(); r != nil {
			panicked, msg, res = true, fmt.Sprint(r), nil
		}
	}()
	stdoutMu.Lock()
	old := os.Stdout // replaced and restored under the lock
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		defer func() { os.Stdout = old; null.Close(); stdoutMu.Unlock() }()
	} else {
		defer stdoutMu.Unlock()
	}
	return n.Real(m, func(t *sym.Term) *big.Int { return ev.Int(t) }), false, ""
}

var stdoutMu sync.Mutex

func replay(k *hk.Case, m *gosym.M, n N, args []gosym.Val, mod sym.Model) (bool, map[string]any, string) {
	ev := k.B.NewEval(mod)
	res, pan, msg := realRun(m, n, ev)
	good := specOnReal(m, n, ev, res, pan)
	data := map[string]any{"function": n.Pkg + "." + n.Fn, "inputs": modelMap(mod), "result": clip(fmt.Sprintf("%+v", res)), "panicked": pan}
	if pan {
		data["panic"] = clip(msg)
	}
	return !good, data, fmt.Sprintf("%s.%s does not do what the property says on the recorded inputs (result %s)", n.Pkg, n.Fn, clip(fmt.Sprintf("%v", res)))
}

func specOnReal(m *gosym.M, n N, ev *sym.Evaluator, res []any, pan bool) bool {
	var vals []gosym.Val
	for _, r := range res {
		vals = append(vals, FromReal(m, reflect.ValueOf(r)))
	}
	return ev.Bool(n.Spec(m, vals, pan))
}

func clip(s string) string {
	if len(s) > 500 {
		return s[:500] + "..."
	}
	return s
}

func modelMap(m sym.Model) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		if v.Sign() != 0 || len(m) <= 64 { // inputs not listed are 0
			r[k] = v.String()
		}
	}
	return r
}

// samples draws input assignments that satisfy the assumptions.
func samples(k *hk.Case, args []gosym.Val, asm []*sym.Term, extra []*sym.Term, count int) []sym.Model {
	var roots []*sym.Term
	var walk func(v gosym.Val)
	seen := map[*gosym.Cell]bool{}
	walk = func(v gosym.Val) {
		switch x := v.(type) {
		case *sym.Term:
			roots = append(roots, x)
		case gosym.Str:
			roots = append(roots, x.B...)
		case gosym.Agg:
			for _, y := range x {
				walk(y)
			}
		case gosym.Tuple:
			for _, y := range x {
				walk(y)
			}
		case gosym.Slice:
			if x.Arr != nil {
				walk(x.Arr)
			}
		case gosym.Iface:
			walk(x.V)
		case gosym.Big:
			roots = append(roots, x.T)
		case gosym.Lazy:
			roots = append(roots, x.N)
		case *gosym.Cell:
			if x == nil || seen[x] {
				return
			}
			seen[x] = true
			for _, y := range x.Kids {
				walk(y)
			}
			walk(x.V)
		}
	}
	for _, a := range args {
		walk(a)
	}
	roots = append(roots, asm...)
	roots = append(roots, extra...)
	vars := sym.Support(roots...)
	rng := rand.New(rand.NewSource(int64(k.C.Seed) + int64(len(k.Name))))
	var r []sym.Model
	for try := 0; try < count*60 && len(r) < count; try++ {
		mod := sym.Model{}
		for _, v := range vars {
			if v.IsBool {
				mod[v.Name] = big.NewInt(int64(rng.Intn(2)))
				continue
			}
			span := new(big.Int).Sub(v.Hi, v.Lo)
			span.Add(span, big.NewInt(1))
			x := new(big.Int).Rand(rng, span)
			switch rng.Intn(6) {
			case 0:
				x.SetInt64(0)
			case 1:
				x.Sub(span, big.NewInt(1))
			case 2:
				x.Rsh(x, uint(rng.Intn(span.BitLen()+1)))
			}
			mod[v.Name] = x.Add(x, v.Lo)
		}
		ev := k.B.NewEval(mod)
		ok := true
		for _, a := range asm {
			ok = ok && ev.Bool(a)
		}
		if ok {
			r = append(r, mod)
		}
	}
	return r
}

// validate compares the encoding with the real code on a few inputs.
func validate(k *hk.Case, m *gosym.M, n N, args []gosym.Val, asm []*sym.Term, pick func(*sym.Evaluator) (int, []gosym.Val, bool)) {
	cnt := n.Samples
	if cnt == 0 {
		cnt = 6
	}
	for _, mod := range samples(k, args, asm, nil, cnt) {
		ev := k.B.NewEval(mod)
		i, vals, pan := pick(ev)
		if i < 0 {
			k.C.Err("%s: no outcome covers the input %v", n.Name, modelMap(mod))
			return
		}
		res, rpan, msg := realRun(m, n, ev)
		if n.Abstract {
			if !specOnReal(m, n, ev, res, rpan) {
				// something a stub stands for is broken
				_, data, what := replay(k, m, n, args, mod)
				k.Violation(n.Name+".real", what, data)
				return
			}
			continue
		}
		if pan != rpan {
			k.C.Err("%s: the encoding panics=%v, the real code panics=%v (%s) on %v", n.Name, pan, rpan, msg, modelMap(mod))
			return
		}
		for j, r := range res {
			want := flat(m, freeze(m, []gosym.Val{FromReal(m, reflect.ValueOf(r))})[0])
			got := flat(m, vals[j])
			for x := range got {
				if t, ok := got[x].(*sym.Term); ok {
					got[x] = ev.Int(t).String()
				}
			}
			for x := range want {
				if t, ok := want[x].(*sym.Term); ok {
					want[x] = ev.Int(t).String()
				}
			}
			if a, b := fmt.Sprint(norm(got)), fmt.Sprint(norm(want)); a != b {
				k.C.Err("%s: encoding and real code differ on %v: result %d is %s, really %s", n.Name, modelMap(mod), j, clip(a), clip(b))
				return
			}
		}
	}
}

func norm(v []any) string {
	var b strings.Builder
	for _, x := range v {
		fmt.Fprint(&b, x, " ")
	}
	return b.String()
}

// flat lists the scalars of a frozen value.
func flat(m *gosym.M, v gosym.Val) []any {
	switch x := v.(type) {
	case nil:
		return []any{"nil"}
	case *sym.Term:
		return []any{x}
	case gosym.Big:
		return []any{x.T}
	case gosym.Str:
		var r []any
		for _, t := range x.B {
			r = append(r, t)
		}
		return r
	case gosym.Agg:
		var r []any
		for _, y := range x {
			r = append(r, flat(m, y)...)
		}
		return r
	case gosym.Iface:
		if _, ok := x.V.(gosym.Opaque); ok || m.IsErr(x) {
			return []any{"err"}
		}
		return flat(m, x.V)
	case gosym.Lazy:
		// value and length
		return []any{x.N}
	}
	return []any{fmt.Sprintf("%T", v)}
}

// hunt looks for a concrete violation when the code could not be encoded.
func hunt(k *hk.Case, m *gosym.M, n N, args []gosym.Val, asm []*sym.Term) {
	for _, mod := range samples(k, args, asm, nil, 400) {
		if bad, data, what := replay(k, m, n, args, mod); bad {
			k.Violation(n.Name+".concrete", what, data)
			return
		}
	}
}

var bigIntT = reflect.TypeOf((*big.Int)(nil))
var errorT = reflect.TypeOf((*error)(nil)).Elem()

// FromReal converts a real Go value into the engine's.
func FromReal(m *gosym.M, v reflect.Value) gosym.Val {
	b := m.B
	if !v.IsValid() {
		return gosym.Iface{}
	}
	if v.Type() == bigIntT {
		if v.IsNil() {
			return (*gosym.Cell)(nil)
		}
		return m.MkBig(b.Const(v.Interface().(*big.Int)))
	}
	if v.Type().Implements(errorT) && v.CanInterface() {
		if (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil() {
			return gosym.Iface{}
		}
		return m.ErrIface("real error")
	}
	switch v.Kind() {
	case reflect.Bool:
		return b.Bool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return b.I(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return b.Const(new(big.Int).SetUint64(v.Uint()))
	case reflect.String:
		return m.MkStr(v.String())
	case reflect.Slice:
		if v.IsNil() {
			return gosym.Slice{}
		}
		fallthrough
	case reflect.Array:
		a := gosym.Agg{}
		for i := 0; i < v.Len(); i++ {
			a = append(a, FromReal(m, v.Index(i)))
		}
		return a
	case reflect.Struct:
		a := gosym.Agg{}
		for i := 0; i < v.NumField(); i++ {
			a = append(a, FromReal(m, v.Field(i)))
		}
		return a
	case reflect.Interface:
		if v.IsNil() {
			return gosym.Iface{}
		}
		return FromReal(m, v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			return (*gosym.Cell)(nil)
		}
		return FromReal(m, v.Elem())
	}
	return gosym.Opaque{What: v.Type().String()}
}

// ---------------------------------------------------------------- helpers for specifications

// ints reads a sequence of integers (slice, array, string, big integer's bytes of fixed length).
func ints(m *gosym.M, v gosym.Val) []*sym.Term {
	var r []*sym.Term
	switch x := v.(type) {
	case gosym.Str:
		return x.B
	case gosym.Lazy:
		return m.Bytes(x)
	case nil:
		return nil
	}
	for _, e := range m.Elems(v) {
		r = append(r, toInt(m, e))
	}
	return r
}

func toInt(m *gosym.M, v gosym.Val) *sym.Term {
	switch x := v.(type) {
	case *sym.Term:
		if x.IsBool {
			return m.B.Ite(x, m.B.I(1), m.B.I(0))
		}
		return x
	case *gosym.Cell:
		return m.BigOf(x)
	case gosym.Big:
		return x.T
	case gosym.Iface:
		return toInt(m, x.V)
	}
	panic(fmt.Sprintf("not an integer: %T", v))
}

func isNil(v gosym.Val) bool {
	switch x := v.(type) {
	case nil:
		return true
	case gosym.Iface:
		return x.T == nil && x.V == nil
	case *gosym.Cell:
		return x == nil
	case gosym.Slice:
		return x.Arr == nil
	}
	return false
}

func isErr(v gosym.Val) bool { return !isNil(v) }

// eqInts: the two sequences are equal.
func eqInts(m *gosym.M, x, y []*sym.Term) *sym.Term {
	if len(x) != len(y) {
		return m.B.F
	}
	var ts []*sym.Term
	for i := range x {
		ts = append(ts, m.B.IEq(x[i], y[i]))
	}
	return m.B.And(ts...)
}

func byteVars(m *gosym.M, name string, n int) []*sym.Term {
	r := make([]*sym.Term, n)
	for i := range r {
		r[i] = m.B.BitsVar(fmt.Sprintf("%s%d", name, i), 8)
	}
	return r
}

func realBytes(ev func(*sym.Term) *big.Int, ts []*sym.Term) []byte {
	r := make([]byte, len(ts))
	for i := range r {
		r[i] = byte(ev(ts[i]).Int64())
	}
	return r
}

// withCap returns a copy of b with n bytes of spare capacity.
func withCap(b []byte, n int) []byte { return append(make([]byte, 0, len(b)+n), b...) }

func registerStubs(m *gosym.M) {}

// bit as 0/1
func bit01(m *gosym.M, t *sym.Term, i int) *sym.Term {
	return m.B.Ite(m.B.Bit(t, i), m.B.I(1), m.B.I(0))
}

// eqBE: the non-negative integer v is written by the bytes bs, big-endian.
func eqBE(m *gosym.M, v *sym.Term, bs []*sym.Term) *sym.Term {
	b := m.B
	if v.Op == sym.OIte {
		return b.And(under(b, v.Args[0], eqBE(m, v.Args[1], bs)), under(b, b.Not(v.Args[0]), eqBE(m, v.Args[2], bs)))
	}
	ts := []*sym.Term{b.ILe(b.I(0), v), b.ILt(v, b.Const(b.Pow2(8*len(bs))))}
	for i := range bs {
		ts = append(ts, b.IEq(b.Low(b.Div(v, b.Pow2(8*(len(bs)-1-i))), 8), bs[i]))
	}
	return b.And(ts...)
}

// under: each of the conjunction's parts holds when c does.
func under(b *sym.B, c, goal *sym.Term) *sym.Term {
	if goal.Op != sym.OAnd {
		return b.Implies(c, goal)
	}
	var ts []*sym.Term
	for _, g := range goal.Args {
		ts = append(ts, b.Implies(c, g))
	}
	return b.And(ts...)
}
