package hk

import (
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"github.com/celer-network/goutils/log"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/logger"
	"github.com/consensys/gnark/test"
	"github.com/rs/zerolog"
	"verif/engine/sym"
)

func init() {
	logger.Set(zerolog.New(os.Stderr).Level(zerolog.Disabled))
	log.SetLevel(log.FatalLevel)
	if os.Getenv("VERIF_LOG") != "" {
		log.SetLevel(log.DebugLevel)
	}
}

type RunFn func(api frontend.API, in []frontend.Variable) []frontend.Variable

// Gadget is the contract of a piece of circuit code: for inputs satisfying Pre, the recorded constraints are
// satisfiable exactly when Accept holds, and then every output equals its specification in the field.
type Gadget struct {
	Name   string
	In     []*sym.Term
	Run    RunFn
	Pre    []*sym.Term
	Accept *sym.Term   // nil: always accepts
	Outs   []*sym.Term // specification; nil entries are not checked
	NbOut  int         // number of outputs expected (default len(Outs))
	// SoundOnly: do not check completeness (Accept => constraints)
	SoundOnly bool
	// Batch > 0: prove outputs in groups of this size (default: all in one query)
	Batch int
	// Honest, if set, gives the honest values of hint outputs for the completeness direction.
	HintHook func(name string, nb int, in []*sym.Term) []*sym.Term
	// CompleteOnly checks only that accepted inputs satisfy the constraints and the outputs agree.
	CompleteOnly bool
	Fresh        bool
	// Never: no input satisfying Pre is accepted (Accept is ignored); the vacuity witness is then Pre alone.
	Never bool
}

// concrete runner on gnark's test engine --------------------------------------------------------

type runner struct {
	run  RunFn
	outs []*big.Int
}

type replayCircuit struct {
	In []frontend.Variable
	R  *runner `gnark:"-"`
}

func (c *replayCircuit) Define(api frontend.API) error {
	outs := c.R.run(api, c.In)
	c.R.outs = nil
	for _, o := range outs {
		switch v := o.(type) {
		case *big.Int:
			c.R.outs = append(c.R.outs, new(big.Int).Set(v))
		case big.Int:
			c.R.outs = append(c.R.outs, new(big.Int).Set(&v))
		default:
			c.R.outs = append(c.R.outs, sym.FromInterface(v))
		}
	}
	return nil
}

// RunConcrete executes the gadget on gnark's test engine.
func RunConcrete(field *big.Int, run RunFn, in []*big.Int) (outs []*big.Int, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	r := &runner{run: run}
	c := &replayCircuit{In: make([]frontend.Variable, len(in)), R: r}
	w := &replayCircuit{In: make([]frontend.Variable, len(in)), R: r}
	for i := range in {
		c.In[i] = 0
		w.In[i] = new(big.Int).Mod(in[i], field)
	}
	if len(in) == 0 {
		c.In = []frontend.Variable{0}
		w.In = []frontend.Variable{0}
	}
	err = test.IsSolved(c, w, field)
	for i := range r.outs {
		r.outs[i].Mod(r.outs[i], field)
	}
	return r.outs, err
}

type r1csCircuit struct {
	In  []frontend.Variable
	Out []frontend.Variable
	R   *runner `gnark:"-"`
}

func (c *r1csCircuit) Define(api frontend.API) error {
	outs := c.R.run(api, c.In)
	for i := range outs {
		if i < len(c.Out) {
			api.AssertIsEqual(outs[i], c.Out[i])
		}
	}
	return nil
}

// RunMalicious compiles the gadget to R1CS and solves it with the given hint outputs; nil means the (dishonest)
// assignment satisfies every constraint together with the claimed outputs.
func RunMalicious(field *big.Int, run RunFn, in, out []*big.Int, hints map[string]map[string][]*big.Int, fns map[string]solver.Hint) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	c := &r1csCircuit{In: make([]frontend.Variable, len(in)), Out: make([]frontend.Variable, len(out)), R: &runner{run: run}}
	cs, err := frontend.Compile(field, r1cs.NewBuilder, c, frontend.IgnoreUnconstrainedInputs())
	if err != nil {
		return fmt.Errorf("compile: %w", err)
	}
	a := &r1csCircuit{In: make([]frontend.Variable, len(in)), Out: make([]frontend.Variable, len(out))}
	for i := range in {
		a.In[i] = in[i]
	}
	for i := range out {
		a.Out[i] = out[i]
	}
	w, err := frontend.NewWitness(a, field)
	if err != nil {
		return fmt.Errorf("witness: %w", err)
	}
	var opts []solver.Option
	for name, f := range fns {
		name, f := name, f
		tbl := hints[name]
		opts = append(opts, solver.OverrideHint(solver.GetHintID(f), func(m *big.Int, in, out []*big.Int) error {
			if v, ok := tbl[bigKey(in)]; ok {
				for i := range out {
					out[i].Set(v[i])
				}
				return nil
			}
			return f(m, in, out)
		}))
	}
	_, err = cs.Solve(w, opts...)
	return err
}

func bigKey(in []*big.Int) string {
	var sb strings.Builder
	for _, x := range in {
		sb.WriteString(x.String())
		sb.WriteByte(',')
	}
	return sb.String()
}

// symbolic run -------------------------------------------------------------------------------

// Encode runs the gadget on symbolic wires. If the gadget panics, err describes it.
func (k *Case) Encode(run RunFn, in []*sym.Term, hook func(string, int, []*sym.Term) []*sym.Term, fresh bool) (api *sym.API, outs []*sym.Term, err error) {
	for pass := 0; pass < 2; pass++ {
		api, outs, err = k.encode1(run, in, hook, fresh || pass == 1, nil)
		if err == nil && len(api.Narrowed) > 0 {
			// the range constraints on hint outputs become their domains
			api, outs, err = k.encode1(run, in, hook, fresh || pass == 1, api.Narrowed)
		}
		if err != sym.ErrLooseBits {
			return
		}
	}
	return
}

func (k *Case) encode1(run RunFn, in []*sym.Term, hook func(string, int, []*sym.Term) []*sym.Term, fresh bool, narrow map[int]int) (api *sym.API, outs []*sym.Term, err error) {
	api = k.NewAPI()
	api.Narrow = narrow
	api.HintHook = hook
	api.FreshHints = fresh
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			err = fmt.Errorf("panic: %v", r)
			if strings.HasPrefix(fmt.Sprint(r), "sym:") {
				err = fmt.Errorf("engine: %v\n%s", r, st)
			}
			if os.Getenv("VERIF_V") != "" {
				fmt.Fprintln(os.Stderr, st)
			}
		}
	}()
	ov := run(api, sym.Vars(in))
	err = api.Finish()
	if err == sym.ErrLooseBits && fresh {
		err = nil
	}
	outs = api.Terms(ov)
	return
}

func vals(ev *sym.Evaluator, ts []*sym.Term, p *big.Int) []*big.Int {
	out := make([]*big.Int, len(ts))
	for i, t := range ts {
		if t == nil {
			continue
		}
		out[i] = new(big.Int).Mod(ev.Int(t), p)
	}
	return out
}

func strs(v []*big.Int) []string {
	out := make([]string, len(v))
	for i := range v {
		if v[i] != nil {
			out[i] = v[i].String()
		}
	}
	return out
}

// Confirm replays a model on the test engine and compares with the specification.
func (k *Case) Confirm(g *Gadget, m sym.Model) (bool, map[string]any, string) {
	ev := k.B.NewEval(m)
	in := vals(ev, g.In, k.B.P)
	for _, t := range g.Pre {
		if !ev.Bool(t) {
			return false, map[string]any{"in": strs(in)}, "model does not satisfy the precondition"
		}
	}
	accept := g.Accept == nil || ev.Bool(g.Accept)
	got, err := RunConcrete(k.B.P, g.Run, in)
	data := map[string]any{"gadget": g.Name, "inputs": strs(in), "spec_accepts": accept, "engine_error": fmt.Sprint(err), "got": strs(got)}
	if accept && err != nil && !g.SoundOnly {
		return true, data, fmt.Sprintf("%s rejects (or fails on) an input it must accept: %v", g.Name, err)
	}
	if !accept && err == nil && !g.CompleteOnly {
		return true, data, fmt.Sprintf("%s accepts an input it must reject", g.Name)
	}
	if accept && err == nil {
		want := vals(ev, g.Outs, k.B.P)
		data["want"] = strs(want)
		if len(got) != len(g.Outs) {
			return true, data, fmt.Sprintf("%s returns %d outputs, expected %d", g.Name, len(got), len(g.Outs))
		}
		for i := range want {
			if want[i] != nil && want[i].Cmp(got[i]) != 0 {
				return true, data, fmt.Sprintf("%s: output %d is %s, specified %s", g.Name, i, got[i], want[i])
			}
		}
	}
	return false, data, "replay agrees with the specification"
}

// ConfirmMalicious replays a model with adversarial hint values on the compiled R1CS.
func (k *Case) ConfirmMalicious(g *Gadget, api *sym.API, outs []*sym.Term, m sym.Model) (bool, map[string]any, string) {
	ev := k.B.NewEval(m)
	in := vals(ev, g.In, k.B.P)
	ov := vals(ev, outs, k.B.P)
	hints := map[string]map[string][]*big.Int{}
	fns := map[string]solver.Hint{}
	for _, h := range api.Hints {
		if h.F == nil {
			continue
		}
		if hints[h.Name] == nil {
			hints[h.Name] = map[string][]*big.Int{}
		}
		hints[h.Name][bigKey(vals(ev, h.In, k.B.P))] = vals(ev, h.Out, k.B.P)
		fns[h.Name] = h.F
	}
	err := RunMalicious(k.B.P, g.Run, in, ov, hints, fns)
	data := map[string]any{"gadget": g.Name, "inputs": strs(in), "outputs": strs(ov), "hints": fmt.Sprint(hints), "r1cs_error": fmt.Sprint(err)}
	if err != nil {
		return false, data, "R1CS rejects the dishonest witness: " + err.Error()
	}
	want := vals(ev, g.Outs, k.B.P)
	data["want"] = strs(want)
	return true, data, fmt.Sprintf("%s: the compiled constraint system accepts a dishonest witness whose outputs %v differ from the specified %v (inputs %v)", g.Name, strs(ov), strs(want), strs(in))
}

// Gadget checks a contract.
func (k *Case) Gadget(g Gadget) bool {
	b := k.B
	accept := g.Accept
	if accept == nil {
		accept = b.T
	}
	api, outs, err := k.Encode(g.Run, g.In, g.HintHook, g.Fresh)
	if err != nil {
		if strings.HasPrefix(err.Error(), "engine:") {
			k.C.Err("case %s: %s: %v", k.Name, g.Name, err)
			return false
		}
		// the gadget panicked: that rejects every input
		return k.Prove(g.Name+".panic", append(append([]*sym.Term{}, g.Pre...), accept), b.F, func(m sym.Model) (bool, map[string]any, string) {
			ok, data, what := k.Confirm(&g, m)
			return ok, data, what + " (" + err.Error() + ")"
		})
	}
	if len(outs) != len(g.Outs) {
		o := k.Query(g.Name+".arity", append(append([]*sym.Term{}, g.Pre...), accept)...)
		if o.R == sym.Sat {
			if ok, data, what := k.Confirm(&g, o.M); ok {
				k.Violation(g.Name+".arity", what, data)
				return false
			}
		}
		k.C.Err("case %s: %s: %d outputs, expected %d", k.Name, g.Name, len(outs), len(g.Outs))
		return false
	}
	C := b.And(api.Constraints()...)
	ok := true
	confirm := func(m sym.Model) (bool, map[string]any, string) {
		if len(api.Hints) > 0 && g.HintHook == nil {
			if r, d, w := k.Confirm(&g, m); r {
				return r, d, w
			}
			return k.ConfirmMalicious(&g, api, outs, m)
		}
		return k.Confirm(&g, m)
	}
	// vacuity: some input is accepted by both
	if g.Never {
		k.Reach(g.Name, g.Pre...)
	} else {
		k.Reach(g.Name, append(append([]*sym.Term{}, g.Pre...), accept)...)
	}
	if !g.SoundOnly && (len(api.Hints) == 0 || g.HintHook != nil) {
		ok = k.Prove(g.Name+".complete", append(append([]*sym.Term{}, g.Pre...), accept), C, confirm) && ok
	}
	if !ok {
		return false
	}
	if !g.CompleteOnly && accept != b.T {
		ok = k.Prove(g.Name+".sound", append(append([]*sym.Term{}, g.Pre...), C), accept, confirm) && ok
	}
	if !ok {
		return false
	}
	var eqs []*sym.Term
	for i := range outs {
		if g.Outs[i] == nil {
			continue
		}
		eqs = append(eqs, b.FEq(outs[i], g.Outs[i]))
	}
	if len(eqs) == 0 {
		return ok
	}
	batch := g.Batch
	if batch <= 0 {
		batch = len(eqs)
	}
	// drop those already identical into the first batch: they cost nothing
	var triv, hard []*sym.Term
	for _, e := range eqs {
		if e == b.T {
			triv = append(triv, e)
		} else {
			hard = append(hard, e)
		}
	}
	if len(triv) > 0 {
		t0 := time.Now()
		k.Discharged(fmt.Sprintf("%s.out[%d identical]", g.Name, len(triv)), "syntactic", time.Since(t0).Seconds())
	}
	for i := 0; i < len(hard); i += batch {
		j := i + batch
		if j > len(hard) {
			j = len(hard)
		}
		ok = k.Prove(fmt.Sprintf("%s.out[%d:%d]", g.Name, i, j), append(append([]*sym.Term{}, g.Pre...), C, accept), b.And(hard[i:j]...), confirm) && ok
		if !ok {
			return false
		}
	}
	if len(hard) == 0 {
		// still hand the (trivial) conjunction to a solver so that every harness ends in a verdict
		ok = k.Prove(g.Name+".out", append(append([]*sym.Term{}, g.Pre...), C, accept), b.T, confirm) && ok
	}
	return ok
}
