// Package hk is the harness kit: it runs the cases of a check, hands obligations to the solvers, replays
// counterexamples against the real code and writes the evidence file.
package hk

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/consensys/gnark-crypto/ecc"
	"verif/engine/sym"
)

var BN254 = ecc.BN254.ScalarField()

type Check struct {
	ID       string
	Tier     string
	Seed     int
	Thorough bool
	Dir      string // /verif
	start    time.Time

	mu          sync.Mutex
	cases       []*caseDef
	Bounds      []string
	Assumptions []string
	Stubs       []string
	Outside     []string
	funcs       map[string]bool
	obls        []*Obl
	reach       []*Obl
	viol        []Violation
	known       []string
	errs        []string
	notes       []string
	encTerms    int64
	nextReplay  int
	Deadline    time.Duration
	Workers     int
	Extra       map[string]any
}

type caseDef struct {
	name string
	f    func(k *Case)
}

type Obl struct {
	Case, Name string
	Result     string
	How        string
	Secs       float64
	Terms      int
}

type Violation struct {
	Key    string         `json:"key"`
	What   string         `json:"what"`
	Data   map[string]any `json:"data,omitempty"`
	Replay string         `json:"replay,omitempty"`
}

func NewCheck(id string) *Check {
	c := &Check{ID: id, start: time.Now(), funcs: map[string]bool{}, Extra: map[string]any{}}
	c.Tier = os.Getenv("VERIF_TIER")
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.Thorough = c.Tier == "thorough"
	c.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	c.Dir = os.Getenv("VERIF_DIR")
	if c.Dir == "" {
		c.Dir = "/verif"
	}
	c.Deadline = 840 * time.Second
	c.Workers = 8
	return c
}

func (c *Check) Bound(f string, a ...any) {
	c.mu.Lock()
	c.Bounds = append(c.Bounds, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}
func (c *Check) Assume(f string, a ...any) {
	c.mu.Lock()
	c.Assumptions = append(c.Assumptions, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}
func (c *Check) Stub(f string, a ...any) {
	c.mu.Lock()
	c.Stubs = append(c.Stubs, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}
func (c *Check) OutOf(f string, a ...any) {
	c.mu.Lock()
	c.Outside = append(c.Outside, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}
func (c *Check) Note(f string, a ...any) {
	c.mu.Lock()
	c.notes = append(c.notes, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}
func (c *Check) Err(f string, a ...any) {
	c.mu.Lock()
	c.errs = append(c.errs, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}
func (c *Check) Funcs(fs ...string) {
	c.mu.Lock()
	for _, f := range fs {
		c.funcs[f] = true
	}
	c.mu.Unlock()
}

// Case registers a case to be run by the worker pool.
func (c *Check) Case(name string, f func(k *Case)) {
	c.cases = append(c.cases, &caseDef{name, f})
}

// Case is the context of one harness case; it owns a term builder.
type Case struct {
	C    *Check
	Name string
	B    *sym.B
	// Timeout per query
	Timeout time.Duration
	stop    bool
	// NormFirst makes EquivG re-normalise after substituting cut points, so that most internal equivalences close
	// without a query.
	NormFirst bool
}

func (c *Check) Run() int {
	tmp, err := os.MkdirTemp("", "verif-"+c.ID+"-")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	sym.TmpDir = tmp
	if sym.KeepFiles {
		sym.TmpDir = os.Getenv("VERIF_KEEP")
		os.MkdirAll(sym.TmpDir, 0o755)
	}
	_ = os.Remove(c.EvidencePath())
	filter := os.Getenv("VERIF_CASE")
	jobs := make(chan *caseDef)
	var wg sync.WaitGroup
	var ran int64
	for i := 0; i < c.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for d := range jobs {
				if c.Timeleft() < 0 {
					c.addObl(&Obl{Case: d.name, Name: "case", Result: "not run (time budget)"})
					continue
				}
				if c.numViol() >= 8 {
					continue
				}
				t0 := time.Now()
				c.runCase(d)
				atomic.AddInt64(&ran, 1)
				if os.Getenv("VERIF_V") != "" {
					fmt.Fprintf(os.Stderr, "case %s: %.1fs\n", d.name, time.Since(t0).Seconds())
				}
			}
		}()
	}
	for _, d := range c.cases {
		if filter != "" && !strings.Contains(d.name, filter) {
			continue
		}
		jobs <- d
	}
	close(jobs)
	wg.Wait()
	return c.finish(int(ran))
}

func (c *Check) Timeleft() time.Duration { return c.Deadline - time.Since(c.start) }
func (c *Check) numViol() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol)
}

func (c *Check) runCase(d *caseDef) {
	k := &Case{C: c, Name: d.name, B: sym.NewB(BN254), Timeout: 300 * time.Second}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				return
			}
			c.Err("case %s: internal panic: %v\n%s", d.name, r, debug.Stack())
		}
		atomic.AddInt64(&c.encTerms, int64(k.B.NumTerms()))
	}()
	d.f(k)
}

type stopCase struct{}

func (c *Check) addObl(o *Obl) {
	c.mu.Lock()
	c.obls = append(c.obls, o)
	c.mu.Unlock()
}

// NewAPI makes a symbolic API on this case's builder, recording the repository functions it is called from.
func (k *Case) NewAPI() *sym.API { return sym.NewAPI(k.B) }

// Result of an obligation
type Outcome struct {
	R sym.Result
	M sym.Model
}

// Query decides satisfiability of the conjunction of ts.
func (k *Case) Query(name string, ts ...*sym.Term) Outcome {
	t0 := time.Now()
	to := k.Timeout
	if l := k.C.Timeleft(); l < to {
		to = l
	}
	if to < time.Second {
		to = time.Second
	}
	r, m, how, err := k.B.Solve(ts, to)
	if err != nil && r != sym.Unknown {
		k.C.Err("case %s: %s: %v", k.Name, name, err)
	}
	if os.Getenv("VERIF_V") != "" {
		fmt.Fprintf(os.Stderr, "  %s/%s: %s by %s in %.2fs %v\n", k.Name, name, r, how, time.Since(t0).Seconds(), err)
	}
	if r == sym.Sat {
		// the model must satisfy the terms in our own semantics, when no uninterpreted functions are involved
		ev := k.B.NewEval(m)
		for _, t := range ts {
			if !ev.Bool(t) {
				k.C.Note("case %s: %s: solver model does not evaluate to true (uninterpreted functions or hints)", k.Name, name)
				break
			}
		}
	}
	return Outcome{r, m}
}

// Prove decides asm => goal; cex is called with a counterexample model and must replay it on the real code,
// returning whether it is confirmed plus data for the report.
func (k *Case) Prove(name string, asm []*sym.Term, goal *sym.Term, cex func(m sym.Model) (bool, map[string]any, string)) bool {
	t0 := time.Now()
	ts := append(append([]*sym.Term{}, asm...), k.B.Not(goal))
	o := k.Query(name, ts...)
	ob := &Obl{Case: k.Name, Name: name, Result: o.R.String(), Secs: time.Since(t0).Seconds()}
	if goal == k.B.T {
		ob.How = "syntactic"
	}
	k.C.addObl(ob)
	switch o.R {
	case sym.Unsat:
		return true
	case sym.Sat:
		ok, data, what := cex(o.M)
		if data == nil {
			data = map[string]any{}
		}
		if ok {
			k.Violation(name, what, data)
		} else {
			k.C.Err("case %s: %s: counterexample did not reproduce: %s %v", k.Name, name, what, trunc(fmt.Sprint(data), 2000))
		}
	default:
		k.C.Note("case %s: obligation %s undecided within %.0fs", k.Name, name, k.Timeout.Seconds())
	}
	return false
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Reach: the assumptions must be satisfiable (vacuity guard).
func (k *Case) Reach(name string, ts ...*sym.Term) bool {
	t0 := time.Now()
	o := k.Query("reach:"+name, ts...)
	k.C.mu.Lock()
	k.C.reach = append(k.C.reach, &Obl{Case: k.Name, Name: name, Result: o.R.String(), Secs: time.Since(t0).Seconds()})
	k.C.mu.Unlock()
	return o.R == sym.Sat
}

func (k *Case) Violation(key, what string, data map[string]any) {
	k.C.Violation(k.Name+"/"+key, what, data)
}

// Discharged records an obligation decided by other means of the engine (e.g. a batch).
func (k *Case) Discharged(name string, how string, secs float64) {
	k.C.addObl(&Obl{Case: k.Name, Name: name, Result: "unsat", How: how, Secs: secs})
}

func (c *Check) Violation(key, what string, data map[string]any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if f, ok := knownFinding(c.Dir, c.ID, key); ok {
		line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", c.ID, f)
		for _, x := range c.known {
			if x == line {
				return
			}
		}
		c.known = append(c.known, line)
		return
	}
	c.viol = append(c.viol, Violation{Key: key, What: what, Data: data})
	if len(c.viol) == 1 {
		// one confirmed violation decides the run: give the rest a little time to find others, then stop
		if d := time.Since(c.start) + 40*time.Second; c.Deadline > d {
			c.Deadline = d
		}
		time.AfterFunc(40*time.Second, sym.Abort)
	}
}

// known-findings.json: [{"status":"known","property":"X","key":"...","what":"..."}]
type KF struct {
	Status   string `json:"status"`
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

var kfOnce sync.Once
var kfs []KF

func knownFinding(dir, id, key string) (string, bool) {
	kfOnce.Do(func() {
		data, err := os.ReadFile(filepath.Join(dir, "known-findings.json"))
		if err == nil {
			var f struct {
				Findings []KF `json:"findings"`
			}
			if json.Unmarshal(data, &f) == nil {
				kfs = f.Findings
			}
		}
	})
	for _, f := range kfs {
		if f.Status == "known" && f.Property == id && f.Key == key {
			return f.What, true
		}
	}
	return "", false
}

func (c *Check) EvidencePath() string {
	d := os.Getenv("VERIF_EVIDENCE_DIR")
	if d == "" {
		d = filepath.Join(c.Dir, "evidence")
	}
	return filepath.Join(d, c.ID+".json")
}

func (c *Check) finish(ran int) int {
	wall := time.Since(c.start).Seconds()
	dis := 0
	undec := []string{}
	how := map[string]int{}
	slow := append([]*Obl{}, c.obls...)
	sort.Slice(slow, func(i, j int) bool { return slow[i].Secs > slow[j].Secs })
	for _, o := range c.obls {
		if o.Result == "unsat" {
			dis++
			h := o.How
			if h == "" {
				h = "solver"
			}
			how[h]++
		} else if o.Result != "sat" {
			undec = append(undec, o.Case+"/"+o.Name+": "+o.Result)
		}
	}
	rs, rbad := 0, []string{}
	for _, o := range c.reach {
		if o.Result == "sat" {
			rs++
		} else {
			rbad = append(rbad, o.Case+"/"+o.Name+": "+o.Result)
		}
	}
	for f := range sym.SeenFuncs() {
		c.funcs[f] = true
	}
	var fs []string
	for f := range c.funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	bySolver := map[string]int64{}
	sym.Stats.ByName.Range(func(k, v any) bool { bySolver[k.(string)] = *(v.(*int64)); return true })
	samples := []any{}
	for i, o := range slow {
		if i >= 5 {
			break
		}
		samples = append(samples, map[string]any{"case": o.Case, "obligation": o.Name, "result": o.Result, "secs": o.Secs, "how": o.How})
	}
	cov := map[string]any{
		"explanation":            "bounded symbolic verification: the real code is executed on symbolic inputs, every listed obligation is decided by an SMT solver for all values within the stated bounds (unsat = holds)",
		"functions_encoded":      fs,
		"bounds":                 c.Bounds,
		"outside_bounds":         c.Outside,
		"stubs":                  c.Stubs,
		"cases":                  ran,
		"obligations":            len(c.obls),
		"discharged":             dis,
		"discharged_how":         how,
		"undecided":              undec,
		"reachability_witnesses": rs,
		"reachability_failed":    rbad,
		"queries":                sym.Stats.Queries,
		"queries_by_solver":      bySolver,
		"solver_s":               float64(sym.Stats.Nanos) / 1e9,
		"terms":                  c.encTerms,
		"samples":                samples,
		"notes":                  c.notes,
		"known_findings":         c.known,
	}
	for k, v := range c.Extra {
		cov[k] = v
	}
	code := 0
	outDir := filepath.Join(c.Dir, "out")
	if len(c.viol) > 0 {
		code = 1
		os.MkdirAll(outDir, 0o755)
	}
	var vio []any
	for i := range c.viol {
		v := &c.viol[i]
		p := filepath.Join(outDir, fmt.Sprintf("%s-%d.json", c.ID, i+1))
		v.Replay = p
		data, _ := json.MarshalIndent(map[string]any{"property": c.ID, "key": v.Key, "what": v.What, "data": v.Data}, "", " ")
		os.WriteFile(p, data, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		fmt.Printf("  %s: %s\n", v.Key, trunc(v.What, 600))
		vio = append(vio, map[string]any{"key": v.Key, "what": v.What, "replay": p})
		if i > 8 {
			break
		}
	}
	for _, l := range c.known {
		fmt.Println(l)
	}
	for _, e := range c.errs {
		fmt.Println("ERROR:", trunc(e, 4000))
	}
	if len(c.errs) > 0 && code == 0 {
		code = 2
	}
	if len(rbad) > 0 && code == 0 {
		fmt.Println("ERROR: reachability witness failed:", rbad)
		code = 2
	}
	if len(undec) > 0 {
		fmt.Printf("UNDECIDED (not part of the claim of this run): %v\n", undec)
	}
	if len(c.errs) > 0 {
		cov["errors"] = c.errs
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "other", "coverage": cov, "wall_s": wall,
		"assumptions": append([]string{}, c.Assumptions...),
	}
	if vio != nil {
		ev["violations"] = len(vio)
		cov["violations_found"] = vio
	}
	data, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("ERROR: evidence:", err)
		return 2
	}
	os.MkdirAll(filepath.Dir(c.EvidencePath()), 0o755)
	if err := os.WriteFile(c.EvidencePath(), data, 0o644); err != nil {
		fmt.Println("ERROR: evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d cases, %d/%d obligations discharged, %d queries, solver %.1fs, wall %.1fs, exit %d\n", c.ID, ran, dis, len(c.obls), sym.Stats.Queries, float64(sym.Stats.Nanos)/1e9, time.Since(c.start).Seconds(), code)
	return code
}

func caller() string {
	_, f, l, _ := runtime.Caller(2)
	return fmt.Sprintf("%s:%d", filepath.Base(f), l)
}

func Big(i int64) *big.Int { return big.NewInt(i) }

// Script runs a self-contained SMT-LIB script whose unsatisfiability is the obligation.
func (k *Case) Script(name, script string) sym.Result {
	t0 := time.Now()
	to := k.Timeout
	if l := k.C.Timeleft(); l < to {
		to = l
	}
	if to < time.Second {
		to = time.Second
	}
	r, _, how, err := sym.RunScript(script, nil, to, sym.Portfolio)
	if os.Getenv("VERIF_V") != "" {
		fmt.Fprintf(os.Stderr, "  %s/%s: %s by %s in %.2fs %v\n", k.Name, name, r, how, time.Since(t0).Seconds(), err)
	}
	k.C.addObl(&Obl{Case: k.Name, Name: name, Result: r.String(), Secs: time.Since(t0).Seconds()})
	return r
}

// ReachOK records a non-vacuity witness.
func (k *Case) ReachOK(name string, ok bool) {
	r := "sat"
	if !ok {
		r = "none"
	}
	k.C.mu.Lock()
	k.C.reach = append(k.C.reach, &Obl{Case: k.Name, Name: name, Result: r})
	k.C.mu.Unlock()
}

// Poly runs a polynomial case; a false result that is no violation is a machinery error.
func (k *Case) Poly(f func() (bool, string)) {
	if ok, msg := f(); !ok {
		k.C.Err("case %s: %s", k.Name, msg)
	}
}
