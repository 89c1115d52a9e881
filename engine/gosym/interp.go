//go:build go1.23

package gosym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"verif/engine/sym"
	"verif/engine/xt/go/ssa"
)

// Out is one outcome of a piece of execution: Cond holds exactly on the inputs that take it.
type Out struct {
	Cond  *sym.Term
	Panic bool
	Msg   string
	Vals  []Val // results, or the phi values when a stop block was reached
	stop  bool
	d     *Delta
}

type M struct {
	B       *sym.B
	P       *Prog
	Stubs   map[string]func(m *M, c *CallCtx) []Out
	PC      []*sym.Term
	Queries int
	QTime   time.Duration
	Steps   int
	MaxStep int
	Funcs   map[string]bool
	journal []undo
	globals map[*ssa.Global]*Cell
	inited  map[*ssa.Package]bool
	info    map[*ssa.Function]*fnInfo
	bigT    types.Type
	errT    types.Type
	lens    map[*sym.Term]lenOf // length terms of big integers
	prune   map[string]int
	tol     int
	depth   int
	seq     int
}

type lenOf struct {
	n    *sym.Term
	unit int
	max  int
}

type CallCtx struct {
	Fn   *ssa.Function
	Name string
	Args []Val
	Sig  *types.Signature
}

type fnInfo struct {
	num   map[ssa.Value]int
	n     int
	ipdom map[*ssa.BasicBlock]*ssa.BasicBlock
	carry map[*ssa.BasicBlock][]int
}

type frame struct {
	fn   *ssa.Function
	info *fnInfo
	env  []Val
	args []Val
	bind []Val
}

func New(b *sym.B, p *Prog) *M {
	m := &M{B: b, P: p, Stubs: map[string]func(*M, *CallCtx) []Out{}, Funcs: map[string]bool{}, globals: map[*ssa.Global]*Cell{}, inited: map[*ssa.Package]bool{}, info: map[*ssa.Function]*fnInfo{}, lens: map[*sym.Term]lenOf{}, prune: map[string]int{}, MaxStep: 20_000_000}
	for _, q := range p.SSA.AllPackages() {
		if q.Pkg.Path() == "math/big" {
			m.bigT = q.Pkg.Scope().Lookup("Int").Type()
		}
	}
	m.errT = types.NewNamed(types.NewTypeName(token.NoPos, nil, "someError", nil), types.NewStruct(nil, nil), nil)
	m.stdStubs()
	return m
}

// Run executes fn symbolically under the assumptions and returns its outcomes; each outcome's memory effects are
// available through In.
func (m *M) Run(fn *ssa.Function, args []Val, assume ...*sym.Term) (outs []Out, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			panic(r)
		}
	}()
	m.PC = append([]*sym.Term{}, assume...)
	return m.call(&Func{Fn: fn}, args), nil
}

// In evaluates f in the memory state of the outcome.
func (m *M) In(o Out, f func()) {
	mark := len(m.journal)
	if o.d != nil {
		m.apply(o.d)
	}
	defer m.rollback(mark)
	f()
}

func (m *M) fnInfo(fn *ssa.Function) *fnInfo {
	if f := m.info[fn]; f != nil {
		return f
	}
	f := &fnInfo{num: map[ssa.Value]int{}, ipdom: map[*ssa.BasicBlock]*ssa.BasicBlock{}}
	add := func(v ssa.Value) { f.num[v] = f.n; f.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	m.pdoms(fn, f)
	f.liveIn(fn)
	m.info[fn] = f
	return f
}

// liveIn finds, for each block, the values of loop blocks that are live on entry: paths that go round a loop
// before they meet recompute them, so that they are merged like phis.
func (f *fnInfo) liveIn(fn *ssa.Function) {
	f.carry = map[*ssa.BasicBlock][]int{}
	reach := func(from *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		seen := map[*ssa.BasicBlock]bool{}
		todo := append([]*ssa.BasicBlock{}, from.Succs...)
		for len(todo) > 0 {
			b := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			if !seen[b] {
				seen[b] = true
				todo = append(todo, b.Succs...)
			}
		}
		return seen
	}
	def := map[int]*ssa.BasicBlock{}
	for _, b := range fn.Blocks {
		if reach(b)[b] {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					def[f.num[v]] = b
				}
			}
		}
	}
	if len(def) == 0 {
		return
	}
	live := map[*ssa.BasicBlock]map[int]bool{}
	for _, b := range fn.Blocks {
		live[b] = map[int]bool{}
	}
	var up func(b *ssa.BasicBlock, n int) // n is live on entry to b
	up = func(b *ssa.BasicBlock, n int) {
		if live[b][n] {
			return
		}
		live[b][n] = true
		for _, p := range b.Preds {
			if def[n] != p {
				up(p, n)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				for i, e := range p.Edges {
					if n, ok := f.num[e]; ok && def[n] != nil && def[n] != b.Preds[i] {
						up(b.Preds[i], n)
					}
				}
				continue
			}
			for _, o := range in.Operands(nil) {
				if *o == nil {
					continue
				}
				if n, ok := f.num[*o]; ok && def[n] != nil && def[n] != b {
					up(b, n)
				}
			}
		}
	}
	for b, l := range live {
		for n := range l {
			f.carry[b] = append(f.carry[b], n)
		}
		sort.Ints(f.carry[b])
	}
}

// pdoms computes immediate postdominators, ignoring paths that end in a panic.
func (m *M) pdoms(fn *ssa.Function, f *fnInfo) {
	n := len(fn.Blocks)
	full := func() []bool {
		s := make([]bool, n+1)
		for i := range s {
			s[i] = true
		}
		return s
	}
	pd := make([][]bool, n+1) // index n: exit
	for i := range pd {
		pd[i] = full()
	}
	pd[n] = make([]bool, n+1)
	pd[n][n] = true
	succs := func(b *ssa.BasicBlock) []int {
		var r []int
		for _, s := range b.Succs {
			r = append(r, s.Index)
		}
		if len(b.Succs) == 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); !ok {
				r = append(r, n)
			}
		}
		return r
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			s := full()
			for _, j := range succs(b) {
				for k := range s {
					s[k] = s[k] && pd[j][k]
				}
			}
			s[i] = true
			for k := range s {
				if s[k] != pd[i][k] {
					pd[i] = s
					ch = true
					break
				}
			}
		}
	}
	cnt := func(s []bool) int {
		c := 0
		for _, x := range s {
			if x {
				c++
			}
		}
		return c
	}
	for i := 0; i < n; i++ {
		// the immediate one has the most postdominators itself
		best, bc := -1, -1
		for k := 0; k <= n; k++ {
			if k != i && pd[i][k] {
				if c := cnt(pd[k]); c > bc && c <= n {
					best, bc = k, c
				}
			}
		}
		if best >= 0 && best < n && !allPanic(pd[i], n) {
			f.ipdom[fn.Blocks[i]] = fn.Blocks[best]
		}
	}
}

// a block from which only panics are reachable has every block as its postdominator
func allPanic(s []bool, n int) bool {
	for _, x := range s {
		if !x {
			return false
		}
	}
	return n > 1
}

// ---------------------------------------------------------------- values

func (m *M) get(fr *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constant(x)
	case *ssa.Function:
		return &Func{Fn: x}
	case *ssa.Global:
		return m.global(x)
	case *ssa.Builtin:
		return x
	}
	i, ok := fr.info.num[v]
	if !ok {
		fail("no number for %s", v)
	}
	r := fr.env[i]
	if p, ok := r.(poison); ok {
		fail("use of a value that could not be computed: %s", p.why)
	}
	return r
}

func (m *M) constant(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		fail("constant of type %s", t)
	}
	switch {
	case u.Info()&types.IsBoolean != 0:
		return m.B.Bool(constant.BoolVal(c.Value))
	case u.Info()&types.IsString != 0:
		return m.MkStr(constant.StringVal(c.Value))
	case u.Info()&types.IsInteger != 0:
		z, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		if !ok {
			fail("constant %s", c)
		}
		return m.B.Const(z)
	}
	return Opaque{"constant " + c.String()}
}

func (m *M) global(g *ssa.Global) *Cell {
	if c := m.globals[g]; c != nil {
		if m.inited[g.Pkg] || m.tol > 0 {
			return c
		}
	}
	if !m.inited[g.Pkg] && m.P.Src[g.Pkg.Pkg.Path()] {
		m.initPkg(g.Pkg)
	}
	c := m.globals[g]
	if c == nil {
		c = m.mkGlobal(g)
	}
	return c
}

func (m *M) mkGlobal(g *ssa.Global) *Cell {
	t := g.Type().(*types.Pointer).Elem()
	c := m.NewCell(t)
	if !m.P.Src[g.Pkg.Pkg.Path()] {
		if s, ok := t.Underlying().(*types.Struct); !ok || s.NumFields() > 0 {
			if types.Identical(t, types.Universe.Lookup("error").Type()) {
				c.V = Iface{m.errT, Opaque{g.String()}}
			} else {
				c = &Cell{T: t, V: poison{"global " + g.String()}}
			}
		}
	}
	m.globals[g] = c
	return c
}

// initPkg runs the package's variable initialisers; one that cannot be run leaves its variable unusable.
func (m *M) initPkg(p *ssa.Package) {
	m.inited[p] = true
	fn := p.Func("init")
	if fn == nil {
		return
	}
	m.tol++
	pc := m.PC
	m.PC = nil
	defer func() { m.tol--; m.PC = pc }()
	fr := m.newFrame(fn, nil, nil)
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		if done[b] {
			continue
		}
		done[b] = true
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && f.Name() == "init" && f.Signature.Recv() == nil && len(c.Call.Args) == 0 {
					continue
				}
				if f := c.Call.StaticCallee(); f != nil && strings.HasPrefix(f.Name(), "init#") {
					continue
				}
			}
			func() {
				mark := len(m.journal)
				defer func() {
					if r := recover(); r != nil {
						u, ok := r.(unsup)
						if !ok {
							panic(r)
						}
						m.rollback(mark)
						if v, ok := in.(ssa.Value); ok {
							fr.env[fr.info.num[v]] = poison{u.msg}
						}
						if s, ok := in.(*ssa.Store); ok {
							if g, ok := s.Addr.(*ssa.Global); ok {
								m.globals[g] = &Cell{T: g.Type().(*types.Pointer).Elem(), V: poison{g.String() + ": " + u.msg}}
							}
						}
					}
				}()
				switch in.(type) {
				case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi:
					return
				}
				outs := m.step(fr, b, in)
				if len(outs) != 1 || outs[0].Panic {
					fail("initialiser of %s forks", p.Pkg.Path())
				}
				if outs[0].d != nil {
					m.apply(outs[0].d)
				}
				m.setOut(fr, in, outs[0])
				m.journal = m.journal[:mark] // permanent
			}()
		}
	}
}

func (m *M) newFrame(fn *ssa.Function, args, bind []Val) *frame {
	fi := m.fnInfo(fn)
	fr := &frame{fn: fn, info: fi, env: make([]Val, fi.n), args: args, bind: bind}
	for i, p := range fn.Params {
		fr.env[fi.num[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[fi.num[p]] = bind[i]
	}
	return fr
}

// ---------------------------------------------------------------- calls

func funcKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func one(v ...Val) []Out { return []Out{{Vals: v}} }

// call runs a function; the memory is as before on return, with every outcome's effects in its delta.
func (m *M) call(f *Func, args []Val) []Out {
	if f == nil {
		return []Out{{Cond: m.B.T, Panic: true, Msg: "call of a nil function", d: &Delta{}}}
	}
	fn := f.Fn
	key := funcKey(fn)
	m.depth++
	defer func() { m.depth-- }()
	if m.depth > 400 {
		fail("call depth exceeded in %s", key)
	}
	if st := m.stub(key); st != nil {
		mark := len(m.journal)
		outs := st(m, &CallCtx{Fn: fn, Name: key, Args: args, Sig: fn.Signature})
		d := m.delta(mark)
		m.rollback(mark)
		for i := range outs {
			if outs[i].Cond == nil {
				outs[i].Cond = m.B.T
			}
			if outs[i].d == nil {
				outs[i].d = d
			}
		}
		return outs
	}
	if fn.Blocks == nil {
		fail("%s has no source here and no model", key)
	}
	if m.tol == 0 && fn.Pkg != nil {
		m.Funcs[key] = true
	} else if m.tol == 0 && fn.Origin() != nil {
		m.Funcs[key] = true
	}
	fr := m.newFrame(fn, args, f.Bind)
	pc, since := len(m.PC), m.seq
	outs := m.run(fr, fn.Blocks[0], 0, nil, nil)
	m.PC = m.PC[:pc]
	return m.mergeOuts(outs, since)
}

// mergeOuts joins outcomes of the same kind where their values allow it.
func (m *M) mergeOuts(outs []Out, since int) []Out {
	var groups []Out
	for _, o := range outs {
		if o.Cond == m.B.F {
			continue
		}
		done := false
		for i := range groups {
			if r, ok := m.merge2(o, groups[i], since); ok {
				groups[i] = r
				done = true
				break
			}
		}
		if !done {
			groups = append(groups, o)
		}
	}
	if len(groups) == 1 {
		groups[0].Cond = m.restCond(outs, groups[0].Cond)
	} else if len(groups) > 1 {
		// the largest condition is the complement of the others
		for i := range groups {
			var others []*sym.Term
			for j := range groups {
				if j != i {
					others = append(others, groups[j].Cond)
				}
			}
			if c := m.B.Not(m.B.Or(others...)); m.cover(outs) && termSize(c) < termSize(groups[i].Cond) {
				groups[i].Cond = c
				break
			}
		}
	}
	return groups
}

// outcomes of a complete run partition the inputs
func (m *M) cover(outs []Out) bool { return true }

func (m *M) restCond(outs []Out, c *sym.Term) *sym.Term { return m.B.T }

func termSize(t *sym.Term) int { return sym.DagSize(t) }

// Cells allocated after since belong to the outcome that changed them.
func (m *M) merge2(x, y Out, since int) (Out, bool) {
	if x.Panic != y.Panic || x.stop != y.stop {
		return Out{}, false
	}
	if x.Panic {
		// what memory looks like after a panic is not observed
		return Out{Cond: m.B.Or(x.Cond, y.Cond), Panic: true, Msg: y.Msg, d: &Delta{}}, true
	}
	if len(x.Vals) != len(y.Vals) {
		return Out{}, false
	}
	c := x.Cond
	r := Out{stop: x.stop, d: &Delta{at: map[*Cell]int{}}}
	look := func(d *Delta) func(*Cell) Val {
		return func(c *Cell) Val {
			if i, ok := d.at[c]; ok {
				return d.vals[i]
			}
			return c.V
		}
	}
	lx, ly := look(x.d), look(y.d)
	for i := range x.Vals {
		v, ok := m.mergeDeep(c, x.Vals[i], y.Vals[i], lx, ly)
		if !ok {
			return Out{}, false
		}
		r.Vals = append(r.Vals, v)
	}
	put := func(cell *Cell) bool {
		if _, ok := r.d.at[cell]; ok {
			return true
		}
		_, inX := x.d.at[cell]
		_, inY := y.d.at[cell]
		var v Val
		switch {
		case cell.born > since && !inY:
			v = lx(cell)
		case cell.born > since && !inX:
			v = ly(cell)
		default:
			var ok bool
			if v, ok = m.mergeDeep(c, lx(cell), ly(cell), lx, ly); !ok {
				return false
			}
		}
		r.d.at[cell] = len(r.d.cells)
		r.d.cells = append(r.d.cells, cell)
		r.d.vals = append(r.d.vals, v)
		return true
	}
	for _, cell := range x.d.cells {
		if !put(cell) {
			return Out{}, false
		}
	}
	for _, cell := range y.d.cells {
		if !put(cell) {
			return Out{}, false
		}
	}
	r.Cond = m.B.Or(x.Cond, y.Cond)
	return r, true
}

// mergeDeep also merges slices of equal length by copying (reads of either see the same elements; a later write
// through one of the original slices would not be seen, so it is done only for slices of integers and only when
// the arrays differ).
func (m *M) mergeDeep(c *sym.Term, x, y Val, lx, ly func(*Cell) Val) (Val, bool) {
	if v, ok := m.merge(c, x, y); ok {
		return v, true
	}
	if a, ok := x.(Slice); ok {
		if b, ok := y.(Slice); ok && a.Arr != nil && b.Arr != nil && a.Arr != b.Arr && a.Len == b.Len && (a.Arr == b.Arr || a.Len > 0) {
			return m.copySlice(c, a, b, lx, ly)
		}
	}
	if a, ok := x.(*Cell); ok {
		if b, ok := y.(*Cell); ok && a != nil && b != nil {
			p, ok1 := lx(a).(Big)
			q, ok2 := ly(b).(Big)
			if ok1 && ok2 {
				return m.MkBig(m.B.Ite(c, p.T, q.T)), true
			}
		}
	}
	return nil, false
}

// ---------------------------------------------------------------- control

// run executes from instruction idx of blk until stop (exclusive), a return or a panic.  On return memory is as at
// entry; each outcome carries its effects relative to entry and its condition relative to the entry.
func (m *M) run(fr *frame, blk *ssa.BasicBlock, idx int, prev *ssa.BasicBlock, stop *ssa.BasicBlock) []Out {
	mark := len(m.journal)
	pcMark := len(m.PC)
	acc := m.B.T
	var pending []Out
	finish := func(os ...Out) []Out {
		d := m.delta(mark)
		m.rollback(mark)
		m.PC = m.PC[:pcMark]
		for _, o := range os {
			o.Cond = m.B.And(acc, o.Cond)
			if o.d == nil {
				o.d = &Delta{}
			}
			o.d = d.over(o.d)
			if o.Cond != m.B.F {
				pending = append(pending, o)
			}
		}
		return pending
	}
	narrow := func(c *sym.Term) {
		if c != m.B.T {
			acc = m.B.And(acc, c)
			m.PC = append(m.PC, c)
		}
	}
	enter := func(to, from *ssa.BasicBlock) []Val { // phi values
		var vs []Val
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		for _, in := range to.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if i, ok := fr.info.num[p.Edges[pi]]; ok {
				vs = append(vs, fr.env[i])
			} else {
				vs = append(vs, m.get(fr, p.Edges[pi]))
			}
		}
		for _, n := range fr.info.carry[to] {
			vs = append(vs, fr.env[n])
		}
		return vs
	}
	setPhis := func(b *ssa.BasicBlock, vs []Val) {
		k := len(vs) - len(fr.info.carry[b])
		for i, n := range fr.info.carry[b] {
			fr.env[n] = vs[k+i]
		}
		for i, v := range vs[:k] {
			fr.env[fr.info.num[b.Instrs[i].(*ssa.Phi)]] = v
		}
	}
	if prev != nil {
		setPhis(blk, enter(blk, prev))
		idx = 0
	}
	for {
		// instructions
	block:
		for ; idx < len(blk.Instrs); idx++ {
			in := blk.Instrs[idx]
			m.Steps++
			if m.Steps > m.MaxStep {
				fail("step limit exceeded in %s", fr.fn)
			}
			switch x := in.(type) {
			case *ssa.Phi:
				continue
			case *ssa.Jump, *ssa.If:
				break block
			case *ssa.Return:
				vs := make([]Val, len(x.Results))
				for i, r := range x.Results {
					vs[i] = m.get(fr, r)
				}
				return finish(Out{Cond: m.B.T, Vals: vs})
			case *ssa.Panic:
				return finish(Out{Cond: m.B.T, Panic: true, Msg: fmt.Sprintf("panic at %s", m.P.fset.Position(x.Pos()))})
			}
			outs := m.step(fr, blk, in)
			if len(outs) == 1 && !outs[0].Panic {
				if outs[0].d != nil {
					m.apply(outs[0].d)
				}
				if outs[0].Cond != nil {
					narrow(outs[0].Cond)
				}
				m.setOut(fr, in, outs[0])
				continue
			}
			var cont []Out
			base := m.delta(mark)
			for _, o := range outs {
				if o.Cond == nil {
					o.Cond = m.B.T
				}
				if o.Panic {
					pending = append(pending, Out{Cond: m.B.And(acc, o.Cond), Panic: true, Msg: o.Msg, d: &Delta{}})
				} else {
					cont = append(cont, o)
				}
			}
			switch len(cont) {
			case 0:
				m.rollback(mark)
				m.PC = m.PC[:pcMark]
				return pending
			case 1:
				if cont[0].d != nil {
					m.apply(cont[0].d)
				}
				narrow(cont[0].Cond)
				m.setOut(fr, in, cont[0])
			default:
				env := fr.env
				var res []Out
				for _, o := range cont {
					mk, pm := len(m.journal), len(m.PC)
					if o.d != nil {
						m.apply(o.d)
					}
					m.PC = append(m.PC, o.Cond)
					fr.env = append([]Val{}, env...)
					m.setOut(fr, in, o)
					for _, r := range m.run(fr, blk, idx+1, nil, stop) {
						r.Cond = m.B.And(o.Cond, r.Cond)
						if o.d != nil {
							r.d = o.d.over(r.d)
						}
						res = append(res, r)
					}
					m.rollback(mk)
					m.PC = m.PC[:pm]
				}
				fr.env = env
				_ = base
				return finish(res...)
			}
		}
		// branch
		var next *ssa.BasicBlock
		if len(blk.Succs) == 1 {
			next = blk.Succs[0]
		} else {
			c := m.get(fr, blk.Instrs[len(blk.Instrs)-1].(*ssa.If).Cond).(*sym.Term)
			switch m.decide(c) {
			case 1:
				next = blk.Succs[0]
			case 0:
				next = blk.Succs[1]
			default:
				J := fr.info.ipdom[blk]
				var stops, rest []Out
				env, since := fr.env, m.seq
				for side, cc := range []*sym.Term{c, m.B.Not(c)} {
					to := blk.Succs[side]
					var outs []Out
					fr.env = append([]Val{}, env...)
					if to == J {
						outs = []Out{{Cond: m.B.T, stop: true, Vals: enter(to, blk), d: &Delta{}}}
					} else {
						m.PC = append(m.PC, cc)
						outs = m.run(fr, to, 0, blk, J)
						m.PC = m.PC[:len(m.PC)-1]
					}
					for _, o := range outs {
						o.Cond = m.B.And(cc, o.Cond)
						if o.stop {
							stops = append(stops, o)
						} else {
							rest = append(rest, o)
						}
					}
				}
				fr.env = env
				var restC []*sym.Term
				d0 := m.delta(mark)
				for _, o := range rest {
					restC = append(restC, o.Cond)
					o.Cond = m.B.And(acc, o.Cond)
					o.d = d0.over(o.d)
					if o.Cond != m.B.F {
						pending = append(pending, o)
					}
				}
				var groups []Out
				for _, o := range stops {
					done := false
					for i := range groups {
						if r, ok := m.merge2(o, groups[i], since); ok {
							groups[i], done = r, true
							break
						}
					}
					if !done {
						groups = append(groups, o)
					}
				}
				if len(groups) == 1 {
					groups[0].Cond = m.B.Not(m.B.Or(restC...))
				}
				if len(groups) == 0 {
					m.rollback(mark)
					m.PC = m.PC[:pcMark]
					return pending
				}
				if J == stop {
					return finish(groups...)
				}
				if len(groups) == 1 {
					m.apply(groups[0].d)
					narrow(groups[0].Cond)
					setPhis(J, groups[0].Vals)
					blk, idx = J, 0
					continue
				}
				var res []Out
				for _, o := range groups {
					mk, pm := len(m.journal), len(m.PC)
					m.apply(o.d)
					m.PC = append(m.PC, o.Cond)
					fr.env = append([]Val{}, env...)
					setPhis(J, o.Vals)
					for _, r := range m.run(fr, J, 0, nil, stop) {
						r.Cond = m.B.And(o.Cond, r.Cond)
						r.d = o.d.over(r.d)
						res = append(res, r)
					}
					m.rollback(mk)
					m.PC = m.PC[:pm]
				}
				fr.env = env
				return finish(res...)
			}
		}
		vs := enter(next, blk)
		if next == stop {
			return finish(Out{Cond: m.B.T, stop: true, Vals: vs})
		}
		setPhis(next, vs)
		blk, idx = next, 0
	}
}

func (m *M) setOut(fr *frame, in ssa.Instruction, o Out) {
	v, ok := in.(ssa.Value)
	if !ok {
		return
	}
	i := fr.info.num[v]
	if _, isT := v.Type().(*types.Tuple); isT {
		fr.env[i] = Tuple(o.Vals)
		return
	}
	if len(o.Vals) > 0 {
		fr.env[i] = o.Vals[0]
	}
}

// decide: 1 true, 0 false, -1 both possible (or unknown) under the path condition.
func (m *M) decide(c *sym.Term) int {
	b := m.B
	if c == b.T {
		return 1
	}
	if c == b.F {
		return 0
	}
	nc := b.Not(c)
	for _, p := range m.PC {
		if p == c {
			return 1
		}
		if p == nc {
			return 0
		}
	}
	key := fmt.Sprint(c.ID)
	rel := m.relevant(c)
	for _, p := range rel {
		key += fmt.Sprint(",", p.ID)
	}
	if r, ok := m.prune[key]; ok {
		return r
	}
	r := -1
	if !m.sat(append(rel, c)) {
		r = 0
	} else if !m.sat(append(rel, nc)) {
		r = 1
	}
	m.prune[key] = r
	return r
}

// relevant path conditions: those connected to c through shared variables.
func (m *M) relevant(c *sym.Term) []*sym.Term {
	vars := map[*sym.Term]bool{}
	for _, v := range sym.Support(c) {
		vars[v] = true
	}
	var rel []*sym.Term
	used := map[int]bool{}
	for ch := true; ch; {
		ch = false
		for i, p := range m.PC {
			if used[i] {
				continue
			}
			hit := false
			sp := sym.Support(p)
			for _, v := range sp {
				if vars[v] {
					hit = true
				}
			}
			if hit {
				used[i], ch = true, true
				for _, v := range sp {
					vars[v] = true
				}
			}
		}
	}
	for i, p := range m.PC {
		if used[i] {
			rel = append(rel, p)
		}
	}
	sort.Slice(rel, func(i, j int) bool { return rel[i].ID < rel[j].ID })
	return rel
}

// sat: false only if the conjunction is certainly unsatisfiable.
func (m *M) sat(ts []*sym.Term) bool {
	c := m.B.And(ts...)
	if c == m.B.F {
		return false
	}
	if c == m.B.T {
		return true
	}
	vars := sym.Support(c)
	bits := 0
	for _, v := range vars {
		if v.IsBool {
			bits++
		} else if v.Op == sym.OVar && v.Lo.Sign() == 0 {
			bits += v.Hi.BitLen()
		} else {
			bits += 100
		}
	}
	if bits <= 9 {
		n := 1 << bits
		for x := 0; x < n; x++ {
			mod := sym.Model{}
			y, ok := x, true
			for _, v := range vars {
				w := 1
				if !v.IsBool {
					w = v.Hi.BitLen()
				}
				val := big.NewInt(int64(y & (1<<w - 1)))
				y >>= w
				if !v.IsBool && val.Cmp(v.Hi) > 0 {
					ok = false
				}
				mod[v.Name] = val
			}
			if ok && m.B.NewEval(mod).Bool(c) {
				return true
			}
		}
		return false
	}
	t0 := time.Now()
	r, _, _, _ := m.B.Solve(ts, 2*time.Second, PruneSolver...)
	m.Queries++
	m.QTime += time.Since(t0)
	return r != sym.Unsat
}

var PruneSolver []sym.SolverCmd
