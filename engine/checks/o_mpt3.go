//go:build overlay

package checks

import (
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark/frontend"
	"verif/engine/hk"
	"verif/engine/sym"
)

func init() {
	Registry["T03"] = checkT03
	mpt.VerifHookMPTLeafCheckCheckLeaf = func(r *mpt.MPTLeafCheck, api frontend.API, klen V, key, val, node []V, plen V) mpt.MPTLeafCheckResult {
		if s := stubsOf(api); s != nil && s.gate != nil {
			if o := s.gate(api, "leaf", node, key, val, []V{klen, plen}); o != nil {
				return setOut[mpt.MPTLeafCheckResult](o)
			}
		}
		return r.CheckLeafVerifOrig(api, klen, key, val, node, plen)
	}
	mpt.VerifHookMPTExtensionCheckCheckExtension = func(r *mpt.MPTExtensionCheck, api frontend.API, klen V, key []V, rlen V, ref, node []V, plen V) mpt.MPTCheckResult {
		if s := stubsOf(api); s != nil && s.gate != nil {
			if o := s.gate(api, "ext", node, key, ref, []V{klen, plen, rlen}); o != nil {
				return setOut[mpt.MPTCheckResult](o)
			}
		}
		return r.CheckExtensionVerifOrig(api, klen, key, rlen, ref, node, plen)
	}
	mpt.VerifHookMPTBranchCheckCheckBranch = func(r *mpt.MPTBranchCheck, api frontend.API, nb, rlen V, ref, node []V) mpt.MPTCheckResult {
		if s := stubsOf(api); s != nil && s.gate != nil {
			if o := s.gate(api, "branch", node, nil, ref, []V{nb, rlen}); o != nil {
				return setOut[mpt.MPTCheckResult](o)
			}
		}
		return r.CheckBranchVerifOrig(api, nb, rlen, ref, node)
	}
	mpt.VerifHookMPTBranchCheckCheckBranchForNonExistence = func(r *mpt.MPTBranchCheck, api frontend.API, nb V, node []V) V {
		if s := stubsOf(api); s != nil && s.gate != nil {
			if o := s.gate(api, "empty", node, nil, nil, []V{nb}); o != nil {
				return o[0]
			}
		}
		return r.CheckBranchForNonExistenceVerifOrig(api, nb, node)
	}
}

// setOut fills the wire fields of a result struct in order (output, total length[, value length]).
func setOut[R any](o []V) R {
	var r R
	i := 0
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		for f := 0; f < v.NumField(); f++ {
			if fv := v.Field(f); fv.Kind() == reflect.Struct {
				walk(fv)
			} else {
				*(*V)(unsafe.Pointer(fv.UnsafeAddr())) = o[i]
				i++
			}
		}
	}
	walk(reflect.ValueOf(&r).Elem())
	return r
}

// recording stubs -----------------------------------------------------------------------------

// world replaces node checks, list decoding and hashing by arbitrary results, one bundle per distinct call, found by a
// first symbolic run; later runs (symbolic, test engine, R1CS) map calls to bundles by position.
type world struct {
	b     *sym.B
	calls []*stubCall
	by    map[string]*stubCall
	flat  []*T
	asm   []*T // facts about the bundles (ranges)
}

type stubCall struct {
	kind       string
	node       []*T
	key, other []*T
	rest       []*T
	outs       []*T // nil: constant input, the real code runs
	d          *decoded
	at         int
}

func key(ts []*T) string {
	var s strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&s, "%p,", t)
	}
	return s.String()
}

func flatBlocks(blocks [keccakMax][17]V) []V {
	var r []V
	for i := range blocks {
		r = append(r, blocks[i][:]...)
	}
	return r
}

func litHash(api frontend.API, inLen V, out []V) *rlp.KeccakOrLiteralHex {
	r := &rlp.KeccakOrLiteralHex{OutputLength: api.Select(rlp.LessThan(api, inLen, 63), inLen, 64)}
	copy(r.Output[:], out)
	return r
}

func allConst(ts []*T) bool {
	for _, t := range ts {
		if t.Op != sym.OConst {
			return false
		}
	}
	return true
}

// call finds or creates the bundle of a call.
func (w *world) call(c *stubCall, cfg string, mk func(name string) []*T) *stubCall {
	kk := c.kind + cfg + "|" + key(c.node) + "|" + key(c.key) + "|" + key(c.other) + "|" + key(c.rest)
	if o := w.by[kk]; o != nil {
		c.outs, c.d, c.at = o.outs, o.d, o.at
	} else {
		c.outs = mk(fmt.Sprintf("%s%d", c.kind, len(w.by)))
		c.at = len(w.flat)
		w.flat = append(w.flat, c.outs...)
		w.by[kk] = c
	}
	w.calls = append(w.calls, c)
	return c
}

// discover runs f once on symbolic wires and creates the bundles. gates: also replace the node checks.
func discover(k *hk.Case, in []*T, gates bool, f func(api frontend.API, v []V)) (*world, error) {
	b := k.B
	w := &world{b: b, by: map[string]*stubCall{}}
	s := &stubs{}
	if gates {
		s.gate = func(api frontend.API, kind string, node, key, other, rest []V) []V {
			a := api.(*sym.API)
			c := &stubCall{kind: kind, node: a.Terms(node), key: a.Terms(key), other: a.Terms(other), rest: a.Terms(rest)}
			if allConst(c.node) {
				w.calls = append(w.calls, c)
				return nil
			}
			w.call(c, "", func(n string) []*T {
				if kind == "empty" {
					return []*T{b.BoolVar(n)}
				}
				o := b.BitsVar(n+"_score", 3)
				w.asm = append(w.asm, b.ILe(o, b.I(4)))
				r := []*T{o, b.BitsVar(n+"_total", 12)}
				if kind == "leaf" {
					r = append(r, b.BitsVar(n+"_vlen", 10))
				}
				return r
			})
			return sym.Vars(c.outs)
		}
	}
	s.decode = func(a *rlp.ArrayCheck, api frontend.API, x []V) (V, V, []V, [][]V) {
		c := &stubCall{kind: fmt.Sprintf("list%d", a.MaxFields), node: api.(*sym.API).Terms(x)}
		if allConst(c.node) {
			w.calls = append(w.calls, c)
			return a.RlpArrayCheckVerifOrig(api, x)
		}
		w.call(c, fmt.Sprint(a.MaxHexLen, a.MaxFields, a.FieldMinHexLen, a.FieldMaxHexLen), func(n string) []*T {
			c.d = newDecoded(b, n, a)
			return c.d.flat()
		})
		return c.d.result(sym.Vars(c.outs))
	}
	s.hash = func(api frontend.API, inLen V, blocks [keccakMax][17]V, ri V) *rlp.KeccakOrLiteralHex {
		a := api.(*sym.API)
		c := w.call(&stubCall{kind: "hash", node: a.Terms(flatBlocks(blocks)), rest: a.Terms([]V{ri})}, "", func(n string) []*T {
			return bitsVars(b, n+"_", 64, 4)
		})
		return litHash(api, inLen, sym.Vars(c.outs))
	}
	_, _, err := k.Encode(func(api frontend.API, v []V) []V {
		w.calls = nil
		withStubs(api, s, func() { f(api, v) })
		return nil
	}, in, nil, false)
	return w, err
}

// run replays f with the bundles given as wires.
func (w *world) run(api frontend.API, gates bool, bundle []V, f func()) {
	ci := 0
	next := func(kind string) *stubCall {
		if ci >= len(w.calls) || w.calls[ci].kind != kind {
			panic("sym: the calls differ from those of the first run: " + kind)
		}
		ci++
		return w.calls[ci-1]
	}
	s := &stubs{
		decode: func(a *rlp.ArrayCheck, api frontend.API, in []V) (V, V, []V, [][]V) {
			c := next(fmt.Sprintf("list%d", a.MaxFields))
			if c.d == nil {
				return a.RlpArrayCheckVerifOrig(api, in)
			}
			return c.d.result(bundle[c.at : c.at+c.d.size()])
		},
		hash: func(api frontend.API, inLen V, blocks [keccakMax][17]V, ri V) *rlp.KeccakOrLiteralHex {
			c := next("hash")
			return litHash(api, inLen, bundle[c.at:c.at+64])
		},
	}
	if gates {
		s.gate = func(api frontend.API, kind string, node, key, other, rest []V) []V {
			c := next(kind)
			if c.outs == nil {
				return nil
			}
			return bundle[c.at : c.at+len(c.outs)]
		}
	}
	withStubs(api, s, f)
}

// find: the call of the kind that reads exactly the given wires (up to the shorter length); nil when there is none.
func (w *world) find(kind string, in []*T) *stubCall {
	for _, c := range w.calls {
		if c.outs == nil || c.kind != kind {
			continue
		}
		n := min(len(c.node), len(in))
		if key(c.node[:n]) == key(in[:n]) {
			return c
		}
	}
	return nil
}

// hashOf: the hash the code computes over the packed wires with the given round index.
func (w *world) hashOf(k *hk.Case, nib []*T, ri *T) []*T {
	want := packLanes(w.b, nib)
	for _, c := range w.calls {
		if c.kind == "hash" && c.rest[0] == ri && key(c.node) == key(want) {
			return c.outs
		}
	}
	for i, c := range w.calls {
		if c.kind != "hash" || c.rest[0] != ri {
			continue
		}
		same := w.b.T
		for i := range want {
			same = w.b.And(same, w.b.FEq(c.node[i], want[i]))
		}
		if o := k.Query(fmt.Sprintf("hash-input-%d", i), w.b.Not(same)); o.R == sym.Unsat {
			return c.outs
		}
	}
	return nil
}

// packLanes: 16 nibbles per little-endian 64-bit lane, zero-filled to 10 blocks.
func packLanes(b *sym.B, nib []*T) []*T {
	out := constTerms(b, keccakMax*17, 0)
	for i := 0; i+16 <= len(nib); i += 16 {
		var ds []*T
		for j := 0; j < 16; j += 2 {
			ds = append(ds, nib[i+j+1], nib[i+j])
		}
		out[i/16] = leVal(b, ds, 4)
	}
	return out
}

// the chain ------------------------------------------------------------------------------------

type chainCase struct {
	maxDepth, depth int
	storage         bool
	types           []int // of layers 0..depth-2: 0 branch, 1 extension
	starts          []int // starts[0..depth-1]
	public          bool  // the variant with a public leaf hash and a 7-nibble key
	free            bool  // fragment starts, node types and depth are field wires
}

func (cc chainCase) name() string {
	s := "fixed"
	if cc.storage {
		s = "storage"
	}
	if cc.public {
		s = "public"
	}
	if cc.free {
		return fmt.Sprintf("%s-free-of%d", s, cc.maxDepth)
	}
	for i, t := range cc.types {
		s += fmt.Sprintf("-%s%d", [2]string{"B", "E"}[t], cc.starts[i+1]-cc.starts[i])
	}
	if cc.starts[0] != 0 {
		s += fmt.Sprintf("-from%d", cc.starts[0])
	}
	return fmt.Sprintf("%s-of%d", s, cc.maxDepth)
}

func (cc chainCase) sizes() (keyLen, maxVal, leafWires int) {
	if cc.public {
		return 7, 0, 0
	}
	if cc.storage {
		return 64, 66, 1088
	}
	return 64, 228, 544
}

const nodeWires = 1088

func chain(k *hk.Case, cc chainCase, kind string) {
	b := k.B
	keyLen, maxVal, leafW := cc.sizes()
	md, d := cc.maxDepth, cc.depth
	if cc.free {
		d = md
	}
	key := bitsVars(b, "k", keyLen, 4)
	val := bitsVars(b, "v", maxVal, 4)
	root := bitsVars(b, "root", 64, 4)
	leaf := bitsVars(b, "leaf", leafW, 4)
	leafRI, leafPL := b.FieldVar("leafri"), b.FieldVar("leafplen")
	klen := b.I(int64(keyLen))
	if cc.public {
		klen = b.BitsVar("klen", 3)
	}
	pub := bitsVars(b, "pub", 2, 128)
	var depth, st, typ []*T
	if cc.free {
		depth, st, typ = []*T{b.FieldVar("depth")}, fieldVars(b, "start", md), fieldVars(b, "type", md-1)
	} else {
		depth = []*T{b.I(int64(d))}
		for i := 0; i < md; i++ {
			if i < d {
				st = append(st, b.I(int64(cc.starts[i])))
			} else {
				st = append(st, b.I(int64(keyLen)))
			}
			if i < d-1 {
				typ = append(typ, b.I(int64(cc.types[i])))
			} else if i < md-1 {
				typ = append(typ, b.I(0))
			}
		}
	}
	in := join(key, val, root, leaf, []*T{leafRI, leafPL, klen}, pub, depth, st, typ)
	var nodes [][]*T
	var ri, pl []*T
	for i := 0; i < md-1; i++ {
		n := constTerms(b, nodeWires, 0)
		r, p := b.I(0), b.I(0)
		if i < d-1 {
			n = bitsVars(b, fmt.Sprintf("n%d_", i), nodeWires, 4)
			r, p = b.FieldVar(fmt.Sprintf("ri%d", i)), b.FieldVar(fmt.Sprintf("plen%d", i))
		}
		in = join(in, n, []*T{r, p})
		nodes, ri, pl = append(nodes, n), append(ri, r), append(pl, p)
	}
	call := func(api frontend.API, v []V) []V {
		at := 0
		take := func(n int) []V { at += n; return v[at-n : at] }
		ck, cv, croot, cleaf := take(keyLen), take(maxVal), take(64), take(leafW)
		t := take(5)
		cd, cst, ctyp := take(1)[0], take(md), take(md-1)
		var cn [][]V
		var cri, cpl []V
		for i := 0; i < md-1; i++ {
			cn = append(cn, take(nodeWires))
			x := take(2)
			cri, cpl = append(cri, x[0]), append(cpl, x[1])
		}
		var rt [64]V
		copy(rt[:], croot)
		var r mpt.CheckMPTInclusionFixedKeyLengthResult
		if cc.public {
			r = mpt.CheckMPTInclusionNoBranchTermination(api, md, keyLen, ck, t[2], rt, cst, [2]V{t[3], t[4]}, cn, cri, cpl, ctyp, cd)
		} else {
			r = mpt.CheckMPTInclusionFixedKeyLength(api, md, keyLen, maxVal, ck, cv, rt, cst, cleaf, t[0], t[1], cn, cri, cpl, ctyp, cd, cc.storage)
		}
		return []V{r.Output, r.ValueLength}
	}
	w, err := discover(k, in, true, func(api frontend.API, v []V) { call(api, v) })
	if err != nil {
		k.C.Err("%s: %v", k.Name, err)
		return
	}
	n := len(in)
	run := func(api frontend.API, v []V) (r []V) {
		w.run(api, true, v[n:], func() { r = call(api, v[:n]) })
		return
	}
	soundRun := func(api frontend.API, v []V) []V {
		api.AssertIsEqual(run(api, v)[0], 1)
		return nil
	}
	if cc.free {
		spec := b.And(b.ILe(b.I(1), depth[0]), b.ILe(depth[0], b.I(int64(md))), b.IEq(st[0], b.I(0)))
		for i := 0; i < md; i++ {
			on := b.ILt(b.I(int64(i)), depth[0]) // layer i is on the path
			spec = b.And(spec, b.Implies(on, b.ILt(st[i], klen)))
			if i < md-1 {
				below := b.ILt(b.I(int64(i+1)), depth[0])
				spec = b.And(spec, b.Implies(below, b.And(b.ILt(st[i], st[i+1]),
					b.Or(b.IEq(typ[i], b.I(1)), b.And(b.IEq(typ[i], b.I(0)), b.IEq(b.Add(st[i], b.I(1)), st[i+1]))))))
			}
		}
		k.Gadget(hk.Gadget{Name: "inclusion", In: join(in, w.flat), Pre: w.asm, SoundOnly: true, Accept: spec, Run: soundRun})
		return
	}
	// specification
	pre := append([]*T{}, w.asm...)
	spec := b.T
	eqs := func(x, y []*T) *T {
		r := b.T
		for i := range y {
			if i >= len(x) {
				return b.F
			}
			r = b.And(r, b.FEq(x[i], y[i]))
		}
		return r
	}
	// step: the check behind c got the inputs it must get, and found them right
	step := func(c *stubCall, inputs *T) {
		if c == nil {
			spec = b.F
			return
		}
		if kind == "sound" {
			spec = b.And(spec, inputs, b.IEq(c.outs[0], b.I(4)))
		} else {
			pre = append(pre, b.Implies(inputs, b.IEq(c.outs[0], b.I(4))))
		}
	}
	var lh []*T
	if cc.public {
		for i := 0; i < 64; i++ {
			w := pub[i/32]
			lh = append(lh, b.Lin([]*T{b.Bit(w, 124-4*(i%32)), b.Bit(w, 125-4*(i%32)), b.Bit(w, 126-4*(i%32)), b.Bit(w, 127-4*(i%32))}, pow2s(4), nil))
		}
	} else if lh = w.hashOf(k, leaf, leafRI); lh == nil {
		lh = bitsVars(b, "missing_leafhash", 64, 4)
	}
	nh := make([][]*T, d-1)
	cs := make([]*stubCall, d-1)
	for i := 0; i < d-1; i++ {
		if nh[i] = w.hashOf(k, nodes[i], ri[i]); nh[i] == nil {
			nh[i] = bitsVars(b, fmt.Sprintf("missing_hash%d", i), 64, 4)
		}
		cs[i] = w.find([2]string{"branch", "ext"}[cc.types[i]], nodes[i])
		if i > 0 && cs[i] != nil {
			pre = append(pre, b.ILe(b.I(63), cs[i].outs[1]))
		}
	}
	if cc.starts[0] != 0 {
		spec = b.F
	}
	for i := 0; i < d-1; i++ {
		ref := lh
		if i+1 < d-1 {
			ref = nh[i+1]
		}
		s, e := cc.starts[i], cc.starts[i+1]
		if s >= e || e >= keyLen || cc.types[i] == 0 && e != s+1 {
			spec = b.F
			break
		}
		if c := cs[i]; c == nil {
			spec = b.F
		} else if cc.types[i] == 0 {
			step(c, b.And(b.FEq(c.rest[0], key[s]), b.FEq(c.rest[1], b.I(64)), eqs(c.other, ref)))
		} else {
			step(c, b.And(b.FEq(c.rest[0], b.I(int64(e-s))), b.FEq(c.rest[1], pl[i]), b.FEq(c.rest[2], b.I(64)), eqs(c.key, key[s:e]), eqs(c.other, ref)))
		}
		if cc.public {
			spec = b.And(spec, b.ILt(b.I(int64(s)), klen))
		}
	}
	top := lh
	if d > 1 {
		top = nh[0]
	}
	for i := range root {
		spec = b.And(spec, b.IEq(root[i], top[i]))
	}
	ls := cc.starts[d-1]
	vlen := b.I(0)
	if cc.public {
		spec = b.And(spec, b.ILt(b.I(int64(ls)), klen))
	} else {
		lc := w.find("leaf", leaf)
		leafIn, leafOK := b.F, b.F
		if lc != nil {
			leafIn = b.And(b.FEq(lc.rest[0], b.I(int64(keyLen-ls))), b.FEq(lc.rest[1], leafPL), eqs(lc.key, key[ls:]), eqs(lc.other, val))
			leafOK = b.IEq(lc.outs[0], b.I(4))
			vlen = lc.outs[2]
		}
		absent := b.F
		if cc.storage {
			empty := b.And(b.IEq(val[0], b.I(8)), allEqC(b, val[1:], 0))
			if c := w.find("empty", leaf); c != nil {
				cin := b.FEq(c.rest[0], key[ls])
				co := b.IEq(c.outs[0], b.I(1))
				if kind == "sound" {
					absent = b.And(empty, cin, co)
				} else if kind == "absent-branch" {
					pre = append(pre, b.Implies(cin, co), empty)
				}
			} else if kind == "absent-branch" {
				spec = b.F
			}
			if c := w.find("list2", leaf); c != nil {
				ed := c.d
				er := b.Sub(ed.lens[0], leafPL)
				rest := append(append([]*T{}, key[ls:]...), constTerms(b, ls, 0)...)
				fits := b.ILe(er, b.I(int64(keyLen-ls))) // not longer than the rest of the key
				differs := b.Not(prefixMatch(b, rest, ed.fields[0], er, leafPL, keyLen))
				extAb := b.And(ed.out, hexPrefixOK(b, leafPL, ed.fields[0], 1, 0), rangeT(b, er, 0, keyLen), b.Or(b.Not(fits), differs))
				if kind == "sound" {
					absent = b.Or(absent, b.And(empty, extAb))
				} else {
					pre = append(pre, rangeT(b, leafPL, 0, 2), rangeT(b, er, 0, keyLen))
					if kind == "absent-ext" {
						pre = append(pre, extAb, fits, empty)
					}
				}
			} else if kind == "absent-ext" {
				spec = b.F
			}
		}
		switch kind {
		case "sound":
			spec = b.And(spec, b.Or(b.And(leafIn, leafOK), absent))
		case "exists":
			pre = append(pre, b.Implies(leafIn, leafOK))
		}
	}
	if kind != "sound" {
		for _, p := range pl[:d-1] {
			pre = append(pre, rangeT(b, p, 0, 2))
		}
	}
	all := join(in, w.flat)
	if kind == "sound" {
		k.Gadget(hk.Gadget{Name: "inclusion", In: all, Pre: pre, SoundOnly: true, Accept: spec, Run: soundRun})
	} else if spec == b.F {
		k.C.Err("%s: the code does not read a node of the chain", k.Name)
	} else {
		k.Gadget(hk.Gadget{Name: "inclusion", In: all, Pre: append(pre, spec), CompleteOnly: true, Outs: []*T{b.I(1), vlen}, Run: run})
	}
}

// lastNode: completeness on real encodings of the last node (depth 1), with only hashing replaced.
func lastNode(k *hk.Case, what string, rem, size int) {
	b := k.B
	var pre []*T
	key := bitsVars(b, "k", 64, 4)
	var nib, val []*T
	emptyVal := join(nibs(b, 0x80, 2), constTerms(b, 64, 0))
	plen := 0
	hp := func(leaf bool, path []*T) []*T {
		x := 0
		if leaf {
			x = 2
		}
		plen = 2 - len(path)%2
		kp := join(nibs(b, x<<4, 2), path)
		if len(path)%2 == 1 {
			kp = join(nibs(b, x+1, 1), path)
		}
		if len(kp) > 2 {
			return join(strPrefix(b, len(kp)/2, 0x80), kp)
		}
		return kp
	}
	list := func(body []*T) []*T { return join(strPrefix(b, len(body)/2, 0xc0), body) }
	vlen := len(emptyVal)
	switch what {
	case "leaf", "leaf-other":
		path := append([]*T{}, key...)
		var vi []*T
		vi, val = encItem(b, "val", size, &pre)
		vlen = len(val)
		if what == "leaf-other" {
			path = bitsVars(b, "p", 64, 4)
			ne := b.F
			for i := range path {
				ne = b.Or(ne, b.Not(b.IEq(path[i], key[i])))
			}
			pre = append(pre, ne)
			val = emptyVal
		}
		nib = list(join(hp(true, path), vi))
	case "ext":
		path := bitsVars(b, "p", rem, 4)
		ne := b.F
		for i := range path {
			ne = b.Or(ne, b.Not(b.IEq(path[i], key[i])))
		}
		pre = append(pre, ne)
		nib = list(join(hp(false, path), nibs(b, 0xa0, 2), bitsVars(b, "ref", 64, 4)))
		val = emptyVal
	case "branch":
		z := make([]int, 17)
		miss := b.F
		for i := 0; i < 16; i++ {
			if rem>>i&1 == 1 {
				z[i] = 32
			} else {
				miss = b.Or(miss, b.IEq(key[0], b.I(int64(i))))
			}
		}
		pre = append(pre, miss)
		e := encList(b, z)
		pre = append(pre, e.pre...)
		nib = e.nib
		val = emptyVal
	}
	for len(val) < 66 {
		val = append(val, b.I(0))
	}
	nodeLen := len(nib)
	for len(nib) < 1088 {
		nib = append(nib, b.I(0))
	}
	nib[nodeLen] = b.I(0) // pad10*1
	nib[nodeLen+1] = b.I(1)
	root := bitsVars(b, "root", 64, 4)
	in := join(key, val, nib, root)
	var outs []*T
	outs = append(outs, b.I(1), nil)
	if what == "leaf" {
		outs[1] = b.I(int64(vlen))
	}
	k.Gadget(hk.Gadget{Name: "last-node", In: in, Pre: pre, CompleteOnly: true, Outs: outs, Run: func(api frontend.API, v []V) []V {
		ck, cv, cl, cr := v[:64], v[64:130], v[130:130+1088], v[130+1088:]
		var rt [64]V
		copy(rt[:], cr)
		zero := make([]V, nodeWires)
		for i := range zero {
			zero[i] = 0
		}
		var r mpt.CheckMPTInclusionFixedKeyLengthResult
		first := true
		withStubs(api, &stubs{hash: func(api frontend.API, inLen V, blocks [keccakMax][17]V, ri V) *rlp.KeccakOrLiteralHex {
			if first { // the last node is hashed before the (zero) filler nodes
				first = false
				return litHash(api, inLen, cr)
			}
			return litHash(api, inLen, zero[:64])
		}}, func() {
			r = mpt.CheckMPTInclusionFixedKeyLength(api, 2, 64, 66, ck, cv, rt, []V{0, 64}, cl, 0, plen, [][]V{zero}, []V{0}, []V{0}, []V{0}, 1, true)
		})
		return []V{r.Output, r.ValueLength}
	}})
}

func checkT03(c *hk.Check) {
	c.Bound("storage proofs of depth 1 end to end (real list decoding and node checks): leaf with the key and a value of 1..33 bytes, leaf with another key, branch without the child, extension that leaves the key; all contents")
	for _, n := range []int{lit, 1, 2, 20, 33} {
		n := n
		c.Case(fmt.Sprintf("last-leaf-%d", n), func(k *hk.Case) { lastNode(k, "leaf", 0, n) })
		if n == 33 || n == 2 || c.Thorough {
			c.Case(fmt.Sprintf("last-leaf-other-%d", n), func(k *hk.Case) { lastNode(k, "leaf-other", 0, n) })
		}
	}
	for _, n := range []int{1, 2, 5, 32} {
		n := n
		c.Case(fmt.Sprintf("last-ext-%d", n), func(k *hk.Case) { lastNode(k, "ext", n, 0) })
	}
	for _, m := range []int{0x5555, 0x0003, 0xfffe, 0x7fff} {
		m := m
		c.Case(fmt.Sprintf("last-branch-%04x", m), func(k *hk.Case) { lastNode(k, "branch", m, 0) })
	}
	c.Bound("maxDepth 2, 3 and 5 (thorough: 2..10), every sequence of branch and extension nodes up to depth 3 and listed longer ones, listed fragment boundaries; all keys, values, roots, node and leaf contents, prefix lengths, round indexes")
	c.Bound("fragment starts, node types and depth as free field wires (maxDepth 2..4): only chains that start at nibble 0, increase strictly inside the key and consume one nibble per branch are accepted")
	c.Stub("CheckLeaf, CheckExtension, CheckBranch and CheckBranchForNonExistence return arbitrary scores per distinct input; their inputs are compared with the ones the chain prescribes (contracts: T01, T02). The extension non-existence check runs for real on an arbitrary decoding of its node (contract: R03)")
	c.Stub("rlp.Keccak256AsNibbles returns arbitrary nibbles per distinct (lanes, round index), the lanes compared with the packed node (contract: K03); the literal-length rule is kept")
	c.OutOf("inner nodes whose encoding is shorter than 32 bytes (embedded nodes)")
	var ccs []chainCase
	add := func(cc chainCase) {
		cc.depth = len(cc.types) + 1
		ccs = append(ccs, cc)
	}
	seqs := func(n int) [][]int {
		r := [][]int{}
		for m := 0; m < 1<<n; m++ {
			var s []int
			for i := 0; i < n; i++ {
				s = append(s, m>>i&1)
			}
			r = append(r, s)
		}
		return r
	}
	build := func(types, extLens []int) []int {
		st := []int{0}
		for i, t := range types {
			n := 1
			if t == 1 {
				n = extLens[i%len(extLens)]
			}
			st = append(st, st[i]+n)
		}
		return st
	}
	mds := []int{2, 3, 5}
	if c.Thorough {
		mds = []int{2, 3, 4, 5, 6, 7, 8, 9, 10}
	}
	for _, md := range mds {
		for _, v := range []chainCase{{}, {storage: true}, {public: true}} {
			v.maxDepth = md
			kl := 64
			if v.public {
				kl = 7
			}
			var tys [][]int
			for n := 0; n <= 2 && n < md; n++ {
				if md > 3 && !c.Thorough && n > 0 {
					break
				}
				tys = append(tys, seqs(n)...)
			}
			if md > 3 {
				tys = append(tys, []int{0, 1, 0, 0})
				if c.Thorough {
					tys = append(tys, make([]int, md-1), []int{0, 0, 0, 1})
				}
			}
			if md == 3 && !c.Thorough {
				tys = tys[:len(tys)-1] // two extensions in a row
			}
			for _, ty := range tys {
				lens := [][]int{{2, 3}, {5, 1}}
				if !v.public {
					lens = append(lens, []int{9, 50})
					if len(ty) == 1 {
						lens = append(lens, []int{62}, []int{63})
						if c.Thorough {
							for i := 6; i < 62; i++ {
								lens = append(lens, []int{i})
							}
						}
					}
				}
				seen := map[string]bool{}
				for _, l := range lens {
					v.types, v.starts = ty, build(ty, l)
					if s := fmt.Sprint(v.starts); seen[s] || v.starts[len(v.starts)-1] >= kl {
						continue
					} else {
						seen[s] = true
					}
					add(v)
				}
			}
		}
	}
	for _, md := range []int{2, 3, 4} {
		for _, v := range []chainCase{{}, {storage: true}, {public: true}} {
			v.maxDepth, v.free = md, true
			v := v
			c.Case(v.name(), func(k *hk.Case) { chain(k, v, "sound") })
		}
	}
	for _, cc := range ccs {
		cc := cc
		kinds := []string{"sound", "exists"}
		if cc.storage {
			kinds = append(kinds, "absent-branch", "absent-ext")
		}
		for _, kd := range kinds {
			kd := kd
			c.Case(cc.name()+"-"+kd, func(k *hk.Case) { chain(k, cc, kd) })
		}
	}
}
