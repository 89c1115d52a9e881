// Package checks holds the engine-A harnesses, one function per property.
package checks

import (
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/consensys/gnark/frontend"
	"verif/engine/hk"
	"verif/engine/sym"
)

type V = frontend.Variable
type T = sym.Term

var Registry = map[string]func(c *hk.Check){}

func fieldVars(b *sym.B, name string, n int) []*T {
	out := make([]*T, n)
	for i := range out {
		out[i] = b.FieldVar(fmt.Sprintf("%s%d", name, i))
	}
	return out
}

func bitsVars(b *sym.B, name string, n, w int) []*T {
	out := make([]*T, n)
	for i := range out {
		out[i] = b.BitsVar(fmt.Sprintf("%s%d", name, i), w)
	}
	return out
}

func boolVars(b *sym.B, name string, n int) []*T {
	out := make([]*T, n)
	for i := range out {
		out[i] = b.BoolVar(fmt.Sprintf("%s%d", name, i))
	}
	return out
}

func constTerms(b *sym.B, n int, v int64) []*T {
	out := make([]*T, n)
	for i := range out {
		out[i] = b.I(v)
	}
	return out
}

func join(a ...[]*T) []*T {
	var out []*T
	for _, x := range a {
		out = append(out, x...)
	}
	return out
}

// selectAt: arr[idx] as nested conditionals, for idx an integer term; default last.
func selectAt(b *sym.B, arr []*T, idx *T) *T {
	r := arr[len(arr)-1]
	for i := len(arr) - 2; i >= 0; i-- {
		r = b.Ite(b.IEq(idx, b.I(int64(i))), arr[i], r)
	}
	return r
}

func big2(i int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(i)) }

// weighted big-endian value of digits of w bits
func beVal(b *sym.B, ds []*T, w int) *T {
	var cs []*big.Int
	for i := range ds {
		cs = append(cs, big2(w*(len(ds)-1-i)))
	}
	return b.Lin(ds, cs, nil)
}

func leVal(b *sym.B, ds []*T, w int) *T {
	var cs []*big.Int
	for i := range ds {
		cs = append(cs, big2(w*i))
	}
	return b.Lin(ds, cs, nil)
}

const keccakMax = keccak.MAX_ROUNDS

func pow2s(n int) []*big.Int {
	var r []*big.Int
	for i := 0; i < n; i++ {
		r = append(r, big2(i))
	}
	return r
}
