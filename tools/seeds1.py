import sys; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
from mkseed import seed
G='circuits/gadgets/'
HEAD='''package %s

import (
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/test"
%s)

var zzF func(api frontend.API, in []frontend.Variable) []frontend.Variable

type zzC struct {
	In  []frontend.Variable
	Out []frontend.Variable
}

func (c *zzC) Define(api frontend.API) error {
	r := zzF(api, c.In)
	for i := range c.Out {
		api.AssertIsEqual(r[i], c.Out[i])
	}
	return nil
}

// zzOK: the circuit accepts in and computes out (only the first len(out) outputs are compared)
func zzOK(f func(api frontend.API, in []frontend.Variable) []frontend.Variable, in []int, out []int) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	zzF = f
	v := func(x []int) []frontend.Variable {
		r := make([]frontend.Variable, len(x))
		for i := range x {
			r[i] = x[i]
		}
		return r
	}
	a := &zzC{v(in), v(out)}
	b := &zzC{v(in), v(out)}
	return test.IsSolved(a, b, ecc.BN254.ScalarField()) == nil
}

'''
def H(pkg,imports=''): return HEAD%(pkg,imports)

seed('mux-oob','M01',G+'mux',[(G+'mux/multiplexer.go','api.AssertIsEqual(outputSuccess, 1)','api.AssertIsBoolean(outputSuccess)')],
H('mux')+'''
func TestZZDemo(t *testing.T) {
	f := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		return Multiplex(api, in[0], 1, 4, [][]frontend.Variable{in[1:5]})
	}
	for s := 0; s < 4; s++ {
		if !zzOK(f, []int{s, 5, 6, 7, 8}, []int{5 + s}) {
			t.Fatal("selector", s)
		}
	}
	if zzOK(f, []int{4, 5, 6, 7, 8}, []int{0}) {
		t.Fatal("an out-of-range selector is accepted")
	}
}
''','a selector outside the table','an out-of-range selector is no longer rejected: the multiplexer returns 0')

seed('subarray-end','R01',G+'rlp',[(G+'rlp/util.go','''	// end <= nIn
	api.AssertIsLessOrEqual(end, subArray.nIn)
''','''	// end <= nIn
	api.AssertIsLessOrEqual(from, subArray.nIn)
''')],
H('rlp')+'''
func TestZZDemo(t *testing.T) {
	f := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		o, l := NewSubArray(8, 8, 4).SubArray(api, in[2:], in[0], in[1])
		return append(o[:1:1], l)
	}
	d := []int{1, 2, 3, 4, 5, 6, 7, 8}
	if !zzOK(f, append([]int{2, 8}, d...), []int{3, 6}) {
		t.Fatal("2..8")
	}
	if zzOK(f, append([]int{2, 9}, d...), []int{3, 7}) {
		t.Fatal("a sub-array that ends beyond the array is accepted")
	}
}
''','a sub-array whose end lies beyond the array while its length still fits','the end of the sub-array is no longer range-checked, so nibbles wrap around')

seed('sha256-56','H01',G+'sha256',[(G+'sha256/sha256.go','if len%64 < 56 {','if len%64 <= 56 {')],
H('sha256','\t"crypto/sha256"\n')+'''
func TestZZDemo(t *testing.T) {
	f := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		d := New(api)
		d.Write(in)
		return d.Sum()
	}
	for _, n := range []int{0, 3, 55, 56, 63, 64, 120} {
		m := make([]byte, n)
		in := make([]int, n)
		for i := range m {
			m[i] = byte(7*i + 3)
			in[i] = int(m[i])
		}
		h := sha256.Sum256(m)
		var out []int
		for _, b := range h {
			out = append(out, int(b))
		}
		if !zzOK(f, in, out) {
			t.Fatal("length", n)
		}
	}
}
''','a message whose length is 56 modulo 64','the padding byte is missing for messages of length 56 mod 64')

seed('sha512-112','H02',G+'sha512',[(G+'sha512/sha512.go','if len%128 < 112 {','if len%128 <= 112 {')],
H('sha256','\t"crypto/sha512"\n')+'''
func TestZZDemo(t *testing.T) {
	f := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		d := New(api)
		d.Write(in)
		return d.Sum()
	}
	for _, n := range []int{0, 3, 111, 112, 127, 128} {
		m := make([]byte, n)
		in := make([]int, n)
		for i := range m {
			m[i] = byte(7*i + 3)
			in[i] = int(m[i])
		}
		h := sha512.Sum512(m)
		var out []int
		for _, b := range h {
			out = append(out, int(b))
		}
		if !zzOK(f, in, out) {
			t.Fatal("length", n)
		}
	}
}
''','a message whose length is 112 modulo 128','the padding is wrong for messages of length 112 mod 128')

seed('index-range','X01',G+'index-proof/core',[(G+'index-proof/core/circuit_index_mpt.go','api.AssertIsLessOrEqual(index, (1<<16)-1)','api.AssertIsLessOrEqual(index, (1<<17)-1)')],
H('core')+'''
func TestZZDemo(t *testing.T) {
	f := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		r := CalTxOrReceiptIndexRlp(api, in[0])
		return r[:]
	}
	if !zzOK(f, []int{65535}, []int{8, 2, 15, 15, 15, 15, 0}) || !zzOK(f, []int{128}, []int{8, 1, 8, 0, 0, 0, 0}) {
		t.Fatal("valid index")
	}
	if zzOK(f, []int{65536 + 300}, nil) {
		t.Fatal("an index of 17 bits is accepted")
	}
}
''','an index of 2^16 or more','indices beyond 16 bits are accepted and encoded as their low 16 bits')

seed('keccak-minrounds','K03',G+'keccak',[(G+'keccak/keccak256_bits_optimized.go','transpose2(states[minRounds:])','transpose2(states[1:maxRounds-minRounds+2])')],
H('keccak','\t"golang.org/x/crypto/sha3"\n')+'''
func TestZZDemo(t *testing.T) {
	f := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		r := Keccak256BitsOptimized(api, 2, 3, in[0], in[1:])
		return r[:]
	}
	for round := 1; round <= 2; round++ {
		d := make([]byte, 136*round+10)
		for i := range d {
			d[i] = byte(i*31 + 5)
		}
		in := []int{round}
		for _, b := range Bytes2BlockBits(Pad101Bytes(d)) {
			in = append(in, int(b))
		}
		for len(in) < 1+3*1088 {
			in = append(in, 0)
		}
		h := sha3.NewLegacyKeccak256()
		h.Write(d)
		var out []int
		for _, b := range Bytes2Bits(h.Sum(nil)) {
			out = append(out, int(b))
		}
		if !zzOK(f, in, out) {
			t.Fatal("round index", round)
		}
	}
}
''','minRounds larger than 1','the state after round roundIndex-minRounds+1 is returned instead of the one after roundIndex')

seed('leaf-even-prefix','T01',G+'mpt',[(G+'mpt/mpt_util.go',('secondPrefixForEven := rlp.Equal(api, fields[0][1], 0)',1),'secondPrefixForEven := rlp.LessThan(api, fields[0][1], 8)')],
H('mpt')+'''
func TestZZDemo(t *testing.T) {
	f := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		lc := NewMPTLeafCheck(4, 66)
		r := lc.CheckLeaf(api, in[0], in[1:5], in[5:71], in[71:71+lc.maxRLPLength], 2)
		return []frontend.Variable{r.result.output}
	}
	mk := func(low int) []int {
		value := []int{8, 2, 1, 2, 3, 4}
		node := []int{12, 7, 8, 3, 2, low, 1, 2, 3, 4, 8, 3, 8, 2, 1, 2, 3, 4} // c7 83 2x 12 34 | 83 82 12 34
		node[1] = 8
		pad := func(x []int, n int) []int {
			for len(x) < n {
				x = append(x, 0)
			}
			return x
		}
		lc := NewMPTLeafCheck(4, 66)
		in := []int{4, 1, 2, 3, 4}
		in = append(in, pad(value, 66)...)
		return append(in, pad(node, lc.maxRLPLength)...)
	}
	if !zzOK(f, mk(0), []int{4}) {
		t.Fatal("a leaf with the prefix 0x20 is rejected")
	}
	if zzOK(f, mk(5), []int{4}) {
		t.Fatal("a leaf with the prefix 0x25 is accepted")
	}
}
''','a leaf node whose even path prefix has a non-zero second nibble','a malformed hex-prefix byte (0x21..0x27) is accepted as an even leaf prefix')

seed('ext-reflen','T02',G+'mpt',[(G+'mpt/mpt_util.go','nodeRefLengthMatched := rlp.Equal(api, nodeRefLength, fieldsLength[1])','nodeRefLengthMatched := api.Sub(1, rlp.LessThan(api, nodeRefLength, fieldsLength[1]))')],
H('mpt')+'''
func TestZZDemo(t *testing.T) {
	f := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		ec := NewMPTExtensionCheck(4, 64)
		r := ec.CheckExtension(api, in[0], in[1:5], in[5], in[6:70], in[70:70+ec.maxRLPLength], 2)
		return []frontend.Variable{r.output}
	}
	mk := func(reflen int) []int {
		ec := NewMPTExtensionCheck(4, 64)
		in := []int{2, 1, 2, 0, 0, reflen}
		for i := 0; i < 64; i++ {
			in = append(in, (i+3)%16)
		}
		node := []int{12, 4, 8, 2, 0, 0, 1, 2, 3} // 82 00 12 | 03
		node = []int{12, 4, 8, 2, 0, 0, 1, 2, 0, 3}
		in[6], in[7] = 0, 3
		for len(node) < ec.maxRLPLength {
			node = append(node, 0)
		}
		return append(in, node...)
	}
	if !zzOK(f, mk(2), []int{4}) {
		t.Fatal("an extension with the right reference is rejected")
	}
	if zzOK(f, mk(64), []int{4}) {
		t.Fatal("an extension that holds a shorter reference than the child's is accepted")
	}
}
''','an extension node whose reference is a proper prefix of the child reference','the length of the node reference may exceed that of the reference in the extension')

seed('nested-lencheck','R03',G+'rlp',[(G+'rlp/rlp.go',('out = api.IsZero(api.Sub(api.Add(check, lenCheck), api.Add(a.MaxFields, 2)))',1),'out = api.IsZero(api.Sub(api.Or(api.IsZero(api.Sub(check, a.MaxFields+1)), lenCheck), 1))')],
H('rlp')+'''
func TestZZDemo(t *testing.T) {
	ac := ArrayCheck{MaxHexLen: 24, MaxFields: 2, ArrayPrefixMaxHexLen: 4, FieldMinHexLen: []int{0, 0}, FieldMaxHexLen: []int{8, 8}}
	f := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		out, _, _, _ := ac.RlpNestArrayCheck(api, in)
		return []frontend.Variable{out}
	}
	mk := func(d ...int) []int {
		for len(d) < 24 {
			d = append(d, 0)
		}
		return d
	}
	if !zzOK(f, mk(12, 4, 8, 1, 9, 9, 8, 1, 10, 10), []int{1}) {
		t.Fatal("a list of two fields is rejected")
	}
	if !zzOK(f, mk(12, 5, 8, 1, 9, 9, 8, 1, 10, 10), []int{0}) {
		t.Fatal("a list whose length prefix disagrees with its fields is accepted")
	}
}
''','a list whose declared length differs from the sum of its fields','the declared length of the list is no longer compared with its fields')

seed('mpt-fragment','T03',G+'mpt',[(G+'mpt/mpt.go',('isMonotoneStart = append(isMonotoneStart, rlp.LessThan(api, keyFragmentStarts[index], keyFragmentStarts[index+1]))',1),'isMonotoneStart = append(isMonotoneStart, api.Sub(1, rlp.LessThan(api, keyFragmentStarts[index+1], keyFragmentStarts[index])))')],
H('mpt','\t"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"\n\t"golang.org/x/crypto/sha3"\n')+'''
// one extension over one leaf; n = nibbles of the key consumed by the extension (even)
func zzProof(n int) []int {
	var key []int
	for i := 0; i < 64; i++ {
		key = append(key, (i*7+1)%16)
	}
	pack := func(nb []int) (b []byte) {
		for i := 0; i < len(nb); i += 2 {
			b = append(b, byte(nb[i]*16+nb[i+1]))
		}
		return
	}
	str := func(b []byte) []byte {
		if len(b) == 1 && b[0] < 128 {
			return b
		}
		return append([]byte{byte(128 + len(b))}, b...)
	}
	list := func(items ...[]byte) []byte {
		var r []byte
		for _, x := range items {
			r = append(r, x...)
		}
		return append([]byte{byte(192 + len(r))}, r...)
	}
	hash := func(b []byte) []byte {
		h := sha3.NewLegacyKeccak256()
		h.Write(b)
		return h.Sum(nil)
	}
	nib := func(b []byte, n int) (r []int) {
		for _, x := range b {
			r = append(r, int(x>>4), int(x&15))
		}
		for len(r) < n {
			r = append(r, 0)
		}
		return
	}
	value := []byte{0x82, 0x12, 0x34}
	leaf := list(str(append([]byte{0x20}, pack(key[n:])...)), str(value))
	ext := list(str(append([]byte{0}, pack(key[:n])...)), str(hash(leaf)))
	in := append([]int{}, key...)
	in = append(in, nib(value, 66)...)
	in = append(in, nib(hash(ext), 64)...)
	in = append(in, 0, n)
	in = append(in, nib(keccak.Pad101Bytes(leaf), 272)...)
	in = append(in, nib(keccak.Pad101Bytes(ext), 1088)...)
	return in
}

func TestZZDemo(t *testing.T) {
	f := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		take := func(n int) []frontend.Variable {
			r := in[:n]
			in = in[n:]
			return r
		}
		key, value := take(64), take(66)
		var root [64]frontend.Variable
		copy(root[:], take(64))
		starts, leaf, node := take(2), take(272), take(1088)
		r := CheckMPTInclusionFixedKeyLength(api, 2, 64, 66, key, value, root, starts, leaf, 0, 2,
			[][]frontend.Variable{node}, []frontend.Variable{0}, []frontend.Variable{2}, []frontend.Variable{1}, 2, false)
		return []frontend.Variable{r.Output}
	}
	if !zzOK(f, zzProof(2), []int{1}) {
		t.Fatal("a valid proof is rejected")
	}
	if zzOK(f, zzProof(0), []int{1}) {
		t.Fatal("a proof whose extension node consumes no key nibble is accepted")
	}
}
''','a proof with an extension node of empty path (two equal fragment starts)','fragment starts no longer have to increase strictly, so proofs through empty extensions are accepted')
