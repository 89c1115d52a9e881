package checks

import (
	"fmt"

	"verif/engine/hk"
	"verif/engine/sym"
)

// Reference Keccak-f[1600] written from FIPS 202 (constants derived, not copied): state bit (x,y,z) is
// index 64*(5y+x)+z.

type kst [5][5][64]*T // [x][y][z]

func keccakRC() [24][64]bool {
	// rc(t): LFSR x^8+x^6+x^5+x^4+1
	rc := func(t int) bool {
		if t%255 == 0 {
			return true
		}
		R := [9]bool{true}
		for i := 1; i <= t%255; i++ {
			var n [9]bool
			copy(n[1:], R[:8])
			// R = 0 || R
			out := R[7]
			n[0] = out
			n[4] = n[4] != out
			n[5] = n[5] != out
			n[6] = n[6] != out
			R = n
			R[8] = false
		}
		return R[0]
	}
	var out [24][64]bool
	for ir := 0; ir < 24; ir++ {
		for j := 0; j <= 6; j++ {
			out[ir][1<<j-1] = rc(j + 7*ir)
		}
	}
	return out
}

func keccakRound(b *sym.B, A kst, rc [64]bool) (kst, []*T) {
	var par []*T
	// theta
	var C [5][64]*T
	for x := 0; x < 5; x++ {
		for z := 0; z < 64; z++ {
			C[x][z] = b.Xor(A[x][0][z], A[x][1][z], A[x][2][z], A[x][3][z], A[x][4][z])
			par = append(par, C[x][z])
		}
	}
	for x := 0; x < 5; x++ {
		for z := 0; z < 64; z++ {
			d := b.Xor(C[(x+4)%5][z], C[(x+1)%5][(z+63)%64])
			for y := 0; y < 5; y++ {
				A[x][y][z] = b.Xor(A[x][y][z], d)
			}
		}
	}
	// rho
	B := A
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		off := (t + 1) * (t + 2) / 2
		for z := 0; z < 64; z++ {
			B[x][y][z] = A[x][y][((z-off)%64+64)%64]
		}
		x, y = y, (2*x+3*y)%5
	}
	// pi
	var P kst
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			P[x][y] = B[(x+3*y)%5][x]
		}
	}
	// chi
	var R kst
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			for z := 0; z < 64; z++ {
				R[x][y][z] = b.Xor(P[x][y][z], b.And(b.Not(P[(x+1)%5][y][z]), P[(x+2)%5][y][z]))
			}
		}
	}
	// iota
	for z := 0; z < 64; z++ {
		if rc[z] {
			R[0][0][z] = b.Not(R[0][0][z])
		}
	}
	return R, par
}

func kflat(s kst) []*T {
	out := make([]*T, 1600)
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			for z := 0; z < 64; z++ {
				out[64*(5*y+x)+z] = s[x][y][z]
			}
		}
	}
	return out
}

func kunflat(f []*T) kst {
	var s kst
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			for z := 0; z < 64; z++ {
				s[x][y][z] = f[64*(5*y+x)+z]
			}
		}
	}
	return s
}

func refKeccakF(b *sym.B, in []*T, name string, layers *[]hk.Layer) []*T {
	rc := keccakRC()
	s := kunflat(in)
	for r := 0; r < 24; r++ {
		var par []*T
		s, par = keccakRound(b, s, rc[r])
		if layers != nil {
			*layers = append(*layers, hk.Layer{Name: fmt.Sprintf("%s.theta%d", name, r), Bits: par})
			*layers = append(*layers, hk.Layer{Name: fmt.Sprintf("%s.round%d", name, r), Bits: kflat(s)})
		}
	}
	return kflat(s)
}

// refSponge absorbs blocks of 1088 bits and returns the state after each.
func refSponge(b *sym.B, blocks [][]*T, layers *[]hk.Layer) [][]*T {
	st := make([]*T, 1600)
	for i := range st {
		st[i] = b.F
	}
	var out [][]*T
	for i, bl := range blocks {
		n := append([]*T{}, st...)
		for j := range bl {
			n[j] = b.Xor(n[j], bl[j])
		}
		st = refKeccakF(b, n, fmt.Sprintf("block%d", i), layers)
		out = append(out, st)
	}
	return out
}
