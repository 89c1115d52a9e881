# sourced: overlay arguments for the emulated-field build (echecks); $g = circuits/gadgets, $o = output directory
old=github.com/consensys/gnark/std/math/emulated
new=verif/engine/emu
ovargs="$g/pairing_bls12381@$old=$new $g/pairing_bls12381@github.com/consensys/gnark/std/algebra/native/weierstrass=$new/weierstrass $g/pairing_bls12381+$o/pairing_verif.go $g/ed25519@$old=$new $g/ed25519+$o/ed25519_verif.go $g/emulated/mimc@$old=$new"
ovhooks="ext2.Div ext2.Inverse ext6.Inverse ext12.Inverse ext12.Mul ext12.Square ext12.Conjugate ext12.CyclotomicSquare ext12.CyclotomicSquareCompressed ext12.DecompressKarabina ext12.Frobenius ext12.FrobeniusSquare ext12.FrobeniusCube ext12.Expt ext12.ExptHalf ext12.Mul014By014 Pairing.MulBy014 Pairing.DoubleStep Pairing.AddStep Pairing.MillerLoop Pairing.FinalExponentiation E2NotZero E2NotEqual E2NotOne E2Exp G2JacobianAddAssign G2JacobianDouble G2JacobianNeg G2JacobianPsi G2AddAssign G2Double G2Neg G2Psi G2AffineNotInfinity GetG2JacFromG2Affine GetG2AffineFromG2Jac G2JacobianConstScalarMul ClearCofactor G2ClearCofactor DoubleAndAdd MapElementToCurve2 G2Isogeny HashToField g2Sgn0 g2SqrtRatio ExpandMsgXmd GetUint64From8Bytes G2JacobianSubAssign G2SubAssign G2Phi G2JacobianPhi ext2.Mul ext2.Square ext2.Select"
for h in $ovhooks; do ovargs="$ovargs $g/pairing_bls12381:$h"; done
s512=github.com/brevis-network/zk-utils/circuits/gadgets/sha512
ovargs="$ovargs $g/ed25519@$s512=verif/engine/sha512stub"
for h in curve.add curve.double curve.neg curve.assertIsOnCurve; do ovargs="$ovargs $g/ed25519:$h"; done
