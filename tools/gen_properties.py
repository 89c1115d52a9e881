#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay in one reviewable place)."""
import json, os
P = []
OV = {'lengths':'inputs','selectors':'inputs','hint outputs':'inputs','structures':'configurations'}
def prop(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=sorted({OV.get(o,o) for o in over}), text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

G = "circuits/gadgets/"
# ---------------------------------------------------------------- keccak
prop("K01", "The in-circuit permutation is Keccak-f[1600]",
 "keccakf.Permute maps every 1600-bit state (lane i = bits 64i..64i+63, least significant bit first) to exactly the state that the 24 rounds of the standard Keccak-f[1600] permutation produce.",
 ["inputs"], "all 2^1600 states of boolean wires",
 "A test hashes a few messages; a slip in one rotation, one round constant bit or one chi term that only shows on some states needs the whole state space.",
 [G+"keccak/keccakf/keccakf.go", G+"keccak/keccakf/uint64api.go"],
 [("Permute/permute (theta, rho-pi, chi, iota)", G+"keccak/keccakf/keccakf.go"), ("bitwise word operations", G+"keccak/keccakf/uint64api.go")])
prop("K02", "Every padding helper applies keccak's multi-rate pad10*1",
 "keccak.Pad101Bytes/Pad101, their copies in common/circuits, the in-circuit Pad101Bits (for every input length between inLenMin and inLenMax) and PadBits101 all return the message followed by pad10*1 to the next multiple of 136 bytes (byte 0x01, zeros, last byte ORed with 0x80, i.e. 0x81 when a single byte is missing), in the documented bit order, followed only by zero fill up to the fixed output length. GetRoundIndex(bitsLen), for a message of bitsLen bits, is the index of the block that holds the final padding bit, and GetKeccakRoundForPaddedBytes agrees with it.",
 ["inputs", "lengths"], "all messages of every byte length (including lengths 135, 136 and 137 modulo 136) and all lengths selected at proving time",
 "The interesting lengths are 3 in every 136 and the existing tests hit none of the single-byte-padding ones; padding content must hold for every message.",
 [G+"keccak/pad.go", G+"keccak/periphery.go", "common/circuits/keccak.go"],
 [("in-circuit padding matrix", G+"keccak/pad.go Pad101Bits"), ("off-circuit padding", G+"keccak/periphery.go Pad101Bytes, PadBits101, GetRoundIndex"), ("copy for common", "common/circuits/keccak.go")])
prop("K03", "The keccak gadgets absorb in order and return the selected round",
 "Keccak256, Keccak256ForNormalTransaction, Keccak256ForMaxTransaction, Keccak256Bits and Keccak256BitsOptimized return the first 256 state bits after absorbing blocks 0..roundIndex (rate 1088, initial state zero) with Keccak-f between blocks, for every block content and every allowed roundIndex, independently of later blocks; a roundIndex outside the allowed range is unsatisfiable whenever more than one round is configured. The rlp Keccak256*AsNibbles wrappers return that digest as 64 nibbles, high nibble of each byte first, with length 64, or the input length when it is below 63 nibbles.",
 ["inputs", "selectors"], "all block contents, all field values of roundIndex and inLen",
 "Tests run one message per round count; the claim is about every content, about dummy blocks never leaking into the digest and about out-of-range selectors being rejected.",
 [G+"keccak/keccak256.go", G+"keccak/keccak256_bits.go", G+"keccak/keccak256_bits_optimized.go", G+"rlp/util.go"],
 [("absorb + round multiplexer", G+"keccak/keccak256*.go"), ("digest to nibbles", G+"rlp/util.go Keccak256*AsNibbles")])
prop("K04", "Packing nibbles and bytes into keccak lanes loses nothing",
 "NibblesToU64Array, its NormalTransaction/MaxTransaction variants and RecomposeHexToKeccakU64s pack every 16 nibbles (high nibble of a byte first) into the little-endian 64-bit lane of those 8 bytes, at position [i/17][i%17], zero-filling the rest and rejecting any wire that is not a nibble; Bytes2Uint64s, Bytes2Bits, Bytes2BlockBits (both packages) and Uint64s2Blocks are the matching byte-level packings, so the circuit hashes exactly the bytes the off-circuit code padded.",
 ["inputs"], "all nibble / byte / field-element contents at the used widths",
 "A swapped pair of positions or a dropped range check only shows for particular contents or for malicious witnesses, which tests never supply.",
 [G+"keccak/periphery.go", "common/circuits/keccak.go"],
 [("nibble packing", G+"keccak/periphery.go"), ("byte packing", "common/circuits/keccak.go")])
# ---------------------------------------------------------------- sha2
prop("H01", "The SHA-256 gadget computes SHA-256",
 "For every byte message written with any split into Write calls, sha256.New(api).Write(..).Sum() returns the 32 bytes of FIPS 180-4 SHA-256 of the message, for every message length including those around the 55/56/64-byte padding boundaries.",
 ["inputs", "lengths"], "all message contents; every length within the stated bound",
 "No stable test covers the gadget; message-dependent carries in the 32-bit additions and length-dependent padding need every content and every length class.",
 [G+"sha256/sha256.go", G+"sha256/sha256block.go", G+"sha256/uint32api.go", G+"sha256/uint64api.go", G+"sha256/uint8api.go", G+"sha256/bigEndian.go"],
 [("compression function", G+"sha256/sha256block.go"), ("buffering and padding", G+"sha256/sha256.go")])
prop("H02", "The SHA-512 gadget computes SHA-512",
 "For every byte message written with any split into Write calls, sha512.New(api).Write(..).Sum() returns the 64 bytes of FIPS 180-4 SHA-512 of the message, for every message length including those around the 111/112/128-byte padding boundaries.",
 ["inputs", "lengths"], "all message contents; every length within the stated bound",
 "No stable test covers the gadget; carries in the 64-bit additions and padding need every content and every length class.",
 [G+"sha512/sha512.go", G+"sha512/sha512block.go", G+"sha512/uint64api.go", G+"sha512/uint8api.go", G+"sha512/bigEndian.go"],
 [("compression function", G+"sha512/sha512block.go"), ("buffering and padding", G+"sha512/sha512.go")])
# ---------------------------------------------------------------- limbs / conv / mux
prop("L01", "Limb splitting, merging and rotation are value-preserving and sound",
 "For limbs whose values fit their declared sizes, Split, Merge, Resplit, LrotMerge and Lrot return limbs with the documented sizes whose concatenation is the input (rotated left by the amount for Lrot), and a satisfying witness exists. No witness (in particular no dishonest hint output) can satisfy the circuit with any other output, so every returned limb is forced to its true value within its declared size.",
 ["inputs", "hint outputs"], "all in-range limb values and all field values a prover may supply as hint outputs",
 "Tests use the honest hint and literal constants; soundness quantifies over every dishonest hint output.",
 [G+"limbs/limbapi.go"],
 [("Split: hint plus recomposition constraint", G+"limbs/limbapi.go"), ("Merge/Resplit/Lrot", G+"limbs/limbapi.go")])
prop("M01", "Multiplexers return exactly the selected entry",
 "mux.Multiplex and rlp.Multiplexer (wIn rows, nIn entries) return entry `selector` of every row for selector in 0..nIn-1 and are unsatisfiable for any other field value of the selector, for arbitrary field values of the entries.",
 ["inputs", "selectors"], "all field values of the entries and of the selector",
 "The stable test picks one random in-range selector; rejection of the other ~2^254 selectors and independence from unselected entries are universal claims.",
 [G+"mux/multiplexer.go", G+"rlp/util.go"],
 [("one-hot decoder + dot product", G+"mux/multiplexer.go"), ("Decoder/EscalarProduct", G+"rlp/util.go")])
prop("C01", "In-circuit bit/byte/nibble/word conversions follow their documented order",
 "conv.Bits2Bytes, Bits2Bytes2, Bits2BytesArray, Bits2Uint128s and Bits2Nibbles, utils.Flip/FlipSubSlice/FlipKeccakFvBits, and common/utils Recompose32ByteToNibbles, RecomposeSDKByte32ToNibble, RecomposeSDKByte32To2Fr, Recompose6BytesToNibbles, PackBitsToFr and Byte32ToBits return the same number, regrouped in the documented group size and order, for every in-range input, and reject wires that do not fit the stated width.",
 ["inputs"], "all bit vectors / field elements of the stated widths",
 "Order and grouping mistakes are invisible on symmetric samples and there is no stable test for any of these functions except FlipByGroups.",
 [G+"conv/bits.go", G+"utils/slice.go", "common/utils/utils.go", "common/utils/binary.go"],
 [("bit regrouping", G+"conv/bits.go"), ("byte32 recomposition", "common/utils/utils.go"), ("packing to field elements", "common/utils/binary.go")])
# ---------------------------------------------------------------- rlp
prop("R01", "RLP array primitives: equality, comparison, shifts, sub-arrays",
 "rlp.Equal and LessThan decide = and < on field elements; ArrayEqual(a,b,maxLength,n) is 1 exactly when the first n entries agree for n in 0..maxLength and unsatisfiable for larger n; ShiftLeft(in, shift) rotates left by shift for minShift <= shift within the documented bit range, ShiftRight shifts right with zero fill, and SubArray(from,end) returns in[from:] rotated into the first positions with length end-from, rejecting from > end, end > nIn or end-from > maxSelect.",
 ["inputs", "selectors"], "all entry values and all shift / length / bound values a prover may choose",
 "Tests use a handful of shifts; the claim is for each shift amount, each content and the rejection of every out-of-range amount.",
 [G+"rlp/util.go", G+"rlp/rlp.go"],
 [("ArrayEqual, LessThan, SubArray", G+"rlp/util.go"), ("barrel shifters", G+"rlp/rlp.go")])
prop("R02", "RLP prefix decoding agrees with the RLP specification on all 256 prefixes",
 "For every pair of nibbles, RlpArrayPrefix and RlpFieldPrefix classify the prefix byte as RLP does: literal (<0x80), short string, long string (0xb8-0xbf), short list, long list (0xf8-0xff), empty list, and report the hex length of the payload (short form) or of the length-of-length field (long form); RlpArrayPrefix is valid exactly for 0xc0 and above.",
 ["inputs"], "all 256 prefix bytes",
 "Tests see only the prefixes present in their fixtures.",
 [G+"rlp/rlp.go"], [("RlpArrayPrefix, RlpFieldPrefix", G+"rlp/rlp.go")])
prop("R03", "RLP list decoding is sound and complete within its declared shape",
 "ArrayCheck.RlpArrayCheck and RlpNestArrayCheck report 1 for every canonical RLP list of the declared field count whose field sizes lie within the declared minimum and maximum, returning for each field its payload hex length and its payload nibbles at the front of fields[i], and the total encoded hex length. For arbitrary nibble strings they report 1 only if the list header's declared length equals the sum of the lengths of the items actually laid out.",
 ["inputs", "lengths"], "all nibble contents and all combinations of field lengths within the bounds",
 "The tests decode a few real transactions; an off-by-one in a shift or a length term appears only for particular length combinations or malformed input.",
 [G+"rlp/rlp.go"], [("RlpArrayCheck, RlpNestArrayCheck, LeftShiftRlpArrayPrefix", G+"rlp/rlp.go")])
prop("R04", "Block-header decoding returns the header's own fields",
 "For every canonical Ethereum block header encoding with 15 to 17 fields of legal sizes, followed by its keccak pad10*1 padding and zeros up to the maximum size, BlkHeaderRlpCheck / CheckEthBlockHash report 1 and return the header's state root, transactions root, receipts root, block number (left-aligned with its length) and timestamp at their positions; an encoding whose declared length is inconsistent with its items is not accepted.",
 ["inputs", "lengths"], "all field contents and the length combinations of the variable-size fields within the bounds",
 "One or two mainnet headers are tested; difficulty, number, gas, time, extra-data and base-fee lengths vary over history.",
 [G+"rlp/rlp.go", G+"mpt/eth_proof.go"], [("BlkHeaderRlpCheck", G+"rlp/rlp.go"), ("CheckEthBlockHash", G+"mpt/eth_proof.go")])
prop("R05", "Hex-to-number conversion honours the real length",
 "HexToDecimal(in, maxLen, realLen) is the big-endian value of the first realLen nibbles (0 for length 0) for 0 <= realLen <= maxLen, and Hex64To2Fr(in, realLen) returns for 63 or 64 nibbles {value of the nibbles after the first byte, first byte} and for shorter input {value, 0}, for every nibble content.",
 ["inputs", "lengths"], "all nibble contents and every real length 0..64",
 "Length-dependent selection over 64 positions with arbitrary contents; tests exercise one or two lengths.",
 [G+"rlp/rlp.go"], [("HexToDecimal, Hex64To2Fr", G+"rlp/rlp.go")])
# ---------------------------------------------------------------- mpt
prop("T01", "MPT leaf check accepts exactly the matching leaf (or a proven-absent key)",
 "MPTLeafCheck.CheckLeaf reports the full score 4 only when the node is a well-formed two-item RLP leaf whose hex-prefix (odd 0x3, even 0x20) matches the given prefix length, and either its remaining path equals the key nibbles and its value equals the claimed value, or the claimed value is the empty value 0x80 and its remaining path differs from the key; every honest leaf of legal size scores 4.",
 ["inputs", "lengths"], "all nibble contents, key remainders and value lengths within the bounds",
 "Tests replay a few mainnet leaves; acceptance must hold for all and forged combinations must all be rejected.",
 [G+"mpt/mpt_util.go"], [("CheckLeaf", G+"mpt/mpt_util.go")])
prop("T02", "MPT extension and branch checks bind the child reference",
 "CheckExtension scores 4 only when the node is a well-formed extension (hex-prefix 0x1 odd / 0x00 even) whose path equals the key fragment and whose second item equals the child reference with its length; CheckBranch scores 4 only when the node is a well-formed 17-item list whose item at the key nibble equals the child reference with its length; honest nodes always score 4.",
 ["inputs", "lengths"], "all nibble contents, key nibbles 0..15 and child-reference contents within the bounds",
 "Only a few real nodes are tested; a forged child reference or wrong nibble has to be rejected for every content.",
 [G+"mpt/mpt_util.go"], [("CheckExtension, CheckBranch", G+"mpt/mpt_util.go")])
prop("T03", "MPT inclusion requires an unbroken chain from root to leaf",
 "CheckMPTInclusionFixedKeyLength and CheckMPTInclusionNoBranchTermination report 1 only if, for the claimed depth, node 0 hashes to the root, every node on the path below depth-1 passes the branch check (consuming exactly one nibble) or the extension check (consuming its fragment) with the next node's hash as child reference, the key fragments are strictly increasing and inside the key, and (FixedKeyLength) the last node passes the leaf check against the rest of the key, or in its storage non-existence mode the last node shows that the key is absent and the claimed value is zero; (NoBranchTermination) the last node is the given leaf hash, whose content is not checked here. They report 1 for every honest proof.",
 ["inputs", "structures"], "all outcomes of the node checks, all node types, fragment starts and depths up to the configured maximum",
 "Score-sum accounting over layers can be satisfied by dishonest combinations no test constructs.",
 [G+"mpt/mpt.go"], [("fragment accounting, hash chaining, score sum", G+"mpt/mpt.go")])
prop("T04", "Storage-slot and account extraction follow the proven RLP value",
 "CheckEthStorageProof returns as SlotValue exactly the integer encoded by the proven RLP value (single byte below 0x80, or 0x80+len string up to 32 bytes) split into {all but the top byte, top byte} for 32-byte values and {value, 0} otherwise; CheckEthAccountProof returns the nonce, balance, storage root and code hash items of the proven account value; CheckEthAddressStorageProof reports 1 only if the header hashes to the given block hash and the account proof and the storage proof both hold, each against the root and the key belonging to it, and returns the header's block number.",
 ["inputs", "lengths"], "all value contents and lengths 0..32 bytes; all account field lengths within the bounds",
 "Tests cover one slot value length; the decoding is length-dependent in several overlapping branches.",
 [G+"mpt/eth_proof.go"], [("CheckEthStorageProof, CheckEthAccountProof, CheckEthAddressStorageProof", G+"mpt/eth_proof.go")])
prop("X01", "Index-to-RLP-key conversion is exact for all 16-bit indexes",
 "CalTxOrReceiptIndexRlp returns, right-padded with zero nibbles to 7, the RLP encoding of the index (0x80 for 0, the byte itself below 128, 0x81xx below 256, 0x82xxxx below 65536) for every index in 0..65535 and is unsatisfiable for any larger value.",
 ["inputs"], "all field values of the index",
 "Tests stop at 9999 and never offer a value outside the range.",
 [G+"index-proof/core/circuit_index_mpt.go"], [("CalTxOrReceiptIndexRlp", G+"index-proof/core/circuit_index_mpt.go")])
# ---------------------------------------------------------------- merkle
prop("G01", "In-circuit Merkle roots bind leaf, position and siblings",
 "MerkleRootBasedOnMiMCHash / MerkleRootWithLeaveHash / CheckSMTInclusion fold the (hashed) leaf with each branch, on the left when index bit is 0 and on the right when it is 1, reject non-boolean index values, and CheckSMTInclusion is 1 exactly when that root equals rootHash; KeccakMerkleRoot and the emulated MimcRoot compute the pairwise tree root in leaf order for every power-of-two leaf count, and RestoreMimcRoot folds the leaf with each path node (on the right when its selector is 0, on the left when it is 1).",
 ["inputs", "structures"], "all leaf / sibling / index values and tree sizes within the bounds, with the hash as an arbitrary function",
 "Position-binding and order are universal claims; tests check one path.",
 [G+"merkle/mimc_root.go", G+"merkle/keccak_root.go", G+"merkle/emulated_mimc_root.go", G+"smt/smt.go", "circuits/fabric/smt/utils.go"],
 [("MiMCHashBasedOnIndex", G+"merkle/mimc_root.go"), ("KeccakMerkleRoot", G+"merkle/keccak_root.go"), ("MimcRoot/RestoreMimcRoot", G+"merkle/emulated_mimc_root.go"), ("fabric MimcRoot", "circuits/fabric/smt/utils.go")])
prop("E01", "Conversions between packed variables and emulated elements keep the integer",
 "emulated.ToElement and ToElements map big-endian packed variables of inBitSize bits to emulated elements with the same integer value, and FromElement maps an element's limbs back to big-endian variables of outBitSize bits, for every value and every used size combination; no other output satisfies the circuit.",
 ["inputs", "hint outputs"], "all packed values within the stated widths and all hint outputs",
 "Tests convert one constant per size with honest hints.",
 [G+"emulated/element.go"], [("FromElement, ToElement, ToElements", G+"emulated/element.go")])
prop("E02", "Emulated MiMC equals the native MiMC of the configured curve",
 "For BN254, BLS12-377 and BW6-761, the emulated MiMC gadget's Sum after any sequence of Write, Sum, Reset and Hash computes the Miyaguchi-Preneel MiMC of gnark-crypto (same round constants, exponent 5 or 17, same feed-forward) for all field inputs.",
 ["inputs"], "all field inputs, up to the stated number of written elements",
 "One random vector per curve cannot settle a polynomial identity of this degree for every input or the state handling between calls.",
 [G+"emulated/mimc/mimc.go"], [("encrypt, encryptPow5/17, Sum", G+"emulated/mimc/mimc.go")])
# ---------------------------------------------------------------- bls12-381
prop("P01", "BLS12-381 tower arithmetic is field arithmetic",
 "Every exported operation of the E2, E6 and E12 gadgets (Mul, Square, Inverse, Conjugate, MulByNonResidue and its power variants, MulBy01/1/034/014, Frobenius maps, CyclotomicSquare and its compressed form, Div, Halve, ...) equals the corresponding operation in Fp[u]/(u^2+1), Fp2[v]/(v^3-u-1), Fp6[w]/(w^2-v) for all coefficients.",
 ["inputs"], "all coefficients in Fp (as polynomial identities modulo p)",
 "Stable tests run two whole pairings; an identity that fails only off the tested subset, or in an operation the pairing does not use, stays hidden.",
 [G+"pairing_bls12381/tower.go"], [("ext2, ext6, ext12", G+"pairing_bls12381/tower.go")])
prop("P02", "Miller-loop steps are tangent/chord steps with their line evaluations",
 "Pairing.DoubleStep and AddStep return a projective representative of 2P and P+A on y^2=x^3+4(1+u) with the line coefficients of the tangent/chord through those points (up to a common factor in Fp2), MulBy014 and Mul014By014 are multiplication by the sparse line elements, MillerLoop processes the bits of |x0| in order for every list of pairs, and FinalExponentiation raises to (p^12-1)/r times the fixed cofactor used by gnark-crypto.",
 ["inputs"], "all points (as rational-function identities) and all line coefficients",
 "A test pairing exercises one random pair of points.",
 [G+"pairing_bls12381/pairing.go"], [("DoubleStep, AddStep, MillerLoop, FinalExponentiation", G+"pairing_bls12381/pairing.go")])
prop("P03", "G2 affine and Jacobian formulas implement the group law",
 "G2Double, G2AddAssign, G2SubAssign, G2Neg, DoubleAndAdd and their Jacobian counterparts compute 2P, P+Q, P-Q, -P and 2P+Q on the twist for all points on which the affine formulas are defined, Psi and Phi are the curve endomorphisms, and cofactor clearing computes the published linear combination.",
 ["inputs"], "all pairs of affine/Jacobian coordinates outside the exceptional set",
 "Only one hash-to-curve vector reaches these formulas.",
 [G+"pairing_bls12381/g2.go"], [("G2 formulas", G+"pairing_bls12381/g2.go")])
prop("P04", "Hash-to-curve maps field elements to G2 as RFC 9380 prescribes",
 "HashToField reduces each 64-byte big-endian chunk of the expanded message modulo p, MapElementToCurve2 is the simplified SWU map (including its exceptional case and the sign rule) given the square root of g2SqrtRatio, whose defining equations the circuit enforces, G2Isogeny is the published 3-isogeny, E2Exp is exponentiation for every exponent, and EncodeToG2 / HashToG2 (affine and Jacobian results) compose map, isogeny, addition and cofactor clearing in that order, for all field inputs.",
 ["inputs"], "all field inputs; listed exponents and counts",
 "No stable test runs hash-to-curve.",
 [G+"pairing_bls12381/hash2curve.go"], [("HashToField, MapElementToCurve2, G2Isogeny, HashToG2", G+"pairing_bls12381/hash2curve.go")])
prop("P05", "Message expansion and the zero, equality and sign tests of hash-to-curve are exact",
 "ExpandMsgXmd equals expand_message_xmd with SHA-256 and the fixed DST for every 32-byte message, GetUint64From8Bytes and Get64BitsFrom8Bytes are the big-endian value and bits of 8 bytes (and reject wires that are no bytes), and G1NotZero, G1NotEqual, G1NotEqualOne, E2NotZero, E2NotEqual, E2NotOne and g2Sgn0 decide on the value modulo p: only the canonical representation of an element satisfies the circuit, so the prover cannot choose the outcome.",
 ["inputs", "hints"], "all messages, digests and 6x64-bit limb representations",
 "No stable test runs hash-to-curve, and none supplies a non-canonical representation.",
 [G+"pairing_bls12381/hash2curve.go"], [("ExpandMsgXmd, G1NotZero, g2Sgn0", G+"pairing_bls12381/hash2curve.go")])
# ---------------------------------------------------------------- ed25519
prop("D01", "The ed25519 gadget computes the twisted Edwards group law and Verify accepts only valid signatures",
 "The ed25519 circuit's point addition, doubling, negation and single/double-base scalar multiplication compute the group law of -x^2+y^2=1+d x^2 y^2 over GF(2^255-19) for all points on the curve and use every scalar bit. Verify is satisfied exactly when the key's point A and the signature's point R are on the curve, A's 32-byte encoding is the public one, and [8](S*B - h*A - R) is the neutral element, h being SHA-512(enc(R) || enc(A) || the 122 message bytes) modulo the group order.",
 ["inputs", "hints"], "all curve points, scalars, messages, keys and signatures, including points off the curve supplied by a prover",
 "There is no stable test of the curve gadget, and none supplies coordinates an honest signer would not.",
 [G+"ed25519/point.go", G+"ed25519/curve.go", G+"ed25519/twistededwards.go", G+"ed25519/ed25519.go"],
 [("add, double, scalar multiplication", G+"ed25519/point.go"), ("verification equation", G+"ed25519/ed25519.go")])
prop("D02", "Native edwards25519 field arithmetic is arithmetic modulo 2^255-19",
 "For all limb values within the representation's bounds, field.Element Add, Subtract, Negate, Multiply, Square, Mult32, carry propagation and reduce return limbs within those bounds whose value is the exact result modulo 2^255-19, and Bytes/SetBytes, Select, Swap, Equal and IsNegative agree with the canonical 32-byte encoding.",
 ["inputs"], "all 64-bit limb values satisfying the documented bounds",
 "Carry and borrow chains fail on rare limb patterns (2^-50 or less) which sampling does not reach.",
 [G+"ed25519/test/field/fe.go", G+"ed25519/test/field/fe_generic.go"],
 [("feMulGeneric, feSquareGeneric, carryPropagateGeneric", G+"ed25519/test/field/fe_generic.go"), ("reduce, Bytes, SetBytes", G+"ed25519/test/field/fe.go")])
# ---------------------------------------------------------------- native helpers
prop("U01", "Hex and byte codecs are exact inverses and preserve value",
 "Hex2Bytes(Bytes2Hex(b)) and Hex2Bytes(Bytes2Hex0x(b)) return b; Hex2Bytes treats an odd-length string as left-padded with 0 and accepts 0x/0X prefixes; Hex2BigInt is its big-endian value; Pad20Bytes/Pad32Bytes/MiMCBlockPad0 left-pad with zeros without changing the value (and never alter a full-length input); IsValidTxHash accepts exactly 64 hex digits with optional prefix.",
 ["inputs", "lengths"], "all byte strings up to the stated length",
 "No stable tests; round trips are universal claims over contents and lengths (including odd-length and prefix edge cases).",
 ["common/utils/hex.go", "common/utils/utils.go"], [("Hex2Bytes, Bytes2Hex, Pad*Bytes, IsValidTxHash", "common/utils/hex.go"), ("MiMCBlockPad0", "common/utils/utils.go")])
prop("U02", "Off-circuit bit packing agrees with the circuit and with the integer",
 "DecomposeBits returns the little-endian bits of the integer (and panics when it does not fit), ParseBytes32 followed by Byte32ToFrBits returns the 256 little-endian bits of the data, PackBitsToInt packs 253 bits per integer exactly as the circuit's PackBitsToFr does, DecodeByteToBinary is big-endian, BitsToFrBigInt is the big-endian value reduced below the modulus, and FlipByGroups/Flip/Reverse permute as documented.",
 ["inputs", "lengths"], "all bit/byte contents at the used widths",
 "Agreement between the two sides is a universal claim; a mismatch in one position yields unprovable commitments only for particular data.",
 ["common/utils/compose.go", "common/utils/binary.go"], [("DecomposeBits, ParseBytes32, PackBitsToInt", "common/utils/compose.go"), ("BitsToFrBigInt, DecodeByteToBinary, FlipByGroups", "common/utils/binary.go")])
prop("U03", "Query-input commitments hash an injective fixed layout of the inputs",
 "MiMCHashReceiptCustomInputs, MiMCHashStorageCustomInputs and MiMCHashTxCustomInputs hash exactly the documented concatenation of little-endian fixed-width fields (block number 32 bits, base fee 128, MPT key 32 or account 160 and slot 256, per-log address 160, index 16, topic 48, flag 1, value index 7, value 256, block time 64) packed 253 bits per element, so two inputs that differ in any covered field hash different preimages and out-of-width fields are refused instead of truncated.",
 ["inputs"], "all field values within and beyond their widths, and all log counts within the bound",
 "No stable test; injectivity and exact layout quantify over pairs of inputs.",
 ["common/proof/query_id.go", "common/utils/compose.go"], [("bit layout", "common/proof/query_id.go")])
prop("U04", "Proof exports place every value in its contract slot",
 "ChunkProof.EncodeABI lays out 32-byte big-endian words for A, B, C, commitment, the 128-bit halves of chunk root, previous hash and end hash, and the start and end block numbers (for every uint64 value), utils.ExportProof returns groth16 coordinates in contract order (B with the imaginary part first), OnChainProof and BeaconProof hold the value of each hex coordinate in its field, the SMTUpdateProof getters the 32 bytes of their field, and NewHash splits 32 bytes into big-endian 128-bit halves.",
 ["inputs"], "all hashes, block numbers and proof coordinates",
 "One fixture is tested; numeric-conversion limits and half-swaps need every value.",
 ["common/proof/types.go", "common/utils/groth16_util.go", "circuits/fabric/smt/utils.go"], [("EncodeABI", "common/proof/types.go"), ("ExportProof", "common/utils/groth16_util.go"), ("NewHash", "circuits/fabric/smt/utils.go")])
prop("U05", "Header encoding for chunk circuits is padded, sized and range-checked",
 "fabric smt.EncodeHeaders refuses headers whose dynamic fields exceed the circuit's maxima (difficulty 7 bytes, number 8, gas limit, gas used and time 4, base fee 7) and otherwise returns exactly the keccak-padded header bits, zero-filled to 5*1088, with the index of the last padded block.",
 ["inputs", "lengths"], "all header field values",
 "Boundary lengths of six independent fields are not sampled by any test.",
 ["circuits/fabric/smt/utils.go"], [("EncodeHeaders, checkDynamicFieldLen", "circuits/fabric/smt/utils.go")])
prop("U06", "Recovered transaction signer is the true signer",
 "PrepareUnsignedTransactionRlp returns the exact signing payload of legacy (EIP-155) and EIP-1559 transactions and RecoverTransactionSignerAddress recovers from any validly signed transaction of a supported type the address that signed it, and refuses other types.",
 ["inputs"], "all transaction field values and both recovery ids",
 "Needs all signatures, chain ids and field widths; tests need the network and are not stable.",
 ["common/proof/util.go"], [("PrepareUnsignedTransactionRlp, RecoverTransactionSignerAddress", "common/proof/util.go")])
prop("U07", "Start-block table and time/string conversions are exact",
 "GetStartBlockInfo echoes the chain id and keeps InitialIndex = BlockNumber/128 for every chain id, with the documented start blocks and 0 elsewhere; Str2BigInt, Str2Int and Str2Uint64 return the exact value of every decimal string in their result type's range, TsMilliToTime and TsSecToTime the exact time of every timestamp a nanosecond count can hold, and TsMilli the milliseconds of every such time, rounded down.",
 ["inputs"], "all uint64 chain ids and timestamps",
 "Universal over 64-bit inputs; no tests.",
 ["common/utils/const.go", "common/utils/string.go", "common/utils/time.go"], [("GetStartBlockInfo", "common/utils/const.go"), ("conversions", "common/utils/string.go, common/utils/time.go")])

prop("U08", "Transaction and receipt proofs belong to the entry asked for",
 "GetTransactionProof and GetReceiptProof return, exactly when the list's Merkle-Patricia root equals the header's and the index is inside the list, the trie nodes from the root to the leaf for the RLP-encoded index, that encoded index, and the leaf's RLP up to its value; for every other index or root (empty lists included) they return an error. GetReceiptRaw returns the consensus encoding of the receipt it is given, and an error for none.",
 ["inputs"], "all int indexes and header roots; list lengths",
 "The only tests need a live node; the failing cases are indexes outside the list and mismatching roots.",
 ["common/proof/tx_merkel_proof.go"], [("GetTransactionProof, GetReceiptProof, GetReceiptRaw", "common/proof/tx_merkel_proof.go")])
prop("U09", "Native digests commit to all of their input",
 "GenerateBls12377Hash is the BLS12-377 MiMC hash of the input's bits in groups of 253, most significant first, each reduced modulo the scalar field, and leaves no group out; CalculateAppVkHashFrom761To254 hashes the two zero-padded halves of a 48-byte hash, CalculateAppVkHashFor761 the public-input count, coset shift and every commitment point of the key in order, one block each; MimcRoot is the binary MiMC root of a power-of-two number of leaves and panics for other counts, MimcHashBytes32 hashes both 128-bit halves; PoseidonBn254Hasher hashes exactly what was written since the last Reset; MiMCBlockPad0 pads on the left and ChunkIndexFound is membership.",
 ["inputs", "histories"], "all inputs of each length; all keys",
 "Collisions between inputs that differ only in a dropped part need all values; nothing tests these functions.",
 ["common/utils/utils.go", "common/utils/plonk_util.go", "common/utils/poseidon_bn254.go", "circuits/fabric/smt/utils.go", "common/circuits/smt.go"], [("GenerateBls12377Hash, MiMCBlockPad0", "common/utils/utils.go"), ("CalculateAppVkHash*", "common/utils/plonk_util.go"), ("MimcRoot, MimcHashBytes32", "circuits/fabric/smt/utils.go")])
prop("U10", "Address, hash and list text conversions and the batch export line are exact",
 "Hex2Addr, Hex2Hash, FormatAddrHex, Bytes2Addr, Bytes2Hash, Bytes2AddrHex(0x) and Addr2Hex(0x) keep the last 20 or 32 bytes, padded with zeros on the left, in lower-case hex where text is returned; ArrayHex2Hash, Strings2bytes, ArrayBytes2Hex0x and Convert2DimensionalByteArrayToString convert every entry in order; Contains is membership; GenerateBatchProofAndPublicInputs lists the twelve proof coordinates in contract order and then query id, SMT root, aggregation key hash, output commitment and app key hash, each followed by a comma; GetSubProofS3Path lists the ids of all receipts, then all slots, then all transactions.",
 ["inputs", "lengths"], "all contents of the listed lengths",
 "Nothing tests them; swaps and cropping errors need particular values and lengths.",
 ["common/utils/hex.go", "common/utils/utils.go", "common/proof/agg_exports.go", "common/proof/types.go"], [("Hex2Addr and others", "common/utils/hex.go"), ("GenerateBatchProofAndPublicInputs", "common/proof/agg_exports.go"), ("GetSubProofS3Path", "common/proof/types.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
