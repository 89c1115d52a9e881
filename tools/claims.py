# property -> (technique, level note)
CL["M01"] = (A, "bounded: table sizes 1..17 (quick) / 65 (thorough), all field values")
CL["X01"] = (A, "all field values of the index")
CL["C01"] = (A, "bounded: listed bit lengths; all field values of the wires")
NA = {}
CL["K01"] = (A, "one keccak-f permutation, all 2^1600 states; 24 rounds cut into proven layers")
CL["K03"] = (A, "bounded: listed round counts; all block contents and selectors, keccak-f cut into proven layers")
CL["H01"] = (A, "bounded: listed message lengths and Write splits; all message contents")
CL["H02"] = (A, "bounded: listed message lengths and Write splits; all message contents")
CL["R01"] = (A, "bounded: listed sizes; all field contents, shifts and lengths")
CL["R02"] = (A, "all 256 prefix bytes")
CL["R03"] = (A, "bounded: listed field-size combinations with all contents; arbitrary strings up to 26 nibbles")
CL["R05"] = (A, "bounded: listed lengths; all nibble contents")
CL["T01"] = (A, "bounded: listed (key,value) sizes; all decoded lists, keys, lengths and values; end to end on listed path and value lengths")
CL["T02"] = (A, "bounded: listed sizes; all decoded lists, keys, references; end to end on listed path lengths and child sets")
CL["T03"] = (A, "bounded: maxDepth up to 5 (quick) / 10 (thorough), listed node sequences and fragment boundaries; all contents")
CL["R04"] = (A, "bounded: listed field-count and field-length combinations up to two keccak rounds beyond a typical header; all contents")
CL["T04"] = (A, "bounded: listed value, nonce and balance lengths, all contents; all outcomes of the sub-proofs")
CL["L01"] = (A, "bounded: listed limb size combinations; all limb values and all hint outputs")
CL["E01"] = (A, "bounded: listed size combinations and emulated fields; all values and all hint outputs")

E = "symbolic execution of the gadget code over polynomials on the emulated field (gnark's emulated package replaced through a build overlay), identities decided by cvc5/z3 modulo the asserted equations; counterexamples replayed with concrete values against gnark-crypto"
CL["P01"] = (E, "all coefficients in Fp; each tower operation as a polynomial identity")
CL["P02"] = (E, "all point and line coordinates; 1 to 3 pairs in MillerLoop; final exponentiation as an addition chain over an abstract group")
CL["P03"] = (E, "all coordinates on which the formulas are defined; scalar multiplications and cofactor clearing over an abstract group")
CL["P04"] = (E, "all field inputs; listed exponents and message counts")
CL["P05"] = (A, "bounded: up to 4 (quick) / 8 (thorough) field elements; all messages and digests; all 384-bit representations")
CL["D01"] = (E, "all points, scalars, messages and signatures; SHA-512 abstracted; native field BN254, 122-byte messages")
CL["E02"] = (E, "bounded: listed Write/Sum/Reset/Hash sequences on three curves; all field elements")
CL["G01"] = (A, "bounded: listed depths and leaf counts; all leaves, siblings, indexes and roots; hashes uninterpreted")
CL["U01"] = (B, "bounded: listed string lengths; all contents")
CL["U02"] = (B, "bounded: listed widths and lengths; all contents")
CL["U04"] = (B, "bounded: listed string lengths; all contents, all block numbers, all coordinates below 2^253")
CL["U05"] = (B, "bounded: up to 2 headers, listed encoding lengths; all field values and encodings; the RLP encoder abstracted")
CL["U07"] = (B, "all chain ids; decimal strings up to 20 digits; all representable times")
CL["U03"] = (B, "bounded: up to 3 (quick) / 6 (thorough) logs, listed text lengths; all contents and numbers; Poseidon abstracted, PackBitsToInt by its contract (U02)")
CL["U06"] = (B, "bounded: listed data and access-list sizes; all field values, signatures and recovery ids; RLP, keccak and ecrecover abstracted")
CL["K02"] = (A + "; native helpers by " + B, "bounded: listed message lengths and spare capacities; all contents, and all proving-time lengths in the listed ranges")
CL["K04"] = (A + "; native helpers by " + B, "bounded: listed lengths; all contents")

CL["U08"] = (B, "bounded: lists of 0, 1, 2, 129 and 300 entries; every int index and header root; the trie is modelled")
CL["U09"] = (B, "bounded: listed input lengths, every content; permutations abstracted")
CL["U10"] = (B, "bounded: listed lengths, every content")
