# sourced: overlay arguments for the circuit-level overlay build; $g = circuits/gadgets, $o = output directory
ovargs="$g/rlp:ArrayCheck.RlpArrayCheck $g/rlp:Keccak256AsNibbles $g/mpt:MPTLeafCheck.CheckLeaf $g/mpt:MPTExtensionCheck.CheckExtension $g/mpt:MPTBranchCheck.CheckBranch $g/mpt:MPTBranchCheck.CheckBranchForNonExistence $g/mpt:CheckMPTInclusionFixedKeyLength $g/mpt:CheckEthBlockHash $g/mpt:CheckEthAccountProof $g/mpt:CheckEthStorageProof $g/pairing_bls12381+$o/pairing_verif.go $g/pairing_bls12381@github.com/brevis-network/zk-utils/circuits/gadgets/sha256=verif/engine/sha256stub $g/merkle@github.com/consensys/gnark/std/hash/mimc=verif/engine/mimcstub $g/smt@github.com/consensys/gnark/std/hash/mimc=verif/engine/mimcstub $g/merkle@github.com/brevis-network/zk-utils/circuits/gadgets/keccak=verif/engine/keccakstub $g/merkle@github.com/brevis-network/zk-utils/circuits/gadgets/emulated/mimc=verif/engine/emimcstub"
