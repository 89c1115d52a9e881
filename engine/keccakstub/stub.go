// Package keccakstub replaces the keccak gadget where only its use is checked (the gadget itself: property K03).
package keccakstub

import (
	"sync"

	real "github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/consensys/gnark/frontend"
)

// Hooks maps the API of a run to the function that hashes one padded block.
var Hooks sync.Map

func Keccak256Bits(api frontend.API, maxRounds int, roundIndex frontend.Variable, data []frontend.Variable) [256]frontend.Variable {
	if h, ok := Hooks.Load(api); ok {
		if maxRounds != 1 || len(data) != 1088 {
			panic("keccakstub: only single blocks are abstracted")
		}
		return h.(func(block []frontend.Variable) [256]frontend.Variable)(data)
	}
	return real.Keccak256Bits(api, maxRounds, roundIndex, data)
}
