// Package emimcstub replaces the emulated MiMC gadget where only its use is checked (the gadget itself: property E02).
package emimcstub

import (
	"sync"

	"github.com/consensys/gnark-crypto/ecc"
	real "github.com/brevis-network/zk-utils/circuits/gadgets/emulated/mimc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
)

// Hooks maps the API of a run to the hash of a whole message, given as the limbs of its elements.
var Hooks sync.Map

type MiMC[T emulated.FieldParams] struct {
	*real.MiMC[T]
	f    *emulated.Field[T]
	hook func(m [][]frontend.Variable) []frontend.Variable
	data []*emulated.Element[T]
}

func NewMiMC[T emulated.FieldParams](api frontend.API, id ecc.ID) *MiMC[T] {
	m := &MiMC[T]{MiMC: real.NewMiMC[T](api, id)}
	if h, ok := Hooks.Load(api); ok {
		m.hook = h.(func(m [][]frontend.Variable) []frontend.Variable)
		f, err := emulated.NewField[T](api)
		if err != nil {
			panic(err)
		}
		m.f = f
	}
	return m
}

func (m *MiMC[T]) Hash(data ...*emulated.Element[T]) *emulated.Element[T] {
	m.Reset()
	m.Write(data...)
	return m.Sum()
}

func (m *MiMC[T]) Write(data ...*emulated.Element[T]) {
	m.data = append(m.data, data...)
	m.MiMC.Write(data...)
}

func (m *MiMC[T]) Reset() {
	m.data = nil
	m.MiMC.Reset()
}

func (m *MiMC[T]) Sum() *emulated.Element[T] {
	if m.hook == nil {
		return m.MiMC.Sum()
	}
	var ls [][]frontend.Variable
	for _, e := range m.data {
		ls = append(ls, e.Limbs)
	}
	return m.f.NewInternalElement(m.hook(ls), 0)
}
