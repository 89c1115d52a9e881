// Package mimcstub stands in for gnark's std/hash/mimc in overlay builds: a sponge over an arbitrary two-argument function.
package mimcstub

import "github.com/consensys/gnark/frontend"

type MiMC struct {
	h    frontend.Variable
	data []frontend.Variable
	F    func(h, x frontend.Variable) frontend.Variable
}

func New(f func(h, x frontend.Variable) frontend.Variable) MiMC { return MiMC{h: 0, F: f} }

func (h *MiMC) Write(data ...frontend.Variable) { h.data = append(h.data, data...) }
func (h *MiMC) Reset()                          { h.data = nil; h.h = 0 }
func (h *MiMC) Sum() frontend.Variable {
	for _, x := range h.data {
		h.h = h.F(h.h, x)
	}
	h.data = nil
	return h.h
}
