// Package sha512stub replaces the SHA-512 gadget in packages whose use of the hash is checked with the hash itself
// abstracted (it is checked separately, property H02): a hook receives every message and supplies the digest.
package sha512stub

import (
	"sync"

	real "github.com/brevis-network/zk-utils/circuits/gadgets/sha512"
	"github.com/consensys/gnark/frontend"
)

// Hooks maps the API of a run to the function that answers hash queries; without one the real gadget is used.
var Hooks sync.Map

type Digest struct {
	api frontend.API
	buf []frontend.Variable
}

func New(api frontend.API) Digest { return Digest{api: api} }

func (d *Digest) Reset() { d.buf = nil }

func (d *Digest) Write(p []frontend.Variable) (int, error) {
	d.buf = append(d.buf, p...)
	return len(p), nil
}

func (d *Digest) Sum() []frontend.Variable {
	if h, ok := Hooks.Load(d.api); ok {
		return h.(func(m []frontend.Variable) []frontend.Variable)(append([]frontend.Variable{}, d.buf...))
	}
	r := real.New(d.api)
	r.Write(d.buf)
	return r.Sum()
}

