package weierstrass

import "verif/engine/emu"

type AffinePoint[T emu.FieldParams] struct{ X, Y emu.Element[T] }
