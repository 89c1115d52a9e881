//go:build go1.23

// Package c23 replaces go/types iterators that go1.23 does not have.
package c23

import (
	"go/types"
	"iter"
)

func seq[T any](n int, at func(int) T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for i := 0; i < n; i++ {
			if !yield(at(i)) {
				return
			}
		}
	}
}

func Variables(t *types.Tuple) iter.Seq[*types.Var]             { return seq(t.Len(), t.At) }
func Types(l *types.TypeList) iter.Seq[types.Type]              { return seq(l.Len(), l.At) }
func TypeParams(l *types.TypeParamList) iter.Seq[*types.TypeParam] { return seq(l.Len(), l.At) }
func EmbeddedTypes(l *types.Interface) iter.Seq[types.Type]     { return seq(l.NumEmbeddeds(), l.EmbeddedType) }
func Terms(u *types.Union) iter.Seq[*types.Term]                { return seq(u.Len(), u.Term) }
func Methods(u *types.MethodSet) iter.Seq[*types.Selection]     { return seq(u.Len(), u.At) }
