// Package r1cs: only what the front end takes gnark's variables from.
package r1cs

import (
	"math/big"

	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
)

type Term struct {
	VID   int
	Coeff constraint.Element
}

func (t Term) WireID() int { return t.VID }

type LinearExpression []Term

type builder struct {
	frontend.Builder
}

func NewBuilder(field *big.Int, config frontend.CompileConfig) (frontend.Builder, error) {
	return &builder{}, nil
}

func (b *builder) InternalVariable(wireID uint32) frontend.Variable {
	return LinearExpression{Term{VID: int(wireID), Coeff: constraint.Element{1}}}
}
