// Package constraint is a stand-in for the part of gnark v0.10 that the Go front end uses.
package constraint

import "math/big"

type Element [6]uint64

func (e *Element) IsZero() bool {
	return e[0]|e[1]|e[2]|e[3]|e[4]|e[5] == 0
}

type Field interface {
	FromInterface(interface{}) Element
	ToBigInt(Element) *big.Int
	Mul(a, b Element) Element
	Add(a, b Element) Element
	Sub(a, b Element) Element
	Neg(a Element) Element
	Inverse(a Element) (Element, bool)
	One() Element
	IsOne(Element) bool
	String(Element) string
	Uint64(Element) (uint64, bool)
}

type ConstraintSystem interface{}
type GkrInfo struct{}
type Blueprint interface{}
type BlueprintID uint32

type CustomizableSystem interface {
	AddBlueprint(b Blueprint) BlueprintID
	AddInstruction(bID BlueprintID, calldata []uint32) []uint32
}
