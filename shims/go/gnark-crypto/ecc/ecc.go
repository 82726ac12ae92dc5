// Package ecc: the one curve that is used.
package ecc

import "math/big"

type ID uint16

const (
	UNKNOWN ID = iota
	BN254
)

func (id ID) ScalarField() *big.Int {
	r, _ := new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
	return r
}
