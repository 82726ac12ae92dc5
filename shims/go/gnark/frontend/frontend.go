// Package frontend: gnark's interfaces.
package frontend

import (
	"math/big"

	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend/schema"
)

type Variable interface{}

type CanonicalVariable interface{ Compress(to *[]uint32) }

type Circuit interface {
	Define(api API) error
}

type API interface {
	Add(i1, i2 Variable, in ...Variable) Variable
	MulAcc(a, b, c Variable) Variable
	Neg(i1 Variable) Variable
	Sub(i1, i2 Variable, in ...Variable) Variable
	DivUnchecked(i1, i2 Variable) Variable
	Div(i1, i2 Variable) Variable
	Mul(i1, i2 Variable, in ...Variable) Variable
	Inverse(i1 Variable) Variable
	ToBinary(i1 Variable, n ...int) []Variable
	FromBinary(b ...Variable) Variable
	Xor(a, b Variable) Variable
	Or(a, b Variable) Variable
	And(a, b Variable) Variable
	Select(b Variable, i1, i2 Variable) Variable
	Lookup2(b0, b1 Variable, i0, i1, i2, i3 Variable) Variable
	IsZero(i1 Variable) Variable
	Cmp(i1, i2 Variable) Variable
	AssertIsEqual(i1, i2 Variable)
	AssertIsDifferent(i1, i2 Variable)
	AssertIsBoolean(i1 Variable)
	AssertIsCrumb(i1 Variable)
	AssertIsLessOrEqual(v Variable, bound Variable)
	Println(a ...Variable)
	Compiler() Compiler
	NewHint(f solver.Hint, nbOutputs int, inputs ...Variable) ([]Variable, error)
	ConstantValue(v Variable) (*big.Int, bool)
}

type Compiler interface {
	constraint.CustomizableSystem
	MarkBoolean(v Variable)
	IsBoolean(v Variable) bool
	NewHint(f solver.Hint, nbOutputs int, inputs ...Variable) ([]Variable, error)
	NewHintForId(id solver.HintID, nbOutputs int, inputs ...Variable) ([]Variable, error)
	ConstantValue(v Variable) (*big.Int, bool)
	Field() *big.Int
	FieldBitLen() int
	Defer(cb func(api API) error)
	InternalVariable(wireID uint32) Variable
	ToCanonicalVariable(Variable) CanonicalVariable
	SetGkrInfo(constraint.GkrInfo) error
}

type Builder interface {
	API
	Compiler
	Compile() (constraint.ConstraintSystem, error)
	PublicVariable(schema.LeafInfo) Variable
	SecretVariable(schema.LeafInfo) Variable
}

type CompileConfig struct {
	Capacity                  int
	IgnoreUnconstrainedInputs bool
	CompressThreshold         int
}

type CompileOption func(opt *CompileConfig) error

func WithCapacity(capacity int) CompileOption {
	return func(opt *CompileConfig) error {
		opt.Capacity = capacity
		return nil
	}
}

func IgnoreUnconstrainedInputs() CompileOption {
	return func(opt *CompileConfig) error {
		opt.IgnoreUnconstrainedInputs = true
		return nil
	}
}

func WithCompressThreshold(threshold int) CompileOption {
	return func(opt *CompileConfig) error {
		opt.CompressThreshold = threshold
		return nil
	}
}

// Committer is implemented by builders that can commit to variables.
type Committer interface {
	Commit(toCommit ...Variable) (commitment Variable, err error)
}
