// Package bits: gnark's conversions between variables and bits. Lie, where set, answers for the
// hint of the decomposition: provers are free to.
package bits

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
)

func init() {
	solver.RegisterHint(nBits)
}

// Lie may overwrite the outputs of the honest hint.
var Lie func(field, x *big.Int, outputs []*big.Int)

func nBits(field *big.Int, inputs []*big.Int, results []*big.Int) error {
	n := inputs[0]
	for i := 0; i < len(results); i++ {
		results[i].SetUint64(uint64(n.Bit(i)))
	}
	if Lie != nil {
		Lie(field, n, results)
	}
	return nil
}

type config struct {
	nbDigits             int
	unconstrainedOutputs bool
	unconstrainedInputs  bool
	omitModulusCheck     bool
}

type BaseConversionOption func(opt *config) error

func WithNbDigits(nbDigits int) BaseConversionOption {
	return func(opt *config) error {
		if nbDigits <= 0 {
			return fmt.Errorf("nbDigits <= 0")
		}
		opt.nbDigits = nbDigits
		return nil
	}
}

func WithUnconstrainedOutputs() BaseConversionOption {
	return func(opt *config) error {
		opt.unconstrainedOutputs = true
		return nil
	}
}

func WithUnconstrainedInputs() BaseConversionOption {
	return func(opt *config) error {
		opt.unconstrainedInputs = true
		return nil
	}
}

func OmitModulusCheck() BaseConversionOption {
	return func(opt *config) error {
		opt.omitModulusCheck = true
		return nil
	}
}

type bitsComparatorConstant interface {
	MustBeLessOrEqCst(aBits []frontend.Variable, bound *big.Int, aForDebug frontend.Variable)
}

func ToBinary(api frontend.API, v frontend.Variable, opts ...BaseConversionOption) []frontend.Variable {
	cfg := config{nbDigits: api.Compiler().FieldBitLen()}
	for _, o := range opts {
		if err := o(&cfg); err != nil {
			panic(err)
		}
	}
	omitReducednessCheck := cfg.omitModulusCheck || cfg.nbDigits < api.Compiler().FieldBitLen()
	if cfg.nbDigits == 1 {
		api.AssertIsBoolean(v)
		return []frontend.Variable{v}
	}
	if c, ok := api.Compiler().ConstantValue(v); ok {
		bits := make([]frontend.Variable, cfg.nbDigits)
		for i := 0; i < len(bits); i++ {
			bits[i] = c.Bit(i)
		}
		return bits
	}
	c := big.NewInt(1)
	bits, err := api.Compiler().NewHint(nBits, cfg.nbDigits, v)
	if err != nil {
		panic(err)
	}
	var sum frontend.Variable
	sum = 0
	for i := 0; i < cfg.nbDigits; i++ {
		sum = api.Add(sum, api.Mul(bits[i], c))
		c.Lsh(c, 1)
		if !cfg.unconstrainedOutputs {
			api.AssertIsBoolean(bits[i])
		}
	}
	api.AssertIsEqual(sum, v)
	if !omitReducednessCheck {
		if cmper, ok := api.Compiler().(bitsComparatorConstant); ok {
			bound := new(big.Int).Sub(api.Compiler().Field(), big.NewInt(1))
			cmper.MustBeLessOrEqCst(bits, bound, v)
		}
	}
	return bits
}

func FromBinary(api frontend.API, b []frontend.Variable, opts ...BaseConversionOption) frontend.Variable {
	cfg := config{}
	for _, o := range opts {
		if err := o(&cfg); err != nil {
			panic(err)
		}
	}
	var sum frontend.Variable
	sum = 0
	c := big.NewInt(1)
	for i := 0; i < len(b); i++ {
		sum = api.Add(sum, api.Mul(c, b[i]))
		c.Lsh(c, 1)
		if !cfg.unconstrainedInputs {
			api.AssertIsBoolean(b[i])
		}
	}
	return sum
}
