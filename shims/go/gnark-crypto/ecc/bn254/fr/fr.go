// Package fr: the scalar field of BN254, kept in Montgomery form as gnark-crypto does.
package fr

import (
	"errors"
	"fmt"
	"math/big"
	"math/bits"
)

const Limbs = 4

type Element [4]uint64

var (
	modulus, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
	radix      = new(big.Int).Lsh(big.NewInt(1), 256)
	radixInv   = new(big.Int).ModInverse(radix, modulus)
	p          = limbs(modulus)
	one        = func() (z Element) { z.SetBigInt(big.NewInt(1)); return }()
	inv0       = func() uint64 {
		// -p^-1 mod 2^64
		x := uint64(1)
		for i := 0; i < 6; i++ {
			x *= 2 - p[0]*x
		}
		return -x
	}()
)

func limbs(v *big.Int) (z Element) {
	var b [32]byte
	v.FillBytes(b[:])
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			z[i] |= uint64(b[31-8*i-j]) << (8 * j)
		}
	}
	return
}

func (z *Element) raw() *big.Int {
	var b [32]byte
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			b[31-8*i-j] = byte(z[i] >> (8 * j))
		}
	}
	return new(big.Int).SetBytes(b[:])
}

func Modulus() *big.Int { return new(big.Int).Set(modulus) }
func One() Element      { return one }

func (z *Element) reduce() {
	var t Element
	var b uint64
	for i := 0; i < 4; i++ {
		t[i], b = bits.Sub64(z[i], p[i], b)
	}
	if b == 0 {
		*z = t
	}
}

func (z *Element) Add(x, y *Element) *Element {
	var c uint64
	for i := 0; i < 4; i++ {
		z[i], c = bits.Add64(x[i], y[i], c)
	}
	z.reduce()
	return z
}

func (z *Element) Sub(x, y *Element) *Element {
	var b uint64
	for i := 0; i < 4; i++ {
		z[i], b = bits.Sub64(x[i], y[i], b)
	}
	if b != 0 {
		var c uint64
		for i := 0; i < 4; i++ {
			z[i], c = bits.Add64(z[i], p[i], c)
		}
	}
	return z
}

func (z *Element) Neg(x *Element) *Element {
	var zero Element
	return z.Sub(&zero, x)
}

func (z *Element) Mul(x, y *Element) *Element {
	var t [6]uint64
	for i := 0; i < 4; i++ {
		var c uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(x[j], y[i])
			var k uint64
			lo, k = bits.Add64(lo, t[j], 0)
			hi += k
			lo, k = bits.Add64(lo, c, 0)
			hi += k
			t[j], c = lo, hi
		}
		var k uint64
		t[4], k = bits.Add64(t[4], c, 0)
		t[5] = k
		m := t[0] * inv0
		hi, lo := bits.Mul64(m, p[0])
		_, k = bits.Add64(lo, t[0], 0)
		c = hi + k
		for j := 1; j < 4; j++ {
			hi, lo := bits.Mul64(m, p[j])
			lo, k = bits.Add64(lo, t[j], 0)
			hi += k
			lo, k = bits.Add64(lo, c, 0)
			hi += k
			t[j-1], c = lo, hi
		}
		t[3], k = bits.Add64(t[4], c, 0)
		t[4] = t[5] + k
	}
	copy(z[:], t[:4])
	z.reduce()
	return z
}

func (z *Element) Inverse(x *Element) *Element {
	if x.IsZero() {
		*z = Element{}
		return z
	}
	var v big.Int
	x.BigInt(&v)
	return z.SetBigInt(v.ModInverse(&v, modulus))
}

func (z *Element) SetBigInt(v *big.Int) *Element {
	t := new(big.Int).Mod(v, modulus)
	t.Mul(t, radix)
	*z = limbs(t.Mod(t, modulus))
	return z
}

func (z *Element) BigInt(res *big.Int) *big.Int {
	res.Mul(z.raw(), radixInv)
	return res.Mod(res, modulus)
}

func (z *Element) IsZero() bool { return *z == Element{} }
func (z *Element) IsOne() bool  { return *z == one }

func (z *Element) IsUint64() bool {
	var v big.Int
	return z.BigInt(&v).IsUint64()
}

func (z *Element) Uint64() uint64 {
	var v big.Int
	return z.BigInt(&v).Uint64()
}

func (z *Element) String() string {
	var v big.Int
	return z.BigInt(&v).String()
}

func (z *Element) SetInterface(i1 interface{}) (*Element, error) {
	if i1 == nil {
		return nil, errors.New("can't set fr.Element with <nil>")
	}
	switch c := i1.(type) {
	case Element:
		*z = c
		return z, nil
	case *Element:
		if c == nil {
			return nil, errors.New("can't set fr.Element with <nil>")
		}
		*z = *c
		return z, nil
	case uint8:
		return z.SetBigInt(new(big.Int).SetUint64(uint64(c))), nil
	case uint16:
		return z.SetBigInt(new(big.Int).SetUint64(uint64(c))), nil
	case uint32:
		return z.SetBigInt(new(big.Int).SetUint64(uint64(c))), nil
	case uint:
		return z.SetBigInt(new(big.Int).SetUint64(uint64(c))), nil
	case uint64:
		return z.SetBigInt(new(big.Int).SetUint64(c)), nil
	case int8:
		return z.SetBigInt(big.NewInt(int64(c))), nil
	case int16:
		return z.SetBigInt(big.NewInt(int64(c))), nil
	case int32:
		return z.SetBigInt(big.NewInt(int64(c))), nil
	case int64:
		return z.SetBigInt(big.NewInt(c)), nil
	case int:
		return z.SetBigInt(big.NewInt(int64(c))), nil
	case string:
		v, ok := new(big.Int).SetString(c, 0)
		if !ok {
			return nil, fmt.Errorf("can't set fr.Element from %q", c)
		}
		return z.SetBigInt(v), nil
	case *big.Int:
		if c == nil {
			return nil, errors.New("can't set fr.Element with <nil>")
		}
		return z.SetBigInt(c), nil
	case big.Int:
		return z.SetBigInt(&c), nil
	case []byte:
		return z.SetBigInt(new(big.Int).SetBytes(c)), nil
	default:
		return nil, fmt.Errorf("can't set fr.Element from type %T", i1)
	}
}
