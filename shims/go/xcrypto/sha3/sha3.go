// Package sha3: the original Keccak-256.
package sha3

import (
	"encoding/binary"
	"hash"
	"math/bits"
)

type state struct{ buf []byte }

func NewLegacyKeccak256() hash.Hash { return &state{} }

func (s *state) Write(p []byte) (int, error) {
	s.buf = append(s.buf, p...)
	return len(p), nil
}
func (s *state) Reset()         { s.buf = nil }
func (s *state) Size() int      { return 32 }
func (s *state) BlockSize() int { return 136 }

func (s *state) Sum(b []byte) []byte {
	m := append([]byte{}, s.buf...)
	n := 136 - len(m)%136
	pad := make([]byte, n)
	pad[0] = 1
	pad[n-1] |= 0x80
	m = append(m, pad...)
	var a [25]uint64
	for ; len(m) > 0; m = m[136:] {
		for i := 0; i < 17; i++ {
			a[i] ^= binary.LittleEndian.Uint64(m[8*i:])
		}
		permute(&a)
	}
	out := make([]byte, 32)
	for i := 0; i < 4; i++ {
		binary.LittleEndian.PutUint64(out[8*i:], a[i])
	}
	return append(b, out...)
}

func permute(a *[25]uint64) {
	lfsr := byte(1)
	rc := func() uint64 {
		var c uint64
		for j := 0; j < 7; j++ {
			if lfsr&1 != 0 {
				c ^= 1 << ((1 << j) - 1)
			}
			hi := lfsr & 0x80
			lfsr <<= 1
			if hi != 0 {
				lfsr ^= 0x71
			}
		}
		return c
	}
	for round := 0; round < 24; round++ {
		var c, d [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d[x] = c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
		}
		for i := range a {
			a[i] ^= d[i%5]
		}
		var b [25]uint64
		x, y := 1, 0
		b[0] = a[0]
		for t := 0; t < 24; t++ {
			r := ((t + 1) * (t + 2) / 2) % 64
			b[y+5*((2*x+3*y)%5)] = bits.RotateLeft64(a[x+5*y], r)
			x, y = y, (2*x+3*y)%5
		}
		for y := 0; y < 5; y++ {
			for x := 0; x < 5; x++ {
				a[x+5*y] = b[x+5*y] ^ (^b[(x+1)%5+5*y] & b[(x+2)%5+5*y])
			}
		}
		a[0] ^= rc()
	}
}
