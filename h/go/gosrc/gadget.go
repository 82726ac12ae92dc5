package main

import (
	"math/big"
	"strings"

	"github.com/PolyhedraZK/ExpanderCompilerCollection/circuit-std-go/logup"
	poseidonM31 "github.com/PolyhedraZK/ExpanderCompilerCollection/circuit-std-go/poseidon-m31"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo"
)

func arr16(a []V) (r [16]V) {
	copy(r[:], a)
	return
}
func rect(a []V, w int) [][]V {
	r := [][]V{}
	for i := 0; i < len(a); i += w {
		r = append(r, a[i:i+w:i+w])
	}
	return r
}

// gadget: the operations of circuit-std-go.
func (e *env) gadget(o *Op, a []V) bool {
	api := e.api
	switch o.O {
	case "hash":
		r, n := poseidonM31.PoseidonM31x16HashToState(api, a)
		if len(r) != 16 || int(n) != (len(a)+7)/8 {
			panic("wrong size of a state, or number of blocks")
		}
		e.push(r...)
	case "perm":
		e.push(poseidonM31.PoseidonM31x16Permutate(api, append([]V{}, a...))...)
	case "permc":
		c := &poseidonM31.PoseidonM31x16Permutation{State: arr16(a), Digest: arr16(a[16:])}
		if err := c.Define(api); err != nil {
			panic(err)
		}
	case "hashc":
		c := &poseidonM31.PoseidonM31x16Sponge{ToBeHashed: a[:len(a)-16], Digest: arr16(a[len(a)-16:])}
		if err := c.Define(api); err != nil {
			panic(err)
		}
	case "reset":
		logup.Reset()
	case "table":
		keys, values := []V{}, [][]V{}
		for _, r := range rect(a, o.N) {
			keys = append(keys, r[0])
			values = append(values, r[1:])
		}
		logup.NewTable(keys, values)
	case "rtable":
		logup.NewRangeProof(o.N)
	case "query":
		logup.Query(a[0], a[1:])
	case "batch":
		keys, values := []V{}, [][]V{}
		for _, r := range rect(a, o.N) {
			keys = append(keys, r[0])
			values = append(values, r[1:])
		}
		logup.BatchQuery(keys, values)
	case "qrange":
		logup.QueryRange(a[0])
	case "range":
		logup.RangeProof(api, a[0], o.N)
	case "check":
		logup.FinalCheck(api, logup.ColumnCombineOptions(o.K))
	case "logup":
		// o.L: rows, queries; o.N: columns
		rows, qs := o.L[0], o.L[1]
		c := &logup.LogUpCircuit{Table: rect(a[:rows*o.N], o.N), QueryID: a[rows*o.N : rows*o.N+qs], QueryResult: rect(a[rows*o.N+qs:], o.N)}
		var err error
		if o.K < 0 {
			err = c.Define(api)
		} else {
			err = c.Check(api.(ecgo.API), logup.ColumnCombineOptions(o.K))
		}
		if err != nil {
			panic(err)
		}
	default:
		return false
	}
	return true
}

// gadgetLie: false answers of the gadgets' own hints. Not counted where nothing changes.
func gadgetLie(mode, at int, count *int) func(name string, f *big.Int, in, out []*big.Int) {
	if mode == 0 {
		return nil
	}
	calls := 0
	return func(name string, f *big.Int, in, out []*big.Int) {
		if !strings.Contains(name, "/logup.") || len(out) == 0 {
			return
		}
		me := calls
		calls++
		if me%3 != at%3 && at < 9 {
			return
		}
		old := []*big.Int{}
		for _, x := range out {
			old = append(old, new(big.Int).Mod(x, f))
		}
		k := at % len(out)
		j := (k + 1) % len(out)
		w := big.NewInt(int64(1 << logup.LookupTableBits))
		switch mode {
		case 1: // weight from one limb to the one below
			if k+1 < len(out) {
				out[k] = new(big.Int).Add(out[k], w)
				out[k+1] = new(big.Int).Sub(out[k+1], big.NewInt(1))
			}
		case 2:
			out[k] = new(big.Int).Add(out[k], big.NewInt(1))
		case 3: // everything in one limb
			s := new(big.Int)
			for i := len(out) - 1; i >= 0; i-- {
				s.Mul(s, w).Add(s, out[i])
				out[i] = big.NewInt(0)
			}
			out[0] = s.Mod(s, f)
		case 4:
			out[k] = new(big.Int).Sub(out[k], big.NewInt(1))
			out[j] = new(big.Int).Add(out[j], big.NewInt(1))
		default:
			out[k], out[j] = out[j], out[k]
		}
		for i := range out {
			if old[i].Cmp(new(big.Int).Mod(out[i], f)) != 0 {
				*count++
				return
			}
		}
	}
}
