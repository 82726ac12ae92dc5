package main

import (
	"encoding/hex"
	"math/big"
	"strconv"
	"strings"

	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/builder"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/field"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/utils/customgates"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
)

type V = frontend.Variable

// Op is one call of the API; operands are written as in operand.
type Op struct {
	O string   `json:"o"`
	A []string `json:"a"`
	N int      `json:"n"`
	F int      `json:"f"`
	K int      `json:"k"`
	S []string `json:"s"`
	L []int    `json:"l"`
	B *Body    `json:"b"`
}
type Body struct {
	Ops []Op     `json:"ops"`
	Out []string `json:"out"`
}
type Prog struct {
	Root   Body   `json:"root"`
	Simple []Body `json:"simple"`
	Mem    []Body `json:"mem"`
}

type CV struct {
	K int    `json:"k"`
	V string `json:"v"`
}

// cur is the program being defined: sub circuits are plain functions that look at it.
var cur *Prog
var curField field.Field
var curCV []CV
var curShapes []string

type env struct {
	api    frontend.API
	regs   []V
	params []int64
	root   bool
}

func big0(s string) *big.Int {
	r, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("harness: bad number " + s)
	}
	return r
}

func (e *env) operand(s string) V {
	if s[0] == 'r' || s[0] == 'p' {
		i, err := strconv.Atoi(s[1:])
		if err != nil {
			panic("harness: bad operand " + s)
		}
		if s[0] == 'r' {
			if len(e.regs) == 0 {
				return 0
			}
			return e.regs[i%len(e.regs)]
		}
		if len(e.params) == 0 {
			return 0
		}
		return e.params[i%len(e.params)]
	}
	v := s[2:]
	switch s[0] {
	case 'i':
		return int(big0(v).Int64())
	case 'I':
		return big0(v).Int64()
	case 'j':
		return int32(big0(v).Int64())
	case 'u':
		return big0(v).Uint64()
	case 'U':
		return uint(big0(v).Uint64())
	case 'y':
		return uint8(big0(v).Uint64())
	case 'w':
		return uint16(big0(v).Uint64())
	case 'b':
		return *big0(v)
	case 'B':
		return big0(v)
	case 's':
		return v
	case 'x':
		b, err := hex.DecodeString(v)
		if err != nil {
			panic("harness: bad bytes")
		}
		return b
	case 'e':
		return curField.FromInterface(big0(v))
	case 'E':
		x := curField.FromInterface(big0(v))
		return &x
	}
	panic("harness: bad operand " + s)
}

func (e *env) all(xs []string) []V {
	r := make([]V, len(xs))
	for i, x := range xs {
		r[i] = e.operand(x)
	}
	return r
}

func (e *env) push(v ...V) { e.regs = append(e.regs, v...) }

func (e *env) run(b *Body) {
	for i := range b.Ops {
		e.op(&b.Ops[i])
	}
}

func (e *env) op(o *Op) {
	api := e.api
	full := api.(ecgo.API)
	a := e.all(o.A)
	switch o.O {
	case "add":
		e.push(api.Add(a[0], a[1], a[2:]...))
	case "sub":
		e.push(api.Sub(a[0], a[1], a[2:]...))
	case "mul":
		e.push(api.Mul(a[0], a[1], a[2:]...))
	case "mulacc":
		e.push(api.MulAcc(a[0], a[1], a[2]))
	case "neg":
		e.push(api.Neg(a[0]))
	case "div":
		e.push(api.Div(a[0], a[1]))
	case "divu":
		e.push(api.DivUnchecked(a[0], a[1]))
	case "inv":
		e.push(api.Inverse(a[0]))
	case "tobin":
		if o.N < 0 {
			e.push(api.ToBinary(a[0])...)
		} else {
			e.push(api.ToBinary(a[0], o.N)...)
		}
	case "frombin":
		e.push(api.FromBinary(a...))
	case "xor":
		e.push(api.Xor(a[0], a[1]))
	case "or":
		e.push(api.Or(a[0], a[1]))
	case "and":
		e.push(api.And(a[0], a[1]))
	case "select":
		e.push(api.Select(a[0], a[1], a[2]))
	case "lookup2":
		e.push(api.Lookup2(a[0], a[1], a[2], a[3], a[4], a[5]))
	case "iszero":
		e.push(api.IsZero(a[0]))
	case "cmp":
		e.push(api.Cmp(a[0], a[1]))
	case "aeq":
		api.AssertIsEqual(a[0], a[1])
	case "ane":
		api.AssertIsDifferent(a[0], a[1])
	case "abool":
		api.AssertIsBoolean(a[0])
	case "acrumb":
		api.AssertIsCrumb(a[0])
	case "ale":
		api.AssertIsLessOrEqual(a[0], a[1])
	case "hint":
		f := hints[o.F%len(hints)]
		var r []V
		var err error
		switch o.K % 3 {
		case 0:
			r, err = api.NewHint(f, o.N, a...)
		case 1:
			r, err = api.Compiler().NewHint(f, o.N, a...)
		default:
			r, err = api.Compiler().NewHintForId(solver.GetHintID(f), o.N, a...)
		}
		if err != nil {
			panic(err)
		}
		if len(r) != o.N {
			panic("NewHint gave another number of values than asked for")
		}
		e.push(r...)
	case "custom":
		e.push(full.CustomGate(uint64(7000+o.F%len(gates)), a...))
	case "first":
		e.push(full.ToFirstLayer(a[0]))
	case "single":
		e.push(full.ToSingleVariable(a[0]))
	case "out":
		full.Output(a[0])
	case "rnd":
		var r V
		if o.F == 0 {
			r = full.GetRandomValue()
		} else {
			c, ok := api.(frontend.Committer)
			if !ok {
				panic("the api is no Committer")
			}
			var err error
			r, err = c.Commit(a...)
			if err != nil {
				panic(err)
			}
		}
		api.AssertIsEqual(api.Mul(r, api.Sub(a[0], a[1])), 0)
	case "cv":
		c, ok := api.ConstantValue(a[0])
		d, ok2 := api.Compiler().ConstantValue(a[0])
		if ok != ok2 || ok && c.Cmp(d) != 0 {
			panic("two answers of ConstantValue differ")
		}
		if ok {
			curCV = append(curCV, CV{o.K, c.String()})
		}
	case "kvset":
		api.Compiler().(kv).SetKeyValue(o.S[0], a[0])
	case "kvget":
		if v := api.Compiler().(kv).GetKeyValue(o.S[0]); v != nil {
			e.push(v.(V))
		} else {
			e.push(0)
		}
	case "mark":
		api.Compiler().MarkBoolean(a[0])
		full.LayerOf(a[0])
		if api.Compiler().Field().Cmp(curField.Field()) != 0 || api.Compiler().FieldBitLen() != curField.FieldBitLen() {
			panic("the compiler's field is not the circuit's")
		}
	case "defer":
		b := o.B
		saved := &env{api: api, regs: append([]V{}, e.regs...), params: e.params, root: e.root}
		api.Compiler().Defer(func(api frontend.API) error {
			saved.api = api
			saved.run(b)
			return nil
		})
	case "call":
		f := simple[o.F%len(simple)]
		if o.K == 0 {
			e.push(full.MemorizedSimpleCall(f, a)...)
		} else {
			e.push(builder.MemorizedSimpleFunc(f)(api, a)...)
		}
	case "mcall":
		e.memCall(full, o, a)
	default:
		if !e.gadget(o, a) {
			panic("harness: unknown op " + o.O)
		}
	}
}

type kv interface {
	SetKeyValue(key, value any)
	GetKeyValue(key any) any
}

func simpleBody(k int, api frontend.API, in []V) []V {
	b := &cur.Simple[k]
	e := &env{api: api, regs: append([]V{}, in...), params: []int64{int64(len(in))}}
	e.run(b)
	return e.all(b.Out)
}
func sf0(api frontend.API, in []V) []V { return simpleBody(0, api, in) }
func sf1(api frontend.API, in []V) []V { return simpleBody(1, api, in) }
func sf2(api frontend.API, in []V) []V { return simpleBody(2, api, in) }

var simple []builder.SubCircuitSimpleFunc

func init() { simple = []builder.SubCircuitSimpleFunc{sf0, sf1, sf2} }

// memBody runs the body of memorized function k; wanted is the number of results.
func memBody(k int, api frontend.API, in []V, params []int64, wanted int) []V {
	b := &cur.Mem[k]
	e := &env{api: api, regs: append([]V{}, in...), params: append(append([]int64{}, params...), int64(len(in)))}
	e.run(b)
	r := make([]V, wanted)
	for i := range r {
		if len(b.Out) == 0 {
			r[i] = i
		} else {
			r[i] = e.operand(b.Out[i%len(b.Out)])
		}
	}
	return r
}
func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
func shp(s string) int64 {
	var h int64 = 7
	for _, c := range []byte(s) {
		h = (h*31 + int64(c)) % 1000003
	}
	return h
}
func flat(xs [][]V) []V {
	r := []V{}
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}
func lens(xs [][]V) int64 {
	var h int64 = 11
	for _, x := range xs {
		h = (h*37 + int64(len(x)) + 1) % 1000003
	}
	return h
}
func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}
func rows(r []V, w int) [][]V {
	// w rows, the i-th of 1 + (i + len) % 3 values taken round robin
	res := make([][]V, w)
	c := 0
	for i := range res {
		n := 1 + (i+len(r))%3
		for j := 0; j < n; j++ {
			res[i] = append(res[i], r[c%len(r)])
			c++
		}
	}
	return res
}

func m0(api frontend.API, a V, b []V, n int, flag bool) []V {
	return memBody(0, api, append([]V{a}, b...), []int64{int64(n), b2i(flag)}, 1+abs(n)%3)
}
func m1(api frontend.API, x [][]V, s string) [][]V {
	return rows(memBody(1, api, flat(x), []int64{lens(x), shp(s)}, 1+len(s)%3), 1+len(s)%2)
}
func m2(api frontend.API, a V, k uint8) V {
	return memBody(2, api, []V{a}, []int64{int64(k)}, 1)[0]
}
func m3(api frontend.API, xs ...V) V {
	return memBody(3, api, xs, nil, 1)[0]
}
func m4(api frontend.API, a V, n int64) {
	memBody(4, api, []V{a}, []int64{n}, 1)
}
func m5(api frontend.API, k int8, xs ...[]V) [][]V {
	return rows(memBody(5, api, flat(xs), []int64{int64(k), lens(xs)}, 2), 2)
}
func m6(api frontend.API, n uint64, x [][][]V) [][][]V {
	in := []V{}
	var h int64 = 3
	for _, y := range x {
		in = append(in, flat(y)...)
		h = (h*41 + lens(y)) % 1000003
	}
	r := rows(memBody(6, api, in, []int64{int64(n % 1000003), h}, 2), 3)
	return [][][]V{r[:1], r[1:], {}}
}
func m7(api frontend.API, x []V, k int16, b bool, u uint32) []V {
	return memBody(7, api, x, []int64{int64(k), b2i(b), int64(u)}, 1+len(x)%2)
}
func m8(api frontend.API, a V, s, t string) V {
	return memBody(8, api, []V{a}, []int64{shp(s), shp(t), int64(len(s))}, 1)[0]
}

const numMem = 9

func dims(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "-"
	case [][][]V:
		s := []string{}
		for _, y := range x {
			s = append(s, dims(y))
		}
		return "[" + strings.Join(s, ",") + "]"
	case [][]V:
		s := []string{}
		for _, y := range x {
			s = append(s, dims(y))
		}
		return "[" + strings.Join(s, ",") + "]"
	case []V:
		return strconv.Itoa(len(x))
	default:
		return "v"
	}
}

func split(a []V, l []int) [][]V {
	r := make([][]V, len(l))
	c := 0
	for i, n := range l {
		r[i] = append([]V{}, a[c:c+n]...)
		c += n
	}
	return r
}

func (e *env) memCall(full ecgo.API, o *Op, a []V) {
	str := func(i int) string { return o.S[i] }
	num := func(i int) int64 {
		n, err := strconv.ParseInt(o.S[i], 10, 64)
		if err != nil {
			u, err := strconv.ParseUint(o.S[i], 10, 64)
			if err != nil {
				panic("harness: bad parameter")
			}
			return int64(u)
		}
		return n
	}
	var f interface{}
	var args []interface{}
	depth := 1
	switch o.F % numMem {
	case 0:
		f, args = m0, []interface{}{a[0], a[1:], int(num(0)), num(1) != 0}
	case 1:
		f, args, depth = m1, []interface{}{split(a, o.L), str(0)}, 2
	case 2:
		f, args, depth = m2, []interface{}{a[0], uint8(num(0))}, 0
	case 3:
		f, depth = m3, 0
		for _, x := range a {
			args = append(args, x)
		}
	case 4:
		f, args, depth = m4, []interface{}{a[0], num(0)}, -1
	case 5:
		f, args, depth = m5, []interface{}{int8(num(0))}, 2
		for _, x := range split(a, o.L) {
			args = append(args, x)
		}
	case 6:
		s := split(a, o.L)
		h := o.N % (len(s) + 1)
		f, args, depth = m6, []interface{}{uint64(num(0)), [][][]V{s[:h], s[h:]}}, 3
	case 7:
		f, args = m7, []interface{}{a, int16(num(0)), num(1) != 0, uint32(num(2))}
	case 8:
		f, args, depth = m8, []interface{}{a[0], str(0), str(1)}, 0
	}
	var r interface{}
	if o.K == 0 {
		r = full.MemorizedCall(f, args...)
	} else {
		switch depth {
		case -1:
			builder.MemorizedVoidFunc(f)(e.api, args...)
		case 0:
			r = builder.Memorized0DFunc(f)(e.api, args...)
		case 1:
			r = builder.Memorized1DFunc(f)(e.api, args...)
		case 2:
			r = builder.Memorized2DFunc(f)(e.api, args...)
		case 3:
			r = builder.Memorized3DFunc(f)(e.api, args...)
		}
	}
	if e.root {
		curShapes = append(curShapes, dims(r))
	}
	switch x := r.(type) {
	case nil:
	case [][][]V:
		for _, y := range x {
			e.push(flat(y)...)
		}
	case [][]V:
		e.push(flat(x)...)
	case []V:
		e.push(x...)
	default:
		e.push(x)
	}
}

// ---- hints and custom gates: position-dependent sums and products, mirrored by the Rust side

func ha(field *big.Int, in []*big.Int, out []*big.Int) error {
	for j := range out {
		s := big.NewInt(int64(j + 1))
		for i, v := range in {
			s.Add(s, new(big.Int).Mul(v, big.NewInt(int64(i+2))))
		}
		out[j].Mod(s, field)
	}
	return nil
}
func hb(field *big.Int, in []*big.Int, out []*big.Int) error {
	for j := range out {
		s := big.NewInt(1)
		for i, v := range in {
			s.Mul(s, new(big.Int).Add(v, big.NewInt(int64(i+j))))
			s.Mod(s, field)
		}
		out[j] = s // replaced, as IdentityHint does
	}
	return nil
}
func hc(field *big.Int, in []*big.Int, out []*big.Int) error {
	// not reduced, and negative
	for j := range out {
		out[j].Sub(big.NewInt(int64(j)), in[j%len(in)])
	}
	return nil
}

var hints = []solver.Hint{ha, hb, hc}

func g0(field *big.Int, in []*big.Int, out []*big.Int) error {
	s := big.NewInt(3)
	for i, v := range in {
		s.Add(s, new(big.Int).Mul(new(big.Int).Mul(v, v), big.NewInt(int64(i+1))))
	}
	out[0].Mod(s, field)
	return nil
}
func g1(field *big.Int, in []*big.Int, out []*big.Int) error {
	s := big.NewInt(1)
	for i, v := range in {
		s.Mul(s, new(big.Int).Add(v, big.NewInt(int64(i+1))))
	}
	out[0] = s.Mod(s, field)
	return nil
}

var gates = []solver.Hint{g0, g1}

func init() {
	solver.RegisterHint(hints...)
	for i, g := range gates {
		customgates.Register(uint64(7000+i), g, 10)
		if customgates.GetCost(uint64(7000+i)) != 10 {
			panic("GetCost does not return what was registered")
		}
	}
}
