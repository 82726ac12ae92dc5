// The Go half of the harness: answers requests of the Rust half, one line of JSON each.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/field"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/irsource"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/irwg"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/layered"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/test"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/bits"
)

type Run struct {
	Vals []string `json:"vals"`
	Pub  []string `json:"pub"`
	Lie  int      `json:"lie"`
	At   int      `json:"at"`
}
type Req struct {
	Cmd   string   `json:"cmd"`
	Field uint64   `json:"field"`
	Kind  int      `json:"kind"`
	Dims  []int    `json:"dims"`
	Prog  *Prog    `json:"prog"`
	Runs  []Run    `json:"runs"`
	Multi []int    `json:"multi"`
	Data  string   `json:"data"`
	File  string   `json:"file"`
	Ops   []DOp    `json:"ops"`
	Strs  []string `json:"strs"`
}
type RunRes struct {
	Err   string   `json:"err"`
	Panic string   `json:"panic"`
	Wit   string   `json:"wit"`
	Ok    bool     `json:"ok"`
	Outs  []string `json:"outs"`
	Lied  int      `json:"lied"`
}
type Res struct {
	Panic  string   `json:"panic"`
	Err    string   `json:"err"`
	Irs    string   `json:"irs"`
	Irwg   string   `json:"irwg"`
	Lc     string   `json:"lc"`
	Field  uint64   `json:"field"`
	Runs   []RunRes `json:"runs"`
	Shapes []string `json:"shapes"`
	Cv     []CV     `json:"cv"`
	Ids    []uint64 `json:"ids"`
	Multi  []bool   `json:"multi"`
	MWit   string   `json:"mwit"`
	MErr   string   `json:"merr"`
	Out    []string `json:"out"`
}

// ---- circuits of several shapes; values of the fields are given in the order of declaration

func define(api frontend.API, regs []V) error {
	e := &env{api: api, regs: append([]V{}, regs...), root: true}
	e.run(&cur.Root)
	return nil
}

type c0 struct {
	S []V
	P []V `gnark:",public"`
}
type c1 struct {
	P []V `gnark:",public"`
	S []V `gnark:",secret"`
	Q V   `gnark:"name,public"`
}
type c2 struct {
	A struct {
		X V
		Y []V `gnark:",public"`
	}
	B    [][]V
	Skip V    `gnark:"-"`
	C    V    `gnark:",public"`
	D    [2]V `gnark:",secret"`
	E    []*sub
}
type sub struct {
	L V `gnark:",public"`
	M []V
}

func (c *c0) all() []*V {
	r := []*V{}
	for i := range c.S {
		r = append(r, &c.S[i])
	}
	for i := range c.P {
		r = append(r, &c.P[i])
	}
	return r
}
func (c *c1) all() []*V {
	r := []*V{}
	for i := range c.P {
		r = append(r, &c.P[i])
	}
	for i := range c.S {
		r = append(r, &c.S[i])
	}
	return append(r, &c.Q)
}
func (c *c2) all() []*V {
	r := []*V{&c.A.X}
	for i := range c.A.Y {
		r = append(r, &c.A.Y[i])
	}
	for i := range c.B {
		for j := range c.B[i] {
			r = append(r, &c.B[i][j])
		}
	}
	r = append(r, &c.C, &c.D[0], &c.D[1])
	for _, e := range c.E {
		r = append(r, &e.L)
		for i := range e.M {
			r = append(r, &e.M[i])
		}
	}
	return r
}

type circ interface {
	frontend.Circuit
	all() []*V
}

func regsOf(c circ) []V {
	r := []V{}
	for _, p := range c.all() {
		r = append(r, *p)
	}
	return r
}
func (c *c0) Define(api frontend.API) error { return define(api, regsOf(c)) }
func (c *c1) Define(api frontend.API) error { return define(api, regsOf(c)) }
func (c *c2) Define(api frontend.API) error { return define(api, regsOf(c)) }

func newCirc(kind int, d []int) circ {
	switch kind {
	case 0:
		return &c0{S: make([]V, d[0]), P: make([]V, d[1])}
	case 1:
		return &c1{S: make([]V, d[0]), P: make([]V, d[1])}
	default:
		c := &c2{}
		c.A.Y = make([]V, d[0])
		c.B = [][]V{make([]V, d[1]), make([]V, d[2])}
		for i := 0; i < d[3]; i++ {
			c.E = append(c.E, &sub{M: make([]V, 1+i)})
		}
		return c
	}
}

// ---- dishonest decompositions

func lie(mode, at int, count *int) func(f, x *big.Int, out []*big.Int) {
	if mode == 0 {
		return nil
	}
	calls := 0
	return func(f, x *big.Int, out []*big.Int) {
		me := calls
		calls++
		if me%4 != at%4 && at < 8 || len(out) == 0 {
			return
		}
		k := at % len(out)
		switch mode {
		case 1: // the bits of x + p, x + 2p, ...
			y := new(big.Int).Add(x, new(big.Int).Mul(f, big.NewInt(int64(1+at%2))))
			for i := range out {
				out[i].SetUint64(uint64(y.Bit(i)))
			}
		case 2: // moves the weight between neighbours
			if k+1 >= len(out) {
				return
			}
			out[k].Add(out[k], big.NewInt(2))
			out[k+1].Sub(out[k+1], big.NewInt(1))
		case 3:
			out[k].Sub(big.NewInt(1), out[k])
		case 4: // all the weight in one place
			c := new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), uint(k)), f)
			if c == nil {
				return
			}
			for i := range out {
				out[i].SetUint64(0)
			}
			out[k].Mul(c, x)
			out[k].Mod(out[k], f)
		default: // swapped
			j := (k + 1 + at/2) % len(out)
			out[k], out[j] = out[j], out[k]
		}
		*count++
	}
}

func typed(s string) V {
	e := &env{}
	return e.operand(s)
}

func protect(where *string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.HasPrefix(s, "harness: ") {
				panic(r)
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1200 {
				st = st[:1200]
			}
			*where = s + "\n" + st
		}
	}()
	f()
}

func strs(xs []*big.Int) []string {
	r := []string{}
	for _, x := range xs {
		r = append(r, x.String())
	}
	return r
}

func program(q *Req, r *Res) {
	cur = q.Prog
	curField = field.GetFieldById(q.Field)
	curCV = []CV{}
	curShapes = []string{}
	bits.Lie = nil
	var cr *ecgo.CompileResult
	protect(&r.Panic, func() {
		res, err := ecgo.Compile(curField.Field(), newCirc(q.Kind, q.Dims))
		if err != nil {
			r.Err = err.Error()
			if r.Err == "" {
				r.Err = "empty"
			}
			return
		}
		cr = res
	})
	r.Shapes = curShapes
	r.Cv = curCV
	if cr == nil {
		return
	}
	irs := irsource.SerializeRootCircuit(cr.GetCircuitIr())
	wg := cr.GetInputSolver().Serialize()
	lc := cr.GetLayeredCircuit().Serialize()
	r.Irs, r.Irwg, r.Lc = hex.EncodeToString(irs), hex.EncodeToString(wg), hex.EncodeToString(lc)
	is, l := cr.GetInputSolver(), cr.GetLayeredCircuit()
	if q.Data == "reload" {
		protect(&r.Panic, func() {
			is = ecgo.DeserializeInputSolver(wg)
			l = ecgo.DeserializeLayeredCircuit(lc)
			if hex.EncodeToString(l.Serialize()) != r.Lc {
				panic("a layered circuit read back is written differently")
			}
			if err := os.WriteFile(q.File, lc, 0o600); err != nil {
				panic("harness: " + err.Error())
			}
			if id := layered.DetectFieldIdFromFile(q.File); id != q.Field {
				panic(fmt.Sprintf("DetectFieldIdFromFile says %d of a circuit over field %d", id, q.Field))
			}
		})
		if r.Panic != "" {
			return
		}
	}
	assign := func(run *Run) circ {
		c := newCirc(q.Kind, q.Dims)
		for i, p := range c.all() {
			*p = typed(run.Vals[i])
		}
		if k, ok := c.(*c2); ok {
			k.Skip = "not a number"
		}
		return c
	}
	for i := range q.Runs {
		run := &q.Runs[i]
		var rr RunRes
		protect(&rr.Panic, func() {
			bits.Lie = lie(run.Lie, run.At, &rr.Lied)
			solver.Lie = gadgetLie(run.Lie, run.At, &rr.Lied)
			var w *irwg.Witness
			var err error
			if i%2 == 0 {
				w, err = is.SolveInput(assign(run), 1+i)
			} else {
				w, err = is.SolveInputAuto(assign(run))
			}
			bits.Lie = nil
			solver.Lie = nil
			if err != nil {
				rr.Err = err.Error()
				return
			}
			rr.Wit = hex.EncodeToString(w.Serialize())
			rr.Ok = test.CheckCircuit(l, w)
			rr.Outs = strs(test.EvalCircuit(l, w))
		})
		bits.Lie = nil
		solver.Lie = nil
		r.Runs = append(r.Runs, rr)
	}
	if len(q.Multi) > 0 {
		protect(&r.MErr, func() {
			cs := []frontend.Circuit{}
			for _, i := range q.Multi {
				cs = append(cs, assign(&q.Runs[i]))
			}
			w, err := is.SolveInputs(cs)
			if err != nil {
				r.MErr = "error: " + err.Error()
				return
			}
			r.MWit = hex.EncodeToString(w.Serialize())
			r.Multi = test.CheckCircuitMultiWitness(l, w)
		})
	}
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic("harness: bad hex")
	}
	return b
}

func bigs(xs []string) []*big.Int {
	r := []*big.Int{}
	for _, x := range xs {
		r = append(r, big0(x))
	}
	return r
}

// draw prints a layered circuit and draws it.
func draw(q *Req, r *Res) {
	protect(&r.Panic, func() {
		l := ecgo.DeserializeLayeredCircuit(unhex(q.Data))
		f, err := os.CreateTemp("", "verif-print")
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer os.Remove(f.Name())
		defer f.Close()
		out := os.Stdout
		os.Stdout = f
		func() {
			defer func() { os.Stdout = out }()
			l.Print()
		}()
		b, err := os.ReadFile(f.Name())
		if err != nil {
			panic("harness: " + err.Error())
		}
		r.Out = []string{string(b), ""}
		protect(&r.Err, func() { r.Out[1] = l.Graphviz() })
	})
}

// load reads what the Rust side has written, writes it again and evaluates it. Vals are the inputs
// in order, Pub the public ones.
func load(q *Req, r *Res) {
	protect(&r.Panic, func() {
		if q.Cmd == "lc" {
			l := ecgo.DeserializeLayeredCircuit(unhex(q.Data))
			r.Lc = hex.EncodeToString(l.Serialize())
			r.Field = field.GetFieldId(field.GetFieldFromOrder(l.Field))
			if q.File != "" {
				if err := os.WriteFile(q.File, unhex(q.Data), 0o600); err != nil {
					panic("harness: " + err.Error())
				}
				r.Ids = []uint64{layered.DetectFieldIdFromFile(q.File)}
			}
			for i := range q.Runs {
				run := &q.Runs[i]
				in, pub := bigs(run.Vals), bigs(run.Pub)
				w := &irwg.Witness{NumWitnesses: 1, NumInputsPerWitness: len(in), NumPublicInputsPerWitness: len(pub), Field: l.Field, Values: append(in, pub...)}
				var rr RunRes
				protect(&rr.Panic, func() {
					rr.Ok = test.CheckCircuit(l, w)
					rr.Outs = strs(test.EvalCircuit(l, w))
				})
				r.Runs = append(r.Runs, rr)
			}
			return
		}
		is := ecgo.DeserializeInputSolver(unhex(q.Data))
		r.Irwg = hex.EncodeToString(is.Serialize())
		r.Field = field.GetFieldId(is.Field)
		for i := range q.Runs {
			run := &q.Runs[i]
			c := &c0{S: make([]V, len(run.Vals)), P: make([]V, len(run.Pub))}
			for j, x := range run.Vals {
				c.S[j] = big0(x)
			}
			for j, x := range run.Pub {
				c.P[j] = big0(x)
			}
			var rr RunRes
			protect(&rr.Panic, func() {
				w, err := is.SolveInput(c, 1)
				if err != nil {
					rr.Err = err.Error()
					return
				}
				rr.Wit = hex.EncodeToString(w.Serialize())
			})
			r.Runs = append(r.Runs, rr)
		}
	})
}

// callHint runs a registered hint.
func callHint(q *Req, r *Res) {
	id := big0(q.Strs[0])
	h := solver.GetRegisteredHint(solver.HintID(id.Uint64()))
	if h == nil || !id.IsUint64() || id.Uint64()>>32 != 0 {
		r.Err = "not registered"
		return
	}
	f := field.GetFieldById(q.Field).Field()
	out := make([]*big.Int, q.Kind)
	for i := range out {
		out[i] = new(big.Int)
	}
	if err := h(f, bigs(q.Strs[1:]), out); err != nil {
		r.Err = err.Error()
		return
	}
	for _, x := range out {
		r.Out = append(r.Out, new(big.Int).Mod(x, f).String())
	}
}

func main() {
	// whatever logs to the standard output, here or in the library, must not mix with the answers
	fd, err := syscall.Dup(1)
	if err == nil {
		err = syscall.Dup2(2, 1)
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
	out := os.NewFile(uintptr(fd), "answers")
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		q := &Req{}
		if err := json.Unmarshal(line, q); err != nil {
			panic("harness: " + err.Error())
		}
		r := &Res{}
		switch q.Cmd {
		case "hello":
			for _, h := range hints {
				r.Ids = append(r.Ids, uint64(solver.GetHintID(h)))
			}
		case "hint":
			callHint(q, r)
		case "prog":
			program(q, r)
		case "draw":
			draw(q, r)
		case "lc", "irwg":
			load(q, r)
		case "prove":
			prove(q, r)
		default:
			data(q, r)
		}
		b, err := json.Marshal(r)
		if err != nil {
			panic("harness: " + err.Error())
		}
		out.Write(append(b, '\n'))
	}
}
