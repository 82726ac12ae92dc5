package main

import (
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strconv"

	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/field"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/integration"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/utils"
	"github.com/consensys/gnark/constraint"
)

// DOp is one operation on a container, a field or a buffer.
type DOp struct {
	O string `json:"o"`
	K int    `json:"k"`
	V int    `json:"v"`
	A string `json:"a"`
	B string `json:"b"`
}

// key has a hash that collides on purpose
type key int

func (k key) HashCode() uint64             { return uint64(k) % 3 }
func (k key) EqualI(o utils.Hashable) bool { return k == o.(key) }

func data(q *Req, r *Res) {
	protect(&r.Panic, func() {
		say := func(f string, a ...interface{}) { r.Out = append(r.Out, fmt.Sprintf(f, a...)) }
		switch q.Cmd {
		case "map":
			m := make(utils.Map)
			for _, o := range q.Ops {
				switch o.O {
				case "set":
					m.Set(key(o.K), o.V)
					say("")
				case "add":
					say("%v", m.Add(key(o.K), o.V))
				case "find":
					v, ok := m.Find(key(o.K))
					say("%v %v", v, ok)
				case "filter":
					ks := m.FilterKeys(func(v interface{}) bool { return v.(int)%o.K == 0 })
					s := []int{}
					for _, k := range ks {
						s = append(s, int(k.(key)))
					}
					sort.Ints(s)
					say("%v", s)
				case "clear":
					m.Clear()
					say("")
				}
			}
		case "sort":
			s := []int{}
			for _, x := range q.Strs {
				n, _ := strconv.Atoi(x)
				s = append(s, n)
			}
			var less func(a, b int) bool
			switch q.Kind {
			case 0:
				less = func(a, b int) bool { return a < b }
			case 1:
				less = func(a, b int) bool { return a > b }
			default:
				less = func(a, b int) bool { return a%7 < b%7 || a%7 == b%7 && a < b }
			}
			utils.SortIntSeq(s, less)
			for _, x := range s {
				say("%d", x)
			}
		case "pow":
			for _, x := range q.Strs {
				n, _ := strconv.Atoi(x)
				say("%d", utils.NextPowerOfTwo(n, q.Kind == 1))
			}
		case "from":
			curField = field.GetFieldById(q.Field)
			for _, x := range q.Strs {
				v := typed(x)
				if x[0] != 'e' && x[0] != 'E' {
					b := utils.FromInterface(v)
					say("%s", b.String())
				} else {
					say("-")
				}
				if x[0] != 'e' && x[0] != 'E' {
					say("%s", curField.ToBigInt(curField.FromInterface(v)).String())
				} else {
					say("-")
				}
			}
		case "field":
			f := field.GetFieldById(q.Field)
			say("%s %d %d %d", f.Field().String(), f.FieldBitLen(), f.SerializedLen(), field.GetFieldId(field.GetFieldFromOrder(f.Field())))
			for _, o := range q.Ops {
				a, b := f.FromInterface(big0(o.A)), f.FromInterface(big0(o.B))
				ca, cb := a, b
				var c constraint.Element
				extra := ""
				switch o.O {
				case "add":
					c = f.Add(a, b)
				case "sub":
					c = f.Sub(a, b)
				case "mul":
					c = f.Mul(a, b)
				case "neg":
					c = f.Neg(a)
				case "inv":
					var ok bool
					c, ok = f.Inverse(a)
					extra = fmt.Sprint(" ", ok)
				case "one":
					c = f.One()
				case "isone":
					c = a
					extra = fmt.Sprint(" ", f.IsOne(a))
				case "u64":
					c = a
					u, ok := f.Uint64(a)
					extra = fmt.Sprint(" ", u, " ", ok)
				case "str":
					c = a
					extra = fmt.Sprint(" ", f.String(a))
				case "chain": // values built by operations are equal to values read
					c = f.Sub(f.Add(f.Mul(a, b), a), f.Mul(b, a))
					extra = fmt.Sprint(" ", c == a)
				}
				if a != ca || b != cb {
					panic("an operand was changed")
				}
				again := f.FromInterface(f.ToBigInt(c))
				if again != c {
					panic(fmt.Sprintf("%s: the element %v is not the one read from its value, %v", o.O, c, again))
				}
				say("%s%s", f.ToBigInt(c).String(), extra)
			}
		case "buf":
			f := field.GetFieldById(q.Field)
			o := &utils.OutputBuf{}
			for _, x := range q.Ops {
				n := big0(x.A)
				switch x.O {
				case "u8":
					o.AppendUint8(uint8(n.Uint64()))
				case "u32":
					o.AppendUint32(uint32(n.Uint64()))
				case "u64":
					o.AppendUint64(n.Uint64())
				case "big":
					o.AppendBigInt(x.K, n)
				case "fe":
					o.AppendFieldElement(f, f.FromInterface(n))
				case "ints":
					s := []int{}
					for i := 0; i < x.K; i++ {
						s = append(s, int(n.Int64())+i*x.V)
					}
					o.AppendIntSlice(s)
				}
			}
			b := o.Bytes()
			if len(o.Bytes()) != 0 {
				panic("Bytes leaves the buffer full")
			}
			r.Lc = hex.EncodeToString(b)
			back := utils.NewInputBuf(b)
			for _, x := range q.Ops {
				if back.IsEnd() {
					panic("IsEnd before the end")
				}
				switch x.O {
				case "u8":
					say("%d", back.ReadUint8())
				case "u32":
					say("%d", back.ReadUint32())
				case "u64":
					say("%d", back.ReadUint64())
				case "big":
					say("%s", back.ReadBigInt(x.K).String())
				case "fe":
					say("%s", f.ToBigInt(back.ReadFieldElement(f)).String())
				case "ints":
					say("%v", back.ReadIntSlice())
				}
			}
			if !back.IsEnd() {
				panic("IsEnd is false at the end")
			}
		default:
			panic("harness: unknown command " + q.Cmd)
		}
	})
}

// prove drives integration.Prover, on a file or on a server of our own.
func prove(q *Req, r *Res) {
	wit := unhex(q.Strs[0])
	proof := unhex(q.Strs[1])
	protect(&r.Panic, func() {
		name := "circuit"
		if q.Kind == 1 {
			ln, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic("harness: " + err.Error())
			}
			mux := http.NewServeMux()
			seen := []string{}
			mux.HandleFunc("/prove", func(w http.ResponseWriter, h *http.Request) {
				b, _ := io.ReadAll(h.Body)
				seen = append(seen, "prove "+h.Method+" "+hex.EncodeToString(b))
				w.Write(proof)
			})
			mux.HandleFunc("/verify", func(w http.ResponseWriter, h *http.Request) {
				b, _ := io.ReadAll(h.Body)
				seen = append(seen, "verify "+h.Method+" "+hex.EncodeToString(b))
				w.Write([]byte(q.Strs[2]))
			})
			srv := &http.Server{Handler: mux}
			go srv.Serve(ln)
			defer srv.Close()
			name = "http://" + ln.Addr().String()
			p, err := integration.NewProver("nowhere", name, 1, true)
			if err != nil {
				panic(err)
			}
			got, err := p.Prove(wit)
			if err != nil {
				panic(err)
			}
			ok, err := p.Verify(wit, got)
			if err != nil {
				panic(err)
			}
			r.Out = append([]string{hex.EncodeToString(got), fmt.Sprint(ok)}, seen...)
			return
		}
		if err := os.WriteFile(q.File, unhex(q.Data), 0o600); err != nil {
			panic("harness: " + err.Error())
		}
		p, err := integration.NewProver(q.File, filepath.Base(q.File), 1, true)
		if err != nil {
			panic(err)
		}
		if q.Kind == 0 {
			proof, err = p.Prove(wit)
			if err != nil {
				panic(err)
			}
		}
		ok, err := p.Verify(wit, proof)
		if err != nil {
			panic(err)
		}
		r.Out = []string{hex.EncodeToString(proof), fmt.Sprint(ok)}
	})
}
