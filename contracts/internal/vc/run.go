package vc

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Rand is a small deterministic generator.
type Rand struct {
	s    uint64
	Ints []*big.Int // dictionary
	Strs []string
	n    int // case number
}

func (r *Rand) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) Uint64() uint64 { return r.u64() }

// Case is the number of the generated case (small cases first).
func (r *Rand) Case() int { return r.n }

func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *Rand) Bool() bool               { return r.u64()&1 == 0 }
func (r *Rand) P(pct int) bool           { return r.Intn(100) < pct }
func (r *Rand) Pick(xs ...string) string { return xs[r.Intn(len(xs))] }

// Len is a length biased to small and boundary values.
func (r *Rand) Len(max int) int {
	var n int
	switch r.Intn(6) {
	case 0:
		n = r.Intn(4)
	case 1:
		n = r.Intn(max + 1)
	case 2:
		n = []int{0, 1, 2, 31, 32, 33, 55, 56, 57, 63, 64, 65, 127, 128, 129, 255, 256, 257}[r.Intn(18)]
	case 3:
		n = 32 * r.Intn(max/32+1)
	case 4:
		n = r.Intn(40)
	default:
		if len(r.Ints) > 0 {
			d := r.Ints[r.Intn(len(r.Ints))]
			if d.IsInt64() && d.Int64() >= -1 && d.Int64() < int64(max) {
				n = int(d.Int64()) + r.Intn(3) - 1
			}
		}
	}
	if n > max {
		n = max
	}
	if n < 0 {
		n = 0
	}
	return n
}

func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	switch r.Intn(7) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2, 3:
		for i := range b {
			if r.P(30) {
				b[i] = byte(r.u64())
			}
		}
	case 4:
		c := byte(r.u64())
		for i := range b {
			b[i] = c
		}
	default:
		for i := range b {
			b[i] = byte(r.u64())
		}
	}
	if n > 0 && r.P(40) {
		for k := r.Intn(4); k >= 0; k-- {
			b[r.Intn(n)] = []byte{0, 1, 0x7f, 0x80, 0x81, 0xff, 0xfe, 0xb7, 0xb8, 0xc0, 0xf7, 0xf8, 0x20, 0x40}[r.Intn(14)]
		}
	}
	if n > 0 && r.P(20) {
		// leading zeros
		for i := 0; i < r.Intn(n+1); i++ {
			b[i] = 0
		}
	}
	if n > 1 && len(r.Strs) > 0 && r.P(10) {
		s := r.Strs[r.Intn(len(r.Strs))]
		copy(b[r.Intn(n):], s)
	}
	return b
}

// Data has a random length.
func (r *Rand) Data(max int) []byte { return r.Bytes(r.Len(max)) }

// Big is an integer with |v| < 2^bits.
func (r *Rand) Big(bits int, signed bool) *big.Int {
	v := new(big.Int)
	switch r.Intn(7) {
	case 0:
		v.SetInt64(int64(r.Intn(5)))
	case 1:
		v.Lsh(big.NewInt(1), uint(r.Intn(bits+1)))
		v.Add(v, big.NewInt(int64(r.Intn(5)-2)))
	case 2:
		if len(r.Ints) > 0 {
			v.Set(r.Ints[r.Intn(len(r.Ints))])
			v.Add(v, big.NewInt(int64(r.Intn(5)-2)))
		}
	case 3:
		v.Lsh(big.NewInt(1), uint(8*r.Intn(bits/8+1)))
		v.Sub(v, big.NewInt(int64(r.Intn(3))))
	default:
		v.SetBytes(r.Bytes(r.Intn(bits/8 + 1)))
	}
	if v.BitLen() > bits {
		v.And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1)))
	}
	if signed {
		if r.P(30) {
			v.Neg(v)
		}
	} else {
		v.Abs(v)
	}
	return v
}

func (r *Rand) Int64() int64 {
	v := r.Big(64, true)
	return int64(v.Uint64()) * int64(v.Sign()|1)
}

func (r *Rand) Str(max int) string {
	switch r.Intn(5) {
	case 0:
		if len(r.Strs) > 0 {
			s := r.Strs[r.Intn(len(r.Strs))]
			if r.P(50) {
				return s
			}
			b := []byte(s)
			if len(b) > 0 {
				switch r.Intn(3) {
				case 0:
					b[r.Intn(len(b))] = byte(r.u64())
				case 1:
					b = b[:r.Intn(len(b))]
				case 2:
					k := r.Intn(len(b))
					b = append(append(append([]byte(nil), b[:k]...), byte(r.u64())), b[k:]...)
				}
			}
			return string(b)
		}
	case 1:
		n := r.Len(max)
		b := make([]byte, n)
		al := "0123456789abcdefxX.-+eABCDEF,()[] \"_/:gz"
		for i := range b {
			b[i] = al[r.Intn(len(al))]
		}
		return string(b)
	case 2:
		n := r.Len(max)
		b := make([]byte, n)
		al := "0123456789abcdefABCDEF"
		for i := range b {
			b[i] = al[r.Intn(len(al))]
		}
		return "0x" + string(b)
	}
	return string(r.Data(max))
}

var bigT = reflect.TypeOf(big.Int{})

func isBig(t reflect.Type) bool {
	return t == bigT || (t.Kind() == reflect.Struct && t.ConvertibleTo(bigT))
}

// Gens are generators by type, registered by contract files.
var Gens = map[reflect.Type]func(r *Rand) reflect.Value{}

// RegisterGen registers a generator for the result type of f.
func RegisterGen(f interface{}) {
	fv := reflect.ValueOf(f)
	Gens[fv.Type().Out(0)] = func(r *Rand) reflect.Value { return fv.Call([]reflect.Value{reflect.ValueOf(r)})[0] }
}

func (r *Rand) Value(t reflect.Type, depth int) reflect.Value {
	if g, ok := Gens[t]; ok {
		return g(r)
	}
	v := reflect.New(t).Elem()
	if isBig(t) {
		v.Set(reflect.ValueOf(*r.Big(264, true)).Convert(t))
		return v
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Bool())
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		v.SetInt(r.Big(t.Bits(), true).Int64())
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8, reflect.Uintptr:
		v.SetUint(r.Big(t.Bits(), false).Uint64())
	case reflect.String:
		v.SetString(r.Str(80))
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			if r.P(3) {
				return v
			}
			v.Set(reflect.ValueOf(r.Data(300)).Convert(t))
			return v
		}
		n := r.Intn(5)
		if depth > 3 {
			n = r.Intn(2)
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			v.Index(i).Set(r.Value(t.Elem(), depth+1))
		}
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			reflect.Copy(v, reflect.ValueOf(r.Bytes(t.Len())))
			return v
		}
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(r.Value(t.Elem(), depth+1))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			f.Set(r.Value(f.Type(), depth+1))
		}
	case reflect.Ptr:
		if depth > 0 && (r.P(15) || depth > 4) {
			return v
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(r.Value(t.Elem(), depth+1))
		v.Set(p)
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		for i := r.Intn(3); i > 0; i-- {
			v.SetMapIndex(r.Value(t.Key(), depth+1), r.Value(t.Elem(), depth+1))
		}
	}
	return v
}

// ---- runner

// Dict holds constants of the code under contract (strings in hex).
type Dict struct {
	Ints []string
	Strs []string
}

// Job is read from the file named by VC_JOB.
type Job struct {
	Seed   uint64
	Secs   float64 // per harness
	MaxN   int
	Dict   map[string]Dict
	Names  []string
	Replay string // harness
	Case   int
	Out    string
}

type Outcome struct {
	Name    string
	Cases   int
	Skipped int
	Fail    string `json:",omitempty"`
	Case    int
	Seed    uint64
	Args    []string `json:",omitempty"`
	Stack   string   `json:",omitempty"`
	Samples []string `json:",omitempty"`
}

// Harness is a contract function with an optional generator.
type Harness struct {
	Name string
	Fn   interface{}
	Gen  interface{}
}

func show(v reflect.Value, depth int) string {
	if v.IsValid() && isBig(v.Type()) {
		if !v.CanInterface() {
			return "big"
		}
		b := v.Convert(bigT).Interface().(big.Int)
		return "0x" + b.Text(16)
	}
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return "nil"
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("hex:%x", v.Bytes())
		}
		fallthrough
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return "hex:" + hex.EncodeToString(b)
		}
		var s []string
		for i := 0; i < v.Len() && i < 40; i++ {
			s = append(s, show(v.Index(i), depth+1))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if depth > 5 {
			return "..."
		}
		return "&" + show(v.Elem(), depth+1)
	case reflect.Struct:
		var s []string
		for i := 0; i < v.NumField() && i < 40; i++ {
			s = append(s, v.Type().Field(i).Name+":"+show(v.Field(i), depth+1))
		}
		return "{" + strings.Join(s, " ") + "}"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	}
	return v.Type().String()
}

var curName atomic.Value
var curStart int64
var curCase int64
var curSeed uint64

func gen(h *Harness, seed uint64, n int, job *Job) []reflect.Value {
	r := &Rand{s: seed*0x9e3779b97f4a7c15 + uint64(n)*0xd1342543de82ef95 + 12345, n: n}
	for i := 0; i < len(h.Name); i++ {
		r.s = r.s*31 + uint64(h.Name[i])
	}
	for _, s := range job.Dict[h.Name].Ints {
		b, ok := new(big.Int).SetString(s, 10)
		if ok {
			r.Ints = append(r.Ints, b)
		}
	}
	for _, s := range job.Dict[h.Name].Strs {
		b, _ := hex.DecodeString(s)
		r.Strs = append(r.Strs, string(b))
	}
	r.u64()
	ft := reflect.TypeOf(h.Fn)
	if h.Gen != nil {
		return reflect.ValueOf(h.Gen).Call([]reflect.Value{reflect.ValueOf(r)})
	}
	var args []reflect.Value
	for i := 0; i < ft.NumIn(); i++ {
		args = append(args, r.Value(ft.In(i), 0))
	}
	return args
}

func runOne(fn reflect.Value, args []reflect.Value) (fail, stack string, skip bool) {
	defer func() {
		if e := recover(); e != nil {
			switch v := e.(type) {
			case skipT:
				skip = true
			case Failure:
				fail = v.Label
			default:
				fail = fmt.Sprintf("panic: %v", e)
				stack = string(debug.Stack())
			}
		}
	}()
	fn.Call(args)
	return
}

// Main runs the harnesses of the job.
func Main(hs []Harness) {
	var job Job
	b, err := ioutil.ReadFile(os.Getenv("VC_JOB"))
	if err != nil {
		fmt.Println("no job:", err)
		os.Exit(3)
	}
	if err := json.Unmarshal(b, &job); err != nil {
		fmt.Println("bad job:", err)
		os.Exit(3)
	}
	want := map[string]bool{}
	for _, n := range job.Names {
		want[n] = true
	}
	var outs []Outcome
	flush := func() {
		o, _ := json.Marshal(outs)
		ioutil.WriteFile(job.Out, o, 0644)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	// watchdog
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			s := atomic.LoadInt64(&curStart)
			if s != 0 && time.Since(time.Unix(0, s)) > 20*time.Second {
				nm, _ := curName.Load().(string)
				for i := range hs {
					if hs[i].Name == nm {
						n := int(atomic.LoadInt64(&curCase))
						args := gen(&hs[i], job.Seed, n, &job)
						o := Outcome{Name: nm, Case: n, Seed: job.Seed, Fail: "no result within 20 s (hang)"}
						for _, a := range args {
							o.Args = append(o.Args, show(a, 0))
						}
						outs = append(outs, o)
					}
				}
				flush()
				os.Exit(4)
			}
		}
	}()
	for i := range hs {
		h := &hs[i]
		if !want[h.Name] {
			continue
		}
		fn := reflect.ValueOf(h.Fn)
		o := Outcome{Name: h.Name, Seed: job.Seed}
		start := time.Now()
		curName.Store(h.Name)
		cur, _ := json.Marshal(Outcome{Name: h.Name, Seed: job.Seed})
		ioutil.WriteFile(job.Out+".cur", cur, 0644)
		first, last := 0, job.MaxN
		if job.Replay == h.Name {
			first, last = job.Case, job.Case+1
		}
		if fn.Type().NumIn() == 0 {
			last = 1
		}
		for n := first; n < last; n++ {
			if n > first+3 && (n%8 == 0 || n < 64) && time.Since(start).Seconds() > job.Secs {
				break
			}
			atomic.StoreInt64(&curCase, int64(n))
			var args []reflect.Value
			args = gen(h, job.Seed, n, &job)
			desc := func() (d []string) {
				// regenerate: the run may have modified the arguments
				for _, a := range gen(h, job.Seed, n, &job) {
					d = append(d, show(a, 0))
				}
				return
			}
			atomic.StoreInt64(&curStart, time.Now().UnixNano())
			fail, stack, skip := runOne(fn, args)
			atomic.StoreInt64(&curStart, 0)
			o.Cases++
			if skip {
				o.Skipped++
			} else if len(o.Samples) < 1 && n > 3 {
				o.Samples = append(o.Samples, strings.Join(desc(), ", "))
			}
			if fail != "" {
				o.Fail, o.Stack, o.Case = fail, stack, n
				o.Args = desc()
				break
			}
		}
		outs = append(outs, o)
		flush()
	}
	flush()
}

type exitT int

// Exit stands in for os.Exit in commands under contract.
func Exit(code int) { panic(exitT(code)) }

// Exits runs f and reports whether it ends the process.
func Exits(f func()) (exited bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(exitT); !ok {
				panic(e)
			}
			exited = true
		}
	}()
	f()
	return false
}
