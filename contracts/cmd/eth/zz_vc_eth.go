package main

import (
	"encoding/hex"
	"math/big"
	"os"
	"strconv"
	"strings"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/internal/vc"
)

// C27, C28: the call and jumptab commands

func init() {
	// refusals are explained on standard error
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && os.Getenv("VC_JOB") != "" {
		os.Stderr = f
	}
}

func vcUnhex(s string) ([]byte, bool) {
	b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
	return b, err == nil
}

// vcWordOf is the word of the argument val of the elementary type typ
func vcWordOf(typ, val string) (word []byte, ok bool) {
	word = make([]byte, 32)
	switch typ {
	case "bool":
		if val == "true" {
			word[31] = 1
		}
		return word, val == "true" || val == "false"
	case "address":
		if !strings.HasPrefix(val, "0x") {
			return nil, false
		}
		b, ok := vcUnhex(val)
		if len(val)%2 != 0 {
			b, ok = vcUnhex("0x0" + val[2:])
		}
		if !ok || len(b) != 20 {
			return nil, false
		}
		copy(word[12:], b)
		return word, true
	}
	if strings.HasPrefix(typ, "bytes") {
		n, _ := strconv.Atoi(typ[5:])
		b, ok := vcUnhex(val)
		if !ok || n == 0 || len(b) != n {
			return nil, false
		}
		copy(word, b)
		return word, true
	}
	signed := strings.HasPrefix(typ, "int")
	w, err := strconv.Atoi(strings.TrimPrefix(strings.TrimPrefix(typ, "u"), "int"))
	v, good := new(big.Int).SetString(val, 0)
	if err != nil || !good {
		return nil, false
	}
	lo, hi := vc.I(0), vc.Pow2(uint(w))
	if signed {
		hi = vc.Pow2(uint(w - 1))
		lo = vc.Neg(hi)
	}
	if !vc.Le(lo, v) || !vc.Lt(v, hi) {
		return nil, false
	}
	v = vc.Mod(v, vc.Pow2(256))
	for k := range word {
		word[k] = vc.Byte(v, 31-k)
	}
	return word, true
}

var vcTypes = []string{"bool", "address", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "int128", "uint128", "int256", "uint256"}

func vgElem(r *vc.Rand) (typ string) {
	if r.P(20) {
		return "bytes" + strconv.Itoa(1+r.Intn(32))
	}
	return vcTypes[r.Intn(len(vcTypes))]
}

func vgVal(r *vc.Rand, typ string) string {
	if r.P(6) {
		return r.Pick("", "x", "-", "0x", "-0x1", "+1", "true", "[", "]", "1,2", " 1", "1 ", "1_0", "1.0", "0x0", "00", "-0", "int8", "int256")
	}
	switch {
	case typ == "bool":
		return r.Pick("true", "false", "true", "false", "1", "0", "True")
	case typ == "address":
		n := 20
		if r.P(10) {
			n = 19 + r.Intn(3)
		}
		s := "0x" + hex.EncodeToString(r.Bytes(n))
		if r.P(10) {
			s = s[r.Intn(4):]
		}
		return s
	case strings.HasPrefix(typ, "bytes"):
		n, _ := strconv.Atoi(typ[5:])
		if r.P(12) {
			n += r.Intn(3) - 1
		}
		if n < 0 {
			n = 0
		}
		return r.Pick("0x", "") + hex.EncodeToString(r.Bytes(n))
	}
	w, _ := strconv.Atoi(strings.TrimPrefix(strings.TrimPrefix(typ, "u"), "int"))
	var v *big.Int
	switch r.Intn(4) {
	case 0: // around the edges of the ranges
		v = vc.Add(vc.Pow2(uint(w-r.Intn(2))), vc.I(int64(r.Intn(5)-2)))
		if r.Bool() {
			v = vc.Neg(v)
		}
	case 1:
		v = vc.I(int64(r.Intn(9) - 4))
	default:
		v = r.Big(8*(1+r.Intn(w/8)), r.Bool())
	}
	if r.P(30) {
		if v.Sign() < 0 {
			return "-0x" + vc.Abs(v).Text(16)
		}
		return "0x" + v.Text(16)
	}
	return v.String()
}

func VG_Arg(r *vc.Rand) (string, string) {
	typ := vgElem(r)
	return typ, vgVal(r, typ)
}

// VB_Arg: elementary types
//
//vc:property C27
//vc:gen VG_Arg
func VB_Arg(typ, val string) {
	word, ok := vcWordOf(typ, val)
	var a seth.EtherType
	refused := vc.Exits(func() { a = parsearg(typ, val) })
	vc.Ensures("refused exactly outside the type", func() bool { return refused == !ok })
	if ok {
		_, dyn := a.(seth.EtherSlice)
		vc.Ensures("the value written", func() bool { return !dyn && vc.BytesEq(a.EncodeABI(nil), word) })
	}
}

func VG_ArrayArg(r *vc.Rand) (string, string) {
	typ := vgElem(r)
	var vals []string
	for i := r.Intn(5); i > 0; i-- {
		v := vgVal(r, typ)
		if _, ok := vcWordOf(typ, v); !ok && !r.P(10) {
			continue
		}
		vals = append(vals, v)
	}
	s := "[" + strings.Join(vals, ",") + "]"
	if r.P(8) {
		s = r.Pick("", "[", "]", "[]", "][", "[,]", "[[]]", s[1:], s[:len(s)-1], s+"]", "["+s, s+",", s+" ")
	}
	return typ, s
}

// VB_ArrayArg: arrays; of the elementary types only the byte strings may be
// refused altogether.
//
//vc:property C27
//vc:gen VG_ArrayArg
func VB_ArrayArg(typ, val string) {
	var want []byte
	n := 0
	ok := len(val) >= 2 && val[0] == '[' && val[len(val)-1] == ']'
	if ok && len(val) > 2 {
		for _, v := range strings.Split(val[1:len(val)-1], ",") {
			w, k := vcWordOf(typ, v)
			ok = ok && k
			want = append(want, w...)
			n++
		}
	}
	var a seth.EtherType
	refused := vc.Exits(func() { a = parsearg(typ+"[]", val) })
	may := strings.HasPrefix(typ, "bytes")
	vc.Ensures("malformed arrays are refused", func() bool { return ok || refused })
	vc.Ensures("proper arrays are accepted", func() bool { return !ok || may || !refused })
	if !refused {
		s, dyn := a.(seth.EtherSlice)
		vc.Ensures("an array", func() bool { return dyn })
		vc.Ensures("of its elements", func() bool { return s.Len() == n && vc.BytesEq(a.EncodeABI(nil), want) })
	}
}

func VG_BytesArg(r *vc.Rand) (string, string) {
	typ := r.Pick("string", "bytes")
	if typ == "bytes" {
		s := r.Pick("0x", "") + hex.EncodeToString(r.Data(70))
		if r.P(10) {
			s = s[r.Intn(len(s)+1):]
		}
		return typ, s
	}
	return typ, r.Str(70)
}

//vc:property C27
//vc:gen VG_BytesArg
func VB_BytesArg(typ, val string) {
	want, ok := []byte(val), true
	if typ == "bytes" {
		want, ok = vcUnhex(val)
	}
	var a seth.EtherType
	refused := vc.Exits(func() { a = parsearg(typ, val) })
	vc.Ensures("refused exactly when malformed", func() bool { return refused == !ok })
	if ok {
		s, dyn := a.(seth.EtherSlice)
		vc.Ensures("dynamic", func() bool { return dyn })
		enc := a.EncodeABI(nil)
		vc.Ensures("the bytes written", func() bool {
			return s.Len() == len(want) && len(enc) == (len(want)+31)/32*32 && vc.BytesEq(enc[:len(want)], want) &&
				vc.Forall(len(want), len(enc), func(i int) bool { return enc[i] == 0 })
		})
	}
}

func VG_BadType(r *vc.Rand) (string, string) {
	return r.Pick("int7", "uint", "int", "bytes0", "bytes33", "bytes01", "bytes+1", "uint8[3]", "uint8[][]", "string[]", "bytes[]", "", "[]", "bool[][]", "tuple", "int2560", "uint264", "bytes-1", "bytes3[x]", "function"),
		r.Pick("1", "0x01", "[1]", "[[1]]", "[]", "", "true", "[a]", "[[1],[2]]", "-1")
}

// VB_BadType: other types are refused, or at least do not crash the command.
//
//vc:property C27
//vc:gen VG_BadType
func VB_BadType(typ, val string) {
	vc.Exits(func() { parsearg(typ, val) })
}

func VG_Sig(r *vc.Rand) ([]string, []string) {
	var ts, vs []string
	for i := r.Intn(4); i > 0; i-- {
		t := vgElem(r)
		v := vgVal(r, t)
		if _, ok := vcWordOf(t, v); !ok {
			continue
		}
		ts, vs = append(ts, t), append(vs, v)
	}
	return ts, vs
}

//vc:property C27
//vc:gen VG_Sig
func VB_Sig(types, vals []string) {
	fn := "f(" + strings.Join(types, ",") + ")"
	var args []seth.EtherType
	refused := vc.Exits(func() { args = parsefn(nil, nil, fn, append([]string(nil), vals...)) })
	vc.Ensures("proper arguments are accepted", func() bool { return !refused && len(args) == len(types) })
	for i := range types {
		word, _ := vcWordOf(types[i], vals[i])
		vc.Ensures("each with its value", func() bool { return vc.BytesEq(args[i].EncodeABI(nil), word) })
	}
	if len(types) > 0 {
		refused = vc.Exits(func() { parsefn(nil, nil, fn, vals[:len(vals)-1]) })
		vc.Ensures("a missing argument is refused", func() bool { return refused })
	}
}

// ---- jump tables

var vcPreambles = []string{
	"6000357c0100000000000000000000000000000000000000000000000000000000900463ffffffff16",
	"63ffffffff6000357c0100000000000000000000000000000000000000000000000000000000900416",
	"63ffffffff7c01000000000000000000000000000000000000000000000000000000006000350416",
	"6000357c01000000000000000000000000000000000000000000000000000000009004",
	"63ffffffff60e060020a6000350416",
	"60e060020a60003504",
}

type vcJump struct {
	Head, Preamble, Tail []byte
	Entries              []vcJumpEntry
}

type vcJumpEntry struct {
	Sel   []byte
	Dest  []byte
	Form  bool
	Spoil int
}

func (e *vcJumpEntry) code() (c []byte) {
	if e.Form {
		c = append(append(append(c, 0x63), e.Sel...), 0x81, 0x14)
	} else {
		c = append(append(append(c, 0x80, 0x63), e.Sel...), 0x14)
	}
	c = append(append(append(c, 0x5f+byte(len(e.Dest))), e.Dest...), 0x57)
	if e.Spoil > 0 {
		c[(e.Spoil-1)%len(c)] ^= 0x21
	}
	return c
}

func VG_Jump(r *vc.Rand) *vcJump {
	j := &vcJump{Head: r.Bytes(r.Intn(20))}
	j.Preamble, _ = hex.DecodeString(vcPreambles[r.Intn(6)])
	for i := r.Intn(6); i > 0; i-- {
		e := vcJumpEntry{Sel: r.Bytes(4), Dest: r.Bytes(1 + r.Intn(2)), Form: r.Bool()}
		if r.P(20) {
			e.Dest = r.Bytes(1 + r.Intn(5))
		}
		if r.P(6) {
			e.Spoil = 1 + r.Intn(13)
		}
		j.Entries = append(j.Entries, e)
	}
	switch r.Intn(4) {
	case 0:
	case 1:
		e := vcJumpEntry{Sel: r.Bytes(4), Dest: r.Bytes(1 + r.Intn(4)), Form: r.Bool()}
		c := e.code()
		j.Tail = c[:r.Intn(len(c))]
	case 2:
		// the constants again, such as in an embedded contract
		j.Tail = append(r.Bytes(r.Intn(4)), j.Preamble...)
		for i := r.Intn(3); i > 0; i-- {
			e := vcJumpEntry{Sel: r.Bytes(4), Dest: r.Bytes(1 + r.Intn(2)), Form: r.Bool()}
			j.Tail = append(j.Tail, e.code()...)
		}
	default:
		j.Tail = r.Bytes(r.Intn(40))
	}
	return j
}

// vcDispatch reads the dispatch entries at the start of c
func vcDispatch(c []byte) (out []jmpentry) {
	for len(c) >= 10 {
		var e jmpentry
		switch {
		case c[0] == 0x63 && c[5] == 0x81 && c[6] == 0x14:
			copy(e.prefix[:], c[1:5])
		case c[0] == 0x80 && c[1] == 0x63 && c[6] == 0x14:
			copy(e.prefix[:], c[2:6])
		default:
			return
		}
		n := int(c[7]) - 0x5f
		if n < 1 || n > 4 || len(c) < 9+n || c[8+n] != 0x57 {
			return
		}
		for _, b := range c[8 : 8+n] {
			e.jmpdest = e.jmpdest<<8 | int(b)
		}
		out = append(out, e)
		c = c[9+n:]
	}
	return
}

//vc:property C28
//vc:gen VG_Jump
func VB_Jump(j *vcJump) {
	code := append(append([]byte(nil), j.Head...), j.Preamble...)
	for i := range j.Entries {
		code = append(code, j.Entries[i].code()...)
	}
	code = append(code, j.Tail...)
	// the first preamble, and no other one but for one that is part of it
	start := -1
	for _, p := range vcPreambles {
		b, _ := hex.DecodeString(p)
		if i := strings.Index(string(code), string(b)); i >= 0 {
			if start < 0 || len(b)+i > start {
				start = i + len(b)
			}
		}
	}
	want := vcDispatch(code[len(j.Head)+len(j.Preamble):])
	if start != len(j.Head)+len(j.Preamble) {
		vc.Assume(false)
	}
	code0 := vc.Snap(code)
	code = code[:len(code):len(code)]
	var got []jmpentry
	refused := vc.Exits(func() { got = jumpentries(code) })
	vc.Ensures("the preamble is recognised", func() bool { return !refused })
	vc.Ensures("the entries in order", func() bool {
		if len(got) != len(want) {
			return false
		}
		for i := range got {
			if got[i] != want[i] {
				return false
			}
		}
		return true
	})
	vc.Ensures("code unchanged", func() bool { return vc.BytesEq(code, code0) })
}

func VG_AnyCode(r *vc.Rand) []byte {
	var c []byte
	for i := r.Intn(8); i > 0; i-- {
		switch r.Intn(4) {
		case 0:
			p, _ := hex.DecodeString(vcPreambles[r.Intn(6)])
			c = append(c, p...)
		case 1:
			c = append(c, r.Bytes(r.Intn(14))...)
		default:
			e := vcJumpEntry{Sel: r.Bytes(4), Dest: r.Bytes(1 + r.Intn(5)), Form: r.Bool(), Spoil: r.Intn(15) * r.Intn(2)}
			c = append(c, e.code()...)
		}
	}
	if len(c) > 0 && r.P(50) {
		c = c[:r.Intn(len(c))]
	}
	return c
}

// VB_AnyCode: no code crashes the listing.
//
//vc:property C28
//vc:gen VG_AnyCode
func VB_AnyCode(code []byte) {
	code = code[:len(code):len(code)]
	any := false
	for _, p := range vcPreambles {
		b, _ := hex.DecodeString(p)
		any = any || strings.Contains(string(code), string(b))
	}
	var got []jmpentry
	refused := vc.Exits(func() { got = jumpentries(code) })
	vc.Ensures("refused exactly without a preamble", func() bool { return refused == !any })
	vc.Ensures("every entry is in the code", func() bool {
		for _, e := range got {
			if !strings.Contains(string(code), string(e.prefix[:])) {
				return false
			}
		}
		return true
	})
}
