package seth

import (
	"math/big"

	"github.com/philhofer/seth/internal/vc"
)

// C04, C05: ABI decoding

// vcWord is the integer at data[p:p+32].
func vcWord(data []byte, p int) *big.Int { return vc.BE(data[p : p+32]) }

// vcTailOK: the head word at p is the offset of a dynamic value inside data
// with elements of the given size
func vcTailOK(data []byte, p, size int) bool {
	off := vcWord(data, p)
	if vc.Lt(vc.I(int64(len(data))-32), off) {
		return false
	}
	o := int(off.Int64())
	n := vcWord(data, o)
	return vc.Le(n, vc.I(int64((len(data)-o-32)/size)))
}

// vcTail: position and count of the elements
func vcTail(data []byte, p int) (pos, n int) {
	o := int(vcWord(data, p).Int64())
	return o + 32, int(vcWord(data, o).Int64())
}

func vgHostile(r *vc.Rand) []byte {
	n := 32 * r.Intn(12)
	if r.P(30) {
		n += r.Intn(40)
	}
	b := make([]byte, n)
	for p := 0; p+32 <= n; p += 32 {
		switch r.Intn(8) {
		case 0: // an offset
			vc.I(int64(32 * r.Intn(12))).FillBytes(b[p : p+32])
		case 1:
			vc.I(int64(r.Intn(n + 40))).FillBytes(b[p : p+32])
		case 2, 3:
			vc.I(int64(r.Intn(5))).FillBytes(b[p : p+32])
		case 4:
			copy(b[p:p+32], r.Bytes(32))
		case 5:
			v := new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(256)))
			v.Add(v, vc.I(int64(r.Intn(n+40)-n)))
			v.Abs(v).FillBytes(b[p : p+32])
		case 6: // distance to the end
			vc.I(int64(n - 32*r.Intn(4))).FillBytes(b[p : p+32])
		default:
			vc.I(int64(p + 32)).FillBytes(b[p : p+32])
		}
	}
	return b
}

func VG_abitail(r *vc.Rand) ([]byte, *big.Int, int64, int64) {
	d := vgHostile(r)
	off := vc.I(int64(r.Intn(len(d) + 40)))
	if r.P(30) {
		off = r.Big(256, false)
	}
	return d, off, int64(r.Intn(100)), []int64{1, 32}[r.Intn(2)]
}

//vc:for abitail
//vc:property C04 C05
//vc:gen VG_abitail
func VC_abitail(data []byte, off *big.Int, min, size int64) {
	vc.Requires(vc.Le(vc.I(0), off) && vc.Lt(off, vc.Pow2(256)) && min >= 0 && (size == 1 || size == 32))
	vc.Modifies(off)
	off0 := vc.Copy(off)
	pos, length, err := abitail(data, off, min, size)
	ok := vc.Le(vc.I(min), off0) && vc.Le(off0, vc.I(int64(len(data))-32))
	vc.Ensures("a value that is inside the data is found", func() bool {
		return err == nil || !ok || vc.Lt(vc.I((int64(len(data))-off0.Int64()-32)/size), vcWord(data, int(off0.Int64())))
	})
	vc.Ensures("a value that is not inside the data is refused", func() bool { return ok || err != nil })
	vc.Ensures("position", func() bool { return err != nil || vc.Eq(vc.I(pos), vc.Add(off0, vc.I(32))) })
	vc.Ensures("position inside", func() bool { return err != nil || pos >= 32 && pos <= int64(len(data)) })
	vc.Ensures("length", func() bool { return err != nil || vc.Eq(vc.I(length), vcWord(data, int(pos)-32)) })
	vc.Ensures("inside", func() bool { return err != nil || length >= 0 && length <= (int64(len(data))-pos)/size })
}

// ---- one target of every kind, any data

//vc:property C04 C05
//vc:gen VG_Decode
func VT_Decode_Int(v []byte, t *Int, u *big.Int) {
	err := DecodeABI(v, t, u)
	vc.Assert("decodes exactly when both words are there", func() bool { return (err == nil) == (len(v) >= 64) })
	vc.Assert("first value", func() bool { return err != nil || vc.Eq((*big.Int)(t), vcWord(v, 0)) })
	vc.Assert("second value", func() bool { return err != nil || vc.Eq(u, vcWord(v, 32)) })
}

func VG_Decode(r *vc.Rand) ([]byte, *Int, *big.Int) {
	return vgHostile(r), (*Int)(r.Big(256, true)), r.Big(256, true)
}

//vc:property C04 C05
//vc:gen VG_Decode_Addr
func VT_Decode_AddrData(v []byte, t *Address, u *Data) {
	v0 := vc.Snap(v)
	err := DecodeABI(v, t, u)
	vc.Assert("decodes exactly when both words are there", func() bool { return (err == nil) == (len(v) >= 64) })
	vc.Assert("address", func() bool { return err != nil || vc.BytesEq(t[:], v0[12:32]) })
	vc.Assert("data", func() bool { return err != nil || vc.BytesEq(*u, v0[32:64]) })
	vc.Assert("data in storage of its own", func() bool { return vc.BytesEq(v, v0) })
}

func VG_Decode_Addr(r *vc.Rand) ([]byte, *Address, *Data) {
	d := Data(r.Bytes(r.Intn(40)))
	return vgHostile(r), VG_Address(r), &d
}

// low w bits of the word at p
func vcLow(v []byte, p int, w uint) *big.Int { return vc.Mod(vcWord(v, p), vc.Pow2(w)) }

//vc:property C04 C05
//vc:gen VG_Decode_uints
func VT_Decode_uints(v []byte, b *bool, t8 *uint8, t16 *uint16, t32 *uint32, t64 *uint64, t *uint) {
	err := DecodeABI(v, b, t8, t16, t32, t64, t)
	vc.Assert("decodes exactly when all words are there", func() bool { return (err == nil) == (len(v) >= 192) })
	vc.Assert("bool", func() bool { return err != nil || *b == !vc.IsZero(vcWord(v, 0)) })
	vc.Assert("uint8", func() bool { return err != nil || vc.Eq(vc.U(uint64(*t8)), vcLow(v, 32, 8)) })
	vc.Assert("uint16", func() bool { return err != nil || vc.Eq(vc.U(uint64(*t16)), vcLow(v, 64, 16)) })
	vc.Assert("uint32", func() bool { return err != nil || vc.Eq(vc.U(uint64(*t32)), vcLow(v, 96, 32)) })
	vc.Assert("uint64", func() bool { return err != nil || vc.Eq(vc.U(*t64), vcLow(v, 128, 64)) })
	vc.Assert("uint", func() bool { return err != nil || vc.Eq(vc.U(uint64(*t)), vcLow(v, 160, 64)) })
}

func VG_Decode_uints(r *vc.Rand) ([]byte, *bool, *uint8, *uint16, *uint32, *uint64, *uint) {
	d := vgHostile(r)
	if r.Bool() {
		d = r.Bytes(192 + r.Intn(3))
	}
	return d, new(bool), new(uint8), new(uint16), new(uint32), new(uint64), new(uint)
}

// a signed target of w bits holds the low w bits as two's complement
func vcSigned(x int64, v []byte, p int, w uint) bool {
	return vc.EqMod(vc.I(x), vcWord(v, p), vc.Pow2(w))
}

//vc:property C04 C05
//vc:gen VG_Decode_ints
func VT_Decode_ints(v []byte, t8 *int8, t16 *int16, t32 *int32, t64 *int64, t *int) {
	err := DecodeABI(v, t8, t16, t32, t64, t)
	vc.Assert("decodes exactly when all words are there", func() bool { return (err == nil) == (len(v) >= 160) })
	vc.Assert("int8", func() bool { return err != nil || vcSigned(int64(*t8), v, 0, 8) })
	vc.Assert("int16", func() bool { return err != nil || vcSigned(int64(*t16), v, 32, 16) })
	vc.Assert("int32", func() bool { return err != nil || vcSigned(int64(*t32), v, 64, 32) })
	vc.Assert("int64", func() bool { return err != nil || vcSigned(*t64, v, 96, 64) })
	vc.Assert("int", func() bool { return err != nil || vcSigned(int64(*t), v, 128, 64) })
}

func VG_Decode_ints(r *vc.Rand) ([]byte, *int8, *int16, *int32, *int64, *int) {
	d := vgHostile(r)
	if r.Bool() {
		d = r.Bytes(160 + r.Intn(3))
	}
	return d, new(int8), new(int16), new(int32), new(int64), new(int)
}

// vcAccepted: the result agrees with what the head word at p says: nothing
// outside the data is accepted and nothing inside it, behind the head words,
// is refused
func vcAccepted(err error, v []byte, p, head, size int) bool {
	if !vcTailOK(v, p, size) {
		return err != nil
	}
	return err == nil || vc.Lt(vcWord(v, p), vc.I(int64(head)))
}

func vcIsTail(got, v []byte, p int) bool {
	pos, n := vcTail(v, p)
	return len(got) == n && vc.BytesEq(got, v[pos:pos+n])
}

//vc:property C04 C05
//vc:gen VG_Decode_bytes
func VT_Decode_string(v []byte, s *string) {
	err := DecodeABI(v, s)
	vc.Assert("accepted", func() bool { return len(v) < 32 && err != nil || len(v) >= 32 && vcAccepted(err, v, 0, 32, 1) })
	vc.Assert("value", func() bool { return err != nil || vcIsTail([]byte(*s), v, 0) })
}
func VG_Decode_bytes(r *vc.Rand) ([]byte, *string) { s := r.Str(10); return vgHostile(r), &s }

//vc:property C04 C05
//vc:gen VG_Decode_bytes2
func VT_Decode_bytes(v []byte, s *[]byte) {
	v0 := vc.Snap(v)
	err := DecodeABI(v, s)
	vc.Assert("accepted", func() bool { return len(v) < 32 && err != nil || len(v) >= 32 && vcAccepted(err, v, 0, 32, 1) })
	vc.Assert("value", func() bool { return err != nil || vcIsTail(*s, v0, 0) })
	vc.Assert("data unchanged", func() bool { return vc.BytesEq(v, v0) })
}
func VG_Decode_bytes2(r *vc.Rand) ([]byte, *[]byte) { s := r.Data(10); return vgHostile(r), &s }

//vc:property C04 C05
//vc:gen VG_Decode_Bytes
func VT_Decode_Bytes(v []byte, w *Address, s *Bytes) {
	v0 := vc.Snap(v)
	err := DecodeABI(v, w, s)
	vc.Assert("accepted", func() bool { return len(v) < 64 && err != nil || len(v) >= 64 && vcAccepted(err, v, 32, 64, 1) })
	vc.Assert("value", func() bool { return err != nil || vcIsTail(*s, v0, 32) })
}
func VG_Decode_Bytes(r *vc.Rand) ([]byte, *Address, *Bytes) {
	s := Bytes(r.Data(10))
	return vgHostile(r), new(Address), &s
}

func VI_DecodeInts(w []Int, j int, v []byte, dpos int64) bool {
	return vc.Forall(0, j+1, func(q int) bool { return vc.Eq((*big.Int)(&w[q]), vcWord(v, int(dpos)+32*q)) })
}

//vc:property C04 C05
//vc:gen VG_Decode_IntSlice
func VT_Decode_IntSlice(v []byte, s *IntSlice) {
	err := DecodeABI(v, s)
	vc.Assert("accepted", func() bool { return len(v) < 32 && err != nil || len(v) >= 32 && vcAccepted(err, v, 0, 32, 32) })
	vc.Assert("value", func() bool {
		if err != nil {
			return true
		}
		pos, n := vcTail(v, 0)
		return len(*s) == n && vc.Forall(0, n, func(q int) bool { return vc.Eq((*big.Int)(&(*s)[q]), vcWord(v, pos+32*q)) })
	})
}
func VG_Decode_IntSlice(r *vc.Rand) ([]byte, *IntSlice) { return vgHostile(r), new(IntSlice) }

func VI_DecodeAddrs(w []Address, j int, v []byte, dpos int64) bool {
	return vc.Forall(0, 20*(j+1), func(q int) bool { return w[q/20][q%20] == v[int(dpos)+32*(q/20)+12+q%20] })
}

//vc:property C04 C05
//vc:gen VG_Decode_AddrSlice
func VT_Decode_AddrSlice(v []byte, s *AddrSlice) {
	err := DecodeABI(v, s)
	vc.Assert("accepted", func() bool { return len(v) < 32 && err != nil || len(v) >= 32 && vcAccepted(err, v, 0, 32, 32) })
	vc.Assert("value", func() bool {
		if err != nil {
			return true
		}
		pos, n := vcTail(v, 0)
		return len(*s) == n && vc.Forall(0, 20*n, func(q int) bool { return (*s)[q/20][q%20] == v[pos+32*(q/20)+12+q%20] })
	})
}
func VG_Decode_AddrSlice(r *vc.Rand) ([]byte, *AddrSlice) { return vgHostile(r), new(AddrSlice) }

// ---- lists of targets (bounded: executed)

func vgTarget(r *vc.Rand, k int) interface{} {
	switch k {
	case 0:
		d := Data(r.Bytes(r.Intn(40)))
		return &d
	case 1:
		return VG_Address(r)
	case 2:
		return (*Int)(r.Big(256, true))
	case 3:
		return r.Big(256, true)
	case 4:
		s := r.Str(20)
		return &s
	case 5:
		b := r.Data(40)
		return &b
	case 6:
		b := Bytes(r.Data(40))
		return &b
	case 7:
		s, _ := VG_AppendInts(r)
		return s
	case 8:
		s, _ := VG_AppendAddrs(r)
		return s
	case 9:
		s, _ := VG_AppendDatas(r)
		return s
	case 10:
		return new(bool)
	case 11:
		return new(uint8)
	case 12:
		return new(uint16)
	case 13:
		return new(uint32)
	case 14:
		return new(uint64)
	case 15:
		return new(int8)
	case 16:
		return new(int16)
	case 17:
		return new(int32)
	case 18:
		return new(int64)
	case 19:
		return new(int)
	case 20:
		return new(uint)
	}
	return new(float64)
}

const vcBadTarget = 21

// vgPlaced makes data in which the dynamic targets usually are in place
func vgPlaced(r *vc.Rand, ks []int) []byte {
	head := make([]byte, 32*len(ks))
	var tail []byte
	for i, k := range ks {
		w := head[32*i : 32*i+32]
		if k < 4 || k > 9 {
			copy(w, r.Bytes(32))
			continue
		}
		vc.I(int64(len(head) + len(tail))).FillBytes(w)
		n := r.Intn(5)
		if k < 7 {
			n = r.Intn(70)
		}
		cw := make([]byte, 32)
		vc.I(int64(n)).FillBytes(cw)
		tail = append(tail, cw...)
		sz := 32 * n
		if k < 7 {
			sz = n
			if r.P(80) {
				sz = vcPad(n)
			}
		}
		tail = append(tail, r.Bytes(sz)...)
	}
	v := append(head, tail...)
	switch r.Intn(6) {
	case 0:
		if len(v) > 0 {
			v = v[:r.Intn(len(v))]
		}
	case 1:
		for n := r.Intn(3); n >= 0 && len(v) >= 32; n-- {
			copy(v[r.Intn(len(v)/32)*32:][:32], vgHostileWord(r, len(v)))
		}
	case 2:
		v = append(v, r.Bytes(r.Intn(40))...)
	}
	// cap == len: reads beyond the data are out of bounds
	return v[:len(v):len(v)]
}

func vgHostileWord(r *vc.Rand, n int) []byte {
	w := make([]byte, 32)
	v := new(big.Int)
	switch r.Intn(5) {
	case 0:
		v.Lsh(vc.I(1), uint(r.Intn(256)))
		v.Add(v, vc.I(int64(r.Intn(n+64)-n-32)))
	case 1:
		v.SetUint64(-uint64(r.Intn(n + 64)))
	case 2:
		v.SetUint64(uint64(1)<<63 - uint64(r.Intn(n+64)))
	case 3:
		v.SetInt64(int64(r.Intn(n + 64)))
	case 4:
		v.SetUint64((uint64(1)<<59)*uint64(r.Intn(32)) + uint64(r.Intn(40)))
	}
	if v.Sign() < 0 {
		v.Neg(v)
	}
	v.And(v, new(big.Int).Sub(vc.Pow2(256), vc.I(1)))
	v.FillBytes(w)
	return w
}

func VG_DecodeList(r *vc.Rand) ([]byte, []int) {
	n := r.Intn(6)
	if r.P(5) {
		n += 8
	}
	ks := make([]int, n)
	for i := range ks {
		ks[i] = r.Intn(vcBadTarget)
		if r.P(40) {
			ks[i] = 4 + r.Intn(6)
		}
		if r.P(1) {
			ks[i] = vcBadTarget
		}
	}
	if r.P(25) {
		v := vgHostile(r)
		return v[:len(v):len(v)], ks
	}
	return vgPlaced(r, ks), ks
}

// vcTargetIs compares target t of kind k with what the data says at word i
func vcTargetIs(t interface{}, v []byte, i int) bool {
	p := 32 * i
	w := vcWord(v, p)
	low := func(bits uint) uint64 { return vc.Mod(w, vc.Pow2(bits)).Uint64() }
	elems := func(size int) (pos, n int, ok bool) {
		if !vcTailOK(v, p, size) {
			return 0, 0, false
		}
		pos, n = vcTail(v, p)
		return pos, n, true
	}
	switch t := t.(type) {
	case *Data:
		return vc.BytesEq(*t, v[p:p+32])
	case *Address:
		return vc.BytesEq(t[:], v[p+12:p+32])
	case *Int:
		return vc.Eq((*big.Int)(t), w)
	case *big.Int:
		return vc.Eq(t, w)
	case *string:
		pos, n, ok := elems(1)
		return ok && *t == string(v[pos:pos+n])
	case *[]byte:
		pos, n, ok := elems(1)
		return ok && cap(*t) <= 2*len(v)+64 && vc.BytesEq(*t, v[pos:pos+n])
	case *Bytes:
		pos, n, ok := elems(1)
		return ok && cap(*t) <= 2*len(v)+64 && vc.BytesEq(*t, v[pos:pos+n])
	case *IntSlice:
		pos, n, ok := elems(32)
		return ok && len(*t) == n && cap(*t) <= len(v)/16+8 && vc.Forall(0, n, func(q int) bool { return vc.Eq((*big.Int)(&(*t)[q]), vcWord(v, pos+32*q)) })
	case *AddrSlice:
		pos, n, ok := elems(32)
		return ok && len(*t) == n && cap(*t) <= len(v)/16+8 && vc.Forall(0, n, func(q int) bool { return vc.BytesEq((*t)[q][:], v[pos+32*q+12:pos+32*q+32]) })
	case *DataSlice:
		pos, n, ok := elems(32)
		return ok && len(*t) == n && cap(*t) <= len(v)/16+8 && vc.Forall(0, n, func(q int) bool { return vc.BytesEq((*t)[q], v[pos+32*q:pos+32*q+32]) })
	case *bool:
		return *t == !vc.IsZero(w)
	case *uint8:
		return *t == uint8(low(8))
	case *uint16:
		return *t == uint16(low(16))
	case *uint32:
		return *t == uint32(low(32))
	case *uint64:
		return *t == low(64)
	case *uint:
		return *t == uint(low(64))
	case *int8:
		return *t == int8(low(8))
	case *int16:
		return *t == int16(low(16))
	case *int32:
		return *t == int32(low(32))
	case *int64:
		return *t == int64(low(64))
	case *int:
		return *t == int(low(64))
	}
	return false
}

// vcMustDecode: every target is inside the data, dynamic ones behind the head
func vcMustDecode(v []byte, ks []int) bool {
	if len(v) < 32*len(ks) {
		return false
	}
	for i, k := range ks {
		size := 1
		switch {
		case k == vcBadTarget:
			return false
		case k < 4 || k > 9:
			continue
		case k >= 7:
			size = 32
		}
		if !vcTailOK(v, 32*i, size) || vc.Lt(vcWord(v, 32*i), vc.I(int64(32*len(ks)))) {
			return false
		}
	}
	return true
}

//vc:property C04 C05
//vc:gen VG_DecodeList
func VB_DecodeList(v []byte, ks []int) {
	r := &vc.Rand{}
	var ts []interface{}
	for i := range ks {
		ts = append(ts, vgTarget(r, ks[i]))
	}
	v0 := vc.Snap(v)
	err := DecodeABI(v, ts...)
	vc.Ensures("what is inside the data is decoded", func() bool { return err == nil || !vcMustDecode(v0, ks) })
	vc.Ensures("data unchanged", func() bool { return vc.BytesEq(v, v0) })
	for i := range v { // the targets have storage of their own
		v[i] ^= 0xa5
	}
	vc.Ensures("targets", func() bool {
		return err != nil || len(v0) >= 32*len(ks) && vc.Forall(0, len(ks), func(i int) bool { return vcTargetIs(ts[i], v0, i) })
	})
	// the same through the text interface
	var us []interface{}
	for i := range ks {
		us = append(us, vgTarget(r, ks[i]))
	}
	err2 := NewABIDecoder(us...).UnmarshalText([]byte(hexstring(v0, false)))
	vc.Ensures("text interface agrees", func() bool { return len(v0) == 0 || (err == nil) == (err2 == nil) })
	vc.Ensures("text targets", func() bool {
		return err2 != nil || vc.Forall(0, len(ks), func(i int) bool { return vcTargetIs(us[i], v0, i) })
	})
}

// every encoding decodes to the encoded values
//
//vc:property C05
//vc:gen VG_typecheck
func VB_RoundTrip(f string, args []EtherType) {
	out := ABIEncode(f, args...)
	var ts []interface{}
	for _, a := range args {
		switch a.(type) {
		case *Address:
			ts = append(ts, new(Address))
		case *Int:
			ts = append(ts, new(Int))
		case *Data:
			ts = append(ts, new(Data))
		case *Bytes:
			ts = append(ts, new(Bytes))
		case *IntSlice:
			ts = append(ts, new(IntSlice))
		case *AddrSlice:
			ts = append(ts, new(AddrSlice))
		case *DataSlice:
			ts = append(ts, new(DataSlice))
		}
	}
	err := DecodeABI(out[4:], ts...)
	vc.Ensures("decodes", func() bool { return err == nil })
	word := func(i *Int) *big.Int { return vc.Mod((*big.Int)(i), vc.Pow2(256)) }
	padded := func(d Data) Data { return append(append(Data(nil), d...), make([]byte, 32-len(d))...) }
	for i, a := range args {
		t := ts[i]
		vc.Ensures("same value", func() bool {
			switch a := a.(type) {
			case *Address:
				return *a == *t.(*Address)
			case *Int:
				return vc.Eq(word(a), (*big.Int)(t.(*Int)))
			case *Data:
				return vc.BytesEq(padded(*a), *t.(*Data))
			case *Bytes:
				return vc.BytesEq(*a, *t.(*Bytes))
			case *IntSlice:
				u := *t.(*IntSlice)
				return len(u) == len(*a) && vc.Forall(0, len(u), func(q int) bool { return vc.Eq(word(&(*a)[q]), (*big.Int)(&u[q])) })
			case *AddrSlice:
				u := *t.(*AddrSlice)
				return len(u) == len(*a) && vc.Forall(0, len(u), func(q int) bool { return u[q] == (*a)[q] })
			case *DataSlice:
				u := *t.(*DataSlice)
				return len(u) == len(*a) && vc.Forall(0, len(u), func(q int) bool { return vc.BytesEq(padded((*a)[q]), u[q]) })
			}
			return false
		})
	}
}
