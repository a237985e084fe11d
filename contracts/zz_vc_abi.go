package seth

import (
	"math/big"

	"github.com/philhofer/seth/internal/vc"
)

// C03: ABI encoding

func vcZero(b []byte) bool { return vc.Forall(0, len(b), func(i int) bool { return b[i] == 0 }) }

// vcGrown: out is v followed by n more bytes
func vcGrown(out, v []byte, n int) bool {
	return len(out) == len(v)+n && vc.BytesEq(out[:len(v)], v)
}

func VG_AppendAddr(r *vc.Rand) (*Address, []byte) { return VG_Address(r), r.Data(70) }

//vc:for Address.EncodeABI
//vc:consumes v
//vc:property C03
//vc:gen VG_AppendAddr
func VC_Address_EncodeABI(a *Address, v []byte) {
	vc.Modifies(v[len(v):cap(v)])
	v0 := vc.Snap(v)
	out := a.EncodeABI(v)
	vc.Ensures("appends one word", func() bool { return vcGrown(out, v0, 32) })
	vc.Ensures("left padding", func() bool { return vcZero(out[len(v0) : len(v0)+12]) })
	vc.Ensures("address", func() bool { return vc.BytesEq(out[len(v0)+12:], a[:]) })
}

// vcInWord: v has a 256-bit representation
func vcInWord(v *big.Int) bool {
	return vc.Le(vc.Neg(vc.Pow2(255)), v) && vc.Lt(v, vc.Pow2(256))
}

// vcWordByte: byte k of the 256-bit two's complement word of v
func vcWordByte(v *big.Int, k int) byte { return vc.Byte(vc.Mod(v, vc.Pow2(256)), 31-k) }

// vcWordIs: the word at out[p:] is v as 256-bit two's complement
func vcWordIs(out []byte, p int, v *big.Int) bool {
	return vc.Eq(vc.BE(out[p:p+32]), vc.Mod(v, vc.Pow2(256)))
}

func VG_AppendInt(r *vc.Rand) (*Int, []byte) {
	i := r.Big(256, true)
	if i.Sign() < 0 {
		i.Rsh(i, 1)
	}
	return (*Int)(i), r.Data(70)
}

//vc:for Int.EncodeABI
//vc:consumes v
//vc:property C03
//vc:gen VG_AppendInt
func VC_Int_EncodeABI(i *Int, v []byte) {
	vc.Requires(vcInWord((*big.Int)(i)))
	vc.Modifies(v[len(v):cap(v)])
	v0 := vc.Snap(v)
	out := i.EncodeABI(v)
	vc.Ensures("appends one word", func() bool { return vcGrown(out, v0, 32) })
	vc.Ensures("two's complement", func() bool { return vcWordIs(out, len(v0), (*big.Int)(i)) })
	vc.Ensures("two's complement bytes", func() bool {
		return vc.Forall(0, 32, func(k int) bool { return out[len(v0)+k] == vcWordByte((*big.Int)(i), k) })
	})
}

func VG_AppendData(r *vc.Rand) (*Data, []byte) {
	d := Data(r.Bytes(r.Intn(33)))
	return &d, r.Data(70)
}

//vc:for Data.EncodeABI
//vc:consumes v
//vc:property C03
//vc:gen VG_AppendData
func VC_Data_EncodeABI(d *Data, v []byte) {
	vc.Requires(len(*d) <= 32)
	vc.Modifies(v[len(v):cap(v)])
	v0 := vc.Snap(v)
	out := d.EncodeABI(v)
	vc.Ensures("appends one word", func() bool { return vcGrown(out, v0, 32) })
	vc.Ensures("data", func() bool { return vc.BytesEq(out[len(v0):len(v0)+len(*d)], *d) })
	vc.Ensures("right padding", func() bool { return vcZero(out[len(v0)+len(*d):]) })
}

func vcPad(n int) int { return (n + 31) / 32 * 32 }

func VG_AppendBytes(r *vc.Rand) (*Bytes, []byte) {
	d := Bytes(r.Data(100))
	return &d, r.Data(70)
}

//vc:for Bytes.EncodeABI
//vc:consumes v
//vc:property C03
//vc:gen VG_AppendBytes
func VC_Bytes_EncodeABI(b *Bytes, v []byte) {
	vc.Modifies(v[len(v):cap(v)])
	v0 := vc.Snap(v)
	out := b.EncodeABI(v)
	vc.Ensures("appends whole words", func() bool { return vcGrown(out, v0, vcPad(len(*b))) })
	vc.Ensures("data", func() bool { return vc.BytesEq(out[len(v0):len(v0)+len(*b)], *b) })
	vc.Ensures("right padding", func() bool { return vcZero(out[len(v0)+len(*b):]) })
}

func VG_padint(r *vc.Rand) (int, []byte) { return int(r.Uint64() >> 1), r.Data(70) }

//vc:for padint
//vc:consumes v
//vc:property C03
//vc:gen VG_padint
func VC_padint(i int, v []byte) {
	vc.Requires(i >= 0)
	vc.Modifies(v[len(v):cap(v)])
	v0 := vc.Snap(v)
	out := padint(i, v)
	vc.Ensures("appends one word", func() bool { return vcGrown(out, v0, 32) })
	vc.Ensures("value", func() bool { return vcWordIs(out, len(v0), vc.I(int64(i))) })
}

//vc:for padright
//vc:property C03
//vc:gen VG_padright
func VC_padright(b []byte) {
	out := padright(b)
	vc.Ensures("whole words", func() bool { return len(out) == vcPad(len(b)) })
	vc.Ensures("data", func() bool { return vc.BytesEq(out[:len(b)], b) })
	vc.Ensures("right padding", func() bool { return vcZero(out[len(b):]) })
}
func VG_padright(r *vc.Rand) []byte { return r.Data(100) }

// ---- lists

func VG_AppendAddrs(r *vc.Rand) (*AddrSlice, []byte) {
	var a AddrSlice
	for n := r.Intn(5); n > 0; n-- {
		a = append(a, *VG_Address(r))
	}
	return &a, r.Data(70)
}

// vcAddrByte: byte p of the encoded address list
func vcAddrByte(a []Address, p int) byte {
	if p%32 < 12 {
		return 0
	}
	return a[p/32][p%32-12]
}

//vc:in VC_AddrSlice_EncodeABI
func VI_AddrSlice1(w, v0 []byte, j int) bool {
	return len(w) == len(v0)+32*(j+1) && j >= -1
}

//vc:in VC_AddrSlice_EncodeABI
func VI_AddrSlice2(w, v0 []byte, j int) bool {
	return len(w) >= len(v0) && vc.BytesEq(w[:len(v0)], v0)
}

//vc:in VC_AddrSlice_EncodeABI
func VI_AddrSlice3(w, v0 []byte, a *AddrSlice, j int) bool {
	return len(w) == len(v0)+32*(j+1) && vc.Forall(0, 32*(j+1), func(p int) bool { return w[len(v0)+p] == vcAddrByte(*a, p) })
}

//vc:for AddrSlice.EncodeABI
//vc:consumes v
//vc:property C03
//vc:gen VG_AppendAddrs
func VC_AddrSlice_EncodeABI(a *AddrSlice, v []byte) {
	vc.Modifies(v[len(v):cap(v)])
	v0 := vc.Snap(v)
	vc.Ghost("v0", v0)
	out := a.EncodeABI(v)
	vc.Ensures("appends one word per element", func() bool { return vcGrown(out, v0, 32*len(*a)) })
	vc.Ensures("elements in order", func() bool {
		return vc.Forall(0, 32*len(*a), func(p int) bool { return out[len(v0)+p] == vcAddrByte(*a, p) })
	})
}

func VG_AppendInts(r *vc.Rand) (*IntSlice, []byte) {
	var a IntSlice
	for n := r.Intn(5); n > 0; n-- {
		i, _ := VG_AppendInt(r)
		a = append(a, *i)
	}
	return &a, r.Data(70)
}

//vc:in VC_IntSlice_EncodeABI
func VI_IntSlice1(w, v0 []byte, j int) bool {
	return len(w) == len(v0)+32*(j+1) && j >= -1
}

//vc:in VC_IntSlice_EncodeABI
func VI_IntSlice2(w, v0 []byte, j int) bool {
	return len(w) >= len(v0) && vc.BytesEq(w[:len(v0)], v0)
}

//vc:in VC_IntSlice_EncodeABI
func VI_IntSlice3(w, v0 []byte, i *IntSlice, j int) bool {
	return len(w) == len(v0)+32*(j+1) && vc.Forall(0, 32*(j+1), func(p int) bool { return w[len(v0)+p] == vcWordByte((*big.Int)(&(*i)[p/32]), p%32) })
}

//vc:for IntSlice.EncodeABI
//vc:consumes v
//vc:property C03
//vc:gen VG_AppendInts
func VC_IntSlice_EncodeABI(i *IntSlice, v []byte) {
	vc.Requires(vc.Forall(0, len(*i), func(q int) bool { return vcInWord((*big.Int)(&(*i)[q])) }))
	vc.Modifies(v[len(v):cap(v)])
	v0 := vc.Snap(v)
	vc.Ghost("v0", v0)
	out := i.EncodeABI(v)
	vc.Ensures("appends one word per element", func() bool { return vcGrown(out, v0, 32*len(*i)) })
	vc.Ensures("elements in order", func() bool {
		return vc.Forall(0, 32*len(*i), func(p int) bool { return out[len(v0)+p] == vcWordByte((*big.Int)(&(*i)[p/32]), p%32) })
	})
}

func VG_AppendDatas(r *vc.Rand) (*DataSlice, []byte) {
	var a DataSlice
	for n := r.Intn(5); n > 0; n-- {
		i, _ := VG_AppendData(r)
		a = append(a, *i)
	}
	return &a, r.Data(70)
}

// vcDataByte: byte p of the encoded list of byte strings
func vcDataByte(a []Data, p int) byte {
	if p%32 >= len(a[p/32]) {
		return 0
	}
	return a[p/32][p%32]
}

//vc:in VC_DataSlice_EncodeABI
func VI_DataSlice1(w, v0 []byte, j int) bool {
	return len(w) == len(v0)+32*(j+1) && j >= -1
}

//vc:in VC_DataSlice_EncodeABI
func VI_DataSlice2(w, v0 []byte, j int) bool {
	return len(w) >= len(v0) && vc.BytesEq(w[:len(v0)], v0)
}

//vc:in VC_DataSlice_EncodeABI
func VI_DataSlice3(w, v0 []byte, d *DataSlice, j int) bool {
	return len(w) == len(v0)+32*(j+1) && vc.Forall(0, 32*(j+1), func(p int) bool { return w[len(v0)+p] == vcDataByte(*d, p) })
}

//vc:for DataSlice.EncodeABI
//vc:consumes v
//vc:property C03
//vc:gen VG_AppendDatas
func VC_DataSlice_EncodeABI(d *DataSlice, v []byte) {
	vc.Requires(vc.Forall(0, len(*d), func(q int) bool { return len((*d)[q]) <= 32 }))
	vc.Modifies(v[len(v):cap(v)])
	v0 := vc.Snap(v)
	vc.Ghost("v0", v0)
	out := d.EncodeABI(v)
	vc.Ensures("appends one word per element", func() bool { return vcGrown(out, v0, 32*len(*d)) })
	vc.Ensures("elements in order", func() bool {
		return vc.Forall(0, 32*len(*d), func(p int) bool { return out[len(v0)+p] == vcDataByte(*d, p) })
	})
}

// ---- calls

// vcSplit splits the type list of a signature.
func vcSplit(s string) []string {
	var r []string
	cur := ""
	for i := 0; i < len(s); i++ {
		if s[i] == ',' {
			r = append(r, cur)
			cur = ""
			continue
		}
		cur += string(s[i : i+1])
	}
	return append(r, cur)
}

func vcKindName(a EtherType) string {
	switch a := a.(type) {
	case *Address:
		return "address"
	case *Int:
		return "uint256"
	case *Data:
		return "bytes32"
	case *Bytes:
		_ = a
		return "bytes"
	case *IntSlice:
		return "uint256[]"
	case *AddrSlice:
		return "address[]"
	case *DataSlice:
		return "bytes32[]"
	}
	return "?"
}

func vcSignature(name string, args []EtherType) string {
	f := name + "("
	for i, a := range args {
		if i > 0 {
			f += ","
		}
		f += vcKindName(a)
	}
	return f + ")"
}

func vgArg(r *vc.Rand, k int) EtherType {
	switch k {
	case 0:
		return VG_Address(r)
	case 1:
		i, _ := VG_AppendInt(r)
		return i
	case 2:
		d, _ := VG_AppendData(r)
		return d
	case 3:
		b, _ := VG_AppendBytes(r)
		return b
	case 4:
		l, _ := VG_AppendInts(r)
		return l
	case 5:
		l, _ := VG_AppendAddrs(r)
		return l
	}
	l, _ := VG_AppendDatas(r)
	return l
}

func vgArgs(r *vc.Rand) []EtherType {
	n := r.Intn(6)
	if r.P(5) {
		n += 12
	}
	var args []EtherType
	for i := 0; i < n; i++ {
		args = append(args, vgArg(r, r.Intn(7)))
	}
	return args
}

func VG_typecheck(r *vc.Rand) (string, []EtherType) {
	a := vgArgs(r)
	return vcSignature(r.Pick("f", "transfer", "_x1"), a), a
}

// typecheck accepts matching signatures (assumed by the proofs below, whose
// callers never mismatch; the function has no effect but to panic).
//
//vc:for typecheck
//vc:property C03
//vc:gen VG_typecheck
func VB_typecheck(f string, args []EtherType) {
	typecheck(f, args)
}

// vcEncode is the reference encoder: head words, then tails.
func vcEncode(args []EtherType) []byte {
	var head, tail []byte
	word := func(v *big.Int) []byte {
		w := make([]byte, 32)
		for i := range w {
			w[i] = vcWordByte(v, i)
		}
		return w
	}
	for _, a := range args {
		var t []byte
		n := -1
		switch a := a.(type) {
		case *Address:
			head = append(append(head, make([]byte, 12)...), a[:]...)
		case *Int:
			head = append(head, word((*big.Int)(a))...)
		case *Data:
			w := make([]byte, 32)
			copy(w, *a)
			head = append(head, w...)
		case *Bytes:
			n = len(*a)
			t = append(t, *a...)
			for len(t)%32 != 0 {
				t = append(t, 0)
			}
		case *IntSlice:
			n = len(*a)
			for i := range *a {
				t = append(t, word((*big.Int)(&(*a)[i]))...)
			}
		case *AddrSlice:
			n = len(*a)
			for i := range *a {
				t = append(append(t, make([]byte, 12)...), (*a)[i][:]...)
			}
		case *DataSlice:
			n = len(*a)
			for i := range *a {
				w := make([]byte, 32)
				copy(w, (*a)[i])
				t = append(t, w...)
			}
		}
		if n >= 0 {
			head = append(head, word(vc.I(int64(32*len(args)+len(tail))))...)
			tail = append(append(tail, word(vc.I(int64(n)))...), t...)
		}
	}
	return append(head, tail...)
}

// any list of arguments (bounded: executed on generated lists)
//
//vc:property C03
//vc:gen VG_typecheck
func VB_ABIEncode(f string, args []EtherType) {
	want := vcEncode(args)
	h := vc.Keccak([]byte(f))
	out := ABIEncode(f, args...)
	vc.Ensures("selector", func() bool { return len(out) >= 4 && vc.BytesEq(out[:4], h[:4]) })
	vc.Ensures("head and tails", func() bool { return vc.BytesEq(out[4:], want) })
	var c CallOpts
	c.EncodeCall(f, args...)
	vc.Ensures("EncodeCall", func() bool { return vc.BytesEq(c.Data, out) })
}

// ---- every pair of argument kinds, of any size

// vcPick makes an argument of kind k out of the arbitrary values given.
func vcPick(k int, a *Address, i *Int, d *Data, b *Bytes, is *IntSlice, as *AddrSlice, ds *DataSlice) EtherType {
	switch k {
	case 0:
		return a
	case 1:
		return i
	case 2:
		return d
	case 3:
		return b
	case 4:
		return is
	case 5:
		return as
	}
	return ds
}

func vcDynamic(k int) bool { return k >= 3 }

// vcTailLen: bytes of the tail of argument e of kind k
func vcTailLen(k int, b *Bytes, is *IntSlice, as *AddrSlice, ds *DataSlice) int {
	switch k {
	case 3:
		return 32 + vcPad(len(*b))
	case 4:
		return 32 + 32*len(*is)
	case 5:
		return 32 + 32*len(*as)
	case 6:
		return 32 + 32*len(*ds)
	}
	return 0
}

func vcCount(k int, b *Bytes, is *IntSlice, as *AddrSlice, ds *DataSlice) int {
	switch k {
	case 3:
		return len(*b)
	case 4:
		return len(*is)
	case 5:
		return len(*as)
	}
	return len(*ds)
}

// vcStaticAt: the word at out[p:] is the static argument of kind k
func vcStaticAt(out []byte, p, k int, a *Address, i *Int, d *Data) bool {
	switch k {
	case 0:
		return vcZero(out[p:p+12]) && vc.BytesEq(out[p+12:p+32], a[:])
	case 1:
		return vc.Forall(0, 32, func(q int) bool { return out[p+q] == vcWordByte((*big.Int)(i), q) })
	}
	return vc.BytesEq(out[p:p+len(*d)], *d) && vcZero(out[p+len(*d):p+32])
}

// vcTailAt: the elements at out[p:] are those of the dynamic argument
func vcTailAt(out []byte, p, k int, b *Bytes, is *IntSlice, as *AddrSlice, ds *DataSlice) bool {
	switch k {
	case 3:
		return vc.BytesEq(out[p:p+len(*b)], *b) && vcZero(out[p+len(*b):p+vcPad(len(*b))])
	case 4:
		return vc.Forall(0, 32*len(*is), func(q int) bool { return out[p+q] == vcWordByte((*big.Int)(&(*is)[q/32]), q%32) })
	case 5:
		return vc.Forall(0, 32*len(*as), func(q int) bool { return out[p+q] == vcAddrByte(*as, q) })
	}
	return vc.Forall(0, 32*len(*ds), func(q int) bool { return out[p+q] == vcDataByte(*ds, q) })
}

func vcOKArgs(i *Int, d *Data, is *IntSlice, ds *DataSlice) bool {
	return vcInWord((*big.Int)(i)) && len(*d) <= 32 &&
		vc.Forall(0, len(*is), func(q int) bool { return vcInWord((*big.Int)(&(*is)[q])) }) &&
		vc.Forall(0, len(*ds), func(q int) bool { return len((*ds)[q]) <= 32 })
}

type vcArgTuple struct {
	a  *Address
	i  *Int
	d  *Data
	b  *Bytes
	is *IntSlice
	as *AddrSlice
	ds *DataSlice
}

func vgTuple(r *vc.Rand) (t vcArgTuple) {
	t.a = VG_Address(r)
	t.i, _ = VG_AppendInt(r)
	t.d, _ = VG_AppendData(r)
	t.b, _ = VG_AppendBytes(r)
	t.is, _ = VG_AppendInts(r)
	t.as, _ = VG_AppendAddrs(r)
	t.ds, _ = VG_AppendDatas(r)
	return t
}

func (t vcArgTuple) pick(k int) EtherType { return vcPick(k, t.a, t.i, t.d, t.b, t.is, t.as, t.ds) }

func VG_ABI1(r *vc.Rand) (f string, k int, a *Address, i *Int, d *Data, b *Bytes, is *IntSlice, as *AddrSlice, ds *DataSlice) {
	t := vgTuple(r)
	k = r.Intn(7)
	return vcSignature("g", []EtherType{t.pick(k)}), k, t.a, t.i, t.d, t.b, t.is, t.as, t.ds
}

// one argument of every kind
//
//vc:property C03
//vc:gen VG_ABI1
func VT_ABIEncode_1(f string, k int, a *Address, i *Int, d *Data, b *Bytes, is *IntSlice, as *AddrSlice, ds *DataSlice) {
	vc.Requires(0 <= k && k < 7 && vcOKArgs(i, d, is, ds))
	k = vc.Cases(k, 0, 6)
	h := vc.Keccak([]byte(f))
	out := ABIEncode(f, vcPick(k, a, i, d, b, is, as, ds))
	tl := vcTailLen(k, b, is, as, ds)
	vc.Assert("length", func() bool { return len(out) == 4+32+tl })
	vc.Assert("selector", func() bool { return vc.BytesEq(out[:4], h[:4]) })
	if !vcDynamic(k) {
		vc.Assert("static head word", func() bool { return vcStaticAt(out, 4, k, a, i, d) })
	} else {
		vc.Assert("offset of the tail", func() bool { return vcWordIs(out, 4, vc.I(32)) })
		vc.Assert("element count", func() bool { return vcWordIs(out, 36, vc.I(int64(vcCount(k, b, is, as, ds)))) })
		vc.Assert("elements", func() bool { return vcTailAt(out, 68, k, b, is, as, ds) })
	}
}

// vcPair: the call data of two arguments is laid out right
func vcPair(f string, k, k2 int, a *Address, i *Int, d *Data, b *Bytes, is *IntSlice, as *AddrSlice, ds *DataSlice, a2 *Address, i2 *Int, d2 *Data, b2 *Bytes, is2 *IntSlice, as2 *AddrSlice, ds2 *DataSlice) {
	h := vc.Keccak([]byte(f))
	out := ABIEncode(f, vcPick(k, a, i, d, b, is, as, ds), vcPick(k2, a2, i2, d2, b2, is2, as2, ds2))
	tl := vcTailLen(k, b, is, as, ds)
	tl2 := vcTailLen(k2, b2, is2, as2, ds2)
	vc.Assert("length", func() bool { return len(out) == 4+64+tl+tl2 })
	vc.Assert("selector", func() bool { return vc.BytesEq(out[:4], h[:4]) })
	if !vcDynamic(k) {
		vc.Assert("first static head word", func() bool { return vcStaticAt(out, 4, k, a, i, d) })
	} else {
		vc.Assert("first offset of the tail", func() bool { return vcWordIs(out, 4, vc.I(64)) })
		vc.Assert("first element count", func() bool { return vcWordIs(out, 68, vc.I(int64(vcCount(k, b, is, as, ds)))) })
		vc.Assert("first elements", func() bool { return vcTailAt(out, 100, k, b, is, as, ds) })
	}
	if !vcDynamic(k2) {
		vc.Assert("second static head word", func() bool { return vcStaticAt(out, 36, k2, a2, i2, d2) })
	} else {
		vc.Assert("second offset of the tail", func() bool { return vcWordIs(out, 36, vc.I(int64(64+tl))) })
		vc.Assert("second element count", func() bool { return vcWordIs(out, 68+tl, vc.I(int64(vcCount(k2, b2, is2, as2, ds2)))) })
		if !vcDynamic(k) {
			vc.Assert("second elements", func() bool { return vcTailAt(out, 100+tl, k2, b2, is2, as2, ds2) })
		}
	}
}

// a static argument, then any one
//
//vc:property C03
//vc:gen VG_ABI2_sd
func VT_ABIEncode_sd(f string, k, k2 int, a *Address, i *Int, d *Data, b *Bytes, is *IntSlice, as *AddrSlice, ds *DataSlice, a2 *Address, i2 *Int, d2 *Data, b2 *Bytes, is2 *IntSlice, as2 *AddrSlice, ds2 *DataSlice) {
	vc.Requires(0 <= k && k <= 2 && vcOKArgs(i, d, is, ds))
	vc.Requires(0 <= k2 && k2 <= 6 && vcOKArgs(i2, d2, is2, ds2))
	vcPair(f, vc.Cases(k, 0, 2), vc.Cases(k2, 0, 6), a, i, d, b, is, as, ds, a2, i2, d2, b2, is2, as2, ds2)
}

// a dynamic argument, then a static one
//
//vc:property C03
//vc:gen VG_ABI2_ds
func VT_ABIEncode_ds(f string, k, k2 int, a *Address, i *Int, d *Data, b *Bytes, is *IntSlice, as *AddrSlice, ds *DataSlice, a2 *Address, i2 *Int, d2 *Data, b2 *Bytes, is2 *IntSlice, as2 *AddrSlice, ds2 *DataSlice) {
	vc.Requires(3 <= k && k <= 6 && vcOKArgs(i, d, is, ds))
	vc.Requires(0 <= k2 && k2 <= 2 && vcOKArgs(i2, d2, is2, ds2))
	vcPair(f, vc.Cases(k, 3, 6), vc.Cases(k2, 0, 2), a, i, d, b, is, as, ds, a2, i2, d2, b2, is2, as2, ds2)
}

// two dynamic arguments
//
//vc:property C03
//vc:thorough
//vc:gen VG_ABI2_dd
func VT_ABIEncode_dd(f string, k, k2 int, a *Address, i *Int, d *Data, b *Bytes, is *IntSlice, as *AddrSlice, ds *DataSlice, a2 *Address, i2 *Int, d2 *Data, b2 *Bytes, is2 *IntSlice, as2 *AddrSlice, ds2 *DataSlice) {
	vc.Requires(3 <= k && k <= 6 && vcOKArgs(i, d, is, ds))
	vc.Requires(3 <= k2 && k2 <= 6 && vcOKArgs(i2, d2, is2, ds2))
	vcPair(f, vc.Cases(k, 3, 6), vc.Cases(k2, 3, 6), a, i, d, b, is, as, ds, a2, i2, d2, b2, is2, as2, ds2)
}

func VG_ABI2_sd(r *vc.Rand) (f string, k, k2 int, a *Address, i *Int, d *Data, b *Bytes, is *IntSlice, as *AddrSlice, ds *DataSlice, a2 *Address, i2 *Int, d2 *Data, b2 *Bytes, is2 *IntSlice, as2 *AddrSlice, ds2 *DataSlice) {
	t, u := vgTuple(r), vgTuple(r)
	k, k2 = 0+r.Intn(3), 0+r.Intn(7)
	return vcSignature("h", []EtherType{t.pick(k), u.pick(k2)}), k, k2, t.a, t.i, t.d, t.b, t.is, t.as, t.ds, u.a, u.i, u.d, u.b, u.is, u.as, u.ds
}

func VG_ABI2_ds(r *vc.Rand) (f string, k, k2 int, a *Address, i *Int, d *Data, b *Bytes, is *IntSlice, as *AddrSlice, ds *DataSlice, a2 *Address, i2 *Int, d2 *Data, b2 *Bytes, is2 *IntSlice, as2 *AddrSlice, ds2 *DataSlice) {
	t, u := vgTuple(r), vgTuple(r)
	k, k2 = 3+r.Intn(4), 0+r.Intn(3)
	return vcSignature("h", []EtherType{t.pick(k), u.pick(k2)}), k, k2, t.a, t.i, t.d, t.b, t.is, t.as, t.ds, u.a, u.i, u.d, u.b, u.is, u.as, u.ds
}

func VG_ABI2_dd(r *vc.Rand) (f string, k, k2 int, a *Address, i *Int, d *Data, b *Bytes, is *IntSlice, as *AddrSlice, ds *DataSlice, a2 *Address, i2 *Int, d2 *Data, b2 *Bytes, is2 *IntSlice, as2 *AddrSlice, ds2 *DataSlice) {
	t, u := vgTuple(r), vgTuple(r)
	k, k2 = 3+r.Intn(4), 3+r.Intn(4)
	return vcSignature("h", []EtherType{t.pick(k), u.pick(k2)}), k, k2, t.a, t.i, t.d, t.b, t.is, t.as, t.ds, u.a, u.i, u.d, u.b, u.is, u.as, u.ds
}
