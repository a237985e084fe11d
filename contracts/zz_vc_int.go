package seth

import (
	"math/big"

	"github.com/philhofer/seth/internal/vc"
)

// C02: quantities

// vcHexBytes are the bytes spelled by well-formed hex text.
func vcHexBytes(b []byte) []byte {
	return vc.Build(vcHexLen(b), func(j int) byte { return byte(vcHexByte(b, j)) })
}

// vcPrintedQ: txt is the 0x form of the big-endian bytes src without a
// superfluous leading zero digit
func vcPrintedQ(txt, src []byte) bool {
	if len(src) == 0 {
		return len(txt) == 3 && txt[0] == '0' && txt[1] == 'x' && txt[2] == '0'
	}
	cut := 0
	if src[0] < 16 {
		cut = 1
	}
	return len(txt) == 2+2*len(src)-cut && txt[0] == '0' && txt[1] == 'x' &&
		vc.Forall(cut, len(src), func(q int) bool { return int(txt[2+2*q-cut]) == vcHexDigitChar(int(src[q])/16) }) &&
		vc.Forall(0, len(src), func(q int) bool { return int(txt[3+2*q-cut]) == vcHexDigitChar(int(src[q])%16) })
}

func VG_Int(r *vc.Rand) Int { return Int(*vgInt(r)) }
func vgInt(r *vc.Rand) *big.Int {
	switch r.Intn(3) {
	case 0:
		return big.NewInt(int64(r.Intn(20)))
	case 1:
		return r.Big(70, false)
	}
	return r.Big(300, false)
}
func VG_Intp(r *vc.Rand) *Int { return (*Int)(vgInt(r)) }

func vgNumText(r *vc.Rand) []byte {
	switch r.Intn(8) {
	case 0:
		return []byte(vgInt(r).String())
	case 1:
		return []byte("0x" + vgInt(r).Text(16))
	case 2:
		return []byte(r.Pick("", "-", "+", "0", "x", "-5", "+7", "0x", "00", "007", "1e3", " 1", "18446744073709551615", "18446744073709551616", "0x10000000000000000", "0xffffffffffffffff", "-0x5", "null", "1_000", "0b11", "0X1f"))
	}
	return vgHexText(r, r.Intn(20))
}
func VG_IntText(r *vc.Rand) (*Int, []byte)       { return VG_Intp(r), vgNumText(r) }
func VG_Uint64Text(r *vc.Rand) (*Uint64, []byte) { u := Uint64(r.Uint64()); return &u, vgNumText(r) }
func VG_IntJSON(r *vc.Rand) (*Int, []byte) {
	b := vgNumText(r)
	if r.P(70) {
		b = append(append([]byte{'"'}, b...), '"')
	}
	return VG_Intp(r), b
}
func VG_Uint64JSON(r *vc.Rand) (*Uint64, []byte) {
	_, b := VG_IntJSON(r)
	u := Uint64(r.Uint64())
	return &u, b
}
func VG_IntString(r *vc.Rand) (*Int, string) {
	i, b := VG_IntText(r)
	return i, string(b)
}
func VG_NumText(r *vc.Rand) string { return string(vgNumText(r)) }
func VG_Uint64(r *vc.Rand) Uint64  { return Uint64(r.Uint64() >> uint(r.Intn(64))) }

//vc:for Int.MarshalText
//vc:property C02
//vc:gen VG_Int
func VC_Int_MarshalText(i Int) {
	vc.Requires((*big.Int)(&i).Sign() >= 0)
	r, err := i.MarshalText()
	vc.Ensures("no error", func() bool { return err == nil })
	vc.Ensures("minimal hex digits of the value", func() bool { return vcPrintedQ(r, (*big.Int)(&i).Bytes()) })
	vc.Ensures("no superfluous leading zero", func() bool { return len(r) == 3 || r[2] != '0' })
}

//vc:for Int.String
//vc:property C02
//vc:gen VG_Intp
func VC_Int_String(i *Int) {
	vc.Requires((*big.Int)(i).Sign() >= 0)
	s := i.String()
	vc.Ensures("minimal hex digits of the value", func() bool { return vcPrintedQ([]byte(s), (*big.Int)(i).Bytes()) })
}

// vcParsesInt: (err, value) is what text b must parse to
func vcParsesInt(b []byte, ok bool, v *big.Int) bool {
	if vcHexPrefix(b) {
		return ok == vcHexOK(b) && vc.Implies(ok, vc.Eq(v, vc.BE(vcHexBytes(b))))
	}
	var w big.Int
	err := w.UnmarshalText(b)
	return ok == (err == nil) && vc.Implies(ok, vc.Eq(v, &w))
}

//vc:for Int.UnmarshalText
//vc:property C02
//vc:gen VG_IntText
func VC_Int_UnmarshalText(i *Int, b []byte) {
	vc.Modifies(i)
	err := i.UnmarshalText(b)
	vc.Ensures("exact value of hex or decimal text", func() bool { return vcParsesInt(b, err == nil, (*big.Int)(i)) })
}

//vc:for Int.FromString
//vc:property C02
//vc:gen VG_IntString
func VC_Int_FromString(i *Int, s string) {
	vc.Modifies(i)
	b := []byte(s)
	err := i.FromString(s)
	vc.Ensures("exact value of hex or decimal text", func() bool { return vcParsesInt(b, err == nil, (*big.Int)(i)) })
}

//vc:for ParseInt
//vc:property C02
//vc:gen VG_NumText
func VC_ParseInt(s string) {
	b := []byte(s)
	i, err := ParseInt(s)
	vc.Ensures("exact value of hex or decimal text", func() bool {
		if err != nil {
			return vcParsesInt(b, false, big.NewInt(0))
		}
		return i != nil && vcParsesInt(b, true, (*big.Int)(i))
	})
}

// vcQuoted: JSON token b is a string
func vcQuoted(b []byte) bool { return len(b) >= 2 && b[0] == '"' && b[len(b)-1] == '"' }
func vcIsNull(b []byte) bool { return vc.BytesEq(b, []byte("null")) }

//vc:for Int.UnmarshalJSON
//vc:property C02
//vc:gen VG_IntJSON
func VC_Int_UnmarshalJSON(i *Int, b []byte) {
	vc.Modifies(i)
	old := vc.Copy((*big.Int)(i))
	err := i.UnmarshalJSON(b)
	vc.Ensures("null leaves the target", func() bool { return vc.Implies(vcIsNull(b), err == nil && vc.Eq((*big.Int)(i), old)) })
	vc.Ensures("exact value of quoted or plain text", func() bool {
		null := vcIsNull(b)
		if vcQuoted(b) {
			return vc.Implies(!null, vcParsesInt(b[1:len(b)-1], err == nil, (*big.Int)(i)))
		}
		return vc.Implies(!null, vcParsesInt(b, err == nil, (*big.Int)(i)))
	})
}

// vcParsesU64: what text b must parse to as a 64-bit quantity
func vcParsesU64(b []byte, ok bool, v, old Uint64) bool {
	var w big.Int
	good := false
	if vcHexPrefix(b) {
		good = vcHexOK(b)
		if good {
			w.Set(vc.BE(vcHexBytes(b)))
		}
	} else {
		good = w.UnmarshalText(b) == nil
	}
	if !good || w.Sign() < 0 || w.Cmp(vc.Pow2(64)) >= 0 {
		return !ok && v == old
	}
	return ok && vc.Eq(&w, vc.U(uint64(v)))
}

//vc:for Uint64.UnmarshalText
//vc:property C02
//vc:gen VG_Uint64Text
func VC_Uint64_UnmarshalText(i *Uint64, b []byte) {
	vc.Modifies(i)
	old := *i
	err := i.UnmarshalText(b)
	vc.Ensures("exact value, or refused with the target unchanged", func() bool { return vcParsesU64(b, err == nil, *i, old) })
}

//vc:for Uint64.UnmarshalJSON
//vc:property C02
//vc:gen VG_Uint64JSON
func VC_Uint64_UnmarshalJSON(i *Uint64, b []byte) {
	vc.Modifies(i)
	old := *i
	err := i.UnmarshalJSON(b)
	vc.Ensures("null leaves the target", func() bool { return vc.Implies(vcIsNull(b), err == nil && *i == old) })
	vc.Ensures("exact value, or refused with the target unchanged", func() bool {
		null := vcIsNull(b)
		if vcQuoted(b) {
			return vc.Implies(!null, vcParsesU64(b[1:len(b)-1], err == nil, *i, old))
		}
		return vc.Implies(!null, vcParsesU64(b, err == nil, *i, old))
	})
}

//vc:for Uint64.MarshalText
//vc:property C02
//vc:gen VG_Uint64
func VC_Uint64_MarshalText(i Uint64) {
	r, err := i.MarshalText()
	vc.Ensures("no error", func() bool { return err == nil })
	vc.Ensures("minimal hex digits of the value", func() bool { return vcPrintedQ(r, vc.U(uint64(i)).Bytes()) })
}

// vcLemmaPrinted: the quantity text of src spells src again
func vcLemmaPrinted(txt, src []byte) {}

//vc:for vcLemmaPrinted
//vc:property C02
//vc:gen VG_Printed
func VC_vcLemmaPrinted(txt, src []byte) {
	vc.Requires(vcPrintedQ(txt, src))
	vc.Requires(len(src) == 0 || src[0] != 0)
	vcLemmaPrinted(txt, src)
	vc.Ensures("prefix", func() bool { return vcHexPrefix(txt) })
	vc.Ensures("digits", func() bool { return vcHexOK(txt) })
	if len(src) == 0 {
		vc.Ensures("zero", func() bool { return vcHexLen(txt) == 1 && vcHexByte(txt, 0) == 0 })
		vc.Ensures("spells 0", func() bool { return vc.IsZero(vc.BE(vcHexBytes(txt))) })
		return
	}
	vc.Ensures("length", func() bool { return vcHexLen(txt) == len(src) })
	vc.Ensures("bytes", func() bool {
		return vc.Forall(0, len(src), func(j int) bool { return vcHexByte(txt, j) == int(src[j]) })
	})
	vc.Ensures("spells src", func() bool { return vc.BytesEq(vcHexBytes(txt), src) })
}

func VG_Printed(r *vc.Rand) ([]byte, []byte) {
	src := vgInt(r).Bytes()
	return hexstring(src, true), src
}

//vc:property C02
//vc:gen VG_Int
func VT_Int_roundtrip(i Int) {
	vc.Requires((*big.Int)(&i).Sign() >= 0)
	txt, err := i.MarshalText()
	src := (*big.Int)(&i).Bytes()
	vc.Cut("length", func() bool { return len(txt) >= 2+2*len(src)-1 })
	vcLemmaPrinted(txt, src)
	var j Int
	err = j.UnmarshalText(txt)
	vc.Assert("parses back", func() bool { return err == nil })
	vc.Assert("same value", func() bool { return vc.Eq((*big.Int)(&i), (*big.Int)(&j)) })
}

//vc:property C02
//vc:gen VG_Uint64
func VT_Uint64_roundtrip(i Uint64) {
	txt, err := i.MarshalText()
	vcLemmaPrinted(txt, vc.U(uint64(i)).Bytes())
	var j Uint64
	err = j.UnmarshalText(txt)
	vc.Assert("parses back", func() bool { return err == nil })
	vc.Assert("same value", func() bool { return i == j })
}
