package seth

import (
	"github.com/philhofer/seth/internal/vc"
)

// text methods of the byte-valued types (fixed part generated from one
// template per type)

// vcSpells: txt is well-formed hex text spelling exactly dst
func vcSpells(txt, dst []byte) bool {
	return vcHexOK(txt) && len(dst) == vcHexLen(txt) &&
		vc.Forall(0, len(dst), func(j int) bool { return int(dst[j]) == vcHexByte(txt, j) })
}

// vcPrinted: txt is 0x and the lower-case digits of src
func vcPrinted(txt, src []byte) bool {
	return len(txt) == 2+2*len(src) && txt[0] == '0' && txt[1] == 'x' &&
		vc.Forall(0, len(src), func(q int) bool {
			return int(txt[2+2*q]) == vcHexDigitChar(int(src[q])/16) && int(txt[3+2*q]) == vcHexDigitChar(int(src[q])%16)
		})
}

func VG_AddressText(r *vc.Rand) (*Address, []byte) {
	a := new(Address)
	if r.P(50) {
		copy(a[:], r.Bytes(20))
	}
	return a, vgHexText(r, []int{40, 40, 40, 39, 38, 41}[r.Intn(6)])
}

func VG_AddressString(r *vc.Rand) (*Address, string) {
	a, b := VG_AddressText(r)
	return a, string(b)
}

//vc:for Address.UnmarshalText
//vc:property C01
//vc:gen VG_AddressText
func VC_Address_UnmarshalText(a *Address, b []byte) {
	vc.Modifies(a)
	err := a.UnmarshalText(b)
	vc.Ensures("accepts exactly well-formed text of 20 bytes", func() bool { return (err == nil) == (vcHexOK(b) && vcHexLen(b) == 20) })
	vc.Ensures("target holds the spelled bytes", func() bool { return err != nil || vcSpells(b, a[:]) })
}

//vc:for Address.FromString
//vc:property C01
//vc:gen VG_AddressString
func VC_Address_FromString(a *Address, s string) {
	vc.Modifies(a)
	b := []byte(s)
	err := a.FromString(s)
	vc.Ensures("accepts exactly well-formed text of 20 bytes", func() bool { return (err == nil) == (vcHexOK(b) && vcHexLen(b) == 20) })
	vc.Ensures("target holds the spelled bytes", func() bool { return err != nil || vcSpells(b, a[:]) })
}

//vc:for ParseAddress
//vc:property C01
//vc:gen VG_AddressParse
func VC_ParseAddress(s string) {
	b := []byte(s)
	a, err := ParseAddress(s)
	vc.Ensures("accepts exactly well-formed text of 20 bytes", func() bool { return (err == nil) == (vcHexOK(b) && vcHexLen(b) == 20) })
	vc.Ensures("result holds the spelled bytes", func() bool { return err != nil || a != nil && vcSpells(b, a[:]) })
}

func VG_AddressParse(r *vc.Rand) string {
	_, b := VG_AddressText(r)
	return string(b)
}

func VG_Addressval(r *vc.Rand) Address { return *VG_Address(r) }

func VG_Address(r *vc.Rand) *Address {
	a := new(Address)
	copy(a[:], r.Bytes(20))
	return a
}

//vc:for Address.MarshalText
//vc:property C01
//vc:gen VG_Addressval
func VC_Address_MarshalText(a Address) {
	r, err := a.MarshalText()
	vc.Ensures("no error", func() bool { return err == nil })
	vc.Ensures("prints the bytes", func() bool { return vcPrinted(r, a[:]) })
}

//vc:for Address.String
//vc:property C01
//vc:gen VG_Address
func VC_Address_String(a *Address) {
	s := a.String()
	vc.Ensures("prints the bytes", func() bool { return vcPrinted([]byte(s), a[:]) })
}

//vc:property C01
//vc:gen VG_Address
func VT_Address_roundtrip(a *Address) {
	txt, err := a.MarshalText()
	vc.Assert("prints", func() bool { return err == nil })
	b := new(Address)
	err = b.UnmarshalText(txt)
	vc.Assert("parses back", func() bool { return err == nil })
	vc.Assert("same value", func() bool { return vc.Forall(0, 20, func(i int) bool { return a[i] == b[i] }) })
}

func VG_HashText(r *vc.Rand) (*Hash, []byte) {
	a := new(Hash)
	if r.P(50) {
		copy(a[:], r.Bytes(32))
	}
	return a, vgHexText(r, []int{64, 64, 64, 63, 62, 65}[r.Intn(6)])
}

func VG_HashString(r *vc.Rand) (*Hash, string) {
	a, b := VG_HashText(r)
	return a, string(b)
}

//vc:for Hash.UnmarshalText
//vc:property C01
//vc:gen VG_HashText
func VC_Hash_UnmarshalText(a *Hash, b []byte) {
	vc.Modifies(a)
	err := a.UnmarshalText(b)
	vc.Ensures("accepts exactly well-formed text of 32 bytes", func() bool { return (err == nil) == (vcHexOK(b) && vcHexLen(b) == 32) })
	vc.Ensures("target holds the spelled bytes", func() bool { return err != nil || vcSpells(b, a[:]) })
}

//vc:for Hash.FromString
//vc:property C01
//vc:gen VG_HashString
func VC_Hash_FromString(a *Hash, s string) {
	vc.Modifies(a)
	b := []byte(s)
	err := a.FromString(s)
	vc.Ensures("accepts exactly well-formed text of 32 bytes", func() bool { return (err == nil) == (vcHexOK(b) && vcHexLen(b) == 32) })
	vc.Ensures("target holds the spelled bytes", func() bool { return err != nil || vcSpells(b, a[:]) })
}

//vc:for ParseHash
//vc:property C01
//vc:gen VG_HashParse
func VC_ParseHash(s string) {
	b := []byte(s)
	a, err := ParseHash(s)
	vc.Ensures("accepts exactly well-formed text of 32 bytes", func() bool { return (err == nil) == (vcHexOK(b) && vcHexLen(b) == 32) })
	vc.Ensures("result holds the spelled bytes", func() bool { return err != nil || a != nil && vcSpells(b, a[:]) })
}

func VG_HashParse(r *vc.Rand) string {
	_, b := VG_HashText(r)
	return string(b)
}

func VG_Hashval(r *vc.Rand) Hash { return *VG_Hash(r) }

func VG_Hash(r *vc.Rand) *Hash {
	a := new(Hash)
	copy(a[:], r.Bytes(32))
	return a
}

//vc:for Hash.MarshalText
//vc:property C01
//vc:gen VG_Hashval
func VC_Hash_MarshalText(a Hash) {
	r, err := a.MarshalText()
	vc.Ensures("no error", func() bool { return err == nil })
	vc.Ensures("prints the bytes", func() bool { return vcPrinted(r, a[:]) })
}

//vc:for Hash.String
//vc:property C01
//vc:gen VG_Hash
func VC_Hash_String(a *Hash) {
	s := a.String()
	vc.Ensures("prints the bytes", func() bool { return vcPrinted([]byte(s), a[:]) })
}

//vc:property C01
//vc:gen VG_Hash
func VT_Hash_roundtrip(a *Hash) {
	txt, err := a.MarshalText()
	vc.Assert("prints", func() bool { return err == nil })
	b := new(Hash)
	err = b.UnmarshalText(txt)
	vc.Assert("parses back", func() bool { return err == nil })
	vc.Assert("same value", func() bool { return vc.Forall(0, 32, func(i int) bool { return a[i] == b[i] }) })
}

func VG_SignatureText(r *vc.Rand) (*Signature, []byte) {
	a := new(Signature)
	if r.P(50) {
		copy(a[:], r.Bytes(65))
	}
	return a, vgHexText(r, []int{130, 130, 130, 129, 128, 131}[r.Intn(6)])
}

func VG_SignatureString(r *vc.Rand) (*Signature, string) {
	a, b := VG_SignatureText(r)
	return a, string(b)
}

//vc:for Signature.UnmarshalText
//vc:property C01
//vc:gen VG_SignatureText
func VC_Signature_UnmarshalText(a *Signature, b []byte) {
	vc.Modifies(a)
	err := a.UnmarshalText(b)
	vc.Ensures("accepts exactly well-formed text of 65 bytes", func() bool { return (err == nil) == (vcHexOK(b) && vcHexLen(b) == 65) })
	vc.Ensures("target holds the spelled bytes", func() bool { return err != nil || vcSpells(b, a[:]) })
}

//vc:for Signature.FromString
//vc:property C01
//vc:gen VG_SignatureString
func VC_Signature_FromString(a *Signature, s string) {
	vc.Modifies(a)
	b := []byte(s)
	err := a.FromString(s)
	vc.Ensures("accepts exactly well-formed text of 65 bytes", func() bool { return (err == nil) == (vcHexOK(b) && vcHexLen(b) == 65) })
	vc.Ensures("target holds the spelled bytes", func() bool { return err != nil || vcSpells(b, a[:]) })
}

//vc:for ParseSignature
//vc:property C01
//vc:gen VG_SignatureParse
func VC_ParseSignature(s string) {
	b := []byte(s)
	a, err := ParseSignature(s)
	vc.Ensures("accepts exactly well-formed text of 65 bytes", func() bool { return (err == nil) == (vcHexOK(b) && vcHexLen(b) == 65) })
	vc.Ensures("result holds the spelled bytes", func() bool { return err != nil || a != nil && vcSpells(b, a[:]) })
}

func VG_SignatureParse(r *vc.Rand) string {
	_, b := VG_SignatureText(r)
	return string(b)
}

func VG_Signature(r *vc.Rand) *Signature {
	a := new(Signature)
	copy(a[:], r.Bytes(65))
	return a
}

//vc:for Signature.MarshalText
//vc:property C01
//vc:gen VG_Signature
func VC_Signature_MarshalText(a *Signature) {
	r, err := a.MarshalText()
	vc.Ensures("no error", func() bool { return err == nil })
	vc.Ensures("prints the bytes", func() bool { return vcPrinted(r, a[:]) })
}

//vc:for Signature.String
//vc:property C01
//vc:gen VG_Signature
func VC_Signature_String(a *Signature) {
	s := a.String()
	vc.Ensures("prints the bytes", func() bool { return vcPrinted([]byte(s), a[:]) })
}

//vc:property C01
//vc:gen VG_Signature
func VT_Signature_roundtrip(a *Signature) {
	txt, err := a.MarshalText()
	vc.Assert("prints", func() bool { return err == nil })
	b := new(Signature)
	err = b.UnmarshalText(txt)
	vc.Assert("parses back", func() bool { return err == nil })
	vc.Assert("same value", func() bool { return vc.Forall(0, 65, func(i int) bool { return a[i] == b[i] }) })
}

func VG_PrivateKeyText(r *vc.Rand) (*PrivateKey, []byte) {
	a := new(PrivateKey)
	if r.P(50) {
		copy(a[:], r.Bytes(32))
	}
	return a, vgHexText(r, []int{64, 64, 64, 63, 62, 65}[r.Intn(6)])
}

func VG_PrivateKeyString(r *vc.Rand) (*PrivateKey, string) {
	a, b := VG_PrivateKeyText(r)
	return a, string(b)
}

//vc:for PrivateKey.UnmarshalText
//vc:property C01
//vc:gen VG_PrivateKeyText
func VC_PrivateKey_UnmarshalText(a *PrivateKey, b []byte) {
	vc.Modifies(a)
	err := a.UnmarshalText(b)
	vc.Ensures("accepts exactly well-formed text of 32 bytes", func() bool { return (err == nil) == (vcHexOK(b) && vcHexLen(b) == 32) })
	vc.Ensures("target holds the spelled bytes", func() bool { return err != nil || vcSpells(b, a[:]) })
}

//vc:for PrivateKey.FromString
//vc:property C01
//vc:gen VG_PrivateKeyString
func VC_PrivateKey_FromString(a *PrivateKey, s string) {
	vc.Modifies(a)
	b := []byte(s)
	err := a.FromString(s)
	vc.Ensures("accepts exactly well-formed text of 32 bytes", func() bool { return (err == nil) == (vcHexOK(b) && vcHexLen(b) == 32) })
	vc.Ensures("target holds the spelled bytes", func() bool { return err != nil || vcSpells(b, a[:]) })
}

//vc:for ParsePrivateKey
//vc:property C01
//vc:gen VG_PrivateKeyParse
func VC_ParsePrivateKey(s string) {
	b := []byte(s)
	a, err := ParsePrivateKey(s)
	vc.Ensures("accepts exactly well-formed text of 32 bytes", func() bool { return (err == nil) == (vcHexOK(b) && vcHexLen(b) == 32) })
	vc.Ensures("result holds the spelled bytes", func() bool { return err != nil || a != nil && vcSpells(b, a[:]) })
}

func VG_PrivateKeyParse(r *vc.Rand) string {
	_, b := VG_PrivateKeyText(r)
	return string(b)
}

func VG_PrivateKey(r *vc.Rand) *PrivateKey {
	a := new(PrivateKey)
	copy(a[:], r.Bytes(32))
	return a
}

//vc:for PrivateKey.MarshalText
//vc:property C01
//vc:gen VG_PrivateKey
func VC_PrivateKey_MarshalText(a *PrivateKey) {
	r, err := a.MarshalText()
	vc.Ensures("no error", func() bool { return err == nil })
	vc.Ensures("prints the bytes", func() bool { return vcPrinted(r, a[:]) })
}

//vc:for PrivateKey.String
//vc:property C01
//vc:gen VG_PrivateKey
func VC_PrivateKey_String(a *PrivateKey) {
	s := a.String()
	vc.Ensures("prints the bytes", func() bool { return vcPrinted([]byte(s), a[:]) })
}

//vc:property C01
//vc:gen VG_PrivateKey
func VT_PrivateKey_roundtrip(a *PrivateKey) {
	txt, err := a.MarshalText()
	vc.Assert("prints", func() bool { return err == nil })
	b := new(PrivateKey)
	err = b.UnmarshalText(txt)
	vc.Assert("parses back", func() bool { return err == nil })
	vc.Assert("same value", func() bool { return vc.Forall(0, 32, func(i int) bool { return a[i] == b[i] }) })
}

func VG_PublicKeyText(r *vc.Rand) (*PublicKey, []byte) {
	a := new(PublicKey)
	if r.P(50) {
		copy(a[:], r.Bytes(64))
	}
	return a, vgHexText(r, []int{128, 128, 128, 127, 126, 129}[r.Intn(6)])
}

func VG_PublicKeyString(r *vc.Rand) (*PublicKey, string) {
	a, b := VG_PublicKeyText(r)
	return a, string(b)
}

//vc:for PublicKey.UnmarshalText
//vc:property C01
//vc:gen VG_PublicKeyText
func VC_PublicKey_UnmarshalText(a *PublicKey, b []byte) {
	vc.Modifies(a)
	err := a.UnmarshalText(b)
	vc.Ensures("accepts exactly well-formed text of 64 bytes", func() bool { return (err == nil) == (vcHexOK(b) && vcHexLen(b) == 64) })
	vc.Ensures("target holds the spelled bytes", func() bool { return err != nil || vcSpells(b, a[:]) })
}

//vc:for PublicKey.FromString
//vc:property C01
//vc:gen VG_PublicKeyString
func VC_PublicKey_FromString(a *PublicKey, s string) {
	vc.Modifies(a)
	b := []byte(s)
	err := a.FromString(s)
	vc.Ensures("accepts exactly well-formed text of 64 bytes", func() bool { return (err == nil) == (vcHexOK(b) && vcHexLen(b) == 64) })
	vc.Ensures("target holds the spelled bytes", func() bool { return err != nil || vcSpells(b, a[:]) })
}

//vc:for ParsePublicKey
//vc:property C01
//vc:gen VG_PublicKeyParse
func VC_ParsePublicKey(s string) {
	b := []byte(s)
	a, err := ParsePublicKey(s)
	vc.Ensures("accepts exactly well-formed text of 64 bytes", func() bool { return (err == nil) == (vcHexOK(b) && vcHexLen(b) == 64) })
	vc.Ensures("result holds the spelled bytes", func() bool { return err != nil || a != nil && vcSpells(b, a[:]) })
}

func VG_PublicKeyParse(r *vc.Rand) string {
	_, b := VG_PublicKeyText(r)
	return string(b)
}

func VG_PublicKey(r *vc.Rand) *PublicKey {
	a := new(PublicKey)
	copy(a[:], r.Bytes(64))
	return a
}

//vc:for PublicKey.MarshalText
//vc:property C01
//vc:gen VG_PublicKey
func VC_PublicKey_MarshalText(a *PublicKey) {
	r, err := a.MarshalText()
	vc.Ensures("no error", func() bool { return err == nil })
	vc.Ensures("prints the bytes", func() bool { return vcPrinted(r, a[:]) })
}

//vc:for PublicKey.String
//vc:property C01
//vc:gen VG_PublicKey
func VC_PublicKey_String(a *PublicKey) {
	s := a.String()
	vc.Ensures("prints the bytes", func() bool { return vcPrinted([]byte(s), a[:]) })
}

//vc:property C01
//vc:gen VG_PublicKey
func VT_PublicKey_roundtrip(a *PublicKey) {
	txt, err := a.MarshalText()
	vc.Assert("prints", func() bool { return err == nil })
	b := new(PublicKey)
	err = b.UnmarshalText(txt)
	vc.Assert("parses back", func() bool { return err == nil })
	vc.Assert("same value", func() bool { return vc.Forall(0, 64, func(i int) bool { return a[i] == b[i] }) })
}

func VG_DataText(r *vc.Rand) (*Data, []byte) {
	a := new(Data)
	*a = r.Bytes(r.Intn(6))
	return a, vgHexText(r, r.Intn(12))
}

//vc:for Data.UnmarshalText
//vc:shares
//vc:property C01
//vc:gen VG_DataText
func VC_Data_UnmarshalText(a *Data, b []byte) {
	vc.Modifies(a)
	err := a.UnmarshalText(b)
	vc.Ensures("accepts exactly well-formed text", func() bool { return (err == nil) == vcHexOK(b) })
	vc.Ensures("target holds the spelled bytes", func() bool { return err != nil || vcSpells(b, *a) })
}

func VG_Data(r *vc.Rand) Data { return r.Bytes(r.Intn(40)) }
func VG_Datap(r *vc.Rand) *Data {
	a := new(Data)
	*a = r.Bytes(r.Intn(40))
	return a
}

//vc:for Data.MarshalText
//vc:property C01
//vc:gen VG_Data
func VC_Data_MarshalText(a Data) {
	r, err := a.MarshalText()
	vc.Ensures("no error", func() bool { return err == nil })
	vc.Ensures("prints the bytes", func() bool { return vcPrinted(r, a) })
}

//vc:for Data.String
//vc:property C01
//vc:gen VG_Datap
func VC_Data_String(a *Data) {
	s := a.String()
	vc.Ensures("prints the bytes", func() bool { return vcPrinted([]byte(s), *a) })
}

//vc:property C01
//vc:gen VG_Data
func VT_Data_roundtrip(a Data) {
	txt, err := a.MarshalText()
	vc.Assert("prints", func() bool { return err == nil })
	b := new(Data)
	err = b.UnmarshalText(txt)
	vc.Assert("parses back", func() bool { return err == nil })
	vc.Assert("same value", func() bool {
		return len(a) == len(*b) && vc.Forall(0, len(a), func(i int) bool { return a[i] == (*b)[i] })
	})
}

func VG_BytesText(r *vc.Rand) (*Bytes, []byte) {
	a := new(Bytes)
	*a = r.Bytes(r.Intn(6))
	return a, vgHexText(r, r.Intn(12))
}

//vc:for Bytes.UnmarshalText
//vc:shares
//vc:property C01
//vc:gen VG_BytesText
func VC_Bytes_UnmarshalText(a *Bytes, b []byte) {
	vc.Modifies(a)
	err := a.UnmarshalText(b)
	vc.Ensures("accepts exactly well-formed text", func() bool { return (err == nil) == vcHexOK(b) })
	vc.Ensures("target holds the spelled bytes", func() bool { return err != nil || vcSpells(b, *a) })
}

func VG_Bytes(r *vc.Rand) Bytes { return r.Bytes(r.Intn(40)) }
func VG_Bytesp(r *vc.Rand) *Bytes {
	a := new(Bytes)
	*a = r.Bytes(r.Intn(40))
	return a
}

//vc:for Bytes.MarshalText
//vc:property C01
//vc:gen VG_Bytes
func VC_Bytes_MarshalText(a Bytes) {
	r, err := a.MarshalText()
	vc.Ensures("no error", func() bool { return err == nil })
	vc.Ensures("prints the bytes", func() bool { return vcPrinted(r, a) })
}

//vc:for Bytes.String
//vc:property C01
//vc:gen VG_Bytesp
func VC_Bytes_String(a *Bytes) {
	s := a.String()
	vc.Ensures("prints the bytes", func() bool { return vcPrinted([]byte(s), *a) })
}

//vc:property C01
//vc:gen VG_Bytes
func VT_Bytes_roundtrip(a Bytes) {
	txt, err := a.MarshalText()
	vc.Assert("prints", func() bool { return err == nil })
	b := new(Bytes)
	err = b.UnmarshalText(txt)
	vc.Assert("parses back", func() bool { return err == nil })
	vc.Assert("same value", func() bool {
		return len(a) == len(*b) && vc.Forall(0, len(a), func(i int) bool { return a[i] == (*b)[i] })
	})
}
