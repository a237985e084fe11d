package seth

import "github.com/philhofer/seth/internal/vc"

func VG_SomeString(r *vc.Rand) string { return string(r.Data(300)) }
func VG_SomeBytes(r *vc.Rand) []byte  { return r.Data(700) }

// HashString views the string as bytes through unsafe pointers, which the
// verifier cannot follow: assumed, checked by execution.
//
//vc:for HashString
//vc:property C11
//vc:gen VG_SomeString
func VB_HashString(s string) {
	r := HashString(s)
	h := vc.Keccak([]byte(s))
	vc.Ensures("Keccak-256 of the string", func() bool { return vc.BytesEq(r[:], h[:]) })
}

//vc:for HashBytes
//vc:property C11
//vc:gen VG_SomeBytes
func VC_HashBytes(b []byte) {
	r := HashBytes(b)
	h := vc.Keccak(b)
	vc.Ensures("Keccak-256 of the bytes", func() bool { return vc.BytesEq(r[:], h[:]) })
}
