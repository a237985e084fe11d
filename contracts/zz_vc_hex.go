package seth

import (
	"github.com/philhofer/seth/internal/vc"
)

// ---- specification of hex text

// vcNib is the value of a hex digit, -1 for other bytes.
//
//vc:opaque
func vcNib(c byte) int {
	if c >= '0' && c <= '9' {
		return int(c) - '0'
	}
	if c >= 'a' && c <= 'f' {
		return int(c) - 'a' + 10
	}
	if c >= 'A' && c <= 'F' {
		return int(c) - 'A' + 10
	}
	return -1
}

func vcHexPrefix(b []byte) bool { return len(b) >= 2 && b[0] == '0' && b[1] == 'x' }

// vcHexOK: 0x followed by hex digits only
func vcHexOK(b []byte) bool {
	return vcHexPrefix(b) && vc.Forall(2, len(b), func(i int) bool { return vcNib(b[i]) >= 0 })
}

// vcHexLen: bytes spelled by well-formed text
func vcHexLen(b []byte) int { return (len(b) - 1) / 2 }

// vcDigit is digit q (from the left, q may be -1 for the implied zero) of b.
func vcDigit(b []byte, q int) int {
	if q < 0 {
		return 0
	}
	return vcNib(b[2+q])
}

// vcHexByte is the j-th byte spelled by b.
func vcHexByte(b []byte, j int) int {
	q := 2*j - len(b)%2
	return 16*vcDigit(b, q) + vcDigit(b, q+1)
}

// vcHexPart is that byte when only the first n digits have been read.
func vcHexPart(b []byte, j, n int) int {
	q := 2*j - len(b)%2
	r := 0
	if q < n {
		r += 16 * vcDigit(b, q)
	}
	if q+1 < n {
		r += vcDigit(b, q+1)
	}
	return r
}

func vcHexDigitChar(n int) int {
	if n < 10 {
		return '0' + n
	}
	return 'a' + n - 10
}

// ---- loop invariants

//vc:in VC_hexdecode
func VI_hexdecode(src []byte, i int) bool {
	return i >= -1 && len(src) >= 2 && i+1 <= len(src)-2 && vc.Forall(0, i+1, func(q int) bool { return vcNib(src[2+q]) >= 0 })
}

//vc:in VC_hexdecode
func VI_hexdecode1(dst, src []byte, i int) bool {
	return len(src) >= 2 && vc.Forall(0, len(dst), func(j int) bool { return int(dst[j]) == vcHexPart(src, j, i+1) })
}

//vc:in VC_hexdecode
func VI_hexdecode2(src []byte, i int) bool {
	return i >= 0 && len(src) >= 2 && i <= len(src)-2 && vc.Forall(0, i, func(q int) bool { return vcNib(src[2+q]) >= 0 })
}

//vc:in VC_hexdecode
func VI_hexdecode3(dst, src []byte, i int) bool {
	return len(src) >= 2 && vc.Forall(0, len(dst), func(j int) bool { return int(dst[j]) == vcHexPart(src, j, i) })
}

// ---- generators

func vgHexText(r *vc.Rand, n int) []byte {
	b := []byte("0x")
	if r.P(4) {
		b = []byte(r.Pick("", "0", "x", "0X", "1x", "0y"))
	}
	if r.P(15) {
		n += r.Intn(5) - 2
	}
	for i := 0; i < n; i++ {
		b = append(b, "0123456789abcdefABCDEF"[r.Intn(22)])
	}
	if r.P(15) && len(b) > 0 {
		b[r.Intn(len(b))] = byte(r.Uint64())
	}
	if r.P(15) && len(b) > 2 {
		b[2+r.Intn(len(b)-2)] = []byte{'0' - 1, '9' + 1, 'a' - 1, 'f' + 1, 'A' - 1, 'F' + 1, 'x', ' '}[r.Intn(8)]
	}
	return b
}

func VG_hexdecode(r *vc.Rand) (dst, src []byte) {
	src = vgHexText(r, r.Intn(12))
	n := (len(src) - 1) / 2
	if r.P(10) {
		n += r.Intn(3) - 1
	}
	if n < 0 {
		n = 0
	}
	dst = make([]byte, n)
	if r.P(50) {
		dst = r.Bytes(n)
	}
	return
}
func VG_hexOne(r *vc.Rand) []byte { return vgHexText(r, r.Intn(12)) }
func VG_hexstring(r *vc.Rand) ([]byte, bool) {
	return r.Bytes(r.Intn(10)), r.Bool()
}

// ---- contracts

//vc:for fromhex
//vc:property C01
func VC_fromhex(c byte) {
	v, ok := fromhex(c)
	vc.Ensures("value", func() bool {
		if ok {
			return vcNib(c) >= 0 && int(v) == vcNib(c)
		}
		return vcNib(c) < 0
	})
}

//vc:for hexdecode
//vc:property C01
//vc:gen VG_hexdecode
func VC_hexdecode(dst, src []byte) {
	vc.Modifies(dst)
	err := hexdecode(dst, src)
	vc.Ensures("accepts exactly well-formed text of the right length", func() bool {
		return (err == nil) == (vcHexOK(src) && len(dst) == vcHexLen(src))
	})
	vc.Ensures("target holds the spelled bytes", func() bool {
		return err != nil || vc.Forall(0, len(dst), func(j int) bool { return int(dst[j]) == vcHexByte(src, j) })
	})
}

//vc:for hexparse
//vc:property C01
//vc:gen VG_hexOne
func VC_hexparse(s []byte) {
	r, err := hexparse(s)
	vc.Ensures("accepts exactly well-formed text", func() bool { return (err == nil) == vcHexOK(s) })
	vc.Ensures("length", func() bool { return err != nil || len(r) == vcHexLen(s) })
	vc.Ensures("spelled bytes", func() bool {
		return err != nil || vc.Forall(0, len(r), func(j int) bool { return int(r[j]) == vcHexByte(s, j) })
	})
}

//vc:for hexstring
//vc:property C01 C02
//vc:gen VG_hexstring
func VC_hexstring(b []byte, trunc bool) {
	r := hexstring(b, trunc)
	vc.Ensures("zero", func() bool { return !trunc || len(b) > 0 || len(r) == 3 && r[2] == '0' })
	cut := 0
	if trunc && len(b) > 0 && b[0] < 16 {
		cut = 1
	}
	vc.Ensures("length", func() bool { return len(r) == 2+2*len(b)-cut || trunc && len(b) == 0 })
	vc.Ensures("prefix", func() bool { return r[0] == '0' && r[1] == 'x' })
	vc.Ensures("high digits", func() bool {
		return vc.Forall(cut, len(b), func(q int) bool { return int(r[2+2*q-cut]) == vcHexDigitChar(int(b[q])/16) })
	})
	vc.Ensures("low digits", func() bool {
		return vc.Forall(0, len(b), func(q int) bool { return int(r[3+2*q-cut]) == vcHexDigitChar(int(b[q])%16) })
	})
}
