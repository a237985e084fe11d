package seth

import (
	"math/big"

	"github.com/philhofer/seth/internal/vc"
)

// C22: how a block is named in a request.

// vcBlockHex: b is the JSON text of the quantity v: "0x and its minimal
// hexadecimal digits".
func vcBlockHex(b []byte, v int64) bool {
	k := len(b) - 4
	if k < 1 || k > 16 || b[0] != '"' || b[1] != '0' || b[2] != 'x' || b[len(b)-1] != '"' {
		return false
	}
	if k > 1 && v>>(4*uint(k-1)) == 0 || k < 16 && v>>(4*uint(k)) != 0 {
		return false
	}
	return vc.Forall(0, k, func(j int) bool {
		return b[3+j] == "0123456789abcdef"[int(uint64(v)>>(4*uint(k-1-j)))&15]
	})
}

func VG_BlockNum(r *vc.Rand) int64 {
	switch r.Intn(3) {
	case 0:
		return int64(r.Intn(40)) - 3
	case 1:
		return int64(1)<<uint(r.Intn(63)) - int64(r.Intn(2))
	}
	return int64(r.Uint64() >> uint(1+r.Intn(63)))
}

//vc:for itox
//vc:unroll formatBits
//vc:property C22
//vc:gen VG_BlockNum
func VC_itox(i int64) {
	vc.Requires(i >= 0)
	out := itox(i)
	vc.Ensures("the number in hexadecimal", func() bool { return vcBlockHex(out, i) })
}

var _ *big.Int

func vcText(b []byte, s string) bool { return vc.BytesEq(b, []byte(s)) }

//vc:for itobs
//vc:property C22
//vc:gen VG_BlockNum
func VC_itobs(i int64) {
	vc.Requires(i >= -2)
	out := itobs(i)
	vc.Ensures("pending and latest by name", func() bool {
		return (i != -2 || vcText(out, `"pending"`)) && (i != -1 || vcText(out, `"latest"`))
	})
	vc.Ensures("others by number", func() bool {
		return i < 0 || i == 0 && vcText(out, `"earliest"`) || vcBlockHex(out, i)
	})
}
