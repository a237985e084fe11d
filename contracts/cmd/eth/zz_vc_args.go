package main

import (
	"math/big"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/internal/vc"
)

// C27, proved: integers, booleans and strings on the command line.

func VG_etherint(r *vc.Rand) (string, int, bool) {
	w := []int{8, 16, 32, 64, 128, 256}[r.Intn(6)]
	s := r.Bool()
	typ := "uint"
	if s {
		typ = "int"
	}
	return vgVal(r, typ+vc.I(int64(w)).String()), w, s
}

// vcInType: v is a value of the integer type
func vcInType(v *big.Int, w int, signed bool) bool {
	if signed {
		h := vc.Pow2(uint(w - 1))
		return vc.Le(vc.Neg(h), v) && vc.Lt(v, h)
	}
	return vc.Le(vc.I(0), v) && vc.Lt(v, vc.Pow2(uint(w)))
}

//vc:property C27
//vc:gen VG_etherint
func VT_etherint(s string, w int, signed bool) {
	vc.Requires(w == 8 || w == 16 || w == 32 || w == 64 || w == 128 || w == 256)
	w = vc.Cases(w/8, 1, 32) * 8
	var a seth.EtherType
	refused := vc.Exits(func() { a = etherint(s, w, signed) })
	v, num := new(big.Int).SetString(s, 0)
	vc.Assert("refused exactly outside the type", func() bool { return refused == !(num && vcInType(v, w, signed)) })
	if refused {
		return
	}
	i, ok := a.(*seth.Int)
	vc.Assert("the value written", func() bool { return ok && vc.Eq((*big.Int)(i), v) })
}

func VG_String(r *vc.Rand) string { return r.Str(70) }

//vc:property C27
//vc:gen VG_String
func VT_etherstring(s string) {
	a := etherstring(s)
	b, ok := a.(*seth.Bytes)
	vc.Assert("the text", func() bool { return ok && vc.BytesEq(*b, []byte(s)) })
}
