package ec

import (
	"math/big"

	"github.com/philhofer/seth/internal/vc"
)

// ---- specification of field values

func vcP() *big.Int {
	return vc.Hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
}

// vcVal is the integer denoted by the ten words.
func vcVal(f *fieldVal) *big.Int {
	r := vc.U(uint64(f.n[0]))
	r = vc.Add(r, vc.Mul(vc.U(uint64(f.n[1])), vc.Pow2(26)))
	r = vc.Add(r, vc.Mul(vc.U(uint64(f.n[2])), vc.Pow2(52)))
	r = vc.Add(r, vc.Mul(vc.U(uint64(f.n[3])), vc.Pow2(78)))
	r = vc.Add(r, vc.Mul(vc.U(uint64(f.n[4])), vc.Pow2(104)))
	r = vc.Add(r, vc.Mul(vc.U(uint64(f.n[5])), vc.Pow2(130)))
	r = vc.Add(r, vc.Mul(vc.U(uint64(f.n[6])), vc.Pow2(156)))
	r = vc.Add(r, vc.Mul(vc.U(uint64(f.n[7])), vc.Pow2(182)))
	r = vc.Add(r, vc.Mul(vc.U(uint64(f.n[8])), vc.Pow2(208)))
	r = vc.Add(r, vc.Mul(vc.U(uint64(f.n[9])), vc.Pow2(234)))
	return r
}

// vcMag: every word is within k times the bound of a reduced value.
func vcMag(f *fieldVal, k uint64) bool {
	return uint64(f.n[0]) <= k*(1<<26+1<<19) && uint64(f.n[1]) <= k*(1<<26+1<<19) && uint64(f.n[2]) <= k*(1<<26+1<<19) &&
		uint64(f.n[3]) <= k*(1<<26+1<<19) && uint64(f.n[4]) <= k*(1<<26+1<<19) && uint64(f.n[5]) <= k*(1<<26+1<<19) &&
		uint64(f.n[6]) <= k*(1<<26+1<<19) && uint64(f.n[7]) <= k*(1<<26+1<<19) && uint64(f.n[8]) <= k*(1<<26+1<<19) &&
		uint64(f.n[9]) <= k*(1<<22)
}

// vcNorm: unique representative below the prime, words in range.
func vcWords(f *fieldVal) bool {
	return f.n[0] < 1<<26 && f.n[1] < 1<<26 && f.n[2] < 1<<26 && f.n[3] < 1<<26 && f.n[4] < 1<<26 &&
		f.n[5] < 1<<26 && f.n[6] < 1<<26 && f.n[7] < 1<<26 && f.n[8] < 1<<26 && f.n[9] < 1<<22
}

func vcNorm(f *fieldVal) bool { return vcWords(f) && vc.Lt(vcVal(f), vcP()) }

// ---- generators

func vgField(r *vc.Rand, mag int) *fieldVal {
	f := new(fieldVal)
	m := uint64(r.Intn(mag) + 1)
	if r.P(25) {
		// near p, 0, 2^256
		b := r.Big(256, false)
		if r.P(60) {
			b = new(big.Int).Add(vcP(), big.NewInt(int64(r.Intn(9)-4)))
		}
		for i := range f.n {
			w := uint(26)
			if i == 9 {
				w = 32
			}
			x := new(big.Int).Rsh(b, uint(26*i))
			f.n[i] = uint32(x.Uint64() & (1<<w - 1))
		}
		return f
	}
	for i := range f.n {
		lim := m * (1 << 26)
		if i == 9 {
			lim = m * (1 << 22)
		}
		switch r.Intn(5) {
		case 0:
			f.n[i] = uint32(lim - 1)
		case 1:
			f.n[i] = uint32(lim - 1 - uint64(r.Intn(2000)))
		case 2:
			f.n[i] = uint32(r.Intn(3))
		default:
			f.n[i] = uint32(r.Uint64() % lim)
		}
	}
	return f
}

func vgNorm(r *vc.Rand) *fieldVal {
	b := r.Big(256, false)
	if r.P(20) {
		b = new(big.Int).Sub(vcP(), big.NewInt(int64(r.Intn(5)+1)))
	}
	if r.P(40) {
		b = new(big.Int).SetBytes(r.Bytes(32))
	}
	if r.P(10) {
		b.Lsh(big.NewInt(1), uint(r.Intn(256)))
	}
	b.Mod(b, vcP())
	f := new(fieldVal)
	for i := range f.n {
		f.n[i] = uint32(new(big.Int).Rsh(b, uint(26*i)).Uint64() & (1<<26 - 1))
	}
	return f
}

func vg8(r *vc.Rand) *fieldVal { return vgField(r, 8) }

func VG_fMul2(r *vc.Rand) (f, a, b *fieldVal) {
	f, a, b = vg8(r), vg8(r), vg8(r)
	switch r.Intn(6) {
	case 0:
		a = f
	case 1:
		b = f
	case 2:
		b = a
	}
	return
}
func VG_fPair(r *vc.Rand) (f, a *fieldVal) {
	f, a = vg8(r), vg8(r)
	if r.P(20) {
		a = f
	}
	return
}
func VG_fNormPair(r *vc.Rand) (f, a *fieldVal) {
	f, a = vgNorm(r), vgNorm(r)
	if r.P(50) {
		*a = *f
		if r.P(60) {
			a.n[r.Intn(9)] ^= 1 << uint(r.Intn(26))
		}
	}
	return
}
func VG_fOne(r *vc.Rand) *fieldVal  { return vgField(r, 32) }
func VG_fOneN(r *vc.Rand) *fieldVal { return vgNorm(r) }
func VG_fOne8(r *vc.Rand) *fieldVal { return vg8(r) }
func VG_fNeg(r *vc.Rand) (f, a *fieldVal, m uint32) {
	m = uint32(r.Intn(32) + 1)
	return vg8(r), vgField(r, int(m)), m
}
func VG_fNeg1(r *vc.Rand) (f *fieldVal, m uint32) {
	m = uint32(r.Intn(32) + 1)
	return vgField(r, int(m)), m
}
func VG_fInt(r *vc.Rand) (f *fieldVal, u uint) {
	return vg8(r), uint(r.Intn(8))
}
func VG_fPut(r *vc.Rand) (f *fieldVal, b *[32]byte) {
	b = new([32]byte)
	copy(b[:], r.Bytes(32))
	return vgNorm(r), b
}

// ---- contracts

// Mul2: f = a*b mod p
//
//vc:for fieldVal.Mul2
//vc:property C09
//vc:alias
//vc:gen VG_fMul2
func VC_fieldVal_Mul2(f, val, val2 *fieldVal) {
	vc.Requires(vcMag(val, 8) && vcMag(val2, 8))
	a, b := vcVal(val), vcVal(val2)
	vc.Modifies(f)
	vc.Returns(0, f)
	r := f.Mul2(val, val2)
	vc.Sampled("returns receiver", func() bool { return r == f })
	vc.Ensures("f = val*val2 mod p", func() bool { return vc.EqMod(vcVal(f), vc.Mul(a, b), vcP()) })
	vc.Ensures("magnitude 1", func() bool { return vcMag(f, 1) })
}

//vc:for fieldVal.SquareVal
//vc:property C09
//vc:alias
//vc:gen VG_fPair
func VC_fieldVal_SquareVal(f, val *fieldVal) {
	vc.Requires(vcMag(val, 8))
	a := vcVal(val)
	vc.Modifies(f)
	vc.Returns(0, f)
	r := f.SquareVal(val)
	vc.Sampled("returns receiver", func() bool { return r == f })
	vc.Ensures("f = val^2 mod p", func() bool { return vc.EqMod(vcVal(f), vc.Mul(a, a), vcP()) })
	vc.Ensures("magnitude 1", func() bool { return vcMag(f, 1) })
}

//vc:for fieldVal.Mul
//vc:property C09
//vc:alias
//vc:gen VG_fPair
func VC_fieldVal_Mul(f, val *fieldVal) {
	vc.Requires(vcMag(val, 8) && vcMag(f, 8))
	a, b := vcVal(f), vcVal(val)
	vc.Modifies(f)
	vc.Returns(0, f)
	r := f.Mul(val)
	vc.Sampled("returns receiver", func() bool { return r == f })
	vc.Ensures("f = f*val mod p", func() bool { return vc.EqMod(vcVal(f), vc.Mul(a, b), vcP()) })
	vc.Ensures("magnitude 1", func() bool { return vcMag(f, 1) })
}

//vc:for fieldVal.Square
//vc:property C09
//vc:gen VG_fOne8
func VC_fieldVal_Square(f *fieldVal) {
	vc.Requires(vcMag(f, 8))
	a := vcVal(f)
	vc.Modifies(f)
	vc.Returns(0, f)
	r := f.Square()
	vc.Sampled("returns receiver", func() bool { return r == f })
	vc.Ensures("f = f^2 mod p", func() bool { return vc.EqMod(vcVal(f), vc.Mul(a, a), vcP()) })
	vc.Ensures("magnitude 1", func() bool { return vcMag(f, 1) })
}

//vc:for fieldVal.Normalize
//vc:property C09
//vc:gen VG_fOne
func VC_fieldVal_Normalize(f *fieldVal) {
	vc.Requires(vcMag(f, 32))
	a := vcVal(f)
	vc.Modifies(f)
	vc.Returns(0, f)
	r := f.Normalize()
	vc.Sampled("returns receiver", func() bool { return r == f })
	vc.Ensures("words in range", func() bool { return vcWords(f) })
	vc.Ensures("congruent", func() bool { return vc.EqMod(vcVal(f), a, vcP()) })
	vc.Ensures("below the prime", func() bool { return vc.Lt(vcVal(f), vcP()) })
}

//vc:for fieldVal.Add
//vc:property C09
//vc:alias
//vc:gen VG_fPair
func VC_fieldVal_Add(f, val *fieldVal) {
	vc.Requires(vcMag(f, 31) && vcMag(val, 31))
	a, b := vcVal(f), vcVal(val)
	a0, b0 := *f, *val
	vc.Modifies(f)
	vc.Returns(0, f)
	r := f.Add(val)
	vc.Sampled("returns receiver", func() bool { return r == f })
	vc.Ensures("sum", func() bool { return vc.Eq(vcVal(f), vc.Add(a, b)) })
	vc.Ensures("words", func() bool {
		return vc.Forall(0, 10, func(i int) bool { return f.n[i] == a0.n[i]+b0.n[i] })
	})
}

//vc:for fieldVal.Add2
//vc:property C09
//vc:alias
//vc:gen VG_fMul2
func VC_fieldVal_Add2(f, val, val2 *fieldVal) {
	vc.Requires(vcMag(val2, 31) && vcMag(val, 31))
	a, b := vcVal(val), vcVal(val2)
	a0, b0 := *val, *val2
	vc.Modifies(f)
	vc.Returns(0, f)
	r := f.Add2(val, val2)
	vc.Sampled("returns receiver", func() bool { return r == f })
	vc.Ensures("sum", func() bool { return vc.Eq(vcVal(f), vc.Add(a, b)) })
	vc.Ensures("words", func() bool {
		return vc.Forall(0, 10, func(i int) bool { return f.n[i] == a0.n[i]+b0.n[i] })
	})
}

//vc:for fieldVal.AddInt
//vc:property C09
//vc:gen VG_fInt
func VC_fieldVal_AddInt(f *fieldVal, ui uint) {
	vc.Requires(vcMag(f, 31) && ui < 1<<20)
	a := vcVal(f)
	vc.Modifies(f)
	vc.Returns(0, f)
	r := f.AddInt(ui)
	vc.Sampled("returns receiver", func() bool { return r == f })
	vc.Ensures("sum", func() bool { return vc.Eq(vcVal(f), vc.Add(a, vc.U(uint64(ui)))) })
}

//vc:for fieldVal.MulInt
//vc:property C09
//vc:gen VG_fInt
func VC_fieldVal_MulInt(f *fieldVal, val uint) {
	mag := uint64(7)
	if val <= 3 {
		mag = 17
	}
	vc.Requires(val <= 8 && vcMag(f, mag))
	a := vcVal(f)
	a0 := *f
	vc.Modifies(f)
	vc.Returns(0, f)
	r := f.MulInt(val)
	vc.Sampled("returns receiver", func() bool { return r == f })
	vc.Ensures("product", func() bool { return vc.Eq(vcVal(f), vc.Mul(a, vc.U(uint64(val)))) })
	vc.Ensures("words", func() bool {
		return vc.Forall(0, 10, func(i int) bool { return uint64(f.n[i]) == uint64(a0.n[i])*uint64(val) })
	})
}

//vc:for fieldVal.NegateVal
//vc:property C09
//vc:alias
//vc:gen VG_fNeg
func VC_fieldVal_NegateVal(f, val *fieldVal, magnitude uint32) {
	vc.Requires(magnitude >= 1 && magnitude <= 32 && vcMag(val, uint64(magnitude)))
	a := vcVal(val)
	vc.Modifies(f)
	vc.Returns(0, f)
	r := f.NegateVal(val, magnitude)
	vc.Sampled("returns receiver", func() bool { return r == f })
	vc.Ensures("negation", func() bool {
		return vc.Eq(vcVal(f), vc.Sub(vc.Mul(vc.U(uint64(magnitude)+1), vcP()), a))
	})
	vc.Ensures("magnitude+1", func() bool { return vcMag(f, uint64(magnitude)+1) })
}

//vc:for fieldVal.Negate
//vc:property C09
//vc:gen VG_fNeg1
func VC_fieldVal_Negate(f *fieldVal, magnitude uint32) {
	vc.Requires(magnitude >= 1 && magnitude <= 32 && vcMag(f, uint64(magnitude)))
	a := vcVal(f)
	vc.Modifies(f)
	vc.Returns(0, f)
	r := f.Negate(magnitude)
	vc.Sampled("returns receiver", func() bool { return r == f })
	vc.Ensures("negation", func() bool {
		return vc.Eq(vcVal(f), vc.Sub(vc.Mul(vc.U(uint64(magnitude)+1), vcP()), a))
	})
	vc.Ensures("magnitude+1", func() bool { return vcMag(f, uint64(magnitude)+1) })
}

//vc:for fieldVal.IsZero
//vc:property C09
//vc:gen VG_fOneN
func VC_fieldVal_IsZero(f *fieldVal) {
	a := vcVal(f)
	r := f.IsZero()
	vc.Ensures("iff zero", func() bool { return r == vc.IsZero(a) })
}

//vc:for fieldVal.IsOdd
//vc:property C09
//vc:gen VG_fOneN
func VC_fieldVal_IsOdd(f *fieldVal) {
	vc.Requires(vcNorm(f))
	a := vcVal(f)
	r := f.IsOdd()
	vc.Ensures("iff odd", func() bool { return r == vc.Eq(vc.Mod(a, vc.I(2)), vc.I(1)) })
}

//vc:for fieldVal.Equals
//vc:property C09
//vc:alias
//vc:gen VG_fNormPair
func VC_fieldVal_Equals(f, val *fieldVal) {
	vc.Requires(vcWords(f) && vcWords(val))
	a, b := *f, *val
	va, vb := vcVal(f), vcVal(val)
	r := f.Equals(val)
	for i := 9; i >= 0; i-- {
		i := i
		vc.Step("equal values have equal words", func() bool { return vc.Implies(vc.Eq(va, vb), a.n[i] == b.n[i]) })
	}
	vc.Ensures("iff values equal", func() bool { return r == vc.Eq(va, vb) })
	vc.Ensures("iff all words equal", func() bool {
		return r == vc.Forall(0, 10, func(i int) bool { return a.n[i] == b.n[i] })
	})
}

// words in range determine the value: Equals compares values
//
//vc:property C09
//vc:gen VG_fNormPair
func VT_fieldVal_words_unique(f, val *fieldVal) {
	vc.Assume(vcWords(f) && vcWords(val))
	vc.Assume(vc.Eq(vcVal(f), vcVal(val)))
	for i := 0; i < 10; i++ {
		i := i
		vc.Cut("words equal", func() bool { return f.n[i] == val.n[i] })
	}
}

//vc:for fieldVal.SetBytes
//vc:property C09
func VC_fieldVal_SetBytes(f *fieldVal, b *[32]byte) {
	v := vc.BE(b[:])
	vc.Modifies(f)
	vc.Returns(0, f)
	r := f.SetBytes(b)
	vc.Sampled("returns receiver", func() bool { return r == f })
	vc.Ensures("value", func() bool { return vc.Eq(vcVal(f), v) })
	vc.Ensures("words in range", func() bool { return vcWords(f) })
}

//vc:for fieldVal.PutBytes
//vc:property C09
//vc:gen VG_fPut
func VC_fieldVal_PutBytes(f *fieldVal, b *[32]byte) {
	vc.Requires(vcWords(f))
	v := vcVal(f)
	vc.Modifies(b)
	f.PutBytes(b)
	vc.Ensures("big-endian value", func() bool { return vc.Eq(vc.BE(b[:]), v) })
}

//vc:for fieldVal.Bytes
//vc:property C09
//vc:gen VG_fOneN
func VC_fieldVal_Bytes(f *fieldVal) {
	vc.Requires(vcWords(f))
	v := vcVal(f)
	r := f.Bytes()
	vc.Ensures("big-endian value", func() bool { return vc.Eq(vc.BE(r[:]), v) })
}

//vc:for fieldVal.SetByteSlice
//vc:property C09
func VC_fieldVal_SetByteSlice(f *fieldVal, b []byte) {
	vc.Requires(len(b) <= 32)
	b = b[:vc.Cases(len(b), 0, 32)]
	v := vc.BE(b)
	vc.Modifies(f)
	vc.Returns(0, f)
	r := f.SetByteSlice(b)
	vc.Sampled("returns receiver", func() bool { return r == f })
	vc.Ensures("value", func() bool { return vc.Eq(vcVal(f), v) })
	vc.Ensures("words in range", func() bool { return vcWords(f) })
}

//vc:for fieldVal.SetInt
//vc:property C09
func VC_fieldVal_SetInt(f *fieldVal, ui uint) {
	vc.Requires(ui < 1<<26)
	vc.Modifies(f)
	vc.Returns(0, f)
	r := f.SetInt(ui)
	vc.Sampled("returns receiver", func() bool { return r == f })
	vc.Ensures("value", func() bool { return vc.Eq(vcVal(f), vc.U(uint64(ui))) })
	vc.Ensures("words in range", func() bool { return vcWords(f) })
}

//vc:for fieldVal.Zero
//vc:property C09
func VC_fieldVal_Zero(f *fieldVal) {
	vc.Modifies(f)
	f.Zero()
	vc.Ensures("zero", func() bool {
		return vc.Forall(0, 10, func(i int) bool { return f.n[i] == 0 })
	})
	vc.Ensures("value", func() bool { return vc.IsZero(vcVal(f)) })
}

//vc:for fieldVal.Set
//vc:property C09
//vc:alias
func VC_fieldVal_Set(f, val *fieldVal) {
	a := *val
	vc.Modifies(f)
	vc.Returns(0, f)
	r := f.Set(val)
	vc.Sampled("returns receiver", func() bool { return r == f })
	vc.Ensures("copied", func() bool {
		return vc.Forall(0, 10, func(i int) bool { return f.n[i] == a.n[i] })
	})
	vc.Ensures("value", func() bool { return vc.Eq(vcVal(f), vcVal(&a)) })
}
