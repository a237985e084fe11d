package ec

import (
	"math/big"

	"github.com/philhofer/seth/internal/vc"
)

// C10: group operations against the textbook group law (vc.Secp*), executed.
// The point at infinity is (0, 0).

func vgSmall(r *vc.Rand) *big.Int {
	switch r.Intn(5) {
	case 0:
		return vc.I(int64(r.Intn(5)))
	case 1:
		return vc.Sub(vc.SecpN, vc.I(int64(r.Intn(5))))
	default:
		return r.Big(256, false)
	}
}

// vgPoint: a point of the curve; infinity now and then
func vgPoint(r *vc.Rand) (x, y *big.Int) {
	if r.P(6) {
		return vc.I(0), vc.I(0)
	}
	if r.P(50) { // some x near the edges of the field
		for i := 0; i < 60; i++ {
			x := vc.I(int64(r.Intn(50)))
			if r.Bool() {
				x = vc.Sub(vc.SecpP, x)
			}
			if r.P(30) {
				x = r.Big(256, false)
			}
			if y, ok := vc.SecpLift(x, uint(r.Intn(2))); ok {
				return x, y
			}
		}
	}
	return vc.SecpBase(vgSmall(r))
}

func vgPoints(r *vc.Rand) (x1, y1, x2, y2 *big.Int) {
	x1, y1 = vgPoint(r)
	switch r.Intn(5) {
	case 0: // equal
		return x1, y1, vc.Copy(x1), vc.Copy(y1)
	case 1: // opposite
		return x1, y1, vc.Copy(x1), vc.Mod(vc.Neg(y1), vc.SecpP)
	case 2: // same y: x times a cube root of unity
		beta := vc.Hex("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee")
		return x1, y1, vc.Mod(vc.Mul(x1, beta), vc.SecpP), vc.Copy(y1)
	}
	x2, y2 = vgPoint(r)
	return
}

func VG_Add(r *vc.Rand) (int, *big.Int, *big.Int, *big.Int, *big.Int) {
	x1, y1, x2, y2 := vgPoints(r)
	return r.Intn(3), x1, y1, x2, y2
}

//vc:property C10
//vc:gen VG_Add
func VB_Add(alias int, x1, y1, x2, y2 *big.Int) {
	ax, ay, bx, by := vc.Copy(x1), vc.Copy(y1), vc.Copy(x2), vc.Copy(y2)
	wx, wy := vc.SecpAdd(ax, ay, bx, by)
	if alias == 1 && vc.Eq(x1, x2) && vc.Eq(y1, y2) {
		x2, y2 = x1, y1
	}
	gx, gy := S256().Add(x1, y1, x2, y2)
	vc.Ensures("sum", func() bool { return vc.Eq(gx, wx) && vc.Eq(gy, wy) })
	vc.Ensures("arguments unchanged", func() bool {
		return vc.Eq(x1, ax) && vc.Eq(y1, ay) && vc.Eq(x2, bx) && vc.Eq(y2, by)
	})
}

func VG_Point(r *vc.Rand) (*big.Int, *big.Int) { return vgPoint(r) }

//vc:property C10
//vc:gen VG_Point
func VB_Double(x1, y1 *big.Int) {
	ax, ay := vc.Copy(x1), vc.Copy(y1)
	wx, wy := vc.SecpAdd(ax, ay, ax, ay)
	gx, gy := S256().Double(x1, y1)
	vc.Ensures("double", func() bool { return vc.Eq(gx, wx) && vc.Eq(gy, wy) })
	vc.Ensures("arguments unchanged", func() bool { return vc.Eq(x1, ax) && vc.Eq(y1, ay) })
}

func VG_IsOnCurve(r *vc.Rand) (*big.Int, *big.Int) {
	x, y := vgPoint(r)
	switch r.Intn(4) {
	case 0:
		y = vc.Mod(vc.Add(y, vc.I(int64(r.Intn(3)-1))), vc.SecpP)
	case 1:
		x = vc.Mod(vc.Add(x, vc.I(int64(r.Intn(3)-1))), vc.SecpP)
	case 2:
		x, y = vc.Mod(r.Big(256, false), vc.SecpP), vc.Mod(r.Big(256, false), vc.SecpP)
	}
	return x, y
}

//vc:property C10
//vc:gen VG_IsOnCurve
func VB_IsOnCurve(x, y *big.Int) {
	ok := S256().IsOnCurve(x, y)
	vc.Ensures("curve equation", func() bool { return ok == vc.SecpOn(x, y) })
}

// vgScalarBytes: scalars of any length
func vgScalarBytes(r *vc.Rand) []byte {
	k := vgSmall(r)
	switch r.Intn(6) {
	case 0: // long
		k = r.Big(8*(1+r.Intn(80)), false)
	case 1:
		k = vc.Add(vc.Mul(vc.SecpN, vc.I(int64(r.Intn(4)))), vc.I(int64(r.Intn(3))))
	case 2:
		k = vc.Sub(vc.Pow2(uint(r.Intn(257))), vc.I(1))
	case 3: // near multiples of the eigenvalue
		l := vc.Hex("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72")
		k = vc.Mod(vc.Add(vc.Mul(l, vc.I(int64(r.Intn(5)-2))), vc.I(int64(r.Intn(5)-2))), vc.SecpN)
	}
	b := k.Bytes()
	if r.P(30) {
		b = append(make([]byte, r.Intn(4)), b...)
	}
	if r.P(20) && len(b) < 32 {
		b = append(make([]byte, 32-len(b)), b...)
	}
	return b
}

func VG_ScalarMult(r *vc.Rand) (*big.Int, *big.Int, []byte) {
	x, y := vgPoint(r)
	return x, y, vgScalarBytes(r)
}

//vc:property C10
//vc:gen VG_ScalarMult
func VB_ScalarMult(x, y *big.Int, k []byte) {
	ax, ay, k0 := vc.Copy(x), vc.Copy(y), vc.Snap(k)
	gx, gy := S256().ScalarMult(x, y, k)
	wx, wy := vc.SecpMul(vc.BE(k0), ax, ay)
	vc.Ensures("multiple", func() bool { return vc.Eq(gx, wx) && vc.Eq(gy, wy) })
	vc.Ensures("arguments unchanged", func() bool { return vc.Eq(x, ax) && vc.Eq(y, ay) && vc.BytesEq(k, k0) })
}

func VG_ScalarBaseMult(r *vc.Rand) []byte { return vgScalarBytes(r) }

//vc:property C10
//vc:gen VG_ScalarBaseMult
func VB_ScalarBaseMult(k []byte) {
	k0 := vc.Snap(k)
	gx, gy := S256().ScalarBaseMult(k)
	wx, wy := vc.SecpBase(vc.BE(k0))
	vc.Ensures("multiple", func() bool { return vc.Eq(gx, wx) && vc.Eq(gy, wy) })
	vc.Ensures("argument unchanged", func() bool { return vc.BytesEq(k, k0) })
}

func VG_NAF(r *vc.Rand) []byte {
	b := r.Bytes(r.Intn(40))
	if r.P(50) {
		for i := range b {
			b[i] = byte(-int(r.Uint64() & 1))
		}
	}
	return b
}

// NAF: the two results have the difference of the argument, and no two
// neighbouring digits are non-zero
//
//vc:property C10
//vc:gen VG_NAF
func VB_NAF(k []byte) {
	k0 := vc.Snap(k)
	pos, neg := NAF(k)
	p, n := vc.BE(pos), vc.BE(neg)
	vc.Ensures("value", func() bool { return vc.Eq(vc.Sub(p, n), vc.BE(k0)) })
	vc.Ensures("same length", func() bool { return len(pos) == len(neg) })
	vc.Ensures("argument unchanged", func() bool { return vc.BytesEq(k, k0) })
}

func vgJac(r *vc.Rand, x, y *big.Int) (X, Y, Z *fieldVal) {
	z := vc.I(1)
	if r.P(70) {
		z = vc.Mod(vgSmall(r), vc.SecpP)
	}
	if vc.SecpInf(x, y) && r.Bool() {
		z, x, y = vc.I(0), vgSmall(r), vgSmall(r)
	} else if vc.IsZero(z) {
		z = vc.I(2)
	}
	z2 := vc.Mul(z, z)
	f := func(v *big.Int) *fieldVal {
		b := make([]byte, 32)
		vc.Mod(v, vc.SecpP).FillBytes(b)
		return new(fieldVal).SetByteSlice(b)
	}
	return f(vc.Mul(x, z2)), f(vc.Mul(y, vc.Mul(z, z2))), f(z)
}

func VG_addJacobian(r *vc.Rand) (*fieldVal, *fieldVal, *fieldVal, *fieldVal, *fieldVal, *fieldVal, int) {
	x1, y1, x2, y2 := vgPoints(r)
	X1, Y1, Z1 := vgJac(r, x1, y1)
	X2, Y2, Z2 := vgJac(r, x2, y2)
	if r.P(30) && !Z1.IsZero() {
		// equal z
		f := func(v *big.Int) *fieldVal {
			b := make([]byte, 32)
			vc.Mod(v, vc.SecpP).FillBytes(b)
			return new(fieldVal).SetByteSlice(b)
		}
		z := vcFV(Z1)
		X2, Y2, Z2 = f(vc.Mul(x2, vc.Mul(z, z))), f(vc.Mul(y2, vc.Mul(z, vc.Mul(z, z)))), f(z)
	}
	return X1, Y1, Z1, X2, Y2, Z2, r.Intn(3)
}

func vcFV(f *fieldVal) *big.Int {
	g := *f
	return vc.BE(g.Normalize().Bytes()[:])
}

// vcAffine is the point with the given Jacobian coordinates
func vcAffine(X, Y, Z *fieldVal) (x, y *big.Int) {
	z := vcFV(Z)
	if vc.IsZero(z) {
		return vc.I(0), vc.I(0)
	}
	zi := new(big.Int).ModInverse(z, vc.SecpP)
	z2 := vc.Mul(zi, zi)
	return vc.Mod(vc.Mul(vcFV(X), z2), vc.SecpP), vc.Mod(vc.Mul(vcFV(Y), vc.Mul(zi, z2)), vc.SecpP)
}

//vc:property C10
//vc:gen VG_addJacobian
func VB_addJacobian(x1, y1, z1, x2, y2, z2 *fieldVal, alias int) {
	ax, ay := vcAffine(x1, y1, z1)
	bx, by := vcAffine(x2, y2, z2)
	wx, wy := vc.SecpAdd(ax, ay, bx, by)
	x3, y3, z3 := new(fieldVal), new(fieldVal), new(fieldVal)
	if alias == 1 {
		x3, y3, z3 = x1, y1, z1
	} else if alias == 2 {
		x3, y3, z3 = x2, y2, z2
	}
	S256().addJacobian(x1, y1, z1, x2, y2, z2, x3, y3, z3)
	gx, gy := vcAffine(x3, y3, z3)
	vc.Ensures("sum", func() bool { return vc.Eq(gx, wx) && vc.Eq(gy, wy) })
}

func VG_doubleJacobian(r *vc.Rand) (*fieldVal, *fieldVal, *fieldVal, bool) {
	x, y := vgPoint(r)
	X, Y, Z := vgJac(r, x, y)
	return X, Y, Z, r.Bool()
}

//vc:property C10
//vc:gen VG_doubleJacobian
func VB_doubleJacobian(x1, y1, z1 *fieldVal, alias bool) {
	ax, ay := vcAffine(x1, y1, z1)
	wx, wy := vc.SecpAdd(ax, ay, ax, ay)
	x3, y3, z3 := new(fieldVal), new(fieldVal), new(fieldVal)
	if alias {
		x3, y3, z3 = x1, y1, z1
	}
	S256().doubleJacobian(x1, y1, z1, x3, y3, z3)
	gx, gy := vcAffine(x3, y3, z3)
	vc.Ensures("double", func() bool { return vc.Eq(gx, wx) && vc.Eq(gy, wy) })
}

// The operations as the rest of the library sees them (bounded: executed).

func VG_CurveMult(r *vc.Rand) (*KoblitzCurve, *big.Int, *big.Int, []byte) {
	x, y := vgPoint(r)
	return S256(), x, y, vgScalarBytes(r)
}

//vc:for KoblitzCurve.ScalarMult
//vc:property C10
//vc:gen VG_CurveMult
func VB_CurveMult(curve *KoblitzCurve, Bx, By *big.Int, k []byte) {
	vc.Requires(vc.SecpOn(Bx, By))
	x, y := curve.ScalarMult(Bx, By, k)
	wx, wy := vc.SecpMul(vc.BE(k), Bx, By)
	vc.Ensures("a point", func() bool { return x != nil && y != nil })
	vc.Ensures("multiple", func() bool { return vc.Eq(x, wx) && vc.Eq(y, wy) })
}

func VG_CurveBase(r *vc.Rand) (*KoblitzCurve, []byte) { return S256(), vgScalarBytes(r) }

//vc:for KoblitzCurve.ScalarBaseMult
//vc:property C10
//vc:gen VG_CurveBase
func VB_CurveBase(curve *KoblitzCurve, k []byte) {
	x, y := curve.ScalarBaseMult(k)
	wx, wy := vc.SecpBase(vc.BE(k))
	vc.Ensures("a point", func() bool { return x != nil && y != nil })
	vc.Ensures("multiple", func() bool { return vc.Eq(x, wx) && vc.Eq(y, wy) })
}

func VG_CurveAdd(r *vc.Rand) (*KoblitzCurve, *big.Int, *big.Int, *big.Int, *big.Int) {
	x1, y1, x2, y2 := vgPoints(r)
	return S256(), x1, y1, x2, y2
}

//vc:for KoblitzCurve.Add
//vc:property C10
//vc:gen VG_CurveAdd
func VB_CurveAdd(curve *KoblitzCurve, x1, y1, x2, y2 *big.Int) {
	x, y := curve.Add(x1, y1, x2, y2)
	wx, wy := vc.SecpAdd(x1, y1, x2, y2)
	vc.Ensures("a point", func() bool { return x != nil && y != nil })
	vc.Ensures("sum", func() bool { return vc.Eq(x, wx) && vc.Eq(y, wy) })
}

func VG_CurveOn(r *vc.Rand) (*KoblitzCurve, *big.Int, *big.Int) {
	x, y := VG_IsOnCurve(r)
	return S256(), x, y
}

//vc:for KoblitzCurve.IsOnCurve
//vc:property C10
//vc:gen VG_CurveOn
func VB_CurveOn(curve *KoblitzCurve, x, y *big.Int) {
	ok := curve.IsOnCurve(x, y)
	vc.Ensures("curve equation", func() bool { return ok == vc.SecpOn(x, y) })
}
