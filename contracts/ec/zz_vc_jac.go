package ec

import (
	"math/big"

	"github.com/philhofer/seth/internal/vc"
)

// C10, deductively: the Jacobian formulas as polynomial congruences over the
// values of their arguments.

func vcZero(a *big.Int) bool { return vc.IsZero(vc.Mod(a, vcP())) }

// vcZ: zero is represented by zero words only
func vcZ(f *fieldVal) bool { return vc.Implies(vcZero(vcVal(f)), vc.IsZero(vcVal(f))) }

// vcEqJ: (x3, y3, z3) and (x, y, z) are the same point, both being finite
func vcEqJ(x3, y3, z3, x, y, z *big.Int) bool {
	return vcZero(vc.Sub(vc.Mul(x3, vc.Mul(z, z)), vc.Mul(x, vc.Mul(z3, z3)))) &&
		vcZero(vc.Sub(vc.Mul(y3, vc.Mul(z, vc.Mul(z, z))), vc.Mul(y, vc.Mul(z3, vc.Mul(z3, z3)))))
}

// vcDbl: the doubling formula for y^2 = x^3 + 7
func vcDbl(x, y, z *big.Int) (*big.Int, *big.Int, *big.Int) {
	m := vc.Mul(vc.I(3), vc.Mul(x, x))
	y2 := vc.Mul(y, y)
	s := vc.Mul(vc.I(4), vc.Mul(x, y2))
	x3 := vc.Sub(vc.Mul(m, m), vc.Mul(vc.I(2), s))
	y3 := vc.Sub(vc.Mul(m, vc.Sub(s, x3)), vc.Mul(vc.I(8), vc.Mul(y2, y2)))
	return x3, y3, vc.Mul(vc.I(2), vc.Mul(y, z))
}

// vcAdd: the chord formula
func vcAdd(x1, y1, z1, x2, y2, z2 *big.Int) (x3, y3, z3, h, r *big.Int) {
	zz1, zz2 := vc.Mul(z1, z1), vc.Mul(z2, z2)
	u1, u2 := vc.Mul(x1, zz2), vc.Mul(x2, zz1)
	s1, s2 := vc.Mul(y1, vc.Mul(zz2, z2)), vc.Mul(y2, vc.Mul(zz1, z1))
	h, r = vc.Sub(u2, u1), vc.Sub(s2, s1)
	hh := vc.Mul(h, h)
	x3 = vc.Sub(vc.Sub(vc.Mul(r, r), vc.Mul(h, hh)), vc.Mul(vc.I(2), vc.Mul(u1, hh)))
	y3 = vc.Sub(vc.Mul(r, vc.Sub(vc.Mul(u1, hh), x3)), vc.Mul(s1, vc.Mul(h, hh)))
	return x3, y3, vc.Mul(vc.Mul(z1, z2), h), h, r
}

// Inverse: the power p-2
//
//vc:for fieldVal.Inverse
//vc:property C09 C10
//vc:fieldabs
//vc:gen VG_fOne8
func VC_fieldVal_Inverse(f *fieldVal) {
	vc.Requires(vcMag(f, 8))
	a := vcVal(f)
	vc.Modifies(f)
	vc.Returns(0, f)
	r := f.Inverse()
	vc.Sampled("returns receiver", func() bool { return r == f })
	vc.Ensures("power p-2", func() bool {
		return vcZero(vc.Sub(vcVal(f), vc.PowMod(a, vc.Sub(vcP(), vc.I(2)))))
	})
	vc.Ensures("magnitude 1", func() bool { return vcMag(f, 1) })
}

func VG_dbl1(r *vc.Rand) (curve *KoblitzCurve, x1, y1, x3, y3, z3 *fieldVal) {
	x1, y1 = vgField(r, 2), vgField(r, 2)
	x3, y3, z3 = vg8(r), vg8(r), vg8(r)
	if r.P(30) {
		x3, y3 = x1, y1
	}
	return S256(), x1, y1, x3, y3, z3
}

//vc:for KoblitzCurve.doubleZ1EqualsOne
//vc:property C10
//vc:fieldabs
//vc:inline SetInt Zero
//vc:aliases x3=x1,y3=y1
//vc:gen VG_dbl1
func VC_doubleZ1EqualsOne(curve *KoblitzCurve, x1, y1, x3, y3, z3 *fieldVal) {
	vc.Requires(vcMag(x1, 2) && vcMag(y1, 2))
	x, y := vcVal(x1), vcVal(y1)
	vc.Modifies(x3, y3, z3)
	curve.doubleZ1EqualsOne(x1, y1, x3, y3, z3)
	wx, wy, wz := vcDbl(x, y, vc.I(1))
	vc.Ensures("double", func() bool { return vcEqJ(vcVal(x3), vcVal(y3), vcVal(z3), wx, wy, wz) })
	vc.Ensures("infinite iff y is zero", func() bool { return vcZero(vcVal(z3)) == vcZero(y) })
	vc.Ensures("normalised", func() bool { return vcNorm(x3) && vcNorm(y3) && vcNorm(z3) })
}

func VG_dbl(r *vc.Rand) (curve *KoblitzCurve, x1, y1, z1, x3, y3, z3 *fieldVal) {
	curve, x1, y1, x3, y3, z3 = VG_dbl1(r)
	z1 = vgField(r, 2)
	if r.P(20) {
		z1 = new(fieldVal).SetInt(1)
	}
	if x3 == x1 {
		z3 = z1
	}
	return
}

//vc:for KoblitzCurve.doubleGeneric
//vc:property C10
//vc:fieldabs
//vc:inline SetInt Zero
//vc:aliases x3=x1,y3=y1,z3=z1
//vc:gen VG_dbl
func VC_doubleGeneric(curve *KoblitzCurve, x1, y1, z1, x3, y3, z3 *fieldVal) {
	vc.Requires(vcMag(x1, 2) && vcMag(y1, 2) && vcMag(z1, 2))
	x, y, z := vcVal(x1), vcVal(y1), vcVal(z1)
	vc.Modifies(x3, y3, z3)
	curve.doubleGeneric(x1, y1, z1, x3, y3, z3)
	wx, wy, wz := vcDbl(x, y, z)
	vc.Ensures("double", func() bool { return vcEqJ(vcVal(x3), vcVal(y3), vcVal(z3), wx, wy, wz) })
	vc.Ensures("infinite iff y or z is zero", func() bool { return vcZero(vcVal(z3)) == vcZero(vc.Mul(y, z)) })
	vc.Ensures("normalised", func() bool { return vcNorm(x3) && vcNorm(y3) && vcNorm(z3) })
}

func VG_dblJ(r *vc.Rand) (curve *KoblitzCurve, x1, y1, z1, x3, y3, z3 *fieldVal) {
	curve, x1, y1, z1, x3, y3, z3 = VG_dbl(r)
	vgPlain(x1, y1, z1)
	return
}

// vgPlain makes zero the zero words
func vgPlain(fs ...*fieldVal) {
	for _, f := range fs {
		if vcZero(vcVal(f)) {
			f.Zero()
		}
	}
}

//vc:for KoblitzCurve.doubleJacobian
//vc:property C10
//vc:fieldabs
//vc:inline SetInt Zero
//vc:aliases x3=x1,y3=y1,z3=z1
//vc:gen VG_dblJ
func VC_doubleJacobian(curve *KoblitzCurve, x1, y1, z1, x3, y3, z3 *fieldVal) {
	vc.Requires(vcMag(x1, 2) && vcMag(y1, 2) && vcMag(z1, 2) && vcZ(y1) && vcZ(z1))
	x, y, z := vcVal(x1), vcVal(y1), vcVal(z1)
	wx, wy, wz := vcDbl(x, y, z)
	vc.NoZeroDiv(y, z)
	vc.Modifies(x3, y3, z3, z1)
	curve.doubleJacobian(x1, y1, z1, x3, y3, z3)
	vc.Ensures("double", func() bool { return vcEqJ(vcVal(x3), vcVal(y3), vcVal(z3), wx, wy, wz) })
	vc.Ensures("infinite iff y or z is zero", func() bool { return vcZero(vcVal(z3)) == vcZero(vc.Mul(y, z)) })
	vc.Ensures("normalised", func() bool { return vcNorm(x3) && vcNorm(y3) && vcNorm(z3) })
	vc.Ensures("z keeps its value", func() bool {
		return z1 == z3 || vcZero(vc.Sub(vcVal(z1), z)) && vcMag(z1, 2) && vcZ(z1)
	})
}

// vcSum ensures that (x3, y3, z3) is the sum of two finite
// points, by the chord and tangent rule
func vcSum(fin bool, x3, y3, z3 *fieldVal, x1, y1, z1, x2, y2, z2 *big.Int) {
	wx, wy, wz, h, r := vcAdd(x1, y1, z1, x2, y2, z2)
	dx, dy, dz := vcDbl(x1, y1, z1)
	vc.Ensures("chord", func() bool {
		return vc.Implies(fin && !vcZero(h), vcEqJ(vcVal(x3), vcVal(y3), vcVal(z3), wx, wy, wz))
	})
	vc.Ensures("chord is finite", func() bool { return vc.Implies(fin && !vcZero(h), !vcZero(vcVal(z3))) })
	vc.Ensures("opposite points", func() bool { return vc.Implies(fin && vcZero(h) && !vcZero(r), vcZero(vcVal(z3))) })
	vc.Ensures("tangent", func() bool {
		return vc.Implies(fin && vcZero(h) && vcZero(r), vcEqJ(vcVal(x3), vcVal(y3), vcVal(z3), dx, dy, dz))
	})
	vc.Ensures("tangent is finite unless vertical", func() bool {
		return vc.Implies(fin && vcZero(h) && vcZero(r), vcZero(vcVal(z3)) == vcZero(vc.Mul(y1, z1)))
	})
}

func vcOut(x3, y3, z3 *fieldVal) bool {
	return vcMag(x3, 2) && vcMag(y3, 2) && vcMag(z3, 2) && vcZ(x3) && vcZ(y3) && vcZ(z3)
}

// vcKept: the argument still stands for the same value
func vcKept(f *fieldVal, v *big.Int, out ...*fieldVal) bool {
	for _, o := range out {
		if o == f {
			return true
		}
	}
	return vcZero(vc.Sub(vcVal(f), v)) && vcMag(f, 2) && vcZ(f)
}

// vgAddArgs: two points, finite if so wanted, and what is aliased
func vgAddArgs(r *vc.Rand, fin bool) (c *KoblitzCurve, x1, y1, z1, x2, y2, z2, x3, y3, z3 *fieldVal) {
	x1, y1, z1 = vgField(r, 2), vgField(r, 2), vgField(r, 2)
	x2, y2, z2 = vgField(r, 2), vgField(r, 2), vgField(r, 2)
	if r.P(60) {
		x1, y1, z1, x2, y2, z2, _ = VG_addJacobian(r)
	}
	for _, z := range []*fieldVal{z1, z2} {
		if r.P(20) || fin && vcZero(vcVal(z)) {
			z.SetInt(1)
		}
	}
	vgPlain(x1, y1, z1, x2, y2, z2)
	x3, y3, z3 = vg8(r), vg8(r), vg8(r)
	switch r.Intn(4) {
	case 0:
		x3, y3, z3 = x1, y1, z1
	case 1:
		x3, y3, z3 = x2, y2, z2
	}
	return S256(), x1, y1, z1, x2, y2, z2, x3, y3, z3
}

func VG_addGeneric(r *vc.Rand) (c *KoblitzCurve, x1, y1, z1, x2, y2, z2, x3, y3, z3 *fieldVal) {
	return vgAddArgs(r, true)
}

//vc:for KoblitzCurve.addGeneric
//vc:property C10
//vc:fieldabs
//vc:inline SetInt Zero
//vc:aliases x3=x1,y3=y1,z3=z1 x3=x2,y3=y2,z3=z2
//vc:gen VG_addGeneric
func VC_addGeneric(curve *KoblitzCurve, x1, y1, z1, x2, y2, z2, x3, y3, z3 *fieldVal) {
	vc.Requires(vcMag(x1, 2) && vcMag(y1, 2) && vcMag(z1, 2) && vcZ(x1) && vcZ(y1) && vcZ(z1))
	vc.Requires(vcMag(x2, 2) && vcMag(y2, 2) && vcMag(z2, 2) && vcZ(x2) && vcZ(y2) && vcZ(z2))
	vc.Requires(!vcZero(vcVal(z1)) && !vcZero(vcVal(z2)))
	X1, Y1, Z1, X2, Y2, Z2 := vcVal(x1), vcVal(y1), vcVal(z1), vcVal(x2), vcVal(y2), vcVal(z2)
	_, _, _, h, _ := vcAdd(X1, Y1, Z1, X2, Y2, Z2)
	vc.NoZeroDiv(Z1, Z2)
	vc.NoZeroDiv(vc.Mul(Z1, Z2), h)
	vc.Modifies(x3, y3, z3, z1)
	curve.addGeneric(x1, y1, z1, x2, y2, z2, x3, y3, z3)
	vcSum(true, x3, y3, z3, X1, Y1, Z1, X2, Y2, Z2)
	vc.Ensures("form", func() bool { return vcOut(x3, y3, z3) })
	vc.Ensures("z1 keeps its value", func() bool { return vcKept(z1, Z1, z3) })
}

func VG_addZ1(r *vc.Rand) (c *KoblitzCurve, x1, y1, z1, x2, y2, x3, y3, z3 *fieldVal) {
	c, x1, y1, z1, x2, y2, z2, x3, y3, z3 := vgAddArgs(r, true)
	if z3 == z2 {
		z3 = z1
	}
	return c, x1, y1, z1, x2, y2, x3, y3, z3
}

//vc:for KoblitzCurve.addZ2EqualsOne
//vc:property C10
//vc:fieldabs
//vc:inline SetInt Zero
//vc:aliases x3=x1,y3=y1,z3=z1 x3=x2,y3=y2
//vc:gen VG_addZ1
func VC_addZ2EqualsOne(curve *KoblitzCurve, x1, y1, z1, x2, y2, x3, y3, z3 *fieldVal) {
	vc.Requires(vcMag(x1, 2) && vcMag(y1, 2) && vcMag(z1, 2) && vcZ(x1) && vcZ(y1) && vcZ(z1))
	vc.Requires(vcMag(x2, 2) && vcMag(y2, 2) && vcZ(x2) && vcZ(y2))
	vc.Requires(!vcZero(vcVal(z1)))
	X1, Y1, Z1, X2, Y2, Z2 := vcVal(x1), vcVal(y1), vcVal(z1), vcVal(x2), vcVal(y2), vc.I(1)
	_, _, _, h, _ := vcAdd(X1, Y1, Z1, X2, Y2, Z2)
	vc.NoZeroDiv(Z1, h)
	vc.Modifies(x1, y1, z1, x3, y3, z3)
	curve.addZ2EqualsOne(x1, y1, z1, x2, y2, x3, y3, z3)
	vcSum(true, x3, y3, z3, X1, Y1, Z1, X2, Y2, Z2)
	vc.Ensures("form", func() bool { return vcOut(x3, y3, z3) })
	vc.Ensures("arguments keep their values", func() bool {
		return vcKept(x1, X1, x3) && vcKept(y1, Y1, y3) && vcKept(z1, Z1, z3)
	})
}

//vc:for KoblitzCurve.addZ1EqualsZ2
//vc:property C10
//vc:fieldabs
//vc:inline SetInt Zero
//vc:aliases x3=x1,y3=y1,z3=z1 x3=x2,y3=y2
//vc:gen VG_addZ1
func VC_addZ1EqualsZ2(curve *KoblitzCurve, x1, y1, z1, x2, y2, x3, y3, z3 *fieldVal) {
	vc.Requires(vcMag(x1, 2) && vcMag(y1, 2) && vcMag(z1, 2) && vcZ(x1) && vcZ(y1) && vcZ(z1))
	vc.Requires(vcMag(x2, 2) && vcMag(y2, 2) && vcZ(x2) && vcZ(y2))
	vc.Requires(!vcZero(vcVal(z1)))
	X1, Y1, Z1, X2, Y2 := vcVal(x1), vcVal(y1), vcVal(z1), vcVal(x2), vcVal(y2)
	zz := vc.Mul(Z1, Z1)
	vc.NoZeroDiv(Z1, Z1)
	vc.NoZeroDiv(zz, Z1)
	vc.NoZeroDiv(vc.Sub(X2, X1), zz)
	vc.NoZeroDiv(vc.Sub(Y2, Y1), vc.Mul(zz, Z1))
	vc.NoZeroDiv(vc.Sub(X2, X1), Z1)
	vc.Modifies(x1, y1, z1, x2, y2, x3, y3, z3)
	curve.addZ1EqualsZ2(x1, y1, z1, x2, y2, x3, y3, z3)
	vcSum(true, x3, y3, z3, X1, Y1, Z1, X2, Y2, Z1)
	vc.Ensures("form", func() bool { return vcOut(x3, y3, z3) })
	vc.Ensures("arguments keep their values", func() bool {
		return vcKept(x1, X1, x3) && vcKept(y1, Y1, y3) && vcKept(z1, Z1, z3) && vcKept(x2, X2, x3) && vcKept(y2, Y2, y3)
	})
}

func VG_addZ1One(r *vc.Rand) (c *KoblitzCurve, x1, y1, z1, x2, y2, x3, y3, z3 *fieldVal) {
	c, x1, y1, z1, x2, y2, x3, y3, z3 = VG_addZ1(r)
	if z1 != z3 || x1 == x3 {
		z1.SetInt(1)
	} else {
		z1 = new(fieldVal).SetInt(1)
	}
	return
}

//vc:for KoblitzCurve.addZ1AndZ2EqualsOne
//vc:property C10
//vc:fieldabs
//vc:inline SetInt Zero
//vc:aliases x3=x1,y3=y1,z3=z1 x3=x2,y3=y2
//vc:gen VG_addZ1One
func VC_addZ1AndZ2EqualsOne(curve *KoblitzCurve, x1, y1, z1, x2, y2, x3, y3, z3 *fieldVal) {
	vc.Requires(vcMag(x1, 2) && vcMag(y1, 2) && vcMag(z1, 2) && vcZ(x1) && vcZ(y1))
	vc.Requires(vcMag(x2, 2) && vcMag(y2, 2) && vcZ(x2) && vcZ(y2))
	vc.Requires(vc.Eq(vcVal(z1), vc.I(1)))
	X1, Y1, X2, Y2, one := vcVal(x1), vcVal(y1), vcVal(x2), vcVal(y2), vc.I(1)
	vc.Modifies(x1, y1, z1, x2, y2, x3, y3, z3)
	curve.addZ1AndZ2EqualsOne(x1, y1, z1, x2, y2, x3, y3, z3)
	vcSum(true, x3, y3, z3, X1, Y1, one, X2, Y2, one)
	vc.Ensures("form", func() bool { return vcOut(x3, y3, z3) })
	vc.Ensures("arguments keep their values", func() bool {
		return vcKept(x1, X1, x3) && vcKept(y1, Y1, y3) && vcKept(z1, one, z3) && vcKept(x2, X2, x3) && vcKept(y2, Y2, y3)
	})
}

func VG_addJac(r *vc.Rand) (c *KoblitzCurve, x1, y1, z1, x2, y2, z2, x3, y3, z3 *fieldVal) {
	return vgAddArgs(r, false)
}

// addJacobian: the sum of two points, either of which may be infinite (x = y
// = 0 or z = 0)
//
//vc:for KoblitzCurve.addJacobian
//vc:property C10
//vc:fieldabs
//vc:inline SetInt Zero
//vc:aliases x3=x1,y3=y1,z3=z1 x3=x2,y3=y2,z3=z2
//vc:gen VG_addJac
func VC_addJacobian(curve *KoblitzCurve, x1, y1, z1, x2, y2, z2, x3, y3, z3 *fieldVal) {
	vc.Requires(vcMag(x1, 2) && vcMag(y1, 2) && vcMag(z1, 2) && vcZ(x1) && vcZ(y1) && vcZ(z1))
	vc.Requires(vcMag(x2, 2) && vcMag(y2, 2) && vcMag(z2, 2) && vcZ(x2) && vcZ(y2) && vcZ(z2))
	X1, Y1, Z1, X2, Y2, Z2 := vcVal(x1), vcVal(y1), vcVal(z1), vcVal(x2), vcVal(y2), vcVal(z2)
	inf1, inf2 := vcInf(X1, Y1, Z1), vcInf(X2, Y2, Z2)
	vc.Modifies(x1, y1, z1, x2, y2, z2, x3, y3, z3)
	curve.addJacobian(x1, y1, z1, x2, y2, z2, x3, y3, z3)
	vc.Ensures("first infinite", func() bool {
		return vc.Implies(inf1, vcSame(x3, X2) && vcSame(y3, Y2) && vcSame(z3, Z2))
	})
	vc.Ensures("second infinite", func() bool {
		return vc.Implies(!inf1 && inf2, vcSame(x3, X1) && vcSame(y3, Y1) && vcSame(z3, Z1))
	})
	vcSum(vcNeither(inf1, inf2), x3, y3, z3, X1, Y1, Z1, X2, Y2, Z2)
	vc.Ensures("form", func() bool { return vcOut(x3, y3, z3) })
	vc.Ensures("arguments keep their values", func() bool {
		return vcKept(x1, X1, x3) && vcKept(y1, Y1, y3) && vcKept(z1, Z1, z3) &&
			vcKept(x2, X2, x3) && vcKept(y2, Y2, y3) && vcKept(z2, Z2, z3)
	})
}

func vcInf(x, y, z *big.Int) bool { return vcZero(x) && vcZero(y) || vcZero(z) }

func vcNeither(a, b bool) bool { return !a && !b }

func vcSame(f *fieldVal, v *big.Int) bool { return vcZero(vc.Sub(vcVal(f), v)) }
