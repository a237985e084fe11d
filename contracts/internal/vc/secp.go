package vc

import "math/big"

// secp256k1 by the textbook group law, in affine coordinates. The point at
// infinity is (0, 0).
var (
	SecpP  = Hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	SecpN  = Hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	SecpGx = Hex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	SecpGy = Hex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
)

// SecpOn: (x, y) is a finite point of the curve
func SecpOn(x, y *big.Int) bool {
	return x.Sign() >= 0 && x.Cmp(SecpP) < 0 && y.Sign() >= 0 && y.Cmp(SecpP) < 0 &&
		EqMod(Mul(y, y), Add(Mul(x, Mul(x, x)), I(7)), SecpP)
}

func SecpInf(x, y *big.Int) bool { return x.Sign() == 0 && y.Sign() == 0 }

func SecpAdd(x1, y1, x2, y2 *big.Int) (x, y *big.Int) {
	if SecpInf(x1, y1) {
		return Copy(x2), Copy(y2)
	}
	if SecpInf(x2, y2) {
		return Copy(x1), Copy(y1)
	}
	var l *big.Int
	if Eq(x1, x2) {
		if IsZero(Mod(Add(y1, y2), SecpP)) {
			return I(0), I(0)
		}
		l = Mul(Mul(I(3), Mul(x1, x1)), new(big.Int).ModInverse(Mul(I(2), y1), SecpP))
	} else {
		l = Mul(Sub(y2, y1), new(big.Int).ModInverse(Mod(Sub(x2, x1), SecpP), SecpP))
	}
	x = Mod(Sub(Sub(Mul(l, l), x1), x2), SecpP)
	y = Mod(Sub(Mul(l, Sub(x1, x)), y1), SecpP)
	return
}

func SecpMul(k, px, py *big.Int) (x, y *big.Int) {
	x, y = I(0), I(0)
	k = Mod(k, SecpN)
	for i := k.BitLen() - 1; i >= 0; i-- {
		x, y = SecpAdd(x, y, x, y)
		if k.Bit(i) == 1 {
			x, y = SecpAdd(x, y, px, py)
		}
	}
	return
}

func SecpBase(k *big.Int) (x, y *big.Int) { return SecpMul(k, SecpGx, SecpGy) }

// SecpLift is the point with the given x and parity of y, if there is one.
func SecpLift(x *big.Int, odd uint) (y *big.Int, ok bool) {
	if x.Sign() < 0 || x.Cmp(SecpP) >= 0 {
		return nil, false
	}
	y = new(big.Int).ModSqrt(Mod(Add(Mul(x, Mul(x, x)), I(7)), SecpP), SecpP)
	if y == nil {
		return nil, false
	}
	if y.Bit(0) != odd {
		y = Sub(SecpP, y)
	}
	return y, true
}
