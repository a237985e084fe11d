package seth

import (
	"math/big"

	"github.com/philhofer/seth/internal/vc"
)

// C07, C08: signatures

func vcN() *big.Int {
	return vc.Hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
}
func vcHalfN() *big.Int {
	return vc.Hex("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0")
}

func VG_copypad(r *vc.Rand) ([]byte, []byte) { return r.Bytes(r.Intn(70)), r.Bytes(r.Intn(34)) }

//vc:for copypad
//vc:property C07 C08
//vc:gen VG_copypad
func VC_copypad(dst, src []byte) {
	vc.Requires(len(src) <= len(dst))
	vc.Modifies(dst)
	src0 := vc.Snap(src)
	copypad(dst, src)
	vc.Ensures("zeros in front", func() bool { return vcZero(dst[:len(dst)-len(src0)]) })
	vc.Ensures("then the bytes", func() bool { return vc.BytesEq(dst[len(dst)-len(src0):], src0) })
}

func VG_NewPrivateKey(r *vc.Rand) *big.Int { return vgScalar(r) }

// A key is the 32 bytes of its number.
//
//vc:for NewPrivateKey
//vc:property C08
//vc:gen VG_NewPrivateKey
func VC_NewPrivateKey(d *big.Int) {
	vc.Requires(vc.Le(vc.I(0), d) && vc.Lt(d, vc.Pow2(256)))
	d0 := vc.Copy(d)
	pk := NewPrivateKey(d)
	vc.Ensures("a key", func() bool { return pk != nil })
	vc.Ensures("of that number", func() bool { return vc.Eq(vc.BE(pk[:]), d0) })
	vc.Ensures("argument unchanged", func() bool { return vc.Eq(d, d0) })
}

func VG_NewPublicKey(r *vc.Rand) (*big.Int, *big.Int) { return vgScalar(r), vgScalar(r) }

//vc:for NewPublicKey
//vc:property C08
//vc:gen VG_NewPublicKey
func VC_NewPublicKey(x, y *big.Int) {
	vc.Requires(vc.Le(vc.I(0), x) && vc.Lt(x, vc.Pow2(256)) && vc.Le(vc.I(0), y) && vc.Lt(y, vc.Pow2(256)))
	x0, y0 := vc.Copy(x), vc.Copy(y)
	pk := NewPublicKey(x, y)
	vc.Ensures("a key", func() bool { return pk != nil })
	vc.Ensures("x first", func() bool { return vc.Eq(vc.BE(pk[:32]), x0) })
	vc.Ensures("then y", func() bool { return vc.Eq(vc.BE(pk[32:]), y0) })
	vc.Ensures("arguments unchanged", func() bool { return vc.Eq(x, x0) && vc.Eq(y, y0) })
}

func VG_PubKey(r *vc.Rand) *PublicKey {
	k := new(PublicKey)
	copy(k[:], r.Bytes(64))
	if r.P(30) {
		x, y := vc.SecpBase(vgScalar(r))
		x.FillBytes(k[:32])
		y.FillBytes(k[32:])
	}
	return k
}

// An address is the last 20 bytes of the hash of the key.
//
//vc:for PublicKey.Address
//vc:property C08
//vc:gen VG_PubKey
func VC_PublicKey_Address(k *PublicKey) {
	k0 := *k
	addr := k.Address()
	h := vc.Keccak(k0[:])
	vc.Ensures("an address", func() bool { return addr != nil })
	vc.Ensures("of the last 20 bytes of the hash", func() bool { return vc.BytesEq(addr[:], h[12:]) })
	vc.Ensures("key unchanged", func() bool { return *k == k0 })
}

// scalars around the edges of the ranges
func vgScalar(r *vc.Rand) *big.Int {
	var v *big.Int
	switch r.Intn(6) {
	case 0:
		v = vc.Add(vcHalfN(), vc.I(int64(r.Intn(7)-3)))
	case 1:
		v = vc.Add(vcN(), vc.I(int64(r.Intn(7)-3)))
	case 2:
		v = vc.I(int64(r.Intn(4)))
	case 3:
		v = r.Big(8*r.Intn(33), false)
	default:
		v = r.Big(256, false)
	}
	if v.BitLen() > 256 {
		v = vc.Sub(vc.Pow2(256), vc.I(1))
	}
	return v
}

func VG_NewSignature(r *vc.Rand) (*big.Int, *big.Int, int) {
	return vc.Mod(vgScalar(r), vcN()), vc.Mod(vgScalar(r), vcN()), r.Intn(2)
}

//vc:for NewSignature
//vc:property C07 C08
//vc:gen VG_NewSignature
//vc:big order=fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141 halforder=7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0
func VC_NewSignature(r, s *big.Int, v int) {
	vc.Requires(vc.Le(vc.I(0), r) && vc.Lt(r, vc.Pow2(256)) && vc.Le(vc.I(0), s) && vc.Lt(s, vcN()) && 0 <= v && v <= 1)
	r0, s0 := vc.Copy(r), vc.Copy(s)
	sig := NewSignature(r, s, v)
	high := vc.Lt(vcHalfN(), s0)
	vc.Ensures("a signature", func() bool { return sig != nil })
	vc.Ensures("r padded to 32 bytes", func() bool { return vc.Eq(vc.BE(sig[:32]), r0) })
	vc.Ensures("low s is kept", func() bool { return high || vc.Eq(vc.BE(sig[32:64]), s0) && int(sig[64]) == v })
	vc.Ensures("high s is negated", func() bool {
		return !high || vc.Eq(vc.BE(sig[32:64]), vc.Sub(vcN(), s0)) && int(sig[64]) == 1-v
	})
	vc.Ensures("arguments unchanged", func() bool { return vc.Eq(r, r0) && vc.Eq(s, s0) })
}

func VG_Sig(r *vc.Rand) *Signature {
	s := new(Signature)
	vgScalar(r).FillBytes(s[:32])
	vgScalar(r).FillBytes(s[32:64])
	s[64] = byte(r.Intn(2))
	if r.P(5) {
		s[64] = byte(r.Uint64())
	}
	return s
}

// vcSigValid: r in [1, n-1], s in [1, n/2]
func vcSigValid(z []byte) bool {
	r, s := vc.BE(z[:32]), vc.BE(z[32:64])
	return !vc.IsZero(r) && vc.Lt(r, vcN()) && !vc.IsZero(s) && vc.Le(s, vcHalfN())
}

//vc:for Signature.parts
//vc:property C07
//vc:gen VG_Sig
//vc:big order=fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141 halforder=7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0
func VC_Signature_parts(z *Signature) {
	r, s, v, ok := z.parts()
	vc.Ensures("validity", func() bool { return ok == vcSigValid(z[:]) })
	vc.Ensures("r", func() bool { return !ok || vc.Eq(&r, vc.BE(z[:32])) })
	vc.Ensures("s", func() bool { return !ok || vc.Eq(&s, vc.BE(z[32:64])) })
	vc.Ensures("v", func() bool { return v == int(z[64]) })
}

//vc:for Signature.Parts
//vc:property C07
//vc:gen VG_Sig
func VC_Signature_Parts(z *Signature) {
	r, s, v := z.Parts()
	vc.Ensures("parts of a valid signature", func() bool {
		return !vcSigValid(z[:]) || vc.Eq(&r, vc.BE(z[:32])) && vc.Eq(&s, vc.BE(z[32:64])) && v == int(z[64])
	})
}

//vc:for Signature.Valid
//vc:property C07
//vc:gen VG_Sig
func VC_Signature_Valid(z *Signature) {
	ok := z.Valid()
	vc.Ensures("validity", func() bool { return ok == vcSigValid(z[:]) })
}

func VG_Recover(r *vc.Rand) (*Signature, *Hash) {
	s := VG_Sig(r)
	if r.P(50) { // an x-coordinate
		x, _ := vc.SecpBase(vgScalar(r))
		x.FillBytes(s[:32])
		if r.Bool() {
			vc.Mod(vgScalar(r), vcHalfN()).FillBytes(s[32:64])
		}
	}
	h := vgHash(r)
	if r.P(10) {
		vcN().FillBytes(h[:])
	}
	return s, h
}

// Recover refuses invalid signatures and otherwise yields the key q with
// r*q = s*R - e*G.
//
//vc:property C07 C08
//vc:gen VG_Recover
func VB_Recover(z *Signature, h *Hash) {
	vc.Requires(z[64] <= 1)
	z0, h0 := *z, *h
	pk, err := z.Recover(h)
	vc.Ensures("arguments unchanged", func() bool { return *z == z0 && *h == h0 })
	r, s, e := vc.BE(z[:32]), vc.BE(z[32:64]), vc.BE(h[:])
	y, on := vc.SecpLift(r, uint(z[64]))
	ok := vcSigValid(z[:]) && on
	vc.Ensures("invalid signatures are refused", func() bool { return ok || err != nil })
	if !ok {
		return
	}
	ri := new(big.Int).ModInverse(r, vcN())
	ax, ay := vc.SecpMul(vc.Mul(s, ri), r, y)
	bx, by := vc.SecpBase(vc.Neg(vc.Mul(e, ri)))
	qx, qy := vc.SecpAdd(ax, ay, bx, by)
	if vc.SecpInf(qx, qy) {
		return
	}
	vc.Ensures("valid signatures are accepted", func() bool { return err == nil })
	vc.Ensures("key", func() bool {
		return err != nil || vc.Eq(vc.BE(pk[:32]), qx) && vc.Eq(vc.BE(pk[32:]), qy)
	})
}

func VG_Lift(r *vc.Rand) (*big.Int, *big.Int, int) {
	x, v := VG_CurvePoint(r)
	return x, vgScalar(r), v
}

// CurvePoint as Recover sees it (bounded: executed).
//
//vc:for CurvePoint
//vc:property C07 C08
//vc:gen VG_Lift
func VB_Lift(x, y *big.Int, v int) {
	vc.Requires(vc.Le(vc.I(0), x) && vc.Lt(x, vc.SecpP))
	vc.Modifies(y)
	CurvePoint(x, y, v)
	want, ok := vc.SecpLift(x, uint(v)&1)
	vc.Ensures("point of the curve if there is one", func() bool { return vc.SecpOn(x, y) == ok && (!ok || vc.Eq(y, want)) })
	vc.Ensures("in range", func() bool { return vc.Le(vc.I(0), y) && vc.Le(y, vc.SecpP) })
}

// VC_Recover: invalid signatures are refused; the key of the others is
// q = (s/r)*R - (e/r)*G, with the point R of the signature.
//
//vc:for Signature.Recover
//vc:inline parts Parts Valid
//vc:property C08 C07
//vc:gen VG_Recover
//vc:big order=fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141 halforder=7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0
func VC_Recover(z *Signature, h *Hash) {
	pk, err := z.Recover(h)
	r, s, e := vc.BE(z[:32]), vc.BE(z[32:64]), vc.BE(h[:])
	y, on := vc.SecpLift(r, uint(z[64])&1)
	ok := vcSigValid(z[:]) && on
	vc.Ensures("invalid signatures are refused", func() bool { return ok || err != nil })
	vc.Ensures("the others are not", func() bool { return !ok || err == nil && pk != nil })
	if !ok {
		return
	}
	ri := new(big.Int).ModInverse(r, vcN())
	ax, ay := vc.SecpMul(vc.Mul(s, ri), r, y)
	bx, by := vc.SecpBase(vc.Neg(vc.Mul(e, ri)))
	qx, qy := vc.SecpAdd(ax, ay, bx, by)
	vc.Ensures("the key", func() bool { return vc.Eq(vc.BE(pk[:32]), qx) && vc.Eq(vc.BE(pk[32:]), qy) })
}

func VG_CurvePoint(r *vc.Rand) (*big.Int, int) {
	x := vc.Mod(vgScalar(r), vc.SecpP)
	if r.P(30) {
		x, _ = vc.SecpBase(vgScalar(r))
	}
	return x, r.Intn(4)
}

//vc:property C07 C08
//vc:gen VG_CurvePoint
func VB_CurvePoint(x *big.Int, v int) {
	var y big.Int
	x0 := vc.Copy(x)
	CurvePoint(x, &y, v)
	want, ok := vc.SecpLift(x0, uint(v)&1)
	vc.Ensures("x unchanged", func() bool { return vc.Eq(x, x0) })
	vc.Ensures("point of the curve", func() bool { return !ok || vc.Eq(&y, want) })
}

// vcKeyOK: k is in [1, n-1]
func vcKeyOK(k []byte) bool { return !vc.IsZero(vc.BE(k)) && vc.Lt(vc.BE(k), vcN()) }

func VG_SignKey(r *vc.Rand) (*PrivateKey, *Hash) {
	k := new(PrivateKey)
	vc.Mod(vgScalar(r), vcN()).FillBytes(k[:])
	h := vgHash(r)
	switch r.Intn(8) {
	case 0:
		vcN().FillBytes(h[:])
	case 1:
		vgScalar(r).FillBytes(h[:])
	}
	return k, h
}

// VC_Sign: signatures are valid, with low s.
//
//vc:for PrivateKey.Sign
//vc:property C07 C08
//vc:gen VG_SignKey
//vc:big order=fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141 halforder=7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0
func VC_Sign(k *PrivateKey, h *Hash) {
	vc.Requires(vcKeyOK(k[:]))
	k0, h0 := *k, *h
	sig := k.Sign(h)
	vc.Ensures("a signature", func() bool { return sig != nil })
	vc.Ensures("valid, with low s", func() bool { return vcSigValid(sig[:]) })
	vc.Ensures("parity", func() bool { return sig[64] <= 1 })
	vc.Ensures("arguments unchanged", func() bool { return *k == k0 && *h == h0 })
}

//vc:property C08 C07
//vc:gen VG_SignKey
func VB_Sign(k *PrivateKey, h *Hash) {
	vc.Requires(vcKeyOK(k[:]))
	k0, h0 := *k, *h
	sig := k.Sign(h)
	pub := k.PublicKey()
	vc.Ensures("arguments unchanged", func() bool { return *k == k0 && *h == h0 })
	vc.Ensures("valid, with low s", func() bool { return vcSigValid(sig[:]) && sig[64] <= 1 })
	qx, qy := vc.SecpBase(vc.BE(k[:]))
	vc.Ensures("public key is the base point times the key", func() bool {
		return vc.Eq(vc.BE(pub[:32]), qx) && vc.Eq(vc.BE(pub[32:]), qy)
	})
	// textbook verification
	r, s, e := vc.BE(sig[:32]), vc.BE(sig[32:64]), vc.BE(h[:])
	si := new(big.Int).ModInverse(s, vcN())
	ax, ay := vc.SecpBase(vc.Mul(e, si))
	bx, by := vc.SecpMul(vc.Mul(r, si), qx, qy)
	x, _ := vc.SecpAdd(ax, ay, bx, by)
	vc.Ensures("verifies", func() bool { return vc.Eq(vc.Mod(x, vcN()), r) })
	rec, err := sig.Recover(h)
	vc.Ensures("recovers to the signer's key", func() bool { return err == nil && *rec == *pub })
	hk := vc.Keccak(pub[:])
	vc.Ensures("recovers to the signer's address", func() bool {
		return err != nil || *rec.Address() == *k.Address() && vc.BytesEq(k.Address()[:], hk[12:])
	})
	s2, err := k.Signer()(h)
	vc.Ensures("Signer signs alike", func() bool {
		if err != nil || !s2.Valid() {
			return false
		}
		rec2, err := s2.Recover(h)
		return err == nil && *rec2 == *pub
	})
	ek := k.ToECDSA()
	vc.Ensures("ECDSA form", func() bool { return vc.Eq(ek.X, qx) && vc.Eq(ek.Y, qy) && vc.Eq(ek.D, vc.BE(k[:])) })
	pe := pub.ToECDSA()
	vc.Ensures("public ECDSA form", func() bool { return vc.Eq(pe.X, qx) && vc.Eq(pe.Y, qy) })
}

// VB_order: the package variables have the values the proofs take for them.
//
//vc:property C07 C08
func VB_order() {
	vc.Assert("order", func() bool { return vc.Eq(order, vcN()) })
	vc.Assert("half order", func() bool { return vc.Eq(halforder, vcHalfN()) })
	vc.Assert("field", func() bool { return vc.Eq(params.P, vc.SecpP) })
	vc.Assert("base point", func() bool { return vc.Eq(params.Gx, vc.SecpGx) && vc.Eq(params.Gy, vc.SecpGy) })
}
