package tevm

import (
	"math/big"

	"github.com/philhofer/seth/internal/vc"
)

// C17: the packed account record (32 bytes of balance, 8 of nonce, 1 flag).

func vcBal(a *Account) *big.Int { return vc.BE(a[:32]) }

func VG_AcctBal(r *vc.Rand) (*Account, *big.Int) {
	a, v, _, _ := VG_Account(r)
	return a, v
}

//vc:for Account.SetBalance
//vc:property C17
//vc:gen VG_AcctBal
func VC_Account_SetBalance(a *Account, v *big.Int) {
	vc.Requires(vc.Le(vc.I(0), v) && vc.Lt(v, vc.Pow2(256)))
	vc.Modifies(a)
	a0, v0 := *a, vc.Copy(v)
	a.SetBalance(v)
	vc.Ensures("the balance is kept", func() bool { return vc.Eq(vcBal(a), v0) })
	vc.Ensures("nonce and flag stay", func() bool { return vc.BytesEq(a[32:], a0[32:]) })
}

func VG_Acct(r *vc.Rand) *Account {
	a, _, _, _ := VG_Account(r)
	return a
}

//vc:for Account.Balance
//vc:property C17
//vc:gen VG_Acct
func VC_Account_Balance(a *Account) {
	b := a.Balance()
	vc.Ensures("the balance kept", func() bool { return vc.Eq(b.Big(), vcBal(a)) })
}

func VG_AcctNonce(r *vc.Rand) (*Account, uint64) {
	a, _, n, _ := VG_Account(r)
	return a, n
}

//vc:for Account.SetNonce
//vc:property C17
//vc:gen VG_AcctNonce
func VC_Account_SetNonce(a *Account, n uint64) {
	vc.Modifies(a)
	a0 := *a
	a.SetNonce(n)
	vc.Ensures("the nonce is kept", func() bool { return vc.Eq(vc.BE(a[32:40]), vc.U(n)) })
	vc.Ensures("balance and flag stay", func() bool { return vc.BytesEq(a[:32], a0[:32]) && a[40] == a0[40] })
}

//vc:for Account.Nonce
//vc:property C17
//vc:gen VG_Acct
func VC_Account_Nonce(a *Account) {
	n := a.Nonce()
	vc.Ensures("the nonce kept", func() bool { return vc.Eq(vc.U(n), vc.BE(a[32:40])) })
}

func VG_AcctBool(r *vc.Rand) (*Account, bool) {
	a, _, _, t := VG_Account(r)
	return a, t
}

//vc:for Account.SetSuicided
//vc:property C17
//vc:gen VG_AcctBool
func VC_Account_SetSuicided(a *Account, t bool) {
	vc.Modifies(a)
	a0 := *a
	a.SetSuicided(t)
	vc.Ensures("the flag is kept", func() bool { return (a[40] != 0) == t })
	vc.Ensures("balance and nonce stay", func() bool { return vc.BytesEq(a[:40], a0[:40]) })
}

//vc:for Account.Suicided
//vc:property C17
//vc:gen VG_Acct
func VC_Account_Suicided(a *Account) {
	t := a.Suicided()
	vc.Ensures("the flag kept", func() bool { return t == (a[40] != 0) })
}

// every field reads as last written
//
//vc:property C17
//vc:gen VG_Account
func VT_Account(a *Account, v *big.Int, n uint64, t bool) {
	vc.Requires(vc.Le(vc.I(0), v) && vc.Lt(v, vc.Pow2(256)))
	a.SetNonce(n)
	a.SetBalance(v)
	a.SetSuicided(t)
	b, m, s := a.Balance(), a.Nonce(), a.Suicided()
	vc.Assert("as written", func() bool { return vc.Eq(b.Big(), v) && m == n && s == t })
	a.SetNonce(n + 1)
	b, s = a.Balance(), a.Suicided()
	vc.Assert("the others stay", func() bool { return vc.Eq(b.Big(), v) && s == t })
}
