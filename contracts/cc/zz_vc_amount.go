package cc

import (
	"math/big"
	"strings"

	"github.com/philhofer/seth/internal/vc"
)

// C13, C14, proved: the arithmetic of amounts and the parsing of decimals.
// The reading of a run of digits is math/big's (SetString), powers of ten
// are math/big's (Exp); both are uninterpreted here.

// vcKnown, vcDigits: the table of currencies, which lookups do not change
//
//vc:abstract
func vcKnown(c Currency) bool { return currencies[string(c)] != nil }

//vc:abstract
func vcDigits(c Currency) int { return currencies[string(c)].digits }

func VG_Currency(r *vc.Rand) Currency { return vgCurrency(r) }

//vc:for Currency.Digits
//vc:property C13 C14
//vc:gen VG_Currency
func VB_Digits(c Currency) {
	vc.Requires(vcKnown(c))
	d := c.Digits()
	vc.Ensures("of the table", func() bool { return d == vcDigits(c) })
	vc.Ensures("counts digits", func() bool { return d >= 0 && d < 1<<16 })
}

func vcPower(n int) *big.Int { return new(big.Int).Exp(vc.I(10), vc.I(int64(n)), nil) }

func VG_Scaled(r *vc.Rand) (*big.Int, int) {
	return r.Big(200, true), r.Intn(80)
}

//vc:for exp10
//vc:property C13 C14
//vc:gen VG_Scaled
func VC_exp10(b *big.Int, n int) {
	vc.Requires(n >= 0)
	vc.Modifies(b)
	b0 := vc.Copy(b)
	exp10(b, n)
	vc.Ensures("multiplied", func() bool {
		return n == 0 && vc.Eq(b, b0) || n != 0 && vc.Eq(b, vc.Mul(b0, vcPower(n)))
	})
}

//vc:for div10
//vc:property C13 C14
//vc:gen VG_Scaled
func VC_div10(b *big.Int, n int) {
	vc.Requires(n >= 0)
	vc.Modifies(b)
	b0 := vc.Copy(b)
	div10(b, n)
	vc.Ensures("divided, rounded down", func() bool {
		return n == 0 && vc.Eq(b, b0) || n != 0 && vc.Eq(b, vc.Div(b0, vcPower(n)))
	})
}

func VG_Scaled2(r *vc.Rand) (*big.Int, int) {
	return r.Big(200, true), r.Intn(160) - 80
}

//vc:for pow10
//vc:property C13 C14
//vc:gen VG_Scaled2
func VC_pow10(b *big.Int, n int) {
	vc.Requires(n > -1<<40 && n < 1<<40)
	vc.Modifies(b)
	b0 := vc.Copy(b)
	pow10(b, n)
	vc.Ensures("scaled", func() bool {
		switch {
		case n == 0:
			return vc.Eq(b, b0)
		case n > 0:
			return vc.Eq(b, vc.Mul(b0, vcPower(n)))
		}
		return vc.Eq(b, vc.Div(b0, vcPower(-n)))
	})
}

// vcRun: s is read by math/big as a number, and does not start with a sign
func vcRun(s string) bool {
	if s[0] < '0' || s[0] > '9' {
		return false
	}
	_, ok := new(big.Int).SetString(s, 10)
	return ok
}

func vcRunValue(s string) *big.Int {
	v, _ := new(big.Int).SetString(s, 10)
	return v
}

// vcSplit: the sign, integer and fraction of a decimal text
func vcSplit(s string) (neg bool, ip, fp string) {
	ip = s
	if i := strings.IndexByte(s, '.'); i != -1 {
		ip, fp = s[:i], s[i+1:]
	}
	if ip != "" && ip[0] == '-' {
		return true, ip[1:], fp
	}
	return false, ip, fp
}

func VG_Parse2(r *vc.Rand) (*big.Int, string, int) { return VG_Parse(r) }

func vcScale(v *big.Int, n int) *big.Int {
	if n == 0 {
		return v
	}
	return vc.Mul(v, vcPower(n))
}

// vcAccepted: s is a decimal text with at most the given number of digits
func vcAccepted(s string, digits int) bool {
	_, ip, fp := vcSplit(s)
	return (ip != "" || fp != "") && (ip == "" || vcRun(ip)) && (fp == "" || vcRun(fp)) && len(fp) <= digits
}

// vcIsDecimal: v is the value of the accepted text s
func vcIsDecimal(v *big.Int, s string, digits int) bool {
	neg, ip, fp := vcSplit(s)
	w := vc.I(0)
	if ip != "" {
		w = vcScale(vcRunValue(ip), digits)
	}
	if fp != "" {
		w = vc.Add(w, vcScale(vcRunValue(fp), digits-len(fp)))
	}
	if neg {
		w = vc.Neg(w)
	}
	return vc.Eq(v, w)
}

//vc:property C13
//vc:gen VG_Parse2
func VT_parseDigits(num *big.Int, s string, digits int) {
	vc.Requires(digits >= 0)
	got, err := parseDigits(num, s, digits)
	vc.Ensures("accepts exactly the decimal texts", func() bool { return (err == nil) == vcAccepted(s, digits) })
	vc.Ensures("the target is the result", func() bool { return err != nil && got == nil || err == nil && got == num })
	vc.Ensures("exact value", func() bool { return err != nil || vcIsDecimal(num, s, digits) })
}

func VG_RateText(r *vc.Rand) string { return vgDecimal(r, RateDigits) }

//vc:property C13
//vc:gen VG_RateText
func VT_ParseRate(s string) {
	r, err := ParseRate(s)
	vc.Ensures("accepts exactly the decimal texts", func() bool { return (err == nil) == vcAccepted(s, RateDigits) && (err == nil) == (r != nil) })
	vc.Ensures("exact value", func() bool { return err != nil || vcIsDecimal((*big.Int)(r), s, RateDigits) })
}

func VG_AmountText(r *vc.Rand) (Currency, string) {
	c := vgCurrency(r)
	return c, vgDecimal(r, c.Digits())
}

//vc:property C13
//vc:gen VG_AmountText
func VT_ParseAmount(c Currency, s string) {
	vc.Requires(vcKnown(c))
	a, err := c.ParseAmount(s)
	vc.Ensures("accepts exactly the decimal texts", func() bool { return (err == nil) == vcAccepted(s, vcDigits(c)) && (err == nil) == (a != nil) })
	vc.Ensures("exact value and the currency", func() bool {
		return err != nil || a.Currency == c && vcIsDecimal(&a.Amount, s, vcDigits(c))
	})
}

func VG_RateJSON(r *vc.Rand) (*Rate, []byte) {
	s := vgDecimal(r, RateDigits)
	if r.Bool() {
		s = `"` + s + `"`
	}
	if r.P(10) {
		s = string(VG_JSONBytes(r))
	}
	return (*Rate)(r.Big(60, true)), []byte(s)
}

//vc:property C13
//vc:gen VG_RateJSON
func VT_RateJSON(q *Rate, b []byte) {
	q0 := vc.Copy((*big.Int)(q))
	s := string(b)
	err := q.UnmarshalJSON(b)
	null := s == "null"
	vc.Ensures("null leaves it", func() bool { return !null || err == nil && vc.Eq((*big.Int)(q), q0) })
	if len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' {
		s = s[1 : len(s)-1]
	}
	vc.Ensures("accepts exactly the decimal texts", func() bool { return null || (err == nil) == vcAccepted(s, RateDigits) })
	vc.Ensures("exact value", func() bool { return null || err != nil || vcIsDecimal((*big.Int)(q), s, RateDigits) })
	vc.Ensures("an error leaves it", func() bool { return err == nil || vc.Eq((*big.Int)(q), q0) })
}

func VG_Amount(r *vc.Rand) *Amount { a, _ := VG_TwoAmounts(r); return a }

func VG_TwoAmounts(r *vc.Rand) (*Amount, *Amount) {
	c, d, x, y := VG_Arith(r)
	return &Amount{c, *x}, &Amount{d, *y}
}

// vcUnset: the amount has no currency and no value
func vcUnset(a *Amount) bool { return a.Currency == "" && a.Amount.Sign() == 0 }

//vc:for Amount.Set
//vc:property C14
//vc:gen VG_TwoAmounts
//vc:aliases x=a
func VC_AmountSet(a, x *Amount) {
	vc.Modifies(a)
	c, v := x.Currency, vc.Copy(&x.Amount)
	vc.Returns(0, a)
	r := a.Set(x)
	vc.Ensures("is the other", func() bool { return r == a && a.Currency == c && vc.Eq(&a.Amount, v) })
}

//vc:for Amount.Copy
//vc:property C14
//vc:gen VG_Amount
func VC_AmountCopy(a *Amount) {
	r := a.Copy()
	vc.Ensures("is the same", func() bool { return r != nil && r.Currency == a.Currency && vc.Eq(&r.Amount, &a.Amount) })
}

//vc:for Amount.Neg
//vc:property C14
//vc:gen VG_Amount
func VC_AmountNeg(a *Amount) {
	vc.Modifies(a)
	c, v := a.Currency, vc.Copy(&a.Amount)
	vc.Returns(0, a)
	r := a.Neg()
	vc.Ensures("negated", func() bool { return r == a && a.Currency == c && vc.Eq(&a.Amount, vc.Neg(v)) })
}

//vc:for Amount.Add
//vc:property C14
//vc:gen VG_TwoAmounts
//vc:aliases x=a
func VC_AmountAdd(a, x *Amount) {
	vc.Requires(a.Currency == x.Currency || vcUnset(a))
	vc.Modifies(a)
	c, v, w := x.Currency, vc.Copy(&a.Amount), vc.Copy(&x.Amount)
	vc.Returns(0, a)
	r := a.Add(x)
	vc.Ensures("the sum", func() bool { return r == a && a.Currency == c && vc.Eq(&a.Amount, vc.Add(v, w)) })
}

//vc:for Amount.Sub
//vc:property C14
//vc:gen VG_TwoAmounts
//vc:aliases x=a
func VC_AmountSub(a, x *Amount) {
	vc.Requires(a.Currency == x.Currency || vcUnset(a))
	vc.Modifies(a)
	c, v, w := x.Currency, vc.Copy(&a.Amount), vc.Copy(&x.Amount)
	vc.Returns(0, a)
	r := a.Sub(x)
	vc.Ensures("the difference", func() bool { return r == a && a.Currency == c && vc.Eq(&a.Amount, vc.Sub(v, w)) })
}

//vc:for Amount.Cmp
//vc:property C14
//vc:gen VG_TwoAmounts
//vc:aliases x=a
func VC_AmountCmp(a, x *Amount) {
	vc.Requires(a.Currency == x.Currency)
	n := a.Cmp(x)
	vc.Ensures("the order", func() bool {
		switch {
		case vc.Lt(&a.Amount, &x.Amount):
			return n == -1
		case vc.Eq(&a.Amount, &x.Amount):
			return n == 0
		}
		return n == 1
	})
}

func VG_Rate(r *vc.Rand) *Rate {
	_, _, _, q := VG_Convert(r)
	return (*Rate)(q)
}

//vc:for Rate.Inverse
//vc:property C14
//vc:view
//vc:gen VG_Rate
func VC_Inverse(r *Rate) {
	v := vc.Copy((*big.Int)(r))
	q := r.Inverse()
	vc.Ensures("of zero is zero", func() bool { return v.Sign() != 0 || q == r })
	vc.Ensures("the reciprocal, rounded", func() bool {
		return v.Sign() == 0 || q != nil && vc.Eq((*big.Int)(q), vc.Div(vcTen(16), v))
	})
}

func VG_Conv(r *vc.Rand) (*Amount, Currency, *Rate) {
	c, d, x, q := VG_Convert(r)
	return &Amount{c, *x}, d, (*Rate)(q)
}

func vcConv(v, rate *big.Int, from, to Currency) *big.Int {
	n := vc.Mul(v, rate)
	e := vcDigits(to) - vcDigits(from) - RateDigits
	if e > 0 {
		return vc.Mul(n, vcPower(e))
	}
	if e < 0 {
		return vc.Div(n, vcPower(-e))
	}
	return n
}

//vc:for Convert
//vc:property C14
//vc:gen VG_Conv
func VC_Convert(a *Amount, to Currency, r *Rate) {
	vc.Requires(vcKnown(a.Currency))
	vc.Requires(vcKnown(to))
	b := Convert(a, to, r)
	vc.Ensures("the product rounded down", func() bool {
		return b != nil && b.Currency == to && vc.Eq(&b.Amount, vcConv(&a.Amount, (*big.Int)(r), a.Currency, to))
	})
}

func VG_PairConv(r *vc.Rand) (*Pair, *Amount) {
	c, d, x, q := VG_Convert(r)
	p := &Pair{c, d, Rate(*q)}
	if r.Bool() {
		c = d
	}
	return p, &Amount{c, *x}
}

//vc:for Pair.Convert
//vc:property C14
//vc:gen VG_PairConv
func VC_PairConvert(p *Pair, a *Amount) {
	vc.Requires(vcKnown(p.From))
	vc.Requires(vcKnown(p.To))
	vc.Requires(a.Currency == p.From || a.Currency == p.To)
	b := p.Convert(a)
	vc.Ensures("at the rate or its reciprocal", func() bool {
		if b == nil {
			return false
		}
		rate := (*big.Int)(&p.Rate)
		if a.Currency == p.From {
			return b.Currency == p.To && vc.Eq(&b.Amount, vcConv(&a.Amount, rate, p.From, p.To))
		}
		if rate.Sign() != 0 {
			rate = vc.Div(vcTen(16), rate)
		}
		return b.Currency == p.From && vc.Eq(&b.Amount, vcConv(&a.Amount, rate, p.To, p.From))
	})
}

func VG_Pair(r *vc.Rand) *Pair { p, _ := VG_PairConv(r); return p }

//vc:for Pair.Inverse
//vc:property C14
//vc:gen VG_Pair
func VC_PairInverse(p *Pair) {
	q := p.Inverse()
	vc.Ensures("the other way round", func() bool {
		if q == nil || q.From != p.To || q.To != p.From {
			return false
		}
		rate := (*big.Int)(&p.Rate)
		if rate.Sign() == 0 {
			return (*big.Int)(&q.Rate).Sign() == 0
		}
		return vc.Eq((*big.Int)(&q.Rate), vc.Div(vcTen(16), rate))
	})
}
