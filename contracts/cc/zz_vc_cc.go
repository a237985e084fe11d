package cc

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/philhofer/seth/internal/vc"
)

// C13, C14: decimal amounts

// vcMade has a currency for every number of digits up to 40
var vcMade = func() (cs []Currency) {
	for i := 0; i <= 40; i++ {
		cs = append(cs, NewCurrency(fmt.Sprintf("vcD%d", i), i))
	}
	return
}()

var vcWellKnown = []Currency{EUR, BTC, ETH, ZEC, EDG, GUP, FUCK, GOOD, UNI, OST, DICE}

func vgCurrency(r *vc.Rand) Currency {
	if r.P(40) {
		return vcWellKnown[r.Intn(len(vcWellKnown))]
	}
	return vcMade[r.Intn(len(vcMade))]
}

func vcTen(n int) *big.Int {
	v := vc.I(1)
	for ; n > 0; n-- {
		v = vc.Mul(v, vc.I(10))
	}
	return v
}

// vcDecimal is the value of the decimal text s in units of 10^-digits
func vcDecimal(s string, digits int) (*big.Int, bool) {
	neg := strings.HasPrefix(s, "-")
	if neg {
		s = s[1:]
	}
	v, seen, frac := vc.I(0), 0, -1
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] >= '0' && s[i] <= '9':
			v = vc.Add(vc.Mul(v, vc.I(10)), vc.I(int64(s[i]-'0')))
			seen++
			if frac >= 0 {
				frac++
			}
		case s[i] == '.' && frac < 0:
			frac = 0
		default:
			return nil, false
		}
	}
	if frac < 0 {
		frac = 0
	}
	if seen == 0 || frac > digits {
		return nil, false
	}
	v = vc.Mul(v, vcTen(digits-frac))
	if neg {
		v = vc.Neg(v)
	}
	return v, true
}

func vgDecimal(r *vc.Rand, digits int) string {
	s := ""
	if r.P(25) {
		s = "-"
	}
	dig := func(n int) {
		for ; n > 0; n-- {
			s += string(rune('0' + r.Intn(10)))
		}
	}
	switch r.Intn(4) {
	case 0:
	case 1:
		dig(1 + r.Intn(3))
	case 2:
		s += r.Pick("0", "00", "1", "9")
	default:
		dig(1 + r.Intn(25))
	}
	if r.P(75) {
		s += "."
		n := digits + r.Intn(3) - 1
		if r.P(60) || n < 0 {
			n = r.Intn(digits + 1)
		}
		dig(n)
	}
	if r.P(12) {
		i := r.Intn(len(s) + 1)
		s = s[:i] + r.Pick("-", "+", ".", "_", "e", "x", "0x", " ", ",", "٣", "\x00", "a") + s[i:]
	}
	if r.P(5) {
		s = r.Pick("", ".", "-", "-.", "+", "+1", "--1", "1..2", "1.-2", "1.+2", "1_0", "0b1", "1e2", "+.5", ".+5", ".-5", "-.5", "5.", "-5.")
	}
	return s
}

func VG_Parse(r *vc.Rand) (*big.Int, string, int) {
	d := r.Intn(20)
	return r.Big(100, true), vgDecimal(r, d), d
}

//vc:property C13
//vc:gen VG_Parse
func VB_Parse(num *big.Int, s string, digits int) {
	want, ok := vcDecimal(s, digits)
	got, err := parseDigits(num, s, digits)
	vc.Ensures("accepts exactly the decimal texts", func() bool { return ok == (err == nil) })
	vc.Ensures("exact value", func() bool { return !ok || vc.Eq(got, want) && got == num })
}

func VG_ParseAny(r *vc.Rand) (Currency, string, *big.Int, string, Currency) {
	c := vgCurrency(r)
	return c, vgDecimal(r, c.Digits()), r.Big(100, true), vgDecimal(r, RateDigits), vgCurrency(r)
}

//vc:property C13
//vc:gen VG_ParseAny
func VB_ParseAny(c Currency, s string, old *big.Int, rs string, c0 Currency) {
	want, ok := vcDecimal(s, c.Digits())
	a, err := c.ParseAmount(s)
	vc.Ensures("ParseAmount accepts exactly the decimal texts", func() bool { return ok == (err == nil) })
	vc.Ensures("ParseAmount value and currency", func() bool { return !ok || a.Currency == c && vc.Eq(&a.Amount, want) })
	old0 := vc.Copy(old)
	if !strings.ContainsAny(s, " _ex\x00,a٣") && s != "" {
		txt := s + " " + string(c)
		b, err := ParseAmount(txt)
		vc.Ensures("amount text accepted exactly", func() bool { return ok == (err == nil) })
		vc.Ensures("amount text value and currency", func() bool { return !ok || b.Currency == c && vc.Eq(&b.Amount, want) })
		d := &Amount{c0, *vc.Copy(old0)}
		err = d.UnmarshalText([]byte(txt))
		vc.Ensures("amount text into a used target", func() bool {
			return ok == (err == nil) && (!ok || d.Currency == c && vc.Eq(&d.Amount, want))
		})
	}
	want, ok = vcDecimal(rs, RateDigits)
	r, err := ParseRate(rs)
	vc.Ensures("ParseRate", func() bool { return ok == (err == nil) && (!ok || vc.Eq((*big.Int)(r), want)) })
	for _, js := range []string{rs, `"` + rs + `"`} {
		if js == "null" || js == rs && strings.HasPrefix(rs, `"`) {
			continue
		}
		q := (*Rate)(vc.Copy(old0))
		err := q.UnmarshalJSON([]byte(js))
		vc.Ensures("Rate.UnmarshalJSON", func() bool { return ok == (err == nil) && (!ok || vc.Eq((*big.Int)(q), want)) })
	}
}

func VG_JSONBytes(r *vc.Rand) []byte {
	if r.P(50) {
		return []byte(r.Pick(`"`, `""`, `"1`, `1"`, `null`, ``, `"null"`, `"1.5"`, `[]`, `"\u0031"`))
	}
	return r.Data(6)
}

//vc:property C13
//vc:gen VG_JSONBytes
func VB_RateJSON(b []byte) {
	want, ok := vcDecimal(string(b), RateDigits)
	if len(b) >= 2 && b[0] == '"' && b[len(b)-1] == '"' {
		want, ok = vcDecimal(string(b[1:len(b)-1]), RateDigits)
	}
	null := string(b) == "null"
	var q Rate
	err := q.UnmarshalJSON(b)
	vc.Ensures("value or error", func() bool { return null || ok == (err == nil) && (!ok || vc.Eq((*big.Int)(&q), want)) })
}

func VG_Print(r *vc.Rand) (Currency, *big.Int, *big.Int, Currency) {
	v := r.Big(8*r.Intn(16)+8, true)
	if r.P(20) {
		v = vc.Add(vcTen(r.Intn(30)), vc.I(int64(r.Intn(3)-1)))
	}
	return vgCurrency(r), v, r.Big(120, true), vgCurrency(r)
}

//vc:property C13
//vc:gen VG_Print
func VB_Print(c Currency, v, rate *big.Int, to Currency) {
	a := &Amount{c, *vc.Copy(v)}
	txt := a.String()
	got, ok := vcDecimal(strings.TrimSuffix(txt, " "+string(c)), c.Digits())
	vc.Ensures("prints the value", func() bool { return ok && vc.Eq(got, v) })
	b, err := ParseAmount(txt)
	vc.Ensures("parses back", func() bool { return err == nil && b.Currency == c && vc.Eq(&b.Amount, v) })
	js, err := json.Marshal(a)
	vc.Ensures("has a JSON form", func() bool { return err == nil })
	d := &Amount{to, *vc.Copy(rate)}
	err = json.Unmarshal(js, d)
	vc.Ensures("JSON into a used target", func() bool { return err == nil && d.Currency == c && vc.Eq(&d.Amount, v) })
	vc.Ensures("printing leaves the amount", func() bool { return vc.Eq(&a.Amount, v) && a.Currency == c })

	r := (*Rate)(vc.Copy(rate))
	q, err := ParseRate(r.String())
	vc.Ensures("rate parses back", func() bool { return err == nil && vc.Eq((*big.Int)(q), rate) })
	js, err = json.Marshal(r)
	vc.Ensures("rate has a JSON form", func() bool { return err == nil })
	q2 := (*Rate)(vc.Copy(v))
	err = json.Unmarshal(js, q2)
	vc.Ensures("rate JSON into a used target", func() bool { return err == nil && vc.Eq((*big.Int)(q2), rate) })
	var q3 Rate
	_, err = fmt.Sscan(r.String(), &q3)
	vc.Ensures("rate is scanned", func() bool { return err == nil && vc.Eq((*big.Int)(&q3), rate) })

	p := &Pair{From: c, To: to, Rate: *r}
	p2 := &Pair{From: to, To: to, Rate: Rate(*vc.Copy(v))}
	pt, err := p.MarshalText()
	vc.Ensures("pair text", func() bool { return err == nil })
	err = p2.UnmarshalText(pt)
	vc.Ensures("pair parses back", func() bool {
		return err == nil && p2.From == c && p2.To == to && vc.Eq((*big.Int)(&p2.Rate), rate)
	})
	vc.Ensures("rate unchanged", func() bool { return vc.Eq((*big.Int)(r), rate) })
}

// ---- C14

func vcPanics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func VG_Arith(r *vc.Rand) (c, d Currency, x, y *big.Int) {
	c, d = vgCurrency(r), vgCurrency(r)
	if r.P(70) {
		d = c
	}
	x, y = r.Big(150, true), r.Big(150, true)
	if r.P(15) {
		y = vc.Copy(x)
	}
	if r.P(15) {
		x = vc.I(0)
	}
	return
}

//vc:property C14
//vc:gen VG_Arith
func VB_Arith(c, d Currency, x, y *big.Int) {
	mk := func() (*Amount, *Amount) { return &Amount{c, *vc.Copy(x)}, &Amount{d, *vc.Copy(y)} }
	if c != d {
		vc.Ensures("refuses to add", func() bool { a, b := mk(); return vcPanics(func() { a.Add(b) }) && vc.Eq(&a.Amount, x) })
		vc.Ensures("refuses to subtract", func() bool { a, b := mk(); return vcPanics(func() { a.Sub(b) }) && vc.Eq(&a.Amount, x) })
		vc.Ensures("refuses to compare", func() bool { a, b := mk(); return vcPanics(func() { a.Cmp(b) }) })
		return
	}
	is := func(a *Amount, v *big.Int) bool { return a.Currency == c && vc.Eq(&a.Amount, v) }
	a, b := mk()
	r := a.Add(b)
	vc.Ensures("sum", func() bool { return r == a && is(a, vc.Add(x, y)) && is(b, y) })
	a, b = mk()
	r = a.Sub(b)
	vc.Ensures("difference", func() bool { return r == a && is(a, vc.Sub(x, y)) && is(b, y) })
	a, b = mk()
	r = a.Neg()
	vc.Ensures("negation", func() bool { return r == a && is(a, vc.Neg(x)) })
	a, b = mk()
	n, s := a.Cmp(b), a.Sign()
	vc.Ensures("comparison", func() bool { return n == x.Cmp(y) && s == x.Sign() && is(a, x) && is(b, y) })
	r = a.Copy()
	r.Amount.Add(&r.Amount, vc.I(1))
	vc.Ensures("a copy is its own", func() bool { return is(a, x) && is(r, vc.Add(x, vc.I(1))) })
	z := new(Amount)
	z.Add(a)
	vc.Ensures("sum from nothing", func() bool { return is(z, x) && is(a, x) })
	z = new(Amount)
	z.Sub(a)
	vc.Ensures("difference from nothing", func() bool { return is(z, vc.Neg(x)) && is(a, x) })
	a, _ = mk()
	a.Add(a)
	vc.Ensures("doubled in place", func() bool { return is(a, vc.Mul(x, vc.I(2))) })
	a.Sub(a)
	vc.Ensures("subtracted from itself", func() bool { return is(a, vc.I(0)) })
}

func VG_Convert(r *vc.Rand) (c, d Currency, x, rate *big.Int) {
	c, d = vgCurrency(r), vgCurrency(r)
	x, rate = r.Big(8+8*r.Intn(20), true), r.Big(8+8*r.Intn(10), r.P(20))
	if r.P(10) {
		rate = vc.Mul(vcTen(8), vc.I(int64(1+r.Intn(3))))
	}
	return
}

// vcConverted: got is x·rate/10^8 in the units of the target, rounded down
func vcConverted(got, x, rate *big.Int, from, to int) bool {
	n, d := vc.Mul(x, rate), vcTen(8)
	if to >= from {
		n = vc.Mul(n, vcTen(to-from))
	} else {
		d = vc.Mul(d, vcTen(from-to))
	}
	rest := vc.Sub(n, vc.Mul(got, d))
	return vc.Le(vc.I(0), rest) && vc.Lt(rest, d)
}

//vc:property C14
//vc:gen VG_Convert
func VB_Convert(c, d Currency, x, rate *big.Int) {
	a := &Amount{c, *vc.Copy(x)}
	r := (*Rate)(vc.Copy(rate))
	b := Convert(a, d, r)
	same := func() bool { return a.Currency == c && vc.Eq(&a.Amount, x) && vc.Eq((*big.Int)(r), rate) }
	vc.Ensures("the product rounded down", func() bool {
		return b.Currency == d && vcConverted(&b.Amount, x, rate, c.Digits(), d.Digits())
	})
	vc.Ensures("arguments unchanged", same)
	p := &Pair{From: c, To: d, Rate: *(*Rate)(vc.Copy(rate))}
	b = p.Convert(a)
	vc.Ensures("by a pair", func() bool {
		return b.Currency == d && vcConverted(&b.Amount, x, rate, c.Digits(), d.Digits())
	})
	inv := r.Inverse()
	var inv0 *big.Int
	vc.Ensures("reciprocal", func() bool {
		if rate.Sign() == 0 {
			return inv.Sign() == 0
		}
		inv0 = vc.Copy((*big.Int)(inv))
		rest := vc.Sub(vcTen(16), vc.Mul(rate, inv0))
		return vc.Lt(vc.Abs(rest), vc.Abs(rate)) && (rate.Sign() < 0 || rest.Sign() >= 0)
	})
	vc.Ensures("arguments unchanged", same)
	if c != d && rate.Sign() > 0 {
		back := &Amount{d, *vc.Copy(x)}
		b = p.Convert(back)
		vc.Ensures("back at the reciprocal", func() bool {
			return b.Currency == c && vcConverted(&b.Amount, x, inv0, d.Digits(), c.Digits())
		})
		q := p.Inverse()
		vc.Ensures("inverse pair", func() bool { return q.From == d && q.To == c && vc.Eq((*big.Int)(&q.Rate), inv0) })
		other := vcMade[0]
		for other == c || other == d {
			other = vcMade[1+len(other)%7]
			if other == c || other == d {
				other = vcMade[20]
				break
			}
		}
		if other != c && other != d {
			vc.Ensures("refuses another currency", func() bool { return vcPanics(func() { p.Convert(&Amount{other, *vc.I(1)}) }) })
		}
	}
	vc.Ensures("pair unchanged", func() bool { return vc.Eq((*big.Int)(&p.Rate), rate) && p.From == c && p.To == d })
}
