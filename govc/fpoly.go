package main

import (
	"math/big"
	"sort"
	"strings"
)

// FPoly: polynomial over GF(p) with big exponents (secp256k1 field).
type fmono struct {
	c *big.Int
	v []fvar
}
type fvar struct {
	t *Term
	e *big.Int
}
type FPoly struct{ m []fmono }

var secpP, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
var secpN, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)

func fmkey(v []fvar) string {
	var b strings.Builder
	for _, x := range v {
		b.WriteString(itoa(x.t.id))
		b.WriteByte('^')
		b.WriteString(x.e.Text(16))
		b.WriteByte(' ')
	}
	return b.String()
}
func itoa(n int) string { return big.NewInt(int64(n)).String() }

// fermat reduces exponents: v^p = v for every v, p being prime.
func fermat(v []fvar) []fvar {
	var n []fvar
	for i, x := range v {
		if x.e.Cmp(secpP) >= 0 {
			if n == nil {
				n = append([]fvar(nil), v...)
			}
			e := new(big.Int).Sub(x.e, bi(1))
			e.Mod(e, new(big.Int).Sub(secpP, bi(1)))
			n[i].e = e.Add(e, bi(1))
		}
	}
	if n != nil {
		return n
	}
	return v
}

func fpNorm(ms []fmono) *FPoly {
	idx := map[string]int{}
	var out []fmono
	var keys []string
	for _, m := range ms {
		m.v = fermat(m.v)
		k := fmkey(m.v)
		if i, ok := idx[k]; ok {
			out[i].c = new(big.Int).Add(out[i].c, m.c)
		} else {
			idx[k] = len(out)
			out = append(out, m)
			keys = append(keys, k)
		}
	}
	type kk struct {
		k string
		m fmono
	}
	var ks []kk
	for i, m := range out {
		m.c = new(big.Int).Mod(m.c, secpP)
		if m.c.Sign() != 0 {
			ks = append(ks, kk{keys[i], m})
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].k < ks[j].k })
	r := &FPoly{}
	for _, k := range ks {
		r.m = append(r.m, k.m)
	}
	return r
}
func fpConst(c *big.Int) *FPoly { return fpNorm([]fmono{{c, nil}}) }
func fpVar(t *Term) *FPoly      { return &FPoly{[]fmono{{bi(1), []fvar{{t, bi(1)}}}}} }
func fpAdd(a, b *FPoly) *FPoly {
	return fpNorm(append(append([]fmono(nil), a.m...), b.m...))
}
func fpScale(a *FPoly, k *big.Int) *FPoly {
	var ms []fmono
	for _, m := range a.m {
		ms = append(ms, fmono{new(big.Int).Mul(m.c, k), m.v})
	}
	return fpNorm(ms)
}
func fpNeg(a *FPoly) *FPoly    { return fpScale(a, bi(-1)) }
func fpSub(a, b *FPoly) *FPoly { return fpAdd(a, fpNeg(b)) }
func fpMul(a, b *FPoly) *FPoly {
	var ms []fmono
	for _, x := range a.m {
		for _, y := range b.m {
			var v []fvar
			i, j := 0, 0
			for i < len(x.v) || j < len(y.v) {
				switch {
				case j >= len(y.v) || (i < len(x.v) && x.v[i].t.id < y.v[j].t.id):
					v = append(v, x.v[i])
					i++
				case i >= len(x.v) || y.v[j].t.id < x.v[i].t.id:
					v = append(v, y.v[j])
					j++
				default:
					v = append(v, fvar{x.v[i].t, new(big.Int).Add(x.v[i].e, y.v[j].e)})
					i++
					j++
				}
			}
			ms = append(ms, fmono{new(big.Int).Mul(x.c, y.c), v})
		}
	}
	return fpNorm(ms)
}
func fpIsZero(a *FPoly) bool { return len(a.m) == 0 }
func fpEq(a, b *FPoly) bool  { return fpIsZero(fpSub(a, b)) }
func (a *FPoly) String() string {
	var s []string
	for i, m := range a.m {
		if i > 20 {
			s = append(s, "...")
			break
		}
		t := m.c.Text(10)
		if len(t) > 12 {
			t = "0x" + m.c.Text(16)
		}
		for _, v := range m.v {
			t += "*" + v.t.name
			if v.e.Cmp(bi(1)) != 0 {
				t += "^" + v.e.Text(10)
			}
		}
		s = append(s, t)
	}
	if len(s) == 0 {
		return "0"
	}
	return strings.Join(s, " + ")
}

// degree-limited constant test
func (a *FPoly) isConst() (*big.Int, bool) {
	if len(a.m) == 0 {
		return bi(0), true
	}
	if len(a.m) == 1 && len(a.m[0].v) == 0 {
		return a.m[0].c, true
	}
	return nil, false
}
